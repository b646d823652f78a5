//! C01 and C02: the tablet metadata cache against a model of the tablet store.

use crate::common::*;
use pbt::{ensure, facet, Facet, Info, Outcome};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    ExecuteTabletOpsError, ExecuteTabletOpsResponse, TableMetadataCacheConfig, TabletDataCacheConfig,
    TabletMetadataCacheConfig, TransactionManagerConfig,
};
use tcp_tablet_cache_service::transaction::coordinator::DefaultTabletTransactionCoordinator;
use tcp_tablet_cache_service::transaction::data::{
    BytesTabletDataSerializer, DefaultTabletDataCache, DefaultTabletDataCachePolicy,
};
use tcp_tablet_cache_service::transaction::manager::DefaultTabletTransactionManager;
use tcp_tablet_cache_service::transaction::metadata::{
    DefaultTabletMetadataCache, TabletMetadataCache, TabletMetadataCacheInMessage,
    TabletMetadataCacheOutMessage,
};
use tcp_tablet_cache_service::transaction::result::ResultHandle;
use tcp_tablet_cache_service::transaction::{
    InMessage, OutMessage, TableQuery, TabletTransactionContext, TabletTransactionManager,
};
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, tablet_op_result::OpResult, TabletMetadata, TabletOp, TabletOpResult,
    TabletOpStatus, TabletsRequestStatus, TabletsResponse,
};

pub type Manager = DefaultTabletTransactionManager<prost::bytes::Bytes>;

pub fn metadata_config(specs: &[TableSpec]) -> TabletMetadataCacheConfig {
    TabletMetadataCacheConfig {
        table_configs: specs
            .iter()
            .enumerate()
            .map(|(i, s)| TableMetadataCacheConfig {
                table_name: table_name(i),
                table_region_size: s.region_size,
            })
            .collect(),
    }
}

pub fn new_manager(specs: &[TableSpec]) -> Manager {
    let mut manager = DefaultTabletTransactionManager::create(
        Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
        Box::new(DefaultTabletMetadataCache::create(3 << 56)),
        Box::new(DefaultTabletDataCache::create(
            2 << 56,
            Box::new(BytesTabletDataSerializer {}),
            Box::new(DefaultTabletDataCachePolicy::new()),
        )),
    );
    manager.init(
        logger(),
        TransactionManagerConfig {
            data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 1 << 20 }),
            metadata_cache_config: Some(metadata_config(specs)),
        },
    );
    manager
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QuerySpec {
    pub table: u8,
    pub keys: Vec<Point>,
}

pub fn query_spec(max_keys: usize) -> impl Strategy<Value = QuerySpec> {
    (any::<u8>(), prop::collection::vec(point(), 0..=max_keys)).prop_map(|(table, keys)| QuerySpec { table, keys })
}

/// A query as handed to the code: id, table and keys.
#[derive(Clone, Debug)]
pub struct Query {
    pub id: u64,
    pub table: String,
    pub keys: BTreeSet<u32>,
}

impl Query {
    pub fn create(id: u64, spec: &QuerySpec, specs: &[TableSpec], store: &ModelStore) -> Query {
        let i = spec.table as usize % specs.len();
        let table = table_name(i);
        let ids = &store.ids[&table];
        Query {
            id,
            keys: spec.keys.iter().map(|p| place(p, specs[i].region_size, ids)).collect(),
            table,
        }
    }

    pub fn to_table_query(&self) -> TableQuery {
        TableQuery::create(self.id, self.table.clone(), self.keys.iter().copied().collect())
    }
}

/// Checks the keys of a resolution: every key of the queries once, with its owner, and nothing
/// else.
pub fn check_routing(queries: &[Query], store: &ModelStore, results: &[(TableQuery, u32)]) -> Result<(), String> {
    let mut expected: BTreeMap<(String, u32), BTreeSet<u32>> = BTreeMap::new();
    for q in queries {
        for k in &q.keys {
            expected.entry((q.table.clone(), owner(&store.ids[&q.table], *k))).or_default().insert(*k);
        }
    }
    let mut seen: BTreeMap<(String, u32), BTreeSet<u32>> = BTreeMap::new();
    for (query, tablet) in results {
        let at = (query.get_table_name().clone(), *tablet);
        ensure!(
            queries.iter().any(|q| q.id == query.get_id()
                && q.table == at.0
                && q.keys.iter().any(|k| owner(&store.ids[&q.table], *k) == *tablet)),
            "result for tablet {at:?} carries id {} of no query that touches the tablet",
            query.get_id()
        );
        ensure!(
            seen.insert(at.clone(), query.get_key_hashes().clone()).is_none(),
            "tablet {at:?} is in the result twice"
        );
    }
    for (at, keys) in &expected {
        let got = seen.get(at).cloned().unwrap_or_default();
        ensure!(got == *keys, "tablet {at:?} of {:?} owns keys {keys:?} but got {got:?}", store.ids[&at.0]);
    }
    for (at, keys) in &seen {
        ensure!(expected.contains_key(at), "tablet {at:?} owns no requested key but got {keys:?}");
    }
    Ok(())
}

fn fail_results(ops: &[TabletOp], mut results: Vec<TabletOpResult>, mask: u32, mode: u8) -> Vec<TabletOpResult> {
    for (i, result) in results.iter_mut().enumerate() {
        if mask >> (i % 32) & 1 == 0 {
            continue;
        }
        result.status = match mode % 4 {
            0 => TabletOpStatus::Failed.into(),
            1 => TabletOpStatus::Aborted.into(),
            2 => TabletOpStatus::Invalid.into(),
            _ => TabletOpStatus::Unspecified.into(),
        };
        // Failed listing holds no tablets, or holds ones that must not be believed.
        if let (Some(OpResult::ListTablet(list)), Some(Op::ListTablet(_))) = (&mut result.op_result, &ops[i].op) {
            if mode & 4 == 0 {
                list.tablets.clear();
            }
        }
    }
    results
}

// ---------------------------------------------------------------------------------------------
// C01

#[derive(Clone, Debug, Serialize, Deserialize)]
enum RouteStep {
    Resolve { queries: Vec<QuerySpec>, handler: bool },
    Progress,
    /// Answers one of the outstanding requests, some of its listings fail.
    Answer { which: u8, fail: u32, mode: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RouteCase {
    tables: Vec<TableSpec>,
    versions: Vec<u8>,
    steps: Vec<RouteStep>,
}

fn route_case() -> impl Strategy<Value = RouteCase> {
    (
        prop::collection::vec(table_spec(8), 1..=2),
        prop::collection::vec(any::<u8>(), 16),
        prop::collection::vec(
            prop_oneof![
                3 => (prop::collection::vec(query_spec(8), 0..4), any::<bool>())
                    .prop_map(|(queries, handler)| RouteStep::Resolve { queries, handler }),
                3 => Just(RouteStep::Progress),
                3 => (any::<u8>(), prop_oneof![3 => Just(0u32), 2 => any::<u32>()], any::<u8>())
                    .prop_map(|(which, fail, mode)| RouteStep::Answer { which, fail, mode }),
            ],
            1..12,
        ),
    )
        .prop_map(|(tables, versions, steps)| RouteCase { tables, versions, steps })
}

fn versioned_store(tables: &[TableSpec], versions: &[u8]) -> ModelStore {
    let mut store = ModelStore::create(tables);
    let mut n = 0;
    for tablets in store.tables.values_mut() {
        for history in tablets.values_mut() {
            let v = versions[n % versions.len()] as u32;
            n += 1;
            history[0].tablet_version = v;
            if v > 0 {
                history[0].blob_uri = format!("{}_{v}", history[0].tablet_id);
                history[0].blob_size = v;
            }
        }
    }
    store
}

type Resolved = Vec<(TableQuery, TabletMetadata)>;

enum Pending {
    Handle(ResultHandle<Resolved, TabletsRequestStatus>),
    Handler(Rc<RefCell<Vec<Vec<(TableQuery, u32)>>>>),
}

impl Pending {
    fn poll(&self) -> Result<Option<(Vec<(TableQuery, u32)>, Option<Resolved>)>, String> {
        match self {
            Pending::Handle(handle) => match handle.check_result() {
                None => Ok(None),
                Some(Ok(r)) => Ok(Some((r.iter().map(|(q, m)| (q.clone(), m.tablet_id)).collect(), Some(r)))),
                Some(Err(e)) => Err(format!("resolution failed with {e:?}")),
            },
            Pending::Handler(calls) => {
                let calls = calls.borrow();
                ensure!(calls.len() <= 1, "resolution handler has been called {} times", calls.len());
                Ok(calls.first().map(|c| (c.clone(), None)))
            }
        }
    }
}

fn resolve(cache: &mut DefaultTabletMetadataCache, queries: &[Query], handler: bool) -> Pending {
    let table_queries = queries.iter().map(|q| q.to_table_query()).collect();
    if handler {
        let calls = Rc::new(RefCell::new(Vec::new()));
        let sink = calls.clone();
        cache.resolve_tablets_with_handler(
            &table_queries,
            Box::new(move |r| {
                sink.borrow_mut().push(r.into_iter().map(|(q, d)| (q, d.get_id())).collect::<Vec<_>>())
            }),
        );
        Pending::Handler(calls)
    } else {
        Pending::Handle(cache.resolve_tablets(&table_queries))
    }
}

fn take_lists(cache: &mut DefaultTabletMetadataCache, out: &mut Vec<(u64, Vec<TabletOp>)>) {
    for message in cache.take_out_messages() {
        let TabletMetadataCacheOutMessage::ListRequest(id, ops) = message;
        out.push((id, ops));
    }
}

/// Listings must be of the tables' rings and must be needed by somebody.
fn check_list_ops(ops: &[TabletOp], store: &ModelStore) -> Result<(), String> {
    ensure!(!ops.is_empty(), "request without listings");
    for op in ops {
        ensure!(store.tables.contains_key(&op.table_name), "listing of unknown table {}", op.table_name);
        ensure!(matches!(op.op, Some(Op::ListTablet(_))), "metadata cache sent {op:?}");
    }
    Ok(())
}

fn check_route(case: &RouteCase) -> Outcome {
    let mut store = versioned_store(&case.tables, &case.versions);
    let mut cache = DefaultTabletMetadataCache::create(3 << 56);
    cache.init(logger(), metadata_config(&case.tables));
    let mut out: Vec<(u64, Vec<TabletOp>)> = Vec::new();
    let mut pending: Vec<(Vec<Query>, Pending)> = Vec::new();
    let mut all_queries: Vec<Vec<Query>> = Vec::new();
    let mut info = Info::default();
    let mut query_id = 0;

    let settle = |pending: &mut Vec<(Vec<Query>, Pending)>, store: &ModelStore| -> Result<(), String> {
        let mut left = Vec::new();
        for (queries, p) in pending.drain(..) {
            match p.poll()? {
                None => left.push((queries, p)),
                Some((routes, metadata)) => {
                    check_routing(&queries, store, &routes)?;
                    for (q, m) in metadata.into_iter().flatten() {
                        let current = store.current(q.get_table_name(), m.tablet_id);
                        ensure!(m == *current, "metadata {m:?} handed out, tablet store has {current:?}");
                    }
                }
            }
        }
        *pending = left;
        Ok(())
    };

    for step in &case.steps {
        match step {
            RouteStep::Resolve { queries, handler } => {
                let queries: Vec<Query> = queries
                    .iter()
                    .map(|q| {
                        query_id += 1;
                        Query::create(query_id, q, &case.tables, &store)
                    })
                    .collect();
                let p = resolve(&mut cache, &queries, *handler);
                info.label(pending.len() > 1, "concurrent resolutions");
                all_queries.push(queries.clone());
                pending.push((queries, p));
            }
            RouteStep::Progress => {
                cache.make_progress(1);
                take_lists(&mut cache, &mut out);
            }
            RouteStep::Answer { which, fail, mode } => {
                if !out.is_empty() {
                    let (id, ops) = out.remove(*which as usize % out.len());
                    check_list_ops(&ops, &store)?;
                    let (response, _) = store.execute(&ops);
                    let results = fail_results(&ops, response.tablet_results, *fail, *mode);
                    info.label(*fail != 0, "failed listing");
                    cache.process_in_message(TabletMetadataCacheInMessage::ListResponse(id, results));
                }
            }
        }
        settle(&mut pending, &store)?;
    }

    // All listings are answered from now on.
    for round in 0.. {
        cache.make_progress(2);
        take_lists(&mut cache, &mut out);
        if out.is_empty() {
            break;
        }
        ensure!(round < 4, "listings are asked for over and over again");
        for (id, ops) in std::mem::take(&mut out) {
            check_list_ops(&ops, &store)?;
            let (response, _) = store.execute(&ops);
            cache.process_in_message(TabletMetadataCacheInMessage::ListResponse(id, response.tablet_results));
            settle(&mut pending, &store)?;
        }
    }
    ensure!(pending.is_empty(), "{} resolutions didn't complete although all listings are answered", pending.len());

    // Everything is known now: the same resolutions complete at once.
    for (i, queries) in all_queries.iter().enumerate() {
        let p = resolve(&mut cache, queries, i % 2 == 1);
        let Some((routes, _)) = p.poll()? else {
            return Err("resolution of known tablets didn't complete at once".to_string());
        };
        check_routing(queries, &store, &routes)?;
        cache.make_progress(3);
        take_lists(&mut cache, &mut out);
        ensure!(out.is_empty(), "known tablets are listed again");
    }

    for queries in &all_queries {
        for q in queries {
            let ids = &store.ids[&q.table];
            let region = case.tables.iter().enumerate().find(|(i, _)| table_name(*i) == q.table).unwrap().1.region_size;
            let owners: BTreeSet<u32> = q.keys.iter().map(|k| owner(ids, *k)).collect();
            let regions: BTreeSet<u32> = q.keys.iter().map(|k| k / region).collect();
            info.label(owners.len() > 1, "several tablets")
                .label(regions.len() > 1, "several regions")
                .label(q.keys.iter().any(|k| k > ids.last().unwrap()), "wrap around")
                .label(q.keys.iter().any(|k| ids.contains(k)), "key at tablet")
                .label(q.keys.iter().any(|k| k / region == u32::MAX / region), "last region");
            info.nontrivial |= owners.len() > 1;
        }
        info.label(
            queries.iter().enumerate().any(|(i, a)| queries[..i].iter().any(|b| a.table == b.table && !a.keys.is_empty() && !b.keys.is_empty())),
            "several queries of a table",
        );
    }
    Ok(info)
}

// The same through the transaction manager, whose handler may be called right away.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManagerRouteCase {
    tables: Vec<TableSpec>,
    rounds: Vec<(Vec<Vec<QuerySpec>>, u8, u32)>,
}

fn manager_route_case() -> impl Strategy<Value = ManagerRouteCase> {
    (
        prop::collection::vec(table_spec(6), 1..=2),
        prop::collection::vec(
            (
                prop::collection::vec(prop::collection::vec(query_spec(6), 0..3), 0..3),
                any::<u8>(),
                any::<u32>(),
            ),
            1..5,
        ),
    )
        .prop_map(|(tables, rounds)| ManagerRouteCase { tables, rounds })
}

fn check_manager_route(case: &ManagerRouteCase) -> Outcome {
    let mut store = ModelStore::create(&case.tables);
    let mut manager = new_manager(&case.tables);
    let mut info = Info::default();
    let mut query_id = 0;
    let mut pending: Vec<(Vec<Query>, Pending)> = Vec::new();
    let mut out: Vec<(u64, Vec<TabletOp>)> = Vec::new();
    let rounds = case.rounds.len() + 4;
    for r in 0..rounds {
        let honest = r >= case.rounds.len();
        let (resolves, mode, fail) = case.rounds.get(r).cloned().unwrap_or_default();
        for queries in &resolves {
            let queries: Vec<Query> = queries
                .iter()
                .map(|q| {
                    query_id += 1;
                    Query::create(query_id, q, &case.tables, &store)
                })
                .collect();
            info.nontrivial |= queries.iter().any(|q| {
                q.keys.iter().map(|k| owner(&store.ids[&q.table], *k)).collect::<BTreeSet<_>>().len() > 1
            });
            let calls = Rc::new(RefCell::new(Vec::new()));
            let sink = calls.clone();
            manager.resolve(
                queries.iter().map(|q| q.to_table_query()).collect(),
                Box::new(move |r| {
                    sink.borrow_mut().push(r.into_iter().map(|(q, d)| (q, d.get_id())).collect::<Vec<_>>())
                }),
            );
            pending.push((queries, Pending::Handler(calls)));
        }
        manager.make_progress(r as u64);
        for message in manager.take_out_messages() {
            match message {
                OutMessage::ExecuteTabletOpsRequest(id, _, request) => out.push((id, request.tablet_ops)),
                other => return Err(format!("resolution sent {other:?}")),
            }
        }
        // Some answers wait for the next round, some fail.
        let mut kept = Vec::new();
        for (i, (id, ops)) in std::mem::take(&mut out).into_iter().enumerate() {
            check_list_ops(&ops, &store)?;
            let choice = (fail >> (3 * i % 30)) & 7;
            if !honest && choice == 7 {
                kept.push((id, ops));
                continue;
            }
            if !honest && choice == 6 {
                info.label(true, "listing request error");
                manager.process_in_message(InMessage::ExecuteTabletOpsError(id, ExecuteTabletOpsError { status: mode as i32 % 5, diagnostic_message: String::new() }));
                continue;
            }
            let (mut response, _) = store.execute(&ops);
            if !honest && choice == 5 {
                info.label(true, "failed listing");
                response.tablet_results = fail_results(&ops, response.tablet_results, fail >> 8, mode);
                response.status = TabletsRequestStatus::Failed.into();
            }
            if !honest && choice == 3 {
                info.label(true, "listing reply that doesn't match the request");
                response = crate::world::spoil(&ops, response, mode, (fail >> 8) as u8);
            }
            if !honest && choice == 4 {
                info.label(true, "listing reply without results");
                response = TabletsResponse { status: mode as i32 % 5, tablet_results: Vec::new() };
            }
            manager.process_in_message(InMessage::ExecuteTabletOpsResponse(id, ExecuteTabletOpsResponse {}, response));
        }
        out = kept;
        let mut left = Vec::new();
        for (queries, p) in pending.drain(..) {
            match p.poll()? {
                None => left.push((queries, p)),
                Some((routes, _)) => check_routing(&queries, &store, &routes)?,
            }
        }
        pending = left;
    }
    ensure!(pending.is_empty(), "{} resolutions didn't complete although all listings are answered", pending.len());
    Ok(info)
}

// ---------------------------------------------------------------------------------------------
// C02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FreshStep {
    Resolve { queries: Vec<QuerySpec>, handler: bool },
    Progress,
    /// Answers a listing with the state of the store some commits ago, but not before the
    /// request has been sent.
    Answer { which: u8, ago: u8, fail: u32, mode: u8 },
    /// A transaction of this node commits, the cache is told later.
    LocalCommit { tablet: u8 },
    RemoteCommit { tablet: u8 },
    /// A transaction of this node conflicts, the cache is told later.
    Conflict { tablet: u8 },
    Tell { which: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FreshCase {
    tables: Vec<TableSpec>,
    steps: Vec<FreshStep>,
}

fn fresh_case() -> impl Strategy<Value = FreshCase> {
    let few_points = || prop::collection::vec(point(), 1..=4);
    let query = move || (any::<u8>(), few_points()).prop_map(|(table, keys)| QuerySpec { table, keys });
    (
        prop::collection::vec(
            (
                prop_oneof![Just(1u32 << 31), Just(u32::MAX), Just(1u32 << 30), (1u32 << 29)..(1u32 << 31)],
                prop::collection::vec(point(), 1..=3),
            )
                .prop_map(|(region_size, tablets)| TableSpec { region_size, tablets }),
            1..=2,
        ),
        prop::collection::vec(
            prop_oneof![
                5 => (prop::collection::vec(query(), 1..3), any::<bool>())
                    .prop_map(|(queries, handler)| FreshStep::Resolve { queries, handler }),
                4 => Just(FreshStep::Progress),
                6 => (any::<u8>(), prop_oneof![2 => Just(0u8), 3 => 0u8..6], prop_oneof![4 => Just(0u32), 1 => any::<u32>()], any::<u8>())
                    .prop_map(|(which, ago, fail, mode)| FreshStep::Answer { which, ago, fail, mode }),
                3 => any::<u8>().prop_map(|tablet| FreshStep::LocalCommit { tablet }),
                2 => any::<u8>().prop_map(|tablet| FreshStep::RemoteCommit { tablet }),
                3 => any::<u8>().prop_map(|tablet| FreshStep::Conflict { tablet }),
                5 => any::<u8>().prop_map(|which| FreshStep::Tell { which }),
            ],
            4..40,
        ),
    )
        .prop_map(|(tables, steps)| FreshCase { tables, steps })
}

struct Fresh {
    history: Vec<ModelStore>,
    /// Lower bounds for the versions handed out: reported to the cache or handed out before.
    floor: BTreeMap<(String, u32), u32>,
    handed: BTreeMap<(String, u32), u32>,
    /// Handed out by resolutions that completed by the same event, in unknown order.
    just_handed: Vec<((String, u32), u32)>,
    advanced: bool,
}

impl Fresh {
    fn store(&self) -> &ModelStore {
        self.history.last().unwrap()
    }

    fn commit(&mut self, tablet: u8) -> (String, TabletMetadata) {
        let mut store = self.store().clone();
        let all: Vec<(String, u32)> =
            store.ids.iter().flat_map(|(t, ids)| ids.iter().map(move |id| (t.clone(), *id))).collect();
        let (table, id) = all[tablet as usize % all.len()].clone();
        let mut m = store.current(&table, id).clone();
        m.tablet_version += 1;
        m.blob_uri = format!("{table}_{id}_{}_{}", m.tablet_version, self.history.len());
        store.tables.get_mut(&table).unwrap().get_mut(&id).unwrap().push(m.clone());
        self.history.push(store);
        (table, m)
    }

    fn handed_out(&mut self, table: &str, m: &TabletMetadata) -> Result<(), String> {
        let at = (table.to_string(), m.tablet_id);
        let committed = self.store().at_version(table, m.tablet_id, m.tablet_version);
        ensure!(committed == Some(m), "version {} of {at:?} handed out as {m:?}, the store has {committed:?}", m.tablet_version);
        let floor = self.floor.get(&at).copied().unwrap_or(0);
        ensure!(
            m.tablet_version >= floor,
            "version {} of {at:?} handed out after version {floor} was reported to the cache",
            m.tablet_version
        );
        let handed = self.handed.get(&at).copied();
        ensure!(
            handed.unwrap_or(0) <= m.tablet_version,
            "version {} of {at:?} handed out after version {}",
            m.tablet_version,
            handed.unwrap_or(0)
        );
        self.advanced |= handed.is_some_and(|h| h < m.tablet_version);
        self.just_handed.push((at, m.tablet_version));
        Ok(())
    }
}

fn check_fresh(case: &FreshCase) -> Outcome {
    let mut cache = DefaultTabletMetadataCache::create(3 << 56);
    cache.init(logger(), metadata_config(&case.tables));
    let mut fresh = Fresh {
        history: vec![ModelStore::create(&case.tables)],
        floor: BTreeMap::new(),
        handed: BTreeMap::new(),
        just_handed: Vec::new(),
        advanced: false,
    };
    // Requests along with the time they have been sent.
    let mut out: Vec<(u64, Vec<TabletOp>, usize)> = Vec::new();
    let mut tells: Vec<(String, TabletMetadata, bool)> = Vec::new();
    let mut pending: Vec<(Vec<Query>, Pending)> = Vec::new();
    let mut info = Info::default();
    let mut query_id = 0;
    let mut resolves = 0;

    fn settle(fresh: &mut Fresh, pending: &mut Vec<(Vec<Query>, Pending)>) -> Result<usize, String> {
        let mut left = Vec::new();
        let mut done = 0;
        for (queries, p) in pending.drain(..) {
            match p.poll()? {
                None => left.push((queries, p)),
                Some((routes, metadata)) => {
                    done += 1;
                    check_routing(&queries, fresh.store(), &routes)?;
                    for (q, m) in metadata.into_iter().flatten() {
                        fresh.handed_out(q.get_table_name(), &m)?;
                    }
                }
            }
        }
        *pending = left;
        for (at, version) in std::mem::take(&mut fresh.just_handed) {
            let handed = fresh.handed.entry(at).or_insert(version);
            *handed = (*handed).max(version);
        }
        Ok(done)
    }

    fn progress(
        cache: &mut DefaultTabletMetadataCache,
        fresh: &Fresh,
        out: &mut Vec<(u64, Vec<TabletOp>, usize)>,
        pending: &[(Vec<Query>, Pending)],
    ) -> Result<(), String> {
        cache.make_progress(1);
        let mut lists = Vec::new();
        take_lists(cache, &mut lists);
        for (id, ops) in lists {
            check_list_ops(&ops, fresh.store())?;
            out.push((id, ops, fresh.history.len() - 1));
        }
        // Whoever waits waits for a listing that has been asked for.
        for (queries, _) in pending {
            let asked = queries.iter().any(|q| {
                q.keys.iter().any(|k| {
                    out.iter().any(|(_, ops, _)| {
                        ops.iter().any(|op| {
                            op.table_name == q.table
                                && matches!(&op.op, Some(Op::ListTablet(l)) if in_arc(l.key_hash_from, l.key_hash_to, *k))
                        })
                    })
                })
            });
            ensure!(asked, "resolution of {queries:?} waits but no listing is outstanding for any of its keys");
        }
        Ok(())
    }

    for step in &case.steps {
        match step {
            FreshStep::Resolve { queries, handler } => {
                let queries: Vec<Query> = queries
                    .iter()
                    .map(|q| {
                        query_id += 1;
                        Query::create(query_id, q, &case.tables, fresh.store())
                    })
                    .collect();
                let p = resolve(&mut cache, &queries, *handler);
                resolves += 1;
                pending.push((queries, p));
            }
            FreshStep::Progress => progress(&mut cache, &fresh, &mut out, &pending)?,
            FreshStep::Answer { which, ago, fail, mode } => {
                if !out.is_empty() {
                    let (id, ops, sent) = out.remove(*which as usize % out.len());
                    let at = (fresh.history.len() - 1).saturating_sub(*ago as usize).max(sent);
                    info.label(at + 1 < fresh.history.len(), "old listing");
                    info.label(*fail != 0, "failed listing");
                    let (response, _) = fresh.history[at].clone().execute(&ops);
                    let results = fail_results(&ops, response.tablet_results, *fail, *mode);
                    let waiting = pending.len();
                    let all_failed = (0..results.len()).all(|i| fail >> (i % 32) & 1 == 1);
                    cache.process_in_message(TabletMetadataCacheInMessage::ListResponse(id, results));
                    let done = settle(&mut fresh, &mut pending)?;
                    ensure!(
                        !(all_failed && done > 0),
                        "{done} of {waiting} resolutions completed by a reply in which every listing failed"
                    );
                }
            }
            FreshStep::LocalCommit { tablet } => {
                let (table, m) = fresh.commit(*tablet);
                tells.push((table, m, false));
            }
            FreshStep::RemoteCommit { tablet } => {
                fresh.commit(*tablet);
            }
            FreshStep::Conflict { tablet } => {
                let store = fresh.store();
                let all: Vec<(String, u32)> =
                    store.ids.iter().flat_map(|(t, ids)| ids.iter().map(move |id| (t.clone(), *id))).collect();
                let (table, id) = all[*tablet as usize % all.len()].clone();
                tells.push((table.clone(), store.current(&table, id).clone(), true));
            }
            FreshStep::Tell { which } => {
                if !tells.is_empty() {
                    let (table, m, conflict) = tells.remove(*which as usize % tells.len());
                    info.label(conflict, "conflict").label(!conflict, "commit");
                    let floor = fresh.floor.entry((table.clone(), m.tablet_id)).or_insert(0);
                    info.label(*floor > m.tablet_version, "report out of order");
                    *floor = (*floor).max(m.tablet_version);
                    cache.update_tablet(table, m, conflict);
                }
            }
        }
        settle(&mut fresh, &mut pending)?;
    }

    // The last state is learnt by all who still wait, and once conflicts are reported.
    for (table, m, conflict) in tells.drain(..) {
        let floor = fresh.floor.entry((table.clone(), m.tablet_id)).or_insert(0);
        *floor = (*floor).max(m.tablet_version);
        cache.update_tablet(table, m, conflict);
    }
    let everything: Vec<Query> = case
        .tables
        .iter()
        .enumerate()
        .map(|(i, _)| Query {
            id: 1_000_000 + i as u64,
            table: table_name(i),
            keys: fresh.store().ids[&table_name(i)].iter().copied().collect(),
        })
        .collect();
    let p = resolve(&mut cache, &everything, false);
    pending.push((everything, p));
    for round in 0.. {
        settle(&mut fresh, &mut pending)?;
        progress(&mut cache, &fresh, &mut out, &pending)?;
        if out.is_empty() {
            break;
        }
        ensure!(round < 4, "listings are asked for over and over again");
        for (id, ops, _) in std::mem::take(&mut out) {
            let (response, _) = fresh.store().clone().execute(&ops);
            cache.process_in_message(TabletMetadataCacheInMessage::ListResponse(id, response.tablet_results));
            settle(&mut fresh, &mut pending)?;
        }
    }
    ensure!(pending.is_empty(), "{} resolutions didn't complete although all listings are answered", pending.len());
    info.nontrivial = fresh.advanced && resolves > 1;
    Ok(info)
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "C01",
            "route",
            "resolutions of generated keys placed around the boundaries of generated tablets and regions, with listings answered in any order and partly failing; non-trivial: a query spans several tablets",
            1_200_000,
            20_000_000,
            route_case,
            check_route,
        ),
        facet(
            "C01",
            "manager",
            "the same through the transaction manager with error and malformed replies; non-trivial: a query spans several tablets",
            500_000,
            10_000_000,
            manager_route_case,
            check_manager_route,
        ),
        facet(
            "C02",
            "fresh",
            "histories of resolutions, delayed and failed listings, commits and conflicts reported out of order; non-trivial: a tablet was handed out at two different versions",
            1_500_000,
            30_000_000,
            fresh_case,
            check_fresh,
        ),
    ]
}
