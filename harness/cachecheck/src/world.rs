//! C06 to C10: transaction managers of several nodes sharing a tablet store and a data storage,
//! under any interleaving, with faults, crashes and stray messages.

use crate::common::*;
use crate::meta::*;
use pbt::{facet, Facet, Info, Outcome};
use prost::bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    ExecuteTabletOpsError, ExecuteTabletOpsResponse, LoadTabletResponse, StoreTabletResponse,
    TabletDataStorageStatus,
};
use tcp_tablet_cache_service::transaction::{
    InMessage, OutMessage, TableQuery, TabletTransaction, TabletTransactionCommit,
    TabletTransactionContext, TabletTransactionManager, TabletTransactionOutcome,
};
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, tablet_op_result::OpResult, AddTabletResult, CheckTabletResult,
    ListTabletResult, TabletMetadata, TabletOp, TabletOpResult, TabletOpStatus,
    TabletsRequestStatus, TabletsResponse, UpdateTabletResult,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Action {
    Read,
    /// Writes something that depends on the transaction and everything it sees.
    Derive,
    /// Writes something that doesn't, others write the same.
    Const(u8),
    /// Writes what is there already.
    Same,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Process {
    queries: Vec<QuerySpec>,
    /// By position of the tablet among those touched.
    actions: Vec<Action>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fate {
    Good,
    /// Nothing was executed, at least not so far, the node is told of an error.
    Error,
    /// The request was executed, the node is told of an error.
    Lost,
    Bad { mode: u8, mask: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Start { node: u8, process: Process },
    Add { tx: u8, process: Process },
    Commit { tx: u8 },
    Abort { tx: u8 },
    Resolve { node: u8, queries: Vec<QuerySpec> },
    Progress { node: u8 },
    /// Executes a request, the reply stays under way.
    Execute { which: u8 },
    Deliver { which: u8, fate: Fate },
    /// Answers a commit.
    Answer { which: u8, fate: Fate },
    /// Everything outstanding is answered.
    Round,
    Stray { node: u8, kind: u8, which: u8, mode: u8 },
    Crash { node: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tables: Vec<TableSpec>,
    nodes: u8,
    steps: Vec<Step>,
    /// Lets processing steps of a transaction touch the same tablet, which is a known finding.
    #[serde(default)]
    overlap: bool,
}

fn process() -> impl Strategy<Value = Process> {
    let key = prop_oneof![
        1 => any::<u32>().prop_map(Point::Raw),
        4 => (any::<u8>(), -1i8..=1).prop_map(|(i, d)| Point::Tablet(i, d)),
    ];
    let query = (any::<u8>(), prop::collection::vec(key, 0..4)).prop_map(|(table, keys)| QuerySpec { table, keys });
    let action = prop_oneof![
        3 => Just(Action::Read),
        5 => Just(Action::Derive),
        2 => (0u8..3).prop_map(Action::Const),
        1 => Just(Action::Same),
    ];
    (
        prop_oneof![1 => prop::collection::vec(query.clone(), 0..2), 6 => prop::collection::vec(query, 1..3)],
        prop::collection::vec(action, 1..4),
    )
        .prop_map(|(queries, actions)| Process { queries, actions })
}

fn case(faults: u32, strays: u32, crashes: u32, rounds: u32, answers: u32) -> impl Strategy<Value = Case> {
    let fate = prop_oneof![
        24 => Just(Fate::Good),
        faults => Just(Fate::Error),
        faults => Just(Fate::Lost),
        2 * faults => (any::<u8>(), any::<u8>()).prop_map(|(mode, mask)| Fate::Bad { mode, mask }),
    ];
    let step = prop_oneof![
        12 => (any::<u8>(), process()).prop_map(|(node, process)| Step::Start { node, process }),
        4 => (any::<u8>(), process()).prop_map(|(tx, process)| Step::Add { tx, process }),
        18 => any::<u8>().prop_map(|tx| Step::Commit { tx }),
        1 => any::<u8>().prop_map(|tx| Step::Abort { tx }),
        2 => (any::<u8>(), prop::collection::vec(query_spec(3), 0..3)).prop_map(|(node, queries)| Step::Resolve { node, queries }),
        8 => any::<u8>().prop_map(|node| Step::Progress { node }),
        6 => any::<u8>().prop_map(|which| Step::Execute { which }),
        40 => (any::<u8>(), fate.clone()).prop_map(|(which, fate)| Step::Deliver { which, fate }),
        answers => (any::<u8>(), fate).prop_map(|(which, fate)| Step::Answer { which, fate }),
        rounds => Just(Step::Round),
        strays => (any::<u8>(), 0u8..12, any::<u8>(), any::<u8>()).prop_map(|(node, kind, which, mode)| Step::Stray { node, kind, which, mode }),
        crashes => any::<u8>().prop_map(|node| Step::Crash { node }),
    ];
    (
        prop::collection::vec(table_spec(3), 1..=2),
        prop_oneof![2 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8)],
        prop_oneof![1 => prop::collection::vec(step.clone(), 4..40), 2 => prop::collection::vec(step, 40..120)],
    )
        .prop_map(|(tables, nodes, steps)| Case { tables, nodes, steps, overlap: false })
}

pub enum Kind {
    Load(String),
    Store(String, Bytes),
    Ops(Vec<TabletOp>),
}

#[derive(Clone)]
pub enum Reply {
    Load(i32, Bytes),
    Store(i32),
    Ops(TabletsResponse),
    Error,
}

struct Message {
    node: usize,
    id: u64,
    kind: Kind,
    reply: Option<Reply>,
    delivered: bool,
    /// The transaction whose commit this is.
    tx: Option<usize>,
}

/// A tablet as a handler saw and left it.
#[derive(Clone, Debug)]
struct Touched {
    before: Bytes,
    after: Option<Bytes>,
}

type Versions = BTreeMap<(String, u32), u32>;

struct Call {
    process: usize,
    /// Versions in the tablet store when the handler was called.
    current: Versions,
    at: u64,
    tx_id: u64,
    routes: Vec<(TableQuery, u32)>,
    tablets: Vec<((String, u32), Touched)>,
}

enum Handle {
    Open(Box<dyn TabletTransaction<Bytes>>),
    Committing(Box<dyn TabletTransactionCommit>),
    Done,
}

struct Tx {
    node: usize,
    id: u64,
    handle: Handle,
    calls: Rc<RefCell<Vec<Call>>>,
    checked_calls: usize,
    processes: Vec<Vec<Query>>,
    /// By processing step, what the node knew when it was added, and when that was.
    added: Vec<(Versions, u64)>,
    owners: BTreeSet<(String, u32)>,
    faults_at_start: u32,
    /// Index of the message that commits.
    request: Option<usize>,
    /// What the reply to the commit says.
    expected: Option<TabletTransactionOutcome>,
    reported: Option<TabletTransactionOutcome>,
    committed: bool,
}

struct Node {
    manager: Manager,
    confirmed: BTreeSet<String>,
    used_ids: BTreeSet<u64>,
    /// Versions that replies to commits have told the node of.
    learned: Versions,
    /// Versions handed to processing steps: when they were added, when they were called.
    handed: Vec<((String, u32), u64, u64, u32)>,
    /// Faults that may fail processing.
    faults: u32,
    alive: bool,
}

enum Stop {
    Violation(String),
    Elsewhere,
    /// Broken whatever the strays were.
    Sure(String),
}

#[derive(Default, Clone)]
struct Stats {
    conflicts: u32,
    commits: u32,
    faults: u32,
    bad_commit_replies: u32,
    strays: u32,
    crashes: u32,
    aborts: u32,
    local_failures: u32,
    /// Versions handed out that the node had learned from its own commits or conflicts.
    learned: u32,
    versions: u32,
    big_requests: u32,
}

struct World<'a> {
    focus: &'static str,
    case: &'a Case,
    /// Stray messages aren't sent.
    muted: bool,
    nodes: Vec<Node>,
    messages: Vec<Message>,
    txs: Vec<Tx>,
    resolves: Vec<(usize, Vec<Query>, Rc<RefCell<Vec<Vec<(TableQuery, u32)>>>>)>,
    store: ModelStore,
    storage: BTreeMap<String, Bytes>,
    /// Contents of all tablets after the commits so far, by replay of the transactions.
    contents: BTreeMap<(String, u32), Bytes>,
    /// All contents a tablet has had.
    history: BTreeMap<(String, u32), BTreeSet<Bytes>>,
    next_query: u64,
    /// Versions in the tablet store, for the handlers, and the time.
    versions: Rc<RefCell<(Versions, u64)>>,
    stats: Stats,
    /// Of the generated history, without what comes after it.
    history_stats: Stats,
}

macro_rules! must {
    ($s:expr, $props:expr, $c:expr, $($t:tt)*) => {
        if !($c) {
            return Err(if $s.focus == "C10" || $props.contains(&$s.focus) {
                Stop::Violation(format!($($t)*))
            } else {
                Stop::Elsewhere
            });
        }
    };
}

const GOOD: i32 = TabletDataStorageStatus::Succeeded as i32;
const BAD: i32 = TabletDataStorageStatus::Failed as i32;

fn digest<'a>(nonce: u64, parts: impl Iterator<Item = &'a ((String, u32), Bytes)>) -> Bytes {
    let mut h = 0xcbf29ce484222325u64 ^ nonce.wrapping_mul(0x9e3779b97f4a7c15);
    let mut eat = |bytes: &[u8]| {
        for b in bytes {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
    };
    for ((table, id), contents) in parts {
        eat(table.as_bytes());
        eat(&id.to_le_bytes());
        eat(contents);
    }
    Bytes::copy_from_slice(&h.to_le_bytes())
}

/// Whether the reply says that the request and every operation of it succeeded.
fn says_succeeded(ops: &[TabletOp], response: &TabletsResponse) -> bool {
    response.status == TabletsRequestStatus::Succeeded as i32
        && ops.len() == response.tablet_results.len()
        && ops.iter().zip(&response.tablet_results).all(|(op, result)| {
            result.status == TabletOpStatus::Succeeded as i32
                && result.table_name == op.table_name
                && matches!(
                    (&op.op, &result.op_result),
                    (Some(Op::CheckTablet(_)), Some(OpResult::CheckTablet(_)))
                        | (Some(Op::UpdateTablet(_)), Some(OpResult::UpdateTablet(_)))
                        | (Some(Op::ListTablet(_)), Some(OpResult::ListTablet(_)))
                )
        })
}

pub fn spoil(ops: &[TabletOp], mut response: TabletsResponse, mode: u8, mask: u8) -> TabletsResponse {
    let results = &mut response.tablet_results;
    let at = if results.is_empty() { 0 } else { mask as usize % results.len() };
    match mode % 16 {
        0 => response.status = TabletsRequestStatus::Failed.into(),
        1 => response.status = if mask & 1 == 0 { 0 } else { 77 },
        2 => {
            if !results.is_empty() {
                results.remove(at);
            }
        }
        3 => {
            let extra = results.get(at).cloned().unwrap_or_default();
            results.push(extra);
        }
        4..=6 => {
            let status = [TabletOpStatus::Failed as i32, TabletOpStatus::Aborted as i32, TabletOpStatus::Invalid as i32, 0, 77, -1]
                [mask as usize / 8 % 6];
            for (i, r) in results.iter_mut().enumerate() {
                if i == at || mask >> (i % 3) & 1 == 1 {
                    r.status = status;
                }
            }
            if mode & 16 == 0 {
                response.status = TabletsRequestStatus::Failed.into();
            }
        }
        7 => {
            if let Some(r) = results.get_mut(at) {
                r.op_result = None;
            }
        }
        8 => {
            if let Some(r) = results.get_mut(at) {
                r.op_result = Some(match (mask / 16 % 4, &ops[at].op) {
                    (0, Some(Op::ListTablet(_))) => OpResult::CheckTablet(CheckTabletResult::default()),
                    (0, _) => OpResult::ListTablet(ListTabletResult::default()),
                    (1, Some(Op::CheckTablet(_))) => OpResult::UpdateTablet(UpdateTabletResult::default()),
                    (1, _) => OpResult::CheckTablet(CheckTabletResult::default()),
                    (2, Some(Op::UpdateTablet(_))) => OpResult::CheckTablet(CheckTabletResult::default()),
                    _ => OpResult::AddTablet(AddTabletResult::default()),
                });
                if matches!((&ops[at].op, &r.op_result), (Some(Op::CheckTablet(_)), Some(OpResult::CheckTablet(_)))) {
                    r.op_result = None;
                }
            }
        }
        9 => results.clear(),
        10 => response = TabletsResponse::default(),
        11 => match results.get_mut(at).and_then(|r| r.op_result.as_mut()) {
            // A listing always holds some tablet.
            Some(OpResult::ListTablet(list)) => list.tablets.clear(),
            _ => response.status = TabletsRequestStatus::Failed.into(),
        },
        12 => {
            response.status = TabletsRequestStatus::Failed.into();
            results.clear();
        }
        13 => {
            if let Some(r) = results.get_mut(at) {
                r.table_name = match mask & 3 {
                    0 => "nowhere".to_string(),
                    _ if r.table_name == table_name(0) => table_name(1),
                    _ => table_name(0),
                };
            }
        }
        14 => {
            // The listing of another arc.
            if let Some(OpResult::ListTablet(list)) = results.get_mut(at).and_then(|r| r.op_result.as_mut()) {
                let (from, to) = (list.key_hash_from, list.key_hash_to);
                let size = to.wrapping_sub(from).wrapping_add(1).max(1);
                match mask / 32 % 4 {
                    0 => (list.key_hash_from, list.key_hash_to) = (from.wrapping_add(size), to.wrapping_add(size)),
                    1 => (list.key_hash_from, list.key_hash_to) = (from.wrapping_sub(size), to.wrapping_sub(size)),
                    2 => list.key_hash_to ^= 1 << (mask % 32),
                    _ => list.key_hash_from ^= 1 << (mask % 32),
                }
            } else {
                response.status = TabletsRequestStatus::Failed.into();
            }
        }
        // Claims that the request succeeded whatever became of the operations.
        _ => response.status = TabletsRequestStatus::Succeeded.into(),
    }
    response
}

impl<'a> World<'a> {
    fn create(focus: &'static str, case: &'a Case, muted: bool) -> Self {
        let store = ModelStore::create(&case.tables);
        let contents: BTreeMap<_, _> = store
            .ids
            .iter()
            .flat_map(|(t, ids)| ids.iter().map(|id| ((t.clone(), *id), Bytes::new())))
            .collect();
        let versions = contents.keys().map(|at| (at.clone(), store.current(&at.0, at.1).tablet_version)).collect();
        World {
            versions: Rc::new(RefCell::new((versions, 0))),
            focus,
            case,
            muted,
            nodes: (0..case.nodes.max(1)).map(|_| Self::node(case)).collect(),
            messages: Vec::new(),
            txs: Vec::new(),
            resolves: Vec::new(),
            history: contents.iter().map(|(k, v)| (k.clone(), BTreeSet::from([v.clone()]))).collect(),
            store,
            storage: BTreeMap::new(),
            contents,
            next_query: 0,
            stats: Stats::default(),
            history_stats: Stats::default(),
        }
    }

    fn node(case: &Case) -> Node {
        Node {
            manager: new_manager(&case.tables),
            confirmed: BTreeSet::new(),
            used_ids: BTreeSet::new(),
            learned: Versions::new(),
            handed: Vec::new(),
            faults: 0,
            alive: true,
        }
    }

    /// Nodes that haven't crashed.
    fn live(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|n| self.nodes[*n].alive).collect()
    }

    fn queries(&mut self, specs: &[QuerySpec]) -> Vec<Query> {
        specs
            .iter()
            .map(|q| {
                self.next_query += 1;
                Query::create(self.next_query, q, &self.case.tables, &self.store)
            })
            .collect()
    }

    fn add_process(&mut self, t: usize, process: &Process) {
        let mut queries = self.queries(&process.queries);
        let overlap = self.case.overlap;
        let tx = &mut self.txs[t];
        let Handle::Open(handle) = &mut tx.handle else { return };
        for q in &mut queries {
            let ids = &self.store.ids[&q.table];
            q.keys.retain(|k| overlap || !tx.owners.contains(&(q.table.clone(), owner(ids, *k))));
        }
        for q in &queries {
            for k in &q.keys {
                tx.owners.insert((q.table.clone(), owner(&self.store.ids[&q.table], *k)));
            }
        }
        let index = tx.processes.len();
        let calls = tx.calls.clone();
        let versions = self.versions.clone();
        self.versions.borrow_mut().1 += 1;
        tx.added.push((self.nodes[tx.node].learned.clone(), self.versions.borrow().1));
        let actions = process.actions.clone();
        let nonce = (t as u64) << 8 | index as u64;
        handle.process(
            queries.iter().map(|q| q.to_table_query()).collect(),
            Box::new(move |tx_id, mut tablets| {
                let routes = tablets.iter().map(|(q, t)| (q.clone(), t.get_id())).collect();
                tablets.sort_by_key(|(q, t)| (q.get_table_name().clone(), t.get_id()));
                let seen: Vec<((String, u32), Bytes)> = tablets
                    .iter()
                    .map(|(q, t)| ((q.get_table_name().clone(), t.get_id()), t.get_contents().clone()))
                    .collect();
                let sum = digest(nonce, seen.iter());
                let mut touched = Vec::new();
                for (i, ((_, tablet), (at, before))) in tablets.iter_mut().zip(&seen).enumerate() {
                    let after = match &actions[i % actions.len()] {
                        Action::Read => None,
                        Action::Derive => Some(Bytes::from([&sum[..], &[i as u8]].concat())),
                        Action::Const(n) => Some(Bytes::from(vec![*n; *n as usize])),
                        Action::Same => Some(before.clone()),
                    };
                    if let Some(after) = &after {
                        tablet.set_contents(after.clone());
                    }
                    touched.push((at.clone(), Touched { before: before.clone(), after }));
                }
                let (current, at) = {
                    let mut versions = versions.borrow_mut();
                    versions.1 += 1;
                    (versions.0.clone(), versions.1)
                };
                calls.borrow_mut().push(Call { current, at, process: index, tx_id, routes, tablets: touched });
            }),
        );
        tx.processes.push(queries);
    }

    fn start(&mut self, n: usize, process: &Process) -> usize {
        let node = &mut self.nodes[n];
        let handle = node.manager.start_transaction();
        self.txs.push(Tx {
            node: n,
            id: handle.get_id(),
            handle: Handle::Open(handle),
            calls: Rc::default(),
            checked_calls: 0,
            processes: Vec::new(),
            added: Vec::new(),
            owners: BTreeSet::new(),
            faults_at_start: node.faults,
            request: None,
            expected: None,
            reported: None,
            committed: false,
        });
        let t = self.txs.len() - 1;
        self.add_process(t, process);
        t
    }

    fn version_contents(&self, m: &TabletMetadata) -> Option<Bytes> {
        if m.blob_uri.is_empty() {
            return Some(Bytes::new());
        }
        self.storage.get(&m.blob_uri).cloned()
    }

    /// Whether the operations are exactly the reads and writes of the transaction.
    fn validate(&self, t: usize, ops: &[TabletOp]) -> Result<(), String> {
        let tx = &self.txs[t];
        let mut expected: BTreeMap<(String, u32), Touched> = BTreeMap::new();
        for call in tx.calls.borrow().iter() {
            for (at, touched) in &call.tablets {
                expected.insert(at.clone(), touched.clone());
            }
        }
        for op in ops {
            let at = |id: u32| (op.table_name.clone(), id);
            match &op.op {
                Some(Op::CheckTablet(check)) => {
                    let Some(touched) = expected.remove(&at(check.tablet_id)) else {
                        return Err(format!("check of {:?} that wasn't touched or twice", at(check.tablet_id)));
                    };
                    pbt::ensure!(touched.after.is_none(), "{:?} was written and is only checked", at(check.tablet_id));
                    let read = self.store.at_version(&op.table_name, check.tablet_id, check.tablet_version);
                    pbt::ensure!(
                        read.and_then(|m| self.version_contents(m)).as_ref() == Some(&touched.before),
                        "check of {:?} at version {}, which isn't the version read",
                        at(check.tablet_id),
                        check.tablet_version
                    );
                }
                Some(Op::UpdateTablet(update)) => {
                    let Some(m) = &update.tablet_metadata else { return Err("update without metadata".to_string()) };
                    let Some(touched) = expected.remove(&at(m.tablet_id)) else {
                        return Err(format!("update of {:?} that wasn't touched or twice", at(m.tablet_id)));
                    };
                    let Some(after) = &touched.after else {
                        return Err(format!("{:?} was only read and is updated", at(m.tablet_id)));
                    };
                    let read = m.tablet_version.checked_sub(1).and_then(|v| self.store.at_version(&op.table_name, m.tablet_id, v));
                    pbt::ensure!(
                        read.and_then(|m| self.version_contents(m)).as_ref() == Some(&touched.before),
                        "update of {:?} to version {}, which doesn't follow the version read",
                        at(m.tablet_id),
                        m.tablet_version
                    );
                    pbt::ensure!(
                        m.blob_hash == sha(after) && m.blob_size as usize == after.len(),
                        "update {m:?} doesn't describe contents {after:?}"
                    );
                    pbt::ensure!(
                        self.nodes[tx.node].confirmed.contains(&m.blob_uri),
                        "update {m:?} is sent before the data storage has confirmed the blob"
                    );
                    pbt::ensure!(
                        self.storage.get(&m.blob_uri) == Some(after),
                        "blob of update {m:?} isn't {after:?} but {:?}",
                        self.storage.get(&m.blob_uri)
                    );
                }
                other => return Err(format!("unexpected operation {other:?}")),
            }
        }
        pbt::ensure!(expected.is_empty(), "no operations for {expected:?}");
        Ok(())
    }

    /// The versions of the tablets that the transaction has read, if these are its operations,
    /// whatever the contents.
    fn versions_read(&self, t: usize, ops: &[TabletOp]) -> Option<Vec<((String, u32), u32)>> {
        let mut touched: BTreeSet<(String, u32)> = BTreeSet::new();
        for call in self.txs[t].calls.borrow().iter() {
            touched.extend(call.tablets.iter().map(|(at, _)| at.clone()));
        }
        let mut read = Vec::new();
        for op in ops {
            let (id, version) = match op.op.as_ref()? {
                Op::CheckTablet(check) => (check.tablet_id, check.tablet_version),
                Op::UpdateTablet(update) => {
                    let m = update.tablet_metadata.as_ref()?;
                    (m.tablet_id, m.tablet_version.checked_sub(1)?)
                }
                _ => return None,
            };
            let at = (op.table_name.clone(), id);
            if !touched.remove(&at) {
                return None;
            }
            read.push((at, version));
        }
        touched.is_empty().then_some(read)
    }

    /// Versions handed to processing steps are committed ones that aren't older than what the
    /// node knew.
    fn check_versions(&self, t: usize, read: &[((String, u32), u32)]) -> Result<(), String> {
        let tx = &self.txs[t];
        let node = &self.nodes[tx.node];
        for call in tx.calls.borrow().iter() {
            let (learned, added) = &tx.added[call.process];
            for (at, version) in read.iter().filter(|(at, _)| call.tablets.iter().any(|(a, _)| a == at)) {
                let current = call.current[at];
                pbt::ensure!(*version <= current, "{at:?} is handed out at version {version}, the tablet store has {current}");
                let least = learned.get(at).copied().unwrap_or(0);
                pbt::ensure!(
                    *version >= least,
                    "{at:?} is handed out at version {version}, a reply to a commit has told of {least} before"
                );
                for (_, other_added, other_called, other) in node.handed.iter().filter(|h| h.0 == *at) {
                    pbt::ensure!(
                        other_called > added || version >= other,
                        "{at:?} is handed out at version {version} after version {other}"
                    );
                    pbt::ensure!(
                        call.at > *other_added || version <= other,
                        "{at:?} is handed out at version {other} after version {version}"
                    );
                }
            }
        }
        Ok(())
    }

    /// Some transaction that waits explains the operations.
    fn check_handed(&mut self, n: usize, ops: &[TabletOp]) -> Result<(), Stop> {
        let mut candidates = Vec::new();
        for t in 0..self.txs.len() {
            if self.txs[t].node == n && self.txs[t].request.is_none() && matches!(self.txs[t].handle, Handle::Committing(_)) {
                if let Some(read) = self.versions_read(t, ops) {
                    let why = self.check_versions(t, &read);
                    candidates.push((t, read, why));
                }
            }
        }
        if let [(t, read, _)] = &candidates[..] {
            let tx = &self.txs[*t];
            let mut handed = Vec::new();
            for call in tx.calls.borrow().iter() {
                let (learned, added) = &tx.added[call.process];
                for (at, version) in read.iter().filter(|(at, _)| call.tablets.iter().any(|(a, _)| a == at)) {
                    self.stats.learned += (learned.get(at) == Some(version)) as u32;
                    self.stats.versions += (*version > 1) as u32;
                    handed.push((at.clone(), *added, call.at, *version));
                }
            }
            self.nodes[n].handed.extend(handed);
        }
        if let Some((_, _, Err(why))) = candidates.iter().find(|c| c.2.is_err()) {
            must!(self, ["C02"], candidates.iter().any(|c| c.2.is_ok()), "{why}");
        }
        Ok(())
    }

    /// The waiting transaction that has most in common with the operations.
    fn likely_sender(&self, n: usize, ops: &[TabletOp]) -> Option<usize> {
        let touched: BTreeSet<(String, u32)> = ops
            .iter()
            .filter_map(|op| {
                let id = match op.op.as_ref()? {
                    Op::CheckTablet(check) => check.tablet_id,
                    Op::UpdateTablet(update) => update.tablet_metadata.as_ref()?.tablet_id,
                    _ => return None,
                };
                Some((op.table_name.clone(), id))
            })
            .collect();
        (0..self.txs.len())
            .rev()
            .filter(|t| {
                let tx = &self.txs[*t];
                tx.node == n && tx.request.is_none() && matches!(tx.handle, Handle::Committing(_))
            })
            .max_by_key(|t| {
                let calls = self.txs[*t].calls.borrow();
                let own: BTreeSet<&(String, u32)> = calls.iter().flat_map(|c| c.tablets.iter().map(|(at, _)| at)).collect();
                2 * touched.iter().filter(|at| own.contains(at)).count() as i64 - own.len() as i64
            })
    }

    fn collect(&mut self, n: usize) -> Result<usize, Stop> {
        let messages = self.nodes[n].manager.take_out_messages();
        let count = messages.len();
        for message in messages {
            let (id, kind) = match message {
                OutMessage::LoadTabletRequest(id, r) => (id, Kind::Load(r.blob_uri)),
                OutMessage::StoreTabletRequest(id, r, bytes) => (id, Kind::Store(r.blob_uri, bytes)),
                OutMessage::ExecuteTabletOpsRequest(id, _, r) => (id, Kind::Ops(r.tablet_ops)),
            };
            if !self.nodes[n].used_ids.insert(id) {
                return Err(if self.focus == "C10" {
                    Stop::Sure(format!("correlation id {id} is used twice"))
                } else {
                    Stop::Elsewhere
                });
            }
            let mut tx = None;
            if let Kind::Ops(ops) = &kind {
                if !is_list(ops) {
                    if self.focus == "C02" {
                        let ops = ops.clone();
                        self.check_handed(n, &ops)?;
                    }
                    let Kind::Ops(ops) = &kind else { unreachable!() };
                    let mut why = "no transaction is waiting for it".to_string();
                    for t in 0..self.txs.len() {
                        if self.txs[t].node == n
                            && self.txs[t].request.is_none()
                            && matches!(self.txs[t].handle, Handle::Committing(_))
                        {
                            match self.validate(t, ops) {
                                Ok(()) => {
                                    tx = Some(t);
                                    break;
                                }
                                Err(w) => why = w,
                            }
                        }
                    }
                    if tx.is_none() && self.focus != "C06" {
                        // What it does still counts for the other properties.
                        tx = self.likely_sender(n, ops);
                    }
                    if self.focus == "C06" {
                        must!(self, ["C06"], tx.is_some(), "commit request {ops:?}: {why}");
                    }
                    if let Some(t) = tx {
                        self.txs[t].request = Some(self.messages.len());
                    }
                    if ops.len() > 1 {
                        self.stats.big_requests += 1;
                    }
                }
            }
            self.messages.push(Message { node: n, id, kind, reply: None, delivered: false, tx });
        }
        Ok(count)
    }

    /// Checks what the handlers saw and the outcomes of the transactions of the node.
    fn poll(&mut self, n: usize) -> Result<(), Stop> {
        for t in 0..self.txs.len() {
            if self.txs[t].node != n || matches!(self.txs[t].handle, Handle::Done) {
                continue;
            }
            self.check_calls(t)?;
            let tx = &mut self.txs[t];
            let Handle::Committing(commit) = &mut tx.handle else { continue };
            let outcome = commit.check_result();
            let (sent, faulty) = (tx.request.is_some(), self.nodes[n].faults != tx.faults_at_start);
            match (outcome, tx.expected) {
                (None, _) => {}
                (Some(outcome), Some(expected)) => {
                    must!(self, ["C07"], outcome == expected, "transaction {t} is reported {outcome:?}, the reply to its commit says {expected:?}");
                }
                (Some(TabletTransactionOutcome::Failed), None) => {
                    must!(self, ["C07"], !sent, "transaction {t} is reported failed before the reply to its commit");
                    must!(self, ["C09"], faulty, "transaction {t} failed locally although nothing failed");
                    self.stats.local_failures += 1;
                }
                (Some(TabletTransactionOutcome::Succeeded), None) => {
                    must!(self, ["C07"], !sent && tx.owners.is_empty(), "transaction {t} is reported succeeded before the reply to its commit");
                }
            }
            if let Some(outcome) = outcome {
                let Handle::Committing(commit) = &mut self.txs[t].handle else { unreachable!() };
                let again = commit.check_result();
                must!(self, ["C07"], again == Some(outcome), "transaction {t} is reported {outcome:?} and then {again:?}");
                self.txs[t].reported = Some(outcome);
                self.txs[t].handle = Handle::Done;
            }
        }
        for (_, queries, calls) in &self.resolves {
            let calls = calls.borrow();
            must!(self, ["C09"], calls.len() <= 1, "resolution handler called {} times", calls.len());
            if let Some(routes) = calls.first() {
                if let Err(why) = check_routing(queries, &self.store, routes) {
                    must!(self, ["C01"], false, "{why}");
                }
            }
        }
        Ok(())
    }

    fn check_calls(&mut self, t: usize) -> Result<(), Stop> {
        let tx = &self.txs[t];
        let calls = tx.calls.borrow();
        for (i, call) in calls.iter().enumerate().skip(tx.checked_calls) {
            must!(self, ["C06", "C08"], call.tx_id == tx.id, "handler of transaction {} called for {}", tx.id, call.tx_id);
            must!(
                self,
                ["C06", "C08"],
                calls[..i].iter().all(|c| c.process != call.process),
                "handler called twice for a processing step"
            );
            if let Err(why) = check_routing(&tx.processes[call.process], &self.store, &call.routes) {
                must!(self, ["C06", "C08"], false, "tablets handed to a processing step: {why}");
            }
            for (at, touched) in &call.tablets {
                must!(
                    self,
                    ["C08"],
                    self.history[at].contains(&touched.before),
                    "transaction {t} sees {at:?} with contents {:?} that was never committed",
                    touched.before
                );
            }
        }
        let n = calls.len();
        drop(calls);
        self.txs[t].checked_calls = n;
        Ok(())
    }

    fn progress(&mut self, n: usize) -> Result<usize, Stop> {
        self.nodes[n].manager.make_progress(1);
        let count = self.collect(n)?;
        self.poll(n)?;
        Ok(count)
    }

    /// Progress until nothing changes without replies.
    fn settle(&mut self, n: usize) -> Result<(), Stop> {
        let mut quiet = 0;
        for _ in 0..200 {
            quiet = if self.progress(n)? == 0 { quiet + 1 } else { 0 };
            if quiet == 5 {
                return Ok(());
            }
        }
        must!(self, ["C09"], false, "requests are sent again and again without replies");
        Ok(())
    }

    fn execute(&mut self, m: usize) -> Result<(), Stop> {
        if self.messages[m].reply.is_some() {
            return Ok(());
        }
        let reply = match &self.messages[m].kind {
            Kind::Load(uri) => match self.storage.get(uri) {
                Some(bytes) => Reply::Load(GOOD, bytes.clone()),
                None => {
                    must!(self, ["C08"], false, "blob {uri} is loaded and isn't in the data storage");
                    unreachable!()
                }
            },
            Kind::Store(uri, bytes) => {
                let before = self.storage.insert(uri.clone(), bytes.clone());
                must!(
                    self,
                    ["C08", "C04"],
                    before.is_none() || before.as_ref() == Some(bytes),
                    "blob {uri} with contents {before:?} is replaced with {bytes:?}"
                );
                Reply::Store(GOOD)
            }
            Kind::Ops(ops) => {
                let (response, committed) = self.store.execute(ops);
                if committed {
                    let mut versions = self.versions.borrow_mut();
                    for (at, version) in &mut versions.0 {
                        *version = self.store.current(&at.0, at.1).tablet_version;
                    }
                }
                if let Some(t) = self.messages[m].tx {
                    if committed {
                        self.committed(t, m)?;
                    } else {
                        self.stats.conflicts += 1;
                    }
                } else if committed {
                    self.check_blobs("a request of no transaction")?;
                }
                Reply::Ops(response)
            }
        };
        self.messages[m].reply = Some(reply);
        Ok(())
    }

    /// The tablet store has committed the transaction: it must have seen what its predecessors
    /// left.
    fn committed(&mut self, t: usize, m: usize) -> Result<(), Stop> {
        self.stats.commits += 1;
        self.txs[t].committed = true;
        let calls = self.txs[t].calls.clone();
        for call in calls.borrow().iter() {
            for (at, touched) in &call.tablets {
                must!(
                    self,
                    ["C08"],
                    self.contents[at] == touched.before,
                    "transaction {t} committed although {at:?} has contents {:?} and it saw {:?}",
                    self.contents[at],
                    touched.before
                );
            }
        }
        for call in calls.borrow().iter() {
            for (at, touched) in &call.tablets {
                if let Some(after) = &touched.after {
                    self.contents.insert(at.clone(), after.clone());
                    self.history.get_mut(at).unwrap().insert(after.clone());
                }
            }
        }
        let _ = m;
        self.check_blobs(&format!("transaction {t}"))
    }

    /// Metadata in the tablet store describes blobs that are there.
    fn check_blobs(&self, what: &str) -> Result<(), Stop> {
        for (at, contents) in &self.contents {
            let m = self.store.current(&at.0, at.1);
            let blob = self.version_contents(m);
            must!(self, ["C08"], blob.as_ref() == Some(contents), "after {what} {at:?} must be {contents:?} and its blob is {blob:?}");
            must!(
                self,
                ["C08"],
                m.blob_uri.is_empty() || (m.blob_hash == sha(contents) && m.blob_size as usize == contents.len()),
                "{m:?} doesn't match {contents:?}"
            );
        }
        Ok(())
    }

    fn send(&mut self, n: usize, id: u64, reply: &Reply) {
        let manager = &mut self.nodes[n].manager;
        manager.process_in_message(match reply.clone() {
            Reply::Load(status, bytes) => InMessage::LoadTabletResponse(id, LoadTabletResponse { status }, bytes),
            Reply::Store(status) => InMessage::StoreTabletResponse(id, StoreTabletResponse { status }),
            Reply::Ops(response) => {
                InMessage::ExecuteTabletOpsResponse(id, ExecuteTabletOpsResponse::default(), response)
            }
            Reply::Error => InMessage::ExecuteTabletOpsError(id, ExecuteTabletOpsError::default()),
        });
    }

    fn deliver(&mut self, m: usize, fate: &Fate) -> Result<(), Stop> {
        let n = self.messages[m].node;
        let executes = match (&self.messages[m].kind, fate) {
            (Kind::Ops(_), Fate::Error) => false,
            (_, Fate::Error) => self.messages[m].reply.is_some(),
            // A storage that refuses stores nothing.
            (Kind::Store(..), Fate::Bad { mode, .. }) => mode % 2 == 0,
            _ => true,
        };
        if executes {
            self.execute(m)?;
        }
        let mut reply = self.messages[m].reply.clone();
        match &self.messages[m].kind {
            Kind::Ops(ops) => match fate {
                Fate::Good => {}
                Fate::Error | Fate::Lost => reply = Some(Reply::Error),
                Fate::Bad { mode, mask } => {
                    let Some(Reply::Ops(response)) = reply else { unreachable!() };
                    reply = Some(Reply::Ops(spoil(ops, response, *mode, *mask)));
                }
            },
            Kind::Load(uri) => match fate {
                Fate::Good => {}
                Fate::Error | Fate::Lost => reply = Some(Reply::Load(BAD, Bytes::new())),
                Fate::Bad { mode, mask } => {
                    let bytes = self.storage.get(uri).cloned().unwrap_or_default();
                    reply = Some(match mode % 4 {
                        0 => Reply::Load(0, bytes),
                        1 => Reply::Load(77, bytes),
                        2 => Reply::Load(GOOD, [&bytes[..], &[*mask]].concat().into()),
                        _ => {
                            let mut b = bytes.to_vec();
                            match b.len() {
                                0 => b.push(*mask),
                                l => b[*mask as usize % l] ^= 1 << (mask % 8),
                            }
                            Reply::Load(GOOD, b.into())
                        }
                    });
                }
            },
            Kind::Store(..) => match fate {
                Fate::Good => {}
                Fate::Error | Fate::Lost => reply = Some(Reply::Store(BAD)),
                Fate::Bad { mode, .. } => reply = Some(Reply::Store([BAD, 0, 77, -1][*mode as usize / 2 % 4])),
            },
        }
        let reply = reply.unwrap();
        self.messages[m].delivered = true;
        let good = matches!(fate, Fate::Good);
        match &self.messages[m].kind {
            Kind::Ops(ops) => {
                if let Some(t) = self.messages[m].tx {
                    let succeeded = matches!(&reply, Reply::Ops(r) if says_succeeded(ops, r));
                    self.txs[t].expected = Some(if succeeded {
                        TabletTransactionOutcome::Succeeded
                    } else {
                        TabletTransactionOutcome::Failed
                    });
                    if !good {
                        self.stats.bad_commit_replies += 1;
                    }
                } else if !good {
                    self.nodes[n].faults += 1;
                }
            }
            Kind::Load(uri) | Kind::Store(uri, _) => {
                if good {
                    let uri = uri.clone();
                    self.nodes[n].confirmed.insert(uri);
                } else {
                    self.nodes[n].faults += 1;
                }
            }
        }
        if !good {
            self.stats.faults += 1;
        }
        let id = self.messages[m].id;
        self.send(n, id, &reply);
        let told = if good { self.told(m, &reply) } else { Vec::new() };
        // The reply that was sent is the one that may be repeated.
        self.messages[m].reply.get_or_insert(reply);
        self.progress(n)?;
        for (at, version) in told {
            let learned = self.nodes[n].learned.entry(at).or_default();
            *learned = version.max(*learned);
        }
        Ok(())
    }

    /// The versions that the reply to a commit tells of.
    fn told(&self, m: usize, reply: &Reply) -> Vec<((String, u32), u32)> {
        let (Kind::Ops(ops), Reply::Ops(response)) = (&self.messages[m].kind, reply) else { return Vec::new() };
        let succeeded = says_succeeded(ops, response);
        let mut told = Vec::new();
        for (op, result) in ops.iter().zip(&response.tablet_results) {
            let known = match (&op.op, &result.op_result) {
                (Some(Op::UpdateTablet(update)), _) if succeeded => update.tablet_metadata.as_ref(),
                _ if result.status == TabletOpStatus::Succeeded as i32 => None,
                (_, Some(OpResult::UpdateTablet(update))) => update.existing_tablet.as_ref(),
                (_, Some(OpResult::CheckTablet(check))) => check.existing_tablet.as_ref(),
                _ => None,
            };
            if let Some(known) = known {
                told.push(((op.table_name.clone(), known.tablet_id), known.tablet_version));
            }
        }
        told
    }

    fn outstanding(&self) -> Vec<usize> {
        (0..self.messages.len()).filter(|m| !self.messages[*m].delivered).collect()
    }

    fn round(&mut self) -> Result<(), Stop> {
        for n in self.live() {
            self.progress(n)?;
        }
        for m in self.outstanding() {
            self.deliver(m, &Fate::Good)?;
        }
        for n in self.live() {
            self.progress(n)?;
        }
        Ok(())
    }

    fn commit(&mut self, t: usize) -> Result<(), Stop> {
        if !matches!(&self.txs[t].handle, Handle::Open(h) if !h.has_pending_process()) {
            return Ok(());
        }
        let n = self.txs[t].node;
        self.check_calls(t)?;
        let Handle::Open(handle) = std::mem::replace(&mut self.txs[t].handle, Handle::Done) else { unreachable!() };
        self.txs[t].handle = Handle::Committing(handle.commit());
        self.collect(n)?;
        self.poll(n)
    }

    fn stray(&mut self, n: usize, kind: u8, which: u8, mode: u8) -> Result<(), Stop> {
        self.settle(n)?;
        let outstanding: Vec<usize> = self.outstanding().into_iter().filter(|m| self.messages[*m].node == n).collect();
        let answered: Vec<usize> = (0..self.messages.len())
            .filter(|m| self.messages[*m].node == n && self.messages[*m].delivered)
            .collect();
        let unknown = {
            let base = [0, 1 << 56, 2 << 56, 3 << 56][which as usize % 4];
            let mut id = base + 1 + (mode % 8) as u64;
            while self.nodes[n].used_ids.contains(&id) {
                id += 1;
            }
            // Ids that are used later are unknown now.
            id
        };
        let pick = |list: &Vec<usize>| list.get(which as usize % list.len().max(1)).copied();
        // Results that claim success for the operations of somebody else.
        let foreign = |ops: &[TabletOp]| TabletsResponse {
            status: TabletsRequestStatus::Succeeded.into(),
            tablet_results: ops
                .iter()
                .map(|op| TabletOpResult {
                    table_name: op.table_name.clone(),
                    status: TabletOpStatus::Succeeded.into(),
                    op_result: match &op.op {
                        Some(Op::CheckTablet(_)) => Some(OpResult::CheckTablet(CheckTabletResult::default())),
                        Some(Op::UpdateTablet(u)) => Some(OpResult::UpdateTablet(UpdateTabletResult {
                            existing_tablet: u.tablet_metadata.clone(),
                            ..Default::default()
                        })),
                        Some(Op::ListTablet(l)) => Some(OpResult::ListTablet(ListTabletResult {
                            key_hash_from: l.key_hash_from,
                            key_hash_to: l.key_hash_to,
                            tablets: vec![TabletMetadata {
                                tablet_id: 1,
                                tablet_version: 1000,
                                blob_uri: "stray".to_string(),
                                ..Default::default()
                            }],
                        })),
                        _ => None,
                    },
                })
                .collect(),
        };
        let all_ops: Vec<Vec<TabletOp>> = self
            .messages
            .iter()
            .filter_map(|m| match &m.kind {
                Kind::Ops(ops) => Some(ops.clone()),
                _ => None,
            })
            .collect();
        let some_ops = all_ops.get(mode as usize % all_ops.len().max(1)).cloned().unwrap_or_default();
        let (id, reply) = match kind {
            0 => (unknown, Reply::Error),
            1 => (unknown, Reply::Ops(foreign(&some_ops))),
            2 => (unknown, Reply::Store(GOOD)),
            3 => (unknown, Reply::Load(GOOD, Bytes::from_static(b"stray"))),
            4..=7 => {
                // Repeats an answer, or answers again with something else.
                let Some(m) = pick(&answered) else { return Ok(()) };
                let message = &self.messages[m];
                let same = message.reply.clone().unwrap();
                let other = match &message.kind {
                    Kind::Load(_) => Reply::Load([GOOD, BAD][mode as usize % 2], Bytes::from_static(b"again")),
                    Kind::Store(..) => Reply::Store([GOOD, BAD, 77][mode as usize % 3]),
                    Kind::Ops(ops) if mode % 2 == 0 => Reply::Ops(foreign(ops)),
                    Kind::Ops(_) => Reply::Error,
                };
                (message.id, if kind % 2 == 0 { same } else { other })
            }
            _ => {
                // Answer of the wrong kind.
                let Some(m) = pick(&outstanding) else { return Ok(()) };
                let message = &self.messages[m];
                let reply = match (&message.kind, mode % 4) {
                    (Kind::Load(_), 0) => Reply::Store(GOOD),
                    (Kind::Load(_), 1) => Reply::Store(BAD),
                    (Kind::Store(..), 0) => Reply::Load(GOOD, Bytes::from_static(b"wrong")),
                    (Kind::Store(..), 1) => Reply::Load(BAD, Bytes::new()),
                    (Kind::Ops(_), 0) => Reply::Store(GOOD),
                    (Kind::Ops(_), 1) => Reply::Load(GOOD, Bytes::from_static(b"wrong")),
                    (Kind::Ops(_), 2) => Reply::Store(BAD),
                    (Kind::Ops(_), _) => Reply::Load(BAD, Bytes::new()),
                    (_, 2) => Reply::Error,
                    (_, _) => Reply::Ops(foreign(&some_ops)),
                };
                (message.id, reply)
            }
        };
        let state = |w: &World| -> Vec<bool> {
            w.txs.iter().map(|t| matches!(&t.handle, Handle::Open(h) if h.has_pending_process())).collect()
        };
        let before = state(self);
        let calls: usize = self.txs.iter().map(|t| t.calls.borrow().len()).sum();
        self.stats.strays += 1;
        if !self.muted {
            self.send(n, id, &reply);
        }
        for _ in 0..4 {
            let sent = self.progress(n)?;
            must!(self, ["C10"], sent == 0, "a stray message makes the node send {sent} messages");
        }
        must!(self, ["C10"], state(self) == before, "a stray message completes a processing step");
        let calls_after: usize = self.txs.iter().map(|t| t.calls.borrow().len()).sum();
        must!(self, ["C10"], calls == calls_after, "a stray message makes the node call a handler");
        Ok(())
    }

    fn crash(&mut self, n: usize) {
        self.stats.crashes += 1;
        // What it sent may still arrive, it will never see the replies.
        self.nodes[n].alive = false;
        for m in &mut self.messages {
            if m.node == n {
                m.delivered = true;
            }
        }
        for tx in &mut self.txs {
            if tx.node == n {
                tx.handle = Handle::Done;
            }
        }
        self.resolves.retain(|(node, ..)| *node != n);
        self.nodes.push(Self::node(self.case));
    }

    fn step(&mut self, step: &Step) -> Result<(), Stop> {
        let live = self.live();
        let open: Vec<usize> = (0..self.txs.len()).filter(|t| matches!(self.txs[*t].handle, Handle::Open(_))).collect();
        match step {
            Step::Start { node, process } => {
                if open.len() < 8 {
                    let t = self.start(live[*node as usize % live.len()], process);
                    self.collect(self.txs[t].node)?;
                }
            }
            Step::Add { tx, process } => {
                if !open.is_empty() {
                    let t = open[*tx as usize % open.len()];
                    if self.txs[t].processes.len() < 4 {
                        self.add_process(t, process);
                    }
                }
            }
            Step::Commit { tx } => {
                let ready: Vec<usize> = open
                    .into_iter()
                    .filter(|t| matches!(&self.txs[*t].handle, Handle::Open(h) if !h.has_pending_process()))
                    .collect();
                if !ready.is_empty() {
                    self.commit(ready[*tx as usize % ready.len()])?;
                }
            }
            Step::Abort { tx } => {
                if !open.is_empty() {
                    let t = open[*tx as usize % open.len()];
                    let Handle::Open(handle) = std::mem::replace(&mut self.txs[t].handle, Handle::Done) else { unreachable!() };
                    handle.abort();
                    self.stats.aborts += 1;
                    self.collect(self.txs[t].node)?;
                }
            }
            Step::Resolve { node, queries } => {
                let n = live[*node as usize % live.len()];
                let queries = self.queries(queries);
                let calls = Rc::new(RefCell::new(Vec::new()));
                let sink = calls.clone();
                self.nodes[n].manager.resolve(
                    queries.iter().map(|q| q.to_table_query()).collect(),
                    Box::new(move |r| {
                        sink.borrow_mut().push(r.into_iter().map(|(q, d)| (q, d.get_id())).collect::<Vec<_>>())
                    }),
                );
                self.collect(n)?;
                self.resolves.push((n, queries, calls));
            }
            Step::Progress { node } => {
                for _ in 0..=*node / 64 {
                    self.progress(live[*node as usize % live.len()])?;
                }
            }
            Step::Execute { which } => {
                let waiting: Vec<usize> = (0..self.messages.len())
                    .filter(|m| match self.messages[*m].reply {
                        None => true,
                        _ => false,
                    })
                    .collect();
                if !waiting.is_empty() {
                    self.execute(waiting[*which as usize % waiting.len()])?;
                }
            }
            Step::Deliver { which, fate } => {
                let outstanding = self.outstanding();
                if !outstanding.is_empty() {
                    self.deliver(outstanding[*which as usize % outstanding.len()], fate)?;
                }
            }
            Step::Answer { which, fate } => {
                let commits: Vec<usize> = self.outstanding().into_iter().filter(|m| self.messages[*m].tx.is_some()).collect();
                if !commits.is_empty() {
                    self.deliver(commits[*which as usize % commits.len()], fate)?;
                }
            }
            Step::Round => self.round()?,
            // Only the checks about stray messages depend on them.
            Step::Stray { .. } if !["C09", "C10"].contains(&self.focus) => {}
            Step::Stray { node, kind, which, mode } => {
                self.stray(live[*node as usize % live.len()], *kind, *which, *mode)?
            }
            Step::Crash { node } => self.crash(live[*node as usize % live.len()]),
        }
        Ok(())
    }

    /// Rounds until everything has finished.
    fn drain(&mut self, what: &str) -> Result<(), Stop> {
        for _ in 0..40 {
            self.round()?;
            let pending = self.txs.iter().any(|t| matches!(&t.handle, Handle::Open(h) if h.has_pending_process()));
            if !pending && self.outstanding().is_empty() {
                break;
            }
        }
        for t in 0..self.txs.len() {
            must!(
                self,
                ["C09"],
                !matches!(&self.txs[t].handle, Handle::Open(h) if h.has_pending_process()),
                "{what}: processing of transaction {t} is still pending although everything is answered"
            );
        }
        for t in 0..self.txs.len() {
            self.commit(t)?;
        }
        for _ in 0..40 {
            self.round()?;
            if self.outstanding().is_empty() {
                break;
            }
        }
        must!(self, ["C09"], self.outstanding().is_empty(), "{what}: requests are sent again and again");
        for t in 0..self.txs.len() {
            must!(
                self,
                ["C07", "C09"],
                matches!(self.txs[t].handle, Handle::Done),
                "{what}: no outcome of transaction {t} although everything is answered"
            );
        }
        for (_, queries, calls) in &self.resolves {
            must!(
                self,
                ["C09"],
                calls.borrow().len() == 1,
                "{what}: resolution of {queries:?} gave {} answers",
                calls.borrow().len()
            );
        }
        Ok(())
    }

    fn run(&mut self) -> Result<(), Stop> {
        for step in &self.case.steps {
            self.step(step)?;
        }
        self.history_stats = self.stats.clone();
        self.drain("after the history")?;
        if self.case.overlap {
            return Ok(());
        }

        // Every node can read and write everything, a fresh one sees what was committed.
        let everything = Process {
            queries: (0..self.case.tables.len())
                .map(|i| QuerySpec { table: i as u8, keys: (0..8).map(|k| Point::Tablet(k, 0)).collect() })
                .collect(),
            actions: vec![Action::Derive, Action::Read],
        };
        let reading = Process { actions: vec![Action::Read], ..everything.clone() };
        self.nodes.push(Self::node(self.case));
        let mut live = self.live();
        live.reverse();
        for n in live {
            let fresh = n + 1 == self.nodes.len();
            for attempt in 0.. {
                must!(self, ["C09"], attempt < 4, "transactions of node {n} fail again and again although nothing else happens");
                let t = self.start(n, if fresh { &reading } else { &everything });
                self.drain("at the end")?;
                let tx = &self.txs[t];
                if tx.reported == Some(TabletTransactionOutcome::Succeeded) {
                    must!(self, ["C07", "C08"], tx.committed, "transaction {t} is reported succeeded without a commit");
                    if fresh {
                        for call in tx.calls.borrow().iter() {
                            for (at, touched) in &call.tablets {
                                must!(self, ["C08"], self.contents[at] == touched.before, "{at:?} is {:?} and must be {:?}", touched.before, self.contents[at]);
                            }
                        }
                    }
                    break;
                }
            }
        }
        for (t, tx) in self.txs.iter().enumerate() {
            must!(
                self,
                ["C07", "C08"],
                tx.reported != Some(TabletTransactionOutcome::Succeeded) || tx.committed || tx.owners.is_empty(),
                "transaction {t} is reported succeeded and wasn't committed"
            );
        }
        Ok(())
    }
}

fn run(focus: &'static str, case: &Case, muted: bool) -> Result<Option<Stats>, Stop> {
    let mut world = World::create(focus, case, muted);
    match world.run() {
        Ok(()) => Ok(Some(world.history_stats)),
        Err(Stop::Elsewhere) => Ok(None),
        Err(stop) => Err(stop),
    }
}

/// Whether the case goes wrong without the stray messages too.
fn fails_anyway(focus: &'static str, case: &Case) -> bool {
    (0..3).any(|_| !matches!(std::panic::catch_unwind(|| run(focus, case, true)), Ok(Ok(_))))
}

fn check(focus: &'static str, case: &Case) -> Outcome {
    let result = if focus == "C10" {
        match std::panic::catch_unwind(|| run(focus, case, false)) {
            Ok(result) => result,
            Err(_) if fails_anyway(focus, case) => return Ok(Info::default()),
            Err(panic) => std::panic::resume_unwind(panic),
        }
    } else {
        run(focus, case, false)
    };
    let stats = match result {
        Ok(Some(stats)) => stats,
        Ok(None) | Err(Stop::Elsewhere) => return Ok(Info::default()),
        Err(Stop::Sure(message)) => return Err(message),
        // Stray messages must be to blame.
        Err(Stop::Violation(_)) if focus == "C10" && fails_anyway(focus, case) => return Ok(Info::default()),
        Err(Stop::Violation(message)) => return Err(message),
    };
    let mut info = Info::default();
    info.label(stats.conflicts > 0, "commit refused by the tablet store")
        .label(stats.commits > 1, "several commits")
        .label(stats.faults > 0, "faults")
        .label(stats.bad_commit_replies > 0, "bad reply to a commit")
        .label(stats.strays > 0, "stray messages")
        .label(stats.crashes > 0, "crash")
        .label(stats.aborts > 0, "abort")
        .label(stats.local_failures > 0, "local failure")
        .label(stats.versions > 0, "tablet handed out at a later version")
        .label(stats.learned > 0, "tablet handed out at a version a commit or conflict told of")
        .label(stats.big_requests > 0, "commit of several tablets");
    let commits = stats.commits;
    info.nontrivial = match focus {
        "C02" => stats.learned > 1 && stats.conflicts > 0,
        "C06" => stats.big_requests > 0 && (stats.aborts > 0 || stats.local_failures > 0 || commits > 2),
        "C07" => stats.bad_commit_replies > 0 && commits > 1,
        "C08" => stats.conflicts > 0 && commits > 1,
        "C09" => stats.faults > 1,
        _ => stats.strays > 0 && commits > 0,
    };
    Ok(info)
}

pub fn facets() -> Vec<Facet> {
    const QUICK: u64 = 400_000;
    const THOROUGH: u64 = 6_000_000;
    vec![
        facet("C02", "world", "histories of transactions on several nodes; non-trivial: a refused commit, and tablets handed out at versions that the node's own commits or conflicts told of", QUICK, THOROUGH, || case(2, 1, 1, 10, 6), |c| check("C02", c)),
        facet("C06", "world", "histories of transactions on several nodes; non-trivial: a commit of several tablets and an abort, a local failure or several commits", QUICK, THOROUGH, || case(1, 1, 1, 10, 1), |c| check("C06", c)),
        facet("C07", "world", "histories of transactions on several nodes; non-trivial: a faulty reply to a commit request and several commits", QUICK, THOROUGH, || case(2, 1, 1, 12, 30), |c| check("C07", c)),
        facet("C08", "world", "histories of transactions on several nodes; non-trivial: several commits and at least one refused by the tablet store", QUICK, THOROUGH, || case(1, 1, 1, 10, 1), |c| check("C08", c)),
        facet("C09", "world", "histories of transactions on several nodes; non-trivial: at least two faults", QUICK, THOROUGH, || case(5, 1, 1, 6, 6), |c| check("C09", c)),
        facet("C10", "world", "histories of transactions on several nodes; non-trivial: a stray message and a commit", QUICK, THOROUGH, || case(1, 14, 1, 10, 1), |c| check("C10", c)),
    ]
}
