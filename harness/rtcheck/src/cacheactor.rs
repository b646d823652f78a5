//! C28: the tablet cache actor: what it passes on, against recording stand-ins for its
//! components, and whether it works with the real ones.

use crate::common::{pick, Context};
use bytes::Bytes;
use pbt::proptest::prelude::*;
use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use prost::Message;
use serde::{Deserialize, Serialize};
use slog::Logger;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use tcp_runtime::model::{Actor, ActorCommand, ActorEvent, ActorEventContext};
use tcp_tablet_cache_service::actor::TabletCacheActor;
use tcp_tablet_cache_service::apps::tablet_cache::service::tablet_cache_in_message::InMsg;
use tcp_tablet_cache_service::apps::tablet_cache::service::tablet_cache_out_message::OutMsg;
use tcp_tablet_cache_service::apps::tablet_cache::service::*;
use tcp_tablet_cache_service::store::{KeyValueRequest, KeyValueResponse, KeyValueStore, SimpleKeyValueStore};
use tcp_tablet_cache_service::transaction::coordinator::DefaultTabletTransactionCoordinator;
use tcp_tablet_cache_service::transaction::data::{
    BytesTabletDataSerializer, DefaultTabletDataCache, DefaultTabletDataCachePolicy,
};
use tcp_tablet_cache_service::transaction::manager::DefaultTabletTransactionManager;
use tcp_tablet_cache_service::transaction::metadata::DefaultTabletMetadataCache;
use tcp_tablet_cache_service::transaction::{
    InMessage, OutMessage, ResolveHandler, TableQuery, TabletTransaction, TabletTransactionContext,
    TabletTransactionManager,
};
use tcp_tablet_store_service::actor::{TabletConfigurator, TabletStoreActor};
use tcp_tablet_store_service::apps::tablet_store::service as ts;

// ---------------------------------------------------------------------------------------------
// With stand-ins.

/// What reaches the components.
#[derive(Debug, Clone, PartialEq)]
enum Call {
    StoreInit(StoreConfig),
    ManagerInit(TransactionManagerConfig),
    Request(KeyValueRequest),
    Message(InMessage),
    StoreProgress(u64),
    ManagerProgress(u64),
}

#[derive(Default)]
struct Script {
    calls: Vec<Call>,
    responses: Vec<KeyValueResponse>,
    messages: Vec<OutMessage>,
}

struct FakeManager(Rc<RefCell<Script>>);
struct FakeStore(Rc<RefCell<Script>>);

impl TabletTransactionContext<Bytes> for FakeManager {
    fn resolve(&mut self, _: Vec<TableQuery>, _: Box<ResolveHandler>) {}
    fn start_transaction(&mut self) -> Box<dyn TabletTransaction<Bytes>> {
        unimplemented!("the actor starts no transactions")
    }
}

impl TabletTransactionManager<Bytes> for FakeManager {
    fn init(&mut self, _: Logger, config: TransactionManagerConfig) {
        self.0.borrow_mut().calls.push(Call::ManagerInit(config));
    }
    fn make_progress(&mut self, instant: u64) {
        self.0.borrow_mut().calls.push(Call::ManagerProgress(instant));
    }
    fn process_in_message(&mut self, message: InMessage) {
        self.0.borrow_mut().calls.push(Call::Message(message));
    }
    fn take_out_messages(&mut self) -> Vec<OutMessage> {
        std::mem::take(&mut self.0.borrow_mut().messages)
    }
}

impl KeyValueStore for FakeStore {
    fn init(&mut self, _: Logger, config: StoreConfig) {
        self.0.borrow_mut().calls.push(Call::StoreInit(config));
    }
    fn make_progress(&mut self, instant: u64, _: &mut dyn TabletTransactionContext<Bytes>) {
        self.0.borrow_mut().calls.push(Call::StoreProgress(instant));
    }
    fn process_request(&mut self, request: KeyValueRequest) {
        self.0.borrow_mut().calls.push(Call::Request(request));
    }
    fn take_responses(&mut self) -> Vec<KeyValueResponse> {
        std::mem::take(&mut self.0.borrow_mut().responses)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    steps: Vec<Step>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Step {
    by: u8,
    /// A tick if there is none.
    input: Option<Input>,
    /// What the components have ready by then.
    ready: Vec<Ready>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Input {
    id: u64,
    what: What,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum What {
    Put(String, Vec<u8>),
    Get(String),
    Load(i32, Vec<u8>),
    Store(i32),
    Ops(Tablets),
    OpsError(i32, String),
    BadOps(Vec<u8>),
    Unset(Vec<u8>),
    Bytes(Vec<u8>, Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Tablets {
    status: i32,
    tables: Vec<String>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ready {
    id: u64,
    what: Out,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Out {
    Put(bool),
    Get(bool, Vec<u8>),
    Load(String),
    Store(String, Vec<u8>),
    Ops(u64, Vec<String>),
}

fn tablets_response(t: &Tablets) -> ts::TabletsResponse {
    ts::TabletsResponse {
        status: t.status,
        tablet_results: t
            .tables
            .iter()
            .map(|n| ts::TabletOpResult { table_name: n.clone(), status: 1, op_result: None })
            .collect(),
    }
}

fn check_forwarding(case: &Case) -> Outcome {
    let script = Rc::new(RefCell::new(Script::default()));
    let config = TabletCacheConfig {
        store_config: Some(StoreConfig {
            table_name: "t".to_string(),
            min_pending_before_resolve: 3,
            min_pending_before_process: 2,
        }),
        transaction_manager_config: Some(TransactionManagerConfig {
            data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 77 }),
            metadata_cache_config: Some(TabletMetadataCacheConfig {
                table_configs: vec![TableMetadataCacheConfig { table_name: "t".to_string(), table_region_size: 9 }],
            }),
        }),
    };
    let context = Context::new(1, config.encode_to_vec().into());
    let instant = context.instant.clone();
    let leader = context.leader.clone();
    let mut actor = TabletCacheActor::new(FakeManager(script.clone()), FakeStore(script.clone()));
    actor.on_init(Box::new(context)).map_err(|e| format!("initialization: {e}"))?;
    let calls = std::mem::take(&mut script.borrow_mut().calls);
    ensure!(
        calls.len() == 2
            && calls.contains(&Call::StoreInit(config.store_config.clone().unwrap()))
            && calls.contains(&Call::ManagerInit(config.transaction_manager_config.clone().unwrap())),
        "initialization calls {calls:?}"
    );

    let mut info = Info::default();
    let (mut forwarded, mut ignored) = (0, 0);
    // What must be sent by the end, and what was.
    let mut due: [Vec<(u64, OutMsg, Bytes)>; 2] = Default::default();
    let mut sent: Vec<(u64, OutMsg, Bytes)> = Vec::new();
    let last = Step { by: 1, input: None, ready: vec![] };
    for step in case.steps.iter().chain([&last]) {
        instant.set(instant.get() + step.by as u64);
        leader.set(step.by % 2 == 0);
        for r in &step.ready {
            let mut s = script.borrow_mut();
            let (store, msg, payload) = match &r.what {
                Out::Put(existed) => {
                    let m = PutKeyResponse { existed: *existed };
                    s.responses.push(KeyValueResponse::Put(r.id, m.clone()));
                    (0, OutMsg::PutKeyResponse(m), vec![])
                }
                Out::Get(existed, value) => {
                    let m = GetKeyResponse { existed: *existed, value: value.clone().into() };
                    s.responses.push(KeyValueResponse::Get(r.id, m.clone()));
                    (0, OutMsg::GetKeyResponse(m), vec![])
                }
                Out::Load(uri) => {
                    let m = LoadTabletRequest { blob_uri: uri.clone() };
                    s.messages.push(OutMessage::LoadTabletRequest(r.id, m.clone()));
                    (1, OutMsg::LoadTabletRequest(m), vec![])
                }
                Out::Store(uri, data) => {
                    let m = StoreTabletRequest { blob_uri: uri.clone() };
                    s.messages.push(OutMessage::StoreTabletRequest(r.id, m.clone(), data.clone().into()));
                    (1, OutMsg::StoreTabletRequest(m), data.clone())
                }
                Out::Ops(node, tables) => {
                    let m = ExecuteTabletOpsRequest { recipient_node_id: *node };
                    let request = ts::TabletsRequest {
                        tablet_ops: tables.iter().map(|n| ts::TabletOp { table_name: n.clone(), op: None }).collect(),
                    };
                    let bytes = request.encode_to_vec();
                    s.messages.push(OutMessage::ExecuteTabletOpsRequest(r.id, m.clone(), request));
                    (1, OutMsg::ExecuteTabletOpsRequest(m), bytes)
                }
            };
            due[store].push((r.id, msg, payload.into()));
        }
        let mut expected: Option<Call> = None;
        let command = step.input.as_ref().map(|input| {
            let id = input.id;
            let (msg, payload) = match &input.what {
                What::Put(key, value) => {
                    let m = PutKeyRequest { key: key.clone(), value: value.clone().into() };
                    expected = Some(Call::Request(KeyValueRequest::Put(id, m.clone())));
                    (Ok(InMsg::PutKeyRequest(m)), vec![])
                }
                What::Get(key) => {
                    let m = GetKeyRequest { key: key.clone() };
                    expected = Some(Call::Request(KeyValueRequest::Get(id, m.clone())));
                    (Ok(InMsg::GetKeyRequest(m)), vec![])
                }
                What::Load(status, data) => {
                    let m = LoadTabletResponse { status: *status };
                    expected = Some(Call::Message(InMessage::LoadTabletResponse(id, m.clone(), data.clone().into())));
                    (Ok(InMsg::LoadTabletResponse(m)), data.clone())
                }
                What::Store(status) => {
                    let m = StoreTabletResponse { status: *status };
                    expected = Some(Call::Message(InMessage::StoreTabletResponse(id, m.clone())));
                    (Ok(InMsg::StoreTabletResponse(m)), vec![])
                }
                What::Ops(t) => {
                    let m = ExecuteTabletOpsResponse {};
                    let t = tablets_response(t);
                    expected = Some(Call::Message(InMessage::ExecuteTabletOpsResponse(id, m.clone(), t.clone())));
                    (Ok(InMsg::ExecuteTabletOpsResponse(m)), t.encode_to_vec())
                }
                What::OpsError(status, text) => {
                    let m = ExecuteTabletOpsError { status: *status, diagnostic_message: text.clone() };
                    expected = Some(Call::Message(InMessage::ExecuteTabletOpsError(id, m.clone())));
                    (Ok(InMsg::ExecuteTabletOpsError(m)), vec![])
                }
                What::BadOps(bytes) => {
                    let m = ExecuteTabletOpsResponse {};
                    if let Ok(t) = ts::TabletsResponse::decode(&bytes[..]) {
                        expected = Some(Call::Message(InMessage::ExecuteTabletOpsResponse(id, m.clone(), t)));
                    }
                    (Ok(InMsg::ExecuteTabletOpsResponse(m)), bytes.clone())
                }
                What::Unset(payload) => (Err(vec![]), payload.clone()),
                What::Bytes(header, payload) => (Err(header.clone()), payload.clone()),
            };
            let header: Bytes = match msg {
                Ok(m) => TabletCacheInMessage { in_msg: Some(m) }.encode_to_vec().into(),
                Err(bytes) => {
                    match TabletCacheInMessage::decode(&bytes[..]) {
                        Ok(TabletCacheInMessage { in_msg: Some(_) }) => Bytes::new(), // meant to be bad
                        _ => bytes.into(),
                    }
                }
            };
            ActorCommand { correlation_id: id, header, payload: payload.into() }
        });
        let tick = command.is_none();
        let outcome = actor
            .on_process_command(command)
            .map_err(|e| format!("{:?} terminates the application: {e}", step.input))?;
        ensure!(outcome.event.is_none(), "the application proposes an event");
        for c in outcome.commands {
            let m = TabletCacheOutMessage::decode(c.header).map_err(|e| format!("a sent header: {e}"))?;
            let Some(m) = m.out_msg else { bail!("an empty message is sent") };
            sent.push((c.correlation_id, m, c.payload));
        }
        let calls = std::mem::take(&mut script.borrow_mut().calls);
        let passed: Vec<&Call> = calls.iter().filter(|c| matches!(c, Call::Request(_) | Call::Message(_))).collect();
        match &expected {
            Some(e) => {
                ensure!(passed == vec![e], "{:?} reaches the components as {passed:?}", step.input);
                forwarded += 1;
            }
            None => {
                ensure!(passed.is_empty(), "{:?} reaches the components as {passed:?}", step.input);
                ignored += !tick as usize;
            }
        }
        let now = instant.get();
        for c in &calls {
            if let Call::StoreProgress(at) | Call::ManagerProgress(at) = c {
                ensure!(*at == now, "at {now} a component is told that it is {at}");
            }
        }
        if tick {
            ensure!(calls.contains(&Call::StoreProgress(now)), "a tick doesn't reach the key-value store");
            ensure!(calls.contains(&Call::ManagerProgress(now)), "a tick doesn't reach the transaction manager");
        }
        let event = ActorEvent { correlation_id: 5, contents: Bytes::from_static(b"x") };
        let outcome = actor
            .on_apply_event(ActorEventContext { index: 1, owned: true }, event)
            .map_err(|e| format!("an event terminates the application: {e}"))?;
        ensure!(outcome.commands.is_empty(), "an event is answered");
        let snapshot = actor.on_save_snapshot().map_err(|e| format!("a snapshot terminates the application: {e}"))?;
        ensure!(snapshot.is_empty(), "the snapshot has contents");
        actor.on_load_snapshot(snapshot).map_err(|e| format!("a snapshot terminates the application: {e}"))?;
        ensure!(script.borrow().calls.is_empty(), "an event or snapshot reaches the components");
    }
    // Per component in order, once.
    for (store, due) in due.iter().enumerate() {
        let is_store = |m: &OutMsg| matches!(m, OutMsg::PutKeyResponse(_) | OutMsg::GetKeyResponse(_));
        let got: Vec<_> = sent.iter().filter(|(_, m, _)| is_store(m) == (store == 0)).cloned().collect();
        ensure!(got == *due, "sent {got:?} instead of {due:?}");
    }
    info.nontrivial = forwarded > 0 && !sent.is_empty();
    info.label(ignored > 0, "undecodable").label(forwarded > 0, "forwarded").label(!sent.is_empty(), "sent");
    Ok(info)
}

fn case() -> BoxedStrategy<Case> {
    let bytes = || proptest::collection::vec(any::<u8>(), 0..6);
    let text = || "[a-z]{0,4}";
    let id = || prop_oneof![3 => 0..5u64, 1 => any::<u64>()];
    let what = prop_oneof![
        2 => (text(), bytes()).prop_map(|(a, b)| What::Put(a, b)),
        2 => text().prop_map(What::Get),
        2 => (0..4i32, bytes()).prop_map(|(a, b)| What::Load(a, b)),
        2 => (0..4i32).prop_map(What::Store),
        2 => (0..4i32, proptest::collection::vec(text(), 0..3)).prop_map(|(status, tables)| What::Ops(Tablets { status, tables })),
        2 => (0..5i32, text()).prop_map(|(a, b)| What::OpsError(a, b)),
        1 => bytes().prop_map(What::BadOps),
        1 => bytes().prop_map(What::Unset),
        1 => (bytes(), bytes()).prop_map(|(a, b)| What::Bytes(a, b)),
    ];
    let out = prop_oneof![
        any::<bool>().prop_map(Out::Put),
        (any::<bool>(), bytes()).prop_map(|(a, b)| Out::Get(a, b)),
        text().prop_map(Out::Load),
        (text(), bytes()).prop_map(|(a, b)| Out::Store(a, b)),
        (id(), proptest::collection::vec(text(), 0..3)).prop_map(|(a, b)| Out::Ops(a, b)),
    ];
    let ready = (id(), out).prop_map(|(id, what)| Ready { id, what });
    let input = proptest::option::weighted(0.7, (id(), what).prop_map(|(id, what)| Input { id, what }));
    let step = (any::<u8>(), input, proptest::collection::vec(ready, 0..3)).prop_map(|(by, input, ready)| Step { by, input, ready });
    proptest::collection::vec(step, 1..12).prop_map(|steps| Case { steps }).boxed()
}

// ---------------------------------------------------------------------------------------------
// Configuration: incomplete or damaged ones are refused, not crashed on.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ConfigCase {
    bytes: Vec<u8>,
    manager: bool,
    store: bool,
    plain: bool,
}

fn check_config(case: &ConfigCase) -> Outcome {
    let script = Rc::new(RefCell::new(Script::default()));
    let config: Vec<u8> = if case.plain {
        case.bytes.clone()
    } else {
        TabletCacheConfig {
            store_config: case.store.then(StoreConfig::default),
            transaction_manager_config: case.manager.then(TransactionManagerConfig::default),
        }
        .encode_to_vec()
    };
    let complete = TabletCacheConfig::decode(&config[..])
        .is_ok_and(|c| c.store_config.is_some() && c.transaction_manager_config.is_some());
    let mut actor = TabletCacheActor::new(FakeManager(script.clone()), FakeStore(script.clone()));
    let result = actor.on_init(Box::new(Context::new(1, config.into())));
    ensure!(result.is_ok() == complete, "complete {complete}: {result:?}");
    Ok(Info::new(!complete))
}

// ---------------------------------------------------------------------------------------------
// With the real components, a real tablet store and a store of blobs.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RealCase {
    ring: std::collections::BTreeSet<u32>,
    requests: Vec<RealRequest>,
    /// Which of the waiting messages is delivered next.
    order: Vec<u16>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RealRequest {
    key: u8,
    /// A read if there is none.
    put: Option<Vec<u8>>,
}

struct Ids(Vec<u32>);
impl TabletConfigurator for Ids {
    fn generate(&mut self, _: u32) -> Vec<u32> {
        self.0.clone()
    }
}

fn check_real(case: &RealCase) -> Outcome {
    let mut store = TabletStoreActor::new(Ids(case.ring.iter().copied().collect()));
    let store_config = ts::TabletStoreConfig {
        table_configs: vec![ts::TableConfig {
            table_name: "t".to_string(),
            max_tablet_size: 100,
            min_tablet_size: 1,
            initial_tablet_count: case.ring.len() as u32,
        }],
    };
    store.on_init(Box::new(Context::new(1, store_config.encode_to_vec().into()))).map_err(|e| e.to_string())?;
    let config = TabletCacheConfig {
        store_config: Some(StoreConfig {
            table_name: "t".to_string(),
            min_pending_before_resolve: 0,
            min_pending_before_process: 0,
        }),
        transaction_manager_config: Some(TransactionManagerConfig {
            data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 1 << 20 }),
            metadata_cache_config: Some(TabletMetadataCacheConfig {
                table_configs: vec![TableMetadataCacheConfig { table_name: "t".to_string(), table_region_size: 1 << 28 }],
            }),
        }),
    };
    let manager = DefaultTabletTransactionManager::create(
        Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
        Box::new(DefaultTabletMetadataCache::create(3 << 56)),
        Box::new(DefaultTabletDataCache::create(
            2 << 56,
            Box::new(BytesTabletDataSerializer {}),
            Box::new(DefaultTabletDataCachePolicy::new()),
        )),
    );
    let context = Context::new(2, config.encode_to_vec().into());
    let instant = context.instant.clone();
    let mut cache = TabletCacheActor::new(manager, SimpleKeyValueStore::create());
    cache.on_init(Box::new(context)).map_err(|e| e.to_string())?;

    let mut blobs: BTreeMap<String, Bytes> = BTreeMap::new();
    let mut model: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
    let mut order = case.order.iter().cycle();
    let mut index = 1;
    for (n, request) in case.requests.iter().enumerate() {
        let id = n as u64 + 1;
        let key = format!("k{}", request.key);
        let msg = match &request.put {
            Some(value) => InMsg::PutKeyRequest(PutKeyRequest { key, value: value.clone().into() }),
            None => InMsg::GetKeyRequest(GetKeyRequest { key }),
        };
        let header = |m: InMsg| -> Bytes { TabletCacheInMessage { in_msg: Some(m) }.encode_to_vec().into() };
        let mut waiting: VecDeque<ActorCommand> = VecDeque::new();
        waiting.push_back(ActorCommand { correlation_id: id, header: header(msg), payload: Bytes::new() });
        let mut answer = None;
        for round in 0..120 {
            instant.set(instant.get() + 10);
            let next = if round % 3 == 2 { waiting.pop_front() } else {
                let at = order.next().copied().unwrap_or(0) as usize % (waiting.len() + 1);
                waiting.remove(at)
            };
            let outcome = cache.on_process_command(next).map_err(|e| format!("the application terminates: {e}"))?;
            for c in outcome.commands {
                let m = TabletCacheOutMessage::decode(c.header).map_err(|e| e.to_string())?;
                let reply = match m.out_msg {
                    Some(OutMsg::PutKeyResponse(_) | OutMsg::GetKeyResponse(_)) => {
                        ensure!(c.correlation_id == id, "request {} is answered, {id} is outstanding", c.correlation_id);
                        ensure!(answer.is_none(), "two answers to request {id}");
                        answer = m.out_msg;
                        continue;
                    }
                    Some(OutMsg::LoadTabletRequest(r)) => match blobs.get(&r.blob_uri) {
                        Some(data) => (
                            InMsg::LoadTabletResponse(LoadTabletResponse {
                                status: TabletDataStorageStatus::Succeeded as i32,
                            }),
                            data.clone(),
                        ),
                        None => bail!("a blob never stored is loaded: {}", r.blob_uri),
                    },
                    Some(OutMsg::StoreTabletRequest(r)) => {
                        blobs.insert(r.blob_uri, c.payload);
                        let status = TabletDataStorageStatus::Succeeded as i32;
                        (InMsg::StoreTabletResponse(StoreTabletResponse { status }), Bytes::new())
                    }
                    Some(OutMsg::ExecuteTabletOpsRequest(_)) => {
                        // The untrusted host passes the request on.
                        let in_msg = ts::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(
                            ts::ExecuteTabletOpsRequest { sender_node_id: 2 },
                        );
                        let command = ActorCommand {
                            correlation_id: c.correlation_id,
                            header: ts::TabletStoreInMessage { in_msg: Some(in_msg) }.encode_to_vec().into(),
                            payload: c.payload,
                        };
                        let outcome = store.on_process_command(Some(command)).map_err(|e| e.to_string())?;
                        let Some(event) = outcome.event else { bail!("the tablet store rejects a request of the cache") };
                        index += 1;
                        let outcome = store
                            .on_apply_event(ActorEventContext { index, owned: true }, event)
                            .map_err(|e| e.to_string())?;
                        let Some(reply) = outcome.commands.into_iter().next() else { bail!("the tablet store is silent") };
                        (InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse {}), reply.payload)
                    }
                    None => bail!("an empty message is sent"),
                };
                waiting.push_back(ActorCommand { correlation_id: c.correlation_id, header: header(reply.0), payload: reply.1 });
            }
            if answer.is_some() && waiting.is_empty() {
                break;
            }
        }
        let before = model.get(&request.key).cloned();
        match (&request.put, answer) {
            (Some(value), Some(OutMsg::PutKeyResponse(r))) => {
                ensure!(r.existed == before.is_some(), "put {id} answers {r:?}, before: {before:?}");
                model.insert(request.key, value.clone());
            }
            (None, Some(OutMsg::GetKeyResponse(r))) => {
                ensure!(
                    r.existed == before.is_some() && r.value == before.clone().unwrap_or_default(),
                    "get {id} answers {r:?} instead of {before:?}"
                );
            }
            (_, answer) => bail!("request {id} is answered with {answer:?}"),
        }
    }
    let puts = case.requests.iter().filter(|r| r.put.is_some()).count();
    let mut info = Info::new(puts > 0 && puts < case.requests.len());
    info.label(case.ring.len() > 1, "several tablets");
    Ok(info)
}

fn real_case() -> BoxedStrategy<RealCase> {
    let request = (0..4u8, proptest::option::of(proptest::collection::vec(any::<u8>(), 0..4)))
        .prop_map(|(key, put)| RealRequest { key, put });
    (
        proptest::collection::btree_set(any::<u32>(), 1..5),
        proptest::collection::vec(request, 1..8),
        proptest::collection::vec(any::<u16>(), 1..12),
    )
        .prop_map(|(ring, requests, order)| RealCase { ring, requests, order })
        .boxed()
}

pub fn facets() -> Vec<Facet> {
    let _ = pick::<u8>;
    vec![
        facet("C28", "forwarding", "a message is passed on and something is sent", 120_000, 6_000_000, case, check_forwarding),
        facet(
            "C28", "config", "an incomplete configuration", 4_000, 100_000,
            || (proptest::collection::vec(any::<u8>(), 0..8), any::<bool>(), any::<bool>(), any::<bool>())
                .prop_map(|(bytes, manager, store, plain)| ConfigCase { bytes, manager, store, plain }),
            check_config,
        ),
        facet("C28", "working", "keys are written and read", 8_000, 400_000, real_case, check_real),
    ]
}
