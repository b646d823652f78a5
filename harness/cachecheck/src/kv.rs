//! C11, C12 and C13: the key-value store on top of the transaction managers.

use crate::common::*;
use crate::meta::*;
use crate::world::{spoil, Kind, Reply};
use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use prost::bytes::Bytes;
use prost::Message as _;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::OnceLock;
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    ExecuteTabletOpsError, ExecuteTabletOpsResponse, GetKeyRequest, LoadTabletResponse, PutKeyRequest,
    StoreConfig, StoreTabletResponse, TabletContents, TabletDataStorageStatus,
};
use tcp_tablet_cache_service::store::{KeyValueRequest, KeyValueResponse, KeyValueStore, SimpleKeyValueStore};
use tcp_tablet_cache_service::transaction::{
    InMessage, OutMessage, ProcessHandler, ResolveHandler, TableQuery, Tablet, TabletDescriptor,
    TabletTransaction, TabletTransactionCommit, TabletTransactionContext, TabletTransactionManager,
    TabletTransactionOutcome,
};
use tcp_tablet_store_service::apps::tablet_store::service::{tablet_op::Op, TabletMetadata};

fn key_name(i: u8) -> String {
    match i % 8 {
        0 => String::new(),
        1 => colliding_keys().0.clone(),
        2 => "key with spaces and \u{1F511}".to_string(),
        3 => "k".repeat(300),
        4 => colliding_keys().1.clone(),
        n => format!("k{n}"),
    }
}

/// Two keys at the same place on the ring, if they can be found by trying.
fn colliding_keys() -> &'static (String, String) {
    static FOUND: OnceLock<(String, String)> = OnceLock::new();
    FOUND.get_or_init(|| {
        let mut seen = HashMap::new();
        for i in 0..400_000u32 {
            if let Some(other) = seen.insert(key_hash(&i.to_string()), i) {
                return (other.to_string(), i.to_string());
            }
        }
        ("a".to_string(), "k4".to_string())
    })
}

const KEYS: u8 = 8;

/// Where the keys are on the ring, asked of the code.
fn key_hash(name: &str) -> u32 {
    struct Recorder(Rc<RefCell<Vec<u32>>>);
    impl TabletTransactionContext<Bytes> for Recorder {
        fn resolve(&mut self, queries: Vec<TableQuery>, _: Box<ResolveHandler>) {
            for q in queries {
                self.0.borrow_mut().extend(q.get_key_hashes());
            }
        }
        fn start_transaction(&mut self) -> Box<dyn TabletTransaction<Bytes>> {
            panic!("transaction started although nothing is resolved")
        }
    }
    let hashes = Rc::new(RefCell::new(Vec::new()));
    let mut kv = SimpleKeyValueStore::create();
    kv.init(logger(), config(1, 1));
    kv.process_request(KeyValueRequest::Get(1, GetKeyRequest { key: name.to_string() }));
    kv.make_progress(1, &mut Recorder(hashes.clone()));
    let hashes = hashes.borrow();
    assert_eq!(hashes.len(), 1, "resolution of one key asks for {hashes:?}");
    hashes[0]
}

thread_local! {
    static HASHES: Vec<u32> = (0..KEYS).map(|i| key_hash(&key_name(i))).collect();
}

fn config(resolve: u32, process: u32) -> StoreConfig {
    StoreConfig {
        table_name: table_name(0),
        min_pending_before_resolve: resolve,
        min_pending_before_process: process,
    }
}

/// A tablet at a point of the ring or close to the hash of a key.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Spot {
    Raw(u32),
    Key(u8, i8),
}

fn spots() -> impl Strategy<Value = Vec<Spot>> {
    prop::collection::vec(
        prop_oneof![
            1 => any::<u32>().prop_map(Spot::Raw),
            2 => (0..KEYS, -1i8..=1).prop_map(|(k, d)| Spot::Key(k, d)),
        ],
        1..4,
    )
}

fn table(region_size: u32, spots: &[Spot]) -> TableSpec {
    TableSpec {
        region_size,
        tablets: spots
            .iter()
            .map(|s| {
                Point::Raw(match s {
                    Spot::Raw(v) => *v,
                    Spot::Key(k, d) => HASHES.with(|h| h[(k % KEYS) as usize]).wrapping_add(*d as i32 as u32),
                })
            })
            .collect(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Request {
    Put(u8, u8),
    Get(u8),
}

fn request() -> impl Strategy<Value = Request> {
    let key = || prop_oneof![4 => 0u8..2, 1 => Just(4u8), 2 => 0..KEYS];
    prop_oneof![
        3 => (key(), any::<u8>()).prop_map(|(k, v)| Request::Put(k, v)),
        2 => key().prop_map(Request::Get),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fate {
    Good,
    Error,
    /// Executed, the node doesn't get to know.
    Lost,
    Bad { mode: u8, mask: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Request { node: u8, request: Request },
    Progress { node: u8 },
    Execute { which: u8 },
    Deliver { which: u8, fate: Fate },
    Round,
    Crash { node: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    region_size: u32,
    tablets: Vec<Spot>,
    nodes: u8,
    resolve: u8,
    process: u8,
    steps: Vec<Step>,
}

fn case(faults: u32, crashes: u32) -> impl Strategy<Value = Case> {
    let fate = prop_oneof![
        20 => Just(Fate::Good),
        faults => Just(Fate::Error),
        faults => Just(Fate::Lost),
        faults => (any::<u8>(), any::<u8>()).prop_map(|(mode, mask)| Fate::Bad { mode, mask }),
    ];
    let step = prop_oneof![
        24 => (any::<u8>(), request()).prop_map(|(node, request)| Step::Request { node, request }),
        16 => any::<u8>().prop_map(|node| Step::Progress { node }),
        6 => any::<u8>().prop_map(|which| Step::Execute { which }),
        30 => (any::<u8>(), fate).prop_map(|(which, fate)| Step::Deliver { which, fate }),
        8 => Just(Step::Round),
        crashes => any::<u8>().prop_map(|node| Step::Crash { node }),
    ];
    (
        prop_oneof![Just(u32::MAX), (1u32 << 26)..=u32::MAX],
        spots(),
        prop_oneof![2 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8)],
        prop_oneof![1 => Just(0u8), 5 => Just(1u8), 2 => 2u8..5],
        prop_oneof![1 => Just(0u8), 5 => Just(1u8), 2 => 2u8..4],
        prop::collection::vec(step, 10..100),
    )
        .prop_map(|(region_size, tablets, nodes, resolve, process, steps)| Case {
            region_size,
            tablets,
            nodes,
            resolve,
            process,
            steps,
        })
}

struct Message {
    node: usize,
    id: u64,
    kind: Kind,
    reply: Option<Reply>,
    delivered: bool,
    /// Never reaches the tablet store.
    dead: bool,
}

struct Node {
    manager: Manager,
    kv: SimpleKeyValueStore,
    alive: bool,
}

#[derive(Clone, Debug)]
struct Operation {
    node: usize,
    key: String,
    /// Value of a put.
    put: Option<Bytes>,
    invoked: u64,
    answer: Option<Answer>,
    original: bool,
}

#[derive(Clone, Debug)]
struct Answer {
    at: u64,
    existed: bool,
    value: Bytes,
}

struct Sim<'a> {
    exact: bool,
    case: &'a Case,
    tables: Vec<TableSpec>,
    nodes: Vec<Node>,
    store: ModelStore,
    storage: BTreeMap<String, Bytes>,
    messages: Vec<Message>,
    ops: Vec<Operation>,
    /// Every key ever committed.
    committed: HashSet<String>,
    clock: u64,
    conflicts: u32,
    faults: u32,
    crashes: u32,
}

impl<'a> Sim<'a> {
    fn create(case: &'a Case, exact: bool) -> Self {
        let tables = vec![table(case.region_size, &case.tablets)];
        let mut sim = Sim {
            exact,
            case,
            store: ModelStore::create(&tables),
            tables,
            nodes: Vec::new(),
            storage: BTreeMap::new(),
            messages: Vec::new(),
            ops: Vec::new(),
            committed: HashSet::new(),
            clock: 0,
            conflicts: 0,
            faults: 0,
            crashes: 0,
        };
        for _ in 0..case.nodes.max(1) {
            sim.add_node();
        }
        sim
    }

    fn add_node(&mut self) {
        let mut kv = SimpleKeyValueStore::create();
        kv.init(logger(), config(self.case.resolve as u32, self.case.process as u32));
        self.nodes.push(Node { manager: new_manager(&self.tables), kv, alive: true });
    }

    fn live(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|n| self.nodes[*n].alive).collect()
    }

    fn request(&mut self, n: usize, request: &Request, original: bool) {
        self.clock += 1;
        // The correlation id is the index of the operation moved away from the other ids.
        let id = self.ops.len() as u64 + 1000;
        let (key, put) = match request {
            Request::Put(k, v) => (
                key_name(*k),
                Some(match v % 8 {
                    0 => Bytes::new(),
                    1 => Bytes::from_static(b"same"),
                    2 => Bytes::from(vec![*v; if *v == 10 { 70_000 } else { 200 }]),
                    _ => Bytes::from(id.to_le_bytes().to_vec()),
                }),
            ),
            Request::Get(k) => (key_name(*k), None),
        };
        self.nodes[n].kv.process_request(match &put {
            Some(value) => KeyValueRequest::Put(id, PutKeyRequest { key: key.clone(), value: value.clone() }),
            None => KeyValueRequest::Get(id, GetKeyRequest { key: key.clone() }),
        });
        self.ops.push(Operation { node: n, key, put, invoked: self.clock, answer: None, original });
    }

    fn progress(&mut self, n: usize) -> Result<(), String> {
        let node = &mut self.nodes[n];
        node.manager.make_progress(1);
        node.kv.make_progress(1, &mut node.manager);
        for message in node.manager.take_out_messages() {
            let (id, kind) = match message {
                OutMessage::LoadTabletRequest(id, r) => (id, Kind::Load(r.blob_uri)),
                OutMessage::StoreTabletRequest(id, r, bytes) => (id, Kind::Store(r.blob_uri, bytes)),
                OutMessage::ExecuteTabletOpsRequest(id, _, r) => (id, Kind::Ops(r.tablet_ops)),
            };
            self.messages.push(Message { node: n, id, kind, reply: None, delivered: false, dead: false });
        }
        self.clock += 1;
        for response in node.kv.take_responses() {
            let (id, put, existed, value) = match response {
                KeyValueResponse::Put(id, r) => (id, true, r.existed, Bytes::new()),
                KeyValueResponse::Get(id, r) => (id, false, r.existed, r.value),
            };
            let op = id.checked_sub(1000).and_then(|i| self.ops.get_mut(i as usize));
            let Some(op) = op else { bail!("response to request {id}, which was never made") };
            ensure!(op.node == n, "response to request {id} from node {n}, it was made at node {}", op.node);
            ensure!(op.put.is_some() == put, "response of the wrong kind to request {op:?}");
            ensure!(op.answer.is_none(), "second response to request {op:?}: existed {existed}, {value:?}");
            op.answer = Some(Answer { at: self.clock, existed, value });
            // The value itself may have been overwritten within the same commit.
            if self.exact && op.put.is_some() {
                ensure!(
                    self.committed.contains(&op.key),
                    "put {op:?} is answered although it isn't committed"
                );
            }
        }
        Ok(())
    }

    fn execute(&mut self, m: usize) {
        if self.messages[m].reply.is_some() {
            return;
        }
        let good = TabletDataStorageStatus::Succeeded as i32;
        let reply = match &self.messages[m].kind {
            Kind::Load(uri) => match self.storage.get(uri) {
                Some(bytes) => Reply::Load(good, bytes.clone()),
                None => Reply::Load(TabletDataStorageStatus::Failed as i32, Bytes::new()),
            },
            Kind::Store(uri, bytes) => {
                self.storage.insert(uri.clone(), bytes.clone());
                Reply::Store(good)
            }
            Kind::Ops(ops) => {
                let (response, committed) = self.store.execute(ops);
                if !committed {
                    self.conflicts += 1;
                } else {
                    for op in ops {
                        let Some(Op::UpdateTablet(update)) = &op.op else { continue };
                        let Some(blob) = update.tablet_metadata.as_ref().and_then(|m| self.storage.get(&m.blob_uri)) else { continue };
                        if let Ok(contents) = TabletContents::decode(blob.clone()) {
                            self.committed.extend(contents.dictionary.into_keys());
                        }
                    }
                }
                Reply::Ops(response)
            }
        };
        self.messages[m].reply = Some(reply);
    }

    fn deliver(&mut self, m: usize, fate: &Fate) -> Result<(), String> {
        let n = self.messages[m].node;
        let bad = TabletDataStorageStatus::Failed as i32;
        let good = TabletDataStorageStatus::Succeeded as i32;
        let commit = matches!(&self.messages[m].kind, Kind::Ops(ops) if !is_list(ops));
        let mut fate = fate.clone();
        if commit && self.exact && !matches!(fate, Fate::Good) {
            // A commit of which the node doesn't get to know is executed again, by design.
            fate = if self.messages[m].reply.is_some() { Fate::Good } else { Fate::Error };
            self.messages[m].dead = matches!(fate, Fate::Error);
        }
        let executes = match (&self.messages[m].kind, &fate) {
            (_, Fate::Error) => false,
            (Kind::Store(..), Fate::Bad { mode, .. }) => mode % 2 == 0,
            _ => true,
        };
        if executes {
            self.execute(m);
        }
        if !matches!(fate, Fate::Good) {
            self.faults += 1;
        }
        let mut reply = self.messages[m].reply.clone();
        match (&self.messages[m].kind, &fate) {
            (_, Fate::Good) => {}
            (Kind::Ops(_), Fate::Error | Fate::Lost) => reply = Some(Reply::Error),
            (Kind::Ops(ops), Fate::Bad { mode, mask }) => {
                let Some(Reply::Ops(response)) = reply else { unreachable!() };
                reply = Some(Reply::Ops(spoil(ops, response, *mode, *mask)));
            }
            (Kind::Load(_), Fate::Error | Fate::Lost) => reply = Some(Reply::Load(bad, Bytes::new())),
            (Kind::Load(uri), Fate::Bad { mode, mask }) => {
                let bytes = self.storage.get(uri).cloned().unwrap_or_default();
                reply = Some(match mode % 3 {
                    0 => Reply::Load(77, bytes),
                    1 => Reply::Load(good, [&bytes[..], &[*mask]].concat().into()),
                    _ => Reply::Load(good, Bytes::from(vec![*mask])),
                });
            }
            (Kind::Store(..), Fate::Bad { mode, .. }) => reply = Some(Reply::Store([bad, 0, 77, -1][*mode as usize / 2 % 4])),
            (Kind::Store(..), _) => reply = Some(Reply::Store(bad)),
        }
        self.messages[m].delivered = true;
        let id = self.messages[m].id;
        self.nodes[n].manager.process_in_message(match reply.unwrap() {
            Reply::Load(status, bytes) => InMessage::LoadTabletResponse(id, LoadTabletResponse { status }, bytes),
            Reply::Store(status) => InMessage::StoreTabletResponse(id, StoreTabletResponse { status }),
            Reply::Ops(response) => {
                InMessage::ExecuteTabletOpsResponse(id, ExecuteTabletOpsResponse::default(), response)
            }
            Reply::Error => InMessage::ExecuteTabletOpsError(id, ExecuteTabletOpsError::default()),
        });
        self.progress(n)
    }

    fn outstanding(&self) -> Vec<usize> {
        (0..self.messages.len()).filter(|m| !self.messages[*m].delivered).collect()
    }

    fn round(&mut self) -> Result<(), String> {
        for n in self.live() {
            self.progress(n)?;
        }
        for m in self.outstanding() {
            self.deliver(m, &Fate::Good)?;
        }
        Ok(())
    }

    fn crash(&mut self, n: usize) {
        self.crashes += 1;
        self.nodes[n].alive = false;
        for m in &mut self.messages {
            if m.node == n {
                m.delivered = true;
            }
        }
        self.add_node();
    }

    fn step(&mut self, step: &Step) -> Result<(), String> {
        let live = self.live();
        let at = |n: u8| live[n as usize % live.len()];
        match step {
            Step::Request { node, request } => self.request(at(*node), request, true),
            Step::Progress { node } => self.progress(at(*node))?,
            Step::Execute { which } => {
                let waiting: Vec<usize> =
                    (0..self.messages.len()).filter(|m| self.messages[*m].reply.is_none() && !self.messages[*m].dead).collect();
                if !waiting.is_empty() {
                    self.execute(waiting[*which as usize % waiting.len()]);
                }
            }
            Step::Deliver { which, fate } => {
                let outstanding = self.outstanding();
                if !outstanding.is_empty() {
                    self.deliver(outstanding[*which as usize % outstanding.len()], fate)?;
                }
            }
            Step::Round => self.round()?,
            Step::Crash { node } => self.crash(at(*node)),
        }
        Ok(())
    }

    fn drain(&mut self) -> Result<(), String> {
        let mut quiet = 0;
        for _ in 0..60 {
            self.round()?;
            quiet = if self.outstanding().is_empty() { quiet + 1 } else { 0 };
            if quiet == 6 {
                break;
            }
        }
        Ok(())
    }

    fn unanswered(&self) -> Vec<&Operation> {
        self.ops.iter().filter(|o| o.original && o.answer.is_none() && self.nodes[o.node].alive).collect()
    }

    /// Enough further requests that everything passes the thresholds.
    fn flush(&mut self) -> Result<(), String> {
        self.drain()?;
        let keys: BTreeSet<String> = self.ops.iter().map(|o| o.key.clone()).collect();
        let keys: Vec<u8> = (0..KEYS).filter(|k| keys.contains(&key_name(*k))).collect();
        for n in self.live() {
            for k in &keys {
                for _ in 0..self.case.resolve.max(self.case.process).max(1) {
                    self.request(n, &Request::Get(*k), false);
                }
            }
        }
        self.drain()
    }

    fn run(&mut self) -> Result<(), String> {
        for step in &self.case.steps {
            self.step(step)?;
        }
        let history: Vec<Operation> = self.ops.clone();
        for _ in 0..10 {
            if self.unanswered().is_empty() {
                break;
            }
            self.flush()?;
        }
        if !self.exact {
            let unanswered = self.unanswered();
            ensure!(unanswered.is_empty(), "requests are never answered although thousands of later ones passed the thresholds: {unanswered:?}");
        }
        if self.exact && !history.is_empty() {
            // What a node that is started now sees.
            self.add_node();
            self.flush()?;
        }
        Ok(())
    }
}

/// Whether the operations of a key are those of a register that may be absent.
fn linearizable(ops: &[Operation]) -> bool {
    // State: which operations took effect, and the value.
    type State = (Vec<u64>, Option<usize>);
    let mut seen: HashSet<State> = HashSet::new();
    let words = ops.len().div_ceil(64);
    let mut stack: Vec<State> = vec![(vec![0; words], None)];
    let value = |at: Option<usize>| at.map(|i| ops[i].put.clone().unwrap());
    while let Some((mut done, at)) = stack.pop() {
        let is_done = |done: &Vec<u64>, i: usize| done[i / 64] >> (i % 64) & 1 == 1;
        let current = value(at);
        // Gets that fit take effect as soon as they may: they change nothing.
        loop {
            let deadline = ops
                .iter()
                .enumerate()
                .filter(|(i, _)| !is_done(&done, *i))
                .filter_map(|(_, o)| o.answer.as_ref().map(|a| a.at))
                .min();
            let Some(deadline) = deadline else { return true };
            let get = (0..ops.len()).find(|i| {
                let o = &ops[*i];
                !is_done(&done, *i)
                    && o.put.is_none()
                    && o.invoked < deadline
                    && o.answer.as_ref().is_none_or(|a| {
                        a.existed == current.is_some() && a.value == current.clone().unwrap_or_default()
                    })
            });
            match get {
                Some(i) => done[i / 64] |= 1 << (i % 64),
                None => {
                    if !seen.insert((done.clone(), at)) {
                        break;
                    }
                    for i in 0..ops.len() {
                        let o = &ops[i];
                        if !is_done(&done, i)
                            && o.put.is_some()
                            && o.invoked < deadline
                            && o.answer.as_ref().is_none_or(|a| a.existed == current.is_some())
                        {
                            let mut next = done.clone();
                            next[i / 64] |= 1 << (i % 64);
                            stack.push((next, Some(i)));
                        }
                    }
                    break;
                }
            }
        }
    }
    false
}

fn check_kv(exact: bool, case: &Case) -> Outcome {
    let mut sim = Sim::create(case, exact);
    if exact {
        // Exactly once is another property.
        if let Err(why) = sim.run() {
            if why.contains("isn't committed") {
                return Err(why);
            }
            return Ok(Info::default());
        }
    } else {
        sim.run()?;
    }
    let mut answered = 0;
    if exact {
        let mut by_key: BTreeMap<&String, Vec<Operation>> = BTreeMap::new();
        for op in &sim.ops {
            answered += (op.original && op.answer.is_some()) as u32;
            // A get nobody saw the answer of means nothing.
            if op.answer.is_some() || op.put.is_some() {
                by_key.entry(&op.key).or_default().push(op.clone());
            }
        }
        for (key, ops) in by_key {
            ensure!(linearizable(&ops), "no order explains the responses for key {key:?}: {ops:#?}");
        }
    }
    let mut info = Info::default();
    let puts = sim.ops.iter().filter(|o| o.put.is_some()).count();
    info.label(sim.conflicts > 0, "commit refused by the tablet store")
        .label(sim.faults > 0, "faults")
        .label(sim.crashes > 0, "crash")
        .label(case.process > 1 || case.resolve > 1, "thresholds above one")
        .label(sim.store.ids[&table_name(0)].len() > 1, "several tablets")
        .label(
            [1, 4].iter().all(|k| sim.ops.iter().any(|o| o.key == key_name(*k) && o.put.is_some())),
            "two keys with the same hash put",
        );
    info.nontrivial = if exact { puts > 2 && answered > 2 && sim.conflicts > 0 } else { sim.faults > 0 && sim.ops.len() > 4 };
    Ok(info)
}

// ---------------------------------------------------------------------------------------------
// The key-value store on a transaction context of the check's own.

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FakeStep {
    Request(Request),
    Progress,
    /// A resolution completes.
    Resolved { which: u8 },
    /// Tablets of a transaction are processed, or cannot be.
    Process { which: u8, fails: bool },
    Outcome { which: u8, fails: bool },
    /// The next resolution completes at once.
    Immediate(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FakeCase {
    tablets: Vec<Spot>,
    resolve: u8,
    process: u8,
    steps: Vec<FakeStep>,
}

fn fake_case() -> impl Strategy<Value = FakeCase> {
    let step = prop_oneof![
        12 => request().prop_map(FakeStep::Request),
        10 => Just(FakeStep::Progress),
        6 => any::<u8>().prop_map(|which| FakeStep::Resolved { which }),
        5 => (any::<u8>(), prop::bool::weighted(0.2)).prop_map(|(which, fails)| FakeStep::Process { which, fails }),
        5 => (any::<u8>(), prop::bool::weighted(0.3)).prop_map(|(which, fails)| FakeStep::Outcome { which, fails }),
        1 => any::<bool>().prop_map(FakeStep::Immediate),
    ];
    (spots(), 0u8..6, 0u8..5, prop::collection::vec(step, 5..80)).prop_map(|(tablets, resolve, process, steps)| FakeCase {
        tablets,
        resolve,
        process,
        steps,
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Place {
    Pending,
    Resolving(u64),
    At(u32),
    In(u64),
    Answered,
}

#[derive(Clone, PartialEq, Debug)]
enum Phase {
    Processing,
    Processed,
    Failed,
    Committing,
    Succeeded,
    Refused,
    /// The store has been told.
    Over,
}

struct FakeTx {
    id: u64,
    phase: Phase,
    queries: Vec<TableQuery>,
    handler: Option<Box<ProcessHandler<Bytes>>>,
    tablets: BTreeSet<u32>,
    writes: BTreeMap<u32, Bytes>,
    /// Whether the handler has been called.
    called: bool,
}

#[derive(Default)]
struct Fake {
    ids: Vec<u32>,
    resolve: usize,
    process: usize,
    hashes: Vec<u32>,
    contents: BTreeMap<u32, Bytes>,
    /// Key hash and where the request is.
    requests: Vec<(u32, Place)>,
    resolves: Vec<(Vec<TableQuery>, Box<ResolveHandlerBox>)>,
    txs: Vec<FakeTx>,
    immediate: bool,
    problem: Option<(bool, String)>,
}

type ResolveHandlerBox = ResolveHandler;

impl Fake {
    fn waiting(&self, place: Place) -> usize {
        self.requests.iter().filter(|r| r.1 == place).count()
    }

    /// Records the first problem: of the thresholds or of something else.
    fn problem(&mut self, thresholds: bool, what: String) {
        self.problem.get_or_insert((thresholds, what));
    }

    fn active(&self, tablet: u32) -> bool {
        self.txs.iter().any(|t| t.phase != Phase::Over && t.tablets.contains(&tablet))
    }

    fn on_resolve(&mut self, queries: &[TableQuery]) {
        let pending = self.waiting(Place::Pending);
        if pending < self.resolve.max(1) {
            self.problem(true, format!("resolution of {queries:?} started with {pending} requests pending, the threshold is {}", self.resolve));
        }
        for q in queries {
            for k in q.get_key_hashes() {
                if !self.requests.iter().any(|r| r.0 == *k && r.1 == Place::Pending) {
                    self.problem(true, format!("resolution of {k}, no request for it is pending"));
                }
            }
        }
        for q in queries {
            for r in &mut self.requests {
                if r.1 == Place::Pending && q.get_key_hashes().contains(&r.0) {
                    r.1 = Place::Resolving(q.get_id());
                }
            }
        }
    }

    /// Result of a resolution.
    fn route(&mut self, queries: &[TableQuery]) -> Vec<(TableQuery, TabletDescriptor)> {
        let mut results = Vec::new();
        for q in queries {
            let mut by_tablet: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
            for k in q.get_key_hashes() {
                by_tablet.entry(owner(&self.ids, *k)).or_default().push(*k);
            }
            for (tablet, keys) in by_tablet {
                results.push((q.create_from(keys), TabletDescriptor::create(tablet, false)));
            }
            for r in &mut self.requests {
                if r.1 == Place::Resolving(q.get_id()) {
                    r.1 = Place::At(owner(&self.ids, r.0));
                }
            }
        }
        results
    }

    fn on_process(&mut self, id: u64, queries: Vec<TableQuery>, handler: Box<ProcessHandler<Bytes>>) {
        let t = self.txs.iter().position(|t| t.id == id).unwrap();
        let mut tablets = BTreeSet::new();
        for q in &queries {
            for k in q.get_key_hashes() {
                tablets.insert(owner(&self.ids, *k));
            }
        }
        for tablet in &tablets {
            let pending = self.waiting(Place::At(*tablet));
            if pending < self.process.max(1) {
                self.problem(true, format!("transaction on tablet {tablet} started with {pending} requests pending, the threshold is {}", self.process));
            }
            if self.active(*tablet) {
                self.problem(true, format!("second transaction on tablet {tablet} started"));
            }
        }
        for r in &mut self.requests {
            if let Place::At(tablet) = r.1 {
                if tablets.contains(&tablet) && queries.iter().any(|q| q.get_key_hashes().contains(&r.0)) {
                    r.1 = Place::In(id);
                }
            }
        }
        let tx = &mut self.txs[t];
        if tx.handler.is_some() || tx.phase != Phase::Processing {
            self.problem(false, "processing requested again".to_string());
            return;
        }
        tx.tablets = tablets;
        tx.queries = queries;
        tx.handler = Some(handler);
    }
}

struct FakeContext(Rc<RefCell<Fake>>);

struct FakeHandle {
    id: u64,
    fake: Rc<RefCell<Fake>>,
}

impl TabletTransactionContext<Bytes> for FakeContext {
    fn resolve(&mut self, queries: Vec<TableQuery>, mut handler: Box<ResolveHandler>) {
        let mut fake = self.0.borrow_mut();
        fake.on_resolve(&queries);
        if fake.immediate {
            fake.immediate = false;
            let results = fake.route(&queries);
            drop(fake);
            handler(results);
        } else {
            fake.resolves.push((queries, handler));
        }
    }

    fn start_transaction(&mut self) -> Box<dyn TabletTransaction<Bytes>> {
        let mut fake = self.0.borrow_mut();
        let id = 500 + fake.txs.len() as u64;
        fake.txs.push(FakeTx {
            id,
            phase: Phase::Processing,
            queries: Vec::new(),
            handler: None,
            tablets: BTreeSet::new(),
            writes: BTreeMap::new(),
            called: false,
        });
        Box::new(FakeHandle { id, fake: self.0.clone() })
    }
}

impl FakeHandle {
    fn with<R>(&self, f: impl FnOnce(&mut FakeTx) -> R) -> R {
        f(self.fake.borrow_mut().txs.iter_mut().find(|t| t.id == self.id).unwrap())
    }
}

impl TabletTransaction<Bytes> for FakeHandle {
    fn get_id(&self) -> u64 {
        self.id
    }
    fn process(&mut self, queries: Vec<TableQuery>, handler: Box<ProcessHandler<Bytes>>) {
        self.fake.borrow_mut().on_process(self.id, queries, handler)
    }
    fn has_pending_process(&self) -> bool {
        self.with(|t| t.phase == Phase::Processing && t.handler.is_some())
    }
    fn commit(self: Box<Self>) -> Box<dyn TabletTransactionCommit> {
        self.with(|t| match t.phase {
            Phase::Processed => t.phase = Phase::Committing,
            // Fails at once.
            Phase::Failed => t.phase = Phase::Refused,
            _ => panic!("commit in phase {:?}", t.phase),
        });
        self
    }
    fn abort(self: Box<Self>) {
        self.with(|t| t.phase = Phase::Refused);
    }
}

impl TabletTransactionCommit for FakeHandle {
    fn check_result(&mut self) -> Option<TabletTransactionOutcome> {
        let mut fake = self.fake.borrow_mut();
        let t = fake.txs.iter().position(|t| t.id == self.id).unwrap();
        let outcome = match fake.txs[t].phase {
            Phase::Succeeded => TabletTransactionOutcome::Succeeded,
            Phase::Refused => TabletTransactionOutcome::Failed,
            _ => return None,
        };
        fake.txs[t].phase = Phase::Over;
        let id = self.id;
        let succeeded = outcome == TabletTransactionOutcome::Succeeded;
        let ids = fake.ids.clone();
        for r in &mut fake.requests {
            if r.1 == Place::In(id) {
                r.1 = if succeeded { Place::Answered } else { Place::At(owner(&ids, r.0)) };
            }
        }
        Some(outcome)
    }
}

struct FakeSim {
    kv: SimpleKeyValueStore,
    context: FakeContext,
    fake: Rc<RefCell<Fake>>,
    kinds: Vec<(bool, bool)>,
    /// Fails of the thresholds count.
    thresholds: bool,
}

enum FakeStop {
    Violation(String),
    Elsewhere,
}

impl FakeSim {
    fn must(&self, thresholds: bool, ok: bool, what: impl FnOnce() -> String) -> Result<(), FakeStop> {
        match ok {
            true => Ok(()),
            false if thresholds == self.thresholds => Err(FakeStop::Violation(what())),
            false => Err(FakeStop::Elsewhere),
        }
    }

    fn progress(&mut self) -> Result<(), FakeStop> {
        self.kv.make_progress(1, &mut self.context);
        if let Some((thresholds, what)) = self.fake.borrow_mut().problem.take() {
            self.must(thresholds, false, || what)?;
        }
        for response in self.kv.take_responses() {
            let (id, put) = match &response {
                KeyValueResponse::Put(id, _) => (*id, true),
                KeyValueResponse::Get(id, _) => (*id, false),
            };
            let i = id.wrapping_sub(1000) as usize;
            self.must(false, i < self.kinds.len(), || format!("response to unknown request: {response:?}"))?;
            self.must(false, self.kinds[i].0 == put, || format!("response of the wrong kind: {response:?}"))?;
            self.must(false, !self.kinds[i].1, || format!("second response to a request: {response:?}"))?;
            self.kinds[i].1 = true;
            let place = self.fake.borrow().requests[i].1;
            self.must(false, place == Place::Answered, || format!("request {i} is answered while it is {place:?}"))?;
        }
        Ok(())
    }

    /// What must have happened once progress has been made without other input.
    fn settled(&mut self) -> Result<(), FakeStop> {
        for _ in 0..3 {
            self.progress()?;
        }
        let fake = self.fake.borrow();
        let pending = fake.waiting(Place::Pending);
        self.must(true, pending < fake.resolve.max(1), || {
            format!("{pending} requests are pending and no resolution starts, the threshold is {}", fake.resolve)
        })?;
        for tablet in &fake.ids {
            let pending = fake.waiting(Place::At(*tablet));
            self.must(true, pending < fake.process.max(1) || fake.active(*tablet), || {
                format!("{pending} requests are pending for tablet {tablet} and no transaction starts, the threshold is {}", fake.process)
            })?;
        }
        for (i, r) in fake.requests.iter().enumerate() {
            self.must(false, r.1 != Place::Answered || self.kinds[i].1, || {
                format!("request {i} is part of a committed transaction and isn't answered")
            })?;
        }
        Ok(())
    }

    fn resolved(&mut self, which: u8) {
        let mut fake = self.fake.borrow_mut();
        if fake.resolves.is_empty() {
            return;
        }
        let at = which as usize % fake.resolves.len();
        let (queries, mut handler) = fake.resolves.remove(at);
        let mut results = fake.route(&queries);
        drop(fake);
        if which % 2 == 0 {
            results.reverse();
        }
        handler(results);
    }

    fn process(&mut self, which: u8, fails: bool) {
        let mut fake = self.fake.borrow_mut();
        let ready: Vec<usize> =
            (0..fake.txs.len()).filter(|t| fake.txs[*t].phase == Phase::Processing && fake.txs[*t].handler.is_some()).collect();
        if ready.is_empty() {
            return;
        }
        let t = ready[which as usize % ready.len()];
        if fails && which % 2 == 0 {
            // Cannot be loaded.
            fake.txs[t].phase = Phase::Failed;
            return;
        }
        let mut handler = fake.txs[t].handler.take().unwrap();
        let id = fake.txs[t].id;
        let mut tablets: Vec<(TableQuery, Tablet<Bytes>)> = Vec::new();
        // A tablet appears once, as transactions present it.
        let mut by_tablet: BTreeMap<u32, (TableQuery, Vec<u32>)> = BTreeMap::new();
        for q in &fake.txs[t].queries {
            for k in q.get_key_hashes() {
                by_tablet.entry(owner(&fake.ids, *k)).or_insert((q.clone(), Vec::new())).1.push(*k);
            }
        }
        for (tablet, (q, keys)) in by_tablet {
            let metadata = TabletMetadata { tablet_id: tablet, ..Default::default() };
            let contents = fake.contents.get(&tablet).cloned().unwrap_or_default();
            tablets.push((q.create_from(keys), Tablet::create_with_contents(metadata, contents)));
        }
        fake.txs[t].called = true;
        drop(fake);
        handler(id, tablets.iter_mut().map(|(q, t)| (q.clone(), t)).collect());
        let mut fake = self.fake.borrow_mut();
        for (_, mut tablet) in tablets {
            if let Some(contents) = tablet.take_updated_contents() {
                fake.txs[t].writes.insert(tablet.get_id(), contents);
            }
        }
        // Processed tablets may still fail to be stored.
        fake.txs[t].phase = if fails { Phase::Failed } else { Phase::Processed };
    }

    fn outcome(&mut self, which: u8, fails: bool) {
        let mut fake = self.fake.borrow_mut();
        let ready: Vec<usize> = (0..fake.txs.len()).filter(|t| fake.txs[*t].phase == Phase::Committing).collect();
        if ready.is_empty() {
            return;
        }
        let t = ready[which as usize % ready.len()];
        fake.txs[t].phase = if fails { Phase::Refused } else { Phase::Succeeded };
        if !fails {
            for (tablet, contents) in std::mem::take(&mut fake.txs[t].writes) {
                fake.contents.insert(tablet, contents);
            }
        }
    }

    fn request(&mut self, request: &Request) {
        let id = 1000 + self.kinds.len() as u64;
        let (k, put) = match request {
            Request::Put(k, _) => (*k, true),
            Request::Get(k) => (*k, false),
        };
        let key = key_name(k);
        self.kinds.push((put, false));
        let hash = self.fake.borrow().hashes[(k % KEYS) as usize];
        self.fake.borrow_mut().requests.push((hash, Place::Pending));
        self.kv.process_request(match request {
            Request::Put(_, v) => KeyValueRequest::Put(id, PutKeyRequest { key, value: Bytes::from(vec![*v; *v as usize % 3]) }),
            Request::Get(_) => KeyValueRequest::Get(id, GetKeyRequest { key }),
        });
    }

    fn run(&mut self, case: &FakeCase) -> Result<(), FakeStop> {
        // An idle store.
        for _ in 0..2 {
            self.progress()?;
        }
        for step in &case.steps {
            match step {
                FakeStep::Request(r) => self.request(r),
                FakeStep::Progress => self.progress()?,
                FakeStep::Resolved { which } => self.resolved(*which),
                FakeStep::Process { which, fails } => self.process(*which, *fails),
                FakeStep::Outcome { which, fails } => self.outcome(*which, *fails),
                FakeStep::Immediate(on) => self.fake.borrow_mut().immediate = *on,
            }
            if matches!(step, FakeStep::Progress) {
                self.settled()?;
            }
        }
        // Everything the store asked for happens.
        for round in 0..12 {
            self.settled()?;
            if self.kinds.iter().all(|k| k.1) {
                break;
            }
            self.must(false, round < 11, || {
                let left: Vec<(u32, Place)> = self
                    .fake
                    .borrow()
                    .requests
                    .iter()
                    .zip(&self.kinds)
                    .filter(|(_, k)| !k.1)
                    .map(|(r, _)| *r)
                    .collect();
                format!("requests are never answered: {left:?}")
            })?;
            // Requests for every key pass the thresholds.
            let n = case.resolve.max(case.process).max(1);
            if round >= 1 && round < 8 {
                let keys: BTreeSet<u32> = self.fake.borrow().requests.iter().zip(&self.kinds).filter(|(_, k)| !k.1).map(|(r, _)| r.0).collect();
                for k in 0..KEYS {
                    let hash = self.fake.borrow().hashes[k as usize];
                    if keys.contains(&hash) {
                        for _ in 0..n {
                            self.request(&Request::Get(k));
                        }
                    }
                }
            }
            for _ in 0..20 {
                let resolves = self.fake.borrow().resolves.len();
                for _ in 0..resolves {
                    self.resolved(0);
                }
                self.settled()?;
                let txs = self.fake.borrow().txs.len();
                for _ in 0..txs {
                    self.process(1, false);
                }
                self.settled()?;
                for _ in 0..txs {
                    self.outcome(0, false);
                }
                self.settled()?;
            }
        }
        Ok(())
    }
}

fn check_fake(thresholds: bool, case: &FakeCase) -> Outcome {
    let hashes: Vec<u32> = HASHES.with(|h| h.clone());
    let fake = Rc::new(RefCell::new(Fake {
        ids: table(u32::MAX, &case.tablets).tablet_ids(),
        resolve: case.resolve as usize,
        process: case.process as usize,
        hashes,
        ..Default::default()
    }));
    let mut kv = SimpleKeyValueStore::create();
    kv.init(logger(), config(case.resolve as u32, case.process as u32));
    let mut sim = FakeSim { kv, context: FakeContext(fake.clone()), fake: fake.clone(), kinds: Vec::new(), thresholds };
    match sim.run(case) {
        Err(FakeStop::Violation(what)) => Err(what),
        Err(FakeStop::Elsewhere) => Ok(Info::default()),
        Ok(()) => {
            let mut info = Info::default();
            let fake = fake.borrow();
            let several = fake.txs.iter().any(|t| t.tablets.len() > 1);
            let fails = case.steps.iter().any(|s| matches!(s, FakeStep::Process { fails: true, .. } | FakeStep::Outcome { fails: true, .. }));
            info.label(several, "transaction on several tablets")
                .label(fails, "failed transactions")
                .label(case.process > 1 && case.resolve > 1, "thresholds above one");
            info.nontrivial = fake.txs.len() > 2 && (fails || several);
            Ok(info)
        }
    }
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet("C11", "kv", "histories of requests to the key-value stores of several nodes; non-trivial: several puts and answers, at least one commit refused", 400_000, 6_000_000, || case(1, 1), |c| check_kv(true, c)),
        facet("C12", "kv", "histories of requests to the key-value stores of several nodes; non-trivial: faults and at least five requests", 300_000, 5_000_000, || case(3, 1), |c| check_kv(false, c)),
        facet("C12", "fake", "histories of requests on a scripted transaction context; non-trivial: several transactions, one fails or spans several tablets", 800_000, 12_000_000, fake_case, |c| check_fake(false, c)),
        facet("C13", "fake", "histories of requests on a scripted transaction context; non-trivial: several transactions, one fails or spans several tablets", 1_200_000, 20_000_000, fake_case, |c| check_fake(true, c)),
    ]
}
