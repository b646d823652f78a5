//! Replicas with the real driver, consensus, storage, snapshots, communication, handshakes and
//! sessions (on the stand-ins for Oak), and the network between them.

use crate::common::logger;
use bytes::Bytes;
use oak_proto_rust::oak::attestation::v1::*;
use pbt::{bail, ensure};
use prost::Message;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::Arc;
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::*;
use oak_time::Clock;
use tcp_runtime::communication::*;
use tcp_runtime::consensus::RaftSimple;
use tcp_runtime::driver::Driver;
use tcp_runtime::handshake::DefaultHandshakeSessionProvider;
use tcp_runtime::model::*;
use tcp_runtime::platform::{Application, Host, PalError};
use tcp_runtime::session::{DefaultOakSessionFactory, OakAttesterFactory, OakSessionBinderFactory};
use tcp_runtime::snapshot::{DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender};
use tcp_runtime::storage::MemoryStorage;

// ---------------------------------------------------------------------------------------------
// Attestation: what a genuine replica presents and accepts.

const APPLICATION: &[u8] = b"application";
const KERNEL: &[u8] = b"kernel";

pub struct Attester(pub Evidence);
impl oak_stubs::attester::Attester for Attester {
    fn quote(&self) -> anyhow::Result<Evidence> {
        Ok(self.0.clone())
    }
}

pub struct AttesterFactory(pub Evidence);
impl OakAttesterFactory for AttesterFactory {
    fn get(&self) -> anyhow::Result<Box<dyn oak_stubs::attester::Attester>> {
        Ok(Box::new(Attester(self.0.clone())))
    }
}

pub struct Binder(pub Vec<u8>);
impl oak_stubs::session_binding::SessionBinder for Binder {
    fn bind(&self, data: &[u8]) -> Vec<u8> {
        oak_stubs::session_binding::sign(&self.0, data)
    }
}

pub struct BinderFactory(pub Vec<u8>);
impl OakSessionBinderFactory for BinderFactory {
    fn get(&self) -> anyhow::Result<Box<dyn oak_stubs::session_binding::SessionBinder>> {
        Ok(Box::new(Binder(self.0.clone())))
    }
}

pub fn evidence(id: u64) -> Evidence {
    Evidence {
        tee: evidence::Tee::AmdSevSnp.into(),
        kernel: KERNEL.to_vec(),
        application: APPLICATION.to_vec(),
        binding_key: format!("binding {id}").into_bytes(),
        signing_key: format!("signing {id}").into_bytes(),
        ..Default::default()
    }
}

pub fn reference_values() -> ReferenceValues {
    let digests = |d: &[u8]| BinaryReferenceValue {
        r#type: Some(binary_reference_value::Type::Digests(Digests { digest: d.to_vec() })),
    };
    ReferenceValues {
        r#type: Some(reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
            root_layer: Some(RootLayerReferenceValues {
                amd_sev: Some(AmdSevReferenceValues { stage0: Some(digests(b"")), ..Default::default() }),
                ..Default::default()
            }),
            kernel_layer: Some(KernelLayerReferenceValues {
                kernel: Some(KernelBinaryReferenceValue {
                    r#type: Some(kernel_binary_reference_value::Type::Digests(KernelDigests {
                        digest: KERNEL.to_vec(),
                    })),
                }),
                ..Default::default()
            }),
            application_layer: Some(ApplicationLayerReferenceValues {
                binary: Some(digests(APPLICATION)),
                ..Default::default()
            }),
        })),
    }
}

pub fn communication(id: u64) -> DefaultCommunicationModule {
    let evidence = evidence(id);
    let key = evidence.signing_key.clone();
    DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(
        DefaultOakSessionFactory::new(Box::new(BinderFactory(key)), Box::new(AttesterFactory(evidence))),
    ))))
}

/// Lets see whether the replica could read an answer to a snapshot chunk.
pub struct Watched {
    inner: DefaultCommunicationModule,
    answers: Rc<Cell<u64>>,
}

impl CommunicationModule for Watched {
    fn init(&mut self, id: u64, logger: slog::Logger, clock: Arc<dyn Clock>, config: CommunicationConfig) {
        self.inner.init(id, logger, clock, config)
    }
    fn process_out_message(&mut self, message: OutgoingMessage) -> Result<(), PalError> {
        self.inner.process_out_message(message)
    }
    fn process_in_message(&mut self, message: in_message::Msg) -> Result<Option<in_message::Msg>, PalError> {
        let message = self.inner.process_in_message(message)?;
        if let Some(in_message::Msg::DeliverSnapshotResponse(_)) = message {
            self.answers.set(self.answers.get() + 1);
        }
        Ok(message)
    }
    fn take_out_messages(&mut self) -> Vec<OutMessage> {
        self.inner.take_out_messages()
    }
    fn process_cluster_change(&mut self, replicas: &[u64]) {
        self.inner.process_cluster_change(replicas)
    }
    fn make_tick(&mut self) {
        self.inner.make_tick()
    }
    fn take_failed_snapshot_requests(&mut self) -> Vec<DeliverSnapshotRequest> {
        self.inner.take_failed_snapshot_requests()
    }
}

// ---------------------------------------------------------------------------------------------
// The actor: it keeps the events applied.

#[derive(Debug, Clone, PartialEq)]
pub struct Applied {
    pub index: u64,
    pub correlation_id: u64,
    pub contents: Bytes,
}

/// What is true of all replicas.
#[derive(Default)]
pub struct World {
    /// Every event applied anywhere, in order.
    pub canonical: Vec<Applied>,
    /// Proposer and correlation id of the events proposed.
    pub proposed: BTreeMap<Bytes, (u64, u64)>,
    pub problem: Option<String>,
}

impl World {
    fn problem(&mut self, problem: String) {
        self.problem.get_or_insert(problem);
    }
}

#[derive(Default)]
pub struct ActorLog {
    pub history: Vec<Applied>,
    pub leader: bool,
    pub inits: u32,
    pub shutdowns: u32,
    pub commands: u32,
    pub ticks: u32,
    pub applies: u32,
    pub loads: u32,
    pub saves: u32,
}

impl ActorLog {
    /// Number of calls that change what the application has or does.
    pub fn touched(&self) -> (u32, u32, u32, u32, u32, u32) {
        (self.inits, self.shutdowns, self.commands, self.ticks, self.applies, self.loads)
    }
}

pub struct Recorder {
    pub id: u64,
    pub world: Rc<RefCell<World>>,
    pub log: Rc<RefCell<ActorLog>>,
    pub context: Option<Box<dyn ActorContext>>,
    /// Propose also when not leading.
    pub eager: bool,
}

pub fn encode_history(history: &[Applied]) -> Bytes {
    let mut out = Vec::new();
    for a in history {
        out.extend(a.index.to_le_bytes());
        out.extend(a.correlation_id.to_le_bytes());
        out.extend((a.contents.len() as u32).to_le_bytes());
        out.extend(&a.contents);
    }
    out.into()
}

pub fn decode_history(mut data: Bytes) -> Option<Vec<Applied>> {
    let mut history = Vec::new();
    while !data.is_empty() {
        if data.len() < 20 {
            return None;
        }
        let head = data.split_to(20);
        let length = u32::from_le_bytes(head[16..20].try_into().unwrap()) as usize;
        if data.len() < length {
            return None;
        }
        history.push(Applied {
            index: u64::from_le_bytes(head[..8].try_into().unwrap()),
            correlation_id: u64::from_le_bytes(head[8..16].try_into().unwrap()),
            contents: data.split_to(length),
        });
    }
    Some(history)
}

impl Actor for Recorder {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        self.context = Some(context);
        self.log.borrow_mut().inits += 1;
        Ok(())
    }
    fn on_shutdown(&mut self) {
        self.log.borrow_mut().shutdowns += 1;
    }
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        let mut log = self.log.borrow_mut();
        log.saves += 1;
        Ok(encode_history(&log.history))
    }
    fn on_load_snapshot(&mut self, snapshot: Bytes) -> Result<(), ActorError> {
        let mut log = self.log.borrow_mut();
        let mut world = self.world.borrow_mut();
        log.loads += 1;
        match decode_history(snapshot) {
            None => world.problem(format!("replica {} loads a snapshot nobody made", self.id)),
            Some(history) => {
                if !world.canonical.starts_with(&history) {
                    world.problem(format!("replica {} loads a snapshot of another history", self.id));
                } else if history.len() < log.history.len() {
                    world.problem(format!("replica {} loads a snapshot older than its state", self.id));
                }
                log.history = history;
            }
        }
        Ok(())
    }
    fn on_process_command(&mut self, command: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        let leader = self.context.as_ref().unwrap().leader();
        let mut log = self.log.borrow_mut();
        log.leader = leader;
        let Some(command) = command else {
            log.ticks += 1;
            return Ok(CommandOutcome::with_none());
        };
        log.commands += 1;
        if !leader && !self.eager {
            return Ok(CommandOutcome::with_none());
        }
        let (id, correlation_id) = (self.id, command.correlation_id);
        self.world.borrow_mut().proposed.insert(command.payload.clone(), (id, correlation_id));
        Ok(CommandOutcome::with_event(ActorEvent::with_bytes(correlation_id, command.payload)))
    }
    fn on_apply_event(&mut self, context: ActorEventContext, event: ActorEvent) -> Result<EventOutcome, ActorError> {
        let mut log = self.log.borrow_mut();
        let mut world = self.world.borrow_mut();
        log.applies += 1;
        let applied = Applied {
            index: context.index,
            correlation_id: event.correlation_id,
            contents: event.contents.clone(),
        };
        let proposed = world.proposed.get(&event.contents).cloned();
        let Some((proposer, correlation_id)) = proposed else {
            world.problem(format!("replica {} applies an event nobody proposed", self.id));
            return Ok(EventOutcome::with_none());
        };
        if correlation_id != event.correlation_id {
            world.problem(format!("replica {} applies an event with another correlation id", self.id));
        }
        if context.owned != (proposer == self.id) {
            world.problem(format!(
                "replica {} applies an event of {} as {}",
                self.id,
                proposer,
                if context.owned { "its own" } else { "not its own" }
            ));
        }
        if log.history.last().is_some_and(|l| l.index >= context.index) {
            world.problem(format!("replica {} applies events out of the order of the log", self.id));
        }
        let at = log.history.len();
        match world.canonical.get(at) {
            Some(other) if *other != applied => {
                let problem =
                    format!("replica {} applies {:?} where another applied {:?}", self.id, applied, other);
                world.problem(problem);
            }
            Some(_) => {}
            None => {
                if world.canonical.iter().any(|c| c.contents == applied.contents) {
                    world.problem(format!("replica {} applies an event twice", self.id));
                }
                world.canonical.push(applied.clone());
            }
        }
        log.history.push(applied);
        if !context.owned {
            return Ok(EventOutcome::with_none());
        }
        Ok(EventOutcome::with_command(ActorCommand {
            correlation_id: event.correlation_id,
            header: Bytes::new(),
            payload: event.contents,
        }))
    }
    fn get_reference_values(&self) -> ReferenceValues {
        reference_values()
    }
}

// ---------------------------------------------------------------------------------------------
// The replicas and their network.

pub type TestDriver = Driver<
    RaftSimple<MemoryStorage>,
    MemoryStorage,
    DefaultSnapshotProcessor,
    Recorder,
    Watched,
>;

pub struct Out(pub Vec<OutMessage>);
impl Host for Out {
    fn send_messages(&mut self, messages: Vec<OutMessage>) {
        self.0.extend(messages);
    }
    fn public_signing_key(&self) -> Vec<u8> {
        Vec::new()
    }
}

pub struct Node {
    pub driver: TestDriver,
    pub log: Rc<RefCell<ActorLog>>,
    pub alive: bool,
    pub stopped: bool,
    pub lameduck: bool,
    pub applied_index: u64,
    pub answers: Rc<Cell<u64>>,
}

#[derive(Debug, Clone)]
pub struct Packet {
    pub from: u64,
    pub to: u64,
    pub msg: in_message::Msg,
}

#[derive(Debug, Clone)]
pub struct Config {
    pub election_tick: u32,
    pub heartbeat_tick: u32,
    pub max_size_per_msg: u64,
    pub snapshot_count: u64,
    pub chunk_size: u64,
    pub max_pending_chunks: u32,
    pub handshake_retry_tick: u64,
    pub eager: bool,
}

pub const TICK: u64 = 10;

pub struct Sim {
    pub config: Config,
    pub now: u64,
    pub nodes: BTreeMap<u64, Node>,
    pub net: VecDeque<Packet>,
    pub world: Rc<RefCell<World>>,
    /// Who led in which term, as reported.
    pub leaders: BTreeMap<u64, u64>,
    /// Committed configuration reported by the leader of the highest term.
    pub members: (u64, BTreeSet<u64>),
    /// Configurations before it that replicas may still go by.
    pub outdated: Vec<BTreeSet<u64>>,
    /// Replicas that lead, as last reported: term, pending changes.
    pub leading: BTreeMap<u64, (u64, bool)>,
    /// Whether that leader may still have to apply changes.
    pub pending: bool,
    /// Membership changes accepted whose outcome isn't known: term, replica, added.
    pub unresolved: Vec<(u64, u64, bool)>,
    /// Events reported as applied.
    pub acknowledged: BTreeSet<Bytes>,
    /// Snapshot chunks (sender, delivery id) sent and not answered, with their recipient and the
    /// round they were sent in.
    pub chunks: BTreeMap<(u64, u64), (u64, u64)>,
    pub round: u64,
    pub next_id: u64,
    pub next_command: u64,
    /// Replies for the host of the last call.
    pub replies: Vec<out_message::Msg>,
    /// Pairs of replicas that can't reach each other.
    pub cut: BTreeSet<(u64, u64)>,
    /// Keep messages sent, for later replay.
    pub watch: bool,
    pub past: VecDeque<Packet>,
    /// The host changed the cluster in a way it doesn't keep account of.
    pub tainted: bool,
}

thread_local! {
    /// The first message to another replica of this thread that wasn't encrypted.
    pub static LEAK: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Encrypted messages carry the nonce of their session, and aren't what they encrypt.
fn leaks(msg: &in_message::Msg) -> bool {
    let (payload, outside) = match msg {
        in_message::Msg::DeliverSystemMessage(m) => (&m.payload, &m.message_contents),
        in_message::Msg::DeliverSnapshotRequest(m) => (&m.payload, &m.payload_contents),
        in_message::Msg::DeliverSnapshotResponse(m) => (&m.payload, &m.payload_contents),
        _ => return false,
    };
    let Some(payload) = payload else { return true };
    let (from, to) = match msg {
        in_message::Msg::DeliverSystemMessage(m) => (m.sender_replica_id, m.recipient_replica_id),
        _ => (0, 0),
    };
    let consensus = raft::prelude::Message::decode(payload.contents.clone())
        .is_ok_and(|m| m.from == from && m.to == to && from != 0);
    payload.nonce.len() != 12 || !outside.is_empty() || consensus
}

impl Sim {
    pub fn new(config: Config, seed: u64) -> Self {
        raft::seed_election_timeouts(seed);
        oak_stubs::seed(seed);
        Sim {
            config,
            now: 1000,
            nodes: BTreeMap::new(),
            net: VecDeque::new(),
            world: Rc::default(),
            leaders: BTreeMap::new(),
            members: (0, BTreeSet::new()),
            outdated: Vec::new(),
            leading: BTreeMap::new(),
            pending: false,
            unresolved: Vec::new(),
            acknowledged: BTreeSet::new(),
            chunks: BTreeMap::new(),
            round: 0,
            next_id: 1,
            next_command: 1,
            replies: Vec::new(),
            cut: BTreeSet::new(),
            watch: false,
            past: VecDeque::new(),
            tainted: false,
        }
    }

    pub fn create(&mut self) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        let answers = Rc::new(Cell::new(0));
        let log = Rc::new(RefCell::new(ActorLog::default()));
        let actor = Recorder {
            id,
            world: self.world.clone(),
            log: log.clone(),
            context: None,
            eager: self.config.eager,
        };
        let driver = Driver::new(
            RaftSimple::new(),
            Box::new(MemoryStorage::new),
            DefaultSnapshotProcessor::new(
                Box::new(DefaultSnapshotSender::new()),
                Box::new(DefaultSnapshotReceiver::new()),
            ),
            actor,
            Watched { inner: communication(id), answers: answers.clone() },
            Some(if tracing() { tracer() } else { logger() }),
        );
        self.nodes.insert(
            id,
            Node { driver, log, alive: true, stopped: false, lameduck: false, applied_index: 0, answers },
        );
        id
    }

    pub fn start_request(&self, id: u64, is_leader: bool) -> in_message::Msg {
        in_message::Msg::StartReplica(StartReplicaRequest {
            is_leader,
            replica_id_hint: id,
            raft_config: Some(RaftConfig {
                tick_period: TICK,
                election_tick: self.config.election_tick,
                heartbeat_tick: self.config.heartbeat_tick,
                max_size_per_msg: self.config.max_size_per_msg,
                snapshot_config: Some(SnapshotConfig {
                    snapshot_count: self.config.snapshot_count,
                    chunk_size: self.config.chunk_size,
                    max_pending_chunks: self.config.max_pending_chunks,
                }),
                handshake_retry_tick: self.config.handshake_retry_tick,
            }),
            endorsements: Some(Endorsements::default()),
            ..Default::default()
        })
    }

    pub fn start(&mut self, is_leader: bool) -> Result<u64, String> {
        let id = self.create();
        let request = self.start_request(id, is_leader);
        self.expect_ok(id, Some(request))?;
        ensure!(
            self.replies.contains(&out_message::Msg::StartReplica(StartReplicaResponse { replica_id: id })),
            "the start of a replica isn't answered"
        );
        Ok(id)
    }

    /// One call of a replica. What it sends is put into the network.
    pub fn call(&mut self, id: u64, msg: Option<in_message::Msg>) -> Result<Result<(), PalError>, String> {
        let node = self.nodes.get_mut(&id).unwrap();
        let mut out = Out(Vec::new());
        let message = msg.map(|msg| InMessage { msg: Some(msg) });
        let result = node.driver.receive_message(&mut out, self.now, message);
        if let Some(problem) = self.world.borrow_mut().problem.take() {
            bail!("{}", problem);
        }
        let mut packets = Vec::new();
        self.replies.clear();
        for message in out.0 {
            let Some(msg) = message.msg else { bail!("replica {} sends an empty message", id) };
            let (from, to, msg) = match msg {
                out_message::Msg::DeliverSystemMessage(m) => (
                    m.sender_replica_id,
                    m.recipient_replica_id,
                    in_message::Msg::DeliverSystemMessage(m),
                ),
                out_message::Msg::DeliverSnapshotRequest(m) => {
                    self.chunks
                        .insert((m.sender_replica_id, m.delivery_id), (m.recipient_replica_id, self.round));
                    (
                        m.sender_replica_id,
                        m.recipient_replica_id,
                        in_message::Msg::DeliverSnapshotRequest(m),
                    )
                }
                out_message::Msg::DeliverSnapshotResponse(m) => (
                    m.sender_replica_id,
                    m.recipient_replica_id,
                    in_message::Msg::DeliverSnapshotResponse(m),
                ),
                out_message::Msg::SecureChannelHandshake(m) => (
                    m.sender_replica_id,
                    m.recipient_replica_id,
                    in_message::Msg::SecureChannelHandshake(m),
                ),
                other => {
                    self.reply(id, &other)?;
                    self.replies.push(other);
                    continue;
                }
            };
            ensure!(from == id, "replica {} sends as {}", id, from);
            ensure!(to != id, "replica {} sends to itself", id);
            if leaks(&msg) {
                LEAK.with(|l| l.borrow_mut().get_or_insert(format!("{:.500}", format!("{msg:?}"))).truncate(500));
            }
            packets.push(Packet { from, to, msg });
        }
        // Messages to different replicas come in no particular order.
        packets.sort_by_key(|p| p.to);
        if self.watch {
            self.past.extend(packets.iter().cloned());
            while self.past.len() > 60 {
                self.past.pop_front();
            }
        }
        self.net.extend(packets);
        Ok(result)
    }

    fn reply(&mut self, id: u64, msg: &out_message::Msg) -> Result<(), String> {
        match msg {
            out_message::Msg::CheckCluster(m) => {
                if m.leader_replica_id == 0 {
                    self.leading.remove(&id);
                    ensure!(
                        m.leader_term == 0 && m.cluster_replica_ids.is_empty() && !m.has_pending_changes,
                        "replica {} reports a cluster without a leader: {:?}",
                        id,
                        m
                    );
                    return Ok(());
                }
                ensure!(m.leader_replica_id == id, "replica {} reports {} as leader", id, m.leader_replica_id);
                ensure!(m.leader_term > 0, "replica {} leads in no term", id);
                let leader = *self.leaders.entry(m.leader_term).or_insert(id);
                ensure!(leader == id, "{} and {} both lead in term {}", leader, id, m.leader_term);
                let config: BTreeSet<u64> = m.cluster_replica_ids.iter().copied().collect();
                ensure!(
                    config.len() == m.cluster_replica_ids.len(),
                    "replica {} reports a replica twice: {:?}",
                    id,
                    m
                );
                let voters: BTreeSet<u64> = raft::observed(id).voters.iter().copied().collect();
                ensure!(
                    config == voters,
                    "replica {} reports {:?} as the cluster but consensus goes by {:?}",
                    id,
                    config,
                    voters
                );
                // What a leader of a later term doesn't have may still come, until it committed
                // something itself.
                self.unresolved.retain(|(term, replica, added)| {
                    m.leader_term < *term
                        || config.contains(replica) != *added
                            && (m.leader_term > *term || m.has_pending_changes)
                });
                self.leading.insert(id, (m.leader_term, m.has_pending_changes));
                if m.leader_term >= self.members.0 {
                    self.pending = m.has_pending_changes;
                    if config != self.members.1 {
                        let before = core::mem::replace(&mut self.members.1, config);
                        self.outdated.push(before);
                    }
                    self.members.0 = m.leader_term;
                }
            }
            out_message::Msg::DeliverAppMessage(m) => {
                let proposed = self.world.borrow().proposed.get(&m.message_payload).cloned();
                ensure!(
                    proposed == Some((id, m.correlation_id)),
                    "replica {} answers a command it didn't receive",
                    id
                );
                ensure!(
                    self.acknowledged.insert(m.message_payload.clone()),
                    "replica {} answers a command twice",
                    id
                );
                if let Some((leads, false)) = self.leading.get(&id) {
                    self.unresolved.retain(|(term, ..)| term >= leads);
                }
            }
            out_message::Msg::GetReplicaState(m) => {
                let node = self.nodes.get_mut(&id).unwrap();
                let last = node.log.borrow().history.last().map_or(0, |a| a.index);
                ensure!(
                    m.applied_index >= last && m.applied_index >= node.applied_index,
                    "replica {} reports index {} as applied after {} and {}",
                    id,
                    m.applied_index,
                    last,
                    node.applied_index
                );
                node.applied_index = m.applied_index;
            }
            _ => {}
        }
        Ok(())
    }

    /// A message of no known kind.
    pub fn unknown(&mut self, id: u64) -> Result<(), String> {
        let node = self.nodes.get_mut(&id).unwrap();
        let before = node.log.borrow().touched();
        let mut out = Out(Vec::new());
        let result = node.driver.receive_message(&mut out, self.now, Some(InMessage { msg: None }));
        ensure!(
            result.is_ok() && out.0.is_empty() && node.log.borrow().touched() == before,
            "a message of no known kind isn't ignored by replica {}",
            id
        );
        Ok(())
    }

    pub fn expect_ok(&mut self, id: u64, msg: Option<in_message::Msg>) -> Result<(), String> {
        let what = msg.as_ref().map_or("a tick".to_string(), |m| format!("{m:?}"));
        if let Err(e) = self.call(id, msg)? {
            bail!("replica {} terminates with {:?} on {:.200}", id, e, what);
        }
        Ok(())
    }

    pub fn running(&self, id: u64) -> bool {
        self.nodes.get(&id).is_some_and(|n| n.alive && !n.stopped)
    }

    /// A lameduck replica may be stuck in a term that the others don't reach.
    pub fn takes_part(&self, id: u64) -> bool {
        self.running(id) && !self.nodes[&id].lameduck
    }

    pub fn live(&self) -> Vec<u64> {
        self.nodes.keys().copied().filter(|id| self.running(*id)).collect()
    }

    /// Gives a message to its recipient.
    pub fn deliver(&mut self, p: Packet) -> Result<(), String> {
        if tracing() {
            eprintln!("round {}: {} -> {}: {:.300}", self.round, p.from, p.to, format!("{:?}", p.msg));
        }
        if !self.running(p.to) || self.cut.contains(&(p.from.min(p.to), p.from.max(p.to))) {
            return Ok(());
        }
        let chunk = match &p.msg {
            in_message::Msg::DeliverSnapshotResponse(m) => Some((m.recipient_replica_id, m.delivery_id)),
            _ => None,
        };
        let answers = self.nodes[&p.to].answers.get();
        self.expect_ok(p.to, Some(p.msg))?;
        if let Some(chunk) = chunk {
            // An answer that overtook too many messages can't be read any more.
            if self.nodes[&p.to].answers.get() > answers {
                self.chunks.remove(&chunk);
            }
        }
        Ok(())
    }

    /// Delivers what is in the network now.
    pub fn sweep(&mut self) -> Result<(), String> {
        for _ in 0..self.net.len() {
            let p = self.net.pop_front().unwrap();
            self.deliver(p)?;
        }
        Ok(())
    }

    /// Time passes for all replicas and messages are delivered.
    pub fn rounds(&mut self, n: u64, sweeps: u32) -> Result<(), String> {
        for _ in 0..n {
            self.round += 1;
            self.now += TICK;
            for id in self.live() {
                self.expect_ok(id, None)?;
            }
            for _ in 0..sweeps {
                self.sweep()?;
            }
            // The host gives up on chunks that aren't answered.
            let late: Vec<_> =
                self.chunks.iter().filter(|(_, (_, at))| at + 25 < self.round).map(|(k, _)| *k).collect();
            for (sender, delivery_id) in late {
                self.chunk_failed(sender, delivery_id)?;
            }
        }
        Ok(())
    }

    /// The host reports that a chunk didn't get through, in the name of its recipient.
    pub fn chunk_failed(&mut self, sender: u64, delivery_id: u64) -> Result<(), String> {
        let Some((recipient, _)) = self.chunks.remove(&(sender, delivery_id)) else { return Ok(()) };
        if !self.running(sender) {
            return Ok(());
        }
        self.expect_ok(
            sender,
            Some(in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure {
                sender_replica_id: recipient,
                delivery_id,
            })),
        )
    }

    /// The replica that leads in the highest term.
    pub fn leader(&self) -> Option<u64> {
        let (_, id) = self.leaders.last_key_value()?;
        (self.running(*id) && self.nodes[id].log.borrow().leader).then_some(*id)
    }

    pub fn command(&mut self, id: u64, size: usize) -> Result<(), String> {
        let number = self.next_command;
        self.next_command += 1;
        let mut payload = format!("{number}/{id}/").into_bytes();
        payload.resize(payload.len() + size, b'.');
        self.expect_ok(
            id,
            Some(in_message::Msg::DeliverAppMessage(DeliverAppMessage {
                // Correlation ids of different replicas may be the same.
                correlation_id: number % 7,
                message_header: Bytes::new(),
                message_payload: payload.into(),
            })),
        )
    }

    pub fn change(&mut self, at: u64, replica_id: u64, add: bool) -> Result<ChangeClusterStatus, String> {
        let change_id = self.round * 100 + replica_id;
        let change_type = if add {
            ChangeClusterType::ChangeTypeAddReplica
        } else {
            ChangeClusterType::ChangeTypeRemoveReplica
        };
        // It may be in the log of the term this replica led last, at most.
        let term = self.leaders.iter().rev().find(|(_, id)| **id == at).map_or(0, |(term, _)| *term);
        self.unresolved.push((term, replica_id, add));
        self.expect_ok(
            at,
            Some(in_message::Msg::ChangeCluster(ChangeClusterRequest {
                change_id,
                replica_id,
                change_type: change_type.into(),
            })),
        )?;
        let answers: Vec<_> = self
            .replies
            .iter()
            .filter_map(|r| match r {
                out_message::Msg::ChangeCluster(m) => Some(m.clone()),
                _ => None,
            })
            .collect();
        ensure!(
            answers.len() == 1 && answers[0].change_id == change_id,
            "a membership change is answered with {:?}",
            answers
        );
        let status = answers[0].change_status();
        if status == ChangeClusterStatus::ChangeStatusRejected {
            if let Some(at) = self.unresolved.iter().rposition(|u| *u == (term, replica_id, add)) {
                self.unresolved.remove(at);
            }
        }
        Ok(status)
    }

    /// Configurations that may be in force, as far as the host can know.
    pub fn plausible(&self) -> Vec<BTreeSet<u64>> {
        let mut all = self.outdated.clone();
        all.retain(|c| !c.is_empty());
        all.push(self.members.1.clone());
        for (_, replica, added) in &self.unresolved {
            for mut config in all.clone() {
                if *added {
                    config.insert(*replica);
                } else {
                    config.remove(replica);
                }
                all.push(config);
            }
        }
        all
    }

    /// Whether the cluster must go on with only these replicas running.
    pub fn majority(&self, running: &dyn Fn(u64) -> bool) -> bool {
        self.unresolved.len() <= 3
            && self.plausible().iter().all(|c| c.iter().filter(|id| running(**id)).count() * 2 > c.len())
    }

    /// Undisturbed time until an event is applied by all members running, within limits.
    /// Says whether it comes to that; it needn't if Raft itself leaves a replica stuck.
    pub fn settle(&mut self) -> Result<bool, String> {
        self.cut.clear();
        let before = self.next_command;
        let limit = 60 * (self.config.election_tick as u64 + 10);
        let mut proposals = 0;
        let mut answered = 0;
        let mut removed = 0;
        let mut i = 0;
        let mut until = limit;
        while i < until {
            i += 1;
            self.rounds(1, 4)?;
            // The host removes replicas that aren't members any more.
            let Some(leader) = self.leader() else { continue };
            let resolved = self.unresolved.is_empty() && !self.pending;
            if !self.pending && !self.members.1.contains(&leader) {
                // A leader that has been removed gets time to let the others know.
                removed += 1;
                if removed == 10 * (self.config.election_tick as u64 + 10) {
                    removed = 0;
                    until = i + limit;
                    self.nodes.get_mut(&leader).unwrap().alive = false;
                    continue;
                }
            }
            if resolved && self.members.1.contains(&leader) {
                for id in self.live() {
                    if !self.members.1.contains(&id) && !self.nodes[&id].log.borrow().leader {
                        self.nodes.get_mut(&id).unwrap().alive = false;
                        until = i + limit;
                    }
                }
            }
            if proposals > 0 && self.acknowledged_by(leader, before) {
                answered = leader;
            }
            if i % 10 == 0 {
                if !resolved {
                    self.expect_ok(leader, Some(in_message::Msg::CheckCluster(CheckClusterRequest {})))?;
                }
                // Commands to a lameduck leader would keep it leading.
                if answered != leader && !self.nodes[&leader].lameduck {
                    self.command(leader, 0)?;
                    proposals += 1;
                }
            }
            if answered == leader && self.settled(leader) {
                self.outdated.clear();
                return Ok(true);
            }
        }
        if self.stuck() {
            return Ok(false);
        }
        let state: Vec<_> = self
            .nodes
            .iter()
            .map(|(id, n)| {
                let log = n.log.borrow();
                format!(
                    "{}{}{}: {} events{}",
                    id,
                    if n.stopped { " stopped" } else if n.alive { "" } else { " crashed" },
                    if n.lameduck { " lameduck" } else { "" },
                    log.history.len(),
                    if log.leader { ", leads" } else { "" }
                )
            })
            .collect();
        bail!(
            "replicas don't come to the same state in undisturbed time: {:?}; {} events in all, members {:?}, open changes {:?}",
            state,
            self.world.borrow().canonical.len(),
            self.members,
            self.unresolved
        )
    }

    /// Whether Raft itself, without pre-vote, keeps the replicas from going on: a replica without a
    /// configuration got to a term higher than the leader's, hence ignores the leader and never
    /// campaigns; or there is no leader and the replicas that campaign go by different
    /// configurations, hence don't hear of each other's terms; or a replica whose configuration lacks
    /// the leader got to a higher term; or a replica whose removal the leader can't commit keeps
    /// campaigning.
    fn stuck(&self) -> bool {
        let live: Vec<_> = self.live().into_iter().map(raft::observed).collect();
        let voters: BTreeSet<_> = live.iter().filter(|o| o.promotable).map(|o| &o.voters).collect();
        if voters.len() > 1 && !live.iter().any(|o| o.leads && o.promotable) {
            return true;
        }
        let leads = live.iter().filter(|o| o.promotable && o.leads).max_by_key(|o| o.term);
        if let (Some(l), Some(id)) = (leads, self.leader()) {
            if live.iter().any(|o| o.promotable && o.term > l.term && !o.voters.contains(&id)) {
                return true;
            }
        }
        if leads.is_some_and(|l| self.live().iter().any(|id| !l.voters.contains(id) && raft::observed(*id).promotable)) {
            return true;
        }
        let term = leads.map(|o| o.term);
        term.is_some_and(|term| live.iter().any(|o| !o.promotable && o.term > term))
    }

    /// Whether a command since the given one was answered by this replica.
    fn acknowledged_by(&self, id: u64, since: u64) -> bool {
        let world = self.world.borrow();
        self.acknowledged.iter().any(|a| {
            world.proposed[a].0 == id
                && std::str::from_utf8(a).unwrap().split('/').next().unwrap().parse::<u64>().unwrap() >= since
        })
    }

    fn settled(&self, leader: u64) -> bool {
        let world = self.world.borrow();
        let all = world.canonical.len();
        self.members.1.contains(&leader)
            && self
                .members
                .1
                .iter()
                .all(|id| !self.takes_part(*id) || self.nodes[id].log.borrow().history.len() == all)
    }

    /// After `settle`: nothing reported as applied is lost.
    pub fn check_acknowledged(&self) -> Result<(), String> {
        let world = self.world.borrow();
        for id in self.members.1.iter().filter(|id| self.takes_part(**id)) {
            let log = self.nodes[id].log.borrow();
            let has: BTreeSet<&Bytes> = log.history.iter().map(|a| &a.contents).collect();
            for a in &self.acknowledged {
                ensure!(has.contains(a), "replica {} lost an event reported as applied: {:?}", id, a);
            }
            ensure!(log.history == world.canonical, "replica {} has another history", id);
        }
        Ok(())
    }
}

pub fn message_size(msg: &in_message::Msg) -> usize {
    InMessage { msg: Some(msg.clone()) }.encoded_len()
}

struct Tracer;
impl slog::Drain for Tracer {
    type Ok = ();
    type Err = slog::Never;
    fn log(&self, record: &slog::Record, _: &slog::OwnedKVList) -> Result<(), slog::Never> {
        eprintln!("    {}:{} {}", record.file().rsplit('/').next().unwrap(), record.line(), record.msg());
        Ok(())
    }
}

fn tracer() -> slog::Logger {
    slog::Logger::root(Tracer, slog::o!())
}

/// Whether messages and logs are printed, for the study of a replay.
fn tracing() -> bool {
    static TRACE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *TRACE.get_or_init(|| std::env::var_os("SIM_TRACE").is_some())
}
