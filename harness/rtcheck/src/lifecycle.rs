//! C24: one replica under every kind of host message, against a model of its lifecycle.

use crate::common::logger;
use crate::sim::{communication, reference_values, Out};
use bytes::Bytes;
use oak_proto_rust::oak::attestation::v1::*;
use pbt::proptest::prelude::*;
use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use prost::Message as _;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use tcp_proto::runtime::endpoint::deliver_snapshot_request::{snapshot_content, SnapshotContent};
use tcp_proto::runtime::endpoint::deliver_snapshot_response::SnapshotAck;
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::secure_channel_handshake::{noise_protocol, Encryption, NoiseProtocol};
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::DefaultCommunicationModule;
use tcp_runtime::consensus::RaftSimple;
use tcp_runtime::driver::Driver;
use tcp_runtime::model::*;
use tcp_runtime::platform::{Application, PalError};
use tcp_runtime::snapshot::{DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender};
use tcp_runtime::storage::MemoryStorage;

// ---------------------------------------------------------------------------------------------
// Messages of the host.

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Bytez {
    Raw(Vec<u8>),
    /// A Raft message.
    Raft { kind: u8, from: u8, to: u8, term: u8, index: u8, entries: u8 },
    Header { id: u8, size: u8, chunk: u8, metadata: u8 },
    Chunk { id: u8, index: u8, size: u8 },
    Ack { id: u8, index: u8, status: u8 },
}

/// Identifiers: small ones, and extreme ones.
pub fn identifier(i: u8) -> u64 {
    match i % 8 {
        6 => u64::MAX,
        7 => u64::MAX / 2 + 1,
        i => i as u64,
    }
}

impl Bytez {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Bytez::Raw(v) => v.clone(),
            Bytez::Raft { kind, from, to, term, index, entries } => {
                let mut m = raft::eraftpb::Message {
                    msg_type: *kind as i32 % 22,
                    from: identifier(*from),
                    to: identifier(*to),
                    term: identifier(*term),
                    index: identifier(*index),
                    log_term: identifier(*term),
                    commit: identifier(*index),
                    ..Default::default()
                };
                for i in 0..*entries % 4 {
                    m.entries.push(raft::eraftpb::Entry {
                        index: identifier(*index).wrapping_add(i as u64),
                        term: identifier(*term),
                        data: vec![i; i as usize].into(),
                        ..Default::default()
                    });
                }
                m.encode_to_vec()
            }
            Bytez::Header { id, size, chunk, metadata } => SnapshotContent {
                snapshot_id: *id as u32 % 4,
                it: Some(snapshot_content::It::Header(snapshot_content::Header {
                    snapshot_size: if *size > 250 { u64::MAX } else { *size as u64 },
                    snapshot_metadata: vec![*metadata; *metadata as usize % 4].into(),
                    chunk_contents: vec![1; *chunk as usize].into(),
                })),
            }
            .encode_to_vec(),
            Bytez::Chunk { id, index, size } => SnapshotContent {
                snapshot_id: *id as u32 % 4,
                it: Some(snapshot_content::It::Chunk(snapshot_content::Chunk {
                    chunk_index: *index as u32,
                    chunk_contents: vec![2; *size as usize].into(),
                })),
            }
            .encode_to_vec(),
            Bytez::Ack { id, index, status } => SnapshotAck {
                snapshot_id: *id as u32 % 4,
                chunk_index: *index as u32,
                status: *status as i32 % 5,
            }
            .encode_to_vec(),
        }
    }
}

pub fn bytez() -> impl Strategy<Value = Bytez> {
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Bytez::Raw),
        3 => (any::<u8>(), 0u8..8, 0u8..8, 0u8..8, 0u8..8, any::<u8>())
            .prop_map(|(kind, from, to, term, index, entries)| Bytez::Raft { kind, from, to, term, index, entries }),
        1 => any::<[u8; 4]>().prop_map(|[id, size, chunk, metadata]| Bytez::Header { id, size, chunk, metadata }),
        1 => any::<[u8; 3]>().prop_map(|[id, index, size]| Bytez::Chunk { id, index, size }),
        1 => any::<[u8; 3]>().prop_map(|[id, index, status]| Bytez::Ack { id, index, status }),
    ]
}

/// A message that looks as if it came from another replica.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Forged {
    System { from: u8, to: u8, payload: Option<Bytez>, nonce: u8 },
    Request { from: u8, to: u8, delivery: u8, payload: Option<Bytez>, nonce: u8 },
    Response { from: u8, to: u8, delivery: u8, payload: Option<Bytez>, nonce: u8 },
    Failure { from: u8, delivery: u8 },
    Handshake { from: u8, to: u8, shape: u8, contents: Vec<u8> },
}

fn payload(payload: &Option<Bytez>, nonce: u8) -> Option<Payload> {
    payload.as_ref().map(|p| Payload {
        contents: p.bytes().into(),
        nonce: vec![0; nonce as usize % 8].into(),
    })
}

impl Forged {
    pub fn message(&self) -> in_message::Msg {
        match self {
            Forged::System { from, to, payload: p, nonce } => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
                recipient_replica_id: identifier(*to),
                sender_replica_id: identifier(*from),
                payload: payload(p, *nonce),
                ..Default::default()
            }),
            Forged::Request { from, to, delivery, payload: p, nonce } => {
                in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
                    recipient_replica_id: identifier(*to),
                    sender_replica_id: identifier(*from),
                    delivery_id: identifier(*delivery),
                    payload: payload(p, *nonce),
                    ..Default::default()
                })
            }
            Forged::Response { from, to, delivery, payload: p, nonce } => {
                in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
                    recipient_replica_id: identifier(*to),
                    sender_replica_id: identifier(*from),
                    delivery_id: identifier(*delivery),
                    payload: payload(p, *nonce),
                    ..Default::default()
                })
            }
            Forged::Failure { from, delivery } => in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure {
                sender_replica_id: identifier(*from),
                delivery_id: identifier(*delivery),
            }),
            Forged::Handshake { from, to, shape, contents } => {
                use oak_proto_rust::oak::session::v1::{SessionRequest, SessionResponse};
                let message = match shape % 6 {
                    0 => Some(noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest {
                        message: None,
                    })),
                    1 => Some(noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse {
                        message: None,
                    })),
                    2 | 3 => Some(noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest {
                        message: Some(noise_protocol::initiator_request::Message::SessionRequest(
                            SessionRequest::decode(&contents[..]).unwrap_or_default(),
                        )),
                    })),
                    4 => Some(noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse {
                        message: Some(noise_protocol::recipient_response::Message::SessionResponse(
                            SessionResponse::decode(&contents[..]).unwrap_or_default(),
                        )),
                    })),
                    _ => None,
                };
                in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
                    recipient_replica_id: identifier(*to),
                    sender_replica_id: identifier(*from),
                    encryption: (shape / 6 % 4 > 0).then_some(Encryption::NoiseProtocol(NoiseProtocol { message })),
                })
            }
        }
    }
}

pub fn forged() -> impl Strategy<Value = Forged> {
    let p = || prop::option::weighted(0.9, bytez());
    prop_oneof![
        2 => (0u8..8, 0u8..8, p(), any::<u8>()).prop_map(|(from, to, payload, nonce)| Forged::System { from, to, payload, nonce }),
        2 => (0u8..8, 0u8..8, any::<u8>(), p(), any::<u8>())
            .prop_map(|(from, to, delivery, payload, nonce)| Forged::Request { from, to, delivery, payload, nonce }),
        2 => (0u8..8, 0u8..8, any::<u8>(), p(), any::<u8>())
            .prop_map(|(from, to, delivery, payload, nonce)| Forged::Response { from, to, delivery, payload, nonce }),
        1 => (0u8..8, any::<u8>()).prop_map(|(from, delivery)| Forged::Failure { from, delivery }),
        2 => (0u8..8, 0u8..8, any::<u8>(), prop::collection::vec(any::<u8>(), 0..24))
            .prop_map(|(from, to, shape, contents)| Forged::Handshake { from, to, shape, contents }),
    ]
}

// ---------------------------------------------------------------------------------------------
// The replica.

#[derive(Debug, Clone, PartialEq)]
enum Call {
    Init { id: u64, config: Bytes },
    Shutdown,
    Tick { instant: u64 },
    Command { correlation_id: u64, header: Bytes, payload: Bytes, instant: u64 },
    Apply { index: u64, owned: bool, correlation_id: u64, contents: Bytes },
    Load,
}

#[derive(Default)]
struct Log {
    calls: Vec<Call>,
    /// Whether the replica led when the last command came.
    leader: bool,
}

/// An application that does as the first byte of a command says: 1 answers, 2 proposes an event.
struct Probe {
    log: Rc<RefCell<Log>>,
    context: Option<Box<dyn ActorContext>>,
}

fn answer(correlation_id: u64, what: u8, contents: &Bytes) -> ActorCommand {
    let mut header = vec![what];
    header.extend_from_slice(contents);
    ActorCommand { correlation_id, header: header.into(), payload: contents.clone() }
}

impl Actor for Probe {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        self.log.borrow_mut().calls.push(Call::Init { id: context.id(), config: context.config() });
        self.context = Some(context);
        Ok(())
    }
    fn on_shutdown(&mut self) {
        self.log.borrow_mut().calls.push(Call::Shutdown);
    }
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        Ok(Bytes::from_static(b"state"))
    }
    fn on_load_snapshot(&mut self, _: Bytes) -> Result<(), ActorError> {
        self.log.borrow_mut().calls.push(Call::Load);
        Ok(())
    }
    fn on_process_command(&mut self, command: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        let mut log = self.log.borrow_mut();
        // An application that hears of a command before it was set up.
        let Some(context) = self.context.as_ref() else {
            log.calls.push(Call::Load);
            return Ok(CommandOutcome::with_none());
        };
        log.leader = context.leader();
        let instant = context.instant();
        let Some(c) = command else {
            log.calls.push(Call::Tick { instant });
            return Ok(CommandOutcome::with_none());
        };
        log.calls.push(Call::Command {
            correlation_id: c.correlation_id,
            header: c.header,
            payload: c.payload.clone(),
            instant,
        });
        let does = c.payload.first().copied().unwrap_or(0);
        Ok(CommandOutcome {
            commands: (does & 1 > 0).then(|| answer(c.correlation_id, b'c', &c.payload)).into_iter().collect(),
            event: (does & 2 > 0).then(|| ActorEvent::with_bytes(c.correlation_id, c.payload)),
        })
    }
    fn on_apply_event(&mut self, context: ActorEventContext, event: ActorEvent) -> Result<EventOutcome, ActorError> {
        self.log.borrow_mut().calls.push(Call::Apply {
            index: context.index,
            owned: context.owned,
            correlation_id: event.correlation_id,
            contents: event.contents.clone(),
        });
        Ok(EventOutcome::with_command(answer(event.correlation_id, b'e', &event.contents)))
    }
    fn get_reference_values(&self) -> ReferenceValues {
        reference_values()
    }
}

type TestDriver =
    Driver<RaftSimple<MemoryStorage>, MemoryStorage, DefaultSnapshotProcessor, Probe, DefaultCommunicationModule>;

// ---------------------------------------------------------------------------------------------
// Cases.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Raft {
    tick_period: u8,
    election: u8,
    heartbeat: u8,
    batch: u8,
    /// None: no configuration of snapshots.
    snapshots: Option<(u8, u8, u8)>,
    retry: u8,
}

/// Small values, and extreme ones.
fn number(i: u8) -> u64 {
    match i {
        250.. => u64::MAX - (i - 250) as u64,
        240.. => u32::MAX as u64 - (i - 240) as u64,
        i => i as u64 / 4,
    }
}

fn small(i: u8) -> u32 {
    if i >= 240 { u32::MAX - (i - 240) as u32 } else { i as u32 / 8 }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Start { leader: bool, id: u8, ephemeral: bool, raft: Option<Raft>, config: u8, endorsements: bool },
    Stop,
    Lameduck,
    Change { id: u64, replica: u8, kind: i8 },
    Check,
    State,
    App { correlation: u8, header: u8, payload: Vec<u8> },
    /// A command to a replica that leads, first waiting for it to lead if it may.
    Forged(Forged),
    Nothing,
    Unknown,
    /// Time, in tenths of a tick period.
    Ticks { n: u8 },
    Time { by: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    seed: u16,
    ops: Vec<Op>,
}

fn raft_config() -> impl Strategy<Value = Raft> {
    let usual = (1u8..40, 8u8..80, 8u8..60, any::<u8>(), prop::option::of((any::<u8>(), any::<u8>(), any::<u8>())), any::<u8>())
        .prop_map(|(tick_period, election, heartbeat, batch, snapshots, retry)| Raft {
            tick_period,
            election: election.max(heartbeat.saturating_add(8)),
            heartbeat,
            batch,
            snapshots,
            retry,
        });
    let any = (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), prop::option::of((any::<u8>(), any::<u8>(), any::<u8>())), any::<u8>())
        .prop_map(|(tick_period, election, heartbeat, batch, snapshots, retry)| Raft {
            tick_period,
            election,
            heartbeat,
            batch,
            snapshots,
            retry,
        });
    prop_oneof![4 => usual, 1 => any]
}

fn start() -> impl Strategy<Value = Op> {
    (
        prop::bool::weighted(0.8),
        0u8..8,
        prop::bool::weighted(0.2),
        prop::option::weighted(0.9, raft_config()),
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|(leader, id, ephemeral, raft, config, endorsements)| Op::Start {
            leader,
            id,
            ephemeral,
            raft,
            config,
            endorsements,
        })
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => start(),
        1 => Just(Op::Stop),
        1 => Just(Op::Lameduck),
        4 => (any::<u64>(), 0u8..8, -1i8..4).prop_map(|(id, replica, kind)| Op::Change { id, replica, kind }),
        2 => Just(Op::Check),
        2 => Just(Op::State),
        12 => (any::<u8>(), any::<u8>(), prop::collection::vec(any::<u8>(), 0..6))
            .prop_map(|(correlation, header, payload)| Op::App { correlation, header, payload }),
        12 => forged().prop_map(Op::Forged),
        2 => Just(Op::Nothing),
        1 => Just(Op::Unknown),
        6 => (1u8..80).prop_map(|n| Op::Ticks { n }),
        1 => any::<u8>().prop_map(|by| Op::Time { by }),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    (
        any::<u16>(),
        prop::collection::vec(op(), 0..6),
        prop::option::weighted(0.9, start()),
        prop::option::weighted(0.8, 60u8..130),
        prop::collection::vec(op(), 0..40),
    )
        .prop_map(|(seed, before, start, ticks, after)| {
            // Before the start, nothing that would preclude it, mostly.
            let mut ops: Vec<Op> = before
                .into_iter()
                .filter(|op| seed % 8 == 0 || !matches!(op, Op::Start { .. } | Op::Stop | Op::Lameduck))
                .collect();
            ops.extend(start);
            ops.extend(ticks.map(|n| Op::Ticks { n }));
            ops.extend(after);
            Case { seed, ops }
        })
}

// ---------------------------------------------------------------------------------------------
// The model.

#[derive(Debug, Clone, Copy, PartialEq)]
enum State {
    Created,
    Started,
    Stopped,
}

struct Model {
    state: State,
    id: u64,
    ephemeral: bool,
    lameduck: bool,
    /// Leads, as last reported, with changes pending.
    leads: bool,
    pending: bool,
    term: u64,
    members: BTreeSet<u64>,
    /// The change accepted that isn't in force yet.
    change: Option<(u64, bool)>,
    /// Events proposed while leading, that are still to be applied.
    proposed: Vec<(u64, Bytes)>,
    applied: u64,
    reported: u64,
    may_lead: bool,
    period: u64,
    election: u64,
}

struct Run {
    driver: TestDriver,
    log: Rc<RefCell<Log>>,
    now: u64,
    seen: u64,
    model: Model,
}

impl Run {
    /// One call, with what the model says of it.
    fn call(&mut self, msg: Option<InMessage>) -> Result<(), String> {
        let kind = msg.as_ref().map(|m| m.msg.clone());
        let what = format!("{:.200}", format!("{kind:?}"));
        let before = self.model.state;
        self.log.borrow_mut().calls.clear();
        let mut out = Out(Vec::new());
        let result = self.driver.receive_message(&mut out, self.now, msg);
        self.seen = self.seen.max(self.now);
        let calls = self.log.borrow().calls.clone();
        let leader = self.log.borrow().leader;
        let replies: Vec<_> = out
            .0
            .into_iter()
            .map(|m| m.msg.ok_or_else(|| format!("an empty message is sent on {what}")))
            .filter(|m| !matches!(m, Ok(out_message::Msg::Log(_))))
            .collect::<Result<_, _>>()?;
        let m = &mut self.model;
        if let Err(e) = &result {
            ensure!(
                matches!(e, PalError::InvalidOperation),
                "the replica terminates with {:?} on {} in state {:?}",
                e,
                what,
                before
            );
            ensure!(
                calls.is_empty() && replies.is_empty(),
                "input is rejected, but reaches the application or is answered: {:?} {:?} on {}",
                calls,
                replies,
                what
            );
        }
        let rejected = result.is_err();

        use in_message::Msg;
        // What is accepted in which state.
        let accepted = match (&kind, before) {
            (None | Some(None), _) => true,
            (Some(Some(msg)), _) => match msg {
                // Without an identity, a replica can only be on its own.
                Msg::StartReplica(r) => before == State::Created && (r.is_ephemeral || r.replica_id_hint != 0),
                Msg::StopReplica(_) | Msg::EnterLameduckMode(_) => true,
                Msg::DeliverAppMessage(_) | Msg::SecureChannelHandshake(_) | Msg::GetReplicaState(_) => {
                    before == State::Started
                }
                _ => before == State::Started && !m.ephemeral,
            },
        };
        // An application message to a replica that isn't started may be ignored as well.
        let app = matches!(&kind, Some(Some(Msg::DeliverAppMessage(_))));
        // So may be messages of other replicas.
        let forged = matches!(
            &kind,
            Some(Some(
                Msg::DeliverSystemMessage(_)
                    | Msg::DeliverSnapshotRequest(_)
                    | Msg::DeliverSnapshotResponse(_)
                    | Msg::DeliverSnapshotFailure(_)
                    | Msg::SecureChannelHandshake(_)
            ))
        );
        if accepted {
            // The host may learn that a message of another replica makes no sense.
            ensure!(!rejected || forged, "the replica rejects {} in state {:?}", what, before);
        } else if !app && !forged {
            ensure!(rejected, "the replica doesn't reject {} in state {:?}", what, before);
        }
        if rejected {
            return Ok(());
        }
        if matches!(kind, Some(None)) {
            // Ignored altogether.
            ensure!(
                calls.is_empty() && replies.is_empty(),
                "a message of no known kind reaches the application or is answered: {:?} {:?}",
                calls,
                replies
            );
            return Ok(());
        }

        match &kind {
            Some(Some(Msg::StartReplica(request))) => {
                m.state = State::Started;
                m.id = request.replica_id_hint;
                m.ephemeral = request.is_ephemeral;
                m.may_lead = request.is_leader && !request.is_ephemeral;
                if m.may_lead {
                    m.members = [m.id].into();
                }
            }
            Some(Some(Msg::StopReplica(_))) => m.state = State::Stopped,
            Some(Some(Msg::EnterLameduckMode(_))) => m.lameduck = true,
            _ => {}
        }

        // The application hears of exactly that.
        let mut calls = calls.into_iter();
        let mut next = calls.next();
        if before == State::Created && m.state == State::Started {
            let Some(Some(Msg::StartReplica(request))) = &kind else { unreachable!() };
            let init = Call::Init { id: m.id, config: request.app_config.clone() };
            ensure!(next.as_ref() == Some(&init), "the application isn't set up first: {:?}", next);
            next = calls.next();
        }
        if before != State::Stopped && m.state == State::Stopped {
            ensure!(next == Some(Call::Shutdown), "the application isn't shut down: {:?}", next);
            next = calls.next();
        }
        let mut answers = Vec::new();
        if m.state == State::Started {
            let instant = self.seen;
            let expected = match &kind {
                Some(Some(Msg::DeliverAppMessage(a))) => Call::Command {
                    correlation_id: a.correlation_id,
                    header: a.message_header.clone(),
                    payload: a.message_payload.clone(),
                    instant,
                },
                _ => Call::Tick { instant },
            };
            ensure!(next.as_ref() == Some(&expected), "the application gets {:?} for {}", next, what);
            next = calls.next();
            if let Call::Command { correlation_id, payload, .. } = expected {
                let does = payload.first().copied().unwrap_or(0);
                if does & 1 > 0 {
                    answers.push(answer(correlation_id, b'c', &payload));
                }
                if does & 2 > 0 && (leader || m.ephemeral) {
                    m.proposed.push((correlation_id, payload));
                }
            }
        }
        let active = before == State::Started || m.state == State::Started;
        while let Some(call) = next {
            let Call::Apply { index, owned, correlation_id, contents } = &call else {
                bail!("the application gets {:?} for {} in state {:?}", call, what, before);
            };
            ensure!(active, "an event is applied in state {:?}", before);
            ensure!(
                !m.proposed.is_empty() && m.proposed[0] == (*correlation_id, contents.clone()),
                "an event is applied out of turn: {:?} where {:?} are open",
                call,
                m.proposed
            );
            m.proposed.remove(0);
            ensure!(*owned, "a replica on its own applies an event of another");
            if m.ephemeral {
                ensure!(*index == 0, "an event that isn't replicated has index {}", index);
            } else {
                ensure!(*index > m.applied, "event {} is applied after {}", index, m.applied);
                m.applied = *index;
            }
            answers.push(answer(*correlation_id, b'e', contents));
            next = calls.next();
        }
        ensure!(
            !m.ephemeral || m.proposed.is_empty(),
            "a replica on its own doesn't apply an event at once"
        );

        // What the host gets.
        let started = replies.iter().filter(|r| matches!(r, out_message::Msg::StartReplica(_))).count();
        ensure!(
            started == (before == State::Created && m.state == State::Started) as usize,
            "{} is answered with {} reports of the start",
            what,
            started
        );
        let stopped = replies.iter().filter(|r| matches!(r, out_message::Msg::StopReplica(_))).count();
        ensure!(
            stopped == (before != State::Stopped && m.state == State::Stopped) as usize,
            "{} is answered with {} reports of the stop",
            what,
            stopped
        );
        let mut changes = 0;
        let mut states = 0;
        let mut checks = 0;
        let mut app = answers.into_iter();
        for reply in replies {
            match reply {
                out_message::Msg::StartReplica(r) => {
                    ensure!(r.replica_id == m.id, "the start is reported as {:?}", r);
                }
                out_message::Msg::StopReplica(_) => {}
                out_message::Msg::ChangeCluster(r) => {
                    let Some(Some(Msg::ChangeCluster(request))) = &kind else {
                        bail!("{} is answered with {:?}", what, r);
                    };
                    changes += 1;
                    ensure!(r.change_id == request.change_id, "change {} is answered with {:?}", request.change_id, r);
                    let add = request.change_type == ChangeClusterType::ChangeTypeAddReplica as i32;
                    let remove = request.change_type == ChangeClusterType::ChangeTypeRemoveReplica as i32;
                    // A cluster can't be left without replicas.
                    let last = remove && m.members.len() == 1 && m.members.contains(&request.replica_id);
                    let may = (add || remove) && m.leads && !m.pending && !last;
                    let expected = if may {
                        ChangeClusterStatus::ChangeStatusPending
                    } else {
                        ChangeClusterStatus::ChangeStatusRejected
                    };
                    ensure!(
                        r.change_status == expected as i32,
                        "{} is answered with {:?}; leads {}, pending {}, members {:?}",
                        what,
                        r,
                        m.leads,
                        m.pending,
                        m.members
                    );
                    if may {
                        ensure!(m.change.is_none(), "two changes are accepted at once");
                        m.change = Some((request.replica_id, add));
                    }
                }
                out_message::Msg::CheckCluster(r) => {
                    checks += 1;
                    ensure!(active && !m.ephemeral, "a cluster is reported in state {:?}", before);
                    if r.leader_replica_id == 0 {
                        ensure!(
                            r.leader_term == 0 && r.cluster_replica_ids.is_empty() && !r.has_pending_changes,
                            "a cluster without a leader is reported as {:?}",
                            r
                        );
                        m.leads = false;
                        m.pending = false;
                        continue;
                    }
                    ensure!(
                        r.leader_replica_id == m.id && m.may_lead,
                        "replica {} reports {:?}",
                        m.id,
                        r
                    );
                    ensure!(r.leader_term > 0 && r.leader_term >= m.term, "term {} after {}", r.leader_term, m.term);
                    let config: BTreeSet<u64> = r.cluster_replica_ids.iter().copied().collect();
                    ensure!(config.len() == r.cluster_replica_ids.len(), "a replica is reported twice: {:?}", r);
                    if config != m.members {
                        let Some((replica, add)) = m.change.take() else {
                            bail!("the cluster changes from {:?} to {:?} of its own accord", m.members, config);
                        };
                        if add {
                            m.members.insert(replica);
                        } else {
                            m.members.remove(&replica);
                        }
                        ensure!(config == m.members, "{:?} is reported after a change that makes {:?}", config, m.members);
                    }
                    if !r.has_pending_changes {
                        if let Some((replica, add)) = m.change.take() {
                            // It may make no difference.
                            ensure!(
                                m.members.contains(&replica) == add || replica == 0,
                                "an accepted change of {} is gone without effect: {:?}",
                                replica,
                                r
                            );
                        }
                    }
                    m.leads = true;
                    m.pending = r.has_pending_changes;
                    m.term = r.leader_term;
                }
                out_message::Msg::GetReplicaState(r) => {
                    states += 1;
                    if m.ephemeral {
                        ensure!(r == GetReplicaStateResponse::default(), "a replica on its own reports {:?}", r);
                    } else {
                        ensure!(
                            r.applied_index >= m.applied && r.applied_index >= m.reported || !accepted,
                            "index {} is reported as applied after {} and {}",
                            r.applied_index,
                            m.applied,
                            m.reported
                        );
                        m.reported = r.applied_index;
                    }
                }
                out_message::Msg::DeliverAppMessage(r) => {
                    let expected = app.next();
                    let expected = expected.as_ref().map(|e| (e.correlation_id, &e.header, &e.payload));
                    ensure!(
                        expected == Some((r.correlation_id, &r.message_header, &r.message_payload)),
                        "the application's answer {:?} is delivered as {:?}",
                        expected,
                        r
                    );
                }
                out_message::Msg::SecureChannelHandshake(r) => {
                    ensure!(active, "a handshake is sent in state {:?}", before);
                    ensure!(r.sender_replica_id == m.id, "replica {} sends a handshake as {}", m.id, r.sender_replica_id);
                }
                other => bail!("{} is answered with {:?}, though nobody completed a handshake", what, other),
            }
        }
        if checks == 0 && !m.pending {
            // Done already, with nothing to report.
            if let Some((replica, add)) = m.change.take() {
                ensure!(
                    m.members.contains(&replica) == add || replica == 0,
                    "an accepted change of {} is neither pending nor in force",
                    replica
                );
            }
        }
        ensure!(app.next().is_none(), "an answer of the application isn't delivered on {}", what);
        let is = |k: bool| (k && active && accepted) as usize;
        ensure!(
            changes == is(matches!(kind, Some(Some(Msg::ChangeCluster(_))))),
            "{} gets {} answers",
            what,
            changes
        );
        ensure!(states == is(matches!(kind, Some(Some(Msg::GetReplicaState(_))))), "{} gets {} answers", what, states);
        ensure!(
            checks >= is(matches!(kind, Some(Some(Msg::CheckCluster(_))))) && checks < 2,
            "{} gets {} answers",
            what,
            checks
        );
        Ok(())
    }

    fn tick(&mut self, n: u64) -> Result<(), String> {
        for _ in 0..n {
            self.now = self.now.saturating_add(self.model.period.clamp(1, 1000));
            self.call(None)?;
        }
        Ok(())
    }
}

fn check(case: &Case) -> Outcome {
    raft::seed_election_timeouts(case.seed as u64);
    oak_stubs::seed(case.seed as u64);
    let log = Rc::new(RefCell::new(Log::default()));
    let mut run = Run {
        driver: Driver::new(
            RaftSimple::new(),
            Box::new(MemoryStorage::new),
            DefaultSnapshotProcessor::new(
                Box::new(DefaultSnapshotSender::new()),
                Box::new(DefaultSnapshotReceiver::new()),
            ),
            Probe { log: log.clone(), context: None },
            communication(1),
            Some(logger()),
        ),
        log,
        now: 1,
        seen: 0,
        model: Model {
            state: State::Created,
            id: 0,
            ephemeral: false,
            lameduck: false,
            leads: false,
            pending: false,
            term: 0,
            members: BTreeSet::new(),
            change: None,
            proposed: Vec::new(),
            applied: 0,
            reported: 0,
            may_lead: false,
            period: 100,
            election: 0,
        },
    };
    let mut info = Info::default();
    let mut led = false;
    for op in &case.ops {
        let msg = match op {
            Op::Start { leader, id, ephemeral, raft, config, endorsements } => {
                let request = StartReplicaRequest {
                    is_leader: *leader,
                    replica_id_hint: identifier(*id),
                    raft_config: raft.as_ref().map(|r| RaftConfig {
                        tick_period: number(r.tick_period),
                        election_tick: small(r.election),
                        heartbeat_tick: small(r.heartbeat),
                        max_size_per_msg: number(r.batch),
                        snapshot_config: r.snapshots.map(|(count, size, pending)| SnapshotConfig {
                            snapshot_count: number(count),
                            chunk_size: number(size),
                            max_pending_chunks: small(pending),
                        }),
                        handshake_retry_tick: number(r.retry),
                    }),
                    app_config: vec![*config; *config as usize % 4].into(),
                    is_ephemeral: *ephemeral,
                    endorsements: endorsements.then(Endorsements::default),
                };
                // Raft refuses these for good: the replica never starts.
                let sound = *ephemeral
                    || request.replica_id_hint == 0
                    || request.raft_config.as_ref().is_none_or(|r| {
                            r.heartbeat_tick > 0 && r.election_tick > r.heartbeat_tick
                        });
                if run.model.state == State::Created && !sound {
                    let mut out = Out(Vec::new());
                    let result = run.driver.receive_message(
                        &mut out,
                        run.now,
                        Some(InMessage { msg: Some(in_message::Msg::StartReplica(request)) }),
                    );
                    ensure!(
                        matches!(result, Err(PalError::Raft)),
                        "a start with an unsound configuration ends in {:?}",
                        result
                    );
                    ensure!(
                        !run.log.borrow().calls.iter().any(|c| !matches!(c, Call::Init { .. })),
                        "a failed start reaches the application"
                    );
                    info.label(true, "unsound configuration");
                    return Ok(info);
                }
                if run.model.state == State::Created && (*ephemeral || request.replica_id_hint != 0) {
                    if let Some(r) = &request.raft_config {
                        run.model.period = r.tick_period;
                        run.model.election = r.election_tick as u64;
                    } else {
                        run.model.election = 20;
                    }
                }
                in_message::Msg::StartReplica(request)
            }
            Op::Stop => in_message::Msg::StopReplica(StopReplicaRequest {}),
            Op::Lameduck => in_message::Msg::EnterLameduckMode(EnterLameduckMode {}),
            Op::Change { id, replica, kind } => in_message::Msg::ChangeCluster(ChangeClusterRequest {
                change_id: *id,
                replica_id: identifier(*replica),
                change_type: *kind as i32,
            }),
            Op::Check => in_message::Msg::CheckCluster(CheckClusterRequest {}),
            Op::State => in_message::Msg::GetReplicaState(GetReplicaStateRequest {}),
            Op::App { correlation, header, payload } => in_message::Msg::DeliverAppMessage(DeliverAppMessage {
                correlation_id: identifier(*correlation),
                message_header: vec![*header; *header as usize % 4].into(),
                message_payload: payload.clone().into(),
            }),
            Op::Forged(f) => {
                info.label(run.model.state == State::Started, "forged message while started");
                f.message()
            }
            Op::Nothing => {
                run.call(None)?;
                continue;
            }
            Op::Unknown => {
                run.call(Some(InMessage { msg: None }))?;
                continue;
            }
            Op::Ticks { n } => {
                run.tick(*n as u64)?;
                continue;
            }
            Op::Time { by } => {
                // Time may go backwards, and far.
                run.now = number(*by);
                continue;
            }
        };
        info.label(run.model.state == State::Created && !matches!(op, Op::Start { .. }), "before the start");
        info.label(run.model.state == State::Stopped, "after the stop");
        run.call(Some(InMessage { msg: Some(msg) }))?;
        led |= run.model.leads;
    }
    let m = &run.model;
    let alone = m.state == State::Started && m.may_lead && m.members.len() == 1 && m.change.is_none();
    if alone && (!m.lameduck || m.leads) && m.period <= 1000 && m.election <= 40 && run.seen < u64::MAX / 2 {
        run.now = run.seen;
        run.tick(2 * run.model.election + 10)?;
        ensure!(run.model.leads, "a replica on its own doesn't come to lead");
        ensure!(
            run.model.proposed.is_empty(),
            "events proposed while leading aren't applied: {:?}",
            run.model.proposed
        );
        led = true;
        info.label(true, "events proposed are applied");
    }
    info.nontrivial = run.model.state != State::Created && case.ops.len() > 4;
    info.label(led, "leads");
    info.label(run.model.ephemeral, "ephemeral");
    info.label(run.model.members.len() > 1, "members added");
    info.label(run.model.applied > 0, "events applied");
    Ok(info)
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "C24",
        "lifecycle",
        "the replica is started or stopped, in a sequence of more than four messages",
        300_000,
        6_000_000,
        case,
        check,
    )]
}
