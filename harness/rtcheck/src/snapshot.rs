//! C22: the transfer of snapshots in chunks.

use crate::common::logger;
use pbt::proptest::prelude::*;
use pbt::{ensure, facet, Facet, Info, Outcome};
use prost::Message;
use raft::eraftpb::{ConfState, Snapshot, SnapshotMetadata};
use raft::SnapshotStatus;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::snapshot::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// Chunk size and window of each sender.
    senders: Vec<(u8, u8)>,
    receivers: u8,
    steps: Vec<Step>,
    /// Cancel everything before the last, undisturbed transfers.
    reset: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Start { sender: u8, receiver: u8, size: u16 },
    Send { sender: u8, count: u8 },
    Request { at: u16, how: How },
    Response { at: u16, how: How },
    /// The host reports a lost message.
    Failure { at: u16 },
    ResetSender { sender: u8 },
    ResetReceiver { receiver: u8 },
    Instant { by: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum How {
    Deliver,
    Duplicate,
    Lose,
    Corrupt(Corruption),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Corruption {
    NoPayload,
    Cut(u8),
    Bytes(Vec<u8>),
    Longer(Vec<u8>),
    Shorter(u8),
    Size(u64),
    Index(u32),
}

fn id(sender: usize) -> u64 {
    [1, 9][sender]
}

fn receiver_id(receiver: usize) -> u64 {
    receiver as u64 + 2
}

struct Transfer {
    receiver: usize,
    snapshot: Snapshot,
}

struct Sender {
    sender: DefaultSnapshotSender,
    window: usize,
    transfers: Vec<Transfer>,
    /// Transfers not ended, by receiver.
    active: BTreeMap<usize, usize>,
    /// What has been sent for the active transfers and isn't answered.
    outstanding: BTreeSet<(usize, u64)>,
    delivered: BTreeSet<usize>,
    last_delivery: u64,
}

struct World {
    senders: Vec<Sender>,
    receivers: Vec<DefaultSnapshotReceiver>,
    requests: Vec<(usize, DeliverSnapshotRequest)>,
    /// Receiver asked and its answer.
    responses: Vec<(usize, DeliverSnapshotResponse)>,
    lost: Vec<(usize, u64, u64)>,
    stamp: u64,
    finished: usize,
    failed: usize,
}

impl World {
    fn snapshot(&mut self, size: u16) -> Snapshot {
        self.stamp += 1;
        let stamp = self.stamp;
        let data: Vec<u8> = (0..size as u64).map(|i| (stamp.wrapping_mul(31) + i * 7) as u8).collect();
        Snapshot {
            data: data.into(),
            metadata: Some(SnapshotMetadata {
                index: stamp,
                term: stamp / 3,
                conf_state: Some(ConfState { voters: vec![1, stamp], ..Default::default() }),
            }),
        }
    }

    fn start(&mut self, sender: usize, receiver: usize, size: u16) {
        let snapshot = self.snapshot(size);
        let s = &mut self.senders[sender];
        s.sender.start(receiver_id(receiver), snapshot.clone());
        s.outstanding.retain(|(r, _)| *r != receiver);
        s.active.insert(receiver, s.transfers.len());
        s.transfers.push(Transfer { receiver, snapshot });
    }

    fn send(&mut self, sender: usize, count: usize) -> Result<usize, String> {
        let s = &mut self.senders[sender];
        for n in 0..count {
            let Some(request) = s.sender.next_request() else { return Ok(n) };
            ensure!(
                request.sender_replica_id == id(sender),
                "a chunk is sent by {} as {}",
                id(sender),
                request.sender_replica_id
            );
            ensure!(
                request.delivery_id > s.last_delivery,
                "delivery id {} after {}",
                request.delivery_id,
                s.last_delivery
            );
            s.last_delivery = request.delivery_id;
            let receiver = request.recipient_replica_id as usize - 2;
            ensure!(s.active.contains_key(&receiver), "a chunk is sent to {receiver} without a transfer");
            s.outstanding.insert((receiver, request.delivery_id));
            ensure!(s.outstanding.len() <= s.window, "{} chunks in flight with a window of {}", s.outstanding.len(), s.window);
            self.requests.push((receiver, request));
        }
        Ok(count)
    }

    /// What must be reported now is reported once.
    fn complete_sender(&mut self, sender: usize) -> Result<(), String> {
        let s = &mut self.senders[sender];
        while let Some((receiver, status)) = s.sender.try_complete() {
            let receiver = receiver as usize - 2;
            let Some(transfer) = s.active.remove(&receiver) else {
                return Err(format!("a transfer to {receiver} that has ended or never began is reported {status:?}"));
            };
            s.outstanding.retain(|(r, _)| *r != receiver);
            match status {
                SnapshotStatus::Finish => {
                    self.finished += 1;
                    ensure!(
                        s.delivered.contains(&transfer),
                        "transfer {transfer} is reported finished but hasn't been received"
                    );
                }
                SnapshotStatus::Failure => self.failed += 1,
            }
        }
        Ok(())
    }

    fn complete_receiver(&mut self, receiver: usize) -> Result<(), String> {
        while let Some(result) = self.receivers[receiver].try_complete() {
            let Ok((sender, snapshot)) = result else { continue };
            let Some(at) = (0..self.senders.len()).find(|s| id(*s) == sender) else {
                return Err(format!("a snapshot comes from {sender}"));
            };
            let s = &mut self.senders[at];
            let Some(transfer) = s.transfers.iter().position(|t| t.receiver == receiver && t.snapshot == snapshot) else {
                return Err(format!("the snapshot {snapshot:?} of {sender} was never sent to {receiver}"));
            };
            s.delivered.insert(transfer);
        }
        Ok(())
    }

    fn deliver_request(&mut self, receiver: usize, request: DeliverSnapshotRequest) -> Result<(), String> {
        let (sender, delivery) = (request.sender_replica_id, request.delivery_id);
        let response = self.receivers[receiver].process_request(request);
        ensure!(
            response.sender_replica_id == receiver_id(receiver)
                && response.recipient_replica_id == sender
                && response.delivery_id == delivery,
            "a chunk of {sender} with delivery id {delivery} is answered by {receiver} with {response:?}"
        );
        self.complete_receiver(receiver)?;
        self.responses.push((receiver, response));
        Ok(())
    }

    fn deliver_response(&mut self, receiver: usize, response: Result<DeliverSnapshotResponse, (usize, u64)>) -> Result<(), String> {
        let (sender, delivery) = match &response {
            Ok(r) => (r.recipient_replica_id, r.delivery_id),
            Err((s, d)) => (id(*s), *d),
        };
        let Some(at) = (0..self.senders.len()).find(|s| id(*s) == sender) else { return Ok(()) };
        let s = &mut self.senders[at];
        s.outstanding.remove(&(receiver, delivery));
        s.sender.process_response(receiver_id(receiver), delivery, response.map_err(|_| SnapshotError::FailedDelivery));
        self.complete_sender(at)
    }
}

/// Whether the damage may leave a well-formed request with other contents, which only the
/// encryption can detect.
fn corrupt(request: &mut DeliverSnapshotRequest, how: &Corruption) {
    use deliver_snapshot_request::snapshot_content::It;
    use deliver_snapshot_request::SnapshotContent;
    let bytes = request.payload.as_ref().map(|p| p.contents.clone()).unwrap_or_default();
    let set = |request: &mut DeliverSnapshotRequest, b: Vec<u8>| {
        request.payload = Some(Payload { contents: b.into(), ..Default::default() })
    };
    match how {
        Corruption::NoPayload => request.payload = None,
        Corruption::Cut(n) => set(request, bytes[..bytes.len() - 1 - *n as usize % bytes.len()].to_vec()),
        Corruption::Bytes(b) => {
            // Arbitrary contents may be anything but a header.
            let header = SnapshotContent::decode(&b[..]).map_or(false, |c| c.it.is_some());
            set(request, if header { vec![255] } else { b.clone() });
        }
        Corruption::Longer(_) | Corruption::Shorter(_) | Corruption::Size(_) | Corruption::Index(_) => {
            let Ok(mut content) = SnapshotContent::decode(bytes) else { return };
            match (&mut content.it, how) {
                (Some(It::Header(h)), Corruption::Size(s)) if !h.chunk_contents.is_empty() && *s != h.snapshot_size => {
                    // A size such that the first chunk doesn't fit or nothing can follow.
                    h.chunk_contents = if s % 2 == 0 { vec![] } else { h.chunk_contents.to_vec() }.into();
                    h.snapshot_size = if s % 2 == 0 { (*s).max(1) } else { *s % h.chunk_contents.len() as u64 };
                }
                (Some(It::Chunk(c)), Corruption::Longer(b)) if !b.is_empty() => {
                    c.chunk_contents = [&c.chunk_contents[..], &b[..]].concat().into();
                }
                (Some(It::Chunk(c)), Corruption::Shorter(n)) if !c.chunk_contents.is_empty() => {
                    let by = 1 + *n as usize % c.chunk_contents.len();
                    c.chunk_contents = c.chunk_contents[by..].to_vec().into();
                }
                (Some(It::Chunk(c)), Corruption::Index(i)) => {
                    // Beyond the end of any snapshot.
                    c.chunk_index = i | 1 << 16;
                }
                _ => content.it = None,
            }
            set(request, content.encode_to_vec());
        }
    }
}

fn corrupt_response(response: &mut DeliverSnapshotResponse, how: &Corruption) {
    use deliver_snapshot_response::SnapshotAck;
    let bytes = response.payload.as_ref().map(|p| p.contents.clone()).unwrap_or_default();
    let Ok(mut ack) = SnapshotAck::decode(bytes.clone()) else { return };
    match how {
        Corruption::NoPayload => {
            response.payload = None;
            return;
        }
        Corruption::Cut(_) | Corruption::Shorter(_) => {
            response.payload = Some(Payload { contents: vec![8].into(), ..Default::default() });
            return;
        }
        Corruption::Bytes(_) => ack = SnapshotAck::default(),
        Corruption::Longer(_) => ack.status = 3,
        Corruption::Size(s) => ack.snapshot_id ^= 1 + (*s as u32 & 255),
        Corruption::Index(i) => ack.chunk_index = ack.chunk_index.wrapping_add(1 + i / 2),
    }
    response.payload = Some(Payload { contents: ack.encode_to_vec().into(), ..Default::default() });
}

fn check(case: &Case) -> Outcome {
    let n = case.receivers as usize % 3 + 1;
    let mut w = World {
        senders: vec![],
        receivers: vec![],
        requests: vec![],
        responses: vec![],
        lost: vec![],
        stamp: 0,
        finished: 0,
        failed: 0,
    };
    for (i, (chunk_size, window)) in case.senders.iter().enumerate() {
        let mut sender = DefaultSnapshotSender::new();
        let config = SnapshotConfig {
            snapshot_count: 10,
            chunk_size: *chunk_size as u64,
            max_pending_chunks: *window as u32,
        };
        sender.init(logger(), id(i), &Some(config));
        w.senders.push(Sender {
            sender,
            // Zero can't be used and means the default.
            window: if *window == 0 { usize::MAX } else { *window as usize },
            transfers: vec![],
            active: BTreeMap::new(),
            outstanding: BTreeSet::new(),
            delivered: BTreeSet::new(),
            last_delivery: 0,
        });
    }
    for i in 0..n {
        let mut receiver = DefaultSnapshotReceiver::new();
        receiver.init(logger(), receiver_id(i));
        w.receivers.push(receiver);
    }
    let (mut reordered, mut lost, mut duplicated, mut corrupted, mut overridden, mut cancelled) = (0, 0, 0, 0, 0, 0);
    let mut chunks = 0;
    for step in &case.steps {
        match step {
            Step::Start { sender, receiver, size } => {
                let (sender, receiver) = (*sender as usize % case.senders.len(), *receiver as usize % n);
                overridden += w.senders[sender].active.contains_key(&receiver) as usize;
                w.start(sender, receiver, *size);
            }
            Step::Send { sender, count } => {
                let sender = *sender as usize % case.senders.len();
                chunks += w.send(sender, *count as usize + 1)?;
            }
            Step::Request { at, how } => {
                if w.requests.is_empty() {
                    continue;
                }
                let at = *at as usize % w.requests.len();
                reordered += (at > 0) as usize;
                let (receiver, mut request) = match how {
                    How::Duplicate => w.requests[at].clone(),
                    _ => w.requests.remove(at),
                };
                match how {
                    How::Deliver => w.deliver_request(receiver, request)?,
                    How::Duplicate => {
                        duplicated += 1;
                        w.deliver_request(receiver, request)?
                    }
                    How::Lose => {
                        lost += 1;
                        let sender = (0..w.senders.len()).find(|s| id(*s) == request.sender_replica_id).unwrap();
                        w.lost.push((sender, receiver as u64, request.delivery_id));
                    }
                    How::Corrupt(c) => {
                        corrupted += 1;
                        corrupt(&mut request, c);
                        w.deliver_request(receiver, request)?
                    }
                }
            }
            Step::Response { at, how } => {
                if w.responses.is_empty() {
                    continue;
                }
                let at = *at as usize % w.responses.len();
                reordered += (at > 0) as usize;
                let (receiver, mut response) = match how {
                    How::Duplicate => w.responses[at].clone(),
                    _ => w.responses.remove(at),
                };
                match how {
                    How::Deliver => w.deliver_response(receiver, Ok(response))?,
                    How::Duplicate => {
                        duplicated += 1;
                        w.deliver_response(receiver, Ok(response))?
                    }
                    How::Lose => {
                        lost += 1;
                        if let Some(sender) = (0..w.senders.len()).find(|s| id(*s) == response.recipient_replica_id) {
                            w.lost.push((sender, receiver as u64, response.delivery_id));
                        }
                    }
                    How::Corrupt(c) => {
                        corrupted += 1;
                        corrupt_response(&mut response, c);
                        w.deliver_response(receiver, Ok(response))?
                    }
                }
            }
            Step::Failure { at } => {
                if w.lost.is_empty() {
                    continue;
                }
                let at = *at as usize % w.lost.len();
                let (sender, receiver, delivery) = w.lost.remove(at);
                w.deliver_response(receiver as usize, Err((sender, delivery)))?;
            }
            Step::ResetSender { sender } => {
                let at = *sender as usize % case.senders.len();
                cancel(&mut w.senders[at])?;
                cancelled += 1;
            }
            Step::ResetReceiver { receiver } => w.receivers[*receiver as usize % n].reset(),
            Step::Instant { by } => {
                for s in &mut w.senders {
                    s.sender.set_instant(*by as u64);
                }
                for r in &mut w.receivers {
                    r.set_instant(*by as u64);
                }
            }
        }
    }
    // Everything that was started ends once the host has reported what is lost.
    for (receiver, request) in std::mem::take(&mut w.requests) {
        let sender = (0..w.senders.len()).find(|s| id(*s) == request.sender_replica_id).unwrap();
        w.deliver_response(receiver, Err((sender, request.delivery_id)))?;
    }
    for (receiver, response) in std::mem::take(&mut w.responses) {
        if let Some(sender) = (0..w.senders.len()).find(|s| id(*s) == response.recipient_replica_id) {
            w.deliver_response(receiver, Err((sender, response.delivery_id)))?;
        }
    }
    for (sender, receiver, delivery) in std::mem::take(&mut w.lost) {
        w.deliver_response(receiver as usize, Err((sender, delivery)))?;
    }
    for s in &w.senders {
        for (receiver, transfer) in &s.active {
            ensure!(
                !s.outstanding.iter().any(|(r, _)| r == receiver),
                "transfer {transfer} waits for an answer that was reported lost"
            );
        }
    }
    if case.reset {
        for at in 0..w.senders.len() {
            cancel(&mut w.senders[at])?;
        }
    }
    // New transfers that nothing disturbs succeed.
    let mut last = Vec::new();
    for receiver in 0..n {
        w.start(0, receiver, [0, 1, 40][receiver % 3]);
        last.push(w.senders[0].transfers.len() - 1);
    }
    for _ in 0..200 {
        w.send(0, 1000)?;
        if w.senders[0].active.is_empty() {
            break;
        }
        for (receiver, request) in std::mem::take(&mut w.requests) {
            w.deliver_request(receiver, request)?;
        }
        for (receiver, response) in std::mem::take(&mut w.responses) {
            w.deliver_response(receiver, Ok(response))?;
        }
    }
    ensure!(w.senders[0].active.is_empty(), "an undisturbed transfer doesn't end");
    for t in last {
        ensure!(w.senders[0].delivered.contains(&t), "an undisturbed transfer isn't received");
    }
    let mut info = Info::default();
    info.nontrivial = chunks > 2 && reordered > 0;
    info.label(lost > 0, "lost")
        .label(duplicated > 0, "duplicated")
        .label(corrupted > 0, "corrupted")
        .label(overridden > 0, "overridden")
        .label(cancelled > 0, "cancelled")
        .label(w.failed > 0, "failed")
        .label(w.finished > n, "finished");
    Ok(info)
}

fn cancel(s: &mut Sender) -> Result<(), String> {
    let reported = s.sender.reset();
    let got: BTreeSet<usize> = reported.iter().map(|(r, _)| *r as usize - 2).collect();
    ensure!(got.len() == reported.len(), "a cancelled transfer is reported twice: {reported:?}");
    ensure!(
        reported.iter().all(|(_, status)| *status == SnapshotStatus::Failure),
        "a cancelled transfer is reported as {reported:?}"
    );
    let active: BTreeSet<usize> = s.active.keys().copied().collect();
    ensure!(got == active, "the transfers to {active:?} are cancelled but {got:?} are reported");
    s.active.clear();
    s.outstanding.clear();
    Ok(())
}

fn case() -> BoxedStrategy<Case> {
    let bytes = |n: usize| proptest::collection::vec(any::<u8>(), 0..n);
    let corruption = prop_oneof![
        1 => Just(Corruption::NoPayload),
        2 => any::<u8>().prop_map(Corruption::Cut),
        1 => bytes(10).prop_map(Corruption::Bytes),
        2 => bytes(4).prop_map(Corruption::Longer),
        2 => any::<u8>().prop_map(Corruption::Shorter),
        2 => any::<u64>().prop_map(Corruption::Size),
        2 => any::<u32>().prop_map(Corruption::Index),
    ];
    let how = prop_oneof![
        16 => Just(How::Deliver),
        2 => Just(How::Duplicate),
        1 => Just(How::Lose),
        1 => corruption.prop_map(How::Corrupt),
    ];
    let at = prop_oneof![3 => Just(0u16), 2 => 0..4u16, 1 => any::<u16>()].boxed();
    let step = prop_oneof![
        3 => (0..2u8, 0..3u8, prop_oneof![4 => 0..20u16, 1 => 0..60u16])
            .prop_map(|(sender, receiver, size)| Step::Start { sender, receiver, size }),
        8 => (0..2u8, 0..4u8).prop_map(|(sender, count)| Step::Send { sender, count }),
        10 => (at.clone(), how.clone()).prop_map(|(at, how)| Step::Request { at, how }),
        10 => (at.clone(), how).prop_map(|(at, how)| Step::Response { at, how }),
        1 => at.prop_map(|at| Step::Failure { at }),
        1 => (0..2u8).prop_map(|sender| Step::ResetSender { sender }),
        1 => (0..3u8).prop_map(|receiver| Step::ResetReceiver { receiver }),
        1 => any::<u8>().prop_map(|by| Step::Instant { by }),
    ];
    let config = (prop_oneof![8 => 1..10u8, 1 => Just(0u8), 1 => any::<u8>()], prop_oneof![8 => 1..5u8, 1 => Just(0u8)]);
    (proptest::collection::vec(config, 1..3), 0..3u8, proptest::collection::vec(step, 1..60), any::<bool>())
        .prop_map(|(senders, receivers, steps, reset)| Case { senders, receivers, steps, reset })
        .boxed()
}

/// The processor that changes between the roles.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RoleCase {
    steps: Vec<RoleStep>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum RoleStep {
    Change { leader: u8, term: u8, replicas: u8 },
    Start { receiver: u8, size: u8 },
    /// Sends what there is and a number of answers comes back.
    Exchange { answers: u8, accept: bool },
    /// A replica sends a snapshot of two chunks.
    Header { from: u8, snapshot: u8 },
    Chunk { from: u8, snapshot: u8 },
}

fn check_roles(case: &RoleCase) -> Outcome {
    use deliver_snapshot_request::snapshot_content::{Chunk, Header, It};
    use deliver_snapshot_request::SnapshotContent;
    use deliver_snapshot_response::SnapshotAck;
    const SELF: u64 = 2;
    let mut p = DefaultSnapshotProcessor::new(
        Box::new(DefaultSnapshotSender::new()),
        Box::new(DefaultSnapshotReceiver::new()),
    );
    let config = SnapshotConfig { snapshot_count: 10, chunk_size: 4, max_pending_chunks: 3 };
    p.init(logger(), SELF, &Some(config));
    let (mut leader, mut term) = (0, 0);
    let mut members = vec![];
    // Transfers as the sender: receiver -> requests not answered.
    let mut active: BTreeMap<u64, Vec<DeliverSnapshotRequest>> = BTreeMap::new();
    // The transfer being received and whether it is complete.
    let mut receiving: Option<(u64, u32)> = None;
    let (mut switched, mut cancelled, mut received, mut cleared) = (0, 0, 0, 0);
    let ids = |m: u8| (0..4u64).filter(|i| m >> i & 1 == 1).map(|i| i + 1).collect::<Vec<_>>();
    for step in &case.steps {
        match step {
            RoleStep::Change { leader: l, term: t, replicas } => {
                let replicas = ids(*replicas);
                let l = [0, 1, SELF, SELF, 3][*l as usize % 5];
                let was = leader == SELF;
                let reset = l != leader || *t as u64 != term || !replicas.contains(&SELF);
                (leader, term) = (l, *t as u64);
                let reported = p.process_cluster_change(leader, term, &replicas);
                // Nobody answers any more for a replica that was removed.
                let expected: BTreeSet<u64> =
                    active.keys().copied().filter(|r| reset || !replicas.contains(r)).collect();
                let got: BTreeSet<u64> = reported.iter().map(|r| r.0).collect();
                ensure!(
                    got == expected && got.len() == reported.len() && reported.iter().all(|r| r.1 == SnapshotStatus::Failure),
                    "a change of the cluster that cancels the transfers to {expected:?} reports {reported:?}"
                );
                members = replicas;
                cancelled += expected.len();
                active.retain(|r, _| !expected.contains(r));
                if reset {
                    cleared += receiving.is_some() as usize;
                    receiving = None;
                }
                switched += (was != (leader == SELF)) as usize;
            }
            RoleStep::Start { receiver, size } => {
                let SnapshotProcessorRole::Sender(s) = p.mut_processor(5) else {
                    ensure!(leader != SELF, "the leader can't send a snapshot");
                    continue;
                };
                ensure!(leader == SELF, "a follower sends snapshots");
                let receiver = [1, 3, 4][*receiver as usize % 3];
                s.start(
                    receiver,
                    Snapshot {
                        data: vec![*size; *size as usize].into(),
                        metadata: Some(SnapshotMetadata { index: 7, ..Default::default() }),
                    },
                );
                if members.contains(&receiver) {
                    active.insert(receiver, vec![]);
                }
            }
            RoleStep::Exchange { answers, accept } => {
                let SnapshotProcessorRole::Sender(s) = p.mut_processor(5) else { continue };
                while let Some(r) = s.next_request() {
                    let Some(sent) = active.get_mut(&r.recipient_replica_id) else {
                        return Err(format!("a chunk is sent to {} without a transfer", r.recipient_replica_id));
                    };
                    sent.push(r);
                }
                for _ in 0..*answers {
                    let Some((receiver, sent)) = active.iter_mut().find(|a| !a.1.is_empty()) else { break };
                    let receiver = *receiver;
                    let request = sent.remove(0);
                    let content = SnapshotContent::decode(request.payload.clone().unwrap().contents).map_err(|e| e.to_string())?;
                    let ack = SnapshotAck {
                        snapshot_id: content.snapshot_id,
                        chunk_index: match content.it {
                            Some(It::Chunk(c)) => c.chunk_index,
                            _ => 0,
                        },
                        status: if *accept {
                            DeliverSnapshotStatus::SnapshotStatusAccepted
                        } else {
                            DeliverSnapshotStatus::SnapshotStatusRejected
                        }
                        .into(),
                    };
                    s.process_response(
                        receiver,
                        request.delivery_id,
                        Ok(DeliverSnapshotResponse {
                            recipient_replica_id: SELF,
                            sender_replica_id: receiver,
                            delivery_id: request.delivery_id,
                            payload: Some(Payload { contents: ack.encode_to_vec().into(), ..Default::default() }),
                            ..Default::default()
                        }),
                    );
                    let mut reported = 0;
                    while let Some((r, status)) = s.try_complete() {
                        ensure!(r == receiver, "a transfer to {r} ends after an answer of {receiver}");
                        ensure!(active.remove(&r).is_some(), "a transfer to {r} is reported twice");
                        ensure!(*accept == (status == SnapshotStatus::Finish), "answers {accept} end with {status:?}");
                        reported += 1;
                    }
                    ensure!(*accept || reported == 1, "a rejected transfer isn't reported");
                }
            }
            RoleStep::Header { from, snapshot } => {
                let (from, snapshot) = ([1, 3, 4][*from as usize % 3], *snapshot as u32 % 3 + 1);
                let header = It::Header(Header {
                    snapshot_size: 5,
                    snapshot_metadata: SnapshotMetadata { index: snapshot as u64, ..Default::default() }.encode_to_vec().into(),
                    chunk_contents: vec![snapshot as u8, 0, 1, from as u8].into(),
                });
                let accepted = receive(&mut p, from, snapshot, header, leader == SELF)?;
                ensure!(accepted == (leader != SELF), "a header is accepted: {accepted}, leader {leader}");
                if accepted {
                    receiving = Some((from, snapshot));
                }
            }
            RoleStep::Chunk { from, snapshot } => {
                let (from, snapshot) = ([1, 3, 4][*from as usize % 3], *snapshot as u32 % 3 + 1);
                let chunk = It::Chunk(Chunk { chunk_index: 1, chunk_contents: vec![snapshot as u8 + 100].into() });
                let accepted = receive(&mut p, from, snapshot, chunk, leader == SELF)?;
                let expected = leader != SELF && receiving == Some((from, snapshot));
                ensure!(accepted == expected, "a chunk of {from} {snapshot} is accepted: {accepted}, receiving {receiving:?}");
                if let SnapshotProcessorRole::Receiver(r) = p.mut_processor(6) {
                    let complete = r.try_complete();
                    match (accepted, complete) {
                        (true, Some(Ok((sender, got)))) => {
                            receiving = None;
                            received += 1;
                            let data = vec![snapshot as u8, 0, 1, from as u8, snapshot as u8 + 100];
                            ensure!(
                                sender == from && got.data == data && got.metadata.as_ref().map(|m| m.index) == Some(snapshot as u64),
                                "snapshot {snapshot} of {from} is received as {got:?} of {sender}"
                            );
                        }
                        (false, None) => {}
                        (a, c) => return Err(format!("chunk accepted {a}, completed {c:?}")),
                    }
                }
            }
        }
        let sender = matches!(p.mut_processor(4), SnapshotProcessorRole::Sender(_));
        ensure!(sender == (leader == SELF), "sending {sender} although the leader is {leader}");
    }
    let mut info = Info::default();
    info.nontrivial = switched > 0 && (cancelled > 0 || cleared > 0);
    info.label(received > 0, "received").label(cancelled > 0, "cancelled").label(cleared > 0, "cleared");
    Ok(info)
}

fn receive(
    p: &mut DefaultSnapshotProcessor,
    from: u64,
    snapshot: u32,
    it: deliver_snapshot_request::snapshot_content::It,
    leader: bool,
) -> Result<bool, String> {
    use deliver_snapshot_request::snapshot_content::It;
    let index = match &it {
        It::Header(_) => 0,
        It::Chunk(c) => c.chunk_index,
    };
    let content = deliver_snapshot_request::SnapshotContent { snapshot_id: snapshot, it: Some(it) };
    let request = DeliverSnapshotRequest {
        recipient_replica_id: 2,
        sender_replica_id: from,
        delivery_id: 77,
        payload: Some(Payload { contents: content.encode_to_vec().into(), ..Default::default() }),
        ..Default::default()
    };
    let response = match p.mut_processor(5) {
        SnapshotProcessorRole::Sender(s) => {
            ensure!(leader, "a follower is in the role of the sender");
            s.process_unexpected_request(request)
        }
        SnapshotProcessorRole::Receiver(r) => {
            ensure!(!leader, "the leader is in the role of the receiver");
            r.process_request(request)
        }
    };
    ensure!(
        response.recipient_replica_id == from && response.sender_replica_id == 2 && response.delivery_id == 77,
        "a chunk of {from} is answered with {response:?}"
    );
    let payload = response.payload.ok_or("an answer without payload")?;
    let ack = deliver_snapshot_response::SnapshotAck::decode(payload.contents).map_err(|e| e.to_string())?;
    ensure!(ack.snapshot_id == snapshot && ack.chunk_index == index, "chunk {index} of {snapshot} is answered with {ack:?}");
    match DeliverSnapshotStatus::try_from(ack.status) {
        Ok(DeliverSnapshotStatus::SnapshotStatusAccepted) => Ok(true),
        Ok(DeliverSnapshotStatus::SnapshotStatusRejected) => Ok(false),
        s => Err(format!("a chunk is answered with the status {s:?}")),
    }
}

fn role_case() -> BoxedStrategy<RoleCase> {
    let step = prop_oneof![
        5 => (0..5u8, 0..3u8, prop_oneof![4 => Just(15u8), 1 => 0..16u8])
            .prop_map(|(leader, term, replicas)| RoleStep::Change { leader, term, replicas }),
        4 => (0..3u8, 0..14u8).prop_map(|(receiver, size)| RoleStep::Start { receiver, size }),
        5 => (0..5u8, proptest::bool::weighted(0.85)).prop_map(|(answers, accept)| RoleStep::Exchange { answers, accept }),
        4 => (0..3u8, 0..3u8).prop_map(|(from, snapshot)| RoleStep::Header { from, snapshot }),
        5 => (0..3u8, 0..3u8).prop_map(|(from, snapshot)| RoleStep::Chunk { from, snapshot }),
    ];
    proptest::collection::vec(step, 1..40).prop_map(|steps| RoleCase { steps }).boxed()
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet("C22", "transfer", "several chunks are sent and messages are reordered", 250_000, 12_000_000, case, check),
        facet("C22", "roles", "the role changes and transfers are cancelled", 250_000, 12_000_000, role_case, check_roles),
    ]
}
