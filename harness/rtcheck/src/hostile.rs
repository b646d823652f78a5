//! C24: a cluster whose host forges, changes, redirects and replays messages and meddles with the
//! life of replicas.

use crate::cluster::{apply, shape, step, Seen, Shape, Step};
use crate::common::pick;
use crate::lifecycle::{forged, identifier, Forged};
use crate::sim::{Packet, Sim};
use pbt::proptest::prelude::*;
use pbt::{ensure, facet, Facet, Info, Outcome};
use serde::{Deserialize, Serialize};
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::platform::PalError;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ops: Vec<Op>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Usual(Step),
    /// A message nobody sent.
    Forge { at: u8, forged: Forged, addressed: bool },
    /// What a replica could say, not encrypted.
    Clear { at: u8, from: u8, what: u8, form: u8 },
    /// A message in the network or of the past, changed.
    Change { at: u16, past: bool, change: Change },
    /// A message in the network or of the past goes to another replica.
    Redirect { at: u16, past: bool, to: u8, readdress: bool },
    /// A message of the past comes again.
    Replay { at: u16 },
    /// A message is passed off as one of another kind.
    Confuse { at: u16, kind: u8 },
    Start { at: u8, id: u8, leader: bool, ephemeral: bool },
    Membership { at: u8, replica: u8, kind: i8 },
    Unknown { at: u8 },
    Failure { at: u8, from: u8, delivery: u8 },
    /// A request to a replica that was stopped.
    Stopped { at: u8, what: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Change {
    Flip { at: u16, bit: u8 },
    Cut { to: u16 },
    Extend { by: u8 },
    NonceFlip { at: u8, bit: u8 },
    NoNonce,
    NoPayload,
    /// The contents move to the field of earlier versions.
    Former { keep: bool },
    Sender { to: u8 },
    Recipient { to: u8 },
    Delivery { to: u8 },
}

fn op() -> impl Strategy<Value = Op> {
    let change = prop_oneof![
        3 => (any::<u16>(), 0u8..8).prop_map(|(at, bit)| Change::Flip { at, bit }),
        1 => any::<u16>().prop_map(|to| Change::Cut { to }),
        1 => (1u8..9).prop_map(|by| Change::Extend { by }),
        1 => (any::<u8>(), 0u8..8).prop_map(|(at, bit)| Change::NonceFlip { at, bit }),
        1 => Just(Change::NoNonce),
        1 => Just(Change::NoPayload),
        1 => any::<bool>().prop_map(|keep| Change::Former { keep }),
        2 => any::<u8>().prop_map(|to| Change::Sender { to }),
        1 => any::<u8>().prop_map(|to| Change::Recipient { to }),
        1 => any::<u8>().prop_map(|to| Change::Delivery { to }),
    ];
    prop_oneof![
        14 => step().prop_map(Op::Usual),
        3 => (any::<u8>(), forged(), any::<bool>()).prop_map(|(at, forged, addressed)| Op::Forge { at, forged, addressed }),
        3 => (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>())
            .prop_map(|(at, from, what, form)| Op::Clear { at, from, what, form }),
        5 => (any::<u16>(), any::<bool>(), change).prop_map(|(at, past, change)| Op::Change { at, past, change }),
        2 => (any::<u16>(), any::<bool>(), any::<u8>(), any::<bool>())
            .prop_map(|(at, past, to, readdress)| Op::Redirect { at, past, to, readdress }),
        2 => any::<u16>().prop_map(|at| Op::Replay { at }),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(at, kind)| Op::Confuse { at, kind }),
        1 => (any::<u8>(), any::<u8>(), any::<bool>(), any::<bool>())
            .prop_map(|(at, id, leader, ephemeral)| Op::Start { at, id, leader, ephemeral }),
        1 => (any::<u8>(), any::<u8>(), -1i8..4).prop_map(|(at, replica, kind)| Op::Membership { at, replica, kind }),
        1 => any::<u8>().prop_map(|at| Op::Unknown { at }),
        1 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(at, from, delivery)| Op::Failure { at, from, delivery }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(at, what)| Op::Stopped { at, what }),
    ]
}

/// Hostile input may be rejected, nothing else.
fn inject(sim: &mut Sim, id: u64, msg: in_message::Msg) -> Result<(), String> {
    let what = format!("{:.300}", format!("{msg:?}"));
    match sim.call(id, Some(msg))? {
        Ok(()) | Err(PalError::InvalidOperation) => Ok(()),
        Err(e) => Err(format!("replica {id} terminates with {e:?} on {what}")),
    }
}

fn payload(msg: &mut in_message::Msg) -> Option<&mut Option<Payload>> {
    match msg {
        in_message::Msg::DeliverSystemMessage(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotRequest(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotResponse(m) => Some(&mut m.payload),
        _ => None,
    }
}

fn address(msg: &mut in_message::Msg, from: Option<u64>, to: Option<u64>) {
    macro_rules! set {
        ($m:ident) => {{
            if let Some(from) = from {
                $m.sender_replica_id = from;
            }
            if let Some(to) = to {
                $m.recipient_replica_id = to;
            }
        }};
    }
    match msg {
        in_message::Msg::DeliverSystemMessage(m) => set!(m),
        in_message::Msg::DeliverSnapshotRequest(m) => set!(m),
        in_message::Msg::DeliverSnapshotResponse(m) => set!(m),
        in_message::Msg::SecureChannelHandshake(m) => set!(m),
        _ => {}
    }
}

#[allow(deprecated)]
fn former(msg: &mut in_message::Msg, contents: bytes::Bytes) {
    match msg {
        in_message::Msg::DeliverSystemMessage(m) => m.message_contents = contents,
        in_message::Msg::DeliverSnapshotRequest(m) => m.payload_contents = contents,
        in_message::Msg::DeliverSnapshotResponse(m) => m.payload_contents = contents,
        _ => {}
    }
}

/// A message that would do harm if it were taken for genuine, in the clear.
fn clear(from: u64, to: u64, what: u8, term: u64, index: u64) -> in_message::Msg {
    use prost::Message;
    use raft::eraftpb as r;
    let payload = |contents: Vec<u8>| Some(Payload { contents: contents.into(), ..Default::default() });
    let system = |m: r::Message| {
        in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
            recipient_replica_id: to,
            sender_replica_id: from,
            payload: payload(m.encode_to_vec()),
            ..Default::default()
        })
    };
    let base = r::Message { from, to, term, ..Default::default() };
    match what % 8 {
        0 => system(r::Message {
            msg_type: r::MessageType::MsgRequestVote.into(),
            log_term: term,
            index: index + 10,
            ..base
        }),
        1 | 2 => system(r::Message {
            msg_type: r::MessageType::MsgAppend.into(),
            log_term: term.saturating_sub(what as u64 / 8 % 3),
            index,
            commit: index + 1,
            entries: vec![r::Entry {
                term,
                index: index + 1,
                data: Entry {
                    entry_id: Some(EntryId { replica_id: from, entry_id: 77 }),
                    entry_contents: b"made up"[..].into(),
                }
                .encode_to_vec()
                .into(),
                ..Default::default()
            }]
            .into(),
            ..base
        }),
        3 => system(r::Message { msg_type: r::MessageType::MsgHeartbeat.into(), commit: index, ..base }),
        4 => system(r::Message { msg_type: r::MessageType::MsgAppendResponse.into(), index: index + 1, ..base }),
        5 => system(r::Message { msg_type: r::MessageType::MsgRequestVoteResponse.into(), ..base }),
        6 => in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id: 1,
            payload: payload(
                deliver_snapshot_request::SnapshotContent {
                    snapshot_id: 1,
                    it: Some(deliver_snapshot_request::snapshot_content::It::Header(
                        deliver_snapshot_request::snapshot_content::Header {
                            snapshot_size: 4,
                            snapshot_metadata: r::SnapshotMetadata {
                                index: index + 100,
                                term,
                                conf_state: Some(r::ConfState { voters: vec![from, to], ..Default::default() }),
                            }
                            .encode_to_vec()
                            .into(),
                            chunk_contents: b"fake"[..].into(),
                        },
                    )),
                }
                .encode_to_vec(),
            ),
            ..Default::default()
        }),
        _ => in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id: what as u64 / 8 + 1,
            payload: payload(
                deliver_snapshot_response::SnapshotAck {
                    snapshot_id: 1,
                    chunk_index: what as u32 / 8 % 4,
                    status: DeliverSnapshotStatus::SnapshotStatusAccepted.into(),
                }
                .encode_to_vec(),
            ),
            ..Default::default()
        }),
    }
}

impl Change {
    fn apply(&self, sim: &Sim, msg: &mut in_message::Msg) {
        let someone = |i: u8| -> u64 {
            let ids: Vec<u64> = sim.nodes.keys().copied().chain([0, u64::MAX]).collect();
            ids[i as usize % ids.len()]
        };
        let edit = |bytes: &bytes::Bytes, f: &dyn Fn(&mut Vec<u8>)| -> bytes::Bytes {
            let mut v = bytes.to_vec();
            f(&mut v);
            v.into()
        };
        match self {
            Change::Flip { at, bit } => match payload(msg) {
                Some(Some(p)) => {
                    p.contents = edit(&p.contents, &|v| {
                        let n = v.len();
                        if n > 0 {
                            v[*at as usize % n] ^= 1 << bit;
                        }
                    })
                }
                Some(None) => {}
                None => {
                    // Of a handshake: some byte of the message.
                    use prost::Message;
                    let mut v = InMessage { msg: Some(msg.clone()) }.encode_to_vec();
                    let n = v.len();
                    v[*at as usize % n] ^= 1 << bit;
                    if let Ok(InMessage { msg: Some(m @ in_message::Msg::SecureChannelHandshake(_)) }) =
                        InMessage::decode(&v[..])
                    {
                        *msg = m;
                    }
                }
            },
            Change::Cut { to } => {
                if let Some(Some(p)) = payload(msg) {
                    p.contents = edit(&p.contents, &|v| v.truncate(*to as usize % (v.len() + 1)));
                }
            }
            Change::Extend { by } => {
                if let Some(Some(p)) = payload(msg) {
                    p.contents = edit(&p.contents, &|v| v.extend(vec![0; *by as usize]));
                }
            }
            Change::NonceFlip { at, bit } => {
                if let Some(Some(p)) = payload(msg) {
                    p.nonce = edit(&p.nonce, &|v| {
                        let n = v.len();
                        if n > 0 {
                            v[*at as usize % n] ^= 1 << bit;
                        }
                    });
                }
            }
            Change::NoNonce => {
                if let Some(Some(p)) = payload(msg) {
                    p.nonce.clear();
                }
            }
            Change::NoPayload => {
                if let Some(p) = payload(msg) {
                    *p = None;
                }
            }
            Change::Former { keep } => {
                if let Some(p) = payload(msg) {
                    let contents = p.as_ref().map(|p| p.contents.clone()).unwrap_or_default();
                    if !keep {
                        *p = None;
                    }
                    former(msg, contents);
                }
            }
            Change::Sender { to } => address(msg, Some(someone(*to)), None),
            Change::Recipient { to } => address(msg, None, Some(someone(*to))),
            Change::Delivery { to } => match msg {
                in_message::Msg::DeliverSnapshotRequest(m) => m.delivery_id = identifier(*to),
                in_message::Msg::DeliverSnapshotResponse(m) => m.delivery_id = identifier(*to),
                _ => {}
            },
        }
    }
}

/// The same contents as a message of another kind.
fn confused(msg: &mut in_message::Msg, kind: u8) {
    let (from, to, payload) = match msg {
        in_message::Msg::DeliverSystemMessage(m) => (m.sender_replica_id, m.recipient_replica_id, m.payload.take()),
        in_message::Msg::DeliverSnapshotRequest(m) => (m.sender_replica_id, m.recipient_replica_id, m.payload.take()),
        in_message::Msg::DeliverSnapshotResponse(m) => (m.sender_replica_id, m.recipient_replica_id, m.payload.take()),
        _ => return,
    };
    *msg = match kind % 3 {
        0 => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
            recipient_replica_id: to,
            sender_replica_id: from,
            payload,
            ..Default::default()
        }),
        1 => in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id: kind as u64,
            payload,
            ..Default::default()
        }),
        _ => in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id: kind as u64,
            payload,
            ..Default::default()
        }),
    };
}

fn take(sim: &Sim, past: &[Packet], at: u16, from_past: bool) -> Option<Packet> {
    if from_past {
        pick(past, at).cloned()
    } else if sim.net.is_empty() {
        None
    } else {
        Some(sim.net[at as usize % sim.net.len()].clone())
    }
}

fn case() -> impl Strategy<Value = Case> {
    (shape(1..=3), prop::collection::vec(op(), 1..60)).prop_map(|(shape, ops)| Case { shape, ops })
}

fn check(case: &Case) -> Outcome {
    let mut sim = case.shape.boot()?;
    sim.watch = true;
    let mut seen = Seen::default();
    let mut info = Info::default();
    let mut hostile = 0;
    for op in &case.ops {
        let live = sim.live();
        let past: Vec<Packet> = sim.past.iter().cloned().collect();
        match op {
            Op::Usual(step) => apply(&mut sim, step, &mut seen)?,
            Op::Forge { at, forged, addressed } => {
                let Some(id) = pick(&live, *at as u16).copied() else { continue };
                let mut msg = forged.message();
                if *addressed {
                    address(&mut msg, pick(&live, *at as u16 / 8).copied(), Some(id));
                }
                inject(&mut sim, id, msg)?;
                hostile += 1;
            }
            Op::Clear { at, from, what, form } => {
                let Some(id) = pick(&live, *at as u16).copied() else { continue };
                let Some(from) = pick(&live, *from as u16).copied() else { continue };
                let term = sim.leaders.keys().next_back().copied().unwrap_or(1) + (form / 8 % 3) as u64;
                let index = sim.nodes[&id].log.borrow().history.last().map_or(1, |a| a.index) + (form / 24 % 3) as u64;
                let mut msg = clear(from, id, *what, term, index);
                if form % 4 > 0 {
                    let plain = payload(&mut msg).and_then(|p| p.clone()).unwrap_or_default().contents;
                    match form % 4 {
                        1 => Change::NoPayload.apply(&sim, &mut msg),
                        2 => {
                            if let Some(Some(p)) = payload(&mut msg) {
                                p.nonce = vec![0; 12].into();
                            }
                        }
                        _ => {
                            if let Some(p) = payload(&mut msg) {
                                *p = Some(Payload::default());
                            }
                        }
                    }
                    former(&mut msg, plain);
                }
                inject(&mut sim, id, msg)?;
                hostile += 1;
                info.label(true, "message in the clear");
            }
            Op::Change { at, past: p, change } => {
                let Some(mut packet) = take(&sim, &past, *at, *p) else { continue };
                change.apply(&sim, &mut packet.msg);
                if sim.running(packet.to) {
                    inject(&mut sim, packet.to, packet.msg)?;
                    hostile += 1;
                    info.label(true, "changed message");
                }
            }
            Op::Redirect { at, past: p, to, readdress } => {
                let Some(mut packet) = take(&sim, &past, *at, *p) else { continue };
                let Some(to) = pick(&live, *to as u16).copied() else { continue };
                if *readdress {
                    address(&mut packet.msg, None, Some(to));
                }
                inject(&mut sim, to, packet.msg)?;
                hostile += 1;
                info.label(true, "redirected message");
            }
            Op::Replay { at } => {
                let Some(packet) = pick(&past, *at).cloned() else { continue };
                if sim.running(packet.to) {
                    inject(&mut sim, packet.to, packet.msg)?;
                    hostile += 1;
                    info.label(true, "replayed message");
                }
            }
            Op::Confuse { at, kind } => {
                let Some(mut packet) = take(&sim, &past, *at, false) else { continue };
                confused(&mut packet.msg, *kind);
                if sim.running(packet.to) {
                    inject(&mut sim, packet.to, packet.msg)?;
                    hostile += 1;
                    info.label(true, "message passed off as another kind");
                }
            }
            Op::Start { at, id, leader, ephemeral } => {
                let Some(at) = pick(&live, *at as u16).copied() else { continue };
                let mut request = sim.start_request(identifier(*id), *leader);
                if let in_message::Msg::StartReplica(r) = &mut request {
                    r.is_ephemeral = *ephemeral;
                }
                let before = sim.nodes[&at].log.borrow().touched();
                let result = sim.call(at, Some(request))?;
                ensure!(
                    matches!(result, Err(PalError::InvalidOperation)),
                    "a second start of replica {} ends in {:?}",
                    at,
                    result
                );
                let after = sim.nodes[&at].log.borrow().touched();
                ensure!(before == after, "a second start reaches the application");
                hostile += 1;
            }
            Op::Membership { at, replica, kind } => {
                let Some(at) = pick(&live, *at as u16).copied() else { continue };
                // The host is free to wreck the cluster; here only with what makes no difference.
                if *kind == 1 || *kind == 2 {
                    if sim.nodes[&at].log.borrow().leader {
                        continue;
                    }
                }
                sim.expect_ok(
                    at,
                    Some(in_message::Msg::ChangeCluster(ChangeClusterRequest {
                        change_id: 5,
                        replica_id: identifier(*replica),
                        change_type: *kind as i32,
                    })),
                )?;
                let answers: Vec<_> = sim
                    .replies
                    .iter()
                    .filter_map(|r| match r {
                        out_message::Msg::ChangeCluster(m) => Some((m.change_id, m.change_status())),
                        _ => None,
                    })
                    .collect();
                if *kind != 1 && *kind != 2 {
                    ensure!(
                        answers == [(5, ChangeClusterStatus::ChangeStatusRejected)],
                        "a change of unknown kind is answered with {:?}",
                        answers
                    );
                } else if answers != [(5, ChangeClusterStatus::ChangeStatusRejected)] {
                    // It came to lead without the application knowing yet.
                    sim.tainted = true;
                }
                hostile += 1;
            }
            Op::Unknown { at } => {
                let Some(at) = pick(&live, *at as u16).copied() else { continue };
                sim.unknown(at)?;
            }
            Op::Failure { at, from, delivery } => {
                let Some(at) = pick(&live, *at as u16).copied() else { continue };
                let Some(from) = pick(&live, *from as u16).copied() else { continue };
                inject(
                    &mut sim,
                    at,
                    in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure {
                        sender_replica_id: from,
                        delivery_id: identifier(*delivery),
                    }),
                )?;
                hostile += 1;
            }
            Op::Stopped { at, what } => {
                let stopped: Vec<u64> = sim.nodes.iter().filter(|(_, n)| n.stopped).map(|(id, _)| *id).collect();
                let Some(id) = pick(&stopped, *at as u16).copied() else { continue };
                let msg = match what % 5 {
                    0 => Some(in_message::Msg::StopReplica(StopReplicaRequest {})),
                    1 => Some(in_message::Msg::CheckCluster(CheckClusterRequest {})),
                    2 => Some(sim.start_request(id, false)),
                    3 => pick(&past, *what as u16).map(|p| p.msg.clone()),
                    _ => None,
                };
                let before = sim.nodes[&id].log.borrow().touched();
                let sent = sim.net.len();
                let result = sim.call(id, msg)?;
                ensure!(
                    matches!(result, Ok(()) | Err(PalError::InvalidOperation)),
                    "a replica that was stopped terminates with {:?}",
                    result
                );
                let after = sim.nodes[&id].log.borrow().touched();
                ensure!(before == after, "a replica that was stopped reaches its application");
                ensure!(
                    sim.replies.is_empty() && sim.net.len() == sent,
                    "a replica that was stopped answers or sends: {:?}",
                    sim.replies
                );
                info.label(true, "input to a stopped replica");
            }
        }
    }
    // Once left alone, the replicas come to the same state.
    let settles = !sim.tainted && sim.majority(&|r| sim.takes_part(r));
    let settled = settles && sim.settle()?;
    if settled {
        sim.check_acknowledged()?;
    }
    info.nontrivial = hostile > 2;
    info.label(settled, "comes to the same state afterwards");
    info.label(sim.leaders.len() > 1, "leader changes");
    Ok(info)
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "C24",
        "hostile",
        "more than two hostile inputs",
        100_000,
        3_000_000,
        case,
        check,
    )]
}
