//! C25: what replicas tell each other leaves encrypted and comes in only if it decrypts.

use crate::common::logger;
use crate::sim::{communication, reference_values};
use anyhow::{anyhow, Result as AnyResult};
use oak_proto_rust::oak::attestation::v1::{Endorsements, ReferenceValues};
use oak_proto_rust::oak::session::v1::*;
use oak_time::{clock::FixedClock, Clock, Instant};
use pbt::proptest::prelude::*;
use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use prost::Message;
use raft::prelude::MessageType;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::Arc;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::*;
use tcp_runtime::encryptor::Encryptor;
use tcp_runtime::handshake::{HandshakeSession, HandshakeSessionProvider, Role};
use tcp_runtime::platform::PalError;

// ---------------------------------------------------------------------------------------------
// Messages, in the clear.

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    System,
    Heartbeat,
    Request,
    Response,
}

fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        3 => Just(Kind::System),
        3 => Just(Kind::Heartbeat),
        2 => Just(Kind::Request),
        1 => Just(Kind::Response),
    ]
}

fn text(id: u64) -> String {
    format!("<message {id:06} in the clear>")
}

fn outgoing(kind: Kind, from: u64, to: u64, id: u64) -> OutgoingMessage {
    let payload = Some(Payload { contents: text(id).into(), ..Default::default() });
    match kind {
        Kind::System | Kind::Heartbeat => OutgoingMessage::DeliverSystemMessage(
            DeliverSystemMessage {
                recipient_replica_id: to,
                sender_replica_id: from,
                payload,
                ..Default::default()
            },
            if kind == Kind::Heartbeat { MessageType::MsgHeartbeat } else { MessageType::MsgAppend },
        ),
        Kind::Request => OutgoingMessage::DeliverSnapshotRequest(DeliverSnapshotRequest {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id: id,
            payload,
            ..Default::default()
        }),
        Kind::Response => OutgoingMessage::DeliverSnapshotResponse(DeliverSnapshotResponse {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id: id,
            payload,
            ..Default::default()
        }),
    }
}

/// Kind, sender, recipient, delivery id and payload of a message with data.
type Parts = (Kind, u64, u64, u64, Payload);

fn parts(msg: &in_message::Msg) -> Option<Parts> {
    Some(match msg {
        in_message::Msg::DeliverSystemMessage(m) => (
            Kind::System,
            m.sender_replica_id,
            m.recipient_replica_id,
            0,
            m.payload.clone().unwrap_or_default(),
        ),
        in_message::Msg::DeliverSnapshotRequest(m) => (
            Kind::Request,
            m.sender_replica_id,
            m.recipient_replica_id,
            m.delivery_id,
            m.payload.clone().unwrap_or_default(),
        ),
        in_message::Msg::DeliverSnapshotResponse(m) => (
            Kind::Response,
            m.sender_replica_id,
            m.recipient_replica_id,
            m.delivery_id,
            m.payload.clone().unwrap_or_default(),
        ),
        _ => return None,
    })
}

fn incoming(kind: Kind, from: u64, to: u64, delivery_id: u64, payload: Option<Payload>) -> in_message::Msg {
    match kind {
        Kind::System | Kind::Heartbeat => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
            recipient_replica_id: to,
            sender_replica_id: from,
            payload,
            ..Default::default()
        }),
        Kind::Request => in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id,
            payload,
            ..Default::default()
        }),
        Kind::Response => in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id,
            payload,
            ..Default::default()
        }),
    }
}

/// A message with data the host made up, in several forms.
#[allow(deprecated)]
fn made_up(kind: Kind, from: u64, to: u64, id: u64, form: u8) -> in_message::Msg {
    let clear: bytes::Bytes = text(id).into();
    let mut msg = incoming(
        kind,
        from,
        to,
        id,
        match form % 8 {
            0 | 4 => None,
            1 | 5 => Some(Payload { contents: clear.clone(), ..Default::default() }),
            2 | 6 => Some(Payload { contents: clear.clone(), nonce: vec![0; 12].into() }),
            _ => Some(Payload::default()),
        },
    );
    if form % 8 > 3 {
        match &mut msg {
            in_message::Msg::DeliverSystemMessage(m) => m.message_contents = clear,
            in_message::Msg::DeliverSnapshotRequest(m) => m.payload_contents = clear,
            in_message::Msg::DeliverSnapshotResponse(m) => m.payload_contents = clear,
            _ => {}
        }
    }
    msg
}

/// The message as the recipient gets it.
pub fn transmit(msg: OutMessage) -> Result<in_message::Msg, String> {
    Ok(match msg.msg {
        Some(out_message::Msg::DeliverSystemMessage(m)) => in_message::Msg::DeliverSystemMessage(m),
        Some(out_message::Msg::DeliverSnapshotRequest(m)) => in_message::Msg::DeliverSnapshotRequest(m),
        Some(out_message::Msg::DeliverSnapshotResponse(m)) => in_message::Msg::DeliverSnapshotResponse(m),
        Some(out_message::Msg::SecureChannelHandshake(m)) => in_message::Msg::SecureChannelHandshake(m),
        other => bail!("{:?} is sent to another replica", other),
    })
}

fn in_the_clear(msg: &OutMessage) -> bool {
    let bytes = msg.encode_to_vec();
    bytes.windows(b"<message ".len()).any(|w| w == b"<message ")
}

// ---------------------------------------------------------------------------------------------
// Scripted handshakes: one replica, its peers played by the case.

const SELF: u64 = 5;
const PEERS: [u64; 3] = [3, 7, 9];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    /// Handshake messages needed from the peer.
    rounds: u8,
    /// The processing or taking of which message fails, if any.
    fail_process: Option<u8>,
    fail_take: Option<u8>,
    /// Has nothing to say at this message.
    silent: Option<u8>,
    /// Encryptions that fail.
    fail_encrypt: u8,
}

const SOUND: Plan = Plan { rounds: 2, fail_process: None, fail_take: None, silent: None, fail_encrypt: 0 };

#[derive(Debug)]
struct Known {
    peer: u64,
    role: Role,
    /// Handshake messages the session gave out and how many of them were sent.
    said: Vec<SecureChannelHandshake>,
    sent: usize,
    completed: bool,
    session_alive: bool,
    encryptor_alive: bool,
    failed: bool,
    /// A handshake message came in after completion.
    disturbed: bool,
    sealed: u64,
    /// Encrypted messages that came out.
    seen: BTreeSet<u64>,
    /// Plaintexts that couldn't be encrypted.
    lost: Vec<Vec<u8>>,
}

#[derive(Default)]
struct Book {
    plans: VecDeque<Plan>,
    sessions: Vec<Known>,
    problem: Option<String>,
}

type Shared = Rc<RefCell<Book>>;

struct ScriptedProvider(Shared);

impl HandshakeSessionProvider for ScriptedProvider {
    fn init(&mut self, _: slog::Logger, _: Arc<dyn Clock>, _: ReferenceValues, _: Endorsements) {}

    fn get(&self, self_id: u64, peer: u64, role: Role) -> AnyResult<Box<dyn HandshakeSession>> {
        let mut book = self.0.borrow_mut();
        if self_id != SELF || !PEERS.contains(&peer) {
            book.problem.get_or_insert(format!("a session between {self_id} and {peer} is asked for"));
        }
        let plan = book.plans.pop_front().unwrap_or(SOUND);
        let at = book.sessions.len();
        book.sessions.push(Known {
            peer,
            role,
            said: Vec::new(),
            sent: 0,
            completed: false,
            session_alive: true,
            encryptor_alive: false,
            failed: false,
            disturbed: false,
            sealed: 0,
            seen: BTreeSet::new(),
            lost: Vec::new(),
        });
        Ok(Box::new(Scripted { book: self.0.clone(), at, plan, processed: 0, taken: 0, last: false, handed: false }))
    }
}

struct Scripted {
    book: Shared,
    at: usize,
    plan: Plan,
    processed: u8,
    taken: u8,
    last: bool,
    handed: bool,
}

impl HandshakeSession for Scripted {
    fn process_message(&mut self, _: SecureChannelHandshake) -> AnyResult<()> {
        let mut book = self.book.borrow_mut();
        let known = &mut book.sessions[self.at];
        self.processed += 1;
        if known.failed || self.plan.fail_process == Some(self.processed) {
            known.failed = true;
            return Err(anyhow!("the session fails"));
        }
        Ok(())
    }

    fn take_out_message(&mut self) -> AnyResult<Option<SecureChannelHandshake>> {
        let mut book = self.book.borrow_mut();
        let at = self.at;
        let known = &mut book.sessions[at];
        if known.failed {
            return Ok(None);
        }
        let taken = self.taken;
        self.taken += 1;
        if self.plan.fail_take == Some(taken) {
            known.failed = true;
            return Err(anyhow!("the session fails"));
        }
        if self.processed >= self.plan.rounds && (self.processed > 0 || self.plan.rounds == 0 && taken > 0) {
            known.completed = true;
            // The initiator has the last word.
            if self.last || known.role == Role::Recipient && self.plan.rounds > 1 {
                return Ok(None);
            }
            self.last = true;
        }
        if self.plan.silent == Some(taken) {
            return Ok(None);
        }
        let message = handshake(SELF, known.peer, known.role == Role::Initiator, format!("{at}/{taken}"));
        known.said.push(message.clone());
        Ok(Some(message))
    }

    fn is_completed(&self) -> bool {
        self.book.borrow().sessions[self.at].completed
    }

    fn get_encryptor(mut self: Box<Self>) -> Option<Box<dyn Encryptor>> {
        let mut book = self.book.borrow_mut();
        let known = &mut book.sessions[self.at];
        if !known.completed {
            return None;
        }
        known.encryptor_alive = true;
        drop(book);
        self.handed = true;
        Some(Box::new(ScriptedEncryptor { book: self.book.clone(), at: self.at, fail: self.plan.fail_encrypt }))
    }
}

impl Drop for Scripted {
    fn drop(&mut self) {
        if let Ok(mut book) = self.book.try_borrow_mut() {
            book.sessions[self.at].session_alive = false;
        }
    }
}

struct ScriptedEncryptor {
    book: Shared,
    at: usize,
    fail: u8,
}

impl Encryptor for ScriptedEncryptor {
    fn encrypt(&mut self, plaintext: &[u8]) -> AnyResult<Payload> {
        let mut book = self.book.borrow_mut();
        let known = &mut book.sessions[self.at];
        if self.fail & 1 << (known.sealed % 8) != 0 {
            // Only once each.
            self.fail &= !(1 << (known.sealed % 8));
            known.lost.push(plaintext.to_vec());
            return Err(anyhow!("the encryption fails"));
        }
        known.sealed += 1;
        let mut contents = plaintext.to_vec();
        contents.iter_mut().for_each(|b| *b ^= 0x55);
        Ok(Payload { contents: contents.into(), nonce: format!("{}/{}", self.at, known.sealed).into() })
    }

    fn decrypt(&mut self, payload: &Payload) -> AnyResult<Vec<u8>> {
        let nonce = String::from_utf8(payload.nonce.to_vec())?;
        if nonce.split('/').next() != Some(&format!("from {}", self.at)) {
            return Err(anyhow!("the decryption fails"));
        }
        Ok(payload.contents.iter().map(|b| b ^ 0x55).collect())
    }
}

impl Drop for ScriptedEncryptor {
    fn drop(&mut self) {
        if let Ok(mut book) = self.book.try_borrow_mut() {
            book.sessions[self.at].encryptor_alive = false;
        }
    }
}

pub fn handshake(from: u64, to: u64, initiator: bool, text: String) -> SecureChannelHandshake {
    use secure_channel_handshake::{noise_protocol, Encryption, NoiseProtocol};
    let message = EncryptedMessage { ciphertext: text.into_bytes(), ..Default::default() };
    SecureChannelHandshake {
        recipient_replica_id: to,
        sender_replica_id: from,
        encryption: Some(Encryption::NoiseProtocol(NoiseProtocol {
            message: Some(if initiator {
                noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest {
                    message: Some(noise_protocol::initiator_request::Message::SessionRequest(SessionRequest {
                        request: Some(session_request::Request::EncryptedMessage(message)),
                    })),
                })
            } else {
                noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse {
                    message: Some(noise_protocol::recipient_response::Message::SessionResponse(SessionResponse {
                        response: Some(session_response::Response::EncryptedMessage(message)),
                    })),
                })
            }),
        })),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Send { peer: u8, kind: Kind },
    Handshake { peer: u8, initiator: bool },
    /// The answer the peer would give to the session at work.
    Answer { peer: u8 },
    /// Data of the peer: encrypted for its nth last session.
    Data { peer: u8, kind: Kind, age: u8 },
    /// Data of the peer encrypted for the session of another one.
    Crossed { peer: u8, other: u8 },
    Garbage { peer: u8, kind: Kind, form: u8 },
    Tick,
    Take,
    Change { keep: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Script {
    retry: u8,
    timeout: u8,
    plans: Vec<Plan>,
    steps: Vec<Step>,
}

fn plan() -> impl Strategy<Value = Plan> {
    let rare = || prop_oneof![6 => Just(None), 1 => (0u8..4).prop_map(Some)];
    (0u8..4, rare(), rare(), rare(), prop_oneof![6 => Just(0u8), 1 => any::<u8>()]).prop_map(
        |(rounds, fail_process, fail_take, silent, fail_encrypt)| Plan {
            rounds,
            fail_process,
            fail_take,
            silent,
            fail_encrypt,
        },
    )
}

fn step() -> impl Strategy<Value = Step> {
    let peer = || 0u8..3;
    prop_oneof![
        6 => (peer(), kind()).prop_map(|(peer, kind)| Step::Send { peer, kind }),
        6 => peer().prop_map(|peer| Step::Answer { peer }),
        2 => (peer(), any::<bool>()).prop_map(|(peer, initiator)| Step::Handshake { peer, initiator }),
        5 => (peer(), kind(), prop_oneof![4 => Just(0u8), 1 => 1u8..3])
            .prop_map(|(peer, kind, age)| Step::Data { peer, kind, age }),
        1 => (peer(), peer()).prop_map(|(peer, other)| Step::Crossed { peer, other }),
        1 => (peer(), kind(), 0u8..8).prop_map(|(peer, kind, form)| Step::Garbage { peer, kind, form }),
        3 => Just(Step::Tick),
        6 => Just(Step::Take),
        1 => (0u8..16).prop_map(|keep| Step::Change { keep }),
    ]
}

struct Held {
    id: u64,
    kind: Kind,
    /// The peer left the cluster: the message may be dropped.
    optional: bool,
}

struct Bench {
    module: DefaultCommunicationModule,
    book: Shared,
    next: u64,
    held: BTreeMap<u64, Vec<Held>>,
    /// Takes since which a message could have been sent.
    idle: BTreeMap<u64, u32>,
    delivered: u64,
    sent: u64,
    refused: u64,
    superseded: u64,
}

impl Bench {
    fn latest(&self, peer: u64) -> Option<usize> {
        self.book.borrow().sessions.iter().rposition(|s| s.peer == peer)
    }

    /// Whether the handshake with the peer has completed and nothing happened to it since.
    fn usable(&self, peer: u64) -> bool {
        self.latest(peer).is_some_and(|at| {
            let known = &self.book.borrow().sessions[at];
            known.encryptor_alive && !known.disturbed
        })
    }

    fn problem(&mut self) -> Result<(), String> {
        match self.book.borrow_mut().problem.take() {
            Some(problem) => Err(problem),
            None => Ok(()),
        }
    }

    fn send(&mut self, peer: u64, kind: Kind) -> Result<(), String> {
        let id = self.next;
        self.next += 1;
        let result = self.module.process_out_message(outgoing(kind, SELF, peer, id));
        ensure!(result == Ok(()), "a message for {} is refused with {:?}", peer, result);
        self.held.entry(peer).or_default().push(Held { id, kind, optional: false });
        self.idle.insert(peer, 0);
        self.problem()
    }

    fn receive(&mut self, peer: u64, msg: in_message::Msg) -> Result<Option<in_message::Msg>, String> {
        let usable = self.usable(peer);
        let handshake = matches!(msg, in_message::Msg::SecureChannelHandshake(_));
        if handshake {
            self.idle.insert(peer, 0);
        }
        if usable && handshake {
            let at = self.latest(peer).unwrap();
            self.book.borrow_mut().sessions[at].disturbed = true;
        }
        match self.module.process_in_message(msg) {
            Err(e) => bail!("a message of {} is refused with {:?}", peer, e),
            Ok(msg) => {
                self.problem()?;
                ensure!(!handshake || msg.is_none(), "a handshake message of {} is delivered", peer);
                Ok(msg)
            }
        }
    }

    /// Data which `at` can decrypt.
    fn data(&mut self, peer: u64, kind: Kind, at: usize, valid: bool) -> Result<(), String> {
        let id = self.next;
        self.next += 1;
        let mut contents = text(id).into_bytes();
        contents.iter_mut().for_each(|b| *b ^= 0x55);
        let payload = Payload { contents: contents.into(), nonce: format!("from {at}/{id}").into() };
        let usable = self.usable(peer);
        let sent = incoming(kind, peer, SELF, id, Some(payload));
        let got = self.receive(peer, sent.clone())?;
        let Some(got) = got else {
            ensure!(!(valid && usable), "{:?} from {} isn't delivered though the handshake has completed", kind, peer);
            self.refused += 1;
            return Ok(());
        };
        ensure!(valid, "data that wasn't encrypted for the session with {} is delivered", peer);
        ensure!(usable, "data of {} is delivered though no handshake is completed", peer);
        let (a, b) = (parts(&got), parts(&sent));
        let (Some((k, from, to, delivery, payload)), Some(b)) = (a, b) else {
            bail!("{:?} is delivered", got);
        };
        ensure!((k, from, to, delivery) == (b.0, b.1, b.2, b.3), "{:?} is delivered for {:?}", got, sent);
        ensure!(payload.contents == text(id), "data of {} isn't delivered decrypted", peer);
        self.delivered += 1;
        Ok(())
    }

    fn take(&mut self) -> Result<Vec<(u64, bool)>, String> {
        let usable: Vec<u64> = PEERS.iter().copied().filter(|p| self.usable(*p)).collect();
        let mut said = Vec::new();
        let mut per_peer: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        let messages = self.module.take_out_messages();
        self.problem()?;
        for request in self.module.take_failed_snapshot_requests() {
            let peer = request.recipient_replica_id;
            let held = self.held.entry(peer).or_default();
            let contents = request.payload.unwrap_or_default().contents;
            let Some(at) = held.iter().position(|h| h.kind == Kind::Request && text(h.id) == contents) else {
                bail!("a snapshot request is reported as failed though it isn't pending");
            };
            held.remove(at);
        }
        for message in messages {
            ensure!(!in_the_clear(&message), "{:.300} leaves in the clear", format!("{message:?}"));
            let msg = transmit(message)?;
            if let in_message::Msg::SecureChannelHandshake(m) = &msg {
                let peer = m.recipient_replica_id;
                let Some(at) = self.latest(peer) else { bail!("a handshake message for {} comes out of nowhere", peer) };
                let mut book = self.book.borrow_mut();
                let known = &mut book.sessions[at];
                let found = known.said.iter().skip(known.sent).position(|s| s == m);
                let Some(found) = found else {
                    bail!("a handshake message is sent again or after its session: {:.300}", format!("{m:?}"));
                };
                known.sent += found + 1;
                said.push((peer, known.role == Role::Initiator));
                continue;
            }
            let Some((kind, from, peer, delivery, payload)) = parts(&msg) else { bail!("{:?} is sent", msg) };
            ensure!(from == SELF, "a message is sent in the name of {}", from);
            let nonce = String::from_utf8_lossy(&payload.nonce).to_string();
            let mut nonce = nonce.split('/').map(|n| n.parse::<u64>().ok());
            let (Some(Some(at)), Some(Some(number))) = (nonce.next(), nonce.next()) else {
                bail!("a message for {} isn't encrypted", peer);
            };
            {
                let mut book = self.book.borrow_mut();
                let Some(known) = book.sessions.get_mut(at as usize) else { bail!("no such session") };
                ensure!(known.peer == peer, "a message for {} is encrypted for {}", peer, known.peer);
                ensure!(known.completed, "a message is encrypted by an incomplete session");
                // The peer has given up a session if it sends handshake messages again.
                ensure!(!known.disturbed, "a message for {} is encrypted by a session that is given up", peer);
                ensure!(known.seen.insert(number), "a message for {} is sent twice", peer);
            }
            ensure!(self.latest(peer) == Some(at as usize), "a message for {} is encrypted by an old session", peer);
            let plain: Vec<u8> = payload.contents.iter().map(|b| b ^ 0x55).collect();
            let plain = String::from_utf8_lossy(&plain).to_string();
            let held = self.held.entry(peer).or_default();
            let Some(found) = held.iter().find(|h| text(h.id) == plain) else {
                bail!("{} is sent to {} though it isn't pending", plain, peer);
            };
            let expected = if found.kind == Kind::Heartbeat { Kind::System } else { found.kind };
            ensure!(kind == expected, "{:?} is sent as {:?}", found.kind, kind);
            ensure!(
                !matches!(kind, Kind::Request | Kind::Response) || delivery == found.id,
                "the delivery id changes"
            );
            per_peer.entry(peer).or_default().push(found.id);
        }
        // What couldn't be encrypted is lost.
        let mut lost = BTreeSet::new();
        for known in &mut self.book.borrow_mut().sessions {
            for plain in known.lost.drain(..) {
                lost.insert((known.peer, String::from_utf8_lossy(&plain).to_string()));
            }
        }
        for (peer, held) in &mut self.held {
            let beat = held.iter().filter(|h| h.kind == Kind::Heartbeat && lost.contains(&(*peer, text(h.id))));
            let beat = beat.map(|h| h.id).max().unwrap_or(0);
            held.retain(|h| {
                !lost.contains(&(*peer, text(h.id))) && !(h.kind == Kind::Heartbeat && h.id < beat)
            });
        }
        for (peer, sent) in per_peer {
            self.sent += sent.len() as u64;
            let held = self.held.get_mut(&peer).unwrap();
            let beats: BTreeSet<u64> = held.iter().filter(|h| h.kind == Kind::Heartbeat).map(|h| h.id).collect();
            let ordered = |ids: Vec<u64>| ids.windows(2).all(|w| w[0] < w[1]);
            ensure!(
                ordered(sent.iter().copied().filter(|id| !beats.contains(id)).collect())
                    && ordered(sent.iter().copied().filter(|id| beats.contains(id)).collect()),
                "messages for {} are sent out of order",
                peer
            );
            let furthest = sent.iter().copied().filter(|id| !beats.contains(id)).max().unwrap_or(0);
            if let Some(h) =
                held.iter().find(|h| h.kind != Kind::Heartbeat && !h.optional && h.id < furthest && !sent.contains(&h.id))
            {
                bail!("{} for {} is overtaken", text(h.id), peer);
            }
            // Only the latest heartbeat matters.
            let beat = sent.iter().copied().filter(|id| beats.contains(id)).max();
            if let (Some(beat), Some(latest)) = (beat, beats.last()) {
                ensure!(beat == *latest, "an outdated heartbeat is sent to {}", peer);
            }
            let before = held.len();
            held.retain(|h| !sent.contains(&h.id) && !(beat.is_some() && h.kind == Kind::Heartbeat));
            self.superseded += (before - held.len() - sent.len()) as u64;
        }
        for peer in PEERS {
            let idle = self.idle.entry(peer).or_insert(0);
            *idle = if usable.contains(&peer) { *idle + 1 } else { 0 };
            if *idle >= 2 {
                let held = self.held.entry(peer).or_default();
                if let Some(h) = held.iter().find(|h| !h.optional) {
                    bail!("{} isn't sent though the handshake with {} has completed", text(h.id), peer);
                }
            }
        }
        Ok(said)
    }

    fn answer(&mut self, peer: u64) -> Result<bool, String> {
        let Some(at) = self.latest(peer) else { return Ok(false) };
        let known = &self.book.borrow().sessions[at];
        if !known.session_alive || known.completed {
            return Ok(false);
        }
        let initiator = known.role == Role::Recipient;
        let _ = known;
        Ok(initiator)
    }

    fn give_answer(&mut self, peer: u64) -> Result<(), String> {
        let alive = self.latest(peer).is_some_and(|at| {
            let known = &self.book.borrow().sessions[at];
            known.session_alive && !known.completed
        });
        if alive {
            let initiator = self.answer(peer)?;
            let m = handshake(peer, SELF, initiator, "answer".to_string());
            self.receive(peer, in_message::Msg::SecureChannelHandshake(m))?;
        }
        Ok(())
    }
}

fn check_script(case: &Script) -> Outcome {
    let book: Shared = Rc::default();
    book.borrow_mut().plans = case.plans.iter().cloned().collect();
    let mut module = DefaultCommunicationModule::new(Box::new(ScriptedProvider(book.clone())));
    // Nothing goes in or out before it is started.
    ensure!(
        module.process_out_message(outgoing(Kind::System, SELF, 3, 0)) == Err(PalError::InvalidOperation)
            && module.take_out_messages().is_empty(),
        "messages are processed before the start"
    );
    module.init(
        SELF,
        logger(),
        Arc::new(FixedClock::at_instant(Instant::from_unix_millis(0u64))),
        CommunicationConfig {
            handshake_retry_tick: case.retry as u64,
            handshake_initiated_tick_timeout: case.timeout as u32,
            reference_values: reference_values(),
            endorsements: Endorsements::default(),
        },
    );
    let mut b = Bench {
        module,
        book: book.clone(),
        next: 1,
        held: BTreeMap::new(),
        idle: BTreeMap::new(),
        delivered: 0,
        sent: 0,
        refused: 0,
        superseded: 0,
    };
    for step in &case.steps {
        match step {
            Step::Send { peer, kind } => b.send(PEERS[*peer as usize % 3], *kind)?,
            Step::Handshake { peer, initiator } => {
                let peer = PEERS[*peer as usize % 3];
                let m = handshake(peer, SELF, *initiator, "some".to_string());
                b.receive(peer, in_message::Msg::SecureChannelHandshake(m))?;
            }
            Step::Answer { peer } => b.give_answer(PEERS[*peer as usize % 3])?,
            Step::Data { peer, kind, age } => {
                let peer = PEERS[*peer as usize % 3];
                let sessions: Vec<usize> = book
                    .borrow()
                    .sessions
                    .iter()
                    .enumerate()
                    .rev()
                    .filter(|(_, s)| s.peer == peer)
                    .map(|(at, _)| at)
                    .collect();
                let at = sessions.get(*age as usize).copied();
                b.data(peer, *kind, at.unwrap_or(9999), at.is_some() && *age == 0)?;
            }
            Step::Crossed { peer, other } => {
                let (peer, other) = (PEERS[*peer as usize % 3], PEERS[*other as usize % 3]);
                if peer != other {
                    let at = b.latest(other).unwrap_or(9999);
                    b.data(peer, Kind::System, at, false)?;
                }
            }
            Step::Garbage { peer, kind, form } => {
                let peer = PEERS[*peer as usize % 3];
                let got = b.receive(peer, made_up(*kind, peer, SELF, 0, *form))?;
                ensure!(got.is_none(), "data of {} that isn't encrypted is delivered", peer);
                b.refused += 1;
            }
            Step::Tick => b.module.make_tick(),
            Step::Take => {
                b.take()?;
            }
            Step::Change { keep } => {
                // The replica itself, then its peers.
                let stays = keep & 8 == 0;
                let mut cluster: Vec<u64> = if stays { vec![SELF] } else { vec![] };
                for (at, peer) in PEERS.into_iter().enumerate() {
                    if keep & 1 << at != 0 {
                        cluster.push(peer);
                    }
                }
                b.module.process_cluster_change(&cluster);
                for peer in PEERS {
                    if !stays || !cluster.contains(&peer) {
                        b.held.entry(peer).or_default().iter_mut().for_each(|h| h.optional = true);
                    }
                }
            }
        }
        b.problem()?;
    }
    // From now on handshakes work.
    book.borrow_mut().plans.clear();
    let mut quiet = 0;
    for _ in 0..(case.retry as u32 + case.timeout as u32) * 2 + 12 {
        for peer in PEERS {
            if b.held.get(&peer).is_some_and(|h| h.iter().any(|h| !h.optional)) {
                b.send(peer, Kind::Heartbeat)?;
            }
        }
        for _ in 0..8 {
            b.take()?;
            for peer in PEERS {
                b.give_answer(peer)?;
            }
        }
        if b.held.values().flatten().all(|h| h.optional) {
            quiet += 1;
            break;
        }
        b.module.make_tick();
    }
    if quiet == 0 {
        let h = b.held.values().flatten().find(|h| !h.optional).unwrap();
        bail!("{} is never sent though handshakes work again", text(h.id));
    }
    let sessions = book.borrow().sessions.len();
    let mut info = Info::new(b.sent > 0 && b.delivered > 0);
    info.label(sessions > PEERS.len(), "handshakes repeated")
        .label(b.refused > 0, "data refused")
        .label(b.superseded > 0, "heartbeat superseded")
        .label(case.steps.iter().any(|s| matches!(s, Step::Change { .. })), "cluster change")
        .label(book.borrow().sessions.iter().any(|s| s.failed), "failed handshake");
    Ok(info)
}

fn script() -> impl Strategy<Value = Script> {
    (
        0u8..4,
        0u8..6,
        prop::collection::vec(plan(), 0..8),
        prop::collection::vec(step(), 1..50),
    )
        .prop_map(|(retry, timeout, plans, steps)| Script { retry, timeout, plans, steps })
}

// ---------------------------------------------------------------------------------------------
// Real handshakes and encryption between several replicas.

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Act {
    Send { from: u8, to: u8, kind: Kind },
    /// The replica does what it does in every call: takes out messages.
    Take { at: u8 },
    Tick { at: u8 },
    /// Delivers the nth message in the network.
    Deliver { nth: u8 },
    Drop { nth: u8 },
    Copy { nth: u8 },
    /// Flips a bit, and delivers the result in place of the message or before it.
    Tamper { nth: u8, byte: u16, keep: bool },
    /// Gives it to another replica, or in the name of another one.
    Confuse { nth: u8, from: u8, to: u8 },
    Strip { nth: u8 },
    /// Delivers something said long ago.
    Replay { nth: u8 },
    /// The host makes something up.
    Forge { from: u8, to: u8, kind: Kind, form: u8 },
    Restart { at: u8 },
    /// Deliver everything, in order.
    Calm,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Net {
    replicas: u8,
    seed: u16,
    retry: u8,
    timeout: u8,
    acts: Vec<Act>,
}

struct Hosted {
    modules: Vec<DefaultCommunicationModule>,
    net: VecDeque<in_message::Msg>,
    past: Vec<in_message::Msg>,
    next: u64,
    /// Kind, sender and recipient of what was sent.
    sent: BTreeMap<String, (Kind, u64, u64, u64)>,
    delivered: BTreeMap<String, u64>,
    order: Vec<u64>,
    retry: u64,
    timeout: u32,
}

fn routed(msg: &in_message::Msg) -> (u64, u64) {
    match msg {
        in_message::Msg::SecureChannelHandshake(m) => (m.sender_replica_id, m.recipient_replica_id),
        other => {
            let p = parts(other).unwrap();
            (p.1, p.2)
        }
    }
}

fn reroute(msg: &mut in_message::Msg, from: u64, to: u64) {
    match msg {
        in_message::Msg::SecureChannelHandshake(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        in_message::Msg::DeliverSystemMessage(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        in_message::Msg::DeliverSnapshotRequest(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        in_message::Msg::DeliverSnapshotResponse(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        _ => {}
    }
}

fn payload_of(msg: &mut in_message::Msg) -> Option<&mut Option<Payload>> {
    match msg {
        in_message::Msg::DeliverSystemMessage(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotRequest(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotResponse(m) => Some(&mut m.payload),
        _ => None,
    }
}

impl Hosted {
    fn module(&self, id: u64) -> DefaultCommunicationModule {
        let mut module = communication(id);
        module.init(
            id,
            logger(),
            Arc::new(FixedClock::at_instant(Instant::from_unix_millis(0u64))),
            CommunicationConfig {
                handshake_retry_tick: self.retry,
                handshake_initiated_tick_timeout: self.timeout,
                reference_values: reference_values(),
                endorsements: Endorsements::default(),
            },
        );
        module
    }

    fn send(&mut self, from: u64, to: u64, kind: Kind) -> Result<u64, String> {
        let id = self.next;
        self.next += 1;
        let delivery = if matches!(kind, Kind::Request | Kind::Response) { id } else { 0 };
        let on_the_wire = if kind == Kind::Heartbeat { Kind::System } else { kind };
        self.sent.insert(text(id), (on_the_wire, from, to, delivery));
        let result = self.modules[from as usize - 1].process_out_message(outgoing(kind, from, to, id));
        ensure!(result == Ok(()), "a message is refused with {:?}", result);
        Ok(id)
    }

    fn take(&mut self, at: u64) -> Result<(), String> {
        let mut messages = self.modules[at as usize - 1].take_out_messages();
        for message in &messages {
            ensure!(!in_the_clear(message), "replica {} sends {:.300}", at, format!("{message:?}"));
        }
        // Peers come in no particular order.
        messages.sort_by_key(|m| transmit(m.clone()).map_or(0, |m| routed(&m).1));
        for message in messages {
            let msg = transmit(message)?;
            let (from, to) = routed(&msg);
            ensure!(from == at && to != at, "replica {} sends from {} to {}", at, from, to);
            self.past.push(msg.clone());
            self.net.push_back(msg);
        }
        self.modules[at as usize - 1].take_failed_snapshot_requests();
        Ok(())
    }

    /// Returns whether anything was delivered inward.
    fn give(&mut self, msg: in_message::Msg, genuine: bool) -> Result<bool, String> {
        let (_, to) = routed(&msg);
        if to == 0 || to as usize > self.modules.len() {
            return Ok(false);
        }
        let got = match self.modules[to as usize - 1].process_in_message(msg) {
            Ok(got) => got,
            Err(e) => bail!("a message terminates replica {} with {:?}", to, e),
        };
        let Some(got) = got else { return Ok(false) };
        let Some((kind, from, recipient, delivery, payload)) = parts(&got) else {
            bail!("replica {} is given {:?}", to, got);
        };
        ensure!(genuine, "replica {} accepts {:?} that {} didn't send", to, got, from);
        let plain = String::from_utf8_lossy(&payload.contents).to_string();
        ensure!(
            self.sent.get(&plain) == Some(&(kind, from, recipient, delivery)) && recipient == to,
            "replica {} accepts {:?} that {} didn't send",
            to,
            got,
            from
        );
        *self.delivered.entry(plain.clone()).or_insert(0) += 1;
        ensure!(self.delivered[&plain] == 1, "replica {} accepts {} twice", to, plain);
        self.order.push(plain["<message ".len()..][..6].parse().unwrap());
        Ok(true)
    }

    fn calm(&mut self) -> Result<(), String> {
        for _ in 0..10 {
            for at in 1..=self.modules.len() as u64 {
                self.take(at)?;
            }
            if self.net.is_empty() {
                break;
            }
            while let Some(msg) = self.net.pop_front() {
                self.give(msg, true)?;
            }
        }
        Ok(())
    }
}

fn act() -> impl Strategy<Value = Act> {
    let r = || 0u8..3;
    let nth = || 0u8..12;
    prop_oneof![
        8 => (r(), r(), kind()).prop_map(|(from, to, kind)| Act::Send { from, to, kind }),
        8 => r().prop_map(|at| Act::Take { at }),
        4 => r().prop_map(|at| Act::Tick { at }),
        8 => prop_oneof![Just(0u8), nth()].prop_map(|nth| Act::Deliver { nth }),
        1 => nth().prop_map(|nth| Act::Drop { nth }),
        2 => nth().prop_map(|nth| Act::Copy { nth }),
        2 => (nth(), any::<u16>(), any::<bool>()).prop_map(|(nth, byte, keep)| Act::Tamper { nth, byte, keep }),
        1 => (nth(), r(), r()).prop_map(|(nth, from, to)| Act::Confuse { nth, from, to }),
        1 => nth().prop_map(|nth| Act::Strip { nth }),
        2 => any::<u8>().prop_map(|nth| Act::Replay { nth }),
        1 => (r(), r(), kind(), 0u8..8).prop_map(|(from, to, kind, form)| Act::Forge { from, to, kind, form }),
        1 => r().prop_map(|at| Act::Restart { at }),
        5 => Just(Act::Calm),
    ]
}

fn net() -> impl Strategy<Value = Net> {
    (2u8..4, any::<u16>(), 0u8..4, 1u8..8, prop::collection::vec(act(), 1..60))
        // A replica that waits longer before it tries again than others wait for an answer may
        // miss them for ever.
        .prop_map(|(replicas, seed, retry, timeout, acts)| Net { replicas, seed, retry: retry.min(timeout - 1), timeout, acts })
}

fn check_net(case: &Net) -> Outcome {
    oak_stubs::seed(case.seed as u64);
    let mut h = Hosted {
        modules: Vec::new(),
        net: VecDeque::new(),
        past: Vec::new(),
        next: 1,
        sent: BTreeMap::new(),
        delivered: BTreeMap::new(),
        order: Vec::new(),
        retry: case.retry as u64,
        timeout: case.timeout as u32,
    };
    let n = case.replicas.clamp(2, 3) as u64;
    for id in 1..=n {
        let module = h.module(id);
        h.modules.push(module);
    }
    let id = |r: u8| r as u64 % n + 1;
    let mut info = Info::default();
    let mut attacks = 0;
    for act in &case.acts {
        let at = |nth: u8, h: &Hosted| (!h.net.is_empty()).then(|| nth as usize % h.net.len());
        match act {
            Act::Send { from, to, kind } if id(*from) != id(*to) => {
                h.send(id(*from), id(*to), *kind)?;
            }
            Act::Send { .. } => {}
            Act::Take { at } => h.take(id(*at))?,
            Act::Tick { at } => h.modules[id(*at) as usize - 1].make_tick(),
            Act::Deliver { nth } => {
                if let Some(nth) = at(*nth, &h) {
                    let msg = h.net.remove(nth).unwrap();
                    h.give(msg, true)?;
                }
            }
            Act::Drop { nth } => {
                if let Some(nth) = at(*nth, &h) {
                    h.net.remove(nth);
                }
            }
            Act::Copy { nth } => {
                if let Some(nth) = at(*nth, &h) {
                    let msg = h.net[nth].clone();
                    info.label(h.give(msg, true)?, "a duplicate delivered first");
                }
            }
            Act::Tamper { nth, byte, keep } => {
                if let Some(nth) = at(*nth, &h) {
                    let mut msg = h.net[nth].clone();
                    if !keep {
                        h.net.remove(nth);
                    }
                    if let Some(Some(payload)) = payload_of(&mut msg) {
                        let mut bytes = [payload.nonce.to_vec(), payload.contents.to_vec()].concat();
                        let length = bytes.len();
                        bytes[*byte as usize / 8 % length] ^= 1 << (byte % 8);
                        let contents = bytes.split_off(payload.nonce.len());
                        *payload = Payload { contents: contents.into(), nonce: bytes.into() };
                        h.give(msg, false)?;
                        attacks += 1;
                        info.label(true, "tampered");
                    }
                }
            }
            Act::Confuse { nth, from, to } => {
                if let Some(nth) = at(*nth, &h) {
                    let mut msg = h.net[nth].clone();
                    let (from, to) = (id(*from), id(*to));
                    if routed(&msg) != (from, to) && parts(&msg).is_some() {
                        reroute(&mut msg, from, to);
                        h.give(msg, false)?;
                        attacks += 1;
                        info.label(true, "misrouted");
                    }
                }
            }
            Act::Strip { nth } => {
                if let Some(nth) = at(*nth, &h) {
                    let mut msg = h.net[nth].clone();
                    if let Some(payload) = payload_of(&mut msg) {
                        *payload = None;
                        h.give(msg, false)?;
                        attacks += 1;
                    }
                }
            }
            Act::Replay { nth } => {
                if !h.past.is_empty() {
                    let msg = h.past[*nth as usize % h.past.len()].clone();
                    h.give(msg, true)?;
                    info.label(true, "replayed");
                }
            }
            Act::Forge { from, to, kind, form } if id(*from) != id(*to) => {
                h.give(made_up(*kind, id(*from), id(*to), 1, *form), false)?;
                attacks += 1;
                info.label(true, "forged");
            }
            Act::Forge { .. } => {}
            Act::Restart { at } => {
                let id = id(*at);
                h.modules[id as usize - 1] = h.module(id);
                info.label(true, "restart");
            }
            Act::Calm => h.calm()?,
        }
    }
    let before = h.delivered.len();
    info.label(before > 0, "delivered under attack");
    // The network calms down: handshakes settle as long as there is something to say.
    for _ in 0..3 * (case.retry as u32 + case.timeout as u32) + 12 {
        for at in 1..=n {
            h.modules[at as usize - 1].make_tick();
            for to in (1..=n).filter(|to| *to != at) {
                h.send(at, to, Kind::Heartbeat)?;
            }
        }
        h.calm()?;
    }
    h.order.clear();
    let mut expected: BTreeMap<(u64, u64), Vec<u64>> = BTreeMap::new();
    for kind in [Kind::System, Kind::Request, Kind::System, Kind::Response, Kind::Heartbeat] {
        for from in 1..=n {
            for to in (1..=n).filter(|to| *to != from) {
                let id = h.send(from, to, kind)?;
                expected.entry((from, to)).or_default().push(id);
            }
        }
    }
    h.calm()?;
    for ((from, to), ids) in expected {
        let got: Vec<u64> = h.order.iter().copied().filter(|id| ids.contains(id)).collect();
        ensure!(
            got == ids,
            "of the messages {:?} from {} to {} the replica gets {:?} though the network works",
            ids,
            from,
            to,
            got
        );
    }
    info.nontrivial = before > 0 && attacks > 0;
    Ok(info)
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "C25",
            "scripted",
            "some messages were sent encrypted and some delivered inward",
            250_000,
            6_000_000,
            script,
            check_script,
        ),
        facet(
            "C25",
            "network",
            "messages were delivered before the end, and some were tampered with, forged or misrouted",
            60_000,
            1_500_000,
            net,
            check_net,
        ),
    ]
}
