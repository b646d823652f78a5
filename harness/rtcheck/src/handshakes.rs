//! C26: handshakes complete on both sides or nothing can be said.

use crate::channel::handshake;
use crate::common::logger;
use crate::sim::{evidence, reference_values, AttesterFactory, BinderFactory};
use anyhow::{anyhow, Result as AnyResult};
use oak_proto_rust::oak::attestation::v1::{Endorsements, ReferenceValues};
use oak_proto_rust::oak::session::v1::*;
use oak_time::{clock::FixedClock, Clock, Instant};
use pbt::proptest::prelude::*;
use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use tcp_proto::runtime::endpoint::secure_channel_handshake::{
    noise_protocol, noise_protocol::initiator_request::Message::SessionRequest as Request,
    noise_protocol::recipient_response::Message::SessionResponse as Response, Encryption, NoiseProtocol,
};
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::encryptor::Encryptor;
use tcp_runtime::handshake::*;
use tcp_runtime::session::*;

/// What the session below a handshake was asked and answered.
#[derive(Default, Debug)]
struct Below {
    open: bool,
    puts: Vec<Vec<u8>>,
    given: Vec<Vec<u8>>,
    gets: usize,
    /// It was asked for messages since the last one came in.
    asked: bool,
}

type Watch = Rc<RefCell<Below>>;

/// A session as it is, watched.
struct Watched<S> {
    inner: S,
    below: Watch,
}

impl<S> Watched<S> {
    fn note<I: prost::Message, O: prost::Message>(&mut self)
    where
        S: std::ops::DerefMut,
        S::Target: OakSession<I, O>,
    {
        self.below.borrow_mut().open = self.inner.is_open();
    }
}

impl<I: prost::Message, O: prost::Message> OakSession<I, O> for Watched<Box<dyn OakSession<I, O>>> {
    fn put_incoming_message(&mut self, message: I) -> AnyResult<Option<()>> {
        self.below.borrow_mut().puts.push(message.encode_to_vec());
        self.below.borrow_mut().asked = false;
        let result = self.inner.put_incoming_message(message);
        self.note::<I, O>();
        result
    }
    fn get_outgoing_message(&mut self) -> AnyResult<Option<O>> {
        let result = self.inner.get_outgoing_message();
        self.below.borrow_mut().gets += 1;
        self.below.borrow_mut().asked = true;
        if let Ok(Some(message)) = &result {
            self.below.borrow_mut().given.push(message.encode_to_vec());
        }
        self.note::<I, O>();
        result
    }
    fn is_open(&self) -> bool {
        self.inner.is_open()
    }
    fn write(&mut self, plaintext: &[u8]) -> AnyResult<()> {
        self.inner.write(plaintext)
    }
    fn read(&mut self) -> AnyResult<Option<Vec<u8>>> {
        self.inner.read()
    }
}

/// Hands out watched sessions.
struct Factory {
    inner: DefaultOakSessionFactory,
    below: Watch,
}

impl OakSessionFactory for Factory {
    fn init(&mut self, clock: Arc<dyn Clock>, values: ReferenceValues, endorsements: Endorsements) {
        self.inner.init(clock, values, endorsements)
    }
    fn get_oak_client_session(&self) -> AnyResult<Box<dyn OakClientSession>> {
        Ok(Box::new(Watched { inner: self.inner.get_oak_client_session()?, below: self.below.clone() }))
    }
    fn get_oak_server_session(&self) -> AnyResult<Box<dyn OakServerSession>> {
        Ok(Box::new(Watched { inner: self.inner.get_oak_server_session()?, below: self.below.clone() }))
    }
}

fn provide(provider: &mut DefaultHandshakeSessionProvider, own: u64, peer: u64, role: Role) -> Result<Box<dyn HandshakeSession>, String> {
    provider.init(
        logger(),
        Arc::new(FixedClock::at_instant(Instant::from_unix_millis(0u64))),
        reference_values(),
        Endorsements::default(),
    );
    provider.get(own, peer, role).map_err(|e| format!("no session: {e:?}"))
}

// ---------------------------------------------------------------------------------------------
// What an attacker makes of handshake messages.

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Bad {
    /// Of the direction the recipient itself sends.
    Direction,
    NoEncryption,
    NoMessage,
    NoSession,
}

fn bad() -> impl Strategy<Value = Bad> {
    prop_oneof![Just(Bad::Direction), Just(Bad::NoEncryption), Just(Bad::NoMessage), Just(Bad::NoSession)]
}

/// A message the recipient can't take for part of its handshake.
fn malformed(bad: Bad, from: u64, to: u64, to_client: bool) -> SecureChannelHandshake {
    let mut m = handshake(from, to, to_client, "wrong".to_string());
    match bad {
        Bad::Direction => {}
        Bad::NoEncryption => m.encryption = None,
        Bad::NoMessage => m.encryption = Some(Encryption::NoiseProtocol(NoiseProtocol { message: None })),
        Bad::NoSession => {
            m.encryption = Some(Encryption::NoiseProtocol(NoiseProtocol {
                message: Some(if to_client {
                    noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse { message: None })
                } else {
                    noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: None })
                }),
            }))
        }
    }
    m
}

/// The session message in it: encoded, and whether it is one of the client.
fn inner(m: &SecureChannelHandshake) -> Option<(Vec<u8>, bool)> {
    use prost::Message;
    match &m.encryption {
        Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(message) })) => match message {
            noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: Some(Request(r)) }) => {
                Some((r.encode_to_vec(), true))
            }
            noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse {
                message: Some(Response(r)),
            }) => Some((r.encode_to_vec(), false)),
            _ => None,
        },
        _ => None,
    }
}

fn flip(bytes: &mut Vec<u8>, at: u16) {
    if bytes.is_empty() {
        bytes.push(at as u8);
    } else {
        let length = bytes.len();
        bytes[at as usize / 8 % length] ^= 1 << (at % 8);
    }
}

/// Changes one of the values that the session's security rests on.
fn tamper(m: &mut SecureChannelHandshake, field: u8, at: u16) {
    let Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(message) })) = &mut m.encryption else { return };
    let assertion = |a: &mut std::collections::BTreeMap<String, Assertion>| {
        if let Some(a) = a.values_mut().next() {
            flip(&mut a.content, at)
        }
    };
    let binding = |b: &mut std::collections::BTreeMap<String, SessionBinding>, key: &mut Vec<u8>| match b.values_mut().next() {
        Some(b) if field % 2 == 0 => flip(&mut b.binding, at),
        _ => flip(key, at),
    };
    match message {
        noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: Some(Request(r)) }) => {
            match &mut r.request {
                Some(session_request::Request::AttestRequest(a)) if field % 3 == 0 => flip(&mut a.nonce, at),
                Some(session_request::Request::AttestRequest(a)) if field % 3 == 1 => a.assertions.clear(),
                Some(session_request::Request::AttestRequest(a)) => assertion(&mut a.assertions),
                Some(session_request::Request::HandshakeRequest(h)) => {
                    if h.assertion_bindings.is_empty() {
                        flip(&mut h.ephemeral_public_key, at)
                    } else if field % 3 == 0 {
                        h.assertion_bindings.clear()
                    } else {
                        // The key of the last message isn't looked at.
                        let b = h.assertion_bindings.values_mut().next().unwrap();
                        flip(&mut b.binding, at)
                    }
                }
                _ => r.request = None,
            }
        }
        noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse { message: Some(Response(r)) }) => {
            match &mut r.response {
                Some(session_response::Response::AttestResponse(a)) if field % 3 == 0 => flip(&mut a.nonce, at),
                Some(session_response::Response::AttestResponse(a)) if field % 3 == 1 => a.assertions.clear(),
                Some(session_response::Response::AttestResponse(a)) => assertion(&mut a.assertions),
                Some(session_response::Response::HandshakeResponse(h)) if field % 3 == 2 => h.assertion_bindings.clear(),
                Some(session_response::Response::HandshakeResponse(h)) => {
                    binding(&mut h.assertion_bindings, &mut h.ephemeral_public_key)
                }
                _ => r.response = None,
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------------
// Two replicas with real sessions.

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    /// A side is asked for what it has to say.
    Take { client: bool },
    /// The next message to that side arrives.
    Deliver { client: bool },
    Lose { client: bool },
    /// The last message delivered to it arrives again.
    Again { client: bool },
    /// A message overtakes the one before.
    Swap { client: bool },
    Bad { client: bool, bad: Bad },
    Tamper { client: bool, field: u8, at: u16 },
    /// A message of another handshake of the same replicas.
    Other { client: bool, nth: u8 },
    /// Takes and delivers on both sides.
    Round,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Talk {
    Say { client: bool, size: u8 },
    /// Delivers the nth message under way.
    Hear { client: bool, nth: u8 },
    Repeat { client: bool, nth: u8 },
    Tamper { client: bool, nth: u8, at: u16, nonce: bool },
    /// The nonce is removed.
    Strip { client: bool, nth: u8 },
    Bare { client: bool },
    /// Something the other side of the same session said is sent back.
    Reflect { client: bool, nth: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    seed: u16,
    /// Nobody interferes.
    benign: bool,
    /// What is wrong with the client and the server: application, session binding.
    wrong: [u8; 2],
    steps: Vec<Step>,
    talk: Vec<Talk>,
}

fn step() -> impl Strategy<Value = Step> {
    let client = any::<bool>;
    prop_oneof![
        8 => client().prop_map(|client| Step::Take { client }),
        8 => client().prop_map(|client| Step::Deliver { client }),
        1 => client().prop_map(|client| Step::Lose { client }),
        2 => client().prop_map(|client| Step::Again { client }),
        1 => client().prop_map(|client| Step::Swap { client }),
        1 => (client(), bad()).prop_map(|(client, bad)| Step::Bad { client, bad }),
        1 => (client(), any::<u8>(), any::<u16>()).prop_map(|(client, field, at)| Step::Tamper { client, field, at }),
        1 => (client(), 0u8..3).prop_map(|(client, nth)| Step::Other { client, nth }),
        8 => Just(Step::Round),
    ]
}

fn talk() -> impl Strategy<Value = Talk> {
    let client = any::<bool>;
    let nth = || prop_oneof![3 => Just(0u8), 2 => 0u8..6];
    prop_oneof![
        6 => (client(), any::<u8>()).prop_map(|(client, size)| Talk::Say { client, size }),
        6 => (client(), nth()).prop_map(|(client, nth)| Talk::Hear { client, nth }),
        2 => (client(), 0u8..6).prop_map(|(client, nth)| Talk::Repeat { client, nth }),
        2 => (client(), nth(), any::<u16>(), any::<bool>())
            .prop_map(|(client, nth, at, nonce)| Talk::Tamper { client, nth, at, nonce }),
        1 => (client(), nth()).prop_map(|(client, nth)| Talk::Strip { client, nth }),
        1 => client().prop_map(|client| Talk::Bare { client }),
        1 => (client(), nth()).prop_map(|(client, nth)| Talk::Reflect { client, nth }),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    (
        any::<u16>(),
        prop::bool::weighted(0.4),
        prop_oneof![8 => Just([0u8, 0]), 1 => (1u8..3).prop_map(|w| [w, 0]), 1 => (1u8..3).prop_map(|w| [0, w])],
        prop::collection::vec(step(), 0..24),
        prop::collection::vec(talk(), 0..24),
    )
        .prop_map(|(seed, benign, wrong, steps, talk)| Case { seed, benign, wrong, steps, talk })
}

const CLIENT: u64 = 11;
const SERVER: u64 = 4;

struct Side {
    client: bool,
    session: Box<dyn HandshakeSession>,
    below: Watch,
    /// It reported an error, or had to.
    failed: bool,
    /// Messages for it.
    inbox: Vec<SecureChannelHandshake>,
    last: Option<SecureChannelHandshake>,
    completed: bool,
    takes: u32,
}

impl Side {
    fn new(client: bool, wrong: u8) -> Result<Side, String> {
        let (own, peer) = if client { (CLIENT, SERVER) } else { (SERVER, CLIENT) };
        let below = Watch::default();
        let mut evidence = evidence(own);
        let key = if wrong == 2 { b"another".to_vec() } else { evidence.signing_key.clone() };
        if wrong == 1 {
            evidence.application = b"another".to_vec();
        }
        let factory = Factory {
            inner: DefaultOakSessionFactory::new(Box::new(BinderFactory(key)), Box::new(AttesterFactory(evidence))),
            below: below.clone(),
        };
        let mut provider = DefaultHandshakeSessionProvider::new(Box::new(factory));
        let role = if client { Role::Initiator } else { Role::Recipient };
        let session = provide(&mut provider, own, peer, role)?;
        Ok(Side {
            client,
            session,
            below,
            failed: false,
            inbox: Vec::new(),
            last: None,
            completed: false,
            takes: 0,
        })
    }

    fn name(&self) -> &'static str {
        if self.client { "client" } else { "server" }
    }

    fn check(&mut self) -> Result<(), String> {
        let completed = self.session.is_completed();
        let name = self.name();
        ensure!(!completed || self.below.borrow().open, "the {} is complete though its session isn't open", name);
        ensure!(
            !completed || self.below.borrow().asked,
            "the {} is complete though its session may have something left to say",
            name
        );
        ensure!(!completed || !self.failed, "the {} is complete after it has failed", name);
        ensure!(completed || !self.completed, "the {} isn't complete any more", name);
        self.completed = completed;
        Ok(())
    }

    fn process(&mut self, m: SecureChannelHandshake, refused: bool) -> Result<(), String> {
        let before = self.below.borrow().puts.len();
        let usable = !self.completed && !self.failed;
        let body = inner(&m);
        let result = self.session.process_message(m);
        let name = self.name();
        if !usable {
            ensure!(
                self.below.borrow().puts.len() == before,
                "the {} hands a message on though it is {}",
                name,
                if self.completed { "complete" } else { "failed" }
            );
            ensure!(!self.completed || result.is_ok(), "the complete {} doesn't ignore a message", name);
        } else if result.is_err() {
            self.failed = true;
        } else {
            ensure!(!refused, "the {} takes a message it has to refuse", name);
            ensure!(
                body.is_some_and(|b| self.below.borrow().puts.last() == Some(&b.0)),
                "the {} doesn't hand a message on as it is",
                name
            );
        }
        self.check()
    }

    fn take(&mut self) -> Result<Option<SecureChannelHandshake>, String> {
        let (given, gets) = (self.below.borrow().given.len(), self.below.borrow().gets);
        let usable = !self.completed && !self.failed;
        let result = self.session.take_out_message();
        self.takes += 1;
        let name = self.name();
        let now = self.below.borrow().given.clone();
        let out = match result {
            Err(_) => {
                ensure!(usable, "the {} fails though it is done", name);
                self.failed = true;
                None
            }
            Ok(out) => {
                let said: Vec<&Vec<u8>> = now[given..].iter().collect();
                let body = out.as_ref().map(|m| inner(m).ok_or(format!("the {name} says {m:?}"))).transpose()?;
                ensure!(
                    said.len() == body.iter().len() && body.iter().all(|b| b.0 == *said[0] && b.1 == self.client),
                    "the {} says {:?} for {:?}",
                    name,
                    out,
                    said
                );
                if let Some(m) = &out {
                    let route = (m.sender_replica_id, m.recipient_replica_id);
                    let expected = if self.client { (CLIENT, SERVER) } else { (SERVER, CLIENT) };
                    ensure!(route == expected, "the {} sends a message from {} to {}", name, route.0, route.1);
                }
                let asked = self.below.borrow().gets > gets;
                // The client's first word, and any answer to what came in.
                if usable && (self.client || !self.below.borrow().puts.is_empty()) {
                    ensure!(asked, "the {} doesn't ask its session for messages", name);
                    let first = self.client && self.takes == 1;
                    let open = self.below.borrow().open;
                    ensure!(first || !open || self.session.is_completed(), "the {} doesn't complete though its session is open", name);
                }
                out
            }
        };
        self.check()?;
        Ok(out)
    }
}

fn check(case: &Case) -> Outcome {
    oak_stubs::seed(case.seed as u64);
    let mut sides = [Side::new(true, case.wrong[0])?, Side::new(false, case.wrong[1])?];
    let mut others: Vec<SecureChannelHandshake> = Vec::new();
    let mut info = Info::default();
    let at = |client: bool| if client { 0 } else { 1 };
    let mut touched = false;
    for step in &case.steps {
        let interferes = !matches!(step, Step::Take { .. } | Step::Deliver { .. } | Step::Round);
        if case.benign && interferes {
            continue;
        }
        touched |= interferes;
        match step {
            Step::Take { client } => {
                let m = sides[at(*client)].take()?;
                sides[at(!*client)].inbox.extend(m);
            }
            Step::Deliver { client } => {
                let side = &mut sides[at(*client)];
                // Nothing comes to a client that hasn't said anything.
                if !side.inbox.is_empty() {
                    let m = side.inbox.remove(0);
                    side.last = Some(m.clone());
                    side.process(m, false)?;
                }
            }
            Step::Lose { client } => {
                let side = &mut sides[at(*client)];
                if !side.inbox.is_empty() {
                    side.inbox.remove(0);
                }
            }
            Step::Again { client } => {
                let side = &mut sides[at(*client)];
                if let Some(m) = side.last.clone() {
                    info.label(!side.completed, "repeated message");
                    info.label(side.completed, "message after completion");
                    side.process(m, false)?;
                }
            }
            Step::Swap { client } => {
                let side = &mut sides[at(*client)];
                if side.inbox.len() > 1 {
                    side.inbox.swap(0, 1);
                }
            }
            Step::Bad { client, bad } => {
                let side = &mut sides[at(*client)];
                let (from, to) = if *client { (SERVER, CLIENT) } else { (CLIENT, SERVER) };
                info.label(!side.completed, "wrong message").label(side.completed, "message after completion");
                side.process(malformed(*bad, from, to, *client), true)?;
            }
            Step::Tamper { client, field, at: bit } => {
                let side = &mut sides[at(*client)];
                if !side.inbox.is_empty() {
                    tamper(&mut side.inbox[0], *field, *bit);
                    info.label(true, "tampered message");
                }
            }
            Step::Other { client, nth } => {
                if others.is_empty() {
                    let mut pair = [Side::new(true, 0)?, Side::new(false, 0)?];
                    for _ in 0..4 {
                        for (a, b) in [(0, 1), (1, 0)] {
                            if let Some(m) = pair[a].take()? {
                                others.push(m.clone());
                                pair[b].process(m, false)?;
                            }
                        }
                    }
                }
                let m = others.iter().filter(|m| (m.recipient_replica_id == CLIENT) == *client).nth(*nth as usize).cloned();
                if let Some(m) = m {
                    sides[at(*client)].process(m, false)?;
                    info.label(true, "message of another handshake");
                }
            }
            Step::Round => {
                for (a, b) in [(0, 1), (1, 0)] {
                    let m = sides[a].take()?;
                    sides[b].inbox.extend(m);
                    if !sides[b].inbox.is_empty() {
                        let m = sides[b].inbox.remove(0);
                        sides[b].last = Some(m.clone());
                        sides[b].process(m, false)?;
                    }
                }
            }
        }
    }
    for _ in 0..10 {
        for (a, b) in [(0, 1), (1, 0)] {
            let m = sides[a].take()?;
            sides[b].inbox.extend(m);
            if !sides[b].inbox.is_empty() {
                let m = sides[b].inbox.remove(0);
                sides[b].last = Some(m.clone());
                sides[b].process(m, false)?;
            }
        }
    }
    let sound = case.wrong == [0, 0];
    if !touched {
        for side in &sides {
            // The client has the last word: only the server learns that it isn't bound.
            let expected = sound || side.client && case.wrong == [2, 0];
            ensure!(side.completed == expected, "the {} is{} complete", side.name(), if side.completed { "" } else { "n't" });
        }
    }
    ensure!(sound || !sides[0].completed || !sides[1].completed, "both sides accept each other though one isn't genuine");
    // The side whose peer isn't genuine doesn't trust it.
    ensure!(case.wrong[1] == 0 || !sides[0].completed, "the client accepts a peer that isn't genuine");
    ensure!(case.wrong[0] == 0 || !sides[1].completed, "the server accepts a peer that isn't genuine");
    info.label(sides[0].failed || sides[1].failed, "a side failed");
    info.label(sides[0].completed != sides[1].completed, "complete on one side");
    let completed = [sides[0].completed, sides[1].completed];
    info.nontrivial = completed == [true, true] || touched;
    let mut encryptors = Vec::new();
    for side in sides {
        let name = side.name();
        let completed = side.completed;
        let encryptor = side.session.get_encryptor();
        ensure!(encryptor.is_some() == completed, "the {} yields {} encryptor", name, if completed { "no" } else { "an" });
        encryptors.extend(encryptor);
    }
    if completed == [true, true] {
        converse(&mut encryptors, &case.talk, &mut info)?;
    }
    Ok(info)
}

/// Out of order messages are accepted if they are less than this behind.
const WINDOW: usize = 3;

fn converse(encryptors: &mut [Box<dyn Encryptor>], talk: &[Talk], info: &mut Info) -> Result<(), String> {
    // Everything said by a side, with whether it was heard.
    let mut said: [Vec<(Vec<u8>, Payload, bool)>; 2] = [Vec::new(), Vec::new()];
    let mut furthest: [Option<usize>; 2] = [None, None];
    let side = |client: bool| if client { 0 } else { 1 };
    for t in talk {
        match *t {
            Talk::Say { client, size } => {
                let own = side(client);
                let plain = vec![said[own].len() as u8 ^ size; size as usize];
                let sealed = match encryptors[own].encrypt(&plain) {
                    Ok(sealed) => sealed,
                    Err(e) => bail!("a side can't encrypt: {:?}", e),
                };
                ensure!(size < 8 || sealed.contents.windows(8).all(|w| w != &plain[..8]), "an encrypted message is in the clear");
                said[own].push((plain, sealed, false));
            }
            Talk::Hear { client, nth } => {
                let (own, peer) = (side(client), side(!client));
                let waiting: Vec<usize> = (0..said[peer].len()).filter(|i| !said[peer][*i].2).collect();
                let Some(&i) = waiting.get(nth as usize) else { continue };
                let result = encryptors[own].decrypt(&said[peer][i].1);
                let late = furthest[own].is_some_and(|f| i + WINDOW <= f);
                match result {
                    Ok(plain) => {
                        ensure!(plain == said[peer][i].0, "a message is decrypted to something else");
                        said[peer][i].2 = true;
                        furthest[own] = furthest[own].max(Some(i));
                        info.label(nth > 0, "heard out of order");
                    }
                    Err(e) => {
                        ensure!(late, "a message of the peer can't be decrypted: {:?}", e);
                        // Whatever comes this late is lost.
                        said[peer][i].2 = true;
                    }
                }
            }
            Talk::Repeat { client, nth } => {
                let (own, peer) = (side(client), side(!client));
                let heard: Vec<usize> = (0..said[peer].len()).rev().filter(|i| said[peer][*i].2).collect();
                let Some(&i) = heard.get(nth as usize) else { continue };
                ensure!(encryptors[own].decrypt(&said[peer][i].1).is_err(), "a message is decrypted a second time");
                info.label(true, "repeated data");
            }
            Talk::Tamper { client, nth, at, nonce } => {
                let (own, peer) = (side(client), side(!client));
                let Some((_, sealed, _)) = said[peer].get(nth as usize) else { continue };
                let mut sealed = sealed.clone();
                let field = if nonce { &mut sealed.nonce } else { &mut sealed.contents };
                let mut bytes = field.to_vec();
                flip(&mut bytes, at);
                *field = bytes.into();
                ensure!(encryptors[own].decrypt(&sealed).is_err(), "a message is decrypted though it was changed");
                info.label(true, "tampered data");
            }
            Talk::Strip { client, nth } => {
                let (own, peer) = (side(client), side(!client));
                let Some((_, sealed, _)) = said[peer].get(nth as usize) else { continue };
                let sealed = Payload { contents: sealed.contents.clone(), ..Default::default() };
                ensure!(encryptors[own].decrypt(&sealed).is_err(), "a message is decrypted without its nonce");
            }
            Talk::Bare { client } => {
                let own = side(client);
                for payload in [
                    Payload::default(),
                    Payload { contents: b"something in the clear".to_vec().into(), ..Default::default() },
                    Payload { contents: b"something in the clear".to_vec().into(), nonce: vec![0; 12].into() },
                ] {
                    ensure!(encryptors[own].decrypt(&payload).is_err(), "something not encrypted is decrypted");
                }
            }
            Talk::Reflect { client, nth } => {
                let own = side(client);
                let Some((_, sealed, _)) = said[own].get(nth as usize) else { continue };
                let sealed = sealed.clone();
                ensure!(encryptors[own].decrypt(&sealed).is_err(), "a side decrypts what it said itself");
            }
        }
    }
    // Whatever was tried, the two still understand each other.
    for own in 0..2 {
        let plain = b"the last word".to_vec();
        let sealed = encryptors[own].encrypt(&plain).map_err(|e| format!("a side can't encrypt: {e:?}"))?;
        let heard = encryptors[1 - own].decrypt(&sealed).map_err(|e| format!("the last word can't be decrypted: {e:?}"))?;
        ensure!(heard == plain, "the last word is decrypted to something else");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Scripted sessions: any number of round trips, errors anywhere.

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Answer {
    Message,
    Nothing,
    Fails,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Move {
    Take,
    Process,
    Bad { bad: Bad },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Script {
    client: bool,
    puts: Vec<Answer>,
    gets: Vec<Answer>,
    /// Opens when this many messages came in and went out.
    opens: (u8, u8),
    moves: Vec<Move>,
}

struct Scripted {
    script: Script,
    puts: usize,
    gets: usize,
}

impl Scripted {
    fn put(&mut self) -> AnyResult<Option<()>> {
        self.puts += 1;
        match self.script.puts.get(self.puts - 1).unwrap_or(&Answer::Message) {
            Answer::Message => Ok(Some(())),
            Answer::Nothing => Ok(None),
            Answer::Fails => Err(anyhow!("the message is refused")),
        }
    }
    fn get(&mut self) -> AnyResult<Option<EncryptedMessage>> {
        self.gets += 1;
        match self.script.gets.get(self.gets - 1).unwrap_or(&Answer::Message) {
            Answer::Message => Ok(Some(EncryptedMessage { ciphertext: vec![self.gets as u8], ..Default::default() })),
            Answer::Nothing => Ok(None),
            Answer::Fails => Err(anyhow!("the session is in disorder")),
        }
    }
    fn open(&self) -> bool {
        self.puts >= self.script.opens.0 as usize && self.gets >= self.script.opens.1 as usize
    }
}

impl OakSession<SessionResponse, SessionRequest> for Scripted {
    fn put_incoming_message(&mut self, _: SessionResponse) -> AnyResult<Option<()>> {
        self.put()
    }
    fn get_outgoing_message(&mut self) -> AnyResult<Option<SessionRequest>> {
        let message = self.get()?;
        Ok(message.map(|m| SessionRequest { request: Some(session_request::Request::EncryptedMessage(m)) }))
    }
    fn is_open(&self) -> bool {
        self.open()
    }
    fn write(&mut self, _: &[u8]) -> AnyResult<()> {
        Ok(())
    }
    fn read(&mut self) -> AnyResult<Option<Vec<u8>>> {
        Ok(None)
    }
}

struct Server(Scripted);

impl OakSession<SessionRequest, SessionResponse> for Server {
    fn put_incoming_message(&mut self, _: SessionRequest) -> AnyResult<Option<()>> {
        self.0.put()
    }
    fn get_outgoing_message(&mut self) -> AnyResult<Option<SessionResponse>> {
        let message = self.0.get()?;
        Ok(message.map(|m| SessionResponse { response: Some(session_response::Response::EncryptedMessage(m)) }))
    }
    fn is_open(&self) -> bool {
        self.0.open()
    }
    fn write(&mut self, _: &[u8]) -> AnyResult<()> {
        Ok(())
    }
    fn read(&mut self) -> AnyResult<Option<Vec<u8>>> {
        Ok(None)
    }
}

struct ScriptedFactory {
    script: Script,
    below: Watch,
}

impl ScriptedFactory {
    fn scripted(&self) -> Scripted {
        Scripted { script: self.script.clone(), puts: 0, gets: 0 }
    }
}

impl OakSessionFactory for ScriptedFactory {
    fn init(&mut self, _: Arc<dyn Clock>, _: ReferenceValues, _: Endorsements) {}
    fn get_oak_client_session(&self) -> AnyResult<Box<dyn OakClientSession>> {
        let inner: Box<dyn OakClientSession> = Box::new(self.scripted());
        Ok(Box::new(Watched { inner, below: self.below.clone() }))
    }
    fn get_oak_server_session(&self) -> AnyResult<Box<dyn OakServerSession>> {
        let inner: Box<dyn OakServerSession> = Box::new(Server(self.scripted()));
        Ok(Box::new(Watched { inner, below: self.below.clone() }))
    }
}

fn script() -> impl Strategy<Value = Script> {
    let answers = || {
        prop::collection::vec(
            prop_oneof![10 => Just(Answer::Message), 3 => Just(Answer::Nothing), 1 => Just(Answer::Fails)],
            0..10,
        )
    };
    let moves = prop_oneof![
        6 => Just(Move::Take),
        6 => Just(Move::Process),
        1 => bad().prop_map(|bad| Move::Bad { bad }),
    ];
    (any::<bool>(), answers(), answers(), (0u8..7, 0u8..7), prop::collection::vec(moves, 1..24))
        .prop_map(|(client, puts, gets, opens, moves)| Script { client, puts, gets, opens, moves })
}

fn check_script(case: &Script) -> Outcome {
    let below = Watch::default();
    let factory = ScriptedFactory { script: case.clone(), below: below.clone() };
    let mut provider = DefaultHandshakeSessionProvider::new(Box::new(factory));
    let (own, peer) = if case.client { (CLIENT, SERVER) } else { (SERVER, CLIENT) };
    let role = if case.client { Role::Initiator } else { Role::Recipient };
    let session = provide(&mut provider, own, peer, role)?;
    let mut side = Side {
        client: case.client,
        session,
        below: below.clone(),
        failed: false,
        inbox: Vec::new(),
        last: None,
        completed: false,
        takes: 0,
    };
    let mut info = Info::default();
    let mut rounds = 0;
    for m in &case.moves {
        let (puts, gets) = (below.borrow().puts.len(), below.borrow().gets);
        let usable = !side.failed && !side.completed;
        match m {
            Move::Take => {
                side.take()?;
                let asked = below.borrow().gets - gets;
                ensure!(asked <= 1, "messages are taken out {} at a time", asked);
                let fails = asked == 1 && case.gets.get(gets) == Some(&Answer::Fails);
                ensure!(!usable || side.failed == fails, "the error of the session isn't followed when taking messages");
            }
            Move::Process => {
                // A client speaks first.
                let refused = case.client && side.takes == 0;
                let m = handshake(peer, own, !case.client, "message".to_string());
                side.process(m, refused)?;
                let fails = refused || below.borrow().puts.len() > puts && case.puts.get(puts) == Some(&Answer::Fails);
                ensure!(!usable || side.failed == fails, "the error of the session isn't followed when processing messages");
                rounds += usable as u32;
            }
            Move::Bad { bad } => {
                side.process(malformed(*bad, peer, own, case.client), true)?;
                ensure!(below.borrow().puts.len() == puts, "a wrong message is handed to the session");
                info.label(side.completed, "wrong message after completion").label(usable, "wrong message");
            }
        }
    }
    info.nontrivial = case.moves.len() > 3 && (side.completed || side.failed);
    info.label(side.completed, "complete").label(side.failed, "failed").label(rounds > 3, "many round trips");
    let completed = side.completed;
    ensure!(side.session.get_encryptor().is_some() == completed, "an encryptor is yielded if and only if the side is complete");
    Ok(info)
}

// ---------------------------------------------------------------------------------------------
// Encryptors on sessions that fail.

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Got {
    Sealed,
    Another,
    Nothing,
    Fails,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Use {
    Encrypt { size: u8, write: bool, got: Got },
    Decrypt { size: u8, nonce: u8, put: bool, read: Got },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Uses {
    client: bool,
    uses: Vec<Use>,
}

#[derive(Default)]
struct Open {
    put: bool,
    write: bool,
    got: Option<Got>,
    written: Vec<Vec<u8>>,
    taken: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    count: u8,
}

impl Open {
    fn put(&mut self, m: Option<EncryptedMessage>) -> AnyResult<Option<()>> {
        let m = m.ok_or(anyhow!("not an encrypted message"))?;
        self.taken.push((m.ciphertext, m.nonce));
        if self.put { Ok(Some(())) } else { Err(anyhow!("refused")) }
    }
    fn get(&mut self) -> AnyResult<Option<Option<EncryptedMessage>>> {
        match self.got {
            Some(Got::Sealed) => {
                self.count += 1;
                Ok(Some(Some(EncryptedMessage {
                    ciphertext: vec![self.count; 5],
                    nonce: Some(vec![self.count; 12]),
                    ..Default::default()
                })))
            }
            Some(Got::Another) => Ok(Some(None)),
            Some(Got::Fails) => Err(anyhow!("fails")),
            _ => Ok(None),
        }
    }
    fn write(&mut self, plaintext: &[u8]) -> AnyResult<()> {
        self.written.push(plaintext.to_vec());
        if self.write { Ok(()) } else { Err(anyhow!("refused")) }
    }
    fn read(&mut self) -> AnyResult<Option<Vec<u8>>> {
        match self.got {
            Some(Got::Sealed | Got::Another) => Ok(Some(b"plain".to_vec())),
            Some(Got::Fails) => Err(anyhow!("fails")),
            _ => Ok(None),
        }
    }
}

struct Opened(Rc<RefCell<Open>>);

impl OakSession<SessionResponse, SessionRequest> for Opened {
    fn put_incoming_message(&mut self, m: SessionResponse) -> AnyResult<Option<()>> {
        self.0.borrow_mut().put(match m.response {
            Some(session_response::Response::EncryptedMessage(m)) => Some(m),
            _ => None,
        })
    }
    fn get_outgoing_message(&mut self) -> AnyResult<Option<SessionRequest>> {
        Ok(self.0.borrow_mut().get()?.map(|m| SessionRequest {
            request: Some(match m {
                Some(m) => session_request::Request::EncryptedMessage(m),
                None => session_request::Request::AttestRequest(AttestRequest::default()),
            }),
        }))
    }
    fn is_open(&self) -> bool {
        true
    }
    fn write(&mut self, plaintext: &[u8]) -> AnyResult<()> {
        self.0.borrow_mut().write(plaintext)
    }
    fn read(&mut self) -> AnyResult<Option<Vec<u8>>> {
        self.0.borrow_mut().read()
    }
}

struct OpenedServer(Rc<RefCell<Open>>);

impl OakSession<SessionRequest, SessionResponse> for OpenedServer {
    fn put_incoming_message(&mut self, m: SessionRequest) -> AnyResult<Option<()>> {
        self.0.borrow_mut().put(match m.request {
            Some(session_request::Request::EncryptedMessage(m)) => Some(m),
            _ => None,
        })
    }
    fn get_outgoing_message(&mut self) -> AnyResult<Option<SessionResponse>> {
        Ok(self.0.borrow_mut().get()?.map(|m| SessionResponse {
            response: Some(match m {
                Some(m) => session_response::Response::EncryptedMessage(m),
                None => session_response::Response::AttestResponse(AttestResponse::default()),
            }),
        }))
    }
    fn is_open(&self) -> bool {
        true
    }
    fn write(&mut self, plaintext: &[u8]) -> AnyResult<()> {
        self.0.borrow_mut().write(plaintext)
    }
    fn read(&mut self) -> AnyResult<Option<Vec<u8>>> {
        self.0.borrow_mut().read()
    }
}

fn uses() -> impl Strategy<Value = Uses> {
    let got = || prop_oneof![5 => Just(Got::Sealed), 1 => Just(Got::Another), 1 => Just(Got::Nothing), 1 => Just(Got::Fails)];
    let good = || prop::bool::weighted(0.8);
    let one = prop_oneof![
        (any::<u8>(), good(), got()).prop_map(|(size, write, got)| Use::Encrypt { size, write, got }),
        (any::<u8>(), 0u8..16, good(), got())
            .prop_map(|(size, nonce, put, read)| Use::Decrypt { size, nonce, put, read }),
    ];
    (any::<bool>(), prop::collection::vec(one, 1..8)).prop_map(|(client, uses)| Uses { client, uses })
}

fn check_uses(case: &Uses) -> Outcome {
    use tcp_runtime::encryptor::{DefaultClientEncryptor, DefaultServerEncryptor};
    let open: Rc<RefCell<Open>> = Rc::default();
    let mut encryptor: Box<dyn Encryptor> = if case.client {
        Box::new(DefaultClientEncryptor::new(Box::new(Opened(open.clone()))))
    } else {
        Box::new(DefaultServerEncryptor::new(Box::new(OpenedServer(open.clone()))))
    };
    let (mut worked, mut failed) = (0, 0);
    for (number, u) in case.uses.iter().enumerate() {
        let size = match u {
            Use::Encrypt { size, .. } | Use::Decrypt { size, .. } => *size as usize % 40,
        };
        let text = vec![number as u8; size];
        let result_ok = match u {
            Use::Encrypt { write, got, .. } => {
                (open.borrow_mut().write, open.borrow_mut().got) = (*write, Some(*got));
                let result = encryptor.encrypt(&text);
                let open = open.borrow();
                ensure!(open.written.last() == Some(&text), "the session isn't given what to encrypt");
                let expected = *write && *got == Got::Sealed;
                ensure!(result.is_ok() == expected, "the encryption ends with {:?}", result.map_err(|e| e.to_string()));
                if let Ok(sealed) = result {
                    ensure!(
                        sealed.contents == vec![open.count; 5] && sealed.nonce == vec![open.count; 12],
                        "the message isn't sent as encrypted: {:?}",
                        sealed
                    );
                }
                expected
            }
            Use::Decrypt { nonce, put, read, .. } => {
                (open.borrow_mut().put, open.borrow_mut().got) = (*put, Some(*read));
                let nonce = vec![7; *nonce as usize];
                let payload = Payload { contents: text.clone().into(), nonce: nonce.clone().into() };
                let result = encryptor.decrypt(&payload);
                let open = open.borrow();
                ensure!(
                    open.taken.last() == Some(&(text, Some(nonce))),
                    "the session isn't given what came in: {:?}",
                    open.taken.last()
                );
                let expected = *put && matches!(read, Got::Sealed | Got::Another);
                ensure!(
                    result.as_ref().ok().map(|p| p.as_slice()) == expected.then_some(b"plain".as_slice()),
                    "the decryption ends with {:?}",
                    result.map_err(|e| e.to_string())
                );
                expected
            }
        };
        if result_ok { worked += 1 } else { failed += 1 }
    }
    let mut info = Info::new(worked > 0 && failed > 0);
    info.label(failed > 0, "failing session");
    Ok(info)
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "C26",
            "encryptors",
            "some calls worked and some failed",
            100_000,
            2_000_000,
            uses,
            check_uses,
        ),
        facet(
            "C26",
            "pair",
            "both sides completed, or somebody interfered",
            150_000,
            4_000_000,
            case,
            check,
        ),
        facet(
            "C26",
            "scripted",
            "a side that got more than three calls completed or failed",
            400_000,
            10_000_000,
            script,
            check_script,
        ),
    ]
}
