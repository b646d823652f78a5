//! C27: peers are admitted by mutual attestation against the reference values in force.

use crate::common::logger;
use crate::sim::{Attester, Binder, Out};
use anyhow::{anyhow, Result as AnyResult};
use bytes::Bytes;
use oak_proto_rust::oak::attestation::v1::*;
use oak_proto_rust::oak::session::v1::*;
use oak_time::{Clock, Instant};
use pbt::proptest::prelude::*;
use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use prost::Message as _;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::{CommunicationConfig, CommunicationModule, DefaultCommunicationModule, OutgoingMessage};
use tcp_runtime::consensus::RaftSimple;
use tcp_runtime::driver::Driver;
use tcp_runtime::handshake::*;
use tcp_runtime::model::*;
use tcp_runtime::platform::{Application, PalError};
use tcp_runtime::session::*;
use tcp_runtime::snapshot::{DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender};
use tcp_runtime::storage::MemoryStorage;

#[derive(Default)]
struct Settable(AtomicU64);

impl Clock for Settable {
    fn get_time(&self) -> Instant {
        Instant::from_unix_millis(self.0.load(Ordering::Relaxed))
    }
}

// ---------------------------------------------------------------------------------------------
// Reference values and what they are about.

/// What is expected of a measurement.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Expected {
    Missing,
    Empty,
    Skip,
    Digest(u8),
}

fn digest(d: u8) -> Vec<u8> {
    if d == 0 { Vec::new() } else { vec![d; 3] }
}

impl Expected {
    fn binary(self) -> Option<BinaryReferenceValue> {
        use binary_reference_value::Type;
        Some(BinaryReferenceValue {
            r#type: match self {
                Expected::Missing => return None,
                Expected::Empty => None,
                Expected::Skip => Some(Type::Skip(SkipVerification {})),
                Expected::Digest(d) => Some(Type::Digests(Digests { digest: digest(d) })),
            },
        })
    }
    fn kernel(self) -> Option<KernelBinaryReferenceValue> {
        use kernel_binary_reference_value::Type;
        Some(KernelBinaryReferenceValue {
            r#type: match self {
                Expected::Missing => return None,
                Expected::Empty => None,
                Expected::Skip => Some(Type::Skip(SkipVerification {})),
                Expected::Digest(d) => Some(Type::Digests(KernelDigests { digest: digest(d) })),
            },
        })
    }
    fn admits(self, measured: u8) -> bool {
        match self {
            Expected::Missing | Expected::Empty => false,
            Expected::Skip => true,
            Expected::Digest(d) => d == measured,
        }
    }
}

/// The root layer: the least version of the platform and the firmware of AMD's, and whether
/// machines without protection are all right.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct Root {
    amd: Option<(u8, Expected)>,
    insecure: bool,
    tdx: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Values {
    None,
    Kernel { root: Option<Root>, kernel: Option<Expected>, application: Option<Expected> },
    Containers { root: Option<Root>, kernel: Option<Expected>, system: Option<Expected>, container: Option<Expected> },
}

impl Values {
    fn message(&self) -> ReferenceValues {
        let root = |r: &Option<Root>| {
            r.map(|r| RootLayerReferenceValues {
                amd_sev: r.amd.map(|(tcb, stage0)| AmdSevReferenceValues {
                    min_tcb: digest(tcb),
                    stage0: stage0.binary(),
                    ..Default::default()
                }),
                intel_tdx: r.tdx.then(Default::default),
                insecure: r.insecure.then(Default::default),
            })
        };
        let kernel =
            |k: &Option<Expected>| k.map(|k| KernelLayerReferenceValues { kernel: k.kernel(), ..Default::default() });
        ReferenceValues {
            r#type: match self {
                Values::None => None,
                Values::Kernel { root: r, kernel: k, application } => {
                    Some(reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
                        root_layer: root(r),
                        kernel_layer: kernel(k),
                        application_layer: application
                            .map(|a| ApplicationLayerReferenceValues { binary: a.binary(), ..Default::default() }),
                    }))
                }
                Values::Containers { root: r, kernel: k, system, container } => {
                    Some(reference_values::Type::OakContainers(OakContainersReferenceValues {
                        root_layer: root(r),
                        kernel_layer: kernel(k),
                        system_layer: system.map(|s| SystemLayerReferenceValues { system_image: s.binary() }),
                        container_layer: container
                            .map(|c| ContainerLayerReferenceValues { binary: c.binary(), ..Default::default() }),
                    }))
                }
            },
        }
    }

    /// Whether a machine is of the kind asked for, all layers of which are as asked for.
    fn admit(&self, e: &Measured) -> bool {
        let amd = |r: &Root| r.amd.is_some_and(|(tcb, stage0)| digest(e.tcb) >= digest(tcb) && stage0.admits(e.firmware));
        let layer = |expected: &Option<Expected>, measured: u8| expected.is_some_and(|x| x.admits(measured));
        match self {
            Values::None => false,
            Values::Kernel { root, kernel, application } => {
                root.is_some_and(|r| if e.tee == 1 { amd(&r) } else { r.insecure })
                    && layer(kernel, e.kernel)
                    && layer(application, e.application)
            }
            Values::Containers { root, kernel, system, container } => {
                root.is_some_and(|r| r.insecure || e.tee == 1 && amd(&r))
                    && layer(kernel, e.kernel)
                    && layer(system, e.system)
                    && layer(container, e.container)
            }
        }
    }

    fn binds_by_binding_key(&self) -> bool {
        matches!(self, Values::Containers { .. })
    }
}

/// What a machine is, with small numbers.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Measured {
    tee: u8,
    tcb: u8,
    firmware: u8,
    kernel: u8,
    system: u8,
    container: u8,
    application: u8,
    /// The keys the evidence certifies.
    binding_key: u8,
    signing_key: u8,
}

impl Measured {
    fn evidence(&self) -> Evidence {
        Evidence {
            tee: self.tee as i32,
            tcb: digest(self.tcb),
            firmware: digest(self.firmware),
            kernel: digest(self.kernel),
            system: digest(self.system),
            container: digest(self.container),
            application: digest(self.application),
            binding_key: vec![self.binding_key],
            signing_key: vec![self.signing_key],
        }
    }
}

/// Until when the endorsements are valid, zero for ever, and what they say.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct Endorsed {
    until: u8,
    label: u8,
}

impl Endorsed {
    fn message(&self) -> Endorsements {
        Endorsements {
            valid_until_millis: self.until as u64,
            label: vec![self.label],
            ..Default::default()
        }
    }
    fn valid(&self, now: u8) -> bool {
        self.until == 0 || now <= self.until
    }
}

fn expected() -> impl Strategy<Value = Expected> {
    prop_oneof![
        20 => Just(Expected::Digest(1)),
        4 => Just(Expected::Skip),
        1 => Just(Expected::Digest(2)),
        1 => Just(Expected::Digest(0)),
        1 => Just(Expected::Missing),
        1 => Just(Expected::Empty),
    ]
}

fn measurement() -> impl Strategy<Value = u8> {
    prop_oneof![30 => Just(1u8), 1 => Just(2u8), 1 => Just(0u8)]
}

fn root() -> impl Strategy<Value = Root> {
    (
        prop::option::weighted(0.8, (0u8..3, expected())),
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.1),
    )
        .prop_map(|(amd, insecure, tdx)| Root { amd, insecure, tdx })
}

fn values() -> impl Strategy<Value = Values> {
    let layer = || prop::option::weighted(0.95, expected());
    let root = || prop::option::weighted(0.95, root());
    prop_oneof![
        1 => Just(Values::None),
        10 => (root(), layer(), layer())
            .prop_map(|(root, kernel, application)| Values::Kernel { root, kernel, application }),
        14 => (root(), layer(), layer(), layer())
            .prop_map(|(root, kernel, system, container)| Values::Containers { root, kernel, system, container }),
    ]
}

fn measured() -> impl Strategy<Value = Measured> {
    (
        prop_oneof![6 => Just(1u8), 2 => Just(2u8), 1 => Just(0u8)],
        1u8..4,
        prop::array::uniform5(measurement()),
        1u8..4,
        1u8..4,
    )
        .prop_map(|(tee, tcb, [firmware, kernel, system, container, application], binding_key, signing_key)| {
            Measured { tee, tcb, firmware, kernel, system, container, application, binding_key, signing_key }
        })
}

fn endorsed() -> impl Strategy<Value = Endorsed> {
    (prop_oneof![3 => Just(0u8), 3 => 30u8..60, 1 => 1u8..30], any::<u8>())
        .prop_map(|(until, label)| Endorsed { until, label })
}

// ---------------------------------------------------------------------------------------------
// Facet: sessions.

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Key {
    /// That which the peer goes by.
    Right,
    Binding,
    Signing,
    Other,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Broken {
    AttesterFactory,
    Attester,
    BinderFactory,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Side {
    /// Reference values and endorsements the factory is set up with, one after the other.
    inits: Vec<(Values, Endorsed)>,
    measured: Measured,
    key: Key,
    broken: Option<Broken>,
    /// The time at the setup, when the session is made, and at the handshake.
    times: [u8; 3],
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Tamper {
    NoAssertions,
    /// The assertion comes under another name.
    OtherAssertion,
    /// In place of it comes somebody else's.
    Foreign(Measured, Endorsed),
    NoBindings,
    OtherBinding,
    ForeignBinding,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sessions {
    seed: u16,
    client: Side,
    server: Side,
    /// Done to what the client, or else the server, sends.
    tamper: Option<(bool, Tamper)>,
    /// An earlier session of the same factories.
    earlier: bool,
}

fn side() -> impl Strategy<Value = Side> {
    (
        prop::collection::vec((values(), endorsed()), 0..2),
        (values(), endorsed()),
        measured(),
        prop_oneof![12 => Just(Key::Right), 1 => Just(Key::Binding), 1 => Just(Key::Signing), 1 => Just(Key::Other)],
        prop_oneof![
            40 => Just(None),
            1 => Just(Some(Broken::AttesterFactory)),
            1 => Just(Some(Broken::Attester)),
            1 => Just(Some(Broken::BinderFactory)),
        ],
        prop::array::uniform3(1u8..60),
    )
        .prop_map(|(mut inits, last, measured, key, broken, times)| {
            inits.push(last);
            Side { inits, measured, key, broken, times }
        })
}

fn tamper() -> impl Strategy<Value = Tamper> {
    prop_oneof![
        Just(Tamper::NoAssertions),
        Just(Tamper::OtherAssertion),
        (measured(), endorsed()).prop_map(|(m, e)| Tamper::Foreign(m, e)),
        Just(Tamper::NoBindings),
        Just(Tamper::OtherBinding),
        Just(Tamper::ForeignBinding),
    ]
}

fn sessions() -> impl Strategy<Value = Sessions> {
    let values = || prop::option::weighted(0.6, values());
    (
        any::<u16>(),
        side(),
        side(),
        // Values in common, as replicas of one cluster have, the last ones.
        values(),
        prop::option::weighted(0.2, (any::<bool>(), tamper())),
        any::<bool>(),
    )
        .prop_map(|(seed, mut client, mut server, common, tamper, earlier)| {
            if let Some(v) = common {
                client.inits.last_mut().unwrap().0 = v.clone();
                server.inits.last_mut().unwrap().0 = v;
            }
            Sessions { seed, client, server, tamper, earlier }
        })
}

struct TestAttesters(Evidence, Option<Broken>);
struct NoQuote;
impl oak_stubs::attester::Attester for NoQuote {
    fn quote(&self) -> AnyResult<Evidence> {
        Err(anyhow!("no evidence"))
    }
}
impl OakAttesterFactory for TestAttesters {
    fn get(&self) -> AnyResult<Box<dyn oak_stubs::attester::Attester>> {
        match self.1 {
            Some(Broken::AttesterFactory) => Err(anyhow!("no attester")),
            Some(Broken::Attester) => Ok(Box::new(NoQuote)),
            _ => Ok(Box::new(Attester(self.0.clone()))),
        }
    }
}
struct TestBinders(Vec<u8>, Option<Broken>);
impl OakSessionBinderFactory for TestBinders {
    fn get(&self) -> AnyResult<Box<dyn oak_stubs::session_binding::SessionBinder>> {
        if self.1 == Some(Broken::BinderFactory) {
            return Err(anyhow!("no binder"));
        }
        Ok(Box::new(Binder(self.0.clone())))
    }
}

struct Party {
    factory: DefaultOakSessionFactory,
    clock: Arc<Settable>,
    values: Values,
    endorsed: Endorsed,
    key: u8,
    side: Side,
}

/// The key by which the other side wants sessions to be bound, according to `evidence`.
fn wanted(values: &Values, evidence: &Measured) -> u8 {
    if values.binds_by_binding_key() { evidence.binding_key } else { evidence.signing_key }
}

fn party(side: &Side, other: &Side) -> Party {
    let judge = &other.inits.last().unwrap().0;
    let key = match side.key {
        Key::Right => wanted(judge, &side.measured),
        Key::Binding => side.measured.binding_key,
        Key::Signing => side.measured.signing_key,
        Key::Other => 77,
    };
    let clock = Arc::new(Settable::default());
    let mut factory = DefaultOakSessionFactory::new(
        Box::new(TestBinders(vec![key], side.broken)),
        Box::new(TestAttesters(side.measured.evidence(), side.broken)),
    );
    clock.0.store(side.times[0] as u64, Ordering::Relaxed);
    for (i, (values, endorsements)) in side.inits.iter().enumerate() {
        // The earlier ones with a clock that has stopped.
        let old = Arc::new(Settable::default());
        let clock = if i + 1 == side.inits.len() { clock.clone() } else { old };
        factory.init(clock, values.message(), endorsements.message());
    }
    let (values, endorsed) = side.inits.last().unwrap().clone();
    Party { factory, clock, values, endorsed, key, side: side.clone() }
}

/// The evidence and endorsements a message presents, if any.
fn presented<'a>(mut assertions: impl Iterator<Item = &'a Assertion>) -> Result<(Evidence, Endorsements), String> {
    let (Some(one), None) = (assertions.next(), assertions.next()) else {
        return Err("the peer isn't presented exactly one piece of evidence".to_string());
    };
    oak_stubs::endorsed_evidence(&one.content).map_err(|e| format!("the evidence can't be read: {e:?}"))
}

fn tamper_assertions(tamper: Option<&Tamper>, assertions: &mut std::collections::BTreeMap<String, Assertion>) -> bool {
    match tamper {
        Some(Tamper::NoAssertions) => assertions.clear(),
        Some(Tamper::OtherAssertion) => {
            *assertions = std::mem::take(assertions).into_iter().map(|(k, v)| (k + "x", v)).collect()
        }
        Some(Tamper::Foreign(m, e)) => {
            let mut content = m.evidence().encode_length_delimited_to_vec();
            content.extend(e.message().encode_length_delimited_to_vec());
            for a in assertions.values_mut() {
                a.content = content.clone();
            }
        }
        _ => return false,
    }
    true
}

fn tamper_bindings(tamper: Option<&Tamper>, bindings: &mut std::collections::BTreeMap<String, SessionBinding>) -> bool {
    match tamper {
        Some(Tamper::NoBindings) => bindings.clear(),
        Some(Tamper::OtherBinding) => {
            *bindings = std::mem::take(bindings).into_iter().map(|(k, v)| (k + "x", v)).collect()
        }
        Some(Tamper::ForeignBinding) => {
            for b in bindings.values_mut() {
                b.binding = oak_stubs::session_binding::sign(&[78], b"another session");
            }
        }
        _ => return false,
    }
    true
}

/// Whether `judge` admits what comes from `from`, and whether it takes the session for bound.
fn judged(judge: &Party, from: &Party, tamper: Option<&Tamper>) -> (bool, bool) {
    let (measured, endorsed) = match tamper {
        Some(Tamper::NoAssertions | Tamper::OtherAssertion) => return (false, false),
        Some(Tamper::Foreign(m, e)) => (m, *e),
        _ => (&from.side.measured, from.endorsed),
    };
    let admitted = endorsed.valid(judge.side.times[2]) && judge.values.admit(measured);
    let bound = !matches!(tamper, Some(Tamper::NoBindings | Tamper::OtherBinding | Tamper::ForeignBinding))
        && wanted(&judge.values, measured) == from.key;
    (admitted, bound)
}

/// A handshake; whether each side opened the session.
fn run(client: &Party, server: &Party, tamper: Option<&(bool, Tamper)>, expected: (bool, bool)) -> Result<(bool, bool), String> {
    let of_client = tamper.and_then(|(c, t)| c.then_some(t));
    let of_server = tamper.and_then(|(c, t)| (!c).then_some(t));
    let refused = |b: Option<Broken>| matches!(b, Some(Broken::AttesterFactory | Broken::BinderFactory));
    let c = client.factory.get_oak_client_session();
    let s = server.factory.get_oak_server_session();
    for (got, p) in [(c.is_ok(), client), (s.is_ok(), server)] {
        ensure!(got != refused(p.side.broken), "a session is made or refused against {:?}", p.side.broken);
    }
    let (Ok(mut c), Ok(mut s)) = (c, s) else { return Ok((false, false)) };
    client.clock.0.store(client.side.times[2] as u64, Ordering::Relaxed);
    server.clock.0.store(server.side.times[2] as u64, Ordering::Relaxed);
    let mut steps = 0;
    loop {
        steps += 1;
        ensure!(steps < 10, "the handshake doesn't end");
        let mut progress = false;
        // What the client has to say.
        while let Ok(Some(mut m)) = c.get_outgoing_message() {
            progress = true;
            match m.request.as_mut() {
                Some(session_request::Request::AttestRequest(r)) => {
                    let (evidence, endorsements) = presented(r.assertions.values())?;
                    ensure!(
                        evidence == client.side.measured.evidence() && endorsements == client.endorsed.message(),
                        "the client presents {:?} and {:?} instead of its own",
                        evidence,
                        endorsements
                    );
                    tamper_assertions(of_client, &mut r.assertions);
                }
                Some(session_request::Request::HandshakeRequest(r)) => {
                    tamper_bindings(of_client, &mut r.assertion_bindings);
                }
                _ => bail!("the client sends {:?} in a handshake", m),
            }
            let _ = s.put_incoming_message(m);
        }
        while let Ok(Some(mut m)) = s.get_outgoing_message() {
            progress = true;
            match m.response.as_mut() {
                Some(session_response::Response::AttestResponse(r)) => {
                    let (evidence, endorsements) = presented(r.assertions.values())?;
                    ensure!(
                        evidence == server.side.measured.evidence() && endorsements == server.endorsed.message(),
                        "the server presents {:?} and {:?} instead of its own",
                        evidence,
                        endorsements
                    );
                    tamper_assertions(of_server, &mut r.assertions);
                }
                Some(session_response::Response::HandshakeResponse(r)) => {
                    tamper_bindings(of_server, &mut r.assertion_bindings);
                }
                _ => bail!("the server sends {:?} in a handshake", m),
            }
            let _ = c.put_incoming_message(m);
        }
        if !progress {
            break;
        }
    }
    let opened = (c.is_open(), s.is_open());
    ensure!(
        opened == expected,
        "the client {} the session and should {}, the server {} it and should {}",
        if opened.0 { "opens" } else { "refuses" },
        if expected.0 { "open" } else { "refuse" },
        if opened.1 { "opens" } else { "refuses" },
        if expected.1 { "open" } else { "refuse" }
    );
    if opened == (true, true) {
        c.write(b"to the server").map_err(|e| format!("{e:?}"))?;
        let m = c.get_outgoing_message().map_err(|e| format!("{e:?}"))?.ok_or("nothing is sent")?;
        s.put_incoming_message(m).map_err(|e| format!("{e:?}"))?;
        let got = s.read().map_err(|e| format!("{e:?}"))?;
        ensure!(got.as_deref() == Some(b"to the server"), "the server reads {:?}", got);
    }
    Ok(opened)
}

fn check_sessions(case: &Sessions) -> Outcome {
    oak_stubs::seed(case.seed as u64);
    let client = party(&case.client, &case.server);
    let server = party(&case.server, &case.client);
    let expect = |tamper: Option<&(bool, Tamper)>| {
        let of_client = tamper.and_then(|(c, t)| c.then_some(t));
        let of_server = tamper.and_then(|(c, t)| (!c).then_some(t));
        let fine = client.side.broken.is_none() && server.side.broken.is_none();
        let (client_admitted, client_bound) = judged(&server, &client, of_client);
        let (server_admitted, server_bound) = judged(&client, &server, of_server);
        let open = fine && client_admitted && server_admitted && server_bound;
        (open, open && client_bound)
    };
    if case.earlier {
        run(&client, &server, None, expect(None))?;
    }
    // A later session is made at another time.
    client.clock.0.store(client.side.times[1] as u64, Ordering::Relaxed);
    server.clock.0.store(server.side.times[1] as u64, Ordering::Relaxed);
    let opened = run(&client, &server, case.tamper.as_ref(), expect(case.tamper.as_ref()))?;

    let mut info = Info::default();
    let both = opened == (true, true);
    let expired = !client.endorsed.valid(server.side.times[2]) || !server.endorsed.valid(client.side.times[2]);
    info.label(both, "open");
    info.label(opened == (true, false), "only the client opens");
    info.label(opened == (false, false), "refused");
    info.label(case.tamper.is_some(), "tampered");
    info.label(expired, "expired endorsements");
    info.label(case.earlier, "earlier session");
    for (p, q) in [(&client, &server), (&server, &client)] {
        let v = &p.values;
        let admitted = v.admit(&q.side.measured);
        let root = match v {
            Values::None => None,
            Values::Kernel { root, .. } | Values::Containers { root, .. } => *root,
        };
        info.label(matches!(v, Values::Kernel { .. }) && admitted, "restricted kernel admitted");
        info.label(matches!(v, Values::Kernel { .. }) && !admitted, "restricted kernel refused");
        info.label(
            matches!(v, Values::Containers { .. }) && admitted && root.is_some_and(|r| r.insecure),
            "containers without hardware root admitted",
        );
        info.label(
            matches!(v, Values::Containers { .. }) && admitted && root.is_some_and(|r| !r.insecure),
            "containers with hardware root admitted",
        );
        info.label(
            matches!(v, Values::Containers { .. }) && !admitted && q.side.measured.tee != 1,
            "containers refused, no hardware root",
        );
        info.label(matches!(v, Values::Containers { .. }) && !admitted, "containers refused");
    }
    info.nontrivial = both
        || client.values.admit(&server.side.measured) != server.values.admit(&client.side.measured)
        || opened.0
        || case.tamper.is_some()
        || expired;
    Ok(info)
}

// ---------------------------------------------------------------------------------------------
// Facet: driver. What the application asks for and the host provides reaches the sessions.

#[derive(Default)]
struct Seen {
    /// What the sessions were set up with.
    inits: Vec<(Arc<dyn ClockBox>, ReferenceValues, Endorsements)>,
    sessions: usize,
    /// The replica the communication was set up for.
    ids: Vec<u64>,
    /// Readings of the clock by the time messages are handled.
    readings: Vec<u64>,
}

trait ClockBox {
    fn millis(&self) -> u64;
}
struct Boxed(Arc<dyn Clock>);
impl ClockBox for Boxed {
    fn millis(&self) -> u64 {
        self.0.get_time().into_unix_millis()
    }
}

struct Recording {
    inner: DefaultOakSessionFactory,
    seen: Rc<RefCell<Seen>>,
}

impl OakSessionFactory for Recording {
    fn init(&mut self, clock: Arc<dyn Clock>, values: ReferenceValues, endorsements: Endorsements) {
        self.seen.borrow_mut().inits.push((
            Arc::new(Boxed(clock.clone())),
            values.clone(),
            endorsements.clone(),
        ));
        self.inner.init(clock, values, endorsements)
    }
    fn get_oak_client_session(&self) -> AnyResult<Box<dyn OakClientSession>> {
        self.seen.borrow_mut().sessions += 1;
        self.inner.get_oak_client_session()
    }
    fn get_oak_server_session(&self) -> AnyResult<Box<dyn OakServerSession>> {
        self.seen.borrow_mut().sessions += 1;
        self.inner.get_oak_server_session()
    }
}

struct Communication {
    inner: DefaultCommunicationModule,
    seen: Rc<RefCell<Seen>>,
}

impl Communication {
    fn read(&self) {
        let clock = self.seen.borrow().inits.last().map(|i| i.0.clone());
        if let Some(clock) = clock {
            let now = clock.millis();
            self.seen.borrow_mut().readings.push(now);
        }
    }
}

impl CommunicationModule for Communication {
    fn init(&mut self, id: u64, logger: slog::Logger, clock: Arc<dyn Clock>, config: CommunicationConfig) {
        self.seen.borrow_mut().ids.push(id);
        self.inner.init(id, logger, clock, config)
    }
    fn process_out_message(&mut self, message: OutgoingMessage) -> Result<(), PalError> {
        self.read();
        self.inner.process_out_message(message)
    }
    fn process_in_message(&mut self, message: in_message::Msg) -> Result<Option<in_message::Msg>, PalError> {
        self.read();
        self.inner.process_in_message(message)
    }
    fn take_out_messages(&mut self) -> Vec<OutMessage> {
        self.read();
        self.inner.take_out_messages()
    }
    fn process_cluster_change(&mut self, replicas: &[u64]) {
        self.inner.process_cluster_change(replicas)
    }
    fn make_tick(&mut self) {
        self.read();
        self.inner.make_tick()
    }
    fn take_failed_snapshot_requests(&mut self) -> Vec<DeliverSnapshotRequest> {
        self.inner.take_failed_snapshot_requests()
    }
}

struct App {
    values: ReferenceValues,
    clock: Option<Arc<Settable>>,
}

impl Actor for App {
    fn on_init(&mut self, _: Box<dyn ActorContext>) -> Result<(), ActorError> {
        Ok(())
    }
    fn on_shutdown(&mut self) {}
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        Ok(Bytes::new())
    }
    fn on_load_snapshot(&mut self, _: Bytes) -> Result<(), ActorError> {
        Ok(())
    }
    fn on_process_command(&mut self, _: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        Ok(CommandOutcome::with_none())
    }
    fn on_apply_event(&mut self, _: ActorEventContext, _: ActorEvent) -> Result<EventOutcome, ActorError> {
        Ok(EventOutcome::with_none())
    }
    fn get_reference_values(&self) -> ReferenceValues {
        self.values.clone()
    }
    fn get_clock_override(&self) -> Option<Arc<dyn Clock>> {
        self.clock.clone().map(|c| c as Arc<dyn Clock>)
    }
}

type TestDriver =
    Driver<RaftSimple<MemoryStorage>, MemoryStorage, DefaultSnapshotProcessor, App, Communication>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Through {
    seed: u16,
    id: u8,
    values: Values,
    /// The replica's endorsements, if the host provides any.
    endorsed: Option<Endorsed>,
    measured: Measured,
    right_key: bool,
    /// The application has a clock of its own that shows this at the handshake.
    clock: Option<u8>,
    /// Times at which the replica is called, the last one at the handshake.
    times: Vec<u8>,
    raft: bool,
    ephemeral: bool,
    leader: bool,
    /// The peer that initiates a session.
    peer: Side,
}

fn through() -> impl Strategy<Value = Through> {
    (
        (any::<u16>(), 1u8..9),
        values(),
        prop::option::weighted(0.8, endorsed()),
        measured(),
        prop::bool::weighted(0.9),
        prop::option::weighted(0.3, 1u8..60),
        prop::collection::vec(1u8..60, 1..6),
        (any::<bool>(), prop::bool::weighted(0.1), any::<bool>()),
        (side(), prop::bool::weighted(0.7)),
    )
        .prop_map(
            |((seed, id), values, endorsed, measured, right_key, clock, times, (raft, ephemeral, leader), (mut peer, same))| {
                peer.broken = None;
                if same {
                    peer.inits.last_mut().unwrap().0 = values.clone();
                }
                Through { seed, id, values, endorsed, measured, right_key, clock, times, raft, ephemeral, leader, peer }
            },
        )
}

const PEER: u64 = 100;

fn check_through(case: &Through) -> Outcome {
    use tcp_proto::runtime::endpoint::secure_channel_handshake::{
        noise_protocol::{self, initiator_request, recipient_response},
        Encryption, NoiseProtocol,
    };
    oak_stubs::seed(case.seed as u64);
    let own = case.id as u64;
    let peer_values = &case.peer.inits.last().unwrap().0;
    let own_key = if case.right_key { wanted(peer_values, &case.measured) } else { 79 };
    let seen = Rc::new(RefCell::new(Seen::default()));
    let factory = Recording {
        inner: DefaultOakSessionFactory::new(
            Box::new(TestBinders(vec![own_key], None)),
            Box::new(TestAttesters(case.measured.evidence(), None)),
        ),
        seen: seen.clone(),
    };
    let communication = Communication {
        inner: DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(factory)))),
        seen: seen.clone(),
    };
    let override_clock = case.clock.map(|_| Arc::new(Settable::default()));
    let mut driver: TestDriver = Driver::new(
        RaftSimple::new(),
        Box::new(MemoryStorage::new),
        DefaultSnapshotProcessor::new(
            Box::new(DefaultSnapshotSender::new()),
            Box::new(DefaultSnapshotReceiver::new()),
        ),
        App { values: case.values.message(), clock: override_clock.clone() },
        communication,
        Some(logger()),
    );
    let mut out = Out(Vec::new());
    let highest = Cell::new(0u8);
    let mut call = |driver: &mut TestDriver, out: &mut Out, time: u8, msg: Option<in_message::Msg>| {
        highest.set(highest.get().max(time));
        // The application's clock goes its own way.
        let shown = match (&override_clock, case.clock) {
            (Some(c), Some(shown)) => {
                c.0.store(shown as u64, Ordering::Relaxed);
                shown
            }
            _ => highest.get(),
        };
        seen.borrow_mut().readings.clear();
        driver
            .receive_message(out, time as u64, msg.map(|m| InMessage { msg: Some(m) }))
            .map_err(|e| format!("the replica terminates: {e:?}"))?;
        for r in &seen.borrow().readings {
            ensure!(*r == shown as u64, "attestation goes by the time {} at {}", r, shown);
        }
        Ok::<u8, String>(shown)
    };
    let start = in_message::Msg::StartReplica(StartReplicaRequest {
        is_leader: case.leader,
        replica_id_hint: own,
        is_ephemeral: case.ephemeral,
        raft_config: case.raft.then(|| RaftConfig {
            tick_period: 10,
            election_tick: 200,
            heartbeat_tick: 20,
            max_size_per_msg: 1000,
            handshake_retry_tick: 3,
            ..Default::default()
        }),
        endorsements: case.endorsed.map(|e| e.message()),
        ..Default::default()
    });
    call(&mut driver, &mut out, case.times[0], Some(start))?;
    {
        let seen = seen.borrow();
        ensure!(seen.ids.last() == Some(&own), "attestation is set up for {:?}", seen.ids);
        let (_, values, endorsements) = seen.inits.last().ok_or("attestation isn't set up")?;
        ensure!(*values == case.values.message(), "peers are judged by {:?}", values);
        let own_endorsements = case.endorsed.map(|e| e.message()).unwrap_or_default();
        ensure!(*endorsements == own_endorsements, "the replica's endorsements are {:?}", endorsements);
    }
    for t in &case.times[1..] {
        call(&mut driver, &mut out, *t, None)?;
    }
    // A peer comes.
    let as_side = Side {
        inits: vec![(case.values.clone(), case.endorsed.unwrap_or(Endorsed { until: 0, label: 0 }))],
        measured: case.measured.clone(),
        key: Key::Right,
        broken: None,
        times: [0; 3],
    };
    let peer = party(&case.peer, &as_side);
    peer.clock.0.store(case.peer.times[2] as u64, Ordering::Relaxed);
    let now = case.clock.unwrap_or(*case.times.iter().max().unwrap());
    let mut client = peer.factory.get_oak_client_session().map_err(|e| format!("{e:?}"))?;
    let mut completed = false;
    let mut answers = 0;
    for _ in 0..6 {
        let Ok(Some(request)) = client.get_outgoing_message() else { break };
        completed = client.is_open();
        let message = in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
            recipient_replica_id: own,
            sender_replica_id: PEER,
            encryption: Some(Encryption::NoiseProtocol(NoiseProtocol {
                message: Some(noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest {
                    message: Some(initiator_request::Message::SessionRequest(request)),
                })),
            })),
        });
        out.0.clear();
        call(&mut driver, &mut out, *case.times.last().unwrap(), Some(message))?;
        for m in std::mem::take(&mut out.0) {
            let Some(out_message::Msg::SecureChannelHandshake(h)) = m.msg else { continue };
            ensure!(
                h.sender_replica_id == own && h.recipient_replica_id == PEER,
                "a handshake message goes from {} to {}",
                h.sender_replica_id,
                h.recipient_replica_id
            );
            let Some(Encryption::NoiseProtocol(NoiseProtocol {
                message:
                    Some(noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse {
                        message: Some(recipient_response::Message::SessionResponse(response)),
                    })),
            })) = h.encryption
            else {
                bail!("the recipient of a handshake answers {:?}", h.encryption);
            };
            if let Some(session_response::Response::AttestResponse(r)) = &response.response {
                let (evidence, endorsements) = presented(r.assertions.values())?;
                ensure!(
                    evidence == case.measured.evidence()
                        && endorsements == case.endorsed.map(|e| e.message()).unwrap_or_default(),
                    "the replica presents {:?} and {:?} instead of its own",
                    evidence,
                    endorsements
                );
            }
            answers += 1;
            let _ = client.put_incoming_message(response);
        }
    }
    let own_endorsed = case.endorsed.unwrap_or(Endorsed { until: 0, label: 0 });
    let peer_admitted = peer.endorsed.valid(now) && case.values.admit(&case.peer.measured);
    let peer_bound = wanted(&case.values, &case.peer.measured) == peer.key;
    let own_admitted = own_endorsed.valid(case.peer.times[2]) && peer_values.admit(&case.measured);
    let own_bound = wanted(peer_values, &case.measured) == own_key;
    // An ephemeral replica has nothing to say to others, but may well answer.
    let expected = if !peer_admitted { 0 } else if !own_admitted { 1 } else { 2 };
    ensure!(
        answers == expected || case.ephemeral && answers == 0,
        "the replica answers {} times where the peer is {}admitted and {}admits it",
        answers,
        if peer_admitted { "" } else { "not " },
        if own_admitted { "" } else { "not " }
    );
    ensure!(
        completed == (answers == 2 && own_bound),
        "the peer's session opens without reason, or doesn't open: {} answers, bound: {}",
        answers,
        own_bound
    );
    let mut info = Info::default();
    info.label(completed && peer_bound, "open");
    info.label(!peer_admitted, "refused by the replica");
    info.label(peer_admitted && !own_admitted, "refused by the peer");
    info.label(case.values.admit(&case.peer.measured) && !peer.endorsed.valid(now), "refused for its endorsements");
    info.label(case.clock.is_some(), "clock of the application");
    info.label(case.times.windows(2).any(|w| w[1] < w[0]), "host time goes back");
    info.label(case.ephemeral, "ephemeral");
    info.nontrivial = answers > 0 || case.values.admit(&case.peer.measured);
    Ok(info)
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "C27",
            "sessions",
            "a side admits its peer, or a session is tampered with, or endorsements have expired",
            150_000,
            4_000_000,
            sessions,
            check_sessions,
        ),
        facet(
            "C27",
            "driver",
            "the replica answers the handshake, or refuses a peer only for its endorsements",
            80_000,
            2_000_000,
            through,
            check_through,
        ),
    ]
}
