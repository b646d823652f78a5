//! C30: the endpoint services that the host calls, for the restricted kernel and for Oak
//! Containers.

use bytes::Bytes;
use oak_proto_rust::oak::attestation::v1::*;
use pbt::proptest::prelude::*;
use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};
use tcp_proto::runtime::endpoint::endpoint_service_server::EndpointService as _;
use tcp_proto::runtime::endpoint::EndpointService as _;
use tcp_proto::runtime::endpoint::*;

// ---------------------------------------------------------------------------------------------
// The application.

type Command = (u64, Bytes, Bytes);

/// One call of the application.
#[derive(Debug, Clone, Default)]
struct Call {
    instant: u64,
    command: Option<Command>,
    outputs: Vec<Command>,
    records: Vec<String>,
}

#[derive(Default)]
struct Shared {
    calls: Vec<Call>,
    applied: Vec<Bytes>,
    config: Bytes,
    records: u64,
}

struct Gate {
    entered: mpsc::Sender<u64>,
    open: mpsc::Receiver<()>,
}

/// What a command asks the application to do, by the first byte of its header.
const REPLY: u8 = 0;
const PROPOSE: u8 = 1;
const FAIL: u8 = 2;
const LOG: u8 = 3;

struct Script {
    shared: Arc<Mutex<Shared>>,
    gate: Option<Gate>,
    reference_values: ReferenceValues,
}

macro_rules! application {
    ($name:ident, $runtime:ident) => {
        struct $name {
            script: Script,
            context: Option<Box<dyn $runtime::model::ActorContext>>,
        }

        impl $runtime::model::Actor for $name {
            fn on_init(
                &mut self,
                context: Box<dyn $runtime::model::ActorContext>,
            ) -> Result<(), $runtime::model::ActorError> {
                self.script.shared.lock().unwrap().config = context.config();
                self.context = Some(context);
                Ok(())
            }
            fn on_shutdown(&mut self) {}
            fn on_save_snapshot(&mut self) -> Result<Bytes, $runtime::model::ActorError> {
                let mut out = Vec::new();
                for e in &self.script.shared.lock().unwrap().applied {
                    out.push(e.len() as u8);
                    out.extend(e);
                }
                Ok(out.into())
            }
            fn on_load_snapshot(&mut self, mut snapshot: Bytes) -> Result<(), $runtime::model::ActorError> {
                let mut applied = Vec::new();
                while !snapshot.is_empty() {
                    let n = snapshot.split_to(1)[0] as usize;
                    applied.push(snapshot.split_to(n));
                }
                self.script.shared.lock().unwrap().applied = applied;
                Ok(())
            }
            fn on_process_command(
                &mut self,
                command: Option<$runtime::model::ActorCommand>,
            ) -> Result<$runtime::model::CommandOutcome, $runtime::model::ActorError> {
                use $runtime::model::*;
                let context = self.context.as_ref().unwrap();
                let (kind, n) = match &command {
                    Some(c) => (c.header[0], c.header[1]),
                    None => (9, 0),
                };
                let mut call = Call {
                    instant: context.instant(),
                    command: command.clone().map(|c| (c.correlation_id, c.header, c.payload)),
                    ..Default::default()
                };
                let mut outcome = CommandOutcome::with_none();
                if let Some(c) = &command {
                    if let Some(gate) = &self.script.gate {
                        let _ = gate.entered.send(c.correlation_id);
                        let _ = gate.open.recv_timeout(Duration::from_secs(60));
                    }
                    for i in 0..n {
                        let reply = (c.correlation_id, Bytes::from(vec![200, i]), c.payload.clone());
                        call.outputs.push(reply);
                    }
                    if kind == PROPOSE {
                        outcome.event = Some(ActorEvent::with_bytes(c.correlation_id, c.payload.clone()));
                    }
                }
                let mut shared = self.script.shared.lock().unwrap();
                if command.is_none() && shared.calls.len() % 3 == 2 {
                    let n = shared.calls.len() as u64;
                    call.outputs.push((n, Bytes::from_static(&[201]), Bytes::new()));
                }
                if kind == LOG {
                    for _ in 0..n {
                        shared.records += 1;
                        let record = format!("record {}", shared.records);
                        slog::warn!(context.logger(), "{}", record);
                        call.records.push(record);
                    }
                }
                outcome.commands = call
                    .outputs
                    .iter()
                    .map(|(id, header, payload)| ActorCommand {
                        correlation_id: *id,
                        header: header.clone(),
                        payload: payload.clone(),
                    })
                    .collect();
                shared.calls.push(call);
                if kind == FAIL {
                    return Err(ActorError::Internal);
                }
                Ok(outcome)
            }
            fn on_apply_event(
                &mut self,
                context: $runtime::model::ActorEventContext,
                event: $runtime::model::ActorEvent,
            ) -> Result<$runtime::model::EventOutcome, $runtime::model::ActorError> {
                use $runtime::model::*;
                let mut shared = self.script.shared.lock().unwrap();
                shared.applied.push(event.contents.clone());
                if !context.owned {
                    return Ok(EventOutcome::with_none());
                }
                let reply = (event.correlation_id, Bytes::from_static(&[202]), event.contents);
                shared.calls.last_mut().unwrap().outputs.push(reply.clone());
                Ok(EventOutcome::with_command(ActorCommand {
                    correlation_id: reply.0,
                    header: reply.1,
                    payload: reply.2,
                }))
            }
            fn get_reference_values(&self) -> ReferenceValues {
                self.script.reference_values.clone()
            }
        }
    };
}

application!(Kernel, tcp_runtime);
application!(Container, tcp_runtime_hosted);

const APPLICATION: &[u8] = b"application";
const KERNEL: &[u8] = b"kernel";

fn evidence(id: u64, good: bool, containers: bool) -> Evidence {
    let mut e = Evidence {
        tee: evidence::Tee::AmdSevSnp.into(),
        kernel: KERNEL.to_vec(),
        application: APPLICATION.to_vec(),
        binding_key: format!("binding {id}").into_bytes(),
        signing_key: format!("signing {id}").into_bytes(),
        ..Default::default()
    };
    if containers {
        e.system = b"system".to_vec();
        e.container = APPLICATION.to_vec();
    }
    if !good {
        e.kernel = b"another kernel".to_vec();
    }
    e
}

fn reference_values(containers: bool) -> ReferenceValues {
    let digests = |d: &[u8]| BinaryReferenceValue {
        r#type: Some(binary_reference_value::Type::Digests(Digests { digest: d.to_vec() })),
    };
    let root_layer = Some(RootLayerReferenceValues {
        amd_sev: Some(AmdSevReferenceValues { stage0: Some(digests(b"")), ..Default::default() }),
        ..Default::default()
    });
    let kernel_layer = Some(KernelLayerReferenceValues {
        kernel: Some(KernelBinaryReferenceValue {
            r#type: Some(kernel_binary_reference_value::Type::Digests(KernelDigests { digest: KERNEL.to_vec() })),
        }),
        ..Default::default()
    });
    let binary = Some(digests(APPLICATION));
    let r#type = if containers {
        reference_values::Type::OakContainers(OakContainersReferenceValues {
            root_layer,
            kernel_layer,
            system_layer: Some(SystemLayerReferenceValues { system_image: Some(digests(b"system")) }),
            container_layer: Some(ContainerLayerReferenceValues { binary, ..Default::default() }),
        })
    } else {
        reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
            root_layer,
            kernel_layer,
            application_layer: Some(ApplicationLayerReferenceValues { binary, ..Default::default() }),
        })
    };
    ReferenceValues { r#type: Some(r#type) }
}

// ---------------------------------------------------------------------------------------------
// The two services behind one interface.

type Hosted = tcp_runtime_hosted::service::TonicApplicationService;

enum Service {
    Kernel { service: tcp_runtime::service::ApplicationService<Kernel>, evidence: Evidence },
    Container { service: Option<Hosted>, runtime: tokio::runtime::Runtime },
}

struct Endpoint {
    service: Service,
    shared: Arc<Mutex<Shared>>,
    failed: bool,
}

fn container(script: Script, id: u64, evidence: Evidence, runtime: &tokio::runtime::Runtime) -> Hosted {
    let _guard = runtime.enter();
    let key = if evidence.container.is_empty() { &evidence.signing_key } else { &evidence.binding_key };
    let channel = oak_stubs::containers::Channel { key: key.clone() };
    Hosted::new(channel, evidence, Some(slog::Logger::root(slog::Discard, slog::o!())), move || {
        oak_stubs::seed(id);
        Container { script, context: None }
    })
}

impl Endpoint {
    fn new(id: u64, containers: bool, good: bool) -> Endpoint {
        let shared = Arc::new(Mutex::new(Shared::default()));
        let script = Script {
            shared: shared.clone(),
            gate: None,
            reference_values: reference_values(containers),
        };
        let evidence = evidence(id, good, containers);
        let service = if containers {
            let runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
            let service = container(script, id, evidence, &runtime);
            Service::Container { service: Some(service), runtime }
        } else {
            let service = tcp_runtime::service::ApplicationService::new(Kernel { script, context: None });
            Service::Kernel { service, evidence }
        };
        Endpoint { service, shared, failed: false }
    }

    /// The messages answered, or nothing if the service doesn't answer.
    fn call(&mut self, instant: u64, msg: Option<in_message::Msg>) -> Result<Option<Vec<OutMessage>>, String> {
        let patience = if self.failed { LITTLE } else { Duration::from_secs(20) };
        let request = ReceiveMessageRequest { instant, message: msg.map(|m| InMessage { msg: Some(m) }) };
        match &mut self.service {
            Service::Kernel { service, evidence } => {
                oak_stubs::environment::set(Some(evidence.clone()));
                let r = catch_unwind(AssertUnwindSafe(|| service.receive_message(request)));
                oak_stubs::environment::set(None);
                match r {
                    Err(_) => Ok(None),
                    Ok(Ok(r)) => Ok(Some(r.messages)),
                    Ok(Err(_)) => Ok(None),
                }
            }
            Service::Container { service, .. } => {
                let service = service.as_ref().unwrap();
                let mut future = service.receive_message(tonic::Request::new(request));
                match wait_for(&mut future, patience) {
                    None if self.failed => Ok(None),
                    None => Err("a call is never answered".into()),
                    Some(Ok(r)) => Ok(Some(r.into_inner().messages)),
                    Some(Err(_)) => Ok(None),
                }
            }
        }
    }
}

impl Drop for Endpoint {
    fn drop(&mut self) {
        if let Service::Container { service, runtime } = &mut self.service {
            let _guard = runtime.enter();
            let service = service.take();
            let _ = catch_unwind(AssertUnwindSafe(|| drop(service)));
        }
    }
}

/// Polls the future until it is ready.
fn wait<T>(future: &mut Pin<Box<dyn Future<Output = T> + Send + '_>>) -> Option<T> {
    wait_for(future, Duration::from_secs(20))
}

/// How long to look for the answer of a replica that has failed. Its thread takes the channel down
/// while it unwinds, and a call put into the channel at that very moment may be left in there by
/// tokio until the service is dropped: such a call isn't answered, which is as good as an error.
const LITTLE: Duration = Duration::from_millis(500);

fn wait_for<T>(future: &mut Pin<Box<dyn Future<Output = T> + Send + '_>>, patience: Duration) -> Option<T> {
    let start = Instant::now();
    loop {
        if let Poll::Ready(r) = future.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            return Some(r);
        }
        if start.elapsed() > patience {
            return None;
        }
        std::thread::yield_now();
    }
}

fn start(id: u64, leader: bool, ephemeral: bool, config: &[u8]) -> in_message::Msg {
    in_message::Msg::StartReplica(StartReplicaRequest {
        is_leader: leader,
        replica_id_hint: id,
        raft_config: Some(RaftConfig {
            tick_period: 10,
            election_tick: 5,
            heartbeat_tick: 1,
            max_size_per_msg: 0,
            snapshot_config: Some(raft_config::SnapshotConfig {
                snapshot_count: 1000,
                chunk_size: 64,
                max_pending_chunks: 2,
            }),
            handshake_retry_tick: 1,
        }),
        endorsements: Some(Endorsements::default()),
        app_config: config.to_vec().into(),
        is_ephemeral: ephemeral,
    })
}

fn app_message(id: u64, kind: u8, n: u8, payload: &[u8]) -> in_message::Msg {
    in_message::Msg::DeliverAppMessage(DeliverAppMessage {
        correlation_id: id,
        message_header: vec![kind, n].into(),
        message_payload: payload.to_vec().into(),
    })
}

fn replies(messages: &[OutMessage]) -> Vec<Command> {
    messages
        .iter()
        .filter_map(|m| match &m.msg {
            Some(out_message::Msg::DeliverAppMessage(m)) => {
                Some((m.correlation_id, m.message_header.clone(), m.message_payload.clone()))
            }
            _ => None,
        })
        .collect()
}

/// Records of the application among the messages.
fn records(messages: &[OutMessage]) -> Vec<String> {
    messages
        .iter()
        .filter_map(|m| match &m.msg {
            Some(out_message::Msg::Log(l)) => {
                let at = l.message.find("record ")?;
                let text: String = l.message[at..].chars().take_while(|c| c.is_alphanumeric() || *c == ' ').collect();
                Some(text.trim().to_string())
            }
            _ => None,
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Calls one after the other.

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Start,
    Tick,
    App { kind: u8, n: u8, payload: Vec<u8> },
    State,
    Check,
    Change { replica: u8, remove: bool },
    Stop,
    Handshake,
    Nothing,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Calls {
    containers: bool,
    ephemeral: bool,
    config: Vec<u8>,
    seed: u64,
    steps: Vec<(i16, Step)>,
}

fn steps() -> impl Strategy<Value = Calls> {
    let step = prop_oneof![
        1 => Just(Step::Start),
        4 => Just(Step::Tick),
        9 => (prop_oneof![6 => Just(REPLY), 6 => Just(PROPOSE), 4 => Just(LOG), 1 => Just(FAIL)], prop_oneof![9 => 0u8..5, 1 => 50u8..255],
              prop::collection::vec(any::<u8>(), 0..12))
            .prop_map(|(kind, n, payload)| Step::App { kind, n, payload }),
        2 => Just(Step::State),
        2 => Just(Step::Check),
        1 => (2u8..4, any::<bool>()).prop_map(|(replica, remove)| Step::Change { replica, remove }),
        1 => Just(Step::Stop),
        1 => Just(Step::Handshake),
        1 => Just(Step::Nothing),
    ];
    (
        prop_oneof![4 => Just(false), 1 => Just(true)],
        any::<bool>(),
        prop::collection::vec(any::<u8>(), 0..8),
        any::<u64>(),
        prop::collection::vec((prop_oneof![1 => -30i16..0, 8 => 0i16..40], step), 1..25),
    )
        .prop_map(|(containers, ephemeral, config, seed, mut steps)| {
            if !seed.is_multiple_of(8) {
                steps.insert(0, (0, Step::Start));
            }
            Calls { containers, ephemeral, config, seed, steps }
        })
}

fn check_calls(c: &Calls) -> Outcome {
    raft::seed_election_timeouts(c.seed);
    oak_stubs::seed(c.seed);
    let mut endpoint = Endpoint::new(1, c.containers, true);
    let mut info = Info::new(false);
    let mut started = false;
    let mut stopped = false;
    let mut instant = 500u64;
    let mut latest = 0u64;
    let mut seen = 0;
    let mut next_id = 0u64;
    let mut answered = 0;
    for (at, (advance, step)) in c.steps.iter().enumerate() {
        if c.containers && matches!(step, Step::Nothing) {
            continue;
        }
        instant = instant.saturating_add_signed(*advance as i64);
        latest = latest.max(instant);
        let running = started && !stopped;
        next_id += 1;
        // The reply due in this very call, and whether the replica can carry on.
        let mut due = None;
        let mut fatal = false;
        let message = match step {
            Step::Start => {
                fatal = started || stopped;
                due = Some("start");
                Some(start(1, true, c.ephemeral, &c.config))
            }
            Step::Tick => None,
            Step::App { kind, n, payload } => {
                fatal = running && *kind == FAIL;
                Some(app_message(next_id, *kind, *n, payload))
            }
            Step::State => {
                fatal = !running;
                due = Some("state");
                Some(in_message::Msg::GetReplicaState(GetReplicaStateRequest {}))
            }
            Step::Check => {
                fatal = !running || c.ephemeral;
                due = Some("check");
                Some(in_message::Msg::CheckCluster(CheckClusterRequest {}))
            }
            Step::Change { replica, remove } => {
                fatal = !running || c.ephemeral;
                due = Some("change");
                Some(in_message::Msg::ChangeCluster(ChangeClusterRequest {
                    change_id: next_id,
                    replica_id: *replica as u64,
                    change_type: if *remove {
                        ChangeClusterType::ChangeTypeRemoveReplica.into()
                    } else {
                        ChangeClusterType::ChangeTypeAddReplica.into()
                    },
                }))
            }
            Step::Stop => {
                due = if stopped { None } else { Some("stop") };
                Some(in_message::Msg::StopReplica(StopReplicaRequest {}))
            }
            Step::Handshake => {
                fatal = !running;
                Some(in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
                    recipient_replica_id: 1,
                    sender_replica_id: 2,
                    encryption: None,
                }))
            }
            Step::Nothing => None,
        };
        let nothing = matches!(step, Step::Nothing);
        let answer = if nothing {
            let request = ReceiveMessageRequest { instant, message: Some(InMessage { msg: None }) };
            match &mut endpoint.service {
                Service::Kernel { service, .. } => Some(service.receive_message(request).map_err(|e| e.message)?.messages),
                Service::Container { .. } => unreachable!(),
            }
        } else {
            endpoint.call(instant, message.clone())?
        };
        match step {
            Step::Start if !started => started = true,
            Step::Stop => stopped = true,
            _ => {}
        }
        let Some(messages) = answer else {
            ensure!(fatal, "step {at}: the service doesn't answer {step:?}");
            info.label(true, "the replica fails");
            // It doesn't come back.
            if c.containers {
                endpoint.failed = true;
                let again = endpoint.call(instant, None)?;
                ensure!(again.is_none(), "the service answers although its replica has failed");
            }
            break;
        };
        ensure!(!fatal, "step {at}: the service answers although the replica has failed with {step:?}");
        answered += 1;

        // What the application saw in this call, and what it said.
        let shared = endpoint.shared.lock().unwrap();
        let calls: Vec<Call> = shared.calls[seen..].to_vec();
        seen = shared.calls.len();
        if started {
            ensure!(shared.config[..] == c.config[..], "step {at}: the application got another configuration");
        }
        drop(shared);
        let expected = started && !stopped && !nothing;
        ensure!(
            calls.len() == expected as usize,
            "step {at}: the application was called {} times in one call of the host",
            calls.len()
        );
        let mut outputs = Vec::new();
        let mut said = Vec::new();
        if let Some(call) = calls.first() {
            ensure!(call.instant == latest, "step {at}: it is {} and not {latest} for the application", call.instant);
            let sent = match &message {
                Some(in_message::Msg::DeliverAppMessage(m)) => {
                    Some((m.correlation_id, m.message_header.clone(), m.message_payload.clone()))
                }
                _ => None,
            };
            ensure!(call.command == sent, "step {at}: the application got {:?} and not {sent:?}", call.command);
            outputs.clone_from(&call.outputs);
            said.clone_from(&call.records);
        }
        let got = replies(&messages);
        ensure!(got == outputs, "step {at}: the application sent {outputs:?} and the host got {got:?}");
        let got = records(&messages);
        ensure!(c.containers || got == said, "step {at}: records {said:?} arrived as {got:?}");
        info.label(!said.is_empty(), "records written");
        info.label(outputs.len() > 40, "many messages in one call");

        // Replies of the replica itself.
        let mut count: BTreeMap<&str, usize> = BTreeMap::new();
        for m in &messages {
            let kind = match &m.msg {
                Some(out_message::Msg::StartReplica(r)) => {
                    ensure!(r.replica_id == 1, "step {at}: replica {} started", r.replica_id);
                    "start"
                }
                Some(out_message::Msg::GetReplicaState(_)) => "state",
                Some(out_message::Msg::ChangeCluster(r)) => {
                    ensure!(r.change_id == next_id, "step {at}: change {} is answered and not {next_id}", r.change_id);
                    "change"
                }
                Some(out_message::Msg::StopReplica(_)) => "stop",
                Some(out_message::Msg::CheckCluster(_)) => "check",
                _ => continue,
            };
            *count.entry(kind).or_default() += 1;
        }
        for kind in ["start", "state", "change", "stop"] {
            let n = count.get(kind).copied().unwrap_or(0);
            ensure!(n == (due == Some(kind)) as usize, "step {at}: {n} replies of kind {kind} to {step:?}");
        }
        if due == Some("check") {
            ensure!(count.contains_key("check"), "step {at}: the state of the cluster isn't reported");
        }
        info.label(!outputs.is_empty(), "the application replies");
        info.label(stopped, "stopped");
        info.label(*advance < 0, "time goes back");
    }
    info.nontrivial = answered > 4 && started;
    info.label(c.containers, "containers");
    info.label(c.ephemeral, "ephemeral");
    Ok(info)
}

// ---------------------------------------------------------------------------------------------
// Two replicas.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
    containers: [bool; 2],
    good: [bool; 2],
    seed: u64,
    events: Vec<Vec<u8>>,
}

fn pairs() -> impl Strategy<Value = Pair> {
    (
        any::<bool>(),
        prop_oneof![3 => Just([true, true]), 1 => Just([true, false]), 1 => Just([false, true])],
        any::<u64>(),
        prop::collection::vec(prop::collection::vec(any::<u8>(), 1..20), 1..6),
    )
        .prop_map(|(containers, good, seed, events)| Pair { containers: [containers; 2], good, seed, events })
}

fn check_pair(c: &Pair) -> Outcome {
    raft::seed_election_timeouts(c.seed);
    oak_stubs::seed(c.seed);
    let mut endpoints: Vec<Endpoint> =
        (0..2).map(|i| Endpoint::new(i as u64 + 1, c.containers[i], c.good[i])).collect();
    let mut inbox: [Vec<in_message::Msg>; 2] = [Vec::new(), Vec::new()];
    inbox[0].push(start(1, true, false, b""));
    inbox[1].push(start(2, false, false, b""));
    let admitted = c.good == [true, true];
    let mut info = Info::new(true);
    let mut encrypted = 0;
    for round in 0..70u64 {
        if round == 15 {
            inbox[0].push(in_message::Msg::ChangeCluster(ChangeClusterRequest {
                change_id: 1,
                replica_id: 2,
                change_type: ChangeClusterType::ChangeTypeAddReplica.into(),
            }));
        }
        if round >= 36 && round % 4 == 0 {
            if let Some(e) = c.events.get((round as usize - 36) / 4) {
                inbox[0].push(app_message(round, PROPOSE, 0, e));
            }
        }
        for i in 0..2 {
            let mut messages: Vec<Option<in_message::Msg>> =
                std::mem::take(&mut inbox[i]).into_iter().map(Some).collect();
            messages.push(None);
            for m in messages {
                let Some(answers) = endpoints[i].call(1000 + round * 10, m)? else {
                    bail!("round {round}: replica {} fails", i + 1);
                };
                for a in answers {
                    let (to, m) = match a.msg {
                        Some(out_message::Msg::DeliverSystemMessage(m)) => {
                            encrypted += 1;
                            (m.recipient_replica_id, in_message::Msg::DeliverSystemMessage(m))
                        }
                        Some(out_message::Msg::DeliverSnapshotRequest(m)) => {
                            (m.recipient_replica_id, in_message::Msg::DeliverSnapshotRequest(m))
                        }
                        Some(out_message::Msg::DeliverSnapshotResponse(m)) => {
                            (m.recipient_replica_id, in_message::Msg::DeliverSnapshotResponse(m))
                        }
                        Some(out_message::Msg::SecureChannelHandshake(m)) => {
                            (m.recipient_replica_id, in_message::Msg::SecureChannelHandshake(m))
                        }
                        _ => continue,
                    };
                    ensure!(to == 2 - i as u64, "round {round}: replica {} writes to replica {to}", i + 1);
                    inbox[1 - i].push(m);
                }
            }
        }
    }
    let applied: Vec<Vec<Bytes>> = endpoints.iter().map(|e| e.shared.lock().unwrap().applied.clone()).collect();
    if admitted {
        ensure!(encrypted > 0, "the replicas don't talk to each other");
        for (i, a) in applied.iter().enumerate() {
            ensure!(
                a.len() == c.events.len() && a.iter().zip(&c.events).all(|(a, e)| a[..] == e[..]),
                "replica {} has applied {a:?} of {:?}",
                i + 1,
                c.events
            );
        }
    } else {
        ensure!(applied[1].is_empty(), "a replica that the reference values don't admit, or admit no other, has applied events");
        ensure!(encrypted == 0, "replicas talk although one isn't admitted");
    }
    info.label(admitted, "both are admitted");
    info.label(!admitted, "one isn't admitted");
    info.label(c.containers[0], "containers");
    Ok(info)
}

// ---------------------------------------------------------------------------------------------
// Calls at the same time.

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Move {
    /// A caller makes a call.
    Open { kind: u8, n: u8 },
    /// It looks for the answer.
    Look(u8),
    /// The replica finishes a call.
    Finish,
    /// A caller goes away.
    Leave(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Concurrent {
    ephemeral: bool,
    moves: Vec<Move>,
}

fn concurrent() -> impl Strategy<Value = Concurrent> {
    let step = prop_oneof![
        6 => (prop_oneof![6 => Just(REPLY), 6 => Just(PROPOSE), 1 => Just(FAIL)], 0u8..4)
            .prop_map(|(kind, n)| Move::Open { kind, n }),
        3 => any::<u8>().prop_map(Move::Look),
        5 => Just(Move::Finish),
        1 => any::<u8>().prop_map(Move::Leave),
    ];
    (any::<bool>(), prop::collection::vec(step, 3..25))
        .prop_map(|(ephemeral, moves)| Concurrent { ephemeral, moves })
}

type Answer<'a> = Pin<Box<dyn Future<Output = Result<tonic::Response<ReceiveMessageResponse>, tonic::Status>> + Send + 'a>>;

fn check_concurrent(c: &Concurrent) -> Outcome {
    let (entered_tx, entered) = mpsc::channel();
    let (open, open_rx) = mpsc::channel();
    let shared = Arc::new(Mutex::new(Shared::default()));
    let script = Script {
        shared: shared.clone(),
        gate: Some(Gate { entered: entered_tx, open: open_rx }),
        reference_values: reference_values(true),
    };
    let runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let service = container(script, 1, evidence(1, true, true), &runtime);
    let mut info = Info::new(false);
    let result = run_concurrent(c, &service, &shared, &entered, &open, &mut info);
    drop(open);
    // The service ends when nobody holds it, and takes its thread along.
    let failed = {
        let _guard = runtime.enter();
        catch_unwind(AssertUnwindSafe(|| drop(service))).is_err()
    };
    result?;
    let expected = {
        let shared = shared.lock().unwrap();
        shared.calls.iter().any(|k| k.command.as_ref().is_some_and(|c| c.1[0] == FAIL))
    };
    ensure!(failed == expected, "the replica's thread {} when the service ends", if failed { "has failed" } else { "hasn't failed" });
    Ok(info)
}

fn run_concurrent(
    c: &Concurrent,
    service: &Hosted,
    shared: &Mutex<Shared>,
    entered: &mpsc::Receiver<u64>,
    open: &mpsc::Sender<()>,
    info: &mut Info,
) -> Result<(), String> {
    let request = |message| {
        tonic::Request::new(ReceiveMessageRequest { instant: 1000, message: Some(InMessage { msg: Some(message) }) })
    };
    let mut first: Answer = service.receive_message(request(start(1, true, c.ephemeral, b"")));
    match wait(&mut first) {
        Some(Ok(_)) => {}
        _ => bail!("the replica doesn't start"),
    }
    let mut live: BTreeMap<u64, Answer> = BTreeMap::new();
    let mut kinds: BTreeMap<u64, u8> = BTreeMap::new();
    // Those whose answers are due, with what it has to be.
    let mut next_id = 0;
    let mut failed = false;
    let mut answered = 0;
    let check_answer = |id: u64, r: Result<tonic::Response<ReceiveMessageResponse>, tonic::Status>| -> Result<bool, String> {
        let messages = match r {
            Err(_) => return Ok(false),
            Ok(r) => r.into_inner().messages,
        };
        let shared = shared.lock().unwrap();
        let calls: Vec<&Call> =
            shared.calls.iter().filter(|k| k.command.as_ref().is_some_and(|c| c.0 == id)).collect();
        ensure!(calls.len() == 1, "the application saw call {id} {} times", calls.len());
        let got = replies(&messages);
        ensure!(got == calls[0].outputs, "call {id} is answered with {got:?}, the application sent {:?}", calls[0].outputs);
        Ok(true)
    };
    let finish_all = c.moves.len();
    let mut at = 0;
    while at < finish_all || !live.is_empty() {
        let step = c.moves.get(at).cloned().unwrap_or(Move::Finish);
        at += 1;
        ensure!(at < finish_all + 200, "calls are never answered: {:?}", live.keys().collect::<Vec<_>>());
        match step {
            Move::Open { kind, n } => {
                next_id += 1;
                let mut call: Answer = service.receive_message(request(app_message(next_id, kind, n, &[next_id as u8])));
                kinds.insert(next_id, kind);
                match call.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                    Poll::Pending => {
                        live.insert(next_id, call);
                    }
                    Poll::Ready(r) => {
                        ensure!(failed && !check_answer(next_id, r)?, "call {next_id} is answered before it is processed");
                    }
                }
            }
            Move::Look(i) => {
                if live.is_empty() {
                    continue;
                }
                let id = *live.keys().nth(i as usize % live.len()).unwrap();
                let r = live.get_mut(&id).unwrap().as_mut().poll(&mut Context::from_waker(Waker::noop()));
                if let Poll::Ready(r) = r {
                    live.remove(&id);
                    ensure!(failed && !check_answer(id, r)?, "call {id} is answered before it is processed");
                }
            }
            Move::Leave(i) => {
                if live.is_empty() {
                    continue;
                }
                let id = *live.keys().nth(i as usize % live.len()).unwrap();
                live.remove(&id);
                info.label(!failed, "a caller goes away");
            }
            Move::Finish => {
                if failed {
                    // Nobody gets an answer any more.
                    for (id, mut call) in std::mem::take(&mut live) {
                        if let Some(r) = wait_for(&mut call, LITTLE) {
                            ensure!(!check_answer(id, r)?, "call {id} is answered by a replica that has failed");
                        }
                    }
                    continue;
                }
                // Calls that wait for their turn move up.
                let mut early = Vec::new();
                for (id, call) in &mut live {
                    if let Poll::Ready(r) = call.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                        early.push((*id, r));
                    }
                }
                for (id, r) in early {
                    live.remove(&id);
                    if check_answer(id, r)? {
                        bail!("call {id} is answered before it is processed");
                    }
                    bail!("call {id} is given up although the replica works");
                }
                if live.is_empty() {
                    continue;
                }
                let Ok(id) = entered.recv_timeout(Duration::from_secs(20)) else {
                    bail!("calls {:?} aren't processed", live.keys().collect::<Vec<_>>());
                };
                info.label(live.len() > 2, "more than two calls at a time");
                let fails = kinds[&id] == FAIL;
                open.send(()).unwrap();
                failed |= fails;
                let Some(mut call) = live.remove(&id) else {
                    info.label(true, "a call of somebody who has left is processed");
                    continue;
                };
                match wait(&mut call) {
                    None => bail!("call {id} is never answered"),
                    Some(r) => {
                        let ok = check_answer(id, r)?;
                        ensure!(ok != fails, "call {id} is {}", if ok { "answered by a replica that has failed" } else { "given up" });
                        answered += ok as usize;
                    }
                }
            }
        }
    }
    info.nontrivial = answered > 2;
    info.label(failed, "the replica fails");
    info.label(c.ephemeral, "ephemeral");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet("C30", "calls", "the replica starts and more than four calls are answered", 60_000, 3_000_000, steps, check_calls),
        facet("C30", "pair", "always", 2_000, 100_000, pairs, check_pair),
        facet("C30", "concurrent", "more than two calls are answered", 8_000, 400_000, concurrent, check_concurrent),
    ]
}
