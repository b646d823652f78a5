//! C14: what the application logs leaves the replica with the messages for the host.

use crate::sim::{communication, reference_values, Out};
use bytes::Bytes;
use oak_proto_rust::oak::attestation::v1::{Endorsements, ReferenceValues};
use pbt::proptest::prelude::*;
use pbt::{ensure, facet, Facet, Info, Outcome};
use serde::{Deserialize, Serialize};
use slog::{o, Logger};
use std::cell::RefCell;
use std::rc::Rc;
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::consensus::RaftSimple;
use tcp_runtime::driver::Driver;
use tcp_runtime::model::*;
use tcp_runtime::platform::Application;
use tcp_runtime::snapshot::{DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender};
use tcp_runtime::storage::MemoryStorage;

#[derive(Default)]
struct Written {
    /// Severities, by number.
    records: Vec<LogSeverity>,
    callbacks: usize,
    kinds: [bool; 6],
    /// The callback of this number fails.
    fail: Option<usize>,
}

/// An application that logs whatever it is asked.
struct Scribe {
    written: Rc<RefCell<Written>>,
    script: Vec<(u8, bool)>,
    loggers: Option<(Logger, Logger)>,
    context: Option<Box<dyn ActorContext>>,
}

impl Scribe {
    fn write(&mut self, kind: usize) -> Result<(), ActorError> {
        let mut written = self.written.borrow_mut();
        written.kinds[kind] = true;
        let (level, derived) = self.script[written.callbacks % self.script.len()];
        // No records, one, or two.
        for k in 0..level % 3 {
            let n = written.records.len();
            let Some((plain, other)) = &self.loggers else { continue };
            let logger = if derived { other } else { plain };
            let severity = match (level / 3 + k) % 6 {
                0 => (slog::crit!(logger, "<m{}> text", n), LogSeverity::Critical).1,
                1 => (slog::error!(logger, "<m{}> text", n; "key" => "value"), LogSeverity::Error).1,
                2 => (slog::warn!(logger, "<m{}> text", n), LogSeverity::Warning).1,
                3 => (slog::info!(logger, "<m{}> text", n; "key" => 7), LogSeverity::Info).1,
                // Lower levels may be compiled out of the logging macros.
                _ => (slog::info!(logger, "<m{}> text", n), LogSeverity::Info).1,
            };
            written.records.push(severity);
        }
        let fails = written.fail == Some(written.callbacks);
        written.callbacks += 1;
        if fails { Err(ActorError::Internal) } else { Ok(()) }
    }
}

impl Actor for Scribe {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        let plain = context.logger().clone();
        self.loggers = Some((plain.clone(), plain.new(o!("of" => "scribe"))));
        self.context = Some(context);
        self.write(0)
    }
    fn on_shutdown(&mut self) {
        let _ = self.write(1);
    }
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        self.write(2)?;
        Ok(Bytes::from_static(b"state"))
    }
    fn on_load_snapshot(&mut self, _: Bytes) -> Result<(), ActorError> {
        self.write(3)
    }
    fn on_process_command(&mut self, command: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        self.write(4)?;
        Ok(match command {
            Some(c) => CommandOutcome::with_event(ActorEvent::with_bytes(c.correlation_id, c.payload)),
            None => CommandOutcome::with_none(),
        })
    }
    fn on_apply_event(&mut self, _: ActorEventContext, _: ActorEvent) -> Result<EventOutcome, ActorError> {
        self.write(5)?;
        Ok(EventOutcome::with_none())
    }
    fn get_reference_values(&self) -> ReferenceValues {
        reference_values()
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Start { ephemeral: bool },
    Stop,
    Lameduck,
    Command { n: u8 },
    Time { n: u8 },
    Unknown,
    Misrouted,
    Check,
    Join { id: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    script: Vec<(u8, bool)>,
    fail: Option<u8>,
    steps: Vec<Step>,
}

fn case() -> impl Strategy<Value = Case> {
    let step = prop_oneof![
        1 => prop::bool::weighted(0.2).prop_map(|ephemeral| Step::Start { ephemeral }),
        1 => Just(Step::Stop),
        1 => Just(Step::Lameduck),
        6 => (1u8..5).prop_map(|n| Step::Command { n }),
        6 => (1u8..40).prop_map(|n| Step::Time { n }),
        1 => Just(Step::Unknown),
        1 => Just(Step::Misrouted),
        1 => Just(Step::Check),
        1 => (2u8..5).prop_map(|id| Step::Join { id }),
    ];
    (
        prop::collection::vec((any::<u8>(), any::<bool>()), 1..8),
        prop::option::weighted(0.2, any::<u8>()),
        prop::option::weighted(0.8, prop::bool::weighted(0.2)),
        prop::collection::vec(step, 1..20),
    )
        .prop_map(|(script, fail, start, mut steps)| {
            if let Some(ephemeral) = start {
                steps.splice(0..0, [Step::Start { ephemeral }, Step::Time { n: 30 }]);
            }
            Case { script, fail, steps }
        })
}

fn check(case: &Case) -> Outcome {
    raft::seed_election_timeouts(1);
    oak_stubs::seed(1);
    let written = Rc::new(RefCell::new(Written { fail: case.fail.map(|f| f as usize), ..Default::default() }));
    let mut driver = Driver::new(
        RaftSimple::new(),
        Box::new(MemoryStorage::new),
        DefaultSnapshotProcessor::new(Box::new(DefaultSnapshotSender::new()), Box::new(DefaultSnapshotReceiver::new())),
        Scribe { written: written.clone(), script: case.script.clone(), loggers: None, context: None },
        communication(1),
        None,
    );
    let mut now = 1000;
    let mut arrived: Vec<(usize, i32)> = Vec::new();
    let mut info = Info::default();
    let (mut calls_with_records, mut failed) = (0, false);
    let last = [Step::Time { n: 1 }];
    for step in case.steps.iter().chain(&last) {
        let message = match step {
            Step::Start { ephemeral } => in_message::Msg::StartReplica(StartReplicaRequest {
                is_leader: true,
                is_ephemeral: *ephemeral,
                replica_id_hint: 1,
                raft_config: Some(RaftConfig {
                    tick_period: 10,
                    election_tick: 10,
                    heartbeat_tick: 1,
                    snapshot_config: Some(SnapshotConfig { snapshot_count: 3, ..Default::default() }),
                    ..Default::default()
                }),
                endorsements: Some(Endorsements::default()),
                ..Default::default()
            }),
            Step::Stop => in_message::Msg::StopReplica(StopReplicaRequest {}),
            Step::Lameduck => in_message::Msg::EnterLameduckMode(EnterLameduckMode {}),
            Step::Misrouted => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
                recipient_replica_id: 9,
                sender_replica_id: 8,
                ..Default::default()
            }),
            Step::Check => in_message::Msg::CheckCluster(CheckClusterRequest {}),
            Step::Join { id } => in_message::Msg::ChangeCluster(ChangeClusterRequest {
                change_id: 1,
                replica_id: *id as u64,
                change_type: ChangeClusterType::ChangeTypeAddReplica.into(),
            }),
            Step::Command { .. } | Step::Time { .. } | Step::Unknown => {
                in_message::Msg::DeliverAppMessage(DeliverAppMessage {
                    correlation_id: 1,
                    message_payload: Bytes::from_static(b"event"),
                    ..Default::default()
                })
            }
        };
        let times = match step {
            Step::Command { n } | Step::Time { n } => *n,
            _ => 1,
        };
        for _ in 0..times {
            let input = match step {
                Step::Time { .. } => {
                    now += 10;
                    None
                }
                Step::Unknown => Some(InMessage { msg: None }),
                _ => Some(InMessage { msg: Some(message.clone()) }),
            };
            let mut out = Out(Vec::new());
            failed |= driver.receive_message(&mut out, now, input).is_err();
            let before = arrived.len();
            for m in out.0 {
                let Some(out_message::Msg::Log(l)) = m.msg else { continue };
                let Some(rest) = l.message.split("<m").nth(1) else { continue };
                arrived.push((rest.split('>').next().unwrap().parse().unwrap(), l.severity));
            }
            calls_with_records += (arrived.len() > before) as usize;
        }
    }
    let w = written.borrow();
    let due: Vec<(usize, i32)> = w.records.iter().map(|s| *s as i32).enumerate().collect();
    if w.fail.is_some_and(|f| f < w.callbacks) {
        // The replica is lost with the application: what arrived was written, in order and once.
        ensure!(due.starts_with(&arrived), "the application wrote {due:?}, the host got {arrived:?}");
        info.label(true, "the application fails");
    } else {
        ensure!(due == arrived, "the application wrote {due:?}, the host got {arrived:?}");
    }
    info.nontrivial = calls_with_records > 2;
    info.label(failed, "some input is refused");
    for (kind, name) in ["set up", "shut down", "snapshot saved", "snapshot loaded", "command", "event"].iter().enumerate() {
        info.label(w.kinds[kind], name);
    }
    Ok(info)
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "C14",
        "replica",
        "records of the application arrived with more than two calls",
        150_000,
        4_000_000,
        case,
        check,
    )]
}
