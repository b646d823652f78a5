//! C20: the atomic counter actor, replicated, against a model of the counters.

use crate::common::Context;
use bytes::Bytes;
use pbt::proptest::prelude::*;
use pbt::{ensure, facet, Facet, Info, Outcome};
use prost::Message;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;
use tcp_atomic_counter_service::actor::CounterActor;
use tcp_atomic_counter_service::apps::atomic_counter::service::*;
use tcp_runtime::model::{Actor, ActorCommand, ActorEvent, ActorEventContext, EventOutcome};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// Initial values in the configuration of each replica.
    configs: Vec<BTreeMap<String, i64>>,
    steps: Vec<Step>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Request { replica: u8, leader: bool, header: Header },
    Apply { replica: u8, count: u8 },
    /// A replica loads the snapshot of another, possibly as a new one.
    Snapshot { from: u8, to: u8, fresh: bool },
    Tick { replica: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Header {
    Swap { name: u8, expected: Expected, new: i64, payload: Vec<u8>, context: Vec<u8> },
    NoOp { name: u8 },
    Unset,
    Bytes(Vec<u8>),
}

/// The expected value: relative to the current one after everything proposed so far, or any.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Expected {
    Current(i64),
    Exactly(i64),
}

const NAMES: [&str; 6] = ["a", "b", "ab", "", "a ", "A"];

/// Value and payload of the counters that aren't zero without payload.
type Counters = BTreeMap<String, (i64, Vec<u8>)>;

fn normal(mut c: Counters) -> Counters {
    c.retain(|_, v| v.0 != 0 || !v.1.is_empty());
    c
}

fn decode(snapshot: Bytes) -> Result<Counters, String> {
    let s = CounterSnapshot::decode(snapshot).map_err(|e| format!("snapshot: {e}"))?;
    Ok(normal(s.values.into_iter().map(|(k, v)| (k, (v.value, v.payload.to_vec()))).collect()))
}

struct Replica {
    actor: CounterActor,
    leader: Rc<Cell<bool>>,
    applied: usize,
}

struct Entry {
    proposer: usize,
    event: ActorEvent,
    found: i64,
    success: bool,
    new: i64,
    after: Counters,
}

fn new_replica(id: u64, config: &BTreeMap<String, i64>) -> Result<Replica, String> {
    let config = CounterConfig { initial_values: config.clone() };
    let context = Context::new(id, config.encode_to_vec().into());
    let leader = context.leader.clone();
    let mut actor = CounterActor::new();
    actor.on_init(Box::new(context)).map_err(|e| format!("initialization: {e}"))?;
    Ok(Replica { actor, leader, applied: 0 })
}

fn response(command: &ActorCommand) -> Result<CounterResponse, String> {
    let message = AtomicCounterOutMessage::decode(command.header.clone()).map_err(|e| format!("header of an answer: {e}"))?;
    match message.msg {
        Some(atomic_counter_out_message::Msg::CounterResponse(r)) => Ok(r),
        None => Err("an empty answer".to_string()),
    }
}

fn check_answer(entry: &Entry, outcome: EventOutcome) -> Result<(), String> {
    ensure!(outcome.commands.len() == 1, "the proposer gives {} answers", outcome.commands.len());
    let command = &outcome.commands[0];
    ensure!(command.correlation_id == entry.event.correlation_id, "the answer has another correlation id");
    let r = response(command)?;
    let Some(counter_response::Op::CompareAndSwap(swap)) = r.op else {
        return Err(format!("the answer is {r:?}"));
    };
    ensure!(swap.old_value == entry.found, "the answer reports {} but the counter was {}", swap.old_value, entry.found);
    if entry.success {
        ensure!(r.status == CounterStatus::Success as i32, "a successful swap is answered with {r:?}");
        ensure!(swap.new_value == entry.new, "the answer reports the new value {} instead of {}", swap.new_value, entry.new);
    } else {
        ensure!(
            r.status == CounterStatus::InvalidArgumentError as i32,
            "a swap that expected another value than {} is answered with {r:?}",
            entry.found
        );
    }
    Ok(())
}

fn check(case: &Case) -> Outcome {
    let mut replicas = Vec::new();
    for (i, c) in case.configs.iter().enumerate() {
        replicas.push(new_replica(i as u64 + 1, c)?);
    }
    let snapshot = replicas[0].actor.on_save_snapshot().map_err(|e| e.to_string())?;
    let initial: Counters = normal(case.configs[0].iter().map(|(k, v)| (k.clone(), (*v, vec![]))).collect());
    ensure!(decode(snapshot.clone())? == initial, "the first snapshot isn't the configuration");
    for r in &mut replicas[1..] {
        r.actor.on_load_snapshot(snapshot.clone()).map_err(|e| e.to_string())?;
    }
    let n = replicas.len();
    let mut log: Vec<Entry> = Vec::new();
    let (mut requests, mut correlation_id) = (0u64, 0u64);
    let mut info = Info::default();
    let (mut won, mut lost, mut rejected, mut snapshots) = (0, 0, 0, 0);
    let mut steps = case.steps.clone();
    for i in 0..n {
        for _ in 0..steps.len() / 200 + 1 {
            steps.push(Step::Apply { replica: i as u8, count: 200 });
        }
    }
    for step in &steps {
        match step {
            Step::Request { replica, leader, header } => {
                let at = *replica as usize % n;
                // Zero comes first.
                correlation_id = requests.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                requests += 1;
                let current = log.last().map(|e| &e.after).unwrap_or(&initial);
                let message = |r: CounterRequest| {
                    AtomicCounterInMessage { msg: Some(atomic_counter_in_message::Msg::CounterRequest(r)) }.encode_to_vec()
                };
                let bytes = match header {
                    Header::Swap { name, expected, new, payload, context } => {
                        let name = NAMES[*name as usize % NAMES.len()];
                        let expected_value = match expected {
                            Expected::Current(by) => current.get(name).map(|v| v.0).unwrap_or(0).wrapping_add(*by),
                            Expected::Exactly(v) => *v,
                        };
                        message(CounterRequest {
                            name: name.to_string(),
                            op: Some(counter_request::Op::CompareAndSwap(CounterCompareAndSwapRequest {
                                expected_value,
                                new_value: *new,
                            })),
                            context: context.clone().into(),
                            payload: payload.clone().into(),
                        })
                    }
                    Header::NoOp { name } => {
                        message(CounterRequest { name: NAMES[*name as usize % NAMES.len()].to_string(), ..Default::default() })
                    }
                    Header::Unset => vec![],
                    Header::Bytes(b) => b.clone(),
                };
                let request = match AtomicCounterInMessage::decode(&bytes[..]) {
                    Ok(AtomicCounterInMessage { msg: Some(atomic_counter_in_message::Msg::CounterRequest(r)) }) => Some(r),
                    _ => None,
                };
                let swap = request.as_ref().and_then(|r| match r.op {
                    Some(counter_request::Op::CompareAndSwap(s)) => Some(s),
                    None => None,
                });
                let r = &mut replicas[at];
                r.leader.set(*leader);
                let outcome = r
                    .actor
                    .on_process_command(Some(ActorCommand { correlation_id, header: bytes.into(), payload: Bytes::new() }))
                    .map_err(|e| format!("a request terminates the replica: {e}"))?;
                if let (Some(request), Some(swap), true) = (request, swap, *leader) {
                    ensure!(outcome.commands.is_empty(), "a request is answered before it is replicated");
                    let Some(event) = outcome.event else { return Err("the leader proposes nothing".to_string()) };
                    ensure!(event.correlation_id == correlation_id, "the event has another correlation id");
                    let found = current.get(&request.name).map(|v| v.0).unwrap_or(0);
                    let success = found == swap.expected_value;
                    let mut after = current.clone();
                    if success {
                        after.insert(request.name.clone(), (swap.new_value, request.payload.to_vec()));
                    }
                    log.push(Entry { proposer: at, event, found, success, new: swap.new_value, after: normal(after) });
                } else {
                    rejected += 1;
                    ensure!(outcome.event.is_none(), "a request is proposed: leader {leader}, swap {swap:?}");
                    ensure!(outcome.commands.len() == 1, "{} answers to a rejected request", outcome.commands.len());
                    ensure!(outcome.commands[0].correlation_id == correlation_id, "a rejection has another correlation id");
                    let r = response(&outcome.commands[0])?;
                    let invalid = r.status == CounterStatus::InvalidOperationError as i32;
                    let refused = r.status == CounterStatus::Rejected as i32;
                    let ok = match (*leader, swap.is_some()) {
                        (true, _) => invalid,
                        (false, true) => refused,
                        (false, false) => invalid || refused,
                    };
                    ensure!(ok, "leader {leader}, swap {swap:?}: answered with {r:?}");
                }
            }
            Step::Apply { replica, count } => {
                let at = *replica as usize % n;
                for _ in 0..*count {
                    let r = &mut replicas[at];
                    let Some(entry) = log.get(r.applied) else { break };
                    let owned = entry.proposer == at;
                    let outcome = r
                        .actor
                        .on_apply_event(ActorEventContext { index: r.applied as u64 + 3, owned }, entry.event.clone())
                        .map_err(|e| format!("a committed request terminates the replica: {e}"))?;
                    r.applied += 1;
                    if owned {
                        check_answer(entry, outcome)?;
                        won += entry.success as usize;
                        lost += !entry.success as usize;
                    } else {
                        ensure!(outcome.commands.is_empty(), "a replica answers a request of another");
                    }
                    let state = decode(r.actor.on_save_snapshot().map_err(|e| e.to_string())?)?;
                    ensure!(state == entry.after, "a replica holds {state:?} instead of {:?}", entry.after);
                }
            }
            Step::Snapshot { from, to, fresh } => {
                let (from, to) = (*from as usize % n, *to as usize % n);
                let applied = replicas[from].applied;
                if !fresh && (from == to || replicas[to].applied > applied) {
                    continue;
                }
                let snapshot = replicas[from].actor.on_save_snapshot().map_err(|e| e.to_string())?;
                let expected = decode(snapshot.clone())?;
                if *fresh {
                    replicas[to] = new_replica(to as u64 + 1, &case.configs[to])?;
                }
                let r = &mut replicas[to];
                r.actor.on_load_snapshot(snapshot).map_err(|e| format!("loading a snapshot: {e}"))?;
                r.applied = applied;
                let state = decode(r.actor.on_save_snapshot().map_err(|e| e.to_string())?)?;
                ensure!(state == expected, "a snapshot of {expected:?} is loaded as {state:?}");
                snapshots += (applied > 0) as usize;
            }
            Step::Tick { replica } => {
                let outcome = replicas[*replica as usize % n]
                    .actor
                    .on_process_command(None)
                    .map_err(|e| format!("a tick terminates the replica: {e}"))?;
                ensure!(outcome.event.is_none() && outcome.commands.is_empty(), "a tick has effects");
            }
        }
    }
    info.nontrivial = won > 0 && lost > 0;
    info.label(n > 1, "replicas").label(rejected > 0, "rejected").label(snapshots > 0, "snapshot");
    Ok(info)
}

fn value() -> BoxedStrategy<i64> {
    prop_oneof![6 => -2..3i64, 1 => any::<i64>(), 1 => Just(i64::MIN), 1 => Just(i64::MAX)].boxed()
}

fn case() -> BoxedStrategy<Case> {
    let config = proptest::collection::btree_map(
        proptest::sample::select(NAMES.to_vec()).prop_map(str::to_string),
        value(),
        0..3,
    );
    let bytes = |n: usize| proptest::collection::vec(any::<u8>(), 0..n);
    let expected = prop_oneof![6 => Just(Expected::Current(0)), 2 => (-1..2i64).prop_map(Expected::Current), 3 => value().prop_map(Expected::Exactly)];
    let header = prop_oneof![
        20 => (prop_oneof![6 => 0..4u8, 1 => 0..6u8], expected, value(), bytes(4), bytes(3))
            .prop_map(|(name, expected, new, payload, context)| Header::Swap { name, expected, new, payload, context }),
        1 => (0..6u8).prop_map(|name| Header::NoOp { name }),
        1 => Just(Header::Unset),
        1 => bytes(10).prop_map(Header::Bytes),
    ];
    let step = prop_oneof![
        8 => (0..4u8, proptest::bool::weighted(0.9), header)
            .prop_map(|(replica, leader, header)| Step::Request { replica, leader, header }),
        4 => (0..4u8, 1..4u8).prop_map(|(replica, count)| Step::Apply { replica, count }),
        2 => (0..4u8, 0..4u8, any::<bool>()).prop_map(|(from, to, fresh)| Step::Snapshot { from, to, fresh }),
        1 => (0..4u8).prop_map(|replica| Step::Tick { replica }),
    ];
    (proptest::collection::vec(config, 1..4), proptest::collection::vec(step, 1..30))
        .prop_map(|(configs, steps)| Case { configs, steps })
        .boxed()
}

pub fn facets() -> Vec<Facet> {
    vec![facet("C20", "history", "a swap succeeds and another one fails", 120_000, 6_000_000, case, check)]
}
