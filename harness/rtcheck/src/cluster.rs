//! C23: replicas agree on the events applied, whatever the network does.

use crate::common::pick;
use crate::sim::{Config, Packet, Sim};
use pbt::proptest::prelude::*;
use pbt::{ensure, facet, Facet, Info, Outcome};
use serde::{Deserialize, Serialize};
use tcp_proto::runtime::endpoint::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Shape {
    pub seed: u64,
    pub election: u8,
    pub heartbeat: u8,
    pub batch: u8,
    pub snapshot_count: u8,
    pub chunk_size: u8,
    pub window: u8,
    pub retry: u8,
    pub eager: bool,
    pub replicas: u8,
}

impl Shape {
    pub fn config(&self) -> Config {
        let heartbeat_tick = self.heartbeat as u32 % 3 + 1;
        Config {
            // The ratio that Raft recommends, and that the timeout of handshakes presumes.
            election_tick: heartbeat_tick * 10 + self.election as u32 % 16,
            heartbeat_tick,
            max_size_per_msg: [0, 1, 60, 1 << 20][self.batch as usize % 4],
            snapshot_count: self.snapshot_count as u64 % 20 + 1,
            chunk_size: self.chunk_size as u64 % 200 + 30,
            max_pending_chunks: self.window as u32 % 4 + 1,
            handshake_retry_tick: self.retry as u64 % 6,
            eager: self.eager,
        }
    }

    /// A cluster of the shape's size.
    pub fn boot(&self) -> Result<Sim, String> {
        let mut sim = Sim::new(self.config(), self.seed);
        let first = sim.start(true)?;
        sim.rounds(3, 1)?;
        for _ in 0..400 {
            if sim.leader() == Some(first) && sim.members.1.contains(&first) {
                break;
            }
            sim.rounds(1, 1)?;
        }
        ensure!(sim.leader() == Some(first), "a single replica doesn't come to lead");
        for _ in 1..self.replicas.clamp(1, 5) {
            join(&mut sim)?;
        }
        sim.rounds(4 * sim.config.heartbeat_tick as u64 + 4, 3)?;
        sim.outdated.clear();
        Ok(sim)
    }
}

pub fn join(sim: &mut Sim) -> Result<(), String> {
    let id = sim.start(false)?;
    for _ in 0..100 {
        let Some(leader) = sim.leader() else {
            sim.rounds(1, 3)?;
            continue;
        };
        let status = sim.change(leader, id, true)?;
        for _ in 0..100 {
            sim.rounds(1, 3)?;
            if sim.unresolved.is_empty() {
                break;
            }
        }
        if sim.members.1.contains(&id) {
            return Ok(());
        }
        let _ = status;
    }
    Err("a replica can't be added to the cluster in undisturbed time".to_string())
}

pub fn shape(replicas: std::ops::RangeInclusive<u8>) -> impl Strategy<Value = Shape> {
    (
        any::<u16>(),
        0u8..16,
        0u8..3,
        any::<u8>(),
        0u8..20,
        any::<u8>(),
        0u8..4,
        0u8..6,
        any::<bool>(),
        replicas,
    )
        .prop_map(
            |(seed, election, heartbeat, batch, snapshot_count, chunk_size, window, retry, eager, replicas)| Shape {
                seed: seed as u64,
                election,
                heartbeat,
                batch,
                snapshot_count,
                chunk_size,
                window,
                retry,
                eager,
                replicas,
            },
        )
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    steps: Vec<Step>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Step {
    /// Time and messages pass undisturbed.
    Rounds { n: u8 },
    /// Time passes for one replica.
    Tick { replica: u8, n: u8 },
    /// Some of the messages in the network are delivered, starting anywhere.
    Deliver { at: u16, n: u8 },
    Drop { at: u16, n: u8 },
    Duplicate { at: u16 },
    Reverse,
    Command { replica: u8, size: u8, n: u8 },
    /// Replicas of the bits can't reach the others.
    Cut { bits: u8 },
    Heal,
    Crash { replica: u8 },
    Stop { replica: u8 },
    Lameduck { replica: u8 },
    Add { at: u8 },
    AddAgain { at: u8, replica: u8 },
    Remove { at: u8, replica: u8 },
    Check { replica: u8 },
    LostChunk { at: u16 },
    /// One replica can't reach the others.
    Isolate { replica: u8 },
    /// The leader crashes, winds down or can't reach the others.
    Depose { how: u8 },
}

#[derive(Default)]
pub struct Seen {
    pub crashed: bool,
    pub cut: bool,
    pub dropped: bool,
    pub replayed: bool,
    pub added: bool,
    pub removed: bool,
}

/// Leaders are addressed more often than not.
fn target(sim: &Sim, at: u8) -> Option<u64> {
    let live = sim.live();
    if at % 3 != 0 {
        if let Some(leader) = sim.leader() {
            return Some(leader);
        }
    }
    pick(&live, at as u16 / 3).copied()
}

fn isolate(sim: &mut Sim, id: u64) {
    for other in sim.live() {
        if other != id {
            sim.cut.insert((id.min(other), id.max(other)));
        }
    }
}

pub fn apply(sim: &mut Sim, step: &Step, seen: &mut Seen) -> Result<(), String> {
    let live = sim.live();
    match step {
        Step::Rounds { n } => sim.rounds(*n as u64, 2)?,
        Step::Tick { replica, n } => {
            if let Some(id) = pick(&live, *replica as u16) {
                for _ in 0..*n {
                    sim.now += crate::sim::TICK;
                    sim.expect_ok(*id, None)?;
                }
            }
        }
        Step::Deliver { at, n } => {
            for _ in 0..*n {
                if sim.net.is_empty() {
                    break;
                }
                let at = *at as usize % sim.net.len();
                let p = sim.net.remove(at).unwrap();
                sim.deliver(p)?;
            }
        }
        Step::Drop { at, n } => {
            for _ in 0..*n {
                if !sim.net.is_empty() {
                    let at = *at as usize % sim.net.len();
                    sim.net.remove(at);
                    seen.dropped = true;
                }
            }
        }
        Step::Duplicate { at } => {
            if !sim.net.is_empty() {
                let p: Packet = sim.net[*at as usize % sim.net.len()].clone();
                sim.net.push_back(p);
                seen.replayed = true;
            }
        }
        Step::Reverse => sim.net.make_contiguous().reverse(),
        Step::Command { replica, size, n } => {
            for _ in 0..*n {
                if let Some(id) = target(sim, *replica) {
                    sim.command(id, *size as usize)?;
                }
            }
        }
        Step::Cut { bits } => {
            let side = |id: &u64| bits >> (id % 8) & 1 == 1;
            for a in &live {
                for b in &live {
                    if a < b && side(a) != side(b) {
                        sim.cut.insert((*a, *b));
                        seen.cut = true;
                    }
                }
            }
        }
        Step::Heal => sim.cut.clear(),
        Step::Crash { replica } => {
            if let Some(id) = pick(&live, *replica as u16) {
                if sim.majority(&|r| r != *id && sim.takes_part(r)) {
                    sim.nodes.get_mut(id).unwrap().alive = false;
                    seen.crashed = true;
                }
            }
        }
        Step::Stop { replica } => {
            if let Some(id) = pick(&live, *replica as u16) {
                if sim.majority(&|r| r != *id && sim.takes_part(r)) {
                    sim.expect_ok(*id, Some(in_message::Msg::StopReplica(StopReplicaRequest {})))?;
                    sim.nodes.get_mut(id).unwrap().stopped = true;
                }
            }
        }
        Step::Lameduck { replica } => {
            if let Some(id) = pick(&live, *replica as u16) {
                if sim.majority(&|r| r != *id && sim.takes_part(r)) {
                    sim.expect_ok(*id, Some(in_message::Msg::EnterLameduckMode(EnterLameduckMode {})))?;
                    sim.nodes.get_mut(id).unwrap().lameduck = true;
                }
            }
        }
        Step::Add { at } => {
            if live.len() < 7 && sim.unresolved.len() < 2 {
                if let Some(at) = target(sim, *at) {
                    let id = sim.start(false)?;
                    sim.change(at, id, true)?;
                    seen.added = true;
                }
            }
        }
        Step::AddAgain { at, replica } => {
            if sim.unresolved.len() < 2 {
                if let (Some(at), Some(id)) = (target(sim, *at), pick(&live, *replica as u16)) {
                    sim.change(at, *id, true)?;
                }
            }
        }
        Step::Remove { at, replica } => {
            if let (Some(at), Some(id)) = (target(sim, *at), pick(&live, *replica as u16)) {
                let others = |r: u64| sim.takes_part(r);
                let after: Vec<_> = sim
                    .plausible()
                    .into_iter()
                    .map(|mut c| {
                        c.remove(id);
                        c
                    })
                    .collect();
                // A majority of whatever the configuration becomes has to go on.
                if sim.unresolved.len() < 2
                    && after.iter().all(|c| c.iter().filter(|r| others(**r)).count() * 2 > c.len())
                {
                    sim.change(at, *id, false)?;
                    seen.removed = true;
                }
            }
        }
        Step::Check { replica } => {
            if let Some(id) = pick(&live, *replica as u16) {
                sim.expect_ok(*id, Some(in_message::Msg::CheckCluster(CheckClusterRequest {})))?;
                sim.expect_ok(*id, Some(in_message::Msg::GetReplicaState(GetReplicaStateRequest {})))?;
            }
        }
        Step::Isolate { replica } => {
            if let Some(id) = pick(&live, *replica as u16) {
                isolate(sim, *id);
                seen.cut = true;
            }
        }
        Step::Depose { how } => {
            if let Some(id) = sim.leader() {
                let others = sim.majority(&|r| r != id && sim.takes_part(r));
                match how % 4 {
                    0 if others => {
                        sim.nodes.get_mut(&id).unwrap().alive = false;
                        seen.crashed = true;
                    }
                    1 if others => {
                        sim.expect_ok(id, Some(in_message::Msg::EnterLameduckMode(EnterLameduckMode {})))?;
                        sim.nodes.get_mut(&id).unwrap().lameduck = true;
                    }
                    _ => {
                        isolate(sim, id);
                        seen.cut = true;
                    }
                }
            }
        }
        Step::LostChunk { at } => {
            let chunks: Vec<_> = sim.chunks.keys().copied().collect();
            if let Some((sender, delivery_id)) = pick(&chunks, *at) {
                sim.chunk_failed(*sender, *delivery_id)?;
            }
        }
    }
    Ok(())
}

pub fn step() -> impl Strategy<Value = Step> {
    prop_oneof![
        8 => (1u8..6).prop_map(|n| Step::Rounds { n }),
        1 => (6u8..40).prop_map(|n| Step::Rounds { n }),
        3 => (any::<u8>(), 1u8..30).prop_map(|(replica, n)| Step::Tick { replica, n }),
        6 => (any::<u16>(), 1u8..12).prop_map(|(at, n)| Step::Deliver { at, n }),
        2 => (any::<u16>(), 1u8..8).prop_map(|(at, n)| Step::Drop { at, n }),
        2 => any::<u16>().prop_map(|at| Step::Duplicate { at }),
        1 => Just(Step::Reverse),
        8 => (any::<u8>(), 0u8..100, 1u8..6).prop_map(|(replica, size, n)| Step::Command { replica, size, n }),
        1 => any::<u8>().prop_map(|bits| Step::Cut { bits }),
        1 => Just(Step::Heal),
        1 => any::<u8>().prop_map(|replica| Step::Crash { replica }),
        1 => any::<u8>().prop_map(|replica| Step::Stop { replica }),
        1 => any::<u8>().prop_map(|replica| Step::Lameduck { replica }),
        2 => any::<u8>().prop_map(|at| Step::Add { at }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(at, replica)| Step::AddAgain { at, replica }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(at, replica)| Step::Remove { at, replica }),
        1 => any::<u8>().prop_map(|replica| Step::Check { replica }),
        1 => any::<u16>().prop_map(|at| Step::LostChunk { at }),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    (shape(1..=4), prop::collection::vec(step(), 1..60)).prop_map(|(shape, steps)| Case { shape, steps })
}

/// Some replica is left behind while things change; it catches up, and another replica comes to lead.
fn episode() -> impl Strategy<Value = Vec<Step>> {
    (
        prop::option::weighted(0.8, any::<u8>()),
        prop_oneof![
            2 => Just(vec![]),
            2 => any::<u8>().prop_map(|at| vec![Step::Add { at }]),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(at, replica)| vec![Step::Remove { at, replica }]),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(at, replica)| vec![Step::Add { at }, Step::Rounds { n: 12 }, Step::Remove { at, replica }]),
        ],
        prop::collection::vec((1u8..6, 0u8..60, prop_oneof![2 => 1u8..6, 1 => 6u8..40]), 0..6),
        prop::option::weighted(0.8, 4u8..60),
        prop::option::weighted(0.8, any::<u8>()),
        prop_oneof![1 => 1u8..10, 2 => 40u8..120],
        any::<bool>(),
    )
        .prop_map(|(isolate, changes, commands, heal, depose, rounds, heal_after)| {
            let mut steps = vec![];
            steps.extend(isolate.map(|replica| Step::Isolate { replica }));
            steps.extend(changes);
            for (n, size, rounds) in commands {
                steps.push(Step::Command { replica: 1, size, n });
                steps.push(Step::Rounds { n: rounds });
            }
            if let Some(n) = heal {
                steps.push(Step::Heal);
                steps.push(Step::Rounds { n });
            }
            steps.extend(depose.map(|how| Step::Depose { how }));
            steps.push(Step::Rounds { n: rounds });
            if heal_after {
                steps.push(Step::Heal);
            }
            steps
        })
}

fn episodes() -> impl Strategy<Value = Case> {
    (shape(3..=5), prop::collection::vec(episode(), 1..5))
        .prop_map(|(shape, episodes)| Case { shape, steps: episodes.concat() })
}

fn check(case: &Case) -> Outcome {
    let mut sim = case.shape.boot()?;
    let mut seen = Seen::default();
    for step in &case.steps {
        apply(&mut sim, step, &mut seen)?;
    }
    let settles = sim.majority(&|r| sim.takes_part(r));
    let settled = settles && sim.settle()?;
    if settled {
        sim.check_acknowledged()?;
    }
    let loads = sim.nodes.values().any(|n| n.log.borrow().loads > 0 && !n.log.borrow().history.is_empty());
    let events = sim.world.borrow().canonical.len();
    let mut info = Info::default();
    info.nontrivial = events > 3 && sim.nodes.len() > 1;
    info.label(sim.leaders.len() > 1, "leader changes");
    info.label(seen.crashed, "crash");
    info.label(seen.cut, "partition");
    info.label(seen.dropped, "lost messages");
    info.label(seen.replayed, "replayed messages");
    info.label(seen.added, "replica added later");
    info.label(seen.removed, "replica removed");
    info.label(loads, "snapshot loaded");
    info.label(settled, "comes to the same state");
    info.label(settles && !settled, "stuck in a higher term before joining");
    Ok(info)
}

/// C25: nothing that the replicas of a cluster tell each other leaves in the clear. What else goes
/// wrong in the cluster isn't judged here.
fn check_sealed(case: &Case) -> Outcome {
    crate::sim::LEAK.with(|l| l.borrow_mut().take());
    let outcome = std::panic::catch_unwind(|| {
        let mut sim = case.shape.boot()?;
        let mut seen = Seen::default();
        for step in &case.steps {
            apply(&mut sim, step, &mut seen)?;
        }
        let snapshot = sim.nodes.values().any(|n| n.log.borrow().loads > 0);
        Ok::<_, String>((sim.nodes.len() > 1 && sim.world.borrow().canonical.len() > 3, snapshot))
    });
    if let Some(leak) = crate::sim::LEAK.with(|l| l.borrow_mut().take()) {
        return Err(format!("{leak} is sent in the clear"));
    }
    let (events, snapshot) = outcome.unwrap_or(Ok((false, false))).unwrap_or((false, false));
    let mut info = Info::new(events);
    info.label(snapshot, "snapshot loaded");
    Ok(info)
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "C25",
        "cluster",
        "more than one replica and more than three events applied",
        8_000,
        300_000,
        case,
        check_sealed,
    ), facet(
        "C23",
        "cluster",
        "more than one replica and more than three events applied",
        30_000,
        1_500_000,
        case,
        check,
    ), facet(
        "C23",
        "left-behind",
        "more than one replica and more than three events applied",
        25_000,
        800_000,
        episodes,
        check,
    )]
}
