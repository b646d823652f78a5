//! C21: the log storage of a replica against a model of the log.

use crate::common::logger;
use bytes::Bytes;
use pbt::proptest::prelude::*;
use pbt::{ensure, facet, Facet, Info, Outcome};
use prost::Message;
use raft::eraftpb::{ConfState, Entry, HardState, Snapshot, SnapshotMetadata};
use raft::{Error, GetEntriesContext, Storage, StorageError};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use tcp_runtime::consensus::Store;
use tcp_runtime::storage::MemoryStorage;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    max_diff: u64,
    steps: Vec<Step>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    /// Appends entries after dropping a number of the last ones.
    Append { overwrite: u8, term_by: u8, sizes: Vec<u8> },
    HardState { term_by: u8, vote: u8, commit: u8 },
    /// A snapshot at a position of the log counted from the last snapshot.
    Create { at: i8, voters: u8, learners: u8, size: u8 },
    /// A snapshot of a peer at a position counted from the last snapshot or the end of the log.
    /// Its term may be older than that of the replica.
    Apply { from_end: bool, by: i8, term_by: u8, #[serde(default)] term_back: u8, voters: u8, size: u8 },
    Read { low: i8, len: u8, size: Size },
    Snapshot { peer: u8, by: i8 },
    Should { by: i8, voters: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Size {
    No,
    Exactly(u16),
    /// The size of a number of the entries and a bit.
    Entries { count: u8, by: i8 },
}

struct Model {
    snapshot: Snapshot,
    log: BTreeMap<u64, Entry>,
    hard: HardState,
    term: u64,
    stamp: u64,
    /// Latest snapshot asked for by each peer and not given, and all such.
    pending: BTreeMap<u64, u64>,
    maybe_pending: BTreeSet<(u64, u64)>,
    first: u64,
}

fn conf(voters: u8, learners: u8) -> ConfState {
    let ids = |m: u8| (0..8u64).filter(|i| m >> i & 1 == 1).map(|i| i + 1).collect::<Vec<_>>();
    ConfState { voters: ids(voters), learners: ids(learners & !voters), ..Default::default() }
}

fn contains(conf: &ConfState, peer: u64) -> bool {
    conf.voters.contains(&peer) || conf.learners.contains(&peer)
}

impl Model {
    fn snapshot_index(&self) -> u64 {
        self.snapshot.metadata.as_ref().unwrap().index
    }
    fn snapshot_term(&self) -> u64 {
        self.snapshot.metadata.as_ref().unwrap().term
    }
    fn conf(&self) -> &ConfState {
        self.snapshot.metadata.as_ref().unwrap().conf_state.as_ref().unwrap()
    }
    fn last(&self) -> u64 {
        self.log.keys().next_back().copied().unwrap_or(0).max(self.snapshot_index())
    }
    fn data(&mut self, size: u8) -> Vec<u8> {
        self.stamp += 1;
        let mut d = self.stamp.to_le_bytes()[..3].to_vec();
        d.resize(size as usize % 12, 7);
        d
    }
    fn took_snapshot(&mut self, snapshot: Snapshot) {
        self.snapshot = snapshot;
        let (index, conf) = (self.snapshot_index(), self.conf().clone());
        let ok = |p: u64, i: u64| index >= i && contains(&conf, p);
        self.pending.retain(|p, i| !ok(*p, *i));
        self.maybe_pending.retain(|(p, i)| !ok(*p, *i));
    }
}

fn store_error(e: &Error) -> Option<&StorageError> {
    match e {
        Error::Store(e) => Some(e),
        _ => None,
    }
}

/// Compares everything that can be read with the model.
fn compare(s: &MemoryStorage, m: &mut Model) -> Result<(), String> {
    let first = s.first_index().map_err(|e| format!("first index: {e}"))?;
    let last = s.last_index().map_err(|e| format!("last index: {e}"))?;
    ensure!(last == m.last(), "the last index is {last} instead of {}", m.last());
    ensure!(first <= m.snapshot_index() + 1, "the log starts at {first} but the snapshot is at {}", m.snapshot_index());
    ensure!(first >= m.first, "the first index moved back from {} to {first}", m.first);
    m.first = first;
    let state = s.initial_state().map_err(|e| format!("initial state: {e}"))?;
    ensure!(state.hard_state == m.hard, "the hard state is {:?} instead of {:?}", state.hard_state, m.hard);
    ensure!(&state.conf_state == m.conf(), "the configuration is {:?} instead of {:?}", state.conf_state, m.conf());
    ensure!(s.latest_snapshot_size() == m.snapshot.data.len() as u64, "the snapshot size is {}", s.latest_snapshot_size());
    for i in m.snapshot_index().saturating_sub(3)..=last + 2 {
        let term = s.term(i);
        if i == m.snapshot_index() {
            ensure!(term == Ok(m.snapshot_term()), "term at the snapshot {i}: {term:?}");
        } else if i > last {
            ensure!(term == Err(Error::Store(StorageError::Unavailable)), "term at {i} after the end {last}: {term:?}");
        } else if i < first {
            ensure!(term == Err(Error::Store(StorageError::Compacted)), "term at the compacted {i}: {term:?}");
        } else {
            ensure!(term == Ok(m.log[&i].term), "term at {i}: {term:?} instead of {}", m.log[&i].term);
        }
    }
    if first <= last {
        let got = s.entries(first, last + 1, None, GetEntriesContext::empty(false)).map_err(|e| format!("reading all: {e}"))?;
        let expected: Vec<Entry> = m.log.range(first..).map(|(_, e)| e.clone()).collect();
        ensure!(got == expected, "the log is {got:?} instead of {expected:?}");
    }
    Ok(())
}

fn check(case: &Case) -> Outcome {
    let mut s = MemoryStorage::new(logger(), case.max_diff);
    let mut m = Model {
        snapshot: Snapshot {
            metadata: Some(SnapshotMetadata { index: 0, term: 0, conf_state: Some(ConfState::default()) }),
            ..Default::default()
        },
        log: BTreeMap::new(),
        hard: HardState::default(),
        term: 0,
        stamp: 0,
        pending: BTreeMap::new(),
        maybe_pending: BTreeSet::new(),
        first: 0,
    };
    let (mut overwritten, mut created, mut applied, mut refused, mut given, mut limited) = (0, 0, 0, 0, 0, 0);
    compare(&s, &mut m)?;
    for step in &case.steps {
        match step {
            Step::Append { overwrite, term_by, sizes } => {
                let keep = (*overwrite as u64).min(m.last().saturating_sub(m.snapshot_index()));
                let from = m.last() + 1 - keep;
                m.term += *term_by as u64;
                overwritten += (keep > 0 && !sizes.is_empty()) as usize;
                // Terms of a log never decrease.
                let before = if from - 1 == m.snapshot_index() { m.snapshot_term() } else { m.log[&(from - 1)].term };
                let term = m.term.max(before);
                let mut entries = Vec::new();
                for (i, size) in sizes.iter().enumerate() {
                    let data = m.data(*size);
                    entries.push(Entry { index: from + i as u64, term, data: data.into(), ..Default::default() });
                }
                s.append_entries(&entries).map_err(|e| format!("appending: {e}"))?;
                if !entries.is_empty() {
                    m.log.split_off(&from);
                    m.log.extend(entries.into_iter().map(|e| (e.index, e)));
                }
            }
            Step::HardState { term_by, vote, commit } => {
                m.term += *term_by as u64;
                m.hard = HardState {
                    term: m.term.max(m.hard.term),
                    vote: *vote as u64,
                    commit: (m.snapshot_index() + *commit as u64).min(m.last()),
                    ..Default::default()
                };
                s.set_hard_state(m.hard.clone());
            }
            Step::Create { at, voters, learners, size } => {
                let at = (m.snapshot_index().saturating_add_signed(*at as i64)).min(m.last());
                let data = m.data(*size);
                let conf = conf(*voters, *learners);
                let r = s.create_snapshot(at, conf.clone(), data.clone().into());
                let mut take = r.is_ok();
                if at < m.snapshot_index() {
                    ensure!(
                        r.as_ref().err().and_then(store_error) == Some(&StorageError::SnapshotOutOfDate),
                        "a snapshot at {at} before the last one at {} gives {r:?}",
                        m.snapshot_index()
                    );
                    refused += 1;
                    take = false;
                } else if at > m.snapshot_index() {
                    ensure!(r.is_ok(), "a snapshot at {at} in the log fails: {r:?}");
                    created += 1;
                }
                if take {
                    let term = if at == m.snapshot_index() { m.snapshot_term() } else { m.log[&at].term };
                    m.took_snapshot(Snapshot {
                        metadata: Some(SnapshotMetadata { index: at, term, conf_state: Some(conf) }),
                        data: data.into(),
                    });
                    // What came before needn't be kept any longer.
                }
            }
            Step::Apply { from_end, by, term_by, term_back, voters, size } => {
                let base = if *from_end { m.last() } else { m.snapshot_index() };
                let index = base.saturating_add_signed(*by as i64);
                if index == m.snapshot_index() {
                    // Raft doesn't ask for that.
                    continue;
                }
                m.term += *term_by as u64;
                let term = m.term.saturating_sub(*term_back as u64).max(m.snapshot_term());
                let data = m.data(*size);
                let snapshot = Snapshot {
                    metadata: Some(SnapshotMetadata { index, term, conf_state: Some(conf(*voters, 0)) }),
                    data: data.into(),
                };
                let r = s.apply_snapshot(snapshot.clone());
                if index < m.snapshot_index() {
                    ensure!(
                        r.as_ref().err().and_then(store_error) == Some(&StorageError::SnapshotOutOfDate),
                        "an old snapshot at {index} instead of {} gives {r:?}",
                        m.snapshot_index()
                    );
                    refused += 1;
                } else {
                    ensure!(r.is_ok(), "a new snapshot at {index} after {} is refused: {r:?}", m.snapshot_index());
                    applied += 1;
                    m.log.clear();
                    m.hard.commit = index;
                    m.hard.term = m.hard.term.max(term);
                    m.took_snapshot(snapshot);
                    ensure!(
                        s.first_index() == Ok(index + 1) && s.last_index() == Ok(index),
                        "after a snapshot at {index} the log is {:?} to {:?}",
                        s.first_index(),
                        s.last_index()
                    );
                }
            }
            Step::Read { low, len, size } => {
                let low = m.snapshot_index().saturating_add_signed(*low as i64).max(1);
                let high = (low + *len as u64).min(m.last() + 1);
                let low = low.min(high);
                let wanted: Vec<Entry> = m.log.range(low..high).map(|(_, e)| e.clone()).collect();
                let max = match size {
                    Size::No => None,
                    Size::Exactly(n) => Some(*n as u64),
                    Size::Entries { count, by } => {
                        let sum: u64 = wanted.iter().take(*count as usize).map(|e| e.encoded_len() as u64).sum();
                        Some(sum.saturating_add_signed(*by as i64))
                    }
                };
                let first = s.first_index().map_err(|e| e.to_string())?;
                let r = s.entries(low, high, max, GetEntriesContext::empty(false));
                if low < first {
                    let empty = first > m.last();
                    let e = r.as_ref().err().and_then(store_error);
                    ensure!(
                        e == Some(&StorageError::Compacted) || empty && e == Some(&StorageError::Unavailable),
                        "reading from the compacted {low} gives {r:?}"
                    );
                    refused += 1;
                } else if low == high {
                    ensure!(r.as_ref().map_or(true, |r| r.is_empty()), "reading nothing gives {r:?}");
                } else {
                    let got = r.map_err(|e| format!("reading {low} to {high}: {e}"))?;
                    ensure!(!got.is_empty(), "reading {low} to {high} with limit {max:?} gives nothing");
                    ensure!(wanted.starts_with(&got), "reading {low} to {high} gives {got:?}, not the first of {wanted:?}");
                    let sum = |n: usize| wanted[..n].iter().map(|e| e.encoded_len() as u64).sum::<u64>();
                    if let Some(max) = max {
                        ensure!(got.len() == 1 || sum(got.len()) <= max, "{} bytes are more than {max}", sum(got.len()));
                        if got.len() < wanted.len() {
                            ensure!(sum(got.len() + 1) > max, "one more entry had fitted into {max}");
                            limited += 1;
                        }
                    } else {
                        ensure!(got.len() == wanted.len(), "entries are missing without a limit");
                    }
                }
            }
            Step::Snapshot { peer, by } => {
                let peer = *peer as u64 % 8 + 1;
                let request = m.snapshot_index().saturating_add_signed(*by as i64);
                let r = s.snapshot(request, peer);
                if request <= m.snapshot_index() && contains(m.conf(), peer) {
                    ensure!(r.as_ref() == Ok(&m.snapshot), "the snapshot for {peer} is {r:?} instead of {:?}", m.snapshot);
                    given += 1;
                } else {
                    ensure!(
                        r.as_ref().err().and_then(store_error) == Some(&StorageError::SnapshotTemporarilyUnavailable),
                        "a snapshot at {request} for {peer} isn't there yet: {r:?}"
                    );
                    m.pending.insert(peer, request);
                    m.maybe_pending.insert((peer, request));
                }
            }
            Step::Should { by, voters } => {
                let at = m.snapshot_index().saturating_add_signed(*by as i64);
                let conf = conf(*voters, 0);
                let due = m.snapshot_index() + case.max_diff < at;
                let must = due || m.pending.iter().any(|(p, i)| at >= *i && contains(&conf, *p));
                let may = due || m.maybe_pending.iter().any(|(p, i)| at >= *i && contains(&conf, *p));
                let got = s.should_snapshot(at, &conf);
                ensure!(!must || got, "no snapshot at {at} although it is due: last {}, asked {:?}", m.snapshot_index(), m.pending);
                ensure!(may || !got, "a snapshot at {at} although none is due: last {}", m.snapshot_index());
            }
        }
        compare(&s, &mut m)?;
    }
    let mut info = Info::default();
    info.nontrivial = created > 0 && overwritten > 0;
    info.label(applied > 0, "snapshot of a peer")
        .label(refused > 0, "refused")
        .label(given > 0, "snapshot given")
        .label(limited > 0, "limited");
    let _ = Bytes::new();
    Ok(info)
}

fn case() -> BoxedStrategy<Case> {
    let size = prop_oneof![
        2 => Just(Size::No),
        1 => (0..40u16).prop_map(Size::Exactly),
        4 => (0..5u8, -1..2i8).prop_map(|(count, by)| Size::Entries { count, by }),
    ];
    let step = prop_oneof![
        8 => (prop_oneof![3 => Just(0u8), 2 => 0..5u8], prop_oneof![2 => Just(0u8), 1 => 1..3u8], proptest::collection::vec(any::<u8>(), 0..5))
            .prop_map(|(overwrite, term_by, sizes)| Step::Append { overwrite, term_by, sizes }),
        2 => (0..2u8, 0..4u8, 0..6u8).prop_map(|(term_by, vote, commit)| Step::HardState { term_by, vote, commit }),
        4 => (-2..8i8, any::<u8>(), any::<u8>(), any::<u8>())
            .prop_map(|(at, voters, learners, size)| Step::Create { at, voters, learners, size }),
        2 => (any::<bool>(), -4..6i8, 0..3u8, prop_oneof![2 => Just(0u8), 1 => 1..4u8], any::<u8>(), any::<u8>())
            .prop_map(|(from_end, by, term_by, term_back, voters, size)| Step::Apply { from_end, by, term_by, term_back, voters, size }),
        4 => (-4..6i8, 0..8u8, size).prop_map(|(low, len, size)| Step::Read { low, len, size }),
        3 => (any::<u8>(), -3..6i8).prop_map(|(peer, by)| Step::Snapshot { peer, by }),
        3 => (-2..8i8, any::<u8>()).prop_map(|(by, voters)| Step::Should { by, voters }),
    ];
    (0..6u64, proptest::collection::vec(step, 1..40)).prop_map(|(max_diff, steps)| Case { max_diff, steps }).boxed()
}

pub fn facets() -> Vec<Facet> {
    vec![facet("C21", "storage", "the storage makes a snapshot and a suffix of the log is replaced", 150_000, 8_000_000, case, check)]
}
