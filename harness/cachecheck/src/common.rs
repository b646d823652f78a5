//! Pieces shared by the checks: tables on the hash ring, the tablet store as the checks'
//! reference model, hashing.

use prost::bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use slog::{o, Discard, Logger};
use std::collections::BTreeMap;
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, tablet_op_result::OpResult, CheckTabletResult, ListTabletResult, TabletMetadata,
    TabletOp, TabletOpResult, TabletOpStatus, TabletsRequestStatus, TabletsResponse,
    UpdateTabletResult,
};

pub fn logger() -> Logger {
    Logger::root(Discard, o!())
}

pub fn sha(bytes: &[u8]) -> Bytes {
    Sha256::digest(bytes).to_vec().into()
}

/// A point of the hash ring described relative to what matters on it.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Point {
    Raw(u32),
    /// Start of the region with the given index, moved by a few.
    Region(u16, i8),
    /// The tablet with the given index, moved by a few.
    Tablet(u8, i8),
}

pub fn point() -> impl Strategy<Value = Point> {
    prop_oneof![
        3 => any::<u32>().prop_map(Point::Raw),
        1 => prop_oneof![Just(0u32), Just(1), Just(u32::MAX), Just(u32::MAX - 1)].prop_map(Point::Raw),
        2 => (any::<u16>(), -2i8..=2).prop_map(|(i, d)| Point::Region(i, d)),
        3 => (any::<u8>(), -2i8..=2).prop_map(|(i, d)| Point::Tablet(i, d)),
    ]
}

pub fn place(point: &Point, region_size: u32, tablets: &[u32]) -> u32 {
    match point {
        Point::Raw(v) => *v,
        Point::Region(i, d) => {
            let regions = (u32::MAX / region_size) as u64 + 1;
            ((*i as u64 % regions) as u32 * region_size).wrapping_add(*d as i32 as u32)
        }
        Point::Tablet(i, d) => {
            if tablets.is_empty() {
                return *d as i32 as u32;
            }
            tablets[*i as usize % tablets.len()].wrapping_add(*d as i32 as u32)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TableSpec {
    pub region_size: u32,
    pub tablets: Vec<Point>,
}

pub fn table_spec(max_tablets: usize) -> impl Strategy<Value = TableSpec> {
    (
        prop_oneof![
            3 => (1u32 << 28)..=u32::MAX,
            2 => (1u32 << 26)..(1u32 << 30),
            2 => (26u32..32).prop_map(|b| 1 << b),
            1 => Just(u32::MAX),
            1 => (22u32..32).prop_map(|b| (1 << b) - 1),
            1 => prop_oneof![Just(u32::MAX / 3), Just(u32::MAX / 5), Just(u32::MAX / 17), Just(u32::MAX / 2)],
            1 => (1u32 << 21)..(1u32 << 26),
        ],
        prop::collection::vec(point(), 1..=max_tablets),
    )
        .prop_map(|(region_size, tablets)| TableSpec { region_size, tablets })
}

pub fn table_name(i: usize) -> String {
    ["alpha", "beta", "gamma"][i % 3].to_string()
}

impl TableSpec {
    pub fn tablet_ids(&self) -> Vec<u32> {
        let mut ids: Vec<u32> = self.tablets.iter().map(|p| place(p, self.region_size, &[])).collect();
        ids.sort();
        ids.dedup();
        ids
    }
}

/// The tablet owning a key: the first at or after it going clockwise.
pub fn owner(ids: &[u32], key: u32) -> u32 {
    *ids.iter().find(|id| **id >= key).unwrap_or(&ids[0])
}

/// Tablets owning the keys of an arc, as the tablet store lists them.
pub fn list_arc(ids: &[u32], from: u32, to: u32) -> Vec<u32> {
    let mut out = Vec::new();
    let arcs = if from < to { vec![(from, to)] } else { vec![(from, u32::MAX), (0, to)] };
    for (from, to) in arcs {
        let mut covered = false;
        for id in ids.iter().filter(|id| **id >= from) {
            if !out.contains(id) {
                out.push(*id);
            }
            if *id >= to {
                covered = true;
                break;
            }
        }
        if !covered && !out.contains(&ids[0]) {
            out.push(ids[0]);
        }
    }
    out
}

/// Whether the arc, bounds included, holds the key.
pub fn in_arc(from: u32, to: u32, key: u32) -> bool {
    if from < to { from <= key && key <= to } else { key >= from || key <= to }
}

/// Reference model of the tablet store: compare-and-swap of tablet metadata, all or nothing.
#[derive(Clone, Default, Debug)]
pub struct ModelStore {
    /// Table name to tablet id to all its versions, the last is current.
    pub tables: BTreeMap<String, BTreeMap<u32, Vec<TabletMetadata>>>,
    /// Ids of the tablets of each table in order.
    pub ids: BTreeMap<String, Vec<u32>>,
    /// Number of commits executed.
    pub commits: u64,
}

impl ModelStore {
    pub fn create(specs: &[TableSpec]) -> Self {
        let mut store = ModelStore::default();
        for (i, spec) in specs.iter().enumerate() {
            let ids = spec.tablet_ids();
            store.tables.insert(
                table_name(i),
                ids.iter()
                    .map(|id| (*id, vec![TabletMetadata { tablet_id: *id, ..Default::default() }]))
                    .collect(),
            );
            store.ids.insert(table_name(i), ids);
        }
        store
    }

    pub fn current(&self, table: &str, id: u32) -> &TabletMetadata {
        self.tables[table][&id].last().unwrap()
    }

    /// Metadata with which the tablet had the given version.
    pub fn at_version(&self, table: &str, id: u32, version: u32) -> Option<&TabletMetadata> {
        self.tables.get(table)?.get(&id)?.iter().find(|m| m.tablet_version == version)
    }

    fn prepare(&self, op: &TabletOp) -> TabletOpResult {
        let mut result = TabletOpResult {
            table_name: op.table_name.clone(),
            status: TabletOpStatus::Invalid.into(),
            op_result: None,
        };
        let (Some(table), Some(op)) = (self.tables.get(&op.table_name), &op.op) else {
            return result;
        };
        result.status = TabletOpStatus::Failed.into();
        match op {
            Op::ListTablet(list) => {
                result.status = TabletOpStatus::Succeeded.into();
                result.op_result = Some(OpResult::ListTablet(ListTabletResult {
                    key_hash_from: list.key_hash_from,
                    key_hash_to: list.key_hash_to,
                    tablets: list_arc(&self.ids[&result.table_name], list.key_hash_from, list.key_hash_to)
                        .into_iter()
                        .map(|id| table[&id].last().unwrap().clone())
                        .collect(),
                }));
            }
            Op::CheckTablet(check) => {
                let mut r = CheckTabletResult::default();
                if let Some(existing) = table.get(&check.tablet_id).and_then(|h| h.last()) {
                    if existing.tablet_version == check.tablet_version {
                        result.status = TabletOpStatus::Succeeded.into();
                    } else {
                        r.existing_tablet = Some(existing.clone());
                    }
                }
                result.op_result = Some(OpResult::CheckTablet(r));
            }
            Op::UpdateTablet(update) => {
                let mut r = UpdateTabletResult::default();
                if let Some(m) = &update.tablet_metadata {
                    if let Some(existing) = table.get(&m.tablet_id).and_then(|h| h.last()) {
                        if Some(m.tablet_version) == existing.tablet_version.checked_add(1) {
                            result.status = TabletOpStatus::Succeeded.into();
                        }
                        r.existing_tablet = Some(existing.clone());
                    }
                }
                result.op_result = Some(OpResult::UpdateTablet(r));
            }
            Op::AddTablet(_) | Op::RemoveTablet(_) => result.status = TabletOpStatus::Invalid.into(),
        }
        result
    }

    /// Executes a request, returns the reply and whether it committed.
    pub fn execute(&mut self, ops: &[TabletOp]) -> (TabletsResponse, bool) {
        let results: Vec<TabletOpResult> = ops.iter().map(|op| self.prepare(op)).collect();
        let all = results.iter().all(|r| r.status == TabletOpStatus::Succeeded as i32);
        if all {
            for op in ops {
                if let Some(Op::UpdateTablet(update)) = &op.op {
                    let m = update.tablet_metadata.clone().unwrap();
                    self.tables.get_mut(&op.table_name).unwrap().get_mut(&m.tablet_id).unwrap().push(m);
                }
            }
            self.commits += 1;
        }
        let status = if all { TabletsRequestStatus::Succeeded } else { TabletsRequestStatus::Failed };
        (TabletsResponse { status: status.into(), tablet_results: results }, all)
    }
}

pub fn is_list(ops: &[TabletOp]) -> bool {
    ops.iter().any(|op| matches!(op.op, Some(Op::ListTablet(_))))
}
