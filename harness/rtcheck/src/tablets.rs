//! C16 to C19: the tablet store actor, replicated, against a model of its tables.

use crate::common::{pick, Context};
use bytes::Bytes;
use pbt::proptest::prelude::*;
use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use prost::Message;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tcp_runtime::model::{Actor, ActorCommand, ActorEvent, ActorEventContext, EventOutcome};
use tcp_tablet_store_service::actor::{RandomTabletConfigurator, TabletConfigurator, TabletStoreActor};
use tcp_tablet_store_service::apps::tablet_store::service::*;
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, tablet_op_result::OpResult, tablet_store_in_message::InMsg, tablet_store_out_message::OutMsg,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum P {
    C16,
    C17,
    C18,
    C19,
}

/// Fails unless the condition holds, if it is about the property of the facet.
macro_rules! must {
    ($self:expr, $p:expr, $c:expr, $($t:tt)*) => {
        if $p.contains(&$self.focus) && !$c { return Err(format!($($t)*)); }
    };
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// Ids of the tablets of each table, as the first replica draws them.
    tables: Vec<BTreeSet<u32>>,
    replicas: u8,
    steps: Vec<Step>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    /// A request reaches a replica.
    Request { replica: u8, leader: bool, damage: Damage, ops: Vec<OpSpec> },
    /// A replica applies so many further committed events.
    Apply { replica: u8, count: u8 },
    /// A new replica loads a snapshot of another one and takes the place of a third.
    Snapshot { from: u8, to: u8, fresh: bool },
    Tick { replica: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Damage {
    None,
    /// The header isn't decodable, is empty, or the payload isn't decodable.
    Header(Vec<u8>),
    Unset,
    Payload(Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct OpSpec {
    /// Index of the table; one too many for a table that doesn't exist.
    table: u8,
    kind: Kind,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Kind {
    Unset,
    List { from: Point, to: Point },
    Check { tablet: u16, unknown: bool, delta: i8 },
    Update { tablet: u16, unknown: bool, delta: i8, meta: Meta },
    UpdateUnset,
    Add { id: u32 },
    AddUnset,
    Remove { tablet: u16, delta: i8 },
}

/// A point of the ring: an absolute one or one near a tablet.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Point {
    At(u32),
    Near(u16, i8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Meta {
    deleted: bool,
    key: Vec<u8>,
    size: u32,
    hash: Vec<u8>,
    uri: String,
}

type Tables = BTreeMap<String, BTreeMap<u32, TabletMetadata>>;

fn table_name(i: usize) -> String {
    format!("table{i}")
}

struct Ids(Vec<Vec<u32>>);

impl TabletConfigurator for Ids {
    fn generate(&mut self, count: u32) -> Vec<u32> {
        let ids = self.0.remove(0);
        assert_eq!(ids.len(), count as usize);
        ids
    }
}

struct Replica {
    actor: TabletStoreActor<Ids>,
    leader: Rc<Cell<bool>>,
    applied: usize,
}

struct LogEntry {
    proposer: usize,
    event: ActorEvent,
    request: TabletsRequest,
    /// State and reply once applied, by the model.
    after: Tables,
    expected: Vec<Expected>,
    success: bool,
}

#[derive(Debug, Clone)]
struct Expected {
    table: String,
    /// Whether the operation on its own succeeds.
    ok: bool,
    body: Body,
}

#[derive(Debug, Clone)]
enum Body {
    /// No particular result.
    Any,
    List { from: u32, to: u32, exactly: Option<BTreeSet<u32>>, tablets: BTreeMap<u32, TabletMetadata> },
    Check { existing: Option<TabletMetadata> },
    Update { existing: Option<TabletMetadata> },
}

fn owner(ring: &BTreeMap<u32, TabletMetadata>, hash: u32) -> Option<u32> {
    ring.range(hash..).next().or_else(|| ring.iter().next()).map(|(id, _)| *id)
}

/// Owners of the hashes from one to another, inclusively, clockwise; by definition: of both ends
/// and every tablet in between.
fn owners(ring: &BTreeMap<u32, TabletMetadata>, from: u32, to: u32) -> BTreeSet<u32> {
    let inside = |h: u32| if from <= to { from <= h && h <= to } else { h >= from || h <= to };
    let mut all: BTreeSet<u32> = ring.keys().copied().filter(|id| inside(*id)).collect();
    all.extend(owner(ring, from));
    all.extend(owner(ring, to));
    all
}

struct World<'a> {
    focus: P,
    case: &'a Case,
    config: Bytes,
    replicas: Vec<Replica>,
    /// Applies everything and answers everything.
    twin: Replica,
    log: Vec<LogEntry>,
    initial: Tables,
    next_correlation: u64,
    accepted: BTreeMap<(String, u32, u32), usize>,
    info: Info,
    stats: BTreeMap<&'static str, usize>,
}

fn decode_tables(snapshot: &Bytes) -> Result<Tables, String> {
    let snapshot = TabletStoreSnapshot::decode(snapshot.clone()).map_err(|e| format!("snapshot: {e}"))?;
    let mut tables = Tables::new();
    for t in snapshot.table_snapshots {
        let mut tablets = BTreeMap::new();
        for m in t.table_tablets {
            let id = m.tablet_id;
            ensure!(tablets.insert(id, m).is_none(), "snapshot holds tablet {id} of {} twice", t.table_name);
        }
        ensure!(tables.insert(t.table_name.clone(), tablets).is_none(), "snapshot holds {} twice", t.table_name);
    }
    Ok(tables)
}

fn new_replica(id: u64, config: &Bytes, ids: Vec<Vec<u32>>) -> Result<Replica, String> {
    let context = Context::new(id, config.clone());
    let leader = context.leader.clone();
    let mut actor = TabletStoreActor::new(Ids(ids));
    actor.on_init(Box::new(context)).map_err(|e| format!("initialization: {e}"))?;
    Ok(Replica { actor, leader, applied: 0 })
}

impl World<'_> {
    fn create<'a>(focus: P, case: &'a Case) -> Result<World<'a>, String> {
        let config: Bytes = TabletStoreConfig {
            table_configs: case
                .tables
                .iter()
                .enumerate()
                .map(|(i, t)| TableConfig {
                    table_name: table_name(i),
                    max_tablet_size: 1000,
                    min_tablet_size: 10,
                    initial_tablet_count: t.len() as u32,
                })
                .collect(),
        }
        .encode_to_vec()
        .into();
        let first: Vec<Vec<u32>> = case.tables.iter().map(|t| t.iter().copied().collect()).collect();
        // Other replicas draw other ids and then load the snapshot of the first one.
        let others: Vec<Vec<u32>> =
            case.tables.iter().map(|t| (0..t.len() as u32).map(|i| i * 3 + 1).collect()).collect();
        let mut replicas = vec![new_replica(1, &config, first.clone())?];
        let snapshot = replicas[0].actor.on_save_snapshot().map_err(|e| e.to_string())?;
        let initial = decode_tables(&snapshot)?;
        let expected: Tables = case
            .tables
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let t = t.iter().map(|id| (*id, TabletMetadata { tablet_id: *id, ..Default::default() })).collect();
                (table_name(i), t)
            })
            .collect();
        ensure!(initial == expected, "the first snapshot holds {initial:?}, not {expected:?}");
        for i in 1..case.replicas {
            let mut r = new_replica(i as u64 + 1, &config, others.clone())?;
            r.actor.on_load_snapshot(snapshot.clone()).map_err(|e| e.to_string())?;
            replicas.push(r);
        }
        let mut twin = new_replica(99, &config, others)?;
        twin.actor.on_load_snapshot(snapshot).map_err(|e| e.to_string())?;
        Ok(World {
            focus,
            case,
            config,
            replicas,
            twin,
            log: vec![],
            initial,
            next_correlation: 0,
            accepted: BTreeMap::new(),
            info: Info::default(),
            stats: BTreeMap::new(),
        })
    }

    fn count(&mut self, what: &'static str) {
        *self.stats.entry(what).or_default() += 1;
    }

    fn state(&self) -> &Tables {
        self.log.last().map(|e| &e.after).unwrap_or(&self.initial)
    }

    fn point(&self, table: &str, p: &Point) -> u32 {
        match p {
            Point::At(x) => *x,
            Point::Near(at, by) => {
                let ids: Vec<u32> = self.state().get(table).map(|t| t.keys().copied().collect()).unwrap_or_default();
                pick(&ids, *at).copied().unwrap_or(7).wrapping_add(*by as i32 as u32)
            }
        }
    }

    /// An id and version of a tablet: an existing one, or an unknown id.
    fn target(&self, table: &str, at: u16, unknown: bool, delta: i8) -> (u32, u32) {
        let tablets = self.state().get(table).cloned().unwrap_or_default();
        let ids: Vec<u32> = tablets.keys().copied().collect();
        let id = pick(&ids, at).copied().unwrap_or(5);
        let version = tablets.get(&id).map(|m| m.tablet_version).unwrap_or(0).wrapping_add(delta as i32 as u32);
        let mut target = id;
        if unknown {
            while tablets.contains_key(&target) {
                target = target.wrapping_add(1);
            }
        }
        (target, version)
    }

    fn op(&self, spec: &OpSpec) -> TabletOp {
        let name = table_name(spec.table as usize % (self.case.tables.len() + 1));
        let op = match &spec.kind {
            Kind::Unset => None,
            Kind::List { from, to } => Some(Op::ListTablet(ListTabletOp {
                key_hash_from: self.point(&name, from),
                key_hash_to: self.point(&name, to),
            })),
            Kind::Check { tablet, unknown, delta } => {
                let (tablet_id, tablet_version) = self.target(&name, *tablet, *unknown, *delta);
                Some(Op::CheckTablet(CheckTabletOp { tablet_id, tablet_version }))
            }
            Kind::Update { tablet, unknown, delta, meta } => {
                let (tablet_id, tablet_version) = self.target(&name, *tablet, *unknown, delta.wrapping_add(1));
                Some(Op::UpdateTablet(UpdateTabletOp {
                    tablet_metadata: Some(TabletMetadata {
                        tablet_id,
                        tablet_version,
                        deleted: meta.deleted,
                        blob_encryption_key: meta.key.clone().into(),
                        blob_size: meta.size,
                        blob_hash: meta.hash.clone().into(),
                        blob_uri: meta.uri.clone(),
                    }),
                }))
            }
            Kind::UpdateUnset => Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: None })),
            Kind::Add { id } => Some(Op::AddTablet(AddTabletOp {
                tablet_metadata: Some(TabletMetadata { tablet_id: *id, ..Default::default() }),
            })),
            Kind::AddUnset => Some(Op::AddTablet(AddTabletOp { tablet_metadata: None })),
            Kind::Remove { tablet, delta } => {
                let (tablet_id, tablet_version) = self.target(&name, *tablet, false, *delta);
                Some(Op::RemoveTablet(RemoveTabletOp { tablet_id, tablet_version }))
            }
        };
        TabletOp { table_name: name, op }
    }

    /// What a request does in a state.
    fn model(state: &Tables, request: &TabletsRequest) -> (Vec<Expected>, bool, Tables) {
        let mut expected = Vec::new();
        let mut after = state.clone();
        let mut updated = BTreeSet::new();
        for op in &request.tablet_ops {
            let table = op.table_name.clone();
            let (Some(tablets), Some(what)) = (state.get(&table), &op.op) else {
                expected.push(Expected { table, ok: false, body: Body::Any });
                continue;
            };
            let (ok, body) = match what {
                Op::ListTablet(l) => {
                    // The arc from a hash to itself may be read as the hash or as the whole ring.
                    let exactly = (l.key_hash_from != l.key_hash_to)
                        .then(|| owners(tablets, l.key_hash_from, l.key_hash_to));
                    (true, Body::List {
                        from: l.key_hash_from,
                        to: l.key_hash_to,
                        exactly,
                        tablets: tablets.clone(),
                    })
                }
                Op::CheckTablet(c) => {
                    let existing = tablets.get(&c.tablet_id);
                    let ok = existing.is_some_and(|m| m.tablet_version == c.tablet_version);
                    (ok, Body::Check { existing: existing.cloned() })
                }
                Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(m) }) => {
                    let existing = tablets.get(&m.tablet_id);
                    let ok = existing
                        .is_some_and(|e| e.tablet_version.checked_add(1) == Some(m.tablet_version))
                        && updated.insert((table.clone(), m.tablet_id));
                    if ok {
                        after.get_mut(&table).unwrap().insert(m.tablet_id, m.clone());
                    }
                    (ok, Body::Update { existing: existing.cloned() })
                }
                _ => (false, Body::Any),
            };
            expected.push(Expected { table, ok, body });
        }
        let success = expected.iter().all(|e| e.ok);
        (expected, success, if success { after } else { state.clone() })
    }

    fn request(&mut self, replica: usize, leader: bool, damage: &Damage, ops: &[OpSpec]) -> Result<(), String> {
        let request = TabletsRequest { tablet_ops: ops.iter().map(|o| self.op(o)).collect() };
        // Zero comes first.
        let correlation_id = self.next_correlation.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        self.next_correlation += 1;
        let mut header: Bytes = TabletStoreInMessage {
            in_msg: Some(InMsg::ExecuteTabletOpsRequest(ExecuteTabletOpsRequest { sender_node_id: 3 })),
        }
        .encode_to_vec()
        .into();
        let mut payload: Bytes = request.encode_to_vec().into();
        match damage {
            Damage::None => {}
            Damage::Header(h) => header = h.clone().into(),
            Damage::Unset => header = Bytes::new(),
            Damage::Payload(p) => payload = p.clone().into(),
        }
        let decodable = TabletStoreInMessage::decode(header.clone()).is_ok_and(|m| m.in_msg.is_some());
        let decoded = TabletsRequest::decode(payload.clone());
        let valid = decodable && decoded.is_ok();
        let r = &mut self.replicas[replica];
        r.leader.set(leader);
        let outcome = r
            .actor
            .on_process_command(Some(ActorCommand { correlation_id, header, payload }))
            .map_err(|e| format!("a request terminates the replica: {e}"))?;
        if valid && leader {
            must!(self, [P::C19, P::C16], outcome.commands.is_empty(), "a request was answered before it was replicated");
            let Some(event) = outcome.event else {
                must!(self, [P::C16, P::C17, P::C18, P::C19], false, "the leader proposes nothing for a request");
                return Ok(());
            };
            must!(self, [P::C19], event.correlation_id == correlation_id, "the event has another correlation id");
            let request = decoded.unwrap();
            let (expected, success, after) = Self::model(self.state(), &request);
            self.log.push(LogEntry { proposer: replica, event, request, after, expected, success });
            let at = self.log.len() - 1;
            self.apply_twin(at)?;
            return Ok(());
        }
        self.count("rejected");
        must!(self, [P::C19], outcome.event.is_none(), "a request is proposed: leader {leader}, damage {damage:?}");
        must!(self, [P::C19], outcome.commands.len() == 1, "{} answers to a rejected request", outcome.commands.len());
        for command in outcome.commands {
            must!(self, [P::C19], command.correlation_id == correlation_id, "a rejection has another correlation id");
            let message = TabletStoreOutMessage::decode(command.header).map_err(|e| format!("a rejection's header: {e}"))?;
            let Some(OutMsg::ExecuteTabletOpsError(error)) = message.out_msg else {
                must!(self, [P::C19], false, "a request is answered with {message:?} instead of a rejection");
                continue;
            };
            let status = ExecuteTabletOpsStatus::try_from(error.status);
            let ok = match (leader, valid) {
                (false, true) => status == Ok(ExecuteTabletOpsStatus::Rejected),
                (true, _) => status == Ok(ExecuteTabletOpsStatus::InvalidOperation),
                (false, false) => {
                    status == Ok(ExecuteTabletOpsStatus::Rejected) || status == Ok(ExecuteTabletOpsStatus::InvalidOperation)
                }
            };
            must!(self, [P::C19], ok, "a request is rejected with {status:?}: leader {leader}, valid {valid}");
        }
        Ok(())
    }

    fn reply(outcome: EventOutcome) -> Result<TabletsResponse, String> {
        ensure!(outcome.commands.len() == 1, "{} answers of the proposer", outcome.commands.len());
        let command = outcome.commands.into_iter().next().unwrap();
        let message = TabletStoreOutMessage::decode(command.header).map_err(|e| format!("header of an answer: {e}"))?;
        ensure!(
            matches!(message.out_msg, Some(OutMsg::ExecuteTabletOpsResponse(_))),
            "a committed request is answered with {message:?}"
        );
        TabletsResponse::decode(command.payload).map_err(|e| format!("payload of an answer: {e}"))
    }

    fn apply_one(replica: &mut Replica, at: usize, owned: bool, event: &ActorEvent) -> Result<EventOutcome, String> {
        replica.applied = at + 1;
        replica
            .actor
            .on_apply_event(ActorEventContext { index: at as u64 + 10, owned }, event.clone())
            .map_err(|e| format!("a committed request terminates the replica: {e}"))
    }

    /// The twin's answer is compared with the model, the others with the twin.
    fn apply_twin(&mut self, at: usize) -> Result<(), String> {
        let event = self.log[at].event.clone();
        let outcome = Self::apply_one(&mut self.twin, at, true, &event)?;
        let id = outcome.commands.first().map(|c| c.correlation_id);
        must!(self, [P::C19], id == Some(event.correlation_id), "the answer has the correlation id {id:?}");
        let reply = Self::reply(outcome)?;
        self.check_reply(at, &reply)?;
        let state = decode_tables(&self.twin.actor.on_save_snapshot().map_err(|e| e.to_string())?)?;
        let entry = &self.log[at];
        if state != entry.after {
            let what = if entry.success { "a successful request" } else { "a failed request" };
            let duplicate = entry.expected.iter().filter(|e| !e.ok && matches!(e.body, Body::Update { .. })).count() > 0;
            let props = if duplicate { [P::C16, P::C17] } else { [P::C16, P::C19] };
            must!(self, props, false, "{what} leaves {state:?} instead of {:?}", entry.after);
            must!(self, [P::C17], false, "updates are lost or made up: {state:?} instead of {:?}", entry.after);
        }
        Ok(())
    }

    fn check_reply(&mut self, at: usize, reply: &TabletsResponse) -> Result<(), String> {
        let entry = &self.log[at];
        let succeeded = reply.status == TabletsRequestStatus::Succeeded as i32;
        let failed = reply.status == TabletsRequestStatus::Failed as i32 || reply.status == TabletsRequestStatus::Invalid as i32;
        must!(self, [P::C16], succeeded || failed, "the reply has status {}", reply.status);
        must!(
            self, [P::C16], succeeded == entry.success,
            "the reply has status {} but the operations have {:?}", reply.status, entry.expected
        );
        must!(
            self, [P::C16], reply.tablet_results.len() == entry.expected.len(),
            "{} results for {} operations", reply.tablet_results.len(), entry.expected.len()
        );
        let (mut lists, mut ok_updates, mut conflicts, mut ops_ok, mut wraps) = (0, 0, 0, 0, 0);
        let mut newly = Vec::new();
        for (i, (r, e)) in reply.tablet_results.iter().zip(&entry.expected).enumerate() {
            must!(self, [P::C16], r.table_name == e.table, "result {i} is for {} instead of {}", r.table_name, e.table);
            let ok = r.status == TabletOpStatus::Succeeded as i32;
            let refused = [TabletOpStatus::Failed, TabletOpStatus::Invalid, TabletOpStatus::Aborted]
                .iter()
                .any(|s| r.status == *s as i32);
            must!(self, [P::C16], ok || refused, "result {i} has status {}", r.status);
            // In a failed request, operations that could have been done may be reported as
            // aborted.
            let right = ok == e.ok || (e.ok && !entry.success && r.status == TabletOpStatus::Aborted as i32);
            must!(self, [P::C16], right || matches!(e.body, Body::Check { .. } | Body::Update { .. }),
                "result {i} has status {} for {:?}", r.status, entry.request.tablet_ops[i]);
            must!(self, [P::C16, P::C17], right || !matches!(e.body, Body::Check { .. } | Body::Update { .. }),
                "result {i} has status {} for {:?} with {:?}", r.status, entry.request.tablet_ops[i], e.body);
            must!(self, [P::C18], right || !matches!(e.body, Body::List { .. }), "a listing has status {}", r.status);
            ops_ok += e.ok as usize;
            match (&e.body, &r.op_result) {
                (Body::Any, _) => {}
                (Body::List { from, to, exactly, tablets }, Some(OpResult::ListTablet(l))) => {
                    lists += 1;
                    wraps += (from > to) as usize;
                    must!(self, [P::C18], l.key_hash_from == *from && l.key_hash_to == *to,
                        "listing {from}..={to} answers for {}..={}", l.key_hash_from, l.key_hash_to);
                    let ids: BTreeSet<u32> = l.tablets.iter().map(|t| t.tablet_id).collect();
                    must!(self, [P::C18], ids.len() == l.tablets.len(), "a tablet is listed twice: {:?}", l.tablets);
                    for t in &l.tablets {
                        must!(self, [P::C18, P::C17], tablets.get(&t.tablet_id) == Some(t),
                            "{t:?} is listed but {:?} is current", tablets.get(&t.tablet_id));
                    }
                    match exactly {
                        Some(exactly) => must!(self, [P::C18], ids == *exactly,
                            "listing {from}..={to} of {:?} gives {ids:?} instead of {exactly:?}", tablets.keys()),
                        None => must!(self, [P::C18], owner(tablets, *from).is_none_or(|o| ids.contains(&o)),
                            "listing {from}..={to} of {:?} gives {ids:?} without the owner", tablets.keys()),
                    }
                }
                (Body::Check { existing }, Some(OpResult::CheckTablet(c))) => {
                    conflicts += !e.ok as usize;
                    must!(self, [P::C17], c.existing_tablet == *existing || (e.ok && c.existing_tablet.is_none()),
                        "a check reports {:?}, current is {existing:?}", c.existing_tablet);
                }
                (Body::Update { existing }, Some(OpResult::UpdateTablet(u))) => {
                    conflicts += !e.ok as usize;
                    must!(self, [P::C17], u.existing_tablet == *existing || (e.ok && u.existing_tablet.is_none()),
                        "an update reports {:?}, current is {existing:?}", u.existing_tablet);
                    if ok && succeeded {
                        ok_updates += 1;
                        if let Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(m) })) =
                            &entry.request.tablet_ops[i].op
                        {
                            newly.push((e.table.clone(), m.tablet_id, m.tablet_version));
                        }
                    }
                }
                (Body::Check { existing: None } | Body::Update { existing: None }, None) => {}
                (b, r) => {
                    must!(self, [P::C16], false, "result {i} of {b:?} is {r:?}");
                    bail!("result {i} of {b:?} is {r:?}");
                }
            }
        }
        let (success, n) = (entry.success, entry.expected.len());
        for key in newly {
            let n = self.accepted.entry(key.clone()).or_default();
            *n += 1;
            let n = *n;
            must!(self, [P::C17], n == 1, "{n} updates to version {} of tablet {} of {} were accepted", key.2, key.1, key.0);
        }
        if success && ok_updates > 0 && n > 1 {
            self.count("several operations committed");
        }
        if !success && ops_ok > 0 {
            self.count("partly executable request refused");
        }
        if lists > 0 {
            self.count("listed");
        }
        if wraps > 0 {
            self.count("listed around zero");
        }
        if conflicts > 0 {
            self.count("conflict");
        }
        if ok_updates > 0 {
            self.count("update committed");
        }
        Ok(())
    }

    fn apply(&mut self, at: usize, count: usize) -> Result<(), String> {
        for _ in 0..count {
            let replica = &mut self.replicas[at];
            let position = replica.applied;
            let Some(entry) = self.log.get(position) else { return Ok(()) };
            let owned = entry.proposer == at;
            let outcome = Self::apply_one(replica, position, owned, &entry.event)?;
            if owned {
                let id = outcome.commands.first().map(|c| c.correlation_id);
                must!(self, [P::C19], outcome.commands.len() == 1, "{} answers of the proposer", outcome.commands.len());
                must!(self, [P::C19], id == Some(entry.event.correlation_id), "the answer has the correlation id {id:?}");
                let reply = Self::reply(outcome)?;
                let (expected, success, _) = {
                    let before = if position == 0 { &self.initial } else { &self.log[position - 1].after };
                    Self::model(before, &entry.request)
                };
                must!(self, [P::C19], (reply.status == TabletsRequestStatus::Succeeded as i32) == success,
                    "a replica answers {reply:?}, expected {expected:?}");
                self.check_reply_again(position, &reply)?;
                self.count("answered");
            } else {
                must!(self, [P::C19], outcome.commands.is_empty(), "a replica answers a request of another");
            }
            self.compare(at)?;
        }
        Ok(())
    }

    /// The same reply at another replica: counts nothing.
    fn check_reply_again(&mut self, at: usize, reply: &TabletsResponse) -> Result<(), String> {
        let (accepted, stats) = (self.accepted.clone(), self.stats.clone());
        self.accepted.clear();
        let result = self.check_reply(at, reply);
        self.accepted = accepted;
        self.stats = stats;
        result
    }

    /// The state of a replica against the model.
    fn compare(&mut self, at: usize) -> Result<(), String> {
        let replica = &mut self.replicas[at];
        let state = decode_tables(&replica.actor.on_save_snapshot().map_err(|e| e.to_string())?)?;
        let expected = match replica.applied {
            0 => &self.initial,
            n => &self.log[n - 1].after,
        };
        must!(self, [P::C19], state == *expected, "a replica holds {state:?} instead of {expected:?}");
        Ok(())
    }

    fn snapshot(&mut self, from: usize, to: usize, fresh: bool) -> Result<(), String> {
        let applied = self.replicas[from].applied;
        if from == to && !fresh || (!fresh && self.replicas[to].applied > applied) {
            return Ok(());
        }
        let snapshot = self.replicas[from].actor.on_save_snapshot().map_err(|e| e.to_string())?;
        if fresh {
            // Positions in the log of a replaced replica's own requests are kept: as after a
            // restart it doesn't apply those again that the snapshot has.
            let ids = self.case.tables.iter().map(|t| (0..t.len() as u32).map(|i| i * 5 + 2).collect()).collect();
            self.replicas[to] = new_replica(to as u64 + 1, &self.config, ids)?;
        }
        let replica = &mut self.replicas[to];
        replica.actor.on_load_snapshot(snapshot.clone()).map_err(|e| format!("loading a snapshot: {e}"))?;
        replica.applied = applied;
        let again = replica.actor.on_save_snapshot().map_err(|e| e.to_string())?;
        let (a, b) = (decode_tables(&snapshot)?, decode_tables(&again)?);
        must!(self, [P::C19], a == b, "a snapshot of {a:?} is loaded as {b:?}");
        if applied > 0 {
            self.count("snapshot");
        }
        Ok(())
    }

    fn run(mut self) -> Outcome {
        let n = self.replicas.len();
        for step in &self.case.steps {
            match step {
                Step::Request { replica, leader, damage, ops } => {
                    self.request(*replica as usize % n, *leader, damage, ops)?
                }
                Step::Apply { replica, count } => self.apply(*replica as usize % n, *count as usize)?,
                Step::Snapshot { from, to, fresh } => self.snapshot(*from as usize % n, *to as usize % n, *fresh)?,
                Step::Tick { replica } => {
                    let outcome = self.replicas[*replica as usize % n]
                        .actor
                        .on_process_command(None)
                        .map_err(|e| format!("a tick terminates the replica: {e}"))?;
                    must!(self, [P::C19], outcome.event.is_none() && outcome.commands.is_empty(), "a tick has effects");
                }
            }
        }
        for i in 0..n {
            self.apply(i, self.log.len())?;
            self.compare(i)?;
        }
        let has = |what: &str| self.stats.contains_key(what);
        self.info.nontrivial = match self.focus {
            P::C16 => has("several operations committed") || has("partly executable request refused"),
            P::C17 => has("update committed") && has("conflict"),
            P::C18 => has("listed"),
            P::C19 => has("answered") && (n > 1 || has("snapshot")),
        };
        let stats = self.stats.clone();
        for what in stats.keys() {
            self.info.label(true, what);
        }
        Ok(self.info)
    }
}

fn run(focus: P, case: &Case) -> Outcome {
    World::create(focus, case)?.run()
}

// ---------------------------------------------------------------------------------------------

fn hash() -> BoxedStrategy<u32> {
    prop_oneof![4 => 0..40u32, 1 => Just(u32::MAX), 1 => (u32::MAX - 20)..=u32::MAX, 3 => any::<u32>()].boxed()
}

fn ring(min: usize) -> BoxedStrategy<BTreeSet<u32>> {
    proptest::collection::btree_set(hash(), min..7).boxed()
}

fn point() -> BoxedStrategy<Point> {
    prop_oneof![2 => hash().prop_map(Point::At), 3 => (any::<u16>(), -2..3i8).prop_map(|(a, b)| Point::Near(a, b))].boxed()
}

fn meta() -> BoxedStrategy<Meta> {
    (
        proptest::bool::weighted(0.2),
        proptest::collection::vec(any::<u8>(), 0..3),
        prop_oneof![1 => Just(0u32), 1 => Just(u32::MAX), 4 => any::<u32>()],
        proptest::collection::vec(any::<u8>(), 0..5),
        "[a-z]{0,4}",
    )
        .prop_map(|(deleted, key, size, hash, uri)| Meta { deleted, key, size, hash, uri })
        .boxed()
}

fn delta() -> BoxedStrategy<i8> {
    prop_oneof![7 => Just(0i8), 1 => Just(-1), 1 => Just(1), 1 => -3..4i8].boxed()
}

fn op(list: u32, check: u32, update: u32, bad: u32) -> BoxedStrategy<OpSpec> {
    let unknown = || proptest::bool::weighted(0.05);
    let kinds: Vec<(u32, BoxedStrategy<Kind>)> = vec![
        (list, (point(), point()).prop_map(|(from, to)| Kind::List { from, to }).boxed()),
        (
            check,
            (any::<u16>(), unknown(), delta())
                .prop_map(|(tablet, unknown, delta)| Kind::Check { tablet, unknown, delta })
                .boxed(),
        ),
        (
            update,
            (any::<u16>(), unknown(), delta(), meta())
                .prop_map(|(tablet, unknown, delta, meta)| Kind::Update { tablet, unknown, delta, meta })
                .boxed(),
        ),
        (
            bad,
            prop_oneof![
                Just(Kind::Unset),
                Just(Kind::UpdateUnset),
                Just(Kind::AddUnset),
                hash().prop_map(|id| Kind::Add { id }),
                (any::<u16>(), delta()).prop_map(|(tablet, delta)| Kind::Remove { tablet, delta }),
            ]
            .boxed(),
        ),
    ];
    let kind = proptest::strategy::Union::new_weighted(kinds.into_iter().filter(|k| k.0 > 0).collect());
    (prop_oneof![24 => 0..3u8, 1 => Just(200u8)], kind).prop_map(|(table, kind)| OpSpec { table, kind }).boxed()
}

fn damage() -> BoxedStrategy<Damage> {
    let bytes = || proptest::collection::vec(any::<u8>(), 0..8);
    prop_oneof![
        12 => Just(Damage::None),
        1 => bytes().prop_map(Damage::Header),
        1 => Just(Damage::Unset),
        1 => bytes().prop_map(Damage::Payload),
    ]
    .boxed()
}

struct Shape {
    op: fn() -> BoxedStrategy<OpSpec>,
    ops: usize,
    replicas: u8,
    damaged: bool,
    min_tablets: usize,
}

fn case(shape: Shape) -> BoxedStrategy<Case> {
    let request = {
        let damage = if shape.damaged { damage() } else { Just(Damage::None).boxed() };
        let leader = if shape.damaged { proptest::bool::weighted(0.8).boxed() } else { Just(true).boxed() };
        (0..4u8, leader, damage, proptest::collection::vec((shape.op)(), 0..=shape.ops))
            .prop_map(|(replica, leader, damage, ops)| Step::Request { replica, leader, damage, ops })
    };
    let step = prop_oneof![
        8 => request,
        3 => (0..4u8, 1..4u8).prop_map(|(replica, count)| Step::Apply { replica, count }),
        2 => (0..4u8, 0..4u8, any::<bool>()).prop_map(|(from, to, fresh)| Step::Snapshot { from, to, fresh }),
        1 => (0..4u8).prop_map(|replica| Step::Tick { replica }),
    ];
    let min = shape.min_tablets;
    (
        proptest::collection::vec(ring(min), 1..3),
        1..=shape.replicas,
        proptest::collection::vec(step, 1..24),
    )
        .prop_map(|(tables, replicas, steps)| Case { tables, replicas, steps })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// Listing the whole ring arc by arc.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CoverCase {
    ring: BTreeSet<u32>,
    other: BTreeSet<u32>,
    cuts: BTreeSet<u32>,
    keys: Vec<u32>,
    updates: Vec<u16>,
}

fn check_cover(case: &CoverCase) -> Outcome {
    let tables = vec![case.ring.clone(), case.other.clone()];
    let base = Case { tables, replicas: 1, steps: vec![] };
    let mut world = World::create(P::C18, &base)?;
    let actor = &mut world.replicas[0].actor;
    let mut execute = |tablet_ops: Vec<TabletOp>| -> Result<TabletsResponse, String> {
        let event = ActorEvent::with_bytes(1, TabletsRequest { tablet_ops }.encode_to_vec().into());
        let outcome = actor
            .on_apply_event(ActorEventContext { index: 5, owned: true }, event)
            .map_err(|e| e.to_string())?;
        World::reply(outcome)
    };
    let ids: Vec<u32> = case.ring.iter().copied().collect();
    let mut versions: BTreeMap<u32, u32> = ids.iter().map(|id| (*id, 0)).collect();
    for u in &case.updates {
        if let Some(id) = pick(&ids, *u) {
            let version = versions.get_mut(id).unwrap();
            *version += 1;
            let metadata = TabletMetadata { tablet_id: *id, tablet_version: *version, ..Default::default() };
            execute(vec![TabletOp {
                table_name: table_name(0),
                op: Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(metadata) })),
            }])?;
        }
    }
    // Arcs between the cuts, the last one around zero.
    let cuts: Vec<u32> = case.cuts.iter().copied().collect();
    let mut arcs = Vec::new();
    for (i, from) in cuts.iter().enumerate() {
        let to = if i + 1 < cuts.len() { cuts[i + 1] - 1 } else { cuts[0].wrapping_sub(1) };
        arcs.push((*from, to));
    }
    let reply = execute(
        arcs.iter()
            .map(|(from, to)| TabletOp {
                table_name: table_name(0),
                op: Some(Op::ListTablet(ListTabletOp { key_hash_from: *from, key_hash_to: *to })),
            })
            .collect(),
    )?;
    ensure!(reply.status == TabletsRequestStatus::Succeeded as i32, "listing the ring fails");
    ensure!(reply.tablet_results.len() == arcs.len(), "results are missing");
    let mut found = BTreeMap::new();
    for ((from, to), r) in arcs.iter().zip(&reply.tablet_results) {
        let Some(OpResult::ListTablet(l)) = &r.op_result else { bail!("a listing gives {:?}", r.op_result) };
        let listed: BTreeSet<u32> = l.tablets.iter().map(|t| t.tablet_id).collect();
        for t in &l.tablets {
            found.insert(t.tablet_id, t.tablet_version);
        }
        // A reader of the arc alone can place every key of it.
        for key in &case.keys {
            let inside = if from <= to { from <= key && key <= to } else { key >= from || key <= to };
            if inside && !case.ring.is_empty() {
                let real = case.ring.range(key..).next().or(case.ring.first()).unwrap();
                let placed = listed.range(key..).next().or(listed.first());
                ensure!(placed == Some(real), "key {key} of arc {from}..={to} is placed on {placed:?} instead of {real}");
            }
        }
    }
    ensure!(found == versions, "listing {arcs:?} finds {found:?} of {versions:?}");
    let mut info = Info::new(ids.len() > 1 && arcs.len() > 1);
    info.label(!case.updates.is_empty(), "after updates");
    info.label(ids.is_empty(), "no tablets");
    Ok(info)
}

fn cover_case() -> BoxedStrategy<CoverCase> {
    (
        ring(0),
        ring(0),
        proptest::collection::btree_set(hash(), 1..6),
        proptest::collection::vec(hash(), 0..12),
        proptest::collection::vec(any::<u16>(), 0..6),
    )
        .prop_map(|(ring, other, cuts, keys, updates)| CoverCase { ring, other, cuts, keys, updates })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// Versions at the end of their range, which only a snapshot can bring about.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct EdgeCase {
    version: u32,
    ops: Vec<(bool, u32)>,
}

fn check_edge(case: &EdgeCase) -> Outcome {
    let base = Case { tables: vec![[7u32].into_iter().collect()], replicas: 1, steps: vec![] };
    let mut world = World::create(P::C17, &base)?;
    let actor = &mut world.replicas[0].actor;
    let mut current = case.version;
    let at = |version: u32| TabletMetadata { tablet_id: 7, tablet_version: version, blob_size: version, ..Default::default() };
    let snapshot = TabletStoreSnapshot {
        table_snapshots: vec![TableSnapshot { table_name: table_name(0), table_tablets: vec![at(current)] }],
    };
    actor.on_load_snapshot(snapshot.encode_to_vec().into()).map_err(|e| e.to_string())?;
    let mut info = Info::new(false);
    for (update, version) in &case.ops {
        let op = if *update {
            Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(at(*version)) })
        } else {
            Op::CheckTablet(CheckTabletOp { tablet_id: 7, tablet_version: *version })
        };
        let request = TabletsRequest { tablet_ops: vec![TabletOp { table_name: table_name(0), op: Some(op) }] };
        let event = ActorEvent::with_bytes(1, request.encode_to_vec().into());
        let outcome = actor
            .on_apply_event(ActorEventContext { index: 5, owned: true }, event)
            .map_err(|e| e.to_string())?;
        let reply = World::reply(outcome)?;
        let ok = reply.status == TabletsRequestStatus::Succeeded as i32;
        let expected = if *update { current.checked_add(1) == Some(*version) } else { current == *version };
        ensure!(ok == expected, "update {update} with version {version} at {current}: {reply:?}");
        if ok && *update {
            current = *version;
        }
        info.nontrivial |= current > u32::MAX - 2;
    }
    let tables = decode_tables(&actor.on_save_snapshot().map_err(|e| e.to_string())?)?;
    ensure!(tables[&table_name(0)][&7].tablet_version == current, "{tables:?} instead of version {current}");
    Ok(info)
}

fn edge_case() -> BoxedStrategy<EdgeCase> {
    let version = || prop_oneof![Just(u32::MAX), Just(u32::MAX - 1), Just(0u32), Just(1u32), any::<u32>()];
    (version(), proptest::collection::vec((any::<bool>(), version()), 1..6))
        .prop_map(|(version, ops)| EdgeCase { version, ops })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// Tables as they are created with the configurator of the service.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CreatedCase {
    counts: Vec<u32>,
    keys: Vec<u32>,
}

fn check_created(case: &CreatedCase) -> Outcome {
    let config = TabletStoreConfig {
        table_configs: case
            .counts
            .iter()
            .enumerate()
            .map(|(i, count)| TableConfig {
                table_name: table_name(i),
                initial_tablet_count: *count,
                ..Default::default()
            })
            .collect(),
    };
    let context = Context::new(1, config.encode_to_vec().into());
    let mut actor = TabletStoreActor::new(RandomTabletConfigurator {});
    actor.on_init(Box::new(context)).map_err(|e| e.to_string())?;
    let tables = decode_tables(&actor.on_save_snapshot().map_err(|e| e.to_string())?)?;
    ensure!(tables.len() == case.counts.len(), "{} tables instead of {}", tables.len(), case.counts.len());
    let list = |table: usize, from: u32, to: u32| TabletOp {
        table_name: table_name(table),
        op: Some(Op::ListTablet(ListTabletOp { key_hash_from: from, key_hash_to: to })),
    };
    for (i, count) in case.counts.iter().enumerate() {
        let table = tables.get(&table_name(i)).ok_or("a table is missing")?;
        ensure!(table.len() == *count as usize, "a table has {} tablets instead of {count}", table.len());
        ensure!(
            table.iter().all(|(id, t)| *t == TabletMetadata { tablet_id: *id, ..Default::default() }),
            "a new tablet isn't empty"
        );
        let mut tablet_ops = vec![list(i, 0, u32::MAX / 2), list(i, u32::MAX / 2 + 1, u32::MAX)];
        tablet_ops.extend(case.keys.iter().map(|k| list(i, *k, *k)));
        let event = ActorEvent::with_bytes(1, TabletsRequest { tablet_ops }.encode_to_vec().into());
        let outcome =
            actor.on_apply_event(ActorEventContext { index: 5, owned: true }, event).map_err(|e| e.to_string())?;
        let reply = World::reply(outcome)?;
        let mut listed = Vec::new();
        for r in &reply.tablet_results {
            let Some(OpResult::ListTablet(l)) = &r.op_result else { bail!("a listing gives {:?}", r.op_result) };
            listed.push(l.tablets.iter().map(|t| t.tablet_id).collect::<BTreeSet<u32>>());
        }
        ensure!(listed.len() == 2 + case.keys.len(), "results are missing");
        let all: BTreeSet<u32> = listed[0].union(&listed[1]).copied().collect();
        ensure!(all.iter().eq(table.keys()), "the halves of the ring have {} of {count} tablets", all.len());
        for (key, found) in case.keys.iter().zip(&listed[2..]) {
            let owner: BTreeSet<u32> = owner(table, *key).into_iter().collect();
            ensure!(owner.is_subset(found), "{key} belongs to {owner:?}, listed is {found:?}");
        }
    }
    Ok(Info::new(case.counts.iter().any(|c| *c > 1)))
}

fn created_case() -> BoxedStrategy<CreatedCase> {
    let count = prop_oneof![1 => Just(0u32), 8 => 1..40u32, 1 => 20_000..60_000u32];
    (proptest::collection::vec(count, 1..3), proptest::collection::vec(hash(), 0..8))
        .prop_map(|(counts, keys)| CreatedCase { counts, keys })
        .boxed()
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet("C18", "created", "a table of several tablets", 400, 20_000, created_case, check_created),
        facet(
            "C16", "requests",
            "a request of several operations with an update commits, or one with executable operations is refused",
            60_000, 3_000_000,
            || case(Shape { op: || op(2, 3, 6, 1), ops: 5, replicas: 1, damaged: false, min_tablets: 0 }),
            |c| run(P::C16, c),
        ),
        facet(
            "C16", "hostile", "a request of several operations with an update commits, or one with executable operations is refused",
            40_000, 1_500_000,
            || case(Shape { op: || op(2, 2, 4, 6), ops: 4, replicas: 2, damaged: true, min_tablets: 0 }),
            |c| run(P::C16, c),
        ),
        facet(
            "C17", "histories", "an update commits and another operation conflicts",
            80_000, 4_000_000,
            || case(Shape { op: || op(1, 3, 10, 0), ops: 3, replicas: 2, damaged: false, min_tablets: 1 }),
            |c| run(P::C17, c),
        ),
        facet("C17", "edge", "a version at the end of the range", 10_000, 500_000, edge_case, check_edge),
        facet(
            "C18", "listings", "a range is listed",
            80_000, 4_000_000,
            || case(Shape { op: || op(10, 0, 2, 0), ops: 4, replicas: 1, damaged: false, min_tablets: 0 }),
            |c| run(P::C18, c),
        ),
        facet("C18", "cover", "several arcs and tablets", 80_000, 4_000_000, cover_case, check_cover),
        facet(
            "C19", "replicas", "a replica answers, and there are several replicas or snapshots",
            80_000, 4_000_000,
            || case(Shape { op: || op(2, 2, 6, 1), ops: 3, replicas: 4, damaged: true, min_tablets: 1 }),
            |c| run(P::C19, c),
        ),
    ]
}
