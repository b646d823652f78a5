//! C03, C04 and C05: the tablet data cache against a model of the data storage.

use crate::common::*;
use pbt::{facet, Facet, Info, Outcome};
use prost::bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    LoadTabletResponse, StoreTabletResponse, TabletDataCacheConfig, TabletDataStorageStatus,
};
use tcp_tablet_cache_service::transaction::data::{
    DefaultTabletDataCache, DefaultTabletDataCachePolicy, TabletData, TabletDataCache,
    TabletDataCacheInMessage, TabletDataCacheOutMessage, TabletDataSerializer,
};
use tcp_tablet_cache_service::transaction::result::ResultHandle;
use tcp_tablet_store_service::apps::tablet_store::service::TabletMetadata;

/// What the application keeps in a tablet. The serialized form differs from it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Value(Vec<u8>);

const UNSERIALIZABLE: u8 = 0xee;
const SUFFIX: u8 = 0x5a;

fn serialize(value: &Value) -> Option<Bytes> {
    if value.0.first() == Some(&UNSERIALIZABLE) {
        return None;
    }
    let mut bytes: Vec<u8> = value.0.iter().rev().map(|b| b ^ 0xff).collect();
    bytes.push(SUFFIX);
    Some(bytes.into())
}

fn deserialize(bytes: &[u8]) -> Option<Value> {
    match bytes.split_last() {
        None => Some(Value(Vec::new())),
        Some((&SUFFIX, rest)) => Some(Value(rest.iter().rev().map(|b| b ^ 0xff).collect())),
        Some(_) => None,
    }
}

struct Serializer;

impl TabletDataSerializer<Value> for Serializer {
    fn serialize(&self, value: &Value) -> Result<Bytes, ()> {
        serialize(value).ok_or(())
    }

    fn deserialize(&self, _table_name: &String, bytes: Bytes) -> Result<Value, ()> {
        deserialize(&bytes).ok_or(())
    }

    fn get_size(&self, value: &Value) -> usize {
        value.0.len()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fate {
    Good,
    /// The storage did nothing and says so.
    Failed,
    Unspecified,
    /// A status number the code doesn't know.
    Unknown(i32),
    /// The loaded bytes differ from the stored ones and the storage reports success.
    Flipped(u16),
    Truncated,
    Extended,
    Empty,
    /// Contents of another blob.
    Swapped(u8),
    /// Right bytes under a failed status.
    FailedWithBytes,
}

fn fate() -> impl Strategy<Value = Fate> {
    prop_oneof![
        12 => Just(Fate::Good),
        2 => Just(Fate::Failed),
        1 => Just(Fate::Unspecified),
        1 => prop_oneof![3i32..10, any::<i32>()].prop_map(Fate::Unknown),
        1 => any::<u16>().prop_map(Fate::Flipped),
        1 => Just(Fate::Truncated),
        1 => Just(Fate::Extended),
        1 => Just(Fate::Empty),
        1 => any::<u8>().prop_map(Fate::Swapped),
        1 => Just(Fate::FailedWithBytes),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// Loads a batch of known tablet versions.
    Load { cache: u8, tablets: Vec<u8> },
    /// Stores the next versions of a batch of known tablet versions.
    Store { cache: u8, tablets: Vec<(u8, Content)> },
    Reply { cache: u8, which: u8, fate: Fate },
    /// Repeats a reply to a request that has been answered.
    Again { cache: u8, which: u8, fate: Fate, other_kind: bool },
    /// Reply to a request that has never been sent.
    Stray { cache: u8, id: u64, store: bool },
    /// Reply of the wrong kind to an outstanding request.
    WrongKind { cache: u8, which: u8 },
    Progress { cache: u8 },
    /// Somebody else wrote a version of a tablet that is listed now.
    Foreign { tablet: u8, content: Content, decodable: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Content {
    /// From a small pool, writers often produce the same.
    Common(u8),
    Bytes(Vec<u8>),
    Large(u32, u8),
    Unserializable,
}

impl Content {
    fn value(&self) -> Value {
        Value(match self {
            Content::Common(n) => vec![n % 2; (*n as usize % 3) * 3],
            Content::Bytes(b) => {
                let mut b = b.clone();
                if b.first() == Some(&UNSERIALIZABLE) {
                    b[0] = 0;
                }
                b
            }
            Content::Large(len, seed) => (0..*len).map(|i| (i as u8).wrapping_mul(*seed) ^ (i >> 8) as u8 & 0x7f).collect(),
            Content::Unserializable => vec![UNSERIALIZABLE],
        })
    }
}

fn content() -> impl Strategy<Value = Content> {
    prop_oneof![
        25 => (0u8..4).prop_map(Content::Common),
        25 => prop::collection::vec(any::<u8>(), 0..12).prop_map(Content::Bytes),
        5 => prop::collection::vec(any::<u8>(), 50..400).prop_map(Content::Bytes),
        1 => (prop_oneof![254u32..258, 4093u32..4098, 65533u32..65538, 65538u32..140_000], any::<u8>())
            .prop_map(|(len, seed)| Content::Large(len, seed & 0x7f)),
        5 => Just(Content::Unserializable),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// Ids of tablets and the version they have at first, without contents if zero.
    tablets: Vec<(u32, u32)>,
    steps: Vec<Step>,
}

fn case() -> impl Strategy<Value = Case> {
    let cache = || prop_oneof![4 => Just(0u8), 1 => Just(1u8)];
    let step = prop_oneof![
        6 => (cache(), prop_oneof![1 => prop::collection::vec(any::<u8>(), 0..2), 6 => prop::collection::vec(any::<u8>(), 1..5)])
            .prop_map(|(cache, tablets)| Step::Load { cache, tablets }),
        5 => (cache(), prop_oneof![1 => prop::collection::vec((any::<u8>(), content()), 0..2), 6 => prop::collection::vec((any::<u8>(), content()), 1..4)])
            .prop_map(|(cache, tablets)| Step::Store { cache, tablets }),
        12 => (cache(), any::<u8>(), fate()).prop_map(|(cache, which, fate)| Step::Reply { cache, which, fate }),
        1 => (cache(), any::<u8>(), fate(), any::<bool>()).prop_map(|(cache, which, fate, other_kind)| Step::Again { cache, which, fate, other_kind }),
        1 => (cache(), prop_oneof![any::<u64>(), 0u64..10], any::<bool>()).prop_map(|(cache, id, store)| Step::Stray { cache, id, store }),
        1 => (cache(), any::<u8>()).prop_map(|(cache, which)| Step::WrongKind { cache, which }),
        1 => cache().prop_map(|cache| Step::Progress { cache }),
        2 => (any::<u8>(), content(), prop::bool::weighted(0.7)).prop_map(|(tablet, content, decodable)| Step::Foreign { tablet, content, decodable }),
    ];
    (
        prop::collection::vec(
            (prop_oneof![0u32..4, Just(u32::MAX), any::<u32>()], prop_oneof![4 => Just(0u32), 1 => 1u32..4, 1 => Just(u32::MAX - 40)]),
            1..5,
        ),
        prop::collection::vec(step, 3..40),
    )
        .prop_map(|(tablets, steps)| Case { tablets, steps })
}

#[derive(Clone, PartialEq, Debug)]
enum Entry {
    Loading(u64),
    Storing(u64),
    Cached,
}

enum Handle {
    Load(Vec<TabletMetadata>, ResultHandle<Vec<(TabletMetadata, TabletData<Value>)>, TabletDataStorageStatus>),
    Store(ResultHandle<(), TabletDataStorageStatus>),
}

struct Batch {
    handle: Handle,
    waiting: BTreeSet<String>,
    failed: bool,
}

struct Outstanding {
    id: u64,
    uri: String,
    /// Contents of a request to store.
    store: Option<Bytes>,
}

struct Node {
    cache: DefaultTabletDataCache<Value>,
    entries: BTreeMap<String, Entry>,
    out: Vec<Outstanding>,
    answered: Vec<(u64, bool, String)>,
    used_ids: BTreeSet<u64>,
    batches: Vec<Batch>,
}

/// How a case ended early.
enum Stop {
    Violation(String),
    /// Another property, with its own check, is broken: what follows means nothing.
    Elsewhere,
}

struct Sim {
    focus: &'static str,
    nodes: Vec<Node>,
    storage: BTreeMap<String, Bytes>,
    /// Contents by location of all blobs that any cache has ever asked to store.
    written: BTreeMap<String, Bytes>,
    known: Vec<TabletMetadata>,
    info: Info,
    faults: u32,
    shared: u32,
}

macro_rules! must {
    ($s:expr, $props:expr, $c:expr, $($t:tt)*) => {
        if !($c) {
            return Err(if $props.contains(&$s.focus) { Stop::Violation(format!($($t)*)) } else { Stop::Elsewhere });
        }
    };
}

impl Sim {
    fn metadata(&self, which: &[u8]) -> Vec<TabletMetadata> {
        let mut out: Vec<TabletMetadata> = Vec::new();
        for w in which {
            let m = &self.known[*w as usize % self.known.len()];
            if !out.contains(m) {
                out.push(m.clone());
            }
        }
        out
    }

    /// Messages sent by an operation: as many as expected for each location.
    fn take(&mut self, n: usize) -> Result<Vec<TabletDataCacheOutMessage>, Stop> {
        let messages = self.nodes[n].cache.take_out_messages();
        for message in &messages {
            let (TabletDataCacheOutMessage::LoadRequest(id, _) | TabletDataCacheOutMessage::StoreRequest(id, _, _)) = message;
            must!(self, ["C03", "C04", "C05"], self.nodes[n].used_ids.insert(*id), "correlation id {id} used twice");
        }
        Ok(messages)
    }

    fn load(&mut self, n: usize, which: &[u8]) -> Result<(), Stop> {
        let metadata = self.metadata(which);
        let node = &mut self.nodes[n];
        let mut expected = BTreeSet::new();
        let mut waiting = BTreeSet::new();
        for m in &metadata {
            if m.blob_uri.is_empty() {
                continue;
            }
            match node.entries.get(&m.blob_uri) {
                None => {
                    expected.insert(m.blob_uri.clone());
                    waiting.insert(m.blob_uri.clone());
                }
                Some(Entry::Cached) => {}
                Some(_) => {
                    self.shared += 1;
                    waiting.insert(m.blob_uri.clone());
                }
            }
        }
        let handle = node.cache.load_tablets(&metadata);
        for message in self.take(n)? {
            match message {
                TabletDataCacheOutMessage::LoadRequest(id, request) => {
                    must!(
                        self,
                        ["C05", "C03"],
                        expected.remove(&request.blob_uri),
                        "load of {:?} requests {:?} from the storage, which is cached, already requested or not part of the load: {:?}",
                        metadata,
                        request.blob_uri,
                        self.nodes[n].entries
                    );
                    self.nodes[n].entries.insert(request.blob_uri.clone(), Entry::Loading(id));
                    self.nodes[n].out.push(Outstanding { id, uri: request.blob_uri, store: None });
                }
                TabletDataCacheOutMessage::StoreRequest(_, request, _) => {
                    must!(self, ["C03", "C05"], false, "load of {metadata:?} stores {request:?}");
                }
            }
        }
        must!(self, ["C03", "C05"], expected.is_empty(), "load of {metadata:?} doesn't request {expected:?} although it isn't cached");
        let batch = Batch { handle: Handle::Load(metadata, handle), waiting, failed: false };
        if batch.waiting.is_empty() {
            // Complete at once.
            self.poll_batch(&batch)?;
        } else {
            self.nodes[n].batches.push(batch);
        }
        Ok(())
    }

    fn store(&mut self, n: usize, tablets: &[(u8, Content)]) -> Result<(), Stop> {
        let mut olds: Vec<TabletMetadata> = Vec::new();
        let mut values = Vec::new();
        for (which, content) in tablets {
            let m = self.known[*which as usize % self.known.len()].clone();
            // A batch holds a tablet once.
            if m.tablet_version < u32::MAX && !olds.iter().any(|o| o.tablet_id == m.tablet_id) {
                olds.push(m);
                values.push(content.value());
            }
        }
        let mut news = olds.clone();
        let fails = values.iter().any(|v| serialize(v).is_none());
        let handle = self.nodes[n].cache.store_tablets(news.iter_mut().zip(values.iter().cloned()).collect());
        let messages = self.take(n)?;
        if fails {
            must!(self, ["C04"], messages.is_empty(), "store that cannot be serialized sends {messages:?}");
            must!(
                self,
                ["C04"],
                matches!(handle.check_result(), Some(Err(_))),
                "store that cannot be serialized gives {:?}",
                handle.check_result()
            );
            return Ok(());
        }
        let mut requests: BTreeMap<String, (u64, Bytes)> = BTreeMap::new();
        for message in messages {
            match message {
                TabletDataCacheOutMessage::StoreRequest(id, request, bytes) => {
                    must!(
                        self,
                        ["C04", "C05"],
                        requests.insert(request.blob_uri.clone(), (id, bytes)).is_none(),
                        "{} is stored twice",
                        request.blob_uri
                    );
                }
                TabletDataCacheOutMessage::LoadRequest(_, request) => {
                    must!(self, ["C04", "C05"], false, "store loads {request:?}");
                }
            }
        }
        let mut waiting = BTreeSet::new();
        for ((old, new), value) in olds.iter().zip(&news).zip(&values) {
            let bytes = serialize(value).unwrap();
            must!(self, ["C04"], new.tablet_id == old.tablet_id && new.blob_encryption_key == old.blob_encryption_key && new.deleted == old.deleted,
                "storing the next version of {old:?} makes it {new:?}");
            must!(self, ["C04"], new.tablet_version == old.tablet_version + 1, "storing the next version of {old:?} makes it {new:?}");
            must!(self, ["C04"], new.blob_size as usize == bytes.len(), "size of {} bytes recorded as {}", bytes.len(), new.blob_size);
            must!(self, ["C04"], new.blob_hash == sha(&bytes), "hash of the contents of {new:?} is {:?}", sha(&bytes));
            must!(self, ["C04"], !new.blob_uri.is_empty(), "{new:?} has no location");
            let before = self.written.insert(new.blob_uri.clone(), bytes.clone());
            must!(self, ["C04", "C05", "C03"], before.is_none() || before.as_ref() == Some(&bytes), "location {} is used for {before:?} and {bytes:?}", new.blob_uri);
            let request = requests.remove(&new.blob_uri);
            let node = &mut self.nodes[n];
            match node.entries.get(&new.blob_uri).cloned() {
                None => {
                    must!(self, ["C04", "C05"], request.is_some(), "{new:?} isn't stored");
                    let (id, sent) = request.unwrap();
                    must!(self, ["C04", "C05"], sent == bytes, "{new:?} is stored as {sent:?} and not as {bytes:?}");
                    node.entries.insert(new.blob_uri.clone(), Entry::Storing(id));
                    node.out.push(Outstanding { id, uri: new.blob_uri.clone(), store: Some(sent) });
                    waiting.insert(new.blob_uri.clone());
                }
                Some(entry) => {
                    must!(self, ["C04", "C05"], request.is_none(), "{new:?} is stored again");
                    self.shared += 1;
                    if entry != Entry::Cached {
                        waiting.insert(new.blob_uri.clone());
                    }
                }
            }
        }
        must!(self, ["C04"], requests.is_empty(), "store of {news:?} also stores {requests:?}");
        for new in news {
            if !self.known.contains(&new) {
                self.known.push(new);
            }
        }
        let batch = Batch { handle: Handle::Store(handle), waiting, failed: false };
        if batch.waiting.is_empty() {
            self.poll_batch(&batch)?;
        } else {
            self.nodes[n].batches.push(batch);
        }
        Ok(())
    }

    /// Compares the state of a batch with what it must be.
    fn poll_batch(&self, batch: &Batch) -> Result<(), Stop> {
        let done = batch.waiting.is_empty();
        match &batch.handle {
            Handle::Load(metadata, handle) => match handle.check_result() {
                None => must!(self, ["C03"], !done, "load of {metadata:?} doesn't complete although all replies arrived"),
                Some(Err(_)) => must!(self, ["C03", "C05"], batch.failed, "load of {metadata:?} failed although nothing it needs did"),
                Some(Ok(loaded)) => {
                    must!(self, ["C03", "C05"], !batch.failed, "load of {metadata:?} succeeded although a part of it failed");
                    must!(self, ["C03"], done, "load of {metadata:?} completed although {:?} are outstanding", batch.waiting);
                    let mut got: Vec<(String, Value)> = loaded.iter().map(|(m, v)| (format!("{m:?}"), (**v).clone())).collect();
                    let mut expected: Vec<(String, Value)> = metadata
                        .iter()
                        .map(|m| {
                            let bytes = if m.blob_uri.is_empty() { Bytes::new() } else { self.written[&m.blob_uri].clone() };
                            // Locations of contents that cannot be decoded never become cached.
                            (format!("{m:?}"), deserialize(&bytes).unwrap_or(Value(b"undecodable".to_vec())))
                        })
                        .collect();
                    got.sort();
                    expected.sort();
                    must!(self, ["C03", "C05"], got == expected, "load gives {got:?} and not {expected:?}");
                }
            },
            Handle::Store(handle) => match handle.check_result() {
                None => must!(self, ["C04"], !done, "store doesn't complete although all replies arrived"),
                Some(Err(_)) => must!(self, ["C04", "C05"], batch.failed, "store failed although nothing it needs did"),
                Some(Ok(())) => {
                    must!(self, ["C04", "C05"], !batch.failed, "store succeeded although a part of it was refused");
                    must!(self, ["C04"], done, "store completed although {:?} are outstanding", batch.waiting);
                }
            },
        }
        Ok(())
    }

    fn poll(&mut self, n: usize) -> Result<(), Stop> {
        for batch in &self.nodes[n].batches {
            self.poll_batch(batch)?;
        }
        self.nodes[n].batches.retain(|b| !b.waiting.is_empty());
        Ok(())
    }

    fn progress(&mut self, n: usize) -> Result<(), Stop> {
        self.nodes[n].cache.make_progress(1);
        let messages = self.take(n)?;
        must!(self, ["C05"], messages.is_empty(), "{messages:?} are sent although nothing was asked for");
        self.poll(n)
    }

    fn load_reply(&self, uri: &str, fate: &Fate) -> (i32, Bytes) {
        let right = self.storage.get(uri).cloned();
        let good = TabletDataStorageStatus::Succeeded as i32;
        let failed = TabletDataStorageStatus::Failed as i32;
        let Some(right) = right else { return (failed, Bytes::new()) };
        match fate {
            Fate::Good => (good, right),
            Fate::Failed => (failed, Bytes::new()),
            Fate::Unspecified => (0, right),
            Fate::Unknown(s) => (if *s == good { 77 } else { *s }, right),
            Fate::Flipped(i) => {
                let mut b = right.to_vec();
                if b.is_empty() {
                    b.push(1);
                } else {
                    let bit = *i as usize % (b.len() * 8);
                    b[bit / 8] ^= 1 << (bit % 8);
                }
                (good, b.into())
            }
            Fate::Truncated => (good, right.slice(0..right.len().saturating_sub(1))),
            Fate::Extended => (good, [&right[..], &[SUFFIX]].concat().into()),
            Fate::Empty => (good, Bytes::new()),
            Fate::Swapped(w) => (good, self.storage.values().nth(*w as usize % self.storage.len()).unwrap().clone()),
            Fate::FailedWithBytes => (failed, right),
        }
    }

    fn reply(&mut self, n: usize, which: usize, fate: &Fate) -> Result<(), Stop> {
        let request = self.nodes[n].out.remove(which);
        self.nodes[n].answered.push((request.id, request.store.is_some(), request.uri.clone()));
        let good = TabletDataStorageStatus::Succeeded as i32;
        let ok;
        if let Some(bytes) = &request.store {
            let status = match fate {
                Fate::Good | Fate::Flipped(_) | Fate::Truncated | Fate::Extended | Fate::Swapped(_) => good,
                Fate::Unspecified | Fate::Empty => 0,
                Fate::Unknown(s) => if *s == good { 77 } else { *s },
                Fate::Failed | Fate::FailedWithBytes => TabletDataStorageStatus::Failed as i32,
            };
            ok = status == good;
            if ok {
                self.storage.insert(request.uri.clone(), bytes.clone());
            }
            self.nodes[n].cache.process_in_message(TabletDataCacheInMessage::StoreResponse(request.id, StoreTabletResponse { status }));
        } else {
            let (status, bytes) = self.load_reply(&request.uri, fate);
            ok = status == good && self.written.get(&request.uri) == Some(&bytes) && deserialize(&bytes).is_some();
            self.nodes[n].cache.process_in_message(TabletDataCacheInMessage::LoadResponse(request.id, LoadTabletResponse { status }, bytes));
        }
        let node = &mut self.nodes[n];
        if ok {
            node.entries.insert(request.uri.clone(), Entry::Cached);
        } else {
            self.faults += 1;
            node.entries.remove(&request.uri);
        }
        for batch in &mut node.batches {
            if batch.waiting.remove(&request.uri) && !ok {
                batch.failed = true;
            }
        }
        // Replies take effect when progress is made.
        self.progress(n)
    }

    fn step(&mut self, step: &Step) -> Result<(), Stop> {
        match step {
            Step::Load { cache, tablets } => self.load(*cache as usize, tablets)?,
            Step::Store { cache, tablets } => self.store(*cache as usize, tablets)?,
            Step::Reply { cache, which, fate } => {
                let n = *cache as usize;
                if !self.nodes[n].out.is_empty() {
                    self.reply(n, *which as usize % self.nodes[n].out.len(), fate)?;
                }
            }
            Step::Again { cache, which, fate, other_kind } => {
                let n = *cache as usize;
                let node = &self.nodes[n];
                if !node.answered.is_empty() {
                    let (id, store, uri) = node.answered[*which as usize % node.answered.len()].clone();
                    self.info.label(true, "repeated reply");
                    if store != *other_kind {
                        let status = if matches!(fate, Fate::Good) { 2 } else { 1 };
                        self.nodes[n].cache.process_in_message(TabletDataCacheInMessage::StoreResponse(id, StoreTabletResponse { status }));
                    } else {
                        let (status, bytes) = self.load_reply(&uri, fate);
                        self.nodes[n].cache.process_in_message(TabletDataCacheInMessage::LoadResponse(id, LoadTabletResponse { status }, bytes));
                    }
                    self.progress(n)?;
                }
            }
            Step::Stray { cache, id, store } => {
                let n = *cache as usize;
                let id = if self.nodes[n].used_ids.contains(id) { *id ^ 1 << 40 } else { *id };
                if !self.nodes[n].used_ids.contains(&id) {
                    self.nodes[n].cache.process_in_message(if *store {
                        TabletDataCacheInMessage::StoreResponse(id, StoreTabletResponse { status: 2 })
                    } else {
                        TabletDataCacheInMessage::LoadResponse(id, LoadTabletResponse { status: 2 }, Bytes::from_static(b"stray"))
                    });
                    self.progress(n)?;
                }
            }
            Step::WrongKind { cache, which } => {
                let n = *cache as usize;
                if !self.nodes[n].out.is_empty() {
                    let w = *which as usize % self.nodes[n].out.len();
                    let id = self.nodes[n].out[w].id;
                    self.info.label(true, "reply of the wrong kind");
                    let message = if self.nodes[n].out[w].store.is_none() {
                        TabletDataCacheInMessage::StoreResponse(id, StoreTabletResponse { status: 2 })
                    } else {
                        TabletDataCacheInMessage::LoadResponse(id, LoadTabletResponse { status: 2 }, Bytes::from_static(b"wrong"))
                    };
                    self.nodes[n].cache.process_in_message(message);
                    self.progress(n)?;
                }
            }
            Step::Progress { cache } => self.progress(*cache as usize)?,
            Step::Foreign { tablet, content, decodable } => {
                let old = self.known[*tablet as usize % self.known.len()].clone();
                let Some(mut bytes) = serialize(&content.value()) else { return Ok(()) };
                if !decodable {
                    bytes = [&bytes[..], b"junk"].concat().into();
                }
                if old.tablet_version == u32::MAX {
                    return Ok(());
                }
                let hash = sha(&bytes);
                let new = TabletMetadata {
                    tablet_version: old.tablet_version + 1,
                    blob_size: bytes.len() as u32,
                    blob_hash: hash.clone(),
                    blob_uri: format!("foreign/{}/{}/{:?}", old.tablet_id, old.tablet_version + 1, hash),
                    ..old
                };
                self.storage.insert(new.blob_uri.clone(), bytes.clone());
                self.written.insert(new.blob_uri.clone(), bytes);
                if !self.known.contains(&new) {
                    self.known.push(new);
                }
            }
        }
        Ok(())
    }

    fn run(&mut self, case: &Case) -> Result<(), Stop> {
        for step in &case.steps {
            self.step(step)?;
        }
        // All outstanding requests are answered.
        for n in 0..self.nodes.len() {
            while !self.nodes[n].out.is_empty() {
                self.reply(n, 0, &Fate::Good)?;
            }
        }
        // Everything that is in the storage and isn't garbage can be loaded after whatever
        // happened before.
        for n in 0..self.nodes.len() {
            for which in 0..self.known.len().min(250) {
                self.load(n, &[which as u8])?;
                while !self.nodes[n].out.is_empty() {
                    self.reply(n, 0, &Fate::Good)?;
                }
            }
        }
        Ok(())
    }
}

fn check(focus: &'static str, case: &Case) -> Outcome {
    let mut sim = Sim {
        focus,
        nodes: (0..2)
            .map(|i| {
                let mut cache = DefaultTabletDataCache::create(
                    (2 << 56) + i,
                    Box::new(Serializer),
                    Box::new(DefaultTabletDataCachePolicy::new()),
                );
                cache.init(logger(), TabletDataCacheConfig { tablet_cache_capacity: 1 << 20 });
                Node {
                    cache,
                    entries: BTreeMap::new(),
                    out: Vec::new(),
                    answered: Vec::new(),
                    used_ids: BTreeSet::new(),
                    batches: Vec::new(),
                }
            })
            .collect(),
        storage: BTreeMap::new(),
        written: BTreeMap::new(),
        known: Vec::new(),
        info: Info::default(),
        faults: 0,
        shared: 0,
    };
    let mut ids = BTreeSet::new();
    for (id, version) in &case.tablets {
        if !ids.insert(*id) {
            continue;
        }
        let mut m = TabletMetadata { tablet_id: *id, tablet_version: *version, ..Default::default() };
        if *version > 0 {
            m.blob_encryption_key = Bytes::copy_from_slice(&id.to_le_bytes());
            let bytes = serialize(&Value(id.to_le_bytes().map(|b| b & 0x7f).to_vec())).unwrap();
            m.blob_hash = sha(&bytes);
            m.blob_size = bytes.len() as u32;
            m.blob_uri = format!("initial/{id}");
            sim.storage.insert(m.blob_uri.clone(), bytes.clone());
            sim.written.insert(m.blob_uri.clone(), bytes);
        }
        sim.known.push(m);
    }
    match sim.run(case) {
        Err(Stop::Violation(message)) => Err(message),
        Err(Stop::Elsewhere) => Ok(Info::default()),
        Ok(()) => {
            let (faults, shared) = (sim.faults, sim.shared);
            let mut info = sim.info;
            let batches = case.steps.iter().filter(|s| matches!(s, Step::Load { tablets, .. } if tablets.len() > 1) || matches!(s, Step::Store { tablets, .. } if tablets.len() > 1)).count();
            let large = |c: &Content| matches!(c, Content::Large(65536.., _));
            info.label(faults > 0, "failed or corrupted reply")
                .label(
                    case.steps.iter().any(|s| matches!(s, Step::Store { tablets, .. } if tablets.iter().any(|t| large(&t.1)))),
                    "contents of more than 64 KiB",
                )
                .label(shared > 0, "shared request or contents")
                .label(batches > 0, "batch of several tablets");
            info.nontrivial = match focus {
                "C03" => faults > 0 && batches > 0,
                "C04" => case.steps.iter().filter(|s| matches!(s, Step::Store { .. })).count() > 1,
                _ => faults > 0 && shared > 0,
            };
            Ok(info)
        }
    }
}

pub fn facets() -> Vec<Facet> {
    const QUICK: u64 = 1_000_000;
    const THOROUGH: u64 = 15_000_000;
    vec![
        facet(
            "C03",
            "data",
            "histories of loads and stores of batches on two caches sharing a data storage that fails, corrupts, swaps and delays; non-trivial: batches and at least one failed or corrupted reply",
            QUICK,
            THOROUGH,
            case,
            |c| check("C03", c),
        ),
        facet(
            "C04",
            "data",
            "histories of loads and stores of batches on two caches sharing a data storage that fails and delays; non-trivial: several stores",
            QUICK,
            THOROUGH,
            case,
            |c| check("C04", c),
        ),
        facet(
            "C05",
            "data",
            "histories of loads and stores of batches on two caches sharing a data storage that fails, corrupts and delays; non-trivial: a failed reply and a request or contents shared by several batches",
            QUICK,
            THOROUGH,
            case,
            |c| check("C05", c),
        ),
    ]
}
