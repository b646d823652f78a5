//! C15: the messages and their encoding, against the published schemas.
//!
//! The published schemas are pinned copies in golden/. Values are generated from their
//! descriptors, encoded by the published schema, optionally rearranged on the wire in ways that
//! mean the same or that another revision could produce, and read by the schema in /repo; what
//! is read must be the same values under the same names, and what the schema in /repo writes
//! must be read back by the published one as the same value.

use pbt::proptest::prelude::*;
use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use prost::Message;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{DescriptorProto, EnumDescriptorProto, FieldDescriptorProto, FileDescriptorSet};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::OnceLock;

#[allow(deprecated, clippy::all, dead_code)]
mod generated {
    include!(concat!(env!("OUT_DIR"), "/mods.rs"));
}
use generated::{golden, repo};

#[allow(deprecated)]
mod table {
    include!(concat!(env!("OUT_DIR"), "/table.rs"));
}

pub struct Entry {
    name: &'static str,
    /// A value given as JSON, encoded by the published schema.
    golden_encode: fn(&Value) -> Result<Vec<u8>, String>,
    golden_decode: fn(&[u8]) -> Result<Value, String>,
    /// What the schema in /repo reads and then writes again.
    repo_decode: fn(&[u8]) -> Result<(Value, Vec<u8>), String>,
    repo_length: fn(&[u8]) -> Option<(usize, usize)>,
}

pub struct EnumEntry {
    name: &'static str,
    from_name: fn(&str) -> Option<i32>,
    to_name: fn(i32) -> Option<&'static str>,
}

pub fn entry<G, R>(name: &'static str) -> Entry
where
    G: Message + Default + Serialize + DeserializeOwned,
    R: Message + Default + Serialize + PartialEq,
{
    Entry {
        name,
        golden_encode: |v| {
            let g: G = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            Ok(g.encode_to_vec())
        },
        golden_decode: |b| {
            let g = G::decode(b).map_err(|e| e.to_string())?;
            serde_json::to_value(&g).map_err(|e| e.to_string())
        },
        repo_decode: |b| {
            let r = R::decode(b).map_err(|e| e.to_string())?;
            let v = serde_json::to_value(&r).map_err(|e| e.to_string())?;
            let bytes = r.encode_to_vec();
            let again = R::decode(&bytes[..]).map_err(|e| format!("cannot read what it wrote: {e}"))?;
            if again != r {
                return Err("reading what it wrote gives another message".to_string());
            }
            Ok((v, bytes))
        },
        repo_length: |b| R::decode(b).ok().map(|r| (r.encoded_len(), r.encode_to_vec().len())),
    }
}

struct Schema {
    messages: BTreeMap<String, DescriptorProto>,
    enums: BTreeMap<String, EnumDescriptorProto>,
}

impl Schema {
    fn load(bytes: &[u8]) -> Schema {
        let set = FileDescriptorSet::decode(bytes).expect("descriptors");
        let mut s = Schema { messages: BTreeMap::new(), enums: BTreeMap::new() };
        for f in &set.file {
            for m in &f.message_type {
                s.add(f.package(), m);
            }
            for e in &f.enum_type {
                s.enums.insert(format!("{}.{}", f.package(), e.name()), e.clone());
            }
        }
        s
    }

    fn add(&mut self, prefix: &str, m: &DescriptorProto) {
        let name = format!("{prefix}.{}", m.name());
        for n in &m.nested_type {
            self.add(&name, n);
        }
        for e in &m.enum_type {
            self.enums.insert(format!("{name}.{}", e.name()), e.clone());
        }
        self.messages.insert(name, m.clone());
    }

    fn message(&self, name: &str) -> &DescriptorProto {
        &self.messages[name.trim_start_matches('.')]
    }

    /// The entry type of a map field.
    fn map_entry(&self, f: &FieldDescriptorProto) -> Option<&DescriptorProto> {
        (f.r#type() == Type::Message)
            .then(|| self.message(f.type_name()))
            .filter(|m| m.options.as_ref().is_some_and(|o| o.map_entry()))
    }
}

fn golden_schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| Schema::load(include_bytes!(concat!(env!("OUT_DIR"), "/golden/all.fds"))))
}

fn repo_schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| Schema::load(include_bytes!(concat!(env!("OUT_DIR"), "/repo/all.fds"))))
}

fn entries() -> &'static Vec<Entry> {
    static S: OnceLock<Vec<Entry>> = OnceLock::new();
    S.get_or_init(table::messages)
}

fn camel(s: &str) -> String {
    s.split('_').map(|p| p[..1].to_uppercase() + &p[1..]).collect()
}

/// The oneof a field belongs to, not counting the ones made up for optional fields.
fn oneof<'a>(m: &'a DescriptorProto, f: &FieldDescriptorProto) -> Option<&'a str> {
    (!f.proto3_optional()).then(|| f.oneof_index.map(|i| m.oneof_decl[i as usize].name())).flatten()
}

/// The value of a field in the JSON form of a message; null when a message, oneof or optional
/// field isn't set.
fn get<'a>(m: &DescriptorProto, f: &FieldDescriptorProto, v: &'a Value) -> &'a Value {
    match oneof(m, f) {
        Some(o) => v.get(o).and_then(|o| o.get(camel(f.name()))).unwrap_or(&Value::Null),
        None => v.get(f.name()).unwrap_or(&Value::Null),
    }
}

/// The field of the schema in /repo that stands for a published one: of the same name, or of
/// the same number if no field has that name any more.
fn counterpart<'a>(f: &FieldDescriptorProto, m: &'a DescriptorProto) -> Option<&'a FieldDescriptorProto> {
    m.field.iter().find(|r| r.name() == f.name()).or_else(|| m.field.iter().find(|r| r.number() == f.number()))
}

fn is_default(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Bool(b) => !b,
        Value::Number(n) => n.as_i64() == Some(0),
        Value::String(s) => s.is_empty(),
        Value::Array(a) => a.is_empty(),
        Value::Object(o) => o.is_empty(),
    }
}

/// Whether both sides hold the same value for every published field.
fn same(path: &str, gm: &DescriptorProto, gv: &Value, rm: &DescriptorProto, rv: &Value) -> Result<(), String> {
    for f in &gm.field {
        let at = format!("{path}.{}", f.name());
        let g = get(gm, f, gv);
        let Some(rf) = counterpart(f, rm) else {
            ensure!(is_default(g), "{at} is {g} but the field is gone");
            continue;
        };
        let r = get(rm, rf, rv);
        same_field(&at, f, g, rf, r)?;
    }
    Ok(())
}

fn same_field(at: &str, f: &FieldDescriptorProto, g: &Value, rf: &FieldDescriptorProto, r: &Value) -> Result<(), String> {
    if let (Some(ge), Some(re)) = (golden_schema().map_entry(f), repo_schema().map_entry(rf)) {
        let (empty, empty2) = (Map::new(), Map::new());
        let (go, ro) = (g.as_object().unwrap_or(&empty), r.as_object().unwrap_or(&empty2));
        ensure!(go.len() == ro.len(), "{at}: the map {g} is read as {r}");
        for (k, gv) in go {
            let Some(rv) = ro.get(k) else { bail!("{at}: key {k:?} is lost") };
            same_field(&format!("{at}[{k:?}]"), &ge.field[1], gv, &re.field[1], rv)?;
        }
        return Ok(());
    }
    if f.label() == Label::Repeated {
        let (ga, ra) = (g.as_array().cloned().unwrap_or_default(), r.as_array().cloned());
        let Some(ra) = ra else {
            ensure!(ga.is_empty() && is_default(r), "{at}: {g} is read as {r}");
            return Ok(());
        };
        ensure!(ga.len() == ra.len(), "{at}: {} elements are read as {}", ga.len(), ra.len());
        for (i, (x, y)) in ga.iter().zip(&ra).enumerate() {
            same_one(&format!("{at}[{i}]"), f, x, rf, y)?;
        }
        return Ok(());
    }
    same_one(at, f, g, rf, r)
}

fn same_one(at: &str, f: &FieldDescriptorProto, g: &Value, rf: &FieldDescriptorProto, r: &Value) -> Result<(), String> {
    if f.r#type() == Type::Message && rf.r#type() == Type::Message {
        ensure!(g.is_null() == r.is_null(), "{at}: {g} is read as {r}");
        if g.is_null() {
            return Ok(());
        }
        return same(at, golden_schema().message(f.type_name()), g, repo_schema().message(rf.type_name()), r);
    }
    ensure!(g == r || (is_default(g) && is_default(r)), "{at}: {g} is read as {r}");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Generation.

fn scalar(f: &FieldDescriptorProto) -> BoxedStrategy<Value> {
    match f.r#type() {
        Type::Bool => any::<bool>().prop_map(|b| json!(b)).boxed(),
        Type::Uint64 => prop_oneof![
            2 => Just(0u64), 3 => 1..200u64, 2 => any::<u64>(), 1 => Just(u64::MAX), 1 => (0..64u32).prop_map(|s| 1u64 << s)
        ].prop_map(|v| json!(v)).boxed(),
        Type::Uint32 => prop_oneof![
            2 => Just(0u32), 3 => 1..200u32, 2 => any::<u32>(), 1 => Just(u32::MAX), 1 => (0..32u32).prop_map(|s| 1u32 << s)
        ].prop_map(|v| json!(v)).boxed(),
        Type::Int64 => prop_oneof![
            2 => Just(0i64), 3 => -100..200i64, 2 => any::<i64>(), 1 => Just(i64::MIN), 1 => Just(i64::MAX)
        ].prop_map(|v| json!(v)).boxed(),
        Type::Int32 => prop_oneof![
            2 => Just(0i32), 3 => -100..200i32, 2 => any::<i32>(), 1 => Just(i32::MIN), 1 => Just(i32::MAX)
        ].prop_map(|v| json!(v)).boxed(),
        Type::Enum => {
            let values: Vec<i32> =
                golden_schema().enums[f.type_name().trim_start_matches('.')].value.iter().map(|v| v.number()).collect();
            prop_oneof![6 => proptest::sample::select(values), 1 => any::<i32>(), 1 => 0..20i32].prop_map(|v| json!(v)).boxed()
        }
        Type::String => text().prop_map(|s| json!(s)).boxed(),
        Type::Bytes => prop_oneof![
            1 => Just(vec![]),
            3 => proptest::collection::vec(any::<u8>(), 0..6),
            1 => proptest::collection::vec(any::<u8>(), 0..300),
        ].prop_map(|b| json!(b)).boxed(),
        t => panic!("type {t:?} isn't generated"),
    }
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![1 => Just(String::new()), 4 => "[a-z0-9/_]{1,12}", 1 => "\\PC{0,8}", 1 => "[a-z]{120,140}"].boxed()
}

fn one(f: &FieldDescriptorProto) -> BoxedStrategy<Value> {
    match f.r#type() {
        Type::Message => message(f.type_name()),
        _ => scalar(f),
    }
}

fn message(name: &str) -> BoxedStrategy<Value> {
    let m = golden_schema().message(name);
    let mut fields: Vec<BoxedStrategy<(String, Value)>> = Vec::new();
    for (i, o) in m.oneof_decl.iter().enumerate() {
        let members: Vec<&FieldDescriptorProto> =
            m.field.iter().filter(|f| oneof(m, f).is_some() && f.oneof_index == Some(i as i32)).collect();
        if members.is_empty() {
            continue;
        }
        let name = o.name().to_string();
        let mut choices: Vec<BoxedStrategy<Value>> = vec![Just(Value::Null).boxed()];
        for f in members {
            let variant = camel(f.name());
            let s = one(f).prop_map(move |v| json!({ variant.clone(): v })).boxed();
            choices.push(s.clone());
            choices.push(s);
        }
        fields.push(proptest::strategy::Union::new(choices).prop_map(move |v| (name.clone(), v)).boxed());
    }
    for f in m.field.iter().filter(|f| oneof(m, f).is_none()) {
        let name = f.name().to_string();
        let s: BoxedStrategy<Value> = if let Some(e) = golden_schema().map_entry(f) {
            assert_eq!(e.field[0].r#type(), Type::String);
            proptest::collection::btree_map(text(), one(&e.field[1]), 0..4).prop_map(|m| json!(m)).boxed()
        } else if f.label() == Label::Repeated {
            proptest::collection::vec(one(f), 0..4).prop_map(|v| json!(v)).boxed()
        } else if f.r#type() == Type::Message || f.proto3_optional() {
            prop_oneof![1 => Just(Value::Null), 4 => one(f)].boxed()
        } else {
            one(f)
        };
        fields.push(s.prop_map(move |v| (name.clone(), v)).boxed());
    }
    fields.prop_map(|fields| Value::Object(fields.into_iter().collect())).boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ValueCase {
    message: String,
    value: Value,
    /// How the encoding is rearranged: not at all if empty.
    #[serde(default)]
    wire: Vec<u16>,
}

fn value_case(wire: bool) -> BoxedStrategy<ValueCase> {
    let names: Vec<BoxedStrategy<ValueCase>> = entries()
        .iter()
        .map(|e| {
            let name = e.name.to_string();
            let choices =
                if wire { proptest::collection::vec(any::<u16>(), 1..24).boxed() } else { Just(vec![]).boxed() };
            (message(e.name), choices)
                .prop_map(move |(value, wire)| ValueCase { message: name.clone(), value, wire })
                .boxed()
        })
        .collect();
    proptest::strategy::Union::new(names).boxed()
}

fn find(name: &str) -> Result<&'static Entry, String> {
    entries().iter().find(|e| e.name == name).ok_or(format!("no message {name}"))
}

fn check_value(case: &ValueCase) -> Outcome {
    let Ok(entry) = find(&case.message) else { return Ok(Info::new(false)) };
    let gm = golden_schema().message(&case.message);
    let rm = repo_schema().message(&case.message);
    let plain = (entry.golden_encode)(&case.value)?;
    let mut bytes = plain.clone();
    if !case.wire.is_empty() {
        let mut choices = Choices { v: &case.wire, at: 0 };
        bytes = rearrange(&case.message, &plain, &mut choices)?;
    }
    // What the published schema makes of it.
    let expected = (entry.golden_decode)(&bytes)?;
    let (read, written) = (entry.repo_decode)(&bytes).map_err(|e| format!("{}: {e}", case.message))?;
    same(&case.message, gm, &expected, rm, &read)?;
    let back = (entry.golden_decode)(&written).map_err(|e| format!("{}: what it writes isn't readable: {e}", case.message))?;
    ensure!(back == expected, "{}: {expected} is written as {back}", case.message);
    if let Some((len, real)) = (entry.repo_length)(&bytes) {
        ensure!(len == real, "{}: announced length {len}, real length {real}", case.message);
    }
    let mut info = Info::new(plain.len() > 2);
    info.label(case.message.starts_with("trustedcompute"), "endpoint");
    info.label(case.message.starts_with("apps.tablet_store"), "tablet store");
    info.label(case.message.starts_with("apps.tablet_cache"), "tablet cache");
    info.label(case.message.starts_with("apps.atomic"), "atomic counter");
    info.label(case.message.starts_with("apps.willow"), "decryptor");
    info.label(bytes != plain, "rearranged");
    info.label(expected != case.value, "fields dropped");
    Ok(info)
}

// ---------------------------------------------------------------------------------------------
// The wire.

struct Choices<'a> {
    v: &'a [u16],
    at: usize,
}

impl Choices<'_> {
    fn next(&mut self, n: usize) -> usize {
        if self.v.is_empty() || n == 0 {
            return 0;
        }
        self.at += 1;
        // A different reading of the list each time round.
        let x = self.v[self.at % self.v.len()] as usize;
        let round = self.at / self.v.len();
        x.wrapping_mul(2 * round + 1).wrapping_add(round) % n
    }
}

#[derive(Clone)]
struct Record {
    number: u32,
    wire: u8,
    /// The contents without the length.
    body: Vec<u8>,
}

fn varint(b: &mut &[u8]) -> Result<u64, String> {
    let mut v = 0u64;
    for shift in 0..10 {
        let (&first, rest) = b.split_first().ok_or("truncated varint")?;
        *b = rest;
        v |= ((first & 0x7f) as u64) << (7 * shift);
        if first < 0x80 {
            return Ok(v);
        }
    }
    Err("varint too long".to_string())
}

fn put_varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

fn parse(mut b: &[u8]) -> Result<Vec<Record>, String> {
    let mut records = Vec::new();
    while !b.is_empty() {
        let key = varint(&mut b)?;
        let (number, wire) = ((key >> 3) as u32, (key & 7) as u8);
        let body = match wire {
            0 => {
                let mut body = Vec::new();
                put_varint(varint(&mut b)?, &mut body);
                body
            }
            1 | 5 => {
                let n = if wire == 1 { 8 } else { 4 };
                if b.len() < n {
                    return Err("truncated".to_string());
                }
                let (x, rest) = b.split_at(n);
                b = rest;
                x.to_vec()
            }
            2 => {
                let n = varint(&mut b)? as usize;
                if b.len() < n {
                    return Err("truncated".to_string());
                }
                let (x, rest) = b.split_at(n);
                b = rest;
                x.to_vec()
            }
            _ => return Err(format!("wire type {wire}")),
        };
        records.push(Record { number, wire, body });
    }
    Ok(records)
}

fn unparse(records: &[Record]) -> Vec<u8> {
    let mut out = Vec::new();
    for r in records {
        put_varint((r.number as u64) << 3 | r.wire as u64, &mut out);
        if r.wire == 2 {
            put_varint(r.body.len() as u64, &mut out);
        }
        out.extend(&r.body);
    }
    out
}

/// Another encoding of the same fields, possibly with some left out and with fields of numbers
/// that no revision uses.
fn rearrange(name: &str, bytes: &[u8], c: &mut Choices) -> Result<Vec<u8>, String> {
    let m = golden_schema().message(name);
    let mut out: Vec<Record> = Vec::new();
    for mut r in parse(bytes)? {
        let f = m.field.iter().find(|f| f.number() == r.number as i32);
        if let Some(f) = f {
            if f.r#type() == Type::Message {
                if golden_schema().map_entry(f).is_none() {
                    r.body = rearrange(f.type_name(), &r.body, c)?;
                }
            } else if f.label() == Label::Repeated && r.wire == 2 && !matches!(f.r#type(), Type::Bytes | Type::String) {
                // Packed numbers: one by one.
                if c.next(2) == 0 {
                    let mut b = &r.body[..];
                    while !b.is_empty() {
                        let mut body = Vec::new();
                        put_varint(varint(&mut b)?, &mut body);
                        out.push(Record { number: r.number, wire: 0, body });
                    }
                    continue;
                }
            }
        }
        if c.next(8) == 1 {
            continue; // left out
        }
        out.push(r);
    }
    // Reordered, keeping the order of records of the same number.
    let mut queues: BTreeMap<u32, Vec<Record>> = BTreeMap::new();
    let mut order: Vec<u32> = Vec::new();
    for r in out {
        order.insert(c.next(order.len() + 1), r.number);
        queues.entry(r.number).or_default().push(r);
    }
    let mut shuffled = Vec::new();
    for n in order {
        shuffled.push(queues.get_mut(&n).unwrap().remove(0));
    }
    for _ in 0..c.next(3) {
        let number = 5000 + c.next(9000) as u32;
        let record = match c.next(4) {
            0 => {
                let mut body = Vec::new();
                put_varint((c.next(65536) as u64) << c.next(48), &mut body);
                Record { number, wire: 0, body }
            }
            1 => Record { number, wire: 1, body: vec![c.next(256) as u8; 8] },
            2 => Record { number, wire: 5, body: vec![c.next(256) as u8; 4] },
            _ => Record { number, wire: 2, body: vec![c.next(256) as u8; c.next(9)] },
        };
        let at = c.next(shuffled.len() + 1);
        shuffled.insert(at, record);
    }
    Ok(unparse(&shuffled))
}

// ---------------------------------------------------------------------------------------------
// Enumerations.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct EnumCase {
    which: usize,
    value: i32,
}

fn check_enum(case: &EnumCase) -> Outcome {
    let enums = table::enums();
    let e = &enums[case.which % enums.len()];
    let golden = &golden_schema().enums[e.name];
    let repo = &repo_schema().enums[e.name];
    let name = golden.value.iter().find(|v| v.number() == case.value).map(|v| v.name());
    if let Some(name) = name {
        let number = (e.from_name)(name);
        match number {
            Some(n) => ensure!(n == case.value, "{}: {name} is {n}, published as {}", e.name, case.value),
            // Renamed.
            None => ensure!(
                repo.value.iter().any(|v| v.number() == case.value),
                "{}: the value {} published as {name} is gone",
                e.name,
                case.value
            ),
        }
        let back = (e.to_name)(case.value);
        ensure!(
            back.is_some_and(|b| b == name || !golden.value.iter().any(|v| v.name() == b)),
            "{}: {} is read as {back:?}, published as {name}",
            e.name,
            case.value
        );
    } else if let Some(b) = (e.to_name)(case.value) {
        ensure!(
            !golden.value.iter().any(|v| v.name() == b),
            "{}: {} is read as {b}, which is published with another number",
            e.name,
            case.value
        );
    }
    Ok(Info::new(name.is_some()))
}

// ---------------------------------------------------------------------------------------------
// Arbitrary bytes.

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BytesCase {
    message: String,
    bytes: Vec<u8>,
}

fn bytes_case() -> BoxedStrategy<BytesCase> {
    let names: Vec<String> = entries().iter().map(|e| e.name.to_string()).collect();
    let garbage = (proptest::sample::select(names), proptest::collection::vec(any::<u8>(), 0..80))
        .prop_map(|(message, bytes)| BytesCase { message, bytes });
    let damaged = (value_case(true), proptest::collection::vec((any::<u16>(), any::<u8>(), 0..4u8), 1..5)).prop_map(
        |(case, damage)| {
            let entry = find(&case.message).unwrap();
            let mut bytes = (entry.golden_encode)(&case.value).unwrap_or_default();
            bytes = rearrange(&case.message, &bytes, &mut Choices { v: &case.wire, at: 0 }).unwrap_or(bytes);
            for (at, byte, how) in damage {
                if bytes.is_empty() {
                    bytes.push(byte);
                }
                let at = at as usize % bytes.len();
                match how {
                    0 => bytes[at] = byte,
                    1 => bytes.insert(at, byte),
                    2 => {
                        bytes.remove(at);
                    }
                    _ => bytes.truncate(at),
                }
            }
            BytesCase { message: case.message, bytes }
        },
    );
    prop_oneof![1 => garbage, 4 => damaged].boxed()
}

fn check_bytes(case: &BytesCase) -> Outcome {
    let Ok(entry) = find(&case.message) else { return Ok(Info::new(false)) };
    let mut info = Info::new(case.bytes.len() > 1);
    match (entry.repo_decode)(&case.bytes) {
        Err(e) => {
            ensure!(!e.contains("what it wrote"), "{}: {e}", case.message);
            info.label(true, "rejected");
        }
        Ok((_, written)) => {
            let (_, again) = (entry.repo_decode)(&written)
                .map_err(|e| format!("{}: cannot read what it wrote: {e}", case.message))?;
            ensure!(again == written, "{}: the encoding isn't stable", case.message);
            info.label(true, "decoded");
        }
    }
    Ok(info)
}

fn facets() -> Vec<Facet> {
    vec![
        facet(
            "C15", "values", "a message whose encoding has more than two bytes",
            400_000, 8_000_000, || value_case(false), check_value,
        ),
        facet(
            "C15", "wire", "a message whose encoding has more than two bytes",
            400_000, 8_000_000, || value_case(true), check_value,
        ),
        facet(
            "C15", "enums", "a published value of an enumeration",
            8_000, 200_000,
            || (0..table::enums().len(), prop_oneof![8 => 0..12i32, 1 => any::<i32>()])
                .prop_map(|(which, value)| EnumCase { which, value }),
            check_enum,
        ),
        facet("C15", "bytes", "at least two bytes", 400_000, 8_000_000, bytes_case, check_bytes),
    ]
}

fn main() {
    let root = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".to_string()));
    pbt::main_with(pbt::Paths { root }, facets(), &[])
}
