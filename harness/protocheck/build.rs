//! Generates the messages of the published schemas (golden/, as of the pinned revision) and of
//! the schemas in /repo side by side, and a table of the messages that both have.

use prost::Message;
use prost_types::{DescriptorProto, FileDescriptorSet};
use std::collections::BTreeMap;
use std::{env, fs, path::Path};

const OAK: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../oak/oak_proto_rust/protos");
const GOLDEN: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/golden");

/// Package, file in golden/, file in /repo.
const SCHEMAS: [(&str, &str, &str); 5] = [
    ("trustedcompute.runtime.endpoint", "endpoint", "/repo/proto/src"),
    ("apps.tablet_store.service", "tablet_store", "/repo/apps/tablet_store/service/proto"),
    ("apps.tablet_cache.service", "tablet_cache", "/repo/apps/tablet_cache/service/proto"),
    ("apps.atomic_counter.service", "atomic_counter", "/repo/apps/atomic_counter/service/proto"),
    ("apps.willow.decryptor.service", "willow_decryptor", "/repo/apps/willow/decryptor/actor/proto"),
];

fn snake(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            out.push('_');
        }
        out.extend(c.to_lowercase());
    }
    out
}

/// Full name to Rust path, messages and enumerations.
fn collect(
    prefix: &str,
    path: &str,
    message: &DescriptorProto,
    messages: &mut BTreeMap<String, String>,
    enums: &mut BTreeMap<String, String>,
) {
    if message.options.as_ref().is_some_and(|o| o.map_entry()) {
        return;
    }
    let name = format!("{prefix}.{}", message.name());
    messages.insert(name.clone(), format!("{path}::{}", message.name()));
    let inner = format!("{path}::{}", snake(message.name()));
    for nested in &message.nested_type {
        collect(&name, &inner, nested, messages, enums);
    }
    for e in &message.enum_type {
        enums.insert(format!("{name}.{}", e.name()), format!("{inner}::{}", e.name()));
    }
}

fn side(side: &str, files: &[(&str, String, String)]) -> (BTreeMap<String, String>, BTreeMap<String, String>) {
    let out = env::var("OUT_DIR").unwrap();
    let dir = Path::new(&out).join(side);
    fs::create_dir_all(&dir).unwrap();
    let mut all = FileDescriptorSet::default();
    let (mut messages, mut enums) = (BTreeMap::new(), BTreeMap::new());
    for (package, file, include) in files {
        let fds = dir.join(format!("{package}.fds"));
        let mut config = prost_build::Config::new();
        config.out_dir(&dir);
        config.file_descriptor_set_path(&fds);
        config.btree_map(["."]);
        config.message_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)] #[serde(default)]");
        config.enum_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)]");
        config.extern_path(".oak", "::oak_proto_rust::oak");
        config.compile_protos(&[file], &[include.as_str(), OAK]).unwrap();
        let set = FileDescriptorSet::decode(&fs::read(&fds).unwrap()[..]).unwrap();
        for f in set.file {
            if f.package() == *package {
                let path = format!("crate::{side}::{}", package.replace('.', "_"));
                for m in &f.message_type {
                    collect(package, &path, m, &mut messages, &mut enums);
                }
                for e in &f.enum_type {
                    enums.insert(format!("{package}.{}", e.name()), format!("{path}::{}", e.name()));
                }
            }
            if !all.file.iter().any(|o| o.name() == f.name() && o.package() == f.package()) {
                all.file.push(f);
            }
        }
    }
    fs::write(dir.join("all.fds"), all.encode_to_vec()).unwrap();
    (messages, enums)
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=golden");
    println!("cargo:rerun-if-changed={OAK}");
    println!("cargo:rerun-if-env-changed=TCP_REPO_HASH");
    let golden: Vec<_> =
        SCHEMAS.iter().map(|(p, f, _)| (*p, format!("{GOLDEN}/{f}.proto"), GOLDEN.to_string())).collect();
    let repo: Vec<_> = SCHEMAS.iter().map(|(p, f, d)| (*p, format!("{d}/{f}.proto"), d.to_string())).collect();
    let (golden_messages, golden_enums) = side("golden", &golden);
    let (repo_messages, repo_enums) = side("repo", &repo);
    let mut table = String::from("pub fn messages() -> Vec<crate::Entry> { vec![\n");
    for (name, g) in &golden_messages {
        if let Some(r) = repo_messages.get(name) {
            table += &format!("crate::entry::<{g}, {r}>({name:?}),\n");
        }
    }
    table += "] }\npub fn enums() -> Vec<crate::EnumEntry> { vec![\n";
    for (name, _) in &golden_enums {
        if let Some(r) = repo_enums.get(name) {
            table += &format!(
                "crate::EnumEntry {{ name: {name:?}, from_name: |n| {r}::from_str_name(n).map(|v| v as i32), \
                 to_name: |v| {r}::try_from(v).ok().map(|v| v.as_str_name()) }},\n"
            );
        }
    }
    table += "] }\n";
    let out = env::var("OUT_DIR").unwrap();
    fs::write(Path::new(&out).join("table.rs"), table).unwrap();
    let mut mods = String::new();
    for side in ["golden", "repo"] {
        mods += &format!("pub mod {side} {{\n");
        for (package, _, _) in SCHEMAS {
            mods += &format!(
                "pub mod {} {{ include!(concat!(env!(\"OUT_DIR\"), \"/{side}/{package}.rs\")); }}\n",
                package.replace('.', "_")
            );
        }
        mods += "}\n";
    }
    fs::write(Path::new(&out).join("mods.rs"), mods).unwrap();
}
