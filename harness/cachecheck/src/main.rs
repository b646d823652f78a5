mod common;
mod data;
mod kv;
mod meta;
mod world;

use std::path::PathBuf;

fn main() {
    let root = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".to_string()));
    let mut facets = Vec::new();
    facets.extend(meta::facets());
    facets.extend(data::facets());
    facets.extend(world::facets());
    facets.extend(kv::facets());
    pbt::main_with(pbt::Paths { root }, facets, &[])
}
