mod common;
mod attestation;
mod cacheactor;
mod channel;
mod cluster;
mod counter;
mod handshakes;
mod hostile;
mod lifecycle;
mod logs;
mod scribe;
mod sim;
mod snapshot;
mod storage;
mod tablets;

use std::path::PathBuf;

fn main() {
    let root = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".to_string()));
    let mut facets = Vec::new();
    facets.extend(logs::facets());
    facets.extend(scribe::facets());
    facets.extend(tablets::facets());
    facets.extend(counter::facets());
    facets.extend(cacheactor::facets());
    facets.extend(storage::facets());
    facets.extend(snapshot::facets());
    facets.extend(cluster::facets());
    facets.extend(lifecycle::facets());
    facets.extend(hostile::facets());
    facets.extend(channel::facets());
    facets.extend(handshakes::facets());
    facets.extend(attestation::facets());
    pbt::main_with(pbt::Paths { root }, facets, &[])
}
