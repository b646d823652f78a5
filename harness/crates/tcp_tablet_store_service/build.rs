//! As /repo/apps/tablet_store/service/build.rs, but with prost-build instead
//! of Oak's micro_rpc_build.

fn main() {
    println!("cargo:rerun-if-changed=/repo/apps/tablet_store/service/proto/tablet_store.proto");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=TCP_REPO_HASH");
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.message_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)] #[serde(default)]");
    config.enum_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)]");
    config.bytes([".apps.tablet_store.service.TabletMetadata"]);
    config
        .compile_protos(
            &["/repo/apps/tablet_store/service/proto/tablet_store.proto"],
            &["/repo/apps/tablet_store/service/proto"],
        )
        .unwrap();
}
