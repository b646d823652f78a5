//! As /repo/apps/tablet_cache/service/build.rs, but with prost-build instead
//! of Oak's micro_rpc_build.

fn main() {
    println!("cargo:rerun-if-changed=/repo/apps/tablet_cache/service/proto/tablet_cache.proto");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=TCP_REPO_HASH");
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.message_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)] #[serde(default)]");
    config.enum_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)]");
    config.bytes([
        ".apps.tablet_cache.service.PutKeyRequest",
        ".apps.tablet_cache.service.PutKeyResponse",
        ".apps.tablet_cache.service.GetKeyRequest",
        ".apps.tablet_cache.service.GetKeyResponse",
        ".apps.tablet_cache.service.TabletContents",
    ]);
    config
        .compile_protos(
            &["/repo/apps/tablet_cache/service/proto/tablet_cache.proto"],
            &["/repo/apps/tablet_cache/service/proto"],
        )
        .unwrap();
}
