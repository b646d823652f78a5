fn main() {
    println!("cargo:rerun-if-changed=protos");
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.message_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)] #[serde(default)]");
    config.enum_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)]");
    config
        .compile_protos(
            &[
                "protos/proto/attestation/endorsement.proto",
                "protos/proto/attestation/evidence.proto",
                "protos/proto/attestation/reference_value.proto",
                "protos/proto/session/session.proto",
            ],
            &["protos"],
        )
        .unwrap();
}
