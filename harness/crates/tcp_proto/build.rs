//! Generates the messages of /repo/proto/src/endpoint.proto the way /repo/proto/build.rs does,
//! but with prost-build instead of Oak's micro_rpc_build, and against the stand-ins for Oak's
//! .proto files.

use std::{env, fs, path::Path};

const PROTO: &str = "/repo/proto/src/endpoint.proto";
const OAK: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../../oak/oak_proto_rust/protos");

fn main() {
    println!("cargo:rerun-if-changed={PROTO}");
    println!("cargo:rerun-if-changed={OAK}");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=TCP_REPO_HASH");
    let out_dir = env::var("OUT_DIR").unwrap();

    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.message_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)] #[serde(default)]");
    config.enum_attribute(".", "#[derive(serde::Serialize, serde::Deserialize)]");
    config.extern_path(".oak", "::oak_proto_rust::oak");
    config.bytes([
        ".trustedcompute.runtime.endpoint.StartReplicaRequest",
        ".trustedcompute.runtime.endpoint.DeliverSystemMessage",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotRequest",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotResponse",
        ".trustedcompute.runtime.endpoint.ExecuteProposalRequest",
        ".trustedcompute.runtime.endpoint.ExecuteProposalResponse",
        ".trustedcompute.runtime.endpoint.DeliverAppMessage",
        ".trustedcompute.runtime.endpoint.Entry",
        ".trustedcompute.runtime.endpoint.Payload",
    ]);
    config.compile_protos(&[PROTO], &["/repo/proto/src", OAK]).unwrap();

    // Instead of generated servers, the traits that micro_rpc_build and tonic generate for the
    // service.
    let tonic_dir = Path::new(&out_dir).join("tonic");
    fs::create_dir_all(&tonic_dir).unwrap();
    fs::write(
        tonic_dir.join("trustedcompute.runtime.endpoint.rs"),
        "pub trait EndpointService {
            fn receive_message(
                &mut self,
                request: ReceiveMessageRequest,
            ) -> Result<ReceiveMessageResponse, ::micro_rpc::Status>;
        }
        pub mod endpoint_service_server {
            #[::tonic::async_trait]
            pub trait EndpointService: Send + Sync + 'static {
                async fn receive_message(
                    &self,
                    request: ::tonic::Request<super::ReceiveMessageRequest>,
                ) -> Result<::tonic::Response<super::ReceiveMessageResponse>, ::tonic::Status>;
            }
        }",
    )
    .unwrap();
}
