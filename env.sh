# Sourced by the scripts of /verif: the toolchain and where build output goes.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export PROTOC=/usr/bin/protoc
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
export CARGO_TARGET_DIR=$VERIF_DIR/target
# Everything built from /repo is rebuilt when its contents changes, whatever the file times say.
TCP_REPO_HASH=$(cd /repo && find proto runtime/src apps -type f \( -name '*.rs' -o -name '*.proto' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
export TCP_REPO_HASH
