#!/bin/bash
# Builds the checkers.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness || exit 2
cargo build --offline --locked -p cachecheck -p protocheck -p rtcheck || exit 1
# A failure of this one is a matter of C30 only, and reported there.
cargo build --offline --locked -p servicecheck
exit 0
