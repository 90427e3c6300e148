#!/bin/bash
# setup.sh: builds the harness from the committed files and /repo's working tree
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
cd "$VERIF" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
source "$VERIF/build.sh"
build_core || exit 2
build_models || exit 2
build_cli || exit 2
