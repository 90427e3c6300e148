#!/bin/bash
# check.sh ID [check|replay FILE|stats N]: builds what the property's check needs
# from /repo's current working tree, then runs it. Exit 0: held; 1: VIOLATION line;
# anything else: the check itself could not run.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
cd "$VERIF" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export HOME=${HOME:-/root}
unset CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
: "${VERIF_DIR:=$VERIF}"; export VERIF_DIR
: "${VERIF_SEED:=1}"; export VERIF_SEED
: "${VERIF_TIER:=quick}"; export VERIF_TIER
id=${1:?property id}; cmd=${2:-check}
source "$VERIF/build.sh"
case "$id" in
  C0*|C1*|C20|C21|C22|C34|C35|C36|C37|C38|C39|C40|C41|C42|C43) build_core || exit 2; bin=$VERIF/target/debug/harness ;;
  C31) build_models && build_cli || exit 2; bin=$VERIF/target/debug/models ;;
  *) build_models || exit 2; bin=$VERIF/target/debug/models ;;
esac
exec "$bin" "$cmd" "$id" "${@:3}"
