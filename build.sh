# sourced by check.sh and setup.sh
mkdir -p "$VERIF/target"
# What cargo sees as changed are modification times; a tree that was swapped under
# it may carry old ones. So compare contents, and drop the stale artefacts.
stamp() { # NAME DIR-OR-FILE.. -> 0 when unchanged
  local name=$1 h; shift
  h=$(cd /repo && find "$@" -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum 2>/dev/null | sha256sum | cut -c1-64)
  if [ "$(cat "$VERIF/target/.stamp-$name" 2>/dev/null)" = "$h" ]; then return 0; fi
  NEWSTAMP=$h; return 1
}
# build NAME CRATE-DIR "PACKAGES TO DROP" INPUTS.. (inputs relative to /repo)
build_one() {
  local name=$1 dir=$2 drop=$3 p; shift 3
  (
    flock 9
    local fresh=1
    if ! stamp "$name" "$@"; then
      fresh=0
      for p in $drop; do ( cd "$dir" && cargo clean -q --locked -p "$p" 2>/dev/null ); done
    fi
    ( cd "$dir" && cargo build -q --locked ) >"$VERIF/target/build-$name.log" 2>&1 || {
      cat "$VERIF/target/build-$name.log" >&2; rm -f "$VERIF/target/.stamp-$name"; exit 2; }
    [ $fresh = 1 ] || echo "$NEWSTAMP" >"$VERIF/target/.stamp-$name"
  ) 9>"$VERIF/target/.lock-$name"
}
build_core() { build_one core "$VERIF/harness" "engineering" src Cargo.toml; }
build_models() { build_one models "$VERIF/models" "engineering ex-tsptw ex-srflp ex-psp" src examples Cargo.toml; }
# the example programs themselves, as release builds (their arithmetic overflows
# harmlessly in places, where debug builds panic), compiled quickly
build_cli() {
  (
    flock 9
    local fresh=1
    if ! stamp cli src examples Cargo.toml; then
      fresh=0
      ( cd /repo && cargo clean -q --release --locked -p engineering --target-dir "$VERIF/target/cli" 2>/dev/null )
    fi
    export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_OPT_LEVEL=1
    ( cd /repo && cargo build -q --release --locked --examples --target-dir "$VERIF/target/cli" ) >"$VERIF/target/build-cli.log" 2>&1 || {
      cat "$VERIF/target/build-cli.log" >&2; rm -f "$VERIF/target/.stamp-cli"; exit 2; }
    [ $fresh = 1 ] || echo "$NEWSTAMP" >"$VERIF/target/.stamp-cli"
  ) 9>"$VERIF/target/.lock-cli"
}
