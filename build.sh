#!/bin/bash
# build.sh [dev|release]...: builds the simulator against /repo's current working tree (both
# profiles by default).  Prints nothing on success; on failure prints the log and exits 2.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_TARGET_DIR="$(cd .. && pwd)/.build" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_PANIC
profs=${*:-dev release}
mkdir -p "$CARGO_TARGET_DIR"
# cargo looks at modification times; look at the content as well
sum=$( { cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cat "$OLDPWD/rustc-wrap.sh"; } | sha256sum | cut -d' ' -f1)
one() {
  local prof=$1 mark="$CARGO_TARGET_DIR/built-$1" log="$CARGO_TARGET_DIR/log-$1"
  if [ "$(cat "$mark" 2>/dev/null)" != "$sum" ]; then
    rm -f "$mark"
    cargo clean --offline --quiet --profile "$prof" -p nodejs-resolver >"$log" 2>&1
  fi
  if ! cargo build --offline --quiet --profile "$prof" >"$log" 2>&1; then
    # (what a host does to the public maps of the cache needs them to have their usual type)
    if ! cargo build --offline --quiet --profile "$prof" --no-default-features >"$log-2" 2>&1; then
      cat "$log"; return 1
    fi
  fi
  echo "$sum" >"$mark"
}
pids=()
for p in $profs; do one "$p" & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=2; done
exit $rc
