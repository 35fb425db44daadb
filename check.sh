#!/bin/bash
# usage: check.sh ID | check.sh replay FILE | check.sh build
# Builds the checking engine (/verif/mc), the stand-ins, and the tool itself from /repo's current
# working tree, then decides property ID. Exit: 0 holds, 1 violated, anything else: engine error.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${MC_REPO:-/repo}
B=$VERIF/build
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_CACHE_AUTO_CLEAN_FREQUENCY=never
unset CARGO_INCREMENTAL RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_CALL_STACK_RUSTC_WRAPPER RUST_LOG RUSTC
mkdir -p "$B" || exit 3
exec 9>"$B/.lock"; flock 9
fail() { echo "ENGINE-ERROR: $*" >&2; exit 3; }

# --- engine and stand-ins (from /verif)
esum=$(cd "$VERIF/mc" && find . -path ./target -prune -o -type f -print | sort | xargs sha256sum | sha256sum | cut -c1-64)
if [ "$(cat "$B/.engine" 2>/dev/null)" != "$esum" ] || [ ! -x "$B/mc/release/mc" ] || [ ! -x "$B/fake" ] || [ ! -f "$B/shim.so" ]; then
    rm -f "$B/.engine"
    gcc -O2 -static -o "$B/fake" "$VERIF/mc/fake/fake.c" || fail "cannot build the stand-ins"
    gcc -O2 -shared -fPIC -o "$B/shim.so" "$VERIF/mc/fake/shim.c" || fail "cannot build the shim"
    find "$VERIF/mc/src" -name '*.rs' -exec touch {} +
    cargo build --release --offline --quiet --manifest-path "$VERIF/mc/Cargo.toml" --target-dir "$B/mc" >"$B/engine.log" 2>&1 || { cat "$B/engine.log" >&2; fail "cannot build the engine"; }
    echo "$esum" >"$B/.engine"
fi

# --- the tool (from /repo's working tree). Decided by content, not by modification times.
tsum=$(cd "$REPO" && { find src -type f | sort | xargs sha256sum; sha256sum Cargo.toml Cargo.lock 2>/dev/null; ls build.rs .cargo/config .cargo/config.toml 2>/dev/null | xargs -r sha256sum; } | sha256sum | cut -c1-64)
if [ "$(cat "$B/.tool" 2>/dev/null)" != "$tsum" ] || [ ! -x "$B/tool/debug/cargo-call-stack" ]; then
    rm -f "$B/.tool"
    # debug assertions and overflow checks stay on
    export CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_INCREMENTAL=false
    (cd "$REPO" && cargo clean --offline --quiet -p cargo-call-stack --target-dir "$B/tool" >/dev/null 2>&1
     cargo build --offline --quiet --bin cargo-call-stack --target-dir "$B/tool") >"$B/tool.log" 2>&1 || { cat "$B/tool.log" >&2; fail "cannot build the tool from $REPO"; }
    echo "$tsum" >"$B/.tool"
fi
flock -u 9; exec 9>&-
export MC_VERIF=$VERIF MC_TOOL=$B/tool/debug/cargo-call-stack MC_FAKEBIN=$B/fake MC_SHIM=$B/shim.so
case "$1" in
    build) exit 0 ;;
    replay) exec "$B/mc/release/mc" replay "$2" ;;
    *) exec "$B/mc/release/mc" check "$1" ;;
esac
