#!/bin/bash
# check.sh Cxx [quick|thorough]: builds the monitor against the current working tree of /repo, and runs the check
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target/monitor"
mkdir -p "$CARGO_TARGET_DIR"
# never trust a build of the library from before: its sources may have been changed without newer time stamps
# builds with sanitizers need the nightly compiler; without them the rest of the check still stands
sanitized() { # name, flags of the compiler, profile settings
    local dir="$here/target/$1"
    mkdir -p "$dir"
    local b="$dir/x86_64-unknown-linux-gnu/debug"
    rm -rf "$b"/.fingerprint/folia-* "$b"/.fingerprint/monitor-* "$b"/build/folia "$b"/build/monitor
    RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="$2 -Awarnings" CARGO_TARGET_DIR="$dir" CARGO_PROFILE_DEV_OPT_LEVEL=1 \
        cargo build -Zbuild-std --offline --quiet --target x86_64-unknown-linux-gnu --manifest-path "$here/harness/Cargo.toml" 2>"$dir/build.log" \
        && echo "$dir/x86_64-unknown-linux-gnu/debug/monitor"
}
if [ "${1:-}" = C26 ]; then
    if exe=$(sanitized tsan "-Zsanitizer=thread"); then export MONITOR_TSAN="$exe"; fi
fi
main=""
if [ "${1:-}" = C25 ]; then
    export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1
    exe=$(sanitized asan "-Zsanitizer=address --cfg=sanitize_address") && "$exe" sub c25m probe && main="$exe"
    exe=$(sanitized msan "-Zsanitizer=memory -Zsanitizer-memory-track-origins") && "$exe" sub c25m probe && export MONITOR_MSAN="$exe"
    b="$here/target/miri/miri/x86_64-unknown-linux-gnu/debug"
    rm -rf "$b"/.fingerprint/folia-* "$b"/.fingerprint/monitor-* "$b"/.fingerprint/bench-* "$b"/build/folia "$b"/build/monitor "$b"/build/bench
    RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MIRIFLAGS="-Zmiri-disable-isolation" CARGO_TARGET_DIR="$here/target/miri" \
        cargo miri run --offline --quiet --manifest-path "$here/harness/Cargo.toml" -- sub c25 probe 2>"$here/target/miri.log" && export MONITOR_MIRI="$here"
fi
# the tools themselves, as the package builds them
if [ "${1:-}" = C24 ] || [ "${1:-}" = C25 ]; then
    bins="$here/target/bins"
    mkdir -p "$bins"
    rm -rf "$bins"/debug/.fingerprint/folia-*
    [ -e /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
    if ! CARGO_TARGET_DIR="$bins" cargo build --offline --quiet --bins --manifest-path /repo/Cargo.toml 2>"$bins/build.log"; then
        cat "$bins/build.log" >&2
        echo "the tools can not be built" >&2
        exit 2
    fi
    export MONITOR_BINS="$bins/debug"
fi
if [ -z "$main" ]; then
    profile=dev; out=debug
    if [ "${1:-}" = C23 ]; then profile=stack; out=stack; fi
    rm -rf "$CARGO_TARGET_DIR/$out"/.fingerprint/folia-* "$CARGO_TARGET_DIR/$out"/.fingerprint/monitor-*
    if ! cargo build --offline --quiet --profile "$profile" --manifest-path "$here/harness/Cargo.toml" 2>"$CARGO_TARGET_DIR/build.log"; then
        cat "$CARGO_TARGET_DIR/build.log" >&2
        echo "the monitor can not be built against /repo" >&2
        exit 2
    fi
    main="$CARGO_TARGET_DIR/$out/monitor"
fi
export VERIF_ROOT="$here"
exec "$main" "$@"
