#!/bin/sh
# Builds the checker, with the code as it is in /repo now. Arguments: what else to build (debug, cli).
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=/repo
target="$here/target"
mkdir -p "$target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER

exec 9>"$target/.lock"
flock 9

# cargo goes by the times of files, and those can't be relied on here: go by what's in them
sum=$( (cd "$repo" && find Cargo.toml Cargo.lock src examples -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$target/.sum" 2>/dev/null)" != "$sum" ]; then
    rm -f "$target/.sum"
    for kind in "" --release; do
        cargo clean --offline -q $kind -p undname --manifest-path "$here/harness/Cargo.toml" --target-dir "$target/mc" 2>/dev/null || true
    done
    cargo clean --offline -q --release -p undname --manifest-path "$repo/Cargo.toml" --target-dir "$target/cli" 2>/dev/null || true
fi

build() {
    log="$target/$1.log"
    shift
    if ! "$@" >"$log" 2>&1; then
        cat "$log" >&2
        echo "ENGINE ERROR: the build failed" >&2
        exit 3
    fi
}

build release cargo build --release --locked --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$target/mc"
for what in "$@"; do
    case $what in
        debug) build debug cargo build --locked --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$target/mc" ;;
        cli) build cli cargo build --release --locked --offline --example undecorate_name --manifest-path "$repo/Cargo.toml" --target-dir "$target/cli" ;;
    esac
done
echo "$sum" >"$target/.sum"
