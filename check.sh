#!/bin/bash
# check.sh ID quick|thorough [--replay FILE]   or   check.sh setup
# Rebuilds the harness of one property against /repo's working tree and explores it.
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 cannot build, 3 internal error.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0
export RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTC_WRAPPER
T=$here/target
mkdir -p "$T" "$here/out" "$here/evidence"
exec 9>"$T/.lock"
flock 9

# cargo decides what to rebuild by modification time; a restored file may be older than the last
# build, so drop the affected crates whenever the content differs from what was last built.
sum=$( (cd /repo && find Cargo.toml build.rs src derive -type f -not -path '*/target/*' -print0 2>/dev/null \
        | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
fresh() { # fresh TARGET_DIR MANIFEST
    if [ "$(cat "$1/.srcsum" 2>/dev/null)" != "$sum" ]; then
        rm -f "$1/.srcsum"
        for d in release debug; do
            rm -rf "$1/$d/.fingerprint/"miniserde-* "$1/$d/.fingerprint/"mini-internal-* \
                "$1/$d/build/miniserde" "$1/$d/build/mini-internal"
        done
    fi
}
stamp() { echo "$sum" > "$1/.srcsum"; }
build() { # build TARGET_DIR cargo-args...
    local t=$1; shift
    fresh "$t"
    cargo +nightly build --release --offline --manifest-path "$here/harness/Cargo.toml" \
        --target-dir "$t" "$@" >"$here/out/build.log" 2>&1
    local r=$?
    [ $r = 0 ] && stamp "$t"
    return $r
}
export -f build fresh stamp 2>/dev/null

if [ "${1:-}" = setup ]; then
    build "$T" --workspace || { tail -40 "$here/out/build.log"; exit 2; }
    for s in "$here"/harness/*/setup.sh; do [ -e "$s" ] && { . "$s" || exit 2; }; done
    exit 0
fi

id=$1; tier=${2:-quick}; shift; shift 2>/dev/null
lc=$(echo "$id" | tr 'A-Z' 'a-z')
if [ -e "$here/harness/$lc/run.sh" ]; then
    . "$here/harness/$lc/run.sh"
    exit $?
fi
# The library builds but the supported definitions of the zoo do not compile: that is a verdict.
derives_refused() {
    case $id in C06|C07) ;; *) return 1;; esac
    build "$T" -p mc-c01 || return 1
    mkdir -p "$here/out/replays"
    local r=$here/out/replays/$id-build.log
    build "$T" -p "mc-$lc" && return 1
    cp "$here/out/build.log" "$r"
    grep -m5 -A6 '^error' "$r"
    echo "violated: a supported derived definition does not compile"
    echo "VIOLATION property=$id replay=$r"
    exit 1
}
build "$T" -p "mc-$lc" || derives_refused || { tail -40 "$here/out/build.log"; echo "$id: the harness does not build against /repo"; exit 2; }
exec 9>&-
exec "$T/release/mc-$lc" "$tier" "$@"
