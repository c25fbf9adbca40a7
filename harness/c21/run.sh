# Sourced by check.sh: C21 compares two builds of the library.
no=$T/nostd
fresh "$no"
c21_no() {
    cargo +nightly build --release --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$no" -p mc-c21side --no-default-features >"$here/out/build.log" 2>&1
}
if ! build "$T" -p mc-c21 || ! build "$T" -p mc-c21side; then
    tail -40 "$here/out/build.log"
    echo "C21: the harness does not build against /repo"
    exit 2
fi
if ! c21_no; then
    # It builds with std, so this is a verdict: without std something is missing.
    mkdir -p "$here/out/replays"
    cp "$here/out/build.log" "$here/out/replays/C21-build.log"
    grep -m5 -A6 '^error' "$here/out/build.log"
    echo "violated: what builds with the std feature does not build without it"
    echo "VIOLATION property=C21 replay=$here/out/replays/C21-build.log"
    exit 1
fi
stamp "$no"
[ "${1:-}" = --setup ] && return 0
exec 9>&-
exec "$T/release/mc-c21" "$tier" "$@"
