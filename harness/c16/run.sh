# Sourced by check.sh: C16 runs in the Miri interpreter and natively under AddressSanitizer.
c16_dirs=("$T/miri/miri" "$T/miri/miri/x86_64-unknown-linux-gnu" "$T/asan" "$T/asan/x86_64-unknown-linux-gnu")
c16_build() {
    local m="$here/harness/c16/Cargo.toml"
    cargo +nightly miri run --offline -q --manifest-path "$m" --target-dir "$T/miri" >"$here/out/build.log" 2>&1 || return 1
    RUSTFLAGS="-Awarnings -Zsanitizer=address" cargo +nightly build --release --offline --manifest-path "$m" \
        --target x86_64-unknown-linux-gnu --target-dir "$T/asan" >>"$here/out/build.log" 2>&1
}
for t in "${c16_dirs[@]}"; do fresh "$t"; done
if ! c16_build; then
    tail -40 "$here/out/build.log"
    echo "C16: the harness does not build against /repo"
    exit 2
fi
for t in "${c16_dirs[@]}"; do stamp "$t"; done
[ "${1:-}" = --setup ] && return 0
exec 9>&-
export ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1
exec "$T/asan/x86_64-unknown-linux-gnu/release/mc-c16" "$tier" "$@"
