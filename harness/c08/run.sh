# Sourced by check.sh.
build "$T" -p mc-c08 || { tail -40 "$here/out/build.log"; echo "$id: the library does not build"; exit 2; }
ext=$here/out/c08-externs.$$.json
cargo +nightly build --release --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$T" -p mc-c08 --message-format json 2>/dev/null | python3 -c '
import json, os, sys
ext, dirs = {}, []
for l in sys.stdin:
    d = json.loads(l)
    if d.get("reason") != "compiler-artifact": continue
    for f in d["filenames"]:
        if os.path.dirname(f) not in dirs: dirs.append(os.path.dirname(f))
        n = d["target"]["name"].replace("-", "_")
        if n in ("miniserde", "mc_noop") and f.endswith((".rmeta", ".rlib", ".so")):
            if not ext.get(n, "").endswith(".rmeta"): ext[n] = f
assert set(ext) == {"miniserde", "mc_noop"}, ext
json.dump({"externs": ext, "dirs": dirs}, open(sys.argv[1], "w"))
' "$ext" || { echo "$id: cannot find the build products"; exit 3; }
exec 9>&-
python3 "$here/harness/c08/check.py" "$tier" "$ext" "$@"
r=$?
rm -f "$ext"
exit $r
