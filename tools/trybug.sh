#!/bin/bash
# trybug.sh PATCH [--tests] [--demo DIR] ID...   Runs the quick checks (all when none is named) against a
# patched copy of /repo, in a mount namespace of its own: nothing of the real /repo or /verif changes.
set -u
patch=$(realpath "$1"); shift
tests=; demo=; tier=quick
while :; do case "${1:-}" in
    --tests) tests=1; shift;;
    --demo) demo=$(realpath "$2"); shift 2;;
    --thorough) tier=thorough; shift;;
    *) break;; esac; done
ids="$*"
[ -n "$ids" ] || ids=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
W=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
mkdir "$W/verif"; (cd /verif && cp -a $(ls -A | grep -vx -e .git -e seeded -e out -e evidence) "$W/verif/")
if [ "$patch" != /dev/null ]; then git -C "$W/repo" apply "$patch" || { echo "PATCH DOES NOT APPLY"; exit 2; }; fi
[ -n "$demo" ] && cp -r "$demo" "$W/demo"
cat > "$W/run.sh" <<R
mount --bind "$W/repo" /repo && mount --bind "$W/verif" /verif || exit 9
cd /verif
if [ -n "$tests" ]; then
  bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "BUILD FAILS"; tail -30 $W/build.log; exit 3; }
  bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
st=b.get('stable_tests') or b.get('stable') or b.get('tests') or b
pa=set(o.get('passed',[])) if isinstance(o.get('passed'),list) else {k for k,v in o.get('tests',o).items() if v in('pass','passed',True)}
st=set(st if isinstance(st,list) else st.keys())
print('TESTS', 'ok' if st<=pa else 'FAIL %s'%sorted(st-pa)[:5], len(pa))
P
fi
if [ -n "$demo" ]; then
  ( cd /repo && timeout 300 bash $W/demo/demo.sh > $W/demo.log 2>&1; echo "DEMO rc \$?"; tail -3 $W/demo.log )
fi
for i in $ids; do
  s=\$(date +%s.%N)
  timeout 900 ./check.sh \$i $tier > $W/o.log 2>&1; r=\$?
  printf '%s rc=%s %.0fs %s\n' \$i \$r \$(echo "\$(date +%s.%N)-\$s" | bc) "\$(grep -a -m1 -B1 VIOLATION $W/o.log | head -1 | cut -c1-150)"
  [ \$r -gt 1 ] && tail -3 $W/o.log
done
R
unshare -m bash "$W/run.sh"
