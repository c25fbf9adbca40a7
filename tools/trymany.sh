#!/bin/bash
# trymany.sh JOBS BUG...: tests, demo and the property's own check of each bug (ALL=1: every check)
j=$1; shift
one() { b=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  grep -q "\"$p\"" /verif/MANIFEST.json || p=
  [ -n "${ALL:-}" ] && p=
  [ -z "$p" ] && [ -z "${ALL:-}" ] && p=C01
  o=$(/verif/tools/trybug.sh /verif/seeded/$b/patch.diff ${NOTESTS:---tests --demo /verif/seeded/$b} $p 2>&1)
  printf '=== %s\n%s\n' "$b" "$o"; }
export -f one
printf '%s\n' "$@" | xargs -P "$j" -I{} bash -c 'one {}'
