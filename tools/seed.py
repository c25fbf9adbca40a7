#!/usr/bin/env python3
"""seed.py FILE.py...: writes /verif/seeded/<id>/ for each bug dict in BUGS of the given files.
A bug: id, property, edits [(file, old, new)], demo (Rust main.rs), needs, breaks, optional cargo (extra
dependency attributes), profile (extra Cargo.toml text)."""
import sys, os, subprocess, json, tempfile, shutil, runpy
SH = '''#!/bin/bash
# Exit 0 when the library behaves, nonzero when it does not. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/Cargo.toml.in" "$d/Cargo.toml" || exit 1
cd "$d" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target RUSTFLAGS=-Awarnings
@CMD@
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
miniserde = { path = "/repo"@EXTRA@ }
@PROFILE@
[workspace]
'''
def main():
    for f in sys.argv[1:]:
        for b in runpy.run_path(f)['BUGS']:
            w = tempfile.mkdtemp(dir='/tmp')
            subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
            for file, old, new in b['edits']:
                p = f'{w}/r/{file}'; s = open(p).read()
                n = s.count(old)
                assert n == 1, (b['id'], file, n, old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
            shutil.rmtree(w)
            o = f'/verif/seeded/{b["id"]}'
            os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(diff)
            cmd = b.get('cmd') or 'cargo build -q --offline || exit 3\ntimeout -k 1 %d ./target/debug/demo' % b.get('timeout', 60)
            open(o + '/demo.sh', 'w').write(SH.replace('@CMD@', cmd))
            os.chmod(o + '/demo.sh', 0o755)
            open(o + '/main.rs', 'w').write(b['demo'].lstrip('\n'))
            open(o + '/Cargo.toml.in', 'w').write(TOML.replace('@EXTRA@', b.get('cargo', '')).replace('@PROFILE@', b.get('profile', '')))
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(o + '/meta.json', 'w'), indent=1)
            print(b['id'])
main()
