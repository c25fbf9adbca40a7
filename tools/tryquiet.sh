#!/bin/bash
# tryquiet.sh [NAME...]: tests and every quick check (or $IDS) on the behaviour-preserving edits of refactor/edits.py
cd /verif/tools
python3 - "$@" <<'P'
import runpy, sys, subprocess, tempfile, shutil, os
E = runpy.run_path('refactor/edits.py')['EDITS']
for n in sys.argv[1:] or E:
    w = tempfile.mkdtemp(dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, a, b in E[n]:
        p = f'{w}/r/{f}'; s = open(p).read()
        assert s.count(a) == 1, (n, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    open(f'/tmp/quiet-{n}.diff', 'w').write(subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True))
    shutil.rmtree(w)
    print('===', n, flush=True)
    subprocess.call(['./trybug.sh', f'/tmp/quiet-{n}.diff', '--tests'] + os.environ.get('IDS', '').split())
    os.remove(f'/tmp/quiet-{n}.diff')
P
