#!/usr/bin/env python3
"""mutate.py OUT JOBS [STEP] [FILE...]: small mechanical changes to every line of the library, each run through the
existing tests and then the quick checks until one reports it. A tool for finding gaps; no check uses it."""
import sys, os, re, subprocess, tempfile, shutil, json, hashlib
from concurrent.futures import ThreadPoolExecutor
FILES = ['src/json/de.rs', 'src/json/ser.rs', 'src/json/drop.rs', 'src/json/array.rs', 'src/json/object.rs', 'src/json/value.rs', 'src/json/number.rs',
         'src/de/impls.rs', 'src/de/mod.rs', 'src/ser/impls.rs', 'src/ser/mod.rs', 'src/ignore.rs', 'src/place.rs', 'src/ptr.rs', 'src/careful.rs',
         'derive/src/attr.rs', 'derive/src/bound.rs', 'derive/src/de.rs', 'derive/src/ser.rs', 'derive/src/fallback.rs', 'derive/src/lib.rs']
RULES = [(r'==', ['!=']), (r'!=', ['==']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
         (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']),
         (r' << ', [' >> ']), (r' >> ', [' << ']), (r' & ', [' | ']), (r' \| ', [' & ']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'\*=', ['/=']), (r'/=', ['*=']),
         (r'saturating_', ['wrapping_']), (r'\?;', [';']), (r'is_none', ['is_some']), (r'is_empty\(\)', ['capacity() == 0']), (r'!self', ['self']),
         (r'\.pop\(\)', ['.first().take().and(None)']), (r'is_infinite', ['is_nan']), (r'is_finite', ['is_normal']), (r'u64', ['u32']), (r'i64', ['i32']), (r'f64', ['f32']),
         (r'Some\((\w+)\)', ['None']), (r'Ok\(\(\)\)', ['Err(Error)']), (r'Err\(Error\)', ['Ok(())', 'Ok(Default::default())']), (r'\.rev\(\)', ['']), (r'\bmem::take\b', ['mem::replace']),
         (r'ManuallyDrop::new\(([^()]*)\)', [r'\1']), (r"'__a", ["'a"]), (r'Borrowed', ['Owned']), (r'"([^"{}\\]+)"', [r'"\1x"', '""']),
         (r"b'([^\\'])'", [lambda m: "b'%s'" % chr(ord(m.group(1)) + 1)]), (r"b'\\x([0-9a-f]{2})'", [lambda m: "b'\\x%02x'" % (int(m.group(1), 16) + 1)]),
         (r'\b(0x[0-9A-Fa-f_]+|\d+)(_?(?:u|i)\d+)?\b', [lambda m: str(int(m.group(1).replace('_', ''), 0) + 1) + (m.group(2) or ''), lambda m: str(int(m.group(1).replace('_', ''), 0) - 1) + (m.group(2) or '')])]
def mutants(f):
    lines = open('/repo/' + f).read().split('\n')
    table = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('static POW10') or s.startswith('static ESCAPE'): table = True
        if table:
            if s == '];': table = False
            continue
        if not s or s.startswith(('//', '#', 'use ', 'pub use', '///')): continue
        code = re.sub(r'//.*', '', l)
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                for r in reps:
                    n = r(m) if callable(r) else m.expand(r)
                    yield i, l[:m.start()] + n + l[m.end():]
        if s.endswith(';') and not s.startswith(('let', 'return', 'type', 'impl', 'break', 'fn', 'pub')):
            yield i, re.match(r'\s*', l).group() + ';'
        if s in ('break;', 'continue;') : yield i, ''
        # two statements in the other order
        if i + 1 < len(lines) and s.endswith(';') and lines[i + 1].strip().endswith(';') and not s.startswith('let') and not s.startswith(('use', 'signed!', 'unsigned!', 'float!')):
            yield (i, i + 1), (lines[i + 1], l)
FAST = 'C05 C04 C01 C02 C03 C09 C11 C06 C14 C15 C10 C19 C07 C21 C20 C17 C12 C13 C18 C08 C16'.split()
WORKER = r'''
mount --bind "$W/repo" /repo && mount --bind "$W/verif" /verif || exit 9
while read -r job; do
  cd /repo && git checkout -q -- . && python3 - "$job" <<'P' || { echo "R $job bad"; continue; }
import json,sys
j=json.loads(sys.argv[1]); p='/repo/'+j['f']; L=open(p).read().split('\n')
if isinstance(j['i'],list):
    for k,t in zip(j['i'],j['t']): L[k]=t
else: L[j['i']]=j['t']
open(p,'w').write('\n'.join(L))
P
  timeout 120 bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "R nobuild"; continue; }
  timeout 200 bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
  python3 - <<'P' || { echo "R tests"; continue; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('@W@/out.json'))
st=b.get('stable_tests') or b.get('stable') or b.get('tests') or b
pa=set(o.get('passed',[])) if isinstance(o.get('passed'),list) else {k for k,v in o.get('tests',o).items() if v in('pass','passed',True)}
st=set(st if isinstance(st,list) else st.keys())
sys.exit(0 if st<=pa else 1)
P
  r=SURVIVED
  for c in @CHECKS@; do
    timeout 900 /verif/check.sh $c quick > $W/o.log 2>&1; e=$?
    [ $e = 1 ] && { r="$c $(grep -a -m1 -B1 VIOLATION $W/o.log | head -1 | cut -c1-120)"; break; }
    [ $e -gt 1 ] && { r="$c rc=$e $(tail -1 $W/o.log | cut -c1-120)"; break; }
  done
  echo "R $r"
done
'''
def main():
    out, jobs = sys.argv[1], int(sys.argv[2])
    step = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    files = sys.argv[4:] or FILES
    checks = os.environ.get('CHECKS', ' '.join(FAST))
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['k'] for l in open(out)}
    todo = []
    for f in files:
        seen = set()
        for n, (i, t) in enumerate(mutants(f)):
            k = hashlib.sha1(json.dumps([f, i, t]).encode()).hexdigest()[:12]
            if k in seen or int(k, 16) % step: continue
            seen.add(k)
            if k not in done: todo.append({'f': f, 'i': i, 't': t, 'k': k})
    print(len(todo), 'mutants', flush=True)
    if jobs == 0: return
    import queue, threading
    q = queue.Queue()
    for j in todo: q.put(j)
    lock = threading.Lock()
    def work():
        W = tempfile.mkdtemp(prefix='mutate.', dir='/tmp')
        subprocess.check_call(['cp', '-a', '/repo', W + '/repo'])
        os.mkdir(W + '/verif')
        subprocess.check_call('cd /verif && cp -a $(ls -A | grep -vx -e .git -e seeded -e out -e evidence) "%s/verif/"' % W, shell=True)
        open(W + '/run.sh', 'w').write(WORKER.replace('@W@', W).replace('@CHECKS@', checks))
        p = subprocess.Popen(['unshare', '-m', 'bash', W + '/run.sh'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=dict(os.environ, W=W))
        while True:
            try: j = q.get_nowait()
            except queue.Empty: break
            p.stdin.write(json.dumps(j) + '\n'); p.stdin.flush()
            while True:
                l = p.stdout.readline()
                if not l: return
                if l.startswith('R '): break
            j['r'] = l[2:].strip()
            old = open('/repo/' + j['f']).read().split('\n')
            j['old'] = old[j['i']] if isinstance(j['i'], int) else None
            with lock: open(out, 'a').write(json.dumps(j) + '\n')
        p.stdin.close(); p.wait(); shutil.rmtree(W)
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
