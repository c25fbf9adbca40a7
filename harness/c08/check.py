#!/usr/bin/env python3
"""C08: compiles every enumerated definition and compares rustc's verdict with the expected one.

check.py quick|thorough RUSTC_ARGS_JSON [--replay FILE]
"""
import concurrent.futures, bisect, hashlib, json, os, shutil, subprocess, sys, time
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import items

VERIF = os.environ['VERIF_DIR']
tier = sys.argv[1]
thorough = tier == 'thorough'
ext = json.load(open(sys.argv[2]))
replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
t0 = time.time()
work = os.path.join(VERIF, 'out', f'C08.{os.getpid()}')
os.makedirs(work)
CPUS = os.cpu_count() or 4
PRELUDE_LINES = items.PRELUDE.count('\n')
D = {'both': '#[derive(miniserde::Serialize, miniserde::Deserialize)]', 'ser': '#[derive(miniserde::Serialize)]', 'de': '#[derive(miniserde::Deserialize)]', 'noop': '#[derive(mc_noop::Noop)]'}
compiled = 0


class Internal(Exception):
    pass


def rustc(name, texts):
    """Compiles the given texts, one module each. Returns {index: first error} and unlocated errors."""
    src = [items.PRELUDE.rstrip('\n')]
    starts, line = [], PRELUDE_LINES + 1
    for i, t in enumerate(texts):
        m = f'pub mod m{i} {{ use super::*;\n{t}\n}}'
        starts.append(line)
        line += m.count('\n') + 1
        src.append(m)
    path = os.path.join(work, name + '.rs')
    open(path, 'w').write('\n'.join(src) + '\n')
    cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', name, '--emit', 'metadata', '--error-format', 'json', '--cap-lints', 'allow',
           '-o', os.path.join(work, name + '.rmeta'), path]
    for k, v in ext['externs'].items():
        cmd += ['--extern', f'{k}={v}']
    for d in ext['dirs']:
        cmd += ['-L', f'dependency={d}']
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        raise Internal(f'rustc did not finish on {name}')
    errs, loose = {}, []
    for l in p.stderr.splitlines():
        if not l.startswith('{'):
            if l.strip():
                loose.append(l)
            continue
        d = json.loads(l)
        if d.get('level') not in ('error', 'error: internal compiler error'):
            continue
        at = set()
        stack = list(d['spans'])
        while stack:
            s = stack.pop()
            if s['file_name'] == path:
                for ln in range(s['line_start'], s['line_end'] + 1):
                    if ln > PRELUDE_LINES:
                        at.add(bisect.bisect_right(starts, ln) - 1)
            if s.get('expansion'):
                stack.append(s['expansion']['span'])
        if not at:
            if not d['message'].startswith(('aborting due to', 'could not compile')):
                loose.append(d['message'])
        for a in at:
            errs.setdefault(a, (d['message'] + '\n' + (d.get('rendered') or ''))[:1500])
    if p.returncode not in (0, 1):
        raise Internal(f'rustc exit {p.returncode}: {p.stderr[-800:]}')
    if p.returncode == 0 and errs:
        raise Internal('errors but exit 0')
    if p.returncode == 1 and not errs:
        raise Internal('unlocated error: ' + '; '.join(loose)[:800] + p.stderr[-300:])
    return errs


def batches(xs, n):
    k = max(1, min(n, (len(xs) + n - 1) // n))
    size = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + size] for i in range(0, len(xs), size)]


def sweep(tag, cases, pool, expect_errors):
    """Returns the cases without an error (expect_errors) or the cases with one."""
    global compiled
    def one(ib):
        i, b = ib
        return b, rustc(f'{tag}{i}', [c[1] for c in b])
    left, bad = cases, []
    rounds = 0
    while left:
        rounds += 1
        # An error in an early phase hides errors of a later one: whatever showed none is tried again.
        n = CPUS if rounds == 1 else (max(CPUS, len(left) // 20) if rounds < 4 else len(left))
        nxt = []
        for b, errs in pool.map(one, [(f'{rounds}_{i}', b) for i, b in enumerate(batches(left, n))]):
            compiled += len(b)
            for i, c in enumerate(b):
                if i in errs:
                    if not expect_errors:
                        bad.append((c, errs[i]))
                elif expect_errors:
                    nxt.append(c)
        if not expect_errors:
            return bad
        if n == len(left) and len(nxt) == len(left):
            return [(c, None) for c in nxt]
        left = nxt
    return []


def main():
    good, refuse = [], []
    seen = set()
    def add(lst, fam, text, derives):
        text = ' '.join(text.split(' '))
        for d in derives:
            key = (fam, d, text)
            if key not in seen:
                seen.add(key)
                lst.append((f'{fam} {d}', text.replace('DERIVE', D[d]), text))
    for t, g in items.good_structs(thorough):
        add(good, 'struct', t, ['both'])
    for t in items.good_enums(thorough):
        if t:
            add(good, 'enum', t, ['both'])
    # One derive alone, in another order, and twice the same item through re-exported names.
    for c in [c for c in good][::1 if thorough else 5]:
        add(good, c[0].split()[0], c[2], ['ser', 'de'])
    for t in items.bad_shapes(thorough):
        add(refuse, 'shape', t, ['ser', 'de'])
    for t in items.bad_attrs(thorough):
        add(refuse, 'attribute', t, ['ser', 'de'])
    if replay:
        r = json.load(open(replay))
        good = [c for c in good if c[0] == r['family'] and c[2] == r['case']]
        refuse = [c for c in refuse if c[0] == r['family'] and c[2] == r['case']]
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('{'):
                k = json.loads(l)
                if k.get('property') == 'C08':
                    known.append((k['family'], k['case']))
    violations, hits = [], []
    def report(c, msg):
        if (c[0], c[2]) in known:
            hits.append(c)
        else:
            violations.append((c, msg))
    with concurrent.futures.ThreadPoolExecutor(CPUS) as pool:
        # The items are valid Rust by themselves.
        plain = {}
        for c in good + refuse:
            plain.setdefault(c[2], ('noop', c[2].replace('DERIVE', D['noop']), c[2]))
        broken = sweep('plain', list(plain.values()), pool, False)
        if broken:
            raise Internal('not valid Rust without the derive: ' + json.dumps([(c[2][:150], e[:150]) for c, e in broken[:40]], indent=1))
        for c, e in sweep('good', good, pool, False):
            report(c, 'supported, but the derive does not compile: ' + e)
        for c, _ in sweep('bad', refuse, pool, True):
            report(c, 'unsupported, but the derive compiles')
    violations.sort(key=lambda v: len(v[0][2]))
    texts = {c[2] for c in good} | {c[2] for c in refuse}
    fams = {}
    for c in good + refuse:
        fams[c[0]] = fams.get(c[0], 0) + 1
    step = max(1, len(refuse) // 12)
    ev = {
        'property': 'C08', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'exploration',
        'coverage': {
            'evaluations': len(good) + len(refuse), 'distinct_nontrivial': len(texts),
            'rule': 'case = a definition and a derive, compiled by rustc; supported ones must compile, unsupported ones must give an error located in them; every distinct definition is non-trivial',
            'bounds': 'all combinations of the generated parts (harness/c08/items.py): generic parameter lists, field types, attributes and their positions, names, shapes; up to 4 fields or variants in full, larger ones at chosen positions',
            'exhaustive': not violations and not replay, 'families': fams, 'modules_compiled': compiled, 'accepted': len(good), 'refused': len(refuse), 'plain_definitions_checked': len(plain),
            'samples': [f'{c[0]}: {c[2]}'[:200] for c in good[::max(1, len(good) // 8)][:8] + refuse[::step][:12]],
        },
        'assumptions': ['rustc reports an error for a definition exactly when it does not compile', 'each definition without the derive is valid Rust (checked by compiling it with a derive that does nothing)'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', 'C08.json'), 'w'), indent=1, ensure_ascii=False)
    for c in hits:
        print(f'KNOWN-FINDING: property=C08 {c[0]}: {c[2]}')
    if not violations:
        print(f'C08 {tier}: held on {len(good) + len(refuse)} definitions ({len(good)} accepted, {len(refuse)} refused) in {time.time() - t0:.1f} s')
        return 0
    for c, m in violations[:int(os.environ.get('C08_SHOW', '3'))]:
        print(f'violated: [{c[0]}] {c[2][:400]}\n  {m[:700]}')
    if len(violations) > 3:
        print(f'  ({len(violations)} definitions in all)')
    c, m = violations[0]
    d = os.path.join(VERIF, 'out', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'C08-{os.getpid()}.json')
    json.dump({'property': 'C08', 'tier': tier, 'family': c[0], 'case': c[2], 'source': items.PRELUDE + c[1], 'message': m, 'replay_cmd': f'./check.sh C08 {tier} --replay {path}'}, open(path, 'w'), indent=1)
    print(f'VIOLATION property=C08 replay={path}')
    return 1


try:
    code = main()
except Internal as e:
    print('C08: internal error:', e)
    code = 3
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(code)
