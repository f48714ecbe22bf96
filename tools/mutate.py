#!/usr/bin/env python3
"""Developer tool: small changes to copies of /repo that compile and pass its tests; which of them are detected?

mutate.py DIR WORKER WORKERS COUNT SEED: appends a line per mutant to DIR/log.WORKER. Never run by a check.
"""
import json, os, random, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, W, K, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
work = os.path.join(D, 'w%d' % W)
repo = os.path.join(work, 'repo')
os.environ['VX_REPO'] = repo
sys.path.insert(0, ROOT)
import check
vx = check.build_vx()
check.BUILD = os.path.join(work, 'build')
os.makedirs(check.BUILD, exist_ok=True)

def sh(c, t=300):
    return subprocess.run(c, shell=True, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

if not os.path.exists(repo):
    subprocess.run(['cp', '-a', '/repo', repo])

FILES = [f for f in subprocess.run('git ls-files src dynamixel2-cli/src', shell=True, cwd='/repo', capture_output=True, text=True).stdout.split() if f.endswith('.rs') and f not in ('src/log.rs',) and 'logging' not in f]

def code(f):
    t = open(os.path.join('/repo', f)).read()
    i = t.find('#[cfg(test)]')
    return t if i < 0 else t[:i], t

SWAPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '),
         (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.min\(', '.max('),
         (r'\.max\(', '.min('), (r' \+= ', ' = '), (r' -= ', ' = '), (r' \* ', ' + '), (r' & ', ' | '), (r'if !', 'if '), (r'if (?!let|!)', 'if !'),
         (r'saturating_', 'wrapping_'), (r'\.is_some\(', '.is_none('), (r'\.is_err\(', '.is_ok('), (r'\.is_empty\(\)', '.len() == 1'),
         (r'BROADCAST', 'BROADCAST + 1'), (r'\?;', '.ok();'), (r'\.\.=', '..'), (r'packet_id', '0'), (r'motor_id\b(?!:)', '1'), (r'start_offset', '0'),
         (r'\[\.\.', '[1..'), (r'\.rev\(\)', ''), (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'), (r'u16', 'u8'), (r'address', 'count'), (r'count\b', 'address'),
         (r' as u16', ' as u8 as u16'), (r'to_le', 'to_be'), (r'from_le', 'from_be'), (r'return Err\((.*)\);', ';'), (r'Some\((\w+)\)', 'None'),
         (r'Ordering::\w+', 'Ordering::SeqCst'), (r'length', 'address')]

def mutants():
    out = []
    for f in FILES:
        t, whole = code(f)
        pos = 0
        for line in t.split('\n'):
            s = line.strip()
            if s.count('0x') < 6 and s and not s.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'trace!', 'debug!')) and 'log::' not in s:
                for a, b in SWAPS:
                    for m in re.finditer(a, line):
                        if '//' in line[:m.start()]:
                            continue
                        out.append((f, pos + m.start(), pos + m.end(), m.expand(b) if '\\' in b else b))
                for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9A-Fa-f]+)(?![\w])', line):
                    n = int(m.group(1), 0)
                    for k in {n + 1, max(n - 1, 0), 0} - {n}:
                        out.append((f, pos + m.start(), pos + m.end(), str(k)))
                if s.endswith(';') and not s.startswith(('let ', 'pub ', 'type ', 'const ', 'static ')):
                    i = line.index(s)
                    out.append((f, pos + i, pos + i + len(s), '();'))
            pos += len(line) + 1
    return out

all_m = mutants()
random.Random(SEED).shuffle(all_m)
mine = all_m[W::K]
log = open(os.path.join(D, 'log.%d' % W), 'a')
done = 0
props = ['C%02d' % i for i in range(1, 26)]
for f, a, b, new in mine:
    if done >= COUNT:
        break
    _, whole = code(f)
    t = whole[:a] + new + whole[b:]
    sh('git checkout -q -- .')
    open(os.path.join(repo, f), 'w').write(t)
    try:
        r = sh('cargo check -q --workspace --offline')
        if r.returncode:
            continue
        r = sh('timeout 100 cargo nextest run --workspace --offline --test-threads 4 2>&1 | tail -5')
    except subprocess.TimeoutExpired:
        continue
    if 'passed' not in r.stdout or 'failed' in r.stdout:
        continue
    done += 1
    line = whole[:a].count('\n') + 1
    what = '%s:%d: %s  =>  %s' % (f, line, whole.split('\n')[line - 1].strip(), t.split('\n')[line - 1].strip())
    cli = f.startswith('dynamixel2-cli')
    try:
        wd = os.path.join(work, 'proof')
        os.makedirs(wd, exist_ok=True)
        p = check.prove(wd, vx, cli)
        firm = sorted({x for fl in p.failures if fl['same_structure'] for x in fl['props']})
        soft = sorted({x for fl in p.failures for x in fl['props']})
        if firm and not p.nothing:
            res = 'PROOF ' + ','.join(firm)
        else:
            n = check.Native(cli)
            n.start()
            n.join()
            hit = []
            for x in (['C25'] if cli else props):
                if x == 'C25' and not cli:
                    continue
                found, _, _, _ = check.search(n, x, 3, wd)
                if found:
                    hit.append(x)
                    break
            if hit:
                res = 'CONCRETE ' + ','.join(hit)
            else:
                res = 'SURVIVED soft=%s nothing=%s undecided=%s native=%s' % (','.join(soft), (p.nothing or '')[:100], list(p.undecided)[:3], (n.error or '')[-200:])
    except Exception as e:  # noqa
        res = 'ERROR %r' % (e,)
    log.write('%s | %s\n' % (res, what))
    log.flush()
sh('git checkout -q -- .')
