#!/usr/bin/env python3
"""Decide one property of /repo's current source: `check.py PROPERTY`.

1. Extract the crate's source with its contracts (tools/vx) and discharge every obligation with Verus.
2. Execute the property on the real crate with concrete inputs (replay), longer where the proof says less.
See DESIGN.md for the meaning of the verdicts.
"""
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, '.build')
REPO = os.environ.get('VX_REPO', '/repo')
CONTRACTS = os.path.join(ROOT, 'contracts')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
RLIMIT = '40'

# C25 is about the command line tool: its source is added to the extraction, and only its modules are verified.
CLI_EXTRACT = ['--cli', os.path.join(REPO, 'dynamixel2-cli', 'src', 'bin', 'dynamixel2', 'main.rs')]
CLI_VERIFY = ['--verify-module', 'cli', '--verify-module', 'cli::options']

# Messages of failed obligations; every other error is a limit of the tools.
OBLIGATION = re.compile('|'.join([
    r'postcondition not satisfied', r'precondition not satisfied', r'assertion failed', r'invariant not satisfied',
    r'possible arithmetic', r'possible division', r'possible bit shift', r'unable to prove', r'ensures not satisfied',
    r'fails to satisfy', r'decreases not satisfied', r'requires not satisfied', r'cannot show', r'index out of bounds',
    r'bounds', r'split assertion failure', r'could not prove termination',
    r'unwinding', r'may not', r'failed to satisfy', r'not satisfied',
]))
NOISE = re.compile(r'aborting due to|^\d+ (errors|warnings)|verification results')


def env():
    e = dict(os.environ)
    e['PATH'] = '/opt/veriftools/bin:/root/.cargo/bin:/usr/local/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env(), **kw)


def build_vx():
    out = os.path.join(BUILD, 'vx')
    exe = os.path.join(out, 'debug', 'vx')
    with open(os.path.join(BUILD, 'vx.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = run(['cargo', 'build', '--offline', '--target-dir', out], cwd=os.path.join(ROOT, 'tools', 'vx'))
    if r.returncode != 0 and not os.path.exists(exe):
        raise RuntimeError('vx does not build: ' + r.stderr[-2000:])
    return exe


def fresh(target, manifest, packages):
    """Forget what was built here from other sources (cargo goes by paths and times; this goes by content)."""
    h = hashlib.sha256()
    for base in ('src', 'dynamixel2-cli'):
        for d, dirs, names in sorted(os.walk(os.path.join(REPO, base))):
            dirs[:] = sorted(x for x in dirs if x != 'target')
            for n in sorted(names):
                with open(os.path.join(d, n), 'rb') as f:
                    h.update(os.path.join(d, n).encode() + b'\0' + f.read() + b'\0')
    stamp = os.path.join(target, 'stamp')
    if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
        for p in packages:
            run(['cargo', 'clean', '--offline', '-p', p, '--target-dir', target, '--manifest-path', manifest], cwd='/')
        os.makedirs(target, exist_ok=True)
        with open(stamp, 'w') as f:
            f.write(h.hexdigest())


class Native(threading.Thread):
    """Builds the harness that executes the real crate."""

    def __init__(self, cli=False):
        super().__init__()
        self.cli = cli
        self.exe = None
        self.error = None
        self.sample = ''
        self.assumed = 'not compared'
        self.assumed_wrong = False

    def run(self):
        out = os.path.join(BUILD, 'replay')
        src = os.path.join(ROOT, 'replay')
        if REPO != '/repo':
            # Only for trials on scratch copies; the registered commands always use /repo.
            import shutil
            alt = os.path.join(BUILD, 'replay-src')
            shutil.copytree(src, alt, dirs_exist_ok=True, ignore=shutil.ignore_patterns('target'))
            p = os.path.join(alt, 'Cargo.toml')
            t = open(p).read().replace('/repo', REPO)
            open(p, 'w').write(t)
            src = alt
        with open(os.path.join(BUILD, 'replay.lock'), 'w') as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            fresh(out, os.path.join(src, 'Cargo.toml'), ['dynamixel2', 'replay'])
            r = run(['cargo', 'build', '--offline', '--target-dir', out], cwd=src)
        if r.returncode != 0:
            self.error = r.stderr[-3000:]
            return
        if self.cli:
            # The command line tool, which the harness runs.
            tool = os.path.join(BUILD, 'cli')
            with open(os.path.join(BUILD, 'cli.lock'), 'w') as f:
                fcntl.flock(f, fcntl.LOCK_EX)
                fresh(tool, os.path.join(REPO, 'Cargo.toml'), ['dynamixel2', 'dynamixel2-cli'])
                r = run(['cargo', 'build', '--offline', '-p', 'dynamixel2-cli', '--target-dir', tool,
                         '--manifest-path', os.path.join(REPO, 'Cargo.toml')], cwd='/')
            if r.returncode != 0:
                self.error = r.stderr[-3000:]
                return
            os.environ['VX_CLI'] = os.path.join(tool, 'debug', 'dynamixel2')
        self.exe = os.path.join(out, 'debug', 'replay')


class Proof:
    """The verifier's answer for the whole crate."""

    def __init__(self):
        self.map = None
        self.failures = []      # dicts: func, message, props, text, origin
        self.undecided = {}     # function -> reason
        self.nothing = None     # reason why there is no answer at all
        self.stats = {}
        self.rounds = 0
        self.log = ''
        self.uncontracted = set()


def read_lines(path):
    if not os.path.exists(path):
        return []
    return [l.strip() for l in open(path) if l.strip() and not l.startswith('#')]


def load_baseline():
    out = {}
    p = os.path.join(CONTRACTS, 'baseline.tsv')
    if os.path.exists(p):
        for l in open(p):
            c = (l.rstrip('\n').split('\t') + [''] * 5)[:5]
            out[c[0]] = {'locals': c[1].split(',') if c[1] else [], 'loops': c[2], 'closures': c[3], 'calls': sorted(c[4].split(',')) if c[4] else []}
    return out


def shape_of(f):
    return {'locals': f['locals'], 'loops': ','.join(f['loops']), 'closures': str(f['closures']), 'calls': sorted(f['calls'])}


def same_shape(f, base):
    """The function has the structure for which its proof was written."""
    if base is None:
        return False
    a = shape_of(f)
    return a['loops'] == base['loops'] and a['closures'] == base['closures'] and len(a['locals']) == len(base['locals']) \
        and a['calls'] == base['calls']


def verus(out, workdir, extra):
    cmd = ['verus', out, '--triggers-mode', 'silent', '-Zpolonius=next', '--rlimit', RLIMIT, '--output-json', '--time-expanded',
           '--multiple-errors', '4', '--error-format=json'] + extra
    key = None
    if os.environ.get('VX_CACHE'):
        key = os.path.join(BUILD, 'cache', hashlib.sha256((open(out).read() + ' '.join(cmd[2:])).encode()).hexdigest())
        if os.path.exists(key):
            return json.load(open(key)), cmd
    try:
        r = run(cmd, timeout=600, cwd=workdir)
        res = {'stdout': r.stdout, 'stderr': r.stderr, 'rc': r.returncode}
    except subprocess.TimeoutExpired:
        res = {'stdout': '', 'stderr': '', 'rc': -1, 'timeout': True}
    if key and not res.get('timeout'):
        os.makedirs(os.path.dirname(key), exist_ok=True)
        json.dump(res, open(key, 'w'))
    return res, cmd


def func_at(m, line):
    best = None
    for f in m['functions']:
        if f['out_start'] <= line <= f['out_end']:
            if best is None or f['out_start'] > best['out_start']:
                best = f
    return best


def clause_at(m, a, b):
    for c in m['clauses']:
        if c['start'] <= a and b <= c['end'] + 0:
            return c
    for c in m['clauses']:
        if c['start'] <= b and a <= c['end']:
            return c
    return None


def func_props(m):
    """All properties that depend on the contract of a function."""
    out = {}
    for f in m['functions']:
        out.setdefault(f['path'], set()).update(f['props'])
    for c in m['clauses']:
        out.setdefault(c['func'], set()).update(c['props'])
    return out


def prove(workdir, vx, cli=False):
    p = Proof()
    base = load_baseline()
    p.uncontracted = set(read_lines(os.path.join(CONTRACTS, 'uncontracted.txt')))
    trust = set(p.uncontracted)
    bare = set()
    out = os.path.join(workdir, 'out.rs')
    mp = os.path.join(workdir, 'map.json')
    for p.rounds in range(1, 9):
        try:
            r = run([vx, os.path.join(REPO, 'src'), CONTRACTS, out, mp, '--baseline', os.path.join(CONTRACTS, 'baseline.tsv'),
                     '--trust', ','.join(sorted(trust)), '--bare', ','.join(sorted(bare))] + (CLI_EXTRACT if cli else []), timeout=120)
        except subprocess.TimeoutExpired:
            p.nothing = 'extraction timed out'
            return p
        if r.returncode != 0 or not os.path.exists(mp):
            p.nothing = 'extraction failed: ' + (r.stderr or '')[-1500:]
            return p
        m = p.map = json.load(open(mp))
        # Contracts whose function is gone.
        for path in m['lost']:
            p.undecided.setdefault(path, 'no function with this path')
        lost = [f for f in m['functions'] if f['lost'] and f['path'] not in trust]
        if lost:
            for f in lost:
                p.undecided[f['path']] = 'code without the place for: ' + '; '.join(f['lost'])
                trust.add(f['path'])
            continue
        res, cmd = verus(out, workdir, CLI_VERIFY if cli else [])
        p.stats['cmd'] = ' '.join(cmd)
        if res.get('timeout'):
            p.nothing = 'the verifier timed out'
            return p
        src = open(out).read().split('\n')
        compile_errors = []
        failures = []
        p.log = ''
        for line in res['stderr'].split('\n'):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get('level') != 'error' or NOISE.search(d.get('message', '')):
                continue
            p.log += (d.get('rendered') or d['message']) + '\n'
            spans = [(s['line_start'], s['line_end'], s['is_primary']) for s in d['spans'] if s['file_name'].endswith('out.rs')]
            (failures if OBLIGATION.search(d['message']) or 'rlimit' in d['message'] else compile_errors).append((d, spans))
        if compile_errors:
            progress = False
            before = set(trust)
            for d, spans in compile_errors:
                funcs = [func_at(m, a) for a, _, _ in spans]
                funcs = [f for f in funcs if f]
                if not funcs:
                    # Perhaps between functions: the contract of a trait, a constant or an impl.
                    continue
                f = funcs[0]['path']
                if f not in trust:
                    trust.add(f)
                    p.undecided[f] = 'not accepted by the verifier: ' + d['message'][:200]
                    progress = True
                elif f in before and f not in bare:
                    bare.add(f)
                    p.undecided[f] = 'contract not accepted by the verifier: ' + d['message'][:200]
                    progress = True
            if not progress:
                p.nothing = 'not accepted by the verifier: ' + compile_errors[0][0]['message'][:300]
                return p
            continue
        try:
            js = json.loads(res['stdout'][res['stdout'].index('{'):])
        except ValueError:
            p.nothing = 'no answer of the verifier: ' + res['stderr'][-500:]
            return p
        fp = func_props(m)
        again = False
        for d, spans in failures:
            prim = [s for s in spans if s[2]] + spans
            f = None
            # The function with the obligation: where the failing code is.
            for a, b, _ in prim:
                g = func_at(m, a)
                c = clause_at(m, a, b)
                if g and not (c and c['kind'] in ('ensures', 'requires') and len(prim) > 1 and 'precondition' in d['message']):
                    f = g
                    break
            tags = set()
            clause = None
            for a, b, _ in spans:
                c = clause_at(m, a, b)
                if c and c['props'] and c['kind'] in ('ensures', 'requires', 'closure', 'loop', 'panic', 'proof'):
                    clause = c
                    tags |= set(c['props'])
            # For postconditions of traits: the function is the one with the body.
            if 'postcondition' in d['message']:
                for a, b, prm in spans:
                    g = func_at(m, a)
                    if g and not clause_at(m, a, b) :
                        f = g
            if f is None:
                lem = [v for v in m['verbatim'] if any(v[1] <= a < v[2] for a, _, _ in spans)]
                p.undecided['lemmas in ' + (lem[0][0] if lem else '?')] = d['message'][:200]
                continue
            if f['path'] in trust:
                continue
            if 'rlimit' in d['message'].lower() or 'resource limit' in d['message'].lower():
                p.undecided[f['path']] = 'resource limit of the solver'
                continue
            if f['path'] not in base:
                # New code without contract.
                p.undecided[f['path']] = 'new function without contract: ' + d['message'][:120]
                continue
            if not tags:
                tags = set(fp.get(f['path'], set()))
            line = (prim[0][0] if prim else 0)
            p.failures.append({
                'func': f['path'], 'message': d['message'], 'props': sorted(tags), 'file': f['file'],
                'line': src_line(m, line), 'clause': clause['origin'] if clause else None,
                'text': src[line - 1].strip()[:300] if line else '', 'output': (d.get('rendered') or '')[:4000],
                'same_structure': same_shape(f, base.get(f['path'])),
            })
        if again:
            continue
        vr = js.get('verification-results', {})
        p.stats['verified'] = vr.get('verified')
        p.stats['errors'] = vr.get('errors')
        smt = js.get('times-ms', {}).get('smt') or {}
        p.stats['smt_ms'] = smt.get('smt-run')
        p.stats['total_ms'] = js.get('times-ms', {}).get('total')
        per = {}
        for mod in smt.get('smt-run-module-times', []) or []:
            for fn in mod.get('function-breakdown', []):
                per.setdefault(fn['function'], []).append(fn)
        p.stats['functions'] = per
        if vr.get('encountered-vir-error') and not p.failures and not p.undecided:
            p.nothing = 'error of the verifier: ' + p.log[:300]
        # Functions that call new functions without contract are not decided by a failed proof.
        known = set(base)
        new = {f['path'].split('::')[-1]: f['path'] for f in m['functions'] if f['path'] not in known and f['path'] not in p.uncontracted}
        for fl in p.failures:
            f = next(x for x in m['functions'] if x['path'] == fl['func'])
            hit = [n for n in new if n in f['calls']]
            if hit:
                fl['same_structure'] = False
                fl['note'] = 'calls new function ' + ', '.join(hit)
            lost = [g for g in bare if g.split('::')[-1] in f['calls']]
            if lost:
                fl['same_structure'] = False
                fl['note'] = 'calls a function whose contract the verifier does not accept: ' + ', '.join(lost)
        return p
    p.nothing = 'no answer after %d attempts' % p.rounds
    return p


def src_line(m, line):
    best = None
    for a, b in m['srcmap']:
        if a <= line:
            best = b
        else:
            break
    return best


def known_findings(prop):
    out = []
    for l in read_lines(os.path.join(ROOT, 'known_findings.txt')):
        if l.startswith('open:') and ('property=%s ' % prop) in l:
            out.append(l[len('open:'):].strip())
    return out


def search(native, prop, seconds, workdir):
    """Execute the property on the real crate: (found, replay text, cases, nontrivial cases)."""
    native.join()
    if not native.exe:
        return None, None, 0, 0
    try:
        r = run([native.exe, 'assumed', str(SEED), '20000'], timeout=60)
        native.assumed = r.stdout.strip() or r.stderr.strip()[-300:]
        native.assumed_wrong = r.returncode == 2
    except subprocess.TimeoutExpired:
        native.assumed = 'not in time'
    f = os.path.join(workdir, 'found')
    if os.path.exists(f):
        os.remove(f)
    try:
        r = run([native.exe, 'search', prop, str(SEED), str(seconds), f], timeout=seconds + 120)
    except subprocess.TimeoutExpired:
        # Making the failing input smaller does not end.
        return (True, open(f).read(), 0, 0) if os.path.exists(f) else (False, None, 0, 0)
    n = re.search(r'evaluations=(\d+) nontrivial=(\d+) sample=(\w*)', r.stdout)
    a, b = (int(n.group(1)), int(n.group(2))) if n else (0, 0)
    if n:
        native.sample = n.group(3)
    if r.returncode == 1 and os.path.exists(f):
        return True, open(f).read(), a, b
    if -r.returncode in (4, 6, 7, 8, 11):
        return True, 'property=%s\nkind=concrete\nmessage=the process that executes the property crashed, signal %d\n%s\n' % (
            prop, -r.returncode, r.stderr[-300:]), a, b
    if r.returncode != 0:
        native.error = 'the concrete harness ended with %d: %s' % (r.returncode, r.stderr[-300:])
    return False, None, a, b


def closure(m, prop):
    """Functions under contract that the property depends on: tagged, and what these call."""
    fp = func_props(m)
    by_name = {}
    for f in m['functions']:
        by_name.setdefault(f['path'].split('::')[-1], []).append(f)
    todo = [f['path'] for f in m['functions'] if prop in fp.get(f['path'], set())]
    seen = set()
    funcs = {f['path']: f for f in m['functions']}
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for c in funcs[x]['calls'] if x in funcs else []:
            for g in by_name.get(c, []):
                if g['contracted'] and g['path'] not in seen:
                    todo.append(g['path'])
    direct = {f['path'] for f in m['functions'] if prop in fp.get(f['path'], set())}
    return direct, seen


ASSUMED = [
    'Verus, its vstd specifications, Z3 and rustc',
    'the extraction by tools/vx: macros of the log facade reduced to their arguments, `?`, map_err, inspect_err and for loops '
    'desugared, core::time::Duration, AsRef/AsMut buffers and iterator bounds replaced by the traits of contracts/00_vx.rs '
    '(a buffer is a fixed sequence of bytes, an iterator a fixed sequence of items)',
    'a serial port behaves as the contract of the SerialPort trait says: read returns at most the length of the buffer',
    'the serial2 crate, std::time::Instant and std::io::Error behave as contracts/01_serial2.rs says; '
    'the clock does not go back, and between two looks at it any time may pass',
    'code under cfg(test) is dropped; the feature serial2 is on',
]
ASSUMED_STATIC = [
    'a static flag and the static memory it guards behave as contracts/02_static.rs says: the permission for the memory '
    'exists once, lies with the flag at the start, and is taken by who turns the flag from false to true in one atomic operation',
]
ASSUMED_UNINIT = [
    'MaybeUninit, ManuallyDrop and ptr::read behave as contracts/03_uninit.rs says: a slot holds a value or nothing; '
    'rustc drops a variable that goes out of scope exactly once, by the verified Drop::drop',
]
ASSUMED_CLI = [
    'clap makes the options from the arguments with the from_str of the type of each field; '
    'str::parse and eq_ignore_ascii_case behave as contracts/cli_00.rs says',
    'the functions of dynamixel2::Client do what C01 to C22 say; here their callers are verified',
]


def evidence(prop, p, native, cases, nontrivial, wall, violations, notes, seconds):
    assumed = ASSUMED + (ASSUMED_CLI if prop == 'C25' else ASSUMED_STATIC if prop == 'C23' else ASSUMED_UNINIT if prop in ('C17', 'C18') else [])
    m = p.map or {'functions': [], 'clauses': [], 'trusted': [], 'dropped': []}
    direct, dep = closure(m, prop)
    funcs = {f['path']: f for f in m['functions']}
    failed = {f['func'] for f in p.failures}
    rows, proved, bounded, trusted = [], [], [], []
    per = p.stats.get('functions', {})
    times = {}
    for k, v in per.items():
        times[k.replace('out::', '', 1)] = sum(x.get('time-micros', 0) for x in v)
    solver = 0
    for x in sorted(dep):
        f = funcs.get(x)
        if not f or not f['contracted']:
            continue
        n = len([c for c in m['clauses'] if c['func'] == x])
        solver += times.get(x, 0)
        if x in p.undecided or p.nothing:
            bounded.append(x)
        elif f['trusted']:
            trusted.append(x)
        else:
            proved.append(x)
        rows.append({'function': x, 'file': f['file'], 'clauses': n, 'states_property': x in direct,
                     'status': 'failed' if x in failed else 'bounded' if x in bounded else 'trusted' if x in trusted else 'proved'})
    clauses = [c for c in m['clauses'] if c['func'] in dep and c['kind'] in ('requires', 'ensures', 'loop', 'closure', 'decreases', 'panic', 'proof')]
    stated = [c for c in clauses if c['kind'] == 'ensures' and prop in (c['props'] or funcs[c['func']]['props'] if c['func'] in funcs else [])]
    # One obligation per function body, loop, closure and contract clause.
    obligations = len(proved) + len(bounded) + len([c for c in clauses if c['func'] not in trusted])
    lost = len(bounded) + len([c for c in clauses if c['func'] in bounded]) + len([f for f in p.failures if f['func'] in dep])
    cov = {
        'obligations': obligations,
        'discharged': max(0, obligations - lost),
        'checker_cmd': 'verus ' + ' '.join(p.stats.get('cmd', '').split()[2:]) + ' on the text extracted from /repo' + ('/dynamixel2-cli' if prop == 'C25' else '/src'),
        'trusted_base': assumed + ['contract assumed, body not verified: ' + x for x in trusted] + [x for x in m['trusted']],
        'back_end': 'Verus 0.2026.09.13 with Z3',
        'functions': rows,
        'clauses_that_state_the_property': len(stated),
        'bounded_functions': {x: p.undecided.get(x, p.nothing) for x in bounded},
        'undecided_elsewhere': {k: v for k, v in p.undecided.items() if k not in bounded},
        'crate_verified': p.stats.get('verified'), 'crate_errors': p.stats.get('errors'),
        'solver_ms_property_functions': solver // 1000, 'solver_ms_crate': p.stats.get('smt_ms'),
        'extraction_rounds': p.rounds,
        'assumed_std_contracts_compared_with_the_real_functions': native.assumed,
        'concrete_cases': cases, 'concrete_cases_nontrivial': nontrivial, 'concrete_sample_choices': native.sample, 'concrete_seconds': seconds,
        'concrete_rule': 'cases of the property executed on the compiled crate with a scripted serial port, against an independent model',
        'notes': notes,
        'explanation': 'obligations: bodies of functions under contract and contract clauses in the functions the property depends on',
    }
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'proof' if not (p.nothing or not proved) else 'exploration',
        'coverage': cov, 'assumptions': assumed, 'wall_s': round(wall, 2), 'violations': violations,
    }
    if ev['level'] == 'exploration':
        cov.update({'evaluations': cases, 'distinct_nontrivial': nontrivial, 'rule': cov['concrete_rule'], 'samples': [native.sample]})
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def setup():
    """Build the tools from the committed files."""
    os.makedirs(BUILD, exist_ok=True)
    native = Native(cli=True)
    native.start()
    build_vx()
    native.join()
    if native.error:
        print(native.error)
        sys.exit(1)


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        return setup()
    start = time.time()
    os.makedirs(BUILD, exist_ok=True)
    workdir = os.path.join(BUILD, 'work-%s-%d' % (prop, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    cli = prop == 'C25'
    native = Native(cli)
    native.start()
    try:
        vx = build_vx()
        p = prove(workdir, vx, cli)
    except Exception as e:  # noqa: the machinery failed, the concrete check remains
        p = Proof()
        p.nothing = 'machinery: %r' % (e,)
    m = p.map
    mine = [f for f in p.failures if prop in f['props']]
    open_funcs = []
    if m:
        direct, dep = closure(m, prop)
        base_props = func_props(m)
        open_funcs = [x for x in p.undecided if x in dep or x not in base_props]
    seconds = {'quick': 8, 'thorough': 120}[TIER]
    if p.nothing or open_funcs or mine:
        seconds = {'quick': 60, 'thorough': 600}[TIER]
    found, text, cases, nontrivial = search(native, prop, seconds, workdir)
    notes = []
    if native.assumed_wrong:
        # A proof that rests on it says nothing.
        notes.append(native.assumed)
        p.nothing = p.nothing or native.assumed
    if native.error:
        notes.append('the concrete harness does not build: ' + native.error[-500:])
    if p.nothing:
        notes.append('BOUNDED, not proved: ' + p.nothing)
    for x in open_funcs:
        notes.append('BOUNDED, not proved: %s: %s' % (x, p.undecided[x]))
    rc = 0
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, prop + '.txt')
    report = '\n'.join('failed obligation in %s (%s:%s): %s\n  clause %s\n%s' % (
        f['func'], f['file'], f['line'], f['message'], f['clause'], f['output']) for f in mine)
    if found:
        open(path, 'w').write(text + '\n' + ''.join('# ' + l + '\n' for l in report.split('\n') if report))
        print('property %s fails on the real code:' % prop)
        print(text[:1500])
        print('run it again: %s run %s' % (os.path.join(BUILD, 'replay', 'debug', 'replay'), path))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif mine:
        firm = [f for f in mine if f['same_structure']]
        if firm and not p.nothing:
            open(path, 'w').write('# no failing input found in %d concrete cases\n' % cases + report + '\n')
            for f in firm:
                print('failed obligation: %s in %s (%s line %s)' % (f['message'], f['func'], f['file'], f['line']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            rc = 1
        else:
            for f in mine:
                notes.append('BOUNDED, not proved: %s: %s after a change of its structure' % (f['func'], f['message']))
    for k in known_findings(prop):
        print('KNOWN-FINDING: ' + k)
    wall = time.time() - start
    evidence(prop, p, native, cases, nontrivial, wall, rc, notes, seconds)
    for n in notes:
        print(n[:600])
    proved = '' if p.nothing else 'verus: %s verified, %s errors; ' % (p.stats.get('verified'), p.stats.get('errors'))
    print('%s: %s%d concrete cases in %d s; %.1f s' % (prop, proved, cases, seconds, wall))
    subprocess.run(['rm', '-rf', workdir])
    if native.error and p.nothing:
        # Nothing could be examined.
        sys.exit(2)
    sys.exit(rc)


if __name__ == '__main__':
    main()
