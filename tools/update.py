#!/usr/bin/env python3
"""Developer tool: rewrite contracts/baseline.tsv and contracts/uncontracted.txt from the unchanged tree.

Fails if a function under contract does not verify. Never run by a check.
"""
import json, os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check

os.makedirs(check.BUILD, exist_ok=True)
vx = check.build_vx()
d = tempfile.mkdtemp()
out, mp = d + '/out.rs', d + '/map.json'
bad, contracted = set(), set()
while True:
    r = check.run([vx, check.REPO + '/src', check.CONTRACTS, out, mp, '--write-baseline', check.CONTRACTS + '/baseline.tsv', '--trust', ','.join(sorted(bad | contracted))] + check.CLI_EXTRACT)
    if r.returncode:
        sys.exit(r.stderr)
    m = json.load(open(mp))
    print('lost', m['lost'], [(f['path'], f['lost']) for f in m['functions'] if f['lost']])
    os.environ['VX_CACHE'] = '1'
    res, cmd = check.verus(out, d, [])
    again = False
    for line in res['stderr'].split('\n'):
        try:
            x = json.loads(line)
        except ValueError:
            continue
        if x.get('level') != 'error' or check.NOISE.search(x['message']):
            continue
        spans = [s for s in x['spans'] if s['file_name'].endswith('out.rs')]
        fs = [check.func_at(m, s['line_start']) for s in spans]
        # The body is where no clause is.
        own = [f for s, f in zip(spans, fs) if f and s['is_primary']] or [f for f in fs if f]
        if 'precondition' in x['message'] or 'postcondition' in x['message']:
            own = [f for s, f in zip(spans, fs) if f and not check.clause_at(m, s['line_start'], s['line_end'])] or own
        if not own:
            print('UNPLACED', x['rendered'])
            continue
        again = True
        for f in own[:1]:
            (contracted if f['contracted'] else bad).add(f['path'])
            if f['contracted']:
                print(x['rendered'])
    if not again:
        break
    print('round', len(bad), len(contracted))
open(check.CONTRACTS + '/uncontracted.txt', 'w').write('# Functions without contract, whose bodies are not verified.\n' + ''.join(b + '\n' for b in sorted(bad | contracted)))
print('uncontracted:', *sorted(bad), sep='\n  ')
print('contracted but failing:', sorted(contracted))
print(len([f for f in m['functions'] if f['contracted']]), 'of', len(m['functions']), 'functions under contract')
subprocess.run(['rm', '-rf', d])
