#!/usr/bin/env python3
"""Developer tool: rewrite MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = ('Verus discharges the contracts of every function the property depends on, on the text extracted from /repo/src on each run, '
         'for all inputs; the concrete harness executes the property on the compiled crate and supplies failing inputs. '
         'Assumed: the verifier, the extraction, the buffer, iterator and serial port interfaces (see evidence trusted_base).')
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'levels.json')))
checks = []
for i in range(1, 26):
    p = 'C%02d' % i
    if p in NOTES['not_applicable']:
        continue
    n = NOTES.get(p, {})
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': n.get('technique', 'contract-based deductive verification of the extracted source (Verus)'),
        'level': n.get('level', 'proof'),
        'level_note': (n.get('note', '') + ' ' + PROOF).strip(),
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NOTES['not_applicable'].items()],
    'notes': 'No hooks in /repo: the verified text is extracted from /repo/src on every run (tools/vx), the concrete harness uses the public API. '
             'Repairs are listed in known_findings.txt. Design, trusted base and detection results: DESIGN.md.',
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
