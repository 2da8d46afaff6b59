#!/usr/bin/env python3
"""writes MANIFEST.json from vf/table.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vf.table import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in PROPS:
        t = PROPS[i]
        note = t.get('note') or ('Every obligation of the contracts on the real functions (rustc MIR of /repo on every run) is discharged by z3 for all inputs and iterations. '
                                 'Trusted: the MIR, the VC generator in vf/, z3, the assumed contracts of std, rand, num and rulinalg listed in the evidence; f64 is treated as real arithmetic, usize additions as unbounded; '
                                 'termination is not proved. A bounded replay on the real code finds the failing input of a broken obligation and stands in, labelled bounded, for a function the engine cannot take.')
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                            'technique': 'contract-based deductive verification of the rustc MIR (function contracts, inferred loop invariants, z3)',
                            'level': t.get('level', 'proof'), 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no contract for it has been built within reach of the verifier; see DESIGN.md')})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
