#!/usr/bin/env python3
# Regenerates MANIFEST.json from engine/props.py and properties.jsonl.
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from engine import props
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo/src/*.c to LLVM IR and /repo/src/*.ml to bytecode themselves', 'source_commits': []},
     'notes': 'One engine (engine/): symbolic execution of the LLVM IR of the C code and of the OCaml bytecode of the library, z3 deciding; see DESIGN.md.'}
for i in ids:
    c = props.CFG.get(i)
    if c is None or c.get('na'):
        m['not_applicable'].append({'property': i, 'reason': (c or {}).get('na', 'check not built yet')}); continue
    m['checks'].append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': c.get('technique', 'symbolic execution of the LLVM IR and OCaml bytecode, SMT-decided assertions'),
        'level': c.get('level', 'other'),
        'level_note': ('Solver verdict for every value within the bounds. Bounds: ' + c['bounds'] + '. Outside: ' + c['outside'] + '.')})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
