#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, vp/props.py and the not-applicable reasons below"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from vp.props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3-vt -m vp.run %s quick' % i, thorough_cmd='python3-vt -m vp.run %s thorough' % i,
            technique='contract-based deductive verification of the compiled LLVM IR (function contracts, inductive loop summaries, z3)', level='proof',
            level_note=PROPS[i].get('note', 'Every function listed in the evidence under functions_proved is proved against its contract for all sizes and values; functions the prover cannot decide are listed under bounded_only with the sizes checked. Floating point is read as real arithmetic.')))
na = [dict(property=i, reason=NA[i]) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import vp.run, vp.contracts.vector"', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
