#!/usr/bin/env python3-vt
"""DESIGN.md from tools/DESIGN.in.md, tools/plans.json, known-findings.txt, seeded/*/meta.json"""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from vp.props import PROPS, NA
plans = json.load(open(os.path.join(H, 'tools/plans.json')))
t = open(os.path.join(H, 'tools/DESIGN.in.md')).read()
L = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    L.append('### %s %s\n' % (i, p['title']))
    if i in PROPS:
        L.append('Contract modules: %s (`vp/contracts/`), %d functions (plus those their contracts apply). %s\n' % (', '.join(PROPS[i]['mods']), len(PROPS[i]['functions']()), plans.get(i, '')))
    else: L.append('Not applicable: %s\n' % NA[i])
t = t.replace('@@PROPS@@', '\n'.join(L))
t = t.replace('@@FINDINGS@@', '\n'.join('* ' + l.strip() for l in open(os.path.join(H, 'known-findings.txt')) if l.startswith(('fixed:', 'finding:'))))
C = plans.get('_caught', {}); S = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(H, 'seeded/*/meta.json'))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    S.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), C.get(n, '?')))
t = t.replace('@@SEEDED@@', '\n'.join(S))
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)
