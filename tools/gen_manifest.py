#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + '/contracts/props.json')); NA = json.load(open(V + '/contracts/na.json'))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []; na = []
for i in ids:
    if i in P and not P[i].get('off'):
        p = P[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
                       'technique': 'contract-based deductive verification of the LLVM IR of /repo (own VC generator; z3, cvc5, MiniSat back ends)', 'level': p['level'],
                       'level_note': p.get('note', '') + ' Trusted: clang-18 and the LLVM clean-up passes, /verif/vc, z3/cvc5/MiniSat, and what the evidence lists.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: contracts are separate harness functions compiled together with /repo headers on every run. fix: commits are listed in known_findings.txt.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
