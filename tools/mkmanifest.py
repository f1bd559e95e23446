#!/usr/bin/env python3-vt
"""writes MANIFEST.json from the property modules present in vp/props"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
with open(os.path.join(HERE, 'properties.jsonl')) as f:
    props = [json.loads(x) for x in f if x.strip()]
checks, na = [], []
for p in props:
    pid = p['id']
    try:
        m = importlib.import_module('vp.props.' + pid.lower())
    except ImportError:
        na.append({'property': pid, 'reason': 'no check has been built yet'})
        continue
    meta = m.META
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt check.py %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': meta.get('technique', 'symbolic execution of the LLVM IR of the real code, claims decided by an SMT solver (z3), '
                                           'counterexamples replayed on the native build'),
        'level': 'model_checking',
        'level_note': 'Bounds: %s. Outside: %s. Trusts clang\'s IR, the IR semantics and library models of vp/ (cross-checked '
                      'by replaying the witness of every path natively) and z3.' % (meta['bounds'], meta['outside']),
    })
man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na,
       'notes': 'check.py ID runs one check; check.py --replay FILE replays a reported violation; see DESIGN.md'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
