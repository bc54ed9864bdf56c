#!/usr/bin/env python3
"""write MANIFEST.json from tools/props.py"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, c in sorted(PROPS.items()):
    if c.get('skip'): continue
    checks.append(dict(property=p, quick_cmd='python3 tools/check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + p, evidence_file='evidence/%s.json' % p,
      technique='contract-based deductive verification: Verus/Z3 on functions translated from the clang AST' + (c.get('tech', '')),
      level=c.get('level', 'other'), level_note=c.get('note', 'Contracts on the limb-level functions this property rests on are proved for all inputs; the remaining functions are exercised by a bounded driver against exact arithmetic (labelled bounded, not proved). Trusted: the AST translation, primitive contracts of std::vector/shared_ptr, Verus and Z3.')))
na = [dict(property=k, reason=v) for k, v in sorted(NA.items())] + [dict(property=p, reason=c['skip']) for p, c in sorted(PROPS.items()) if c.get('skip')]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
  notes='No hooks in /repo. Each check translates /repo on every run; known-findings.txt lists repaired defects.'), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
