#!/usr/bin/env python3
"""record the local names the contracts refer to (run when contracts are written, never by a check)"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import *
cs = load_contracts(); w = load_world(); out = {}
d = closure(w, cs, list(cs), {})
for n, r in sorted(d.items()):
    if not isinstance(r, ExtractError) and r[1].locals: out[n] = r[1].locals
json.dump(out, open(ROOT + '/contracts/locals.json', 'w'), indent=0, sort_keys=True)
print(len(out), [n for n, r in d.items() if isinstance(r, ExtractError)])

sh = {}
for n, f in w.defs.items():
    if n in cs and shape(f): sh[n] = shape(f)
xw = ExprUnit.world(); xc = load_contracts(ExprUnit)
for n, f in xw.defs.items():
    if n in xc and shape(f): sh['expr:' + n] = shape(f)
sw = StatUnit.world(); sc = load_contracts(StatUnit)
for n, f in sw.defs.items():
    if n in sc and shape(f): sh['stat:' + n] = shape(f)
json.dump(sh, open(ROOT + '/contracts/shapes.json', 'w'), indent=0, sort_keys=True)
print(len(sh))
