#!/usr/bin/env python3
"""Records the text (hashed) of the functions the injected contracts were
written for: spec/baseline.json.  Run on the unchanged tree only."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vf import core
sc = core.Scratch()
out = {}
for f in sorted(os.listdir(V + '/props')):
    if not f.startswith('C'):
        continue
    for tier in ('quick', 'thorough'):
        for u in importlib.import_module('props.' + f[:-3]).spec(sc, tier).get('units', []):
            for (a, fn) in (u.loops or {}):
                out[a + ':' + fn] = core.norm_hash(core.extract_function(sc.read(a), fn))
            for a in list(u.loop_synth or {}) + list(u.edits or {}):
                out[a] = core.norm_hash(sc.read(a))
sc.close()
json.dump(out, open(V + '/spec/baseline.json', 'w'), indent=0, sort_keys=True)
print(len(out))
