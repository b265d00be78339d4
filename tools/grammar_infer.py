#!/usr/bin/env python3
"""Infers the facts of spec/grammar.json: from the strongest contracts, those the
verifier refutes are dropped until it accepts the rest (Houdini).  The result is
only a proposal: every check verifies it."""
import concurrent.futures as cf, json, os, re, sys
os.environ['VF_NOTRACE'] = '1'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import core, units_grammar as G
REQ = json.load(open(G.SPEC))['requires'] if os.path.exists(G.SPEC) else {}
out = {'requires': REQ}
sc = core.Scratch()
for src in sys.argv[1:] or ['quick_parser.c', 'parser.c']:
    text = sc.read(src[:-2] + '_leg.c')
    req = REQ.get(src, {})
    spec = dict(facts={n: list(G.FACTS) for n in G.rules(text)}, loops={}, requires=req)
    for n in spec['facts']:
        if 'SB' not in req.get(n, []):
            spec['facts'][n].remove('SACT')
    keys = []
    for m in G.DEF.finditer(text):
        if m.group(1) in G.INLINE: continue
        b, k = G.loops(m.group(0), m.group(1), {})
        assert b is not None, m.group(1)
        for j in range(k):
            spec['loops']['%s:%d' % (m.group(1), j)] = list(G.LFACTS)
    if os.environ.get('GI_INIT'):
        spec = json.load(open(os.environ['GI_INIT']))[src]; spec['requires'] = req
    LN = not os.environ.get('GI_ACTIONS')
    if LN:
        spec['facts'] = {n: [x for x in f if x in G.LINES] for n, f in spec['facts'].items()}
        spec['loops'] = {n: [x for x in f if x == 'NLSTAY'] for n, f in spec['loops'].items()}
    todo = None
    calls = {}          # rule -> the rules that call it
    for m in G.DEF.finditer(text):
        for c in set(re.findall(r'yy_(\w+)\(yy\)', m.group(0))):
            calls.setdefault(c, set()).add(m.group(1))
    others = {}
    for rnd in range(60):
        us = G.units(src, {src: spec}, only=todo, lines=LN)
        with cf.ThreadPoolExecutor(core.JOBS) as ex:
            list(ex.map(lambda u: core.run_unit(u, sc), us))
        import shutil; shutil.rmtree(sc.root + '/u', ignore_errors=True)
        drop = 0; changed = set()
        for u in us:
            others[u.name] = []
            if u.status not in ('proved', 'failed') and not (u.na_reason or '').startswith('vacuity'):
                print(u.name, u.status, u.na_reason[:600]); sys.exit(1)
            for r in u.failed:
                d = r['description']
                m = re.match(r'PROP rule (\w+): (\w+)$', d)
                if m and m.group(2) in spec['facts'][m.group(1)]:
                    spec['facts'][m.group(1)].remove(m.group(2)); drop += 1; changed.add(m.group(1)); continue
                m = re.match(r'PROP loop (\w+:\d+): (\w+)$', d)
                if m and m.group(2) in spec['loops'][m.group(1)]:
                    spec['loops'][m.group(1)].remove(m.group(2)); drop += 1; changed.add(m.group(1)); continue
                if m: continue
                others[u.name].append((u, r))
        other = sum(others.values(), [])
        todo = changed | set().union(*[calls.get(c, set()) for c in changed]) if changed else None
        json.dump({src: spec}, open('/tmp/gi-%s.json' % src, 'w'))
        if rnd in (0, 3, 6):
            for u, r in other: print('  ', u.name, core.describe(r)[:200], r['sourceLocation'].get('function'), flush=True)
        print(src, 'round', rnd, 'dropped', drop, 'others', len(other), flush=True)
        if not drop:
            for u, r in other:
                print('  ', u.name, core.describe(r)[:200], r['sourceLocation'].get('function'))
            break
    out[src] = spec
sc.close()
json.dump(dict(out, requires=REQ), open(sys.argv[0].replace('tools/grammar_infer.py', 'spec/grammar.new.%s.json' % '-'.join(sys.argv[1:])), 'w'), indent=0)
