import concurrent.futures as cf
import json, os, sys, time, traceback
from . import core, trust
from .core import VERIF, SEED, TIER, JOBS

from spec.properties import PROPS
LEVEL = {p['id']: p['level'] for p in PROPS}
NOTE = {p['id']: p['note'] for p in PROPS}
KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def baseline():
    p = os.path.join(VERIF, 'spec/baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def text_changed(u, sc, base):
    """Did the text that carries injected contracts change since they were written?"""
    for (f, fn) in (u.loops or {}):
        try:
            t = core.extract_function(sc.read(f), fn)
        except OSError:
            t = None
        if t is None or base.get(f + ':' + fn) != core.norm_hash(t):
            return True
    for f in list(u.loop_synth or {}) + list(u.edits or {}):
        try:
            if base.get(f) != core.norm_hash(sc.read(f)):
                return True
        except OSError:
            return True
    return False


def decide(pid, prop):
    """prop: dict(units=[..], natives=[..], trusted=[..], assumptions=[..], functions=[..])"""
    t0 = time.time()
    sc = core.Scratch()
    try:
        return _decide(pid, prop, sc, t0)
    finally:
        if not os.environ.get('VF_KEEP'):
            sc.close()


def _decide(pid, prop, sc, t0):
    spec = trust.add(pid, prop(sc, TIER))
    units, natives = spec.get('units', []), spec.get('natives', [])
    if core.ONLY:
        import re
        units = [u for u in units if re.fullmatch(core.ONLY, u.name)]
        natives = [n for n in natives if re.fullmatch(core.ONLY, n.name)]
    base = baseline()
    nres = []
    if natives and any('lib' in n.links for n in natives):
        for s in {n.sanitize for n in natives if 'lib' in n.links}:
            try:
                core.build_lib(sc, s)
            except core.Broken as x:
                print('note: %s' % x)
    # longest first
    units.sort(key=lambda u: -(u.weight or (10 if u.dfcc else 1)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        nf = [ex.submit(core.run_native, n, sc) for n in natives]
        uf = [ex.submit(core.run_unit, u, sc) for u in units]
        for f in uf:
            f.result()
        for f in nf:
            try:
                nres.append(f.result())
            except core.Broken as x:
                nres.append(dict(name='?', rc=3, out=str(x), secs=0))
    viol, notes, bounded_units = [], [], []
    nviol = []
    for n, r in zip(natives, nres):
        if r['rc'] == 0:
            continue
        if r['rc'] in (1, 99) or (r['rc'] < 0 and r['rc'] != -999) or r['rc'] in (134, 139):
            nviol.append((n, r))
        else:
            notes.append('native %s not run: rc=%s %s' % (r['name'], r['rc'], r['out'][-400:]))
    for u in units:
        if u.status == 'proved':
            continue
        b = getattr(u, 'b', None)
        bfail = b is not None and b.get('ok') is False and b.get('failed')
        if u.status == 'failed':
            hard = [r for r in u.failed if not core.is_invariant_obligation(r)]
            if hard and not (u.missed and u.dfcc):
                viol.append((u, u.failed))
            elif bfail:
                viol.append((u, b['failed']))
            elif not text_changed(u, sc, base):
                viol.append((u, u.failed))
            elif b is not None and b.get('ok'):
                bounded_units.append(u)
                notes.append('unit %s: loop text changed, its invariants no longer verify; bounded stand-in passed' % u.name)
            else:
                notes.append('unit %s undecided: invariants no longer verify and no bounded answer (%s)' % (
                    u.name, (b or {}).get('why', '')[:200]))
        else:
            if bfail:
                viol.append((u, b['failed']))
            elif b is not None and b.get('ok'):
                bounded_units.append(u)
                notes.append('unit %s: contracts not applicable (%s); bounded stand-in passed' % (u.name, u.na_reason[:300]))
            else:
                notes.append('unit %s undecided: %s / %s' % (u.name, u.na_reason[:600], (b or {}).get('why', '')[:300]))
    total = sum(u.obligations for u in units)
    disch = sum(u.obligations - len(u.failed) for u in units if u.status in ('proved', 'failed'))
    rc = 0
    if viol or nviol:
        rc = 1
        rdir = os.path.join(VERIF, 'evidence/replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s\nseed %d\n' % (pid, SEED))
            for n, r in nviol:
                f.write('\n== failing input found by running the real code: %s (exit %s)\n' % (n.name, r['rc']))
                f.write('   replay: VERIF_SEED=%d %s/bin/check %s  (program native/%s %s)\n' % (
                    SEED, VERIF, pid, n.source if '\n' not in n.source else n.name + ' (generated)', ' '.join(map(str, n.args))))
                f.write(r['out'] + '\n')
            for u, fl in viol:
                f.write('\n== obligations of unit %s not discharged (functions: %s)\n' % (u.name, ', '.join(u.functions)))
                for r in sorted(fl, key=lambda r: r['status'] != 'FAILURE')[:20]:
                    f.write(core.describe(r) + '\n')
                if fl and fl[0].get('trace'):
                    f.write('verifier counterexample for the first:\n' + core.trace_text(fl[0]) + '\n')
        for u, fl in viol:
            for r in sorted(fl, key=lambda r: r['status'] != 'FAILURE')[:4]:
                print('obligation failed: unit %s: %s' % (u.name, core.describe(r)))
        for n, r in nviol:
            print('failing input (%s):\n%s' % (n.name, r['out'][-1500:]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if nviol else ' no-failing-input-found'))
    else:
        for k in known_findings(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if os.environ.get('VF_DEBUG'):
        for u in units:
            print('%-30s %-8s %d obl %d failed %.1fs' % (u.name, u.status, u.obligations, len(u.failed), u.secs))
            for r in sorted(u.failed, key=lambda r: r['status'] != 'FAILURE')[:12]:
                print('     ' + core.describe(r))
    for n in notes:
        print('note: ' + n)
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=LEVEL[pid],
              coverage=dict(
                  explanation=NOTE[pid],
                  obligations=total, discharged=disch,
                  checker_cmd='goto-cc; goto-instrument --dfcc/--apply-loop-contracts; cbmc (6.11, SAT back end) per unit; %d units' % len(units),
                  trusted_base=spec.get('trusted', []),
                  units=[dict(name=u.name, functions=list(u.functions), status=u.status, obligations=u.obligations,
                              undischarged=len(u.failed), vacuity_guards_reached=u.reach, seconds=round(u.secs, 2),
                              method=('dfcc contracts' if u.dfcc else 'loop-free / completely unwound'),
                              back_end=u.backend or 'cbmc SAT') for u in units],
                  functions_under_contract=sorted({f for u in units for f in u.functions if u.status == 'proved'}),
                  solver_seconds=round(sum(u.secs for u in units), 1),
                  bounded_stand_ins=[dict(name=n.name, role=n.role, bound=n.note, rc=r['rc'], seconds=round(r['secs'], 2),
                                          report=(r.get('stdout') or r['out'])[-600:]) for n, r in zip(natives, nres)]
                  + [dict(name=u.name, role='bounded stand-in for a unit whose contracts do not apply', bound=str(u.bounded)) for u in bounded_units],
                  extraction_drops=spec.get('drops', []),
                  notes=notes),
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol) + len(nviol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d units, %d/%d obligations discharged, %d native companions, %.1fs' % (
        pid, len(units), disch, total, len(natives), time.time() - t0))
    return rc
