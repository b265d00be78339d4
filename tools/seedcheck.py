#!/usr/bin/env python3
"""Runs, for each planted bug given (default: all), the check of its property
against a private patched copy of /repo's sources; prints who caught what."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(b):
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        for s in ('lib/src', 'linter/src'):
            shutil.copytree('/repo/' + s, d + '/' + s, ignore=shutil.ignore_patterns('*.o', '*.lo', '.libs', '.deps', '*.la', '*.a'))
        subprocess.check_call(['patch', '-s', '-p1', '-d', d, '-i', V + '/seeded/%s/patch.diff' % b], stdout=subprocess.DEVNULL)
        pid = json.load(open(V + '/seeded/%s/meta.json' % b))['property']
        p = subprocess.run([V + '/bin/check', pid], env=dict(os.environ, VF_REPO=d, VF_JOBS='3'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        kind = 'MISSED' if not v else ('obligation' if 'no-failing-input' in v[0] else 'failing input') + (' + obligation' if v and 'no-failing-input' not in v[0] and 'obligation failed' in p.stdout else '')
        n = [l for l in p.stdout.splitlines() if l.startswith(('note:', 'obligation failed'))][:3]
        return '%-18s %s rc=%d %s %s' % (b, pid, p.returncode, kind, ' | '.join(x[:200] for x in n))
    finally:
        shutil.rmtree(d)
bs = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
with cf.ThreadPoolExecutor(int(os.environ.get('SC_PAR', '3'))) as ex:
    for r in ex.map(one, bs):
        print(r, flush=True)
