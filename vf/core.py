"""Runner: prepares a scratch copy of /repo's current sources, builds proof
units with goto-cc / goto-instrument, discharges them with cbmc, runs native
companions, decides and writes evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
ONLY = os.environ.get('VF_ONLY')
TIER = os.environ.get('VERIF_TIER', 'quick')
JOBS = int(os.environ.get('VF_JOBS', '8'))

CBMC_BASE = ['--json-ui', '--no-unwinding-assertions']


class Broken(Exception):
    """The machinery (not the code under check) failed."""


def sh(cmd, timeout=600, cwd=None, mem_gb=12, stdin=None, env=None):
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, preexec_fn=lim if mem_gb else os.setsid,
                         stdin=subprocess.PIPE if stdin else subprocess.DEVNULL, env=env)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        return -999, '', 'timeout after %ds' % timeout


# ---------------------------------------------------------------- scratch copy

class Scratch:
    """A private copy of the sources of /repo's working tree with the generated
    files (config.h, cypher-parser.h, *_leg.c) made afresh from them."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='vf-')
        self.src = os.path.join(self.root, 'lib/src')
        os.makedirs(self.src)
        os.makedirs(os.path.join(self.root, 'linter/src'))
        for d in ('lib/src', 'linter/src'):
            for f in os.listdir(os.path.join(REPO, d)):
                if f.endswith(('.c', '.h', '.in', '.leg')) and not f.endswith('_leg.c') \
                        and not (f == 'cypher-parser.h' and d == 'lib/src'):
                    shutil.copy(os.path.join(REPO, d, f), os.path.join(self.root, d, f))
        lint = os.path.join(REPO, 'linter/src/cypher-lint.c')
        if os.path.exists(lint):        # the tool, for the proof units that include its text
            shutil.copy(lint, os.path.join(self.src, 'cypher-lint.inc'))
        shutil.copy(os.path.join(VERIF, 'spec/config.h'), os.path.join(self.root, 'config.h'))
        h = open(os.path.join(self.src, 'cypher-parser.h.in')).read()
        for k, v in (('PACKAGE_VERSION', '0.6.4~devel'), ('PACKAGE_MAJOR_VERSION', '0'),
                     ('PACKAGE_MINOR_VERSION', '6'), ('PACKAGE_PATCH_VERSION', '4'),
                     ('PACKAGE_DEVELOPMENT_VERSION', 'devel'), ('PACKAGE_STATUS_VERSION', '1')):
            h = h.replace('@%s@' % k, v)
        open(os.path.join(self.src, 'cypher-parser.h'), 'w').write(h)
        for g in ('parser', 'quick_parser'):
            rc, o, e = sh(['leg', '-o', g + '_leg.c', g + '.leg'], cwd=self.src)
            if rc != 0:
                raise Broken('leg failed on %s.leg: %s' % (g, e))

    def read(self, name):
        return open(os.path.join(self.src, name)).read()

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


# ------------------------------------------------------- C text, mechanically

def blank_comments(s):
    """Same length text with comments and literals' contents blanked."""
    out = list(s)
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith('/*', i):
            j = s.find('*/', i + 2)
            j = n if j < 0 else j + 2
            for k in range(i, j):
                if out[k] != '\n':
                    out[k] = ' '
            i = j
        elif s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            for k in range(i, j):
                out[k] = ' '
            i = j
        elif c in '"\'':
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == '\\' else 1
            for k in range(i + 1, min(j, n)):
                if out[k] != '\n':
                    out[k] = '_'
            i = j + 1
        else:
            i += 1
    return ''.join(out)


def match_close(b, i, o='(', c=')'):
    d = 0
    for k in range(i, len(b)):
        if b[k] == o:
            d += 1
        elif b[k] == c:
            d -= 1
            if d == 0:
                return k
    return -1


def find_function(src, name):
    """(start of header, index of '{', index of matching '}') of a definition."""
    b = blank_comments(src)
    for m in re.finditer(r'\b%s\s*\(' % re.escape(name), b):
        p = b.index('(', m.start())
        q = match_close(b, p)
        if q < 0:
            continue
        r = q + 1
        while r < len(b) and b[r] in ' \t\r\n':
            r += 1
        if r < len(b) and b[r] == '{' and b.count('{', 0, m.start()) == b.count('}', 0, m.start()):
            e = match_close(b, r, '{', '}')
            h = max(b.rfind(';', 0, m.start()), b.rfind('}', 0, m.start())) + 1
            # skip preprocessor lines between
            seg = b[h:m.start()]
            k = seg.rfind('\n\n')
            return h + max(k, 0), r, e
    return None


def loops_in(src, name):
    """List of (kind, header_end, body_start) for the for/while/do loops of a
    function, in textual order.  header_end is the position at which loop
    contract clauses are inserted."""
    f = find_function(src, name)
    if f is None:
        return None
    _, s, e = f
    b = blank_comments(src)
    out, dowhiles = [], set()
    for m in re.finditer(r'\b(for|while|do)\b', b[s:e]):
        at = s + m.start()
        k = m.group(1)
        if k == 'do':
            ob = b.index('{', at)
            cb = match_close(b, ob, '{', '}')
            w = re.compile(r'\s*while\s*').match(b, cb + 1)
            if not w:
                continue
            p = b.index('(', cb)
            dowhiles.add(w.end() - len(w.group(0).lstrip()))
            for x in range(cb, p):
                dowhiles.add(x)
            out.append(('do', match_close(b, p) + 1, ob))
        else:
            if at in dowhiles:
                continue
            p = b.index('(', at)
            q = match_close(b, p)
            out.append((k, q + 1, q + 1))
    return out


def inject_loop_contracts(src, fn, clauses):
    """clauses: {ordinal: text}; returns new text or None if it cannot apply."""
    ls = loops_in(src, fn)
    if ls is None:
        return None
    b = blank_comments(src)
    ins = []            # (position, end, replacement)
    for k, txt in clauses.items():
        if k >= len(ls):
            return None
        txt = ' ' + ' '.join(txt.split()) + ' '
        kind, pos, body = ls[k]
        if kind != 'do':
            ins.append((pos, pos, txt))
            continue
        # do B while (C);  ==>  while (1) <contract> { B if (!(C)) break; }
        cb = match_close(b, body, '{', '}')
        if re.search(r'\bcontinue\b', b[body:cb]):
            return None
        p = b.index('(', cb)
        d = b.rindex('do', 0, body)
        semi = b.index(';', pos - 1)
        ins.append((d, d + 2, 'while (1)' + txt))
        ins.append((cb, semi + 1, 'if (!' + src[p:pos] + ') break; }'))
    for pos, end, t in sorted(ins, reverse=True):
        src = src[:pos] + t + src[end:]
    return src


def inject_ghost(src, fn, stmts):
    """stmts: {loop ordinal: ghost statements} placed at the start of that loop's body."""
    ls = loops_in(src, fn)
    if ls is None:
        return None
    b = blank_comments(src)
    for k, txt in sorted(stmts.items(), reverse=True):
        if k >= len(ls):
            return None
        at = ls[k][2]
        m = re.compile(r'\s*\{').match(b, at)
        if not m:
            return None
        src = src[:m.end()] + ' ' + ' '.join(txt.split()) + ' ' + src[m.end():]
    return src


def extract_function(src, name):
    f = find_function(src, name)
    if f is None:
        return None
    return src[f[0]:f[2] + 1].strip() + '\n'


def stub_body(fn, body):
    """Mechanical rewrite: the body of a callee is replaced by its contract
    stub (the callee's own body is verified in a unit of its own)."""
    def go(text):
        f = find_function(text, fn)
        return None if f is None else text[:f[1]] + '{ ' + body + ' }' + text[f[2] + 1:]
    return go


def recursion(fn, to):
    """Mechanical rewrite: calls of fn in its own body go to its contract stub
    `to` (induction over the call depth: the contract is what is verified)."""
    def go(text):
        f = find_function(text, fn)
        if f is None:
            return None
        body = text[f[1]:f[2] + 1]
        return text[:f[1]] + re.sub(r'\b%s(\s*\()' % fn, to + r'\1', body) + text[f[2] + 1:]
    return go


def chain(*fs):
    def go(text):
        for f in fs:
            text = f(text)
            if text is None:
                return None
        return text
    return go


def norm_hash(text):
    return hashlib.sha256(re.sub(r'\s+', '', blank_comments(text)).encode()).hexdigest()[:16]


# ----------------------------------------------------------------- proof units

class Unit:
    """One deductive obligation set.

    sources:  {scratch file name: text}   generated files (harness and rewritten sources)
    main:     name of the translation unit with `harness()`
    link:     other translation units (paths relative to lib/src)
    dfcc:     enforce / replace / loop contracts through goto-instrument --dfcc
    bounded:  None or dict(defs=[..], unwind=n): the same harness, bounded
    na:       reason why the contracts could not be carried over to this text
    """

    def __init__(self, name, harness, link=(), defs=(), dfcc=False, enforce=(), replace=(),
                 loops=None, ghost=None, loop_synth=None, unwind=None, unwindset=(), flags=(), malloc_fail=True, timeout=400,
                 bounded=None, edits=None, functions=(), entry='harness', nosl=False, object_bits=None,
                 instrument=(), leak=False, backend=None, pre=(), sat='minisat2', patience=120, weight=0):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.status = None       # proved | failed | na | broken
        self.failed, self.obligations, self.reach, self.secs = [], 0, 0, 0.0
        self.log, self.na_reason, self.kind = '', '', 'deductive'
        self.text_changed = None

    # -- build
    def prepare(self, sc, dirname, bounded):
        d = os.path.join(sc.root, 'u', dirname)
        os.makedirs(d)
        # rewritten sources shadow the originals by coming first on the include path
        edits = {}
        for (f, fn), stmts in (self.ghost or {}).items():
            t = inject_ghost(edits.get(f) or sc.read(f), fn, stmts)
            if t is None:
                raise LookupError('ghost statements of %s (%s) do not apply to this text' % (fn, f))
            edits[f] = t
        if not bounded:
            for (f, fn), clauses in (self.loops or {}).items():
                t = edits.get(f) or sc.read(f)
                t = inject_loop_contracts(t, fn, clauses)
                if t is None:
                    raise LookupError('loop contracts of %s (%s) do not apply to this text' % (fn, f))
                edits[f] = t
            for f, fnc in (self.loop_synth or {}).items():
                t = fnc(edits.get(f) or sc.read(f))
                if t is None:
                    raise LookupError('no loop contract can be synthesised for %s' % f)
                edits[f] = t
        for f, fnc in (self.edits or {}).items():
            t = fnc(edits.get(f) or sc.read(f))
            if t is None:
                raise LookupError('mechanical rewrite of %s does not apply' % f)
            edits[f] = t
        for f, t in edits.items():
            open(os.path.join(d, f), 'w').write(t)
        open(os.path.join(d, 'harness.c'), 'w').write(self.harness)
        return d

    def cc(self, sc, d, bounded):
        defs = ['-DHAVE_CONFIG_H', '-DVF_SEED=%d' % SEED] + list(self.defs)
        if bounded:
            defs += ['-DVF_BOUNDED=%d' % bounded.get('n', 3)] + list(bounded.get('defs', ()))
        else:
            defs += ['-DVF_DEDUCTIVE=1']
        inc = ['-I', d, '-I', os.path.join(VERIF, 'harness'), '-I', sc.src, '-I', os.path.join(sc.root, 'lib')]
        srcs = [os.path.join(d, 'harness.c')]
        for l in self.link:
            p = os.path.join(d, l)
            srcs.append(p if os.path.exists(p) else os.path.join(sc.src, l))
        gb = os.path.join(d, 'a.gb')
        rc, o, e = sh(['goto-cc', '-D__CPROVER__=1', '-std=gnu11', '-w'] + defs + inc + ['--function', self.entry, '-o', gb] + srcs)
        if rc != 0:
            raise LookupError('goto-cc: ' + (o + e)[-1500:])
        return gb

    def run(self, sc, bounded=None):
        t0 = time.time()
        d = self.prepare(sc, self.name + ('-b' if bounded else ''), bounded)
        gb = self.cc(sc, d, bounded)
        for k, c in enumerate(self.pre):
            out = os.path.join(d, 'p%d.gb' % k)
            rc, o, e = sh(['goto-instrument'] + list(c) + [gb, out])
            if rc != 0:
                raise LookupError('goto-instrument: ' + (o + e)[-1500:])
            gb = out
        use_dfcc = self.dfcc and not bounded
        if use_dfcc or (self.instrument and not bounded):
            out = os.path.join(d, 'b.gb')
            cmd = ['goto-instrument'] + list(self.instrument)
            cmd += ['--malloc-may-fail', '--malloc-fail-null'] if self.malloc_fail else ['--no-malloc-may-fail']
            if use_dfcc:
                cmd += ['--dfcc', self.entry]
                for f in self.enforce:
                    cmd += ['--enforce-contract', f]
                for f in self.replace:
                    cmd += ['--replace-call-with-contract', f]
                if self.loops or self.loop_synth:
                    cmd += ['--apply-loop-contracts']
            rc, o, e = sh(cmd + [gb, out])
            if rc != 0:
                raise LookupError('goto-instrument: ' + (o + e)[-1500:])
            gb = out
        cmd = ['cbmc', gb] + CBMC_BASE
        if self.malloc_fail:
            cmd += ['--malloc-may-fail', '--malloc-fail-null']
        else:
            cmd += ['--no-malloc-may-fail']
        if self.object_bits:
            cmd += ['--object-bits', str(self.object_bits)]
        if self.leak:
            cmd += ['--memory-leak-check']
        cmd += list(self.flags)
        if self.backend:
            cmd += ['--' + self.backend]
        if bounded:
            cmd += ['--unwind', str(bounded.get('unwind', 6))]
        else:
            # a loop left without a contract must be unwound completely
            cmd[cmd.index('--no-unwinding-assertions')] = '--unwinding-assertions'
            if self.unwind:
                cmd += ['--unwind', str(self.unwind)]
            for u in self.unwindset:
                cmd += ['--unwindset', u]
        tmo = bounded.get('timeout', 300) if bounded else self.timeout
        order = [self.sat, 'cadical' if self.sat == 'minisat2' else 'minisat2']
        if self.backend:
            order = ['']
        res = None
        for k, solver in enumerate(order):
            c2 = cmd + (['--sat-solver', solver] if solver else [])
            rc, o, e = sh(c2, timeout=tmo if k else min(tmo, self.patience))
            try:
                for item in json.loads(o):
                    if 'result' in item:
                        res = item['result']
            except ValueError:
                pass
            if res is not None and any(r['status'] not in ('SUCCESS', 'FAILURE', 'UNKNOWN') for r in res):
                res = None
            if res is not None:
                break
        cmd = c2
        secs = time.time() - t0
        if res is None:
            msg = ''
            try:
                msg = ' '.join(i.get('messageText', '') for i in json.loads(o) if i.get('messageType') == 'ERROR')
            except ValueError:
                pass
            return dict(ok=None, secs=secs, why=(msg or e or o)[-1500:])
        failed, nobl, nreach, missed = [], 0, 0, []
        if any(r['status'] not in ('SUCCESS', 'FAILURE', 'UNKNOWN') for r in res) or \
                not any(r['status'] == 'FAILURE' for r in res) and any(r['status'] == 'UNKNOWN' for r in res):
            return dict(ok=None, secs=secs, why='verifier gave no verdict: ' + (e or '')[-300:])
        for r in res:
            desc = r.get('description', '')
            if desc.startswith('REACH'):
                if r['status'] == 'FAILURE':
                    nreach += 1
                else:
                    missed.append(desc)
                continue
            nobl += 1
            if r['status'] != 'SUCCESS':
                failed.append(r)
        if failed and not bounded and not os.environ.get('VF_NOTRACE'):
            # a second run for the counterexample of the first failed obligation
            rc, o, e = sh(cmd + ['--trace', '--property', failed[0]['property']], timeout=90)
            try:
                for item in json.loads(o):
                    for r in item.get('result', []) if isinstance(item, dict) else []:
                        if r['property'] == failed[0]['property'] and r.get('trace'):
                            failed[0]['trace'] = r['trace']
            except ValueError:
                pass
        return dict(ok=not failed and not missed, failed=failed, missed=missed, nobl=nobl,
                    nreach=nreach, secs=secs, cmd=' '.join(cmd))


def describe(r):
    loc = r.get('sourceLocation', {})
    return '%s: %s [%s:%s %s]' % (r.get('property'), r.get('description'),
                                  os.path.basename(loc.get('file', '?')), loc.get('line', '?'), r.get('status'))


def trace_text(r, limit=120):
    out = []
    for s in r.get('trace', []):
        if s.get('hidden'):
            continue
        if s.get('stepType') == 'assignment' and s.get('assignmentType') != 'actual-parameter':
            v = s.get('value', {})
            lhs = s.get('lhs', '')
            if lhs.startswith('__') or 'return_value' in lhs:
                continue
            val = v.get('data', v.get('name', ''))
            out.append('  %s = %s   (%s:%s)' % (lhs, val, os.path.basename(s.get('sourceLocation', {}).get('file', '')),
                                                s.get('sourceLocation', {}).get('line', '')))
    return '\n'.join(out[-limit:])


def is_invariant_obligation(r):
    d = (r.get('description') or '') + ' ' + (r.get('property') or '')
    return any(k in d for k in ('loop invariant', 'loop_invariant', 'invariant before entry', 'invariant after step',
                                'loop_assigns', 'is assignable', 'assigns clause', 'assignable', 'variant',
                                'unwinding assertion', 'unwind'))


def run_unit(u, sc):
    try:
        r = u.run(sc)
        u.secs += r['secs']
        if r['ok'] is None:
            u.status, u.na_reason = 'na', r['why']
        else:
            u.obligations, u.reach = r['nobl'], r['nreach']
            u.failed = r['failed']
            u.missed = r['missed']
            u.cmd = r['cmd']
            if r['ok']:
                u.status = 'proved'
            elif r['missed'] and not r['failed']:
                u.status, u.na_reason = 'na', 'vacuity guard not reached: %s' % r['missed']
            else:
                u.status = 'failed'
    except LookupError as x:
        u.status, u.na_reason = 'na', str(x)
    if u.status != 'proved' and u.bounded:
        try:
            b = u.run(sc, bounded=u.bounded)
            u.secs += b['secs']
            u.b = b
        except LookupError as x:
            u.b = dict(ok=None, why=str(x))
    return u


# --------------------------------------------------------------- native programs

class Native:
    """A program over the real library (gcc, ASan+UBSan); exit 0 = nothing
    found, 1 = it prints the failing input, other = could not be run."""

    def __init__(self, name, source, args=(), timeout=250, extra=(), links=('lib',), defs=(), sanitize=True, role='bounded stand-in', env=None, note=''):
        self.__dict__.update(locals())
        del self.__dict__['self']


def lib_sources(sc):
    am = open(os.path.join(REPO, 'lib/src/Makefile.am')).read()
    am = am.replace('\\\n', ' ')
    m = re.search(r'libcypher_parser_la_SOURCES\s*=(.*)', am)
    fs = [f for f in m.group(1).split() if f.endswith('.c')]
    return [f for f in fs if os.path.exists(os.path.join(sc.src, f))]


def build_lib(sc, sanitize=True, extra=(), tag='lib'):
    """Compile the library of the scratch copy to objects; returns list."""
    d = os.path.join(sc.root, 'obj-' + tag + ('-san' if sanitize else ''))
    if os.path.isdir(d):
        return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.o')]
    os.makedirs(d + '.tmp')
    flags = ['-g', '-O1', '-std=gnu11', '-w', '-DHAVE_CONFIG_H'] + list(extra)
    if sanitize:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,float-cast-overflow', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

    def one(f):
        rc, o, e = sh(['gcc'] + flags + ['-I', sc.src, '-c', os.path.join(sc.src, f),
                                         '-o', os.path.join(d + '.tmp', f[:-2] + '.o')], mem_gb=0)
        if rc != 0:
            raise Broken('gcc %s: %s' % (f, e[-800:]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, lib_sources(sc)))
    os.rename(d + '.tmp', d)
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.o')]


def run_native(n, sc):
    t0 = time.time()
    d = os.path.join(sc.root, 'n', n.name)
    os.makedirs(d)
    src = os.path.join(d, 'n.c')
    if '\n' in n.source:
        open(src, 'w').write(n.source)
    else:
        src = os.path.join(VERIF, 'native', n.source)
    flags = ['-g', '-O1', '-std=gnu11', '-Werror=implicit-function-declaration', '-DHAVE_CONFIG_H'] + list(n.defs)
    if n.sanitize:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,float-cast-overflow', '-fno-sanitize-recover=undefined']
    objs = build_lib(sc, n.sanitize) if 'lib' in n.links else []
    exe = os.path.join(d, 'n')
    rc, o, e = sh(['gcc'] + flags + ['-I', sc.src, '-I', os.path.join(VERIF, 'native'), '-I', os.path.join(sc.root, 'lib'), src]
                  + objs + list(n.extra) + ['-lm', '-o', exe], mem_gb=0)
    if rc != 0:
        return dict(name=n.name, rc=3, out='compile: ' + e[-2000:], secs=time.time() - t0)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:exitcode=99:abort_on_error=0:allocator_may_return_null=1',
               UBSAN_OPTIONS='print_stacktrace=1:exitcode=99', VF_VERIF=VERIF, VF_SCRATCH=d, VF_SRC=sc.src)
    env.update(n.env or {})
    rc, o, e = sh([exe] + [str(a) for a in n.args], timeout=n.timeout, mem_gb=0, env=env, cwd=d)
    return dict(name=n.name, rc=rc, out=(o[-6000:] + ('\n--- stderr\n' + e[-6000:] if e else '')), secs=time.time() - t0, stdout=o)
