"""Proof harnesses and native programs for the AST node types, generated from
spec/ast.json (what each constructor takes and what each accessor reports)."""
import json, os, re
from .core import VERIF, Unit, blank_comments, match_close

SPEC = json.load(open(os.path.join(VERIF, 'spec/ast.json')))
SUPER = {'FILTER': 'LIST_COMPREHENSION', 'EXTRACT': 'LIST_COMPREHENSION', 'ALL': 'LIST_COMPREHENSION',
         'ANY': 'LIST_COMPREHENSION', 'SINGLE': 'LIST_COMPREHENSION', 'NONE': 'LIST_COMPREHENSION',
         'SHORTEST_PATH': 'PATTERN_PATH', 'NAMED_PATH': 'PATTERN_PATH'}

FLAGS = ('--no-standard-checks', '--pointer-check', '--bounds-check', '--div-by-zero-check')

CLONE_LOOP = re.compile(
    r'for\s*\(\s*(?:unsigned(?:\s+int)?|size_t|int|uint32_t)\s+(\w+)\s*=\s*0\s*;\s*\1\s*<\s*([^;]+?)\s*;\s*(?:\+\+\s*\1|\1\s*\+\+|\1\s*\+=\s*1)\s*\)'
    r'\s*\{?\s*(\w+)\[\1\]\s*=\s*(\w+)\[\s*child_index\(\s*(\w+)\s*,\s*([^\]]+?)\[\1\]\s*\)\s*\]\s*;')
WHILE_LOOP = re.compile(
    r'while\s*\(\s*(\w+)\s*<\s*([^;{}]+?)\s*\)'
    r'\s*\{\s*(\w+)\[\1\]\s*=\s*(\w+)\[\s*child_index\(\s*(\w+)\s*,\s*([^\]]+?)\[\1\]\s*\)\s*\]\s*;\s*(?:\+\+\s*\1|\1\s*\+\+|\1\s*\+=\s*1)\s*;\s*\}')


def synth_clone(text):
    """Insert loop contracts in loops of the shape
         for (i = 0; i < B; ++i) D[i] = C[child_index(N, S[i])];
    deriving the invariant from the loop's own names."""
    b = blank_comments(text)
    ins = []
    for rx in (CLONE_LOOP, WHILE_LOOP):
        for m in rx.finditer(b):
            i, B, D, C, N, S = m.groups()
            p = b.index('(', m.start())
            q = match_close(b, p) + 1
            inv = (' __CPROVER_assigns(%(i)s, __CPROVER_object_whole(%(D)s))'
                   ' __CPROVER_loop_invariant(%(i)s <= %(B)s && (!(K < %(i)s'
                   ' && %(S)s[K] == vf_welem) || %(D)s[K] == %(C)s[Gj])) ' % locals())
            ins.append((q, inv))
    ins.sort(reverse=True)
    for q, inv in ins:
        text = text[:q] + inv + text[q:]
    return text


EXTRA_LOOPS = {   # loops in constructors
    'map': {('ast_map.c', 'cypher_ast_map'): {0: '''
        __CPROVER_assigns(i, __CPROVER_object_from(node->pairs))
        __CPROVER_loop_invariant(i <= nentries && (!(K < i) || (node->pairs[2*(size_t)K] == keys[K] && node->pairs[2*(size_t)K+1] == values[K])))'''}},
    'pair_map': {('ast_map.c', 'cypher_ast_pair_map'): {0: '''
        __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= nentries)'''}},
    'pattern_path': {('ast_pattern_path.c', 'cypher_ast_pattern_path'): {0: '''
        __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= nelements)'''}},
}


def harness(t, mode):
    """mode: 'make' (constructor and accessors) or 'clone'"""
    o, args, post_free = [], [], []
    oom, det = mode == 'oom', mode == 'detail'
    mode = 'clone' if oom else mode
    isstr = any(p['kind'] == 'str' for p in t['params'])
    sup = SUPER.get(t['type'])
    o.append('#include "vfast.h"')
    if det:
        from . import units_detail
        o.append('#include "operators.h"')
        o.append('#include "vdetail.h"')
        o += units_detail.prefix(t)
    o.append('#include "%s"' % t['file'])
    body = []
    A = body.append
    A('VF_INIT(); K = vf_uint(); Gj = vf_uint();')
    if det:
        A('VF_DETAIL_INIT();')
    if isstr:
        A('VF_ASSUME(K <= (1u << 21)); W = K; Wn = 1;')
    else:
        A('VF_ASSUME(K < (1u << 22)); W = (size_t)K * sizeof(void *);')
    for l in t.get('link', []):
        pass
    counts = {}
    for p in t['params']:
        if p['kind'] == 'count':
            A('unsigned %s = vf_count();' % p['name'])
            if p.get('min'):
                A('VF_ASSUME(%s >= %d);' % (p['name'], p['min']))
            if p.get('odd'):
                A('VF_ASSUME(%s %% 2 == 1);' % p['name'])
            for ofx in p['of']:
                m = re.match(r'(\w+)([+*]\d+)?$', ofx)
                counts[m.group(1)] = (p['name'] + (m.group(2) or ''), p['name'])
    # In clone mode one child parameter, chosen arbitrarily, is followed: it sits
    # at the arbitrary position Gj among the children.
    cl = mode == 'clone' and t['children']
    pos = []
    if t['children']:
        A('unsigned nch = vf_count(); cypher_astnode_t **ch = malloc(nch * sizeof(*ch)); VF_ASSUME(ch != NULL);')
    if cl:
        A('static cypher_astnode_t x_w; vf_welem = NULL; vf_any_type = 1;')
    for p in t['params']:
        k, n = p['kind'], p['name']
        if k in ('node', 'opt'):
            A('static cypher_astnode_t o_%s;' % n)
            if det:
                A('o_%s.ordinal = vf_uint();' % n)
            if cl:
                pos.append(n)
            else:
                A('vf_register(&o_%s, CYPHER_AST_%s);' % (n, p['type']))
            A('cypher_astnode_t *p_%s = &o_%s;' % (n, n) if k == 'node' else
              'cypher_astnode_t *p_%s = vf_bool() ? &o_%s : NULL;' % (n, n))
            args.append('p_' + n)
        elif k == 'array':
            A('size_t c_%s = (size_t)%s; cypher_astnode_t **p_%s = malloc(c_%s * sizeof(*p_%s)); VF_ASSUME(p_%s != NULL);' % (n, counts[n][0], n, n, n, n))
            if p['type'] or cl:
                A('static cypher_astnode_t o_%s; if (K < c_%s) p_%s[K] = &o_%s;' % (n, n, n, n))
                if cl:
                    pos.append(n)
                else:
                    A('vf_register(&o_%s, CYPHER_AST_%s);' % (n, p['type']))
            A('cypher_astnode_t *w_%s = (K < c_%s) ? p_%s[K] : NULL;' % (n, n, n))
            args.append('p_' + n)
        elif k == 'count':
            args.append(n)
        elif k == 'bool':
            A('_Bool p_%s = vf_bool();' % n)
            args.append('p_' + n)
        elif k == 'enum':
            A('enum cypher_rel_direction p_%s = vf_uint() %% 3;' % n)
            args.append('p_' + n)
        elif k == 'op':
            if det:
                A('static struct cypher_operator o_%s; static char t_%s[9]; t_%s[8] = 0; o_%s.str = t_%s; const cypher_operator_t *p_%s = &o_%s;' % (n, n, n, n, n, n, n))
            else:
                A('const cypher_operator_t *p_%s = vf_ptr(); VF_ASSUME(p_%s != NULL);' % (n, n))
            args.append('p_' + n)
        elif k == 'oparray':
            A('size_t c_%s = %s; const cypher_operator_t **p_%s = malloc(c_%s * sizeof(*p_%s)); VF_ASSUME(p_%s != NULL);' % (n, counts[n][0], n, n, n, n))
            A('const cypher_operator_t *w_%s = (K < c_%s) ? p_%s[K] : NULL;' % (n, n, n))
            args.append('p_' + n)
        elif k == 'str':
            A('size_t n = vf_size(); VF_ASSUME(n <= (1u << 20)); char *s = malloc(n); VF_ASSUME(s != NULL); char w_s = (K < n) ? s[K] : 0;')
            args.append('s')
        elif k == 'len':
            args.append('n')
    if t['name'] == 'with' or t['name'] == 'return':
        A('VF_ASSUME(p_include_existing || nprojections > 0);')
    pairs_fix = t['name'] in ('case', 'pair_map')
    if t['children']:
        if cl:
            if pos:
                A('unsigned sel = vf_uint(); VF_ASSUME(sel < %d);' % len(pos))
                A('vf_welem = ' + ''.join('sel == %d ? &o_%s : ' % x for x in list(enumerate(pos))[:-1]) + '&o_%s; VF_ASSUME(Gj < nch); ch[Gj] = (cypher_astnode_t *)vf_welem;' % pos[-1])
        A('cypher_astnode_t *w_ch = (Gj < nch) ? ch[Gj] : NULL;')
        args += ['ch', 'nch']
    A('struct cypher_input_range r;')
    args.append('r')
    A('cypher_astnode_t *n_ = %s(%s);' % (t['ctor'], ', '.join(args)))
    A('VF_ASSERT(n_ != NULL, "%s makes a node from valid arguments");' % t['ctor'])
    A('VF_ASSUME(n_ != NULL);')

    def expect(of):
        """expected C expression for accessor value; (expr, indexed)"""
        if of == 'NULL':
            return 'NULL'
        if of.startswith('#'):
            return counts[of[1:]][1]
        return ('p_' + of) if of != 's' else None

    def elem(of):
        base = of[:of.index('[')]
        return base

    if det:
        units_detail.body(A, t)
        o.append('void harness(void)\n{\n    ' + '\n    '.join(body) + '\n}')
        return '\n'.join(o) + '\n'
    if mode == 'make':
        # the node owns its data: the caller may release its arrays
        for p in t['params']:
            if p['kind'] in ('array', 'oparray'):
                A('free(p_%s);' % p['name'])
            if p['kind'] == 'str':
                A('free(s);')
        if t['children']:
            A('free(ch);')
        A('VF_ASSERT(n_->type == CYPHER_AST_%s, "type of %s");' % (t['type'], t['name']))
        if t['children']:
            A('VF_ASSERT(n_->nchildren == nch, "number of children of %s");' % t['name'])
            A('if (Gj < nch) VF_ASSERT(n_->children[Gj] == w_ch, "children of %s");' % t['name'])
        else:
            A('VF_ASSERT(n_->nchildren == 0, "%s has no children");' % t['name'])
        for f in ('start.line', 'start.column', 'start.offset', 'end.line', 'end.column', 'end.offset'):
            A('VF_ASSERT(n_->range.%s == r.%s, "range %s of %s");' % (f, f, f, t['name']))
        for g in t['getters']:
            of = g['of']
            if of == 's':
                A('{ const char *v = %s(n_); if (K < n) VF_ASSERT(v[K] == w_s, "%s reports every byte"); VF_ASSERT(v[n] == 0, "%s is terminated"); }' % (g['fn'], g['fn'], g['fn']))
            elif '[' in of:
                b, sub = elem(of), of[of.index('[') + 1:-1]
                c = counts[b]
                if sub in ('2i', '2i+1'):
                    odd = 1 if sub == '2i+1' else 0
                    A('if (K %% 2 == %d) VF_ASSERT(%s(n_, K / 2) == ((K / 2 < %s) ? w_%s : NULL), "%s");' % (odd, g['fn'], c[1], b, g['fn']))
                else:
                    A('VF_ASSERT(%s(n_, K) == ((K < c_%s) ? w_%s : NULL), "%s");' % (g['fn'], b, b, g['fn']))
            else:
                A('VF_ASSERT(%s(n_) == %s, "%s");' % (g['fn'], expect(of), g['fn']))
    else:
        if t['children']:
            A('cypher_astnode_t **ch2 = malloc(nch * sizeof(*ch2)); VF_ASSUME(ch2 != NULL);')
            if pos:
                A('ch2[Gj] = &x_w;')
            A('cypher_astnode_t *w_ch2 = (Gj < nch) ? ch2[Gj] : NULL;')
        A('unsigned before = vf_ncopied; vf_ncopied = 0;')
        if oom:
            A('unsigned live0 = vf_live; vf_oom_on = 1; vf_oom_failed = 0;')
        A('cypher_astnode_t *c_ = %s.clone(n_, %s);' % ('cypher_%s_astnode_vt' % t['type'].lower(), 'ch2' if t['children'] else 'NULL'))
        if oom:
            vt = 'cypher_%s_astnode_vt' % t['type'].lower()
            A('if (c_ == NULL) { VF_ASSERT(vf_oom_failed, "%s is made and cloned as long as there is memory"); VF_ASSERT(errno == vf_oom_err, "the reason is kept"); VF_ASSERT(vf_live == live0, "what was allocated before the failure is released"); VF_REACH("failure"); }' % t['name'])
            A('else { VF_ASSERT(!vf_oom_failed, "running out of memory is reported"); cypher_astnode_t **cc = c_->children; %s.release(c_); vf_free(cc); VF_ASSERT(vf_live == live0, "a clone is released whole"); VF_REACH("made"); }' % vt)
            A('{ cypher_astnode_t **cc = n_->children; %s.release(n_); vf_free(cc); VF_ASSERT(vf_live == 0, "a node is released whole"); }' % vt)
            o.append('void harness(void)\n{\n    ' + '\n    '.join(body) + '\n}')
            return '\n'.join(o) + '\n'
        A('VF_ASSERT(c_ != NULL && c_ != n_, "clone of %s is a new node");' % t['name'])
        A('VF_ASSUME(c_ != NULL);')
        A('VF_ASSERT(c_->type == CYPHER_AST_%s, "clone has the type of %s");' % (t['type'], t['name']))
        for f in ('start.line', 'start.column', 'start.offset', 'end.line', 'end.column', 'end.offset'):
            A('VF_ASSERT(c_->range.%s == r.%s, "clone keeps range %s of %s");' % (f, f, f, t['name']))
        if t['children']:
            A('VF_ASSERT(c_->nchildren == nch, "clone keeps the number of children of %s");' % t['name'])
            A('if (Gj < nch) VF_ASSERT(c_->children[Gj] == w_ch2, "clone has the cloned children");')
            A('if (Gj < nch) VF_ASSERT(n_->children[Gj] == w_ch, "the original keeps its children");')
        for g in t['getters']:
            of = g['of']
            kinds = {p['name']: p['kind'] for p in t['params']}
            if of == 's':
                A('{ const char *v = %s(c_), *u = %s(n_); size_t L = vf_strlen_result; if (K < L) VF_ASSERT(v[K] == u[K], "clone keeps every byte"); VF_ASSERT(v[L] == 0, "clone is terminated"); VF_ASSERT(u[L] == 0, "original is terminated"); }' % (g['fn'], g['fn']))
            elif '[' in of:
                b, sub = elem(of), of[of.index('[') + 1:-1]
                if kinds[b] == 'oparray':
                    A('VF_ASSERT(%s(c_, K) == ((K < c_%s) ? w_%s : NULL), "clone keeps %s");' % (g['fn'], b, b, g['fn']))
                    continue
                cond, idx = 'K < c_%s && sel == %d' % (b, pos.index(b)), 'K'
                if sub in ('2i', '2i+1'):
                    cond, idx = 'K %% 2 == %d && ' % (1 if sub == '2i+1' else 0) + cond, 'K / 2'
                A('if (%s) { VF_ASSERT(%s(c_, %s) == &x_w, "clone: %s is the corresponding child"); VF_REACH("element %s"); }' % (cond, g['fn'], idx, g['fn'], g['fn']))
            elif of == 'NULL' or of.startswith('#') or kinds[of] not in ('node', 'opt'):
                A('VF_ASSERT(%s(c_) == %s, "clone keeps %s");' % (g['fn'], expect(of), g['fn']))
            else:
                A('if (p_%s == NULL) VF_ASSERT(%s(c_) == NULL, "clone: %s stays absent"); else if (sel == %d) { VF_ASSERT(%s(c_) == &x_w, "clone: %s is the corresponding child"); %s }' % (
                    of, g['fn'], g['fn'], pos.index(of), g['fn'], g['fn'], 'VF_REACH("child %s");' % g['fn'] if pos.index(of) == len(pos) - 1 else ''))
    if not any('VF_REACH' in x for x in body):
        A('VF_REACH("end");')
    o.append('void harness(void)\n{\n    ' + '\n    '.join(body) + '\n}')
    text = '\n'.join(o) + '\n'
    return text


def unit(t, mode):
    h = harness(t, mode)
    name, oom, mode = mode, mode == 'oom', 'clone' if mode == 'oom' else mode
    sup = SUPER.get(t['type'])
    isstr = any(p['kind'] == 'str' for p in t['params'])
    defs = ['-DVF_SUPER=%s' % ('CYPHER_AST_' + sup if sup else 'CYPHER_AST_' + t['type'])]
    defs.append('-DVF_SELF=CYPHER_AST_' + t['type'])
    if t['name'] == 'pair_map':
        defs += ['-DVF_ELEM1=CYPHER_AST_PROP_NAME', '-DVF_ELEM2=CYPHER_AST_EXPRESSION']
    if t['name'] == 'pattern_path':
        defs += ['-DVF_ELEM1=CYPHER_AST_NODE_PATTERN', '-DVF_ELEM2=CYPHER_AST_REL_PATTERN']
    if mode == 'clone' and t['name'] in ('call', 'query', 'comparison'):
        defs.append('-DVF_WORDS=1')
    if oom:
        defs.append('-DVF_OOM=1')
    loops, synth, dfcc = {}, {}, False
    hasarr = any(p['kind'] == 'array' for p in t['params'])
    if isstr and mode == 'clone':
        defs.append('-DVF_STRLEN=1')
    if t['name'] in EXTRA_LOOPS:
        loops = EXTRA_LOOPS[t['name']]
        dfcc = True
    if mode == 'clone' and hasarr and t['name'] != 'map':
        synth = {t['file']: synth_clone}
        dfcc = True
        if t['name'] == 'pair_map':
            loops = EXTRA_LOOPS['pair_map']
    pre = []
    if t['file'] == 'ast_pattern_path.c':
        # the accessor stored in a path is the one this file installs
        pre = [('--restrict-function-pointer',
                'cypher_ast_pattern_path_get_element.function_pointer_call.1/get_element')]
    fns = [t['ctor']] + ([g['fn'] for g in t['getters']] if mode == 'make' else [t['file'] + ':clone'])
    return Unit('%s-%s' % (name, t['name']), h, link=t.get('link', ()), defs=defs, dfcc=dfcc,
                loops=loops, loop_synth=synth, malloc_fail=False, unwindset=(),
                unwind=14, functions=fns, flags=FLAGS, pre=pre,
                sat='cadical' if (mode, t['name']) == ('make', 'map') or mode == 'clone' and not dfcc else 'minisat2',
                patience=250, weight=20 if t['name'] in ('call', 'comparison', 'query', 'map', 'pattern_path') else 0)


def units(mode):
    out = []
    for t in SPEC:
        if mode != 'make' and t['name'] == 'map':
            continue      # a map has one clone function, covered through pair_map
        out.append(unit(t, mode))
    return out
