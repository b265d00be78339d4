"""C07: the description function of every node type under contract."""
import re
from .core import Unit, chain, stub_body, find_function, blank_comments, match_close
from . import astgen
from .units_ast import D as DROP, H

# description functions with a loop of their own: array(s) of the node, its count, index
# variable, whether r outlives the loop, text before, per element, after, accessor of the count
LST = 'R(&vf_cell); if (i + 1 < n) P(", ");'
SEP = 'if (i) P(", "); R(&vf_cell);'
CLN = 'P(":"); R(&vf_cell);'
DLOOP = {
    'apply_operator': ('args', 'nargs', 'i', 0, 'R(x(get_func_name)); P("("); if (x(get_distinct)) P("DISTINCT ");', LST, 'P(")");', 'narguments'),
    'map_projection': ('selectors', 'nselectors', 'i', 0, 'R(x(get_expression)); P("{");', LST, 'P("}");', 'nselectors'),
    'create_node_props_index': ('prop_names', 'nprops', 'i', 0, 'P("ON=:"); R(x(get_label)); P("(");', LST, 'P(")");', 'nprops'),
    'drop_node_props_index': ('prop_names', 'nprops', 'i', 0, 'P("ON=:"); R(x(get_label)); P("(");', LST, 'P(")");', 'nprops'),
    'node_id_lookup': ('ids', 'nids', 'i', 1, 'R(x(get_identifier)); P(" = node(");', SEP, 'P(")");', 'nids'),
    'rel_id_lookup': ('ids', 'nids', 'i', 1, 'R(x(get_identifier)); P(" = rel(");', SEP, 'P(")");', 'nids'),
    'foreach': ('clauses', 'nclauses', 'i', 1, 'P("["); R(x(get_identifier)); P(" IN "); R(x(get_expression)); P(" | ");', SEP, 'P("]");', 'nclauses'),
    'set_labels': ('labels', 'nlabels', 'i', 1, 'R(x(get_identifier));', CLN, '', 'nlabels'),
    'remove_labels': ('labels', 'nlabels', 'i', 1, 'R(x(get_identifier));', CLN, '', 'nlabels'),
    'labels_operator': ('labels', 'nlabels', 'l', 1, 'R(x(get_expression));', CLN, '', 'nlabels'),
    'node_pattern': ('labels', 'nlabels', 'i', 1, 'P("("); if (x(get_identifier)) R(x(get_identifier));', CLN,
                     'if (x(get_properties)) { P(" {"); R(x(get_properties)); P("}"); } P(")");', 'nlabels'),
    'rel_pattern': ('reltypes', 'nreltypes', 'i', 1, 'P(x(get_direction) == CYPHER_REL_INBOUND ? "<-[" : "-["); if (x(get_identifier)) R(x(get_identifier));',
                    'P(i ? "|:" : ":"); R(&vf_cell);',
                    'if (x(get_varlength)) { P("*"); R(x(get_varlength)); } if (x(get_properties)) { P(" {"); R(x(get_properties)); P("}"); } P(x(get_direction) == CYPHER_REL_OUTBOUND ? "]->" : "]-");', 'nreltypes'),
    'pattern_path': ('elements', 'nelements', 'i', 0, '', 'P(i % 2 ? "-[" : "("); R(&vf_cell); P(i % 2 ? "]-" : ")");', '', 'nelements'),
    'case': ('alternatives', 'nalternatives', 'i', 0, 'if (x(get_expression)) { P("expression="); R(x(get_expression)); P(", "); } P("alternatives=[");',
             'if (i) P(", "); P("("); R(&vf_cell); P(":"); R(&vf_cell2); P(")");', 'P("]"); if (x(get_default)) { P(", default="); R(x(get_default)); }', 'nalternatives'),
    'map': ('pairs', 'nentries', 'i', 0, 'P("{");', 'if (i) P(", "); R(&vf_cell); P(":"); R(&vf_cell2);', 'P("}");', 'nentries'),
    'comparison': ('args', 'length', 'i', 0, '', 'R(&vf_cell); P(" "); P(vf_op.str); P(" ");', 'R(&o_last);', 'get_length'),
}
PAIRS = ('case', 'map')


def xs(t, s):
    s = re.sub(r'\bx\((\w+)\)', r'cypher_ast_%s_\1(a)' % t['name'], s)
    return re.sub(r'\bx2\((\w+)\)', r'cypher_ast_%s_\1' % t['name'], s)


def prefix(t):
    if t['name'] not in DLOOP:
        return []
    d = DLOOP[t['name']]
    return ['static struct cypher_operator vf_op; static unsigned vf_ops; static const char *vf_opat(size_t e) { __CPROVER_assert(e == ci, "PROP the operators in order"); return vf_op.str; }',
            '#define VF_OP(e) vf_opat(e)',
            'static struct cypher_operator vf_op; static char vf_opstr[9]; static cypher_astnode_t o_last;',
            'static void vf_elem(unsigned i, unsigned n) { VF_ASSERT(gi == i, "elements in order"); ci = gi++; vf_cell.ordinal = vf_uint(); vf_cell2.ordinal = vf_uint(); %s }' % d[5]]


def body(A, t):
    vt = 'cypher_%s_astnode_vt' % t['type'].lower()
    if any(p['kind'] == 'str' for p in t['params']):
        A('vf_sp = %s(n_); vf_sl = vf_size(); VF_ASSUME(vf_sl <= n);' % [g['fn'] for g in t['getters'] if g['of'] == 's'][0])
    A('const cypher_astnode_t *a = n_;')
    d = DLOOP.get(t['name'])
    if t['name'] == 'comparison':
        A('vf_opstr[8] = 0; vf_op.str = vf_opstr; o_last.ordinal = vf_uint();')
    if d:
        A(xs(t, d[4]))
        if d[1] == 'length':
            A('at_last = length; at_lastv = o_last.ordinal;')
    if t['name'] in PAIRS:
        A('at_pairs = 1;')
    A('ssize_t dn = %s.detailstr(n_, S_, SZ);' % vt)
    A('if (vf_failed_) { VF_ASSERT(dn == -1, "a failure is reported"); return; }')
    if d:
        A('VF_ASSERT(gi == %s, "every element");' % xs(t, 'x(%s)' % d[7]))
        A(xs(t, d[6]))
    else:
        from .astnative import D
        A(xs(t, D[t['name']]))
    A('VF_ASSERT(dn >= 0 && (size_t)dn == rp, "the length is that of the whole text, whatever the buffer");')
    A('VF_ASSERT(sq == rq, "no sequence twice");')
    A('if (KD < rp && rp < SZ) { VF_ASSERT(bk == rc, "every character of the text"); }')
    A('VF_REACH("described");')


def unprintf(text, call='snprintf', fixed=2):
    """Mechanical: snprintf(S, N, "literal", args...) becomes the sequence of the
    pieces its format literal names, arguments in order."""
    while True:
        b = blank_comments(text)
        m = re.search(r'(?<!\w)%s\s*\(' % call, b)
        if not m:
            return text
        p = m.end() - 1
        q = match_close(b, p)
        s = text[p + 1:q]
        parts, dep, cur, k = [], 0, '', 0
        while k < len(s):
            c = s[k]
            if c in '"\'':
                e = k + 1
                while s[e] != c:
                    e += 2 if s[e] == '\\' else 1
                cur += s[k:e + 1]
                k = e + 1
                continue
            dep += (c in '([{') - (c in ')]}')
            if c == ',' and dep == 0:
                parts.append(cur)
                cur = ''
            else:
                cur += c
            k += 1
        parts.append(cur)
        fmt = parts[fixed].strip()
        if not re.match(r'^("(?:[^"\\]|\\.)*"\s*)+$', fmt):
            return None
        fmt = ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', fmt))
        out, args = ['vf_begin(%s)' % ', '.join(parts[:fixed])], parts[fixed + 1:]
        for x in re.findall(r'%[sudp]|%%|[^%]+|%', fmt):
            if x in ('%s', '%u', '%d'):
                if not args:
                    return None
                out.append('%s(%s)' % ('vf_text' if x == '%s' else 'vf_num', args.pop(0)))
            elif x == '%p':         # %*.*s
                if len(args) < 3:
                    return None
                out.append('vf_pad(%s)' % ', '.join(args[:3]))
                del args[:3]
            elif x == '%':
                return None
            else:
                x = '%' if x == '%%' else x
                out.append('vf_lit("%s", sizeof("%s") - 1)' % (x, x))
        if args:
            return None
        out.append('vf_end()')
        text = text[:m.start()] + '(' + ', '.join(out) + ')' + text[q + 1:]


def unstore(text):
    text = re.sub(r'\bstr\s*\[([^\]]+)\]\s*=(?!=)\s*([^;]+);', r'vf_store((\1), (\2));', text)
    b = blank_comments(text)
    return None if re.search(r'\bstr\s*\[|\*\s*str\b(?!\s*,)', re.sub(r'char\s*\*\s*str', '', b)) else text


def unat(text, arr):
    f = find_function(text, 'detailstr')
    if f is None:
        return None
    body = text[f[1]:f[2] + 1]
    body = re.sub(r'\bnode\s*->\s*%s\s*\[([^\]]+)\]\s*->\s*ordinal\b' % arr, r'VF_AT(\1)', body)
    body = re.sub(r'\bnode\s*->\s*ops\s*\[([^\]]+)\]\s*->\s*str\b', r'VF_OP(\1)', body)
    if re.search(r'->\s*%s\b' % arr, body):
        return None
    return text[:f[1]] + body + text[f[2] + 1:]


def unit(t):
    h = astgen.harness(t, 'detail')
    sup = astgen.SUPER.get(t['type'])
    defs = ['-DVF_SUPER=%s' % ('CYPHER_AST_' + sup if sup else 'CYPHER_AST_' + t['type']), '-DVF_SELF=CYPHER_AST_' + t['type']]
    if t['name'] == 'pattern_path':
        defs += ['-DVF_ELEM1=CYPHER_AST_NODE_PATTERN', '-DVF_ELEM2=CYPHER_AST_REL_PATTERN']
    loops, ghost = dict(astgen.EXTRA_LOOPS.get(t['name'], {})), {}
    edits = [unprintf, unstore]
    d = DLOOP.get(t['name'])
    if d:
        arr, cnt, i, r = d[:4]
        ghost = {(t['file'], 'detailstr'): {0: 'vf_elem(%s, node->%s);' % (i, cnt)}}
        loops[(t['file'], 'detailstr')] = {0: '''
            __CPROVER_assigns(%s, n, %s gi, ci, rp, rc, w_at, w_av, w_len, w_ch, w_hit, vf_failed_, vf_cell.ordinal, vf_cell2.ordinal, bk)
            __CPROVER_loop_invariant(%s <= node->%s && gi == %s && n == rp && !vf_failed_ && n <= 200 + 64 * (size_t)%s && (!(KD < n && n < size) || bk == rc))
            ''' % (i, 'r,' if r else '', i, cnt, i, i)}
        edits.append(lambda s, arr=arr: unat(s, arr))
    pre = []
    if t['file'] == 'ast_pattern_path.c':
        pre = [('--restrict-function-pointer', 'cypher_ast_pattern_path_get_element.function_pointer_call.1/get_element')]
    return Unit('detail-' + t['name'], h, link=t.get('link', ()), defs=defs, dfcc=bool(d), loops=loops, ghost=ghost, edits={t['file']: chain(*edits)},
                malloc_fail=False, unwind=14, functions=[t['file'] + ':detailstr'], flags=astgen.FLAGS, pre=pre, patience=300, sat='cadical' if d else 'minisat2', weight=25 if t['name'] in ('with', 'call', 'case', 'rel_pattern', 'return', 'map') else 0)


def within(fn, edit):
    """The rewrite applies to one function of the file."""
    def go(text):
        f = find_function(text, fn)
        if f is None:
            return None
        body = edit(text[f[1]:f[2] + 1])
        return None if body is None else text[:f[1]] + body + text[f[2] + 1:]
    return go


def elements(body):
    return re.sub(r'\belements\s*\[([^\]]+)\]\s*->\s*ordinal\b', r'VF_AT(\1)', body)


def common():
    return [
        Unit('sequence', H('c07_seq.c'), dfcc=True, malloc_fail=False, functions=['snprint_sequence (ast.c)'], pre=DROP,
             edits={'ast.c': within('snprint_sequence', chain(unprintf, unstore, elements))},
             ghost={('ast.c', 'snprint_sequence'): {0: 'vf_elem(i, nelements);'}},
             loops={('ast.c', 'snprint_sequence'): {0: '''
                __CPROVER_assigns(i, n, gi, ci, rp, rc, w_at, w_av, w_len, w_ch, w_hit, vf_failed_, vf_cell.ordinal, vf_cell2.ordinal, bk)
                __CPROVER_loop_invariant(i <= nelements && gi == i && n == rp && !vf_failed_ && n <= 200 + 64 * (size_t)i && (!(KD < n && n < size) || bk == rc))'''}}),
        Unit('detailstr-realloc', H('c07_realloc.c'), defs=['-DVF_WHAT=1'], malloc_fail=False, functions=['cypher_astnode_detailstr_realloc (ast.c)'], pre=DROP,
             edits={'ast.c': stub_body('cypher_astnode_detailstr', 'return vf_describe(node, str, size);')}),
        Unit('snprintf-realloc', H('c07_realloc.c'), defs=['-DVF_WHAT=2'], malloc_fail=False, functions=['snprintf_realloc (util.c)']),
        Unit('detailstr', H('c07_dispatch.c'), malloc_fail=False, functions=['cypher_astnode_detailstr (ast.c)'], pre=DROP,
             edits={'ast.c': lambda s: re.sub(r'\bvt->detailstr\s*\(', 'vf_call(vt, ', s)}),
    ]


def units():
    return [unit(t) for t in astgen.SPEC if t['name'] != 'pair_map'] + common()
