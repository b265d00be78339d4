"""A dumper of ASTs through the public accessors, generated from spec/ast.json:
   (TYPE start-end part part ...), parts in the order of the accessors listed there."""
import json, os, re
from .core import VERIF
SPEC = json.load(open(os.path.join(VERIF, 'spec/ast.json')))
OPS = ['OR', 'XOR', 'AND', 'NOT', 'EQUAL', 'NEQUAL', 'LT', 'GT', 'LTE', 'GTE', 'PLUS', 'MINUS', 'MULT', 'DIV', 'MOD', 'POW',
       'UNARY_PLUS', 'UNARY_MINUS', 'REGEX', 'IN', 'STARTS_WITH', 'ENDS_WITH', 'CONTAINS', 'IS_NULL', 'IS_NOT_NULL']


def dumper():
    o = ['#include "cypher-parser.h"', '#include "gen.h"',
         'static size_t norm(size_t end);      /* end of the token before a gap */',
         'static unsigned visited;',
         'static const char *opname(const cypher_operator_t *o) {']
    o += ['    if (o == CYPHER_OP_%s) return "%s";' % (x, x) for x in OPS]
    o += ['    return o ? "?" : "null"; }',
          'static void dump_str(B *b, const char *s) { if (!s) { bs(b, "null"); return; } bs(b, "\\""); for (; *s; s++) { unsigned char c = *s; '
          'if (c < 32 || c > 126 || c == 34 || c == 92) bf(b, "\\\\%02x", c); else bput(b, s, 1); } bs(b, "\\""); }',
          'static void dump(B *b, const cypher_astnode_t *n);']
    seen = set()
    disp = []
    for t in SPEC:
        if t['type'] in seen:
            continue
        seen.add(t['type'])
        kinds = {p['name']: p for p in t['params']}
        o.append('static void dump_%s(B *b, const cypher_astnode_t *n) { unsigned k = 0; (void)k; (void)n; (void)b;' % t['name'])
        for g in t['getters']:
            fn, of = g['fn'], g['of']
            if of == 'NULL':
                o.append('    bs(b, " "); dump(b, %s(n));' % fn)
            elif of[0] == '#':
                o.append('    k = %s(n);' % fn)
            elif '[' in of:
                base = of.split('[')[0]
                p = kinds[base]
                extra = '+1' if t['type'] == 'COMPARISON' and base == 'args' else ''
                body = ('if (i) bs(b, " "); ' + ('bs(b, opname(%s(n, i)));' if p['kind'] == 'oparray' else 'dump(b, %s(n, i));')) % fn
                o.append('    bs(b, " ["); for (unsigned i = 0; i < k%s; i++) { %s } bs(b, "]");' % (extra, body))
            else:
                k = kinds[of]['kind']
                if k in ('node', 'opt'):
                    o.append('    bs(b, " "); dump(b, %s(n));' % fn)
                elif k == 'bool':
                    o.append('    bs(b, %s(n) ? " yes" : " no");' % fn)
                elif k == 'op':
                    o.append('    bf(b, " %%s", opname(%s(n)));' % fn)
                elif k == 'str':
                    o.append('    bs(b, " "); dump_str(b, %s(n));' % fn)
                elif k == 'enum':
                    o.append('    { int d = %s(n); bs(b, d == CYPHER_REL_INBOUND ? " in" : d == CYPHER_REL_OUTBOUND ? " out" : d == CYPHER_REL_BIDIRECTIONAL ? " both" : " ?"); }' % fn)
                else:
                    raise Exception(k)
        o.append('}')
        disp.append(('CYPHER_AST_' + t['type'], t['name']))
    o.append('static void dump(B *b, const cypher_astnode_t *n) {')
    o.append('    if (!n) { bs(b, "-"); return; }')
    o.append('    visited++;')
    o.append('    cypher_astnode_type_t t = cypher_astnode_type(n); struct cypher_input_range r = cypher_astnode_range(n);')
    for ty, name in disp:
        s = ty[len('CYPHER_AST_'):]
        if s == 'RANGE':
            o.append('    if (t == %s) { bs(b, "(RANGE"); dump_%s(b, n); bs(b, ")"); return; }' % (ty, name))
        else:
            o.append('    if (t == %s) { bf(b, "(%s %%zu-%%zu", r.start.offset, norm(r.end.offset)); dump_%s(b, n); bs(b, ")"); return; }' % (ty, s, name))
    o.append('    bf(b, "(type %d)", (int)t); }')
    return '\n'.join(o) + '\n'
