"""C14: the documented type hierarchy (spec/types.txt) against the real tables."""
import os
from .core import VERIF, Unit, Native, lib_sources, stub_body, chain

TYPES = []
for l in open(os.path.join(VERIF, 'spec/types.txt')):
    n, s, a = l.rstrip('\n').split('|')
    TYPES.append((n, None if s == '(null)' else s, a.split()))
NAMES = [t[0] for t in TYPES]


def c_tables():
    o = ['#define NT %d' % len(TYPES)]
    o.append('static const char *const T_name[NT] = { %s };' % ', '.join('"%s"' % n for n in NAMES))
    o.append('static const char *const T_str[NT] = { %s };' % ', '.join('"%s"' % s if s is not None else '0' for _, s, _ in TYPES))
    for i, (n, s, a) in enumerate(TYPES):
        o.append('static const unsigned char T_anc_%d[NT] = { %s };' % (
            i, ', '.join('1' if (m == n or m in a) else '0' for m in NAMES)))
    o.append('static const unsigned char *const T_anc[NT] = { %s };' % ', '.join('T_anc_%d' % i for i in range(len(TYPES))))
    return '\n'.join(o) + '\n'


def native_text():
    return '''#include "astnode.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
''' + c_tables() + '''
static void badly(const char *a, const char *b, const char *w) { printf("VIOLATED: %%s: %%s, %%s\\n", w, a, b); exit(1); }
int main(void)
{
    const cypher_astnode_type_t V[NT] = { %s };
    unsigned pairs = 0, lib = 0;
    for (int i = 0; i < NT; i++)
    {
        const char *s = cypher_astnode_typestr(V[i]);
        if (T_str[i] ? (s == NULL || strcmp(s, T_str[i]) != 0) : s != NULL) badly(T_name[i], s ? s : "(null)", "name of the type");
        if (cypher_astnode_instanceof(NULL, V[i])) badly("NULL", T_name[i], "null is an instance");
        struct cypher_astnode n; memset(&n, 0, sizeof n); n.type = V[i];
        if (cypher_astnode_type(&n) != V[i]) badly(T_name[i], "", "type reported");
        for (int j = 0; j < NT; j++)
        {
            if (i != j && V[i] == V[j]) badly(T_name[i], T_name[j], "two types have the same value");
            bool r = cypher_astnode_instanceof(&n, V[j]);
            if (r != (T_anc[i][j] != 0)) badly(T_name[i], T_name[j], r ? "is an instance, against the documentation" : "is not an instance, against the documentation");
            pairs++;
        }
    }
    printf("all %%u pairs of types agree with the documentation\\n", pairs);
    return 0;
}
''' % ', '.join('CYPHER_AST_' + n for n in NAMES)


def unit(sc):
    h = '''/* cypher_astnode_instanceof, _typestr, _type over the real tables, every pair of types */
#include "vf.h"
#include "ast.c"
''' + c_tables() + '''
static _Bool same(const char *a, const char *b)
{
    if (a == NULL || b == NULL) { return a == b; }
    unsigned i = 0;
    while (a[i] != 0 && a[i] == b[i]) { i++; }
    return a[i] == b[i];
}
void harness(void)
{
    const cypher_astnode_type_t V[NT] = { %s };
    struct cypher_astnode node;
    for (unsigned j = 0; j < NT; j++) { VF_ASSERT(!cypher_astnode_instanceof(NULL, V[j]), "null is an instance of nothing"); }
''' % ', '.join('CYPHER_AST_' + n for n in NAMES)
    for i, n in enumerate(NAMES):
        h += '''    {
        node.type = V[%(i)d];
        _Bool own = 1, anc = 1;
        for (unsigned j = 0; j < NT; j++)
        {
            own = own && (V[%(i)d] == V[j]) == (j == %(i)d);
            anc = anc && cypher_astnode_instanceof(&node, V[j]) == (T_anc_%(i)d[j] != 0);
        }
        VF_ASSERT(own, "%(n)s has a value of its own");
        VF_ASSERT(cypher_astnode_type(&node) == V[%(i)d], "type of a %(n)s node");
        VF_ASSERT(anc, "ancestors of %(n)s");
        VF_ASSERT(same(cypher_astnode_typestr(V[%(i)d]), T_str[%(i)d]), "name of %(n)s");
    }
''' % dict(i=i, n=n)
    h += '    VF_REACH("end");\n}\n'
    link = [f for f in lib_sources(sc) if f.startswith('ast_')]
    return Unit('type-hierarchy', h, link=link, malloc_fail=False, unwind=140,
                functions=['cypher_astnode_instanceof', 'cypher_astnode_vt_instanceof', 'cypher_astnode_typestr', 'cypher_astnode_type'],
                pre=[['--drop-unused-functions']], flags=('--no-standard-checks', '--pointer-check', '--bounds-check'), timeout=600, patience=300, object_bits=12)


def spec(sc, tier):
    return dict(units=[unit(sc)], natives=[Native('types', native_text(), note='all %d pairs of types, exhaustively' % (len(TYPES) ** 2), role='exhaustive companion')])
