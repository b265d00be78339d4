/* ast_fprint_field_widths: the widest of every column over the whole tree */
#include "vf.h"
#include <stdio.h>
#include "../../config.h"
#include "astnode.h"
static cypher_astnode_t *the; static size_t TL; static unsigned n, calls, W, DP; static cypher_astnode_t w_; static _Bool seen; static unsigned go, gn; static size_t gs, ge; static char tname;
void vf_rec(const cypher_astnode_t *, unsigned *, size_t *, size_t *, unsigned *, unsigned);
const char *vf_typestr(cypher_astnode_type_t t) { __CPROVER_assert(t == the->type, "PROP the name of the type"); return &tname; }
size_t vf_strlen(const char *s) { __CPROVER_assert(s == &tname, "PROP the name is measured"); return TL; }
#define strlen vf_strlen
#include "ast.c"
#define MAX(a, b) ((a) > (b) ? (a) : (b))
void vf_rec(const cypher_astnode_t *a, unsigned *o, size_t *s, size_t *e, unsigned *m, unsigned d)
{
    __CPROVER_assert(d == DP + 1 && (calls != W || a == &w_), "PROP children, one level deeper");
    if (calls == W) { seen = 1; }
    calls++;
    unsigned co = vf_uint(), cn = vf_uint(); size_t cs = vf_size(), ce = vf_size();
    *o = MAX(*o, co); *s = MAX(*s, cs); *e = MAX(*e, ce); *m = MAX(*m, cn);
    go = MAX(go, co); gs = MAX(gs, cs); ge = MAX(ge, ce); gn = MAX(gn, cn);
}
void harness(void)
{
    n = vf_count(); W = vf_uint(); DP = vf_count(); TL = vf_count(); calls = 0; seen = 0;
    cypher_astnode_t t; the = &t; cypher_astnode_t **ch = __CPROVER_allocate((size_t)n * sizeof(*ch), 0); if (W < n) { ch[W] = &w_; } t.children = ch; t.nchildren = n;
    unsigned o = vf_uint(), m = vf_uint(); size_t s = vf_size(), e = vf_size();
    go = MAX(o, t.ordinal); gs = MAX(s, t.range.start.offset); ge = MAX(e, t.range.end.offset); gn = MAX(m, (unsigned)TL + 2 * DP);
    ast_fprint_field_widths(the, &o, &s, &e, &m, DP);
    VF_ASSERT(calls == n && (W >= n || seen), "every child counts");
    VF_ASSERT(o == go && s == gs && e == ge && m == gn, "the widest of the node and its children");
    VF_REACH("done");
}
