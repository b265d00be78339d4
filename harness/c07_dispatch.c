/* cypher_astnode_detailstr: the description function of the node's own type is called */
#include "vf.h"
#include <stdio.h>
#include "../../config.h"
#include "cypher-parser.h"
#include "astnode.h"
static const void *want; static cypher_astnode_t a_; static char *s_; static size_t n_; static ssize_t res; static unsigned calls;
static ssize_t vf_call(const struct cypher_astnode_vt *vt, const cypher_astnode_t *a, char *s, size_t n)
{
    __CPROVER_assert(vt == want && a == &a_ && s == s_ && n == n_, "PROP described as what it is"); calls++; return res;
}
#include "ast.c"
void harness(void)
{
    cypher_astnode_type_t t = vf_uint(); VF_ASSUME(t < _MAX_VT_OFF); a_.type = t; s_ = vf_ptr(); n_ = vf_size(); res = vf_long(); calls = 0;
    want = VT_PTR(t);
    ssize_t r = cypher_astnode_detailstr(&a_, s_, n_);
    VF_ASSERT(r == res && calls == 1, "its description"); VF_REACH("described");
}
