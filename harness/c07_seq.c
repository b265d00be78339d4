/* snprint_sequence: "[@a, @b, ...]", every element in order, cut at the buffer */
#include "vf.h"
#include <stdio.h>
#include <string.h>
#include "../../config.h"
#include "cypher-parser.h"
#include "astnode.h"
static unsigned K, gn;
#include "vdetail.h"
static void vf_elem(unsigned i, unsigned n) { VF_ASSERT(gi == i, "elements in order"); ci = gi++; vf_cell.ordinal = vf_uint(); R(&vf_cell); if (i + 1 < n) P(", "); }
#undef snprint_sequence
#include "ast.c"
void harness(void)
{
    VF_DETAIL_INIT(); K = 0;
    unsigned n = vf_count(); const cypher_astnode_t *one[1];
    P("[");
    ssize_t r = snprint_sequence(S_, SZ, one, n);
    if (vf_failed_) { VF_ASSERT(r == -1, "a failure is reported"); return; }
    VF_ASSERT(gi == n, "every element");
    P("]");
    VF_ASSERT(r >= 0 && (size_t)r == rp, "the length is that of the whole text, whatever the buffer");
    if (KD < rp && rp < SZ) { VF_ASSERT(bk == rc, "every character of the text"); }
    VF_REACH("written");
}
