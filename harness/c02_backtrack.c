/* backtrack_lines: forgets exactly the lines begun after the place */
#include "vfparser.h"
static unsigned *vf_off; static unsigned vf_size0;
static void vf_at_abort(void) {}
#include VF_SRC
void harness(void)
{
    unsigned k = vf_uint(), n = vf_count(), cap = vf_count(), pos = vf_uint();
    VF_ASSUME(n >= 1 && n <= cap);
    struct _yycontext *yy = __CPROVER_allocate(sizeof(*yy), 1);
    unsigned *off = __CPROVER_allocate((size_t)cap * sizeof(unsigned), 0);
    yy->line_start_offsets.vec.element_size = sizeof(unsigned);
    yy->line_start_offsets.vec.elements = (char *)off;
    yy->line_start_offsets.vec.capacity = cap; yy->line_start_offsets.vec.length = n;
    vf_off = off; vf_size0 = n;
    VF_ASSUME(off[0] == 0);
    unsigned wk = k < n ? off[k] : 0;
    unsigned r = backtrack_lines(yy, pos);
    unsigned m = yy->line_start_offsets.vec.length;
    VF_ASSERT(m >= 1 && m <= n && yy->line_start_offsets.vec.elements == (char *)off && yy->line_start_offsets.vec.capacity == cap, "lines are only forgotten");
    VF_ASSERT(r == off[m-1] && r <= pos, "the line found begins at or before the place");
    VF_ASSERT(m == n || off[m] > pos, "only lines begun after the place are forgotten");
    if (k < n)
    {
        VF_ASSERT(off[k] == wk, "line starts are kept");
        VF_ASSUME(!(k < m-1) || off[k] < off[m-1]); VF_ASSUME(!(m < n && k > m) || off[k] > off[m]);
        VF_ASSERT((wk <= pos) == (k < m), "exactly the lines begun at or before the place are kept");
        VF_REACH("line");
    }
}
