/* line_start: the place after a newline begins a line, once */
#include "vfparser.h"
static struct _yycontext *Y; static unsigned len1, pushes, pushed; static _Bool pushfail; static unsigned *off;
static void vf_at_abort(void) { __CPROVER_assert(pushfail, "PROP given up only when out of memory"); }
unsigned vf_backtrack(void *yy, unsigned pos);
#include VF_SRC
/* contract of backtrack_lines (unit backtrack) */
unsigned vf_backtrack(void *yy, unsigned pos)
{
    __CPROVER_assert(yy == Y && pos == (unsigned)Y->__pos, "PROP lines after the place are forgotten first");
    unsigned n = Y->line_start_offsets.vec.length;
    len1 = vf_uint(); VF_ASSUME(len1 >= 1 && len1 <= n);
    VF_ASSUME(off[len1-1] <= pos);
    Y->line_start_offsets.vec.length = len1;
    return off[len1-1];
}
/* contract of cp_vector_push (unit vector-push, C16) */
int cp_vector_push(struct cp_vector *vec, void *element)
{
    __CPROVER_assert(vec == &(Y->line_start_offsets.vec), "PROP pushed to the line starts");
    if (vf_bool()) { pushfail = 1; vf_alloc_failed = 1; errno = ENOMEM; return -1; }
    pushes++; pushed = *(unsigned *)element;
    return 0;
}
void harness(void)
{
    unsigned n = vf_count(); VF_ASSUME(n >= 1);
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    off = __CPROVER_allocate((size_t)n * sizeof(unsigned), 0);
    Y->line_start_offsets.vec.element_size = sizeof(unsigned);
    Y->line_start_offsets.vec.elements = (char *)off; Y->line_start_offsets.vec.capacity = n; Y->line_start_offsets.vec.length = n;
    Y->__pos = vf_int(); VF_ASSUME(Y->__pos >= 0);
    line_start(Y);
    unsigned top = off[len1-1];
    VF_ASSERT(pushes == (top != (unsigned)Y->__pos), "a line is begun once");
    if (pushes) { VF_ASSERT(pushed == (unsigned)Y->__pos && pushed > top, "line starts stay increasing"); VF_REACH("begun"); }
}
