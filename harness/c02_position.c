/* input_position: line = newlines before, column = bytes since the last one */
#include "vfparser.h"
static unsigned *vf_off; static unsigned vf_size0;
static void vf_at_abort(void) {}
#include VF_SRC
void harness(void)
{
    unsigned k = vf_uint(), n = vf_count(), cap = vf_count(), pos = vf_uint();
    VF_ASSUME(n >= 1 && n <= cap && pos <= (1u << 30));
    struct _yycontext *yy = __CPROVER_allocate(sizeof(*yy), 1);
    unsigned *off = __CPROVER_allocate((size_t)cap * sizeof(unsigned), 0);
    yy->line_start_offsets.vec.element_size = sizeof(unsigned);
    yy->line_start_offsets.vec.elements = (char *)off;
    yy->line_start_offsets.vec.capacity = cap; yy->line_start_offsets.vec.length = n;
    vf_off = off; vf_size0 = n;
    VF_ASSUME(off[0] == 0);      /* representation: the segment starts the first line */
    struct cypher_input_position init; 
    VF_ASSUME(init.offset <= ((size_t)1 << 60));
    yy->position_offset = init;
    struct cypher_input_position p = input_position(yy, pos);
    unsigned d = p.line - init.line + 1;
    VF_ASSERT(d >= 1 && d <= n, "the line is one of those begun");
    VF_ASSUME(d >= 1 && d <= n);
    VF_ASSERT(off[d-1] <= pos && (d == n || off[d] > pos), "the line is the last one that begins at or before the place");
    /* representation: line starts are strictly increasing (instances used) */
    if (k < n)
    {
        VF_ASSUME(!(k < d-1) || off[k] < off[d-1]);
        VF_ASSUME(!(d < n && k > d) || off[k] > off[d]);
        VF_ASSERT((off[k] <= pos) == (k < d), "exactly the lines begun at or before the place are counted");
        VF_REACH("line");
    }
    VF_ASSERT(p.column == pos - off[d-1] + (d == 1 ? init.column : 1), "the column counts the bytes since the line began");
    VF_ASSERT(p.offset == pos + init.offset, "the offset counts all bytes before");
    VF_ASSERT(yy->line_start_offsets.vec.length == n && yy->position_offset.offset == init.offset, "nothing is changed");
}
