/* _err and record_error: the place, the character found there and the label are noted */
#include "vfparser.h"
static struct _yycontext *Y; static const char *the_label; static unsigned noted, backtracked, reified; static _Bool fails; static int limit, pos;
static void vf_at_abort(void) { __CPROVER_assert(fails, "PROP given up only when out of memory"); }
static char wc;
#include "../../config.h"
#include "cypher-parser.h"
static struct cypher_input_position vf_pos;
#include VF_SRC
unsigned vf_backtrack(yycontext *yy, unsigned p) { __CPROVER_assert(yy == Y && p == (unsigned)pos && !noted, "PROP lines after the place are forgotten"); backtracked++; return vf_uint(); }
struct cypher_input_position vf_position(yycontext *yy, unsigned p) { __CPROVER_assert(yy == Y && p == (unsigned)pos && backtracked, "PROP the place is where the expectation failed"); return vf_pos; }
int cp_et_note_potential_error(cp_error_tracking_t *et, struct cypher_input_position position, char c, const char *label)
{
    __CPROVER_assert(et == &(Y->error_tracking) && label == the_label, "PROP the label given is noted");
    __CPROVER_assert(position.line == vf_pos.line && position.column == vf_pos.column && position.offset == vf_pos.offset, "PROP the place is noted");
    __CPROVER_assert(c == (pos < limit ? wc : '\0'), "PROP the character found there is noted, or the end");
    noted++;
    if (vf_bool()) { fails = 1; vf_alloc_failed = 1; errno = ENOMEM; return -1; }
    return 0;
}
int cp_et_reify_potentials(cp_error_tracking_t *et)
{
    __CPROVER_assert(et == &(Y->error_tracking), "PROP the expectations noted are reported");
    reified++;
    if (vf_bool()) { fails = 1; vf_alloc_failed = 1; errno = ENOMEM; return -1; }
    return 0;
}
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    limit = vf_int(); pos = vf_int(); VF_ASSUME(pos >= 0 && pos <= limit && limit <= (1 << 29));
    Y->__pos = pos; Y->__limit = limit; Y->__buf = __CPROVER_allocate((size_t)limit, 0);
    wc = pos < limit ? Y->__buf[pos] : 0;
    static char l; the_label = &l; struct cypher_input_position p; vf_pos = p;
    if (vf_bool()) { _err(Y, the_label); VF_ASSERT(noted == 1 && reified == 0 && Y->__pos == pos, "noted once"); VF_REACH("noted"); }
    else { record_error(Y); VF_ASSERT(reified == 1 && noted == 0, "reported once"); VF_REACH("reported"); }
}
