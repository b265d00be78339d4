/* segment() of the quick parser: exactly the bytes matched, where they are and what follows */
#include "vfparser.h"
static void vf_at_abort(void) { __CPROVER_assert(0, "PROP nothing fails here"); }
struct cypher_input_position vf_position(void *yy, unsigned pos);
#include VF_SRC
static yycontext *Y; static char *buf; static unsigned calls; static int cbr; static void *U_; static _Bool kind, e0; static int beg, end, pos; static size_t nb;
static struct cypher_input_position base, pp, pe, pb;
#define EQP(a, b) ((a).offset == (b).offset && (a).line == (b).line && (a).column == (b).column)
/* contract of input_position (unit quick-position of C02): a function of the place, from the position the input began at */
struct cypher_input_position vf_position(void *yy, unsigned p)
{
    __CPROVER_assert(yy == Y && EQP(Y->position_offset, base), "PROP places are counted from where the input before ended");
    __CPROVER_assert(p == (unsigned)pos || p == (unsigned)end || p == (unsigned)beg, "PROP only places that were matched");
    return p == (unsigned)pos ? pp : p == (unsigned)end ? pe : pb;
}
static int cb(void *data, const cypher_quick_parse_segment_t *s)
{
    size_t n = 77; const char *t = cypher_quick_parse_segment_get_text(s, &n);
    __CPROVER_assert(data == U_, "PROP the callback gets its data");
    __CPROVER_assert(calls++ == 0, "PROP once for each segment");
    __CPROVER_assert(t == buf + beg && n == (size_t)(end - beg), "PROP the text is what was matched");
    __CPROVER_assert(cypher_quick_parse_segment_get_ptr(s) == t && cypher_quick_parse_segment_get_length(s) == n, "PROP pointer and length are those of the text");
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(t, n), "PROP the text is in the buffer");
    struct cypher_input_range r = cypher_quick_parse_segment_get_range(s); struct cypher_input_position x = cypher_quick_parse_segment_get_next(s);
    __CPROVER_assert(EQP(r.start, vf_position(Y, beg)) && EQP(r.end, vf_position(Y, end)), "PROP the range is that of the text");
    __CPROVER_assert(EQP(x, vf_position(Y, pos)), "PROP the next begins after what was taken");
    __CPROVER_assert(cypher_quick_parse_segment_is_statement(s) == kind && cypher_quick_parse_segment_is_command(s) == !kind, "PROP statement or command, as matched");
    __CPROVER_assert(cypher_quick_parse_segment_is_eof(s) == e0, "PROP the end of input is told");
    return cbr;
}
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    nb = vf_size(); VF_ASSUME(nb >= 1 && nb <= (1u << 30)); buf = __CPROVER_allocate(nb, 0);
    beg = vf_int(); end = vf_int(); pos = vf_int();
    VF_ASSUME(0 <= beg && beg <= end && end <= pos && (size_t)pos < nb);
    Y->__buf = buf; Y->__begin = beg; Y->__end = end; Y->__pos = pos; Y->eof = e0 = vf_bool(); Y->callback = cb; static char ud; Y->callback_data = U_ = &ud;
    struct cypher_input_position a, b, c, d; base = a; pp = b; pe = c; pb = d; Y->position_offset = base;
    cbr = vf_int(); calls = 0; kind = vf_bool(); Y->result = vf_int();
    segment(kind, Y);
    if (end == 0 && e0) { VF_ASSERT(calls == 0 && Y->result == 0, "nothing is delivered at the end of the input"); VF_REACH("end"); }
    else
    {
        VF_ASSERT(calls == 1 && Y->result == cbr, "the segment is delivered and the answer kept");
        VF_ASSERT(EQP(Y->position_offset, pp), "the next segment is counted from there");
        VF_REACH("delivered");
    }
}
