/* cypher_quick_uparse, cypher_quick_fparse: all of the text, or the stream, is parsed */
#include "vfparser.h"
static void vf_at_abort(void) { }
static int calls, ret; static void *S_, *U_, *cb_; static size_t N_; static uint_fast32_t F_; static _Bool isbuf;
int vf_parse(void *source, void *sd, void *callback, void *userdata, uint_fast32_t flags);
#include VF_SRC
int vf_parse(void *src, void *sd, void *callback, void *userdata, uint_fast32_t flags)
{
    calls++;
    if (isbuf)
    {
        struct source_from_buffer_data *b = sd;
        __CPROVER_assert(src == (void *)source_from_buffer && b->buffer == S_ && b->length == N_, "PROP all of the text is parsed");
    }
    else { __CPROVER_assert(src == (void *)source_from_stream && sd == S_, "PROP the stream is parsed"); }
    __CPROVER_assert(callback == cb_ && userdata == U_ && flags == F_, "PROP the callback and flags asked for");
    return ret = vf_int();
}
static int cbf(void *d, const cypher_quick_parse_segment_t *s) { return 0; }
void harness(void)
{
    static char text, ud; F_ = vf_uint(); U_ = &ud; N_ = vf_size(); S_ = &text; cb_ = (void *)cbf; calls = 0; isbuf = vf_bool();
    int r = isbuf ? cypher_quick_uparse(S_, N_, cbf, U_, F_) : cypher_quick_fparse(S_, cbf, U_, F_);
    VF_ASSERT(calls == 1 && r == ret, "parsed once, and its result returned");
    VF_REACH("parsed");
}
