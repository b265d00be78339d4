/* the public entry points: which rule, which source, which arguments */
#include "vfparser.h"
#undef errno
static int vf_errno;
#define errno vf_errno
#undef malloc
#undef realloc
#include "../../config.h"
#include "cypher-parser.h"
#include "result.h"
#include "segment.h"
static void vf_at_abort(void) {}
static int calls, ret, made, freed_; static void *S_, *U_, *L_, *C_; static size_t N_; static uint_fast32_t F_; static _Bool isbuf, all; static void *cb_;
static cypher_parse_result_t res_; static _Bool oom;
void *vf_calloc(size_t n, size_t s)
{
    __CPROVER_assert(n * s == sizeof(cypher_parse_result_t), "PROP a result is made");
    if (vf_bool()) { oom = 1; errno = ENOMEM; return NULL; }
    made++;
    cypher_parse_result_t z = { 0 }; res_ = z;
    return &res_;
}
int vf_each(int okrule, void *source, void *sd, void *callback, void *userdata, void *last, void *config, uint_fast32_t flags);
#define calloc vf_calloc
#include VF_SRC
#undef calloc
int vf_each(int okrule, void *src, void *sd, void *callback, void *userdata, void *last, void *config, uint_fast32_t flags)
{
    calls++;
    __CPROVER_assert(okrule, "PROP statements only, or commands as well, as asked for");
    if (isbuf)
    {
        struct source_from_buffer_data *b = sd;
        __CPROVER_assert(src == (void *)source_from_buffer && b->buffer == S_ && b->length == N_, "PROP all of the text is parsed");
    }
    else { __CPROVER_assert(src == (void *)source_from_stream && sd == S_, "PROP the stream is parsed"); }
    if (all) { __CPROVER_assert(callback == (void *)parse_all_callback && userdata == &res_ && made == 1, "PROP all segments are merged into the result"); }
    else { __CPROVER_assert(callback == cb_ && userdata == U_, "PROP the callback asked for"); }
    __CPROVER_assert(last == L_ && config == C_ && flags == F_, "PROP the options asked for");
    errno = vf_int(); ret = vf_int();
    return ret;
}
void cypher_parse_result_free(cypher_parse_result_t *r) { __CPROVER_assert(r == &res_, "PROP what was made is released"); freed_++; }
static cypher_parse_segment_t seg; static int mret;
int cp_result_merge_segment(cypher_parse_result_t *r, cypher_parse_segment_t *s)
{
    __CPROVER_assert(r == &res_ && s == &seg, "PROP segments are merged into the result");
    return mret = vf_int();
}
static int cbf(void *d, cypher_parse_segment_t *s) { return 0; }
void harness(void)
{
    struct cypher_input_position last; static char text, ud, cf; 
    F_ = vf_uint(); L_ = vf_bool() ? &last : NULL; C_ = vf_bool() ? &cf : NULL; U_ = &ud; N_ = vf_size();
    S_ = &text; cb_ = (void *)cbf;
    calls = made = freed_ = 0; oom = 0; errno = 0;
    int which = vf_int();
    isbuf = which == 0 || which == 1; all = which == 1 || which == 3;
    if (!all)
    {
        int r = which == 0 ? cypher_uparse_each(S_, N_, (cypher_parser_segment_callback_t)cb_, U_, L_, C_, F_)
                : cypher_fparse_each(S_, (cypher_parser_segment_callback_t)cb_, U_, L_, C_, F_);
        { VF_ASSERT(calls == 1 && r == ret, "the result of parsing is returned"); VF_REACH("each"); }
    }
    else
    {
        cypher_parse_result_t *r = which == 1 ? cypher_uparse(S_, N_, L_, C_, F_) : cypher_fparse(S_, L_, C_, F_);
        if (oom) { VF_ASSERT(calls == 0 && r == NULL && errno == ENOMEM, "running out of memory is reported"); }
        else if (ret) { VF_ASSERT(calls == 1 && r == NULL && freed_ == 1, "failing to parse gives no result"); VF_REACH("failed"); }
        else { VF_ASSERT(calls == 1 && r == &res_ && freed_ == 0, "the result is given"); VF_REACH("parsed"); }
    }
    VF_ASSERT(parse_all_callback(&res_, &seg) == mret, "segments are merged one by one");
}
