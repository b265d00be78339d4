/* parse_each: the segments are handed over one by one, contiguous and in order */
#include "vfparser.h"
#undef errno
static int vf_errno;
#define errno vf_errno
#include "../../config.h"
#include "cypher-parser.h"
#include "errors.h"
#include "parser_config.h"
#include "segment.h"
static void vf_at_abort(void) {}
struct cypher_input_position at_, end_; /* where the next segment begins, where the one just parsed ends */
struct cypher_input_position last_;     /* written through `last' */
static unsigned g_ord, g_cons, g_ne, g_nr; static const void *g_res; static _Bool g_eof;
static _Bool stopped, oom, single, started;
static int stage;                       /* 0 ready, 1 parsed, 2 segment made, 3 handed over */
static int cberr, g_err; static void *g_data; static unsigned cleaned, freed_top, released_yy;
static cypher_parse_segment_t seg_; static struct cypher_input_position *p_last;
static cypher_parser_config_t *g_cfg; cypher_parser_config_t cypher_parser_std_config;
static void *g_top, *g_Y; static void *g_source, *g_srcdata, *g_rule;
#define EQP(a, b) ((a).offset == (b).offset && (a).line == (b).line && (a).column == (b).column)
static int vf_fail(void) { oom = 1; g_err = vf_int(); VF_ASSUME(g_err != 0); errno = g_err; return -1; }
void *vf_block_start(void *, size_t, struct cypher_input_position); int vf_parse_one(void *, void *);
struct cypher_input_position vf_input_position(void *, unsigned); void vf_block_free(void *); void vf_yyrelease(void *);
void vf_clear_potentials(void *);
#include VF_SRC
static struct block vf_top;
/* contracts of the callees */
void cp_vector_init(struct cp_vector *v, size_t s) { v->element_size = s; v->elements = NULL; v->capacity = 0; v->length = 0; }
void cp_vector_cleanup(struct cp_vector *v) { errno = vf_int(); cleaned++; }
int cp_vector_push(struct cp_vector *v, void *e)
{
    __CPROVER_assert(v->length == 0 && *(unsigned *)e == 0, "PROP a segment begins one line, at its start");
    if (vf_bool()) { return vf_fail(); }
    v->length++;
    return 0;
}
void *vf_block_start(void *yy, size_t o, struct cypher_input_position p)
{
    __CPROVER_assert(o == 0 && EQP(p, g_cfg->initial_position), "PROP input begins at the configured position");
    if (vf_bool()) { vf_fail(); return NULL; }
    vf_top.children.vec.length = 0; started = 1;
    return &vf_top;
}
struct cypher_input_position vf_input_position(void *y, unsigned pos)
{
    yycontext *yy = y;
    if (!started) { __CPROVER_assert(pos == 0, "PROP starts at the beginning"); return yy->position_offset; }
    __CPROVER_assert(stage == 1 && pos == g_cons && EQP(yy->position_offset, at_), "PROP the end of a segment is the place after what it took");
    return end_;
}
int vf_parse_one(void *y, void *rule)
{
    yycontext *yy = y;
    __CPROVER_assert(stage == 0 && !stopped, "PROP parsing goes on only after the segment before was accepted");
    __CPROVER_assert(EQP(yy->position_offset, at_), "PROP a segment begins where the one before ended");
    __CPROVER_assert(yy->line_start_offsets.vec.length == 1, "PROP a segment begins with one line");
    __CPROVER_assert(vf_top.children.vec.length == 0 && yy->error_tracking.nerrors == 0, "PROP a segment begins with no trees and no errors");
    __CPROVER_assert(yy->config == g_cfg && yy->source == g_source && yy->source_data == g_srcdata && rule == g_rule, "PROP the input and rule asked for");
    if (vf_bool()) { return vf_fail(); }
    g_cons = vf_uint(); g_ne = vf_uint(); g_nr = vf_uint(); g_res = vf_ptr(); g_eof = vf_bool();
    /* contract of the grammar (asserted again by the code): nothing taken means the end of the input */
    VF_ASSUME(g_cons != 0 || (g_res == NULL && g_ne == 0 && g_eof));
    yy->consumed = g_cons; yy->result = (void *)g_res; yy->eof = g_eof;
    yy->error_tracking.nerrors = g_ne; vf_top.children.vec.length = g_nr;
    yy->line_start_offsets.vec.length = vf_uint();
    struct cypher_input_position e; end_ = e; VF_ASSUME(end_.offset == at_.offset + g_cons);
    stage = g_cons == 0 ? 4 : 1; g_Y = yy; stopped = g_cons == 0;
    return 0;
}
cypher_parse_segment_t *cypher_parse_segment(unsigned ord, struct cypher_input_range r, cypher_parse_error_t *errs, unsigned ne,
        cypher_astnode_t **roots, unsigned nr, const cypher_astnode_t *d, bool eof)
{
    yycontext *yy = g_Y;
    __CPROVER_assert(stage == 1, "PROP one segment for each part");
    __CPROVER_assert(ord == g_ord, "PROP ordinals go on from the segment before");
    __CPROVER_assert(EQP(r.start, at_) && EQP(r.end, end_), "PROP the range of a segment reaches from the one before to what was taken");
    __CPROVER_assert(errs == yy->error_tracking.errors && ne == g_ne, "PROP a segment gets its errors");
    __CPROVER_assert((void *)roots == (void *)vf_top.children.vec.elements && nr == g_nr, "PROP a segment gets its trees");
    __CPROVER_assert(d == g_res && eof == g_eof, "PROP a segment gets its directive and end of input");
    __CPROVER_assert(p_last == NULL || EQP(last_, end_), "PROP the last position is where the segment ends");
    if (vf_bool()) { vf_fail(); return NULL; }
    seg_.nnodes = vf_uint(); stage = 2;
    return &seg_;
}
static int cb(void *data, cypher_parse_segment_t *s)
{
    yycontext *yy = g_Y;
    __CPROVER_assert(stage == 2 && s == &seg_ && data == g_data, "PROP each segment is handed over once");
    __CPROVER_assert(yy->error_tracking.nerrors == 0 && vf_top.children.vec.length == 0, "PROP errors and trees belong to one segment only");
    stage = 3; cberr = vf_int(); errno = g_err = vf_int();
    return cberr;
}
void cypher_parse_segment_release(cypher_parse_segment_t *s)
{
    __CPROVER_assert(stage == 3 && s == &seg_, "PROP a segment is released once it was handed over");
    stage = 0; g_ord += seg_.nnodes; at_ = end_;
    if (cberr != 0 || g_eof || single) { stopped = 1; }
}
void vf_block_free(void *b) { __CPROVER_assert(b == (started ? (void *)&vf_top : NULL), "PROP the outermost block is released"); freed_top++; errno = vf_int(); }
void vf_yyrelease(void *y) { released_yy++; errno = vf_int(); }
void cp_et_init(cp_error_tracking_t *et, const struct cypher_parser_colorization *c) { __CPROVER_assert(c == g_cfg->error_colorization, "PROP colours as configured"); et->nerrors = 0; et->errors = vf_ptr(); }
void cp_et_cleanup(cp_error_tracking_t *et) { errno = vf_int(); cleaned++; }
void cp_sb_cleanup(struct cp_string_buffer *b) { errno = vf_int(); cleaned++; }
static int src(void *d, char *b, int n) { return 0; }
static int rule_(yycontext *yy) { return 0; }
void harness(void)
{
    static cypher_parser_config_t cfg; static char data, sd;
    struct cypher_input_position a, b; cfg.initial_position = a; cypher_parser_std_config.initial_position = b;
    cfg.initial_ordinal = vf_uint(); cypher_parser_std_config.initial_ordinal = vf_uint();
    cfg.error_colorization = vf_ptr(); cypher_parser_std_config.error_colorization = vf_ptr();
    _Bool has = vf_bool(); g_cfg = has ? &cfg : &cypher_parser_std_config;
    at_ = g_cfg->initial_position; g_ord = g_cfg->initial_ordinal; g_data = &data; g_source = src; g_srcdata = &sd; g_rule = rule_;
    p_last = vf_bool() ? &last_ : NULL; struct cypher_input_position l0 = last_;
    uint_fast32_t flags = vf_uint(); single = (flags & CYPHER_PARSE_SINGLE) != 0;
    stage = 0; stopped = 0; oom = 0; started = 0; cleaned = 0; freed_top = 0; released_yy = 0; cberr = 0;
    int r = parse_each(rule_, src, &sd, cb, &data, p_last, has ? &cfg : NULL, flags);
    VF_ASSERT(cleaned == 6 && freed_top == 1 && released_yy == 1, "everything is released once");
    VF_ASSERT(!oom || r == -1, "a failure is reported");
    VF_ASSERT(!oom || errno == g_err, "the reason of a failure is kept");
    VF_ASSERT(oom || r == (cberr < 0 ? cberr : 0), "the result is that of the callback, 0 when all was parsed");
    VF_ASSERT(oom || cberr >= 0 || errno == g_err, "the reason given by the callback is kept");
    VF_ASSERT(oom || stopped, "parsing ends at the end of input, after one segment if asked, or when the callback says so");
    if (oom) { VF_REACH("failure"); }
    else if (stage == 4) { VF_REACH("end"); }
    else if (cberr < 0) { VF_REACH("callback failed"); }
    else if (cberr > 0) { VF_REACH("callback stopped"); }
    else if (g_eof) { VF_REACH("last segment"); }
    else { VF_REACH("single"); }
}
