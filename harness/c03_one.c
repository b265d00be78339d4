/* parse_one: a segment is parsed, or the parser is left clean for release */
#include "vfparser.h"
#undef errno
static int vf_errno;
#define errno vf_errno
static int jumped, yyr; static _Bool run;
#undef sigsetjmp
static int vf_setjmp(void);
#define sigsetjmp(env, m) vf_setjmp()
static void vf_at_abort(void) {}
static unsigned nfree, freed_prev, cur; static void *g_prev; static unsigned nb;
void vf_block_free(void *b); int vf_yyparsefrom(void *yy, void *rule);
static unsigned W; static _Bool wfreed;
#include VF_SRC
static struct block **blk; static void *g_rule; static yycontext *Y;
void vf_block_free(void *b)
{
    errno = vf_int();
    if (nfree + 1 < nb) { nfree++; if (nb - nfree == W) { __CPROVER_assert(b == blk[W], "PROP open blocks are released from the innermost"); wfreed = 1; } }
    else { __CPROVER_assert(b == g_prev && !freed_prev, "PROP the closed block is released"); freed_prev = 1; }
}
static void havoc(void)
{
    static struct block prev;
    g_prev = vf_bool() ? &prev : NULL; Y->prev_block = g_prev; Y->operators.vec.length = vf_uint(); Y->precedences.vec.length = vf_uint();
    Y->error_tracking.nlabels = vf_uint(); Y->line_start_offsets.vec.length = vf_uint(); Y->result = vf_ptr(); Y->eof = vf_bool(); Y->blocks.vec.length = nb;
}
/* returning a second time: the parse was given up somewhere */
static int vf_setjmp(void) { jumped = vf_int(); if (jumped) { havoc(); } return jumped; }
static int perr;
int vf_yyparsefrom(void *yy, void *rule)
{
    __CPROVER_assert(yy == Y && rule == g_rule, "PROP the rule asked for is parsed");
    __CPROVER_assert(Y->result == NULL && !Y->eof, "PROP what was found before is forgotten");
    havoc(); run = 1; perr = errno = vf_int(); yyr = vf_int();
    if (yyr > 0)
    {   /* contract of the grammar's actions (asserted by the code) */
        Y->blocks.vec.length = 1; Y->prev_block = NULL; Y->operators.vec.length = 0; Y->precedences.vec.length = 0; blk[0]->sequence.vec.length = 0;
    }
    return yyr;
}
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    nb = vf_count(); VF_ASSUME(nb >= 1); W = vf_uint();
    unsigned cap = vf_count(); VF_ASSUME(cap >= nb);
    blk = __CPROVER_allocate((size_t)cap * sizeof(struct block *), 0);
    static struct block top; blk[0] = &top;
    Y->blocks.vec.elements = (char *)blk; Y->blocks.vec.element_size = sizeof(struct block *); Y->blocks.vec.length = 1; Y->blocks.vec.capacity = cap;
    Y->error_tracking.nerrors = 7; Y->result = vf_ptr(); Y->eof = vf_bool();
    static char rl; g_rule = &rl; nfree = freed_prev = 0; run = 0; yyr = 0; wfreed = 0;
    int r = parse_one(Y, (yyrule)g_rule);
    VF_ASSERT(run == (jumped == 0), "parsed once");
    VF_ASSERT((r == 0) == (jumped == 0 && yyr > 0) && (r == 0 || r == -1), "success is that of the rule");
    VF_ASSERT(Y->error_tracking.nlabels == 0 && Y->error_tracking.nerrors == 7, "only errors that were reported stay");
    VF_ASSERT(Y->blocks.vec.length == 1 && Y->blocks.vec.elements == (char *)blk && blk[0] == &top, "the outermost block is left");
    VF_ASSERT(Y->prev_block == NULL && Y->operators.vec.length == 0 && Y->precedences.vec.length == 0, "nothing else is left open");
    if (r == 0) { VF_ASSERT(nfree == 0 && !freed_prev, "what was parsed is kept"); VF_REACH("parsed"); }
    else
    {
        VF_ASSERT(errno == (jumped ? jumped : perr), "the reason is kept");
        VF_ASSERT(nfree == nb - 1 && freed_prev, "all open blocks are released");
        if (W >= 1 && W < nb) { VF_ASSERT(wfreed, "each open block is released"); VF_REACH("released"); }
    }
}
