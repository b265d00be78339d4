/* Every rule of the recognizer under contract.
 *
 * One newline of the input, at the arbitrary place W, is followed: L_ says that
 * the table of line starts holds W + 1.  The deferred actions a rule leaves are
 * followed as an abstract state kept in __thunkpos, which the generated code
 * saves and restores with the actions themselves:
 *   prev   0 no block closed, 1 one without children, 2 one that may have children
 *   val    $$ was assigned by the rule that matched last
 *   sb     the text buffer was emptied for the literal being read
 *   depth  blocks open (1: that of the caller), ch: which of them may have children
 *   bits   which variables of the rule were set
 */
#include "vfparser.h"
#ifdef VF_QUICK
#define VF_LINES
#endif
static void vf_at_abort(void) { }
typedef struct _yycontext vf_yy;
struct cypher_astnode; void vf_node(const struct cypher_astnode *); void vf_err(void *); void vf_sb_append(void *); void vf_sb_block(void *); void vf_line_start(void *); void vf_sb_reset(void *);
void *vf_op_pop_(void); struct _yycontext; void vf_Push(struct _yycontext *, int); void vf_Pop(struct _yycontext *, int); void vf_Set(struct _yycontext *, int); void vf_before(struct _yycontext *); void vf_after(struct _yycontext *); struct cypher_astnode *vf_build(void *, int, int);
int vf_rule(void *, unsigned, unsigned); int vf_string(struct _yycontext *, int, int);
static int W; static _Bool T; static int p0, s0; static _Bool T0;
#define PREV(s) ((s) & 3)
#define VAL(s) (((s) >> 2) & 1)
#define SB(s) (((s) >> 3) & 1)
#define DEPTH(s) (((s) >> 4) & 7)
#define CH(s) (((s) >> 8) & 0xff)
#define BITS(s) (((s) >> 16) & 0xff)
#define MK(p, v, b, d, c, x) ((p) | ((v) << 2) | ((b) << 3) | ((d) << 4) | ((c) << 8) | ((x) << 16))
#define F_NLFAIL 1u
#define F_NLOK 2u
#define F_NLSTAY 4u
#define F_PROG 8u
#define F_PSAME 16u
#define F_PNONE 32u
#define F_PCLOSED 64u
#define F_VSAME 128u
#define F_VSET 256u
#define F_SSAME 512u
#define F_SACT 1024u
#define F_CHSAME 2048u
#define F_TOTAL 4096u
#define F_ENDNNL 8192u
#define F_EMPTY 16384u
#define R_SB 1u
#define R_NNL 2u
#define R_PCLOSED 4u
#define LIM (1 << 30)
/* the position is past the newline only if the line it begins is known; what lies before the place the rule began is as it was */
#define LINES(p) (!(W < (p)) || T)
#define FRAME (!(W < p0) || T == T0)
#ifdef VF_LINES
#define VF_STATE yy->__pos, yy->__thunkpos, T
#define LINV(yy, s, p) ((yy)->__pos >= (p) && (yy)->__pos <= LIM && LINES((yy)->__pos) && FRAME)
#else
#define VF_STATE yy->__pos, yy->__thunkpos, T
#define LINV(yy, s, p) ((yy)->__pos >= (p) && (yy)->__pos <= LIM && LINES((yy)->__pos) && FRAME && (PREV((yy)->__thunkpos) <= 1 || PREV((yy)->__thunkpos) == PREV(s)) && DEPTH((yy)->__thunkpos) == DEPTH(s) \
    && ((yy)->__thunkpos >> 24) == 0 && (yy)->__thunkpos >= 0 && ((yy)->__thunkpos & 0x80) == 0 && (BITS((yy)->__thunkpos) & BITS(s)) == BITS(s) && (CH((yy)->__thunkpos) & CH(s)) == CH(s) && (CH((yy)->__thunkpos) >> (DEPTH(s) + 1)) == 0)
#endif
#define L_PSAME(yy, s, p) (PREV((yy)->__thunkpos) == PREV(s))
#define L_PNONE(yy, s, p) (PREV((yy)->__thunkpos) == 0)
#define L_VSAME(yy, s, p) (VAL((yy)->__thunkpos) == VAL(s))
#define L_SSAME(yy, s, p) (SB((yy)->__thunkpos) == SB(s))
#define L_SACT(yy, s, p) (SB((yy)->__thunkpos) == 1)
#define L_CHSAME(yy, s, p) (CH((yy)->__thunkpos) == CH(s))
#define L_CHIN(yy, s, p) (((CH((yy)->__thunkpos) ^ CH(s)) & ((1 << DEPTH(s)) - 1)) == 0)
#define L_BITS(yy, s, p) (BITS((yy)->__thunkpos) == BITS(s))
#define L_NLSTAY(yy, s, p) (!((p) == W) || (yy)->__pos == (p))
#define L_SHUT(yy, s, p) (PREV((yy)->__thunkpos) != 0)
#define VF_PROGRESS(c, m) VF_ASSERT(c, "loop " m " makes progress")
#include VF_SRC
#undef __
static yycontext *Y;
#ifndef VF_LINES
static cypher_astnode_t poison_, mark_, good_;
static cypher_astnode_t *vals[16];
#endif

/* ---- input: one byte is a newline for sure, the others are anything */
int vf_dot(yycontext *yy) { _Bool r = yy->__pos == W || vf_bool(); if (r) { yy->__pos++; VF_ASSUME(yy->__pos <= LIM); } return r; }
int vf_char_(yycontext *yy, int c) { _Bool r = yy->__pos == W ? c == '\n' : vf_bool(); if (r) { yy->__pos++; VF_ASSUME(yy->__pos <= LIM); } return r; }
int vf_class(yycontext *yy, unsigned char *bits) { _Bool r = yy->__pos == W ? (bits['\n' >> 3] >> ('\n' & 7)) & 1 : vf_bool(); if (r) { yy->__pos++; VF_ASSUME(yy->__pos <= LIM); } return r; }
/* a literal of n bytes, the nl-th of which (if not negative) is the only newline */
int vf_string(yycontext *yy, int n, int nl)
{
    _Bool r = vf_bool(); int at = W - yy->__pos;
    if (at >= 0 && at < n && at != nl) { r = 0; }
    if (!r) { if (vf_bool()) { int d = vf_int(); VF_ASSUME(d >= 0 && d <= n); yy->__pos += d; } return 0; }    /* at the end of input the position may be left within */
    yy->__pos += n; VF_ASSUME(yy->__pos <= LIM);
    return 1;
}
/* ---- lines: contracts of line_start and backtrack_lines (C02) */
void vf_line_start(void *y) { int p = ((yycontext *)y)->__pos; if (W + 1 == p) { T = 1; } else if (W + 1 > p) { T = 0; } }
void vf_err(void *y) { int p = ((yycontext *)y)->__pos; if (W + 1 > p) { T = 0; } }
/* ---- deferred actions */
#define ST(y) (((yycontext *)(y))->__thunkpos)
static void put(void *y, int p, int v, int b, int d, int c, int x) { ST(y) = MK(p, v, b, d, c, x); }
void vf_Push(yycontext *yy, int n) { int s = ST(yy); VF_ASSERT(BITS(s) == 0, "variables begin unset"); (void)n; }
void vf_Pop(yycontext *yy, int n) { (void)n; }
void vf_Set(yycontext *yy, int k) { int s = ST(yy); VF_ASSERT(VAL(s), "a variable is given the node of the rule before it"); put(yy, PREV(s), VAL(s), SB(s), DEPTH(s), CH(s), BITS(s) | (1 << -k)); }
void vf_do(yycontext *yy, yyaction a)
{
#ifndef VF_LINES
    int s = ST(yy), d = DEPTH(s), c = CH(s);
    _Bool kids = (c >> d) & 1;
    if (a == block_start_action)
    {
        VF_ASSERT(PREV(s) != 2, "no node of a closed block is dropped");
        VF_ASSERT(d < 7, "blocks nest");
        put(yy, 0, VAL(s), SB(s), d + 1, c & ~(1 << (d + 1)), BITS(s));
        return;
    }
    VF_ASSERT(a == block_end_action || a == block_replace_action || a == block_merge_action, "a known action");
    VF_ASSERT(d > 0, "an open block is closed");
    VF_ASSERT(PREV(s) != 2, "no node of a closed block is dropped");
    if (a == block_end_action) { put(yy, kids ? 2 : 1, VAL(s), SB(s), d - 1, c & ~(1 << d), BITS(s)); }
    else if (a == block_replace_action) { put(yy, kids ? 2 : 1, VAL(s), SB(s), d, c & ~(1 << d), BITS(s)); }
    else { put(yy, 1, VAL(s), SB(s), d - 1, (c & ~(1 << d)) | (kids << (d - 1)), BITS(s)); }
#endif
}
#ifdef VF_LINES
void vf_before(yycontext *yy) { }
void vf_after(yycontext *yy) { }
#else
void vf_before(yycontext *yy)
{
    int x = BITS(ST(yy));
    vals[7] = (x >> 1) & 1 ? &good_ : &poison_; vals[6] = (x >> 2) & 1 ? &good_ : &poison_; vals[5] = (x >> 3) & 1 ? &good_ : &poison_;
    vals[4] = (x >> 4) & 1 ? &good_ : &poison_; vals[3] = (x >> 5) & 1 ? &good_ : &poison_; vals[2] = (x >> 6) & 1 ? &good_ : &poison_;
    vals[1] = vals[0] = &poison_;
    yy->__val = vals + 8; yy->__ = &mark_; yy->result = &mark_;
}
void vf_after(yycontext *yy)
{
    int s = ST(yy), x = 0;
    x = (vals[7] != &poison_) << 1 | (vals[6] != &poison_) << 2 | (vals[5] != &poison_) << 3 | (vals[4] != &poison_) << 4 | (vals[3] != &poison_) << 5 | (vals[2] != &poison_) << 6;
    VF_ASSERT(yy->__ != &poison_ && yy->result != &poison_, "the value of a rule is not an unset variable");
    put(yy, PREV(s), VAL(s) || yy->__ != &mark_, SB(s), DEPTH(s), CH(s), x);
}
void vf_node(const cypher_astnode_t *n) { VF_ASSERT(n != &poison_, "no part is an unset variable"); }
void vf_sb_reset(void *y) { int s = ST(y); put(y, PREV(s), VAL(s), 1, DEPTH(s), CH(s), BITS(s)); }
void vf_sb_append(void *y) { VF_ASSERT(SB(ST(y)), "text is added only to a buffer emptied for this literal"); }
void vf_sb_block(void *y) { VF_ASSERT(PREV(ST(y)) != 0, "text is that of a closed block"); vf_sb_append(y); }
void *vf_op_pop_(void) { return NULL; }
bool cypher_astnode_instanceof(const cypher_astnode_t *n, cypher_astnode_type_t t) { vf_node(n); return vf_bool(); }
cypher_astnode_t *vf_build(void *y, int terminal, int text)
{
    int s = ST(y), d = DEPTH(s);
    VF_ASSERT(PREV(s) != 0, "a node is made only from a closed block");
    if (terminal) { VF_ASSERT(PREV(s) == 1, "a terminal's block has no nodes"); }
    if (text) { VF_ASSERT(SB(s), "the text is that of this literal"); }
    put(y, 0, VAL(s), text ? 0 : SB(s), d, CH(s) | (1 << d), BITS(s));
    return &good_;
}
#endif
/* ---- the contract of a rule */
int vf_rule(void *y, unsigned f, unsigned rq)
{
    yycontext *yy = y; int p = yy->__pos, s = yy->__thunkpos, d = DEPTH(s); _Bool t = T;
#ifndef VF_LINES
    if (rq & R_SB) { VF_ASSERT(SB(s), "a rule that adds text finds a buffer emptied for it"); }
    if (rq & R_PCLOSED) { VF_ASSERT(PREV(s) != 0, "block closed"); }
    if (!(f & F_PSAME)) { VF_ASSERT(PREV(s) != 2, "no node of a closed block is dropped by a rule that follows"); }
#endif
    if (rq & R_NNL) { VF_ASSERT(p != W, "a rule that takes any byte is not begun at a newline"); }
    _Bool r = vf_bool(); int q = vf_int(); T = vf_bool();
    VF_ASSUME(!(W < p) || T == t);
    if (!r) { VF_ASSUME(!((f & F_NLOK) && p == W) && !(f & F_TOTAL)); return 0; }
    VF_ASSUME(q >= p && q <= LIM && (!(W < q) || T));
    if (f & F_NLFAIL) { VF_ASSUME(p != W); }
    if (f & F_NLOK) { VF_ASSUME(p != W || q > W); }
    if (f & F_NLSTAY) { VF_ASSUME(p != W || q == p); }
    if (f & F_PROG) { VF_ASSUME(q > p); }
    if (f & F_ENDNNL) { VF_ASSUME(q != W); }
    if (f & F_EMPTY) { VF_ASSUME(q == p); }
    yy->__pos = q;
#ifdef VF_LINES
    yy->__thunkpos = vf_int();
    return 1;
#endif
    int pr = vf_int(), c = vf_bool() ? CH(s) : CH(s) | (1 << d); _Bool v = vf_bool(), b = vf_bool();
    VF_ASSUME(pr == 0 || pr == 1 || (pr == 2 && (f & F_PSAME)));
    if (f & F_PSAME) { VF_ASSUME(pr == PREV(s)); }
    if (f & F_PNONE) { VF_ASSUME(pr == 0); }
    if (f & F_PCLOSED) { VF_ASSUME(pr == 1); }
    if (f & F_VSAME) { VF_ASSUME(v == VAL(s)); }
    if (f & F_VSET) { VF_ASSUME(v); }
    if (f & F_SSAME) { VF_ASSUME(b == SB(s)); }
    if (f & F_SACT) { VF_ASSUME(b); }
    if (f & F_CHSAME) { VF_ASSUME(c == CH(s)); }
    put(yy, pr, v, b, d, c, BITS(s));
    return 1;
}
static void vf_enter(yycontext *yy, unsigned f, unsigned rq)
{
    int pr = vf_int(); _Bool v = vf_bool(), b = vf_bool(), c = vf_bool();
    W = vf_int(); p0 = vf_int(); T = vf_bool();
    VF_ASSUME(p0 >= 0 && p0 <= LIM && W >= 0 && W <= LIM && LINES(p0));
    VF_ASSUME(pr >= 0 && pr <= ((f & F_PSAME) ? 2 : 1));
    if (rq & R_SB) { VF_ASSUME(b); }
    if (rq & R_NNL) { VF_ASSUME(p0 != W); }
    if (rq & R_PCLOSED) { VF_ASSUME(pr == 1); }
    T0 = T; s0 = MK(pr, v, b, 1, c << 1, 0);
    yy->__pos = p0; yy->__thunkpos = s0;
}
static void vf_leave(yycontext *yy, int r, const char *name)
{
    int s = yy->__thunkpos, p = yy->__pos;
    __CPROVER_assert(FRAME, "PROP lines before the rule began are as they were");
    if (!r) { __CPROVER_assert(p == p0 && s == s0, "PROP without a match nothing is taken and nothing is to be done"); return; }
    __CPROVER_assert(p >= p0, "PROP input is taken forwards");
    __CPROVER_assert(LINES(p), "PROP every newline taken begins a line");
#ifndef VF_LINES
    __CPROVER_assert(DEPTH(s) == 1, "PROP every block opened is closed");
    __CPROVER_assert(PREV(s) != 2 || PREV(s0) == 2, "PROP every node of a closed block is taken up");
#endif
}
#define N_ Y->__thunkpos
#define FACT_NLFAIL(y, r) (!(p0 == W) || !(r))
#define FACT_NLOK(y, r) (!(p0 == W) || ((r) && (y)->__pos > W))
#define FACT_NLSTAY(y, r) (!(p0 == W && (r)) || (y)->__pos == p0)
#define FACT_TOTAL(y, r) ((r) != 0)
#define FACT_ENDNNL(y, r) (!(r) || (y)->__pos != W)
#define FACT_EMPTY(y, r) (!(r) || (y)->__pos == p0)
#define FACT_PROG(y, r) (!(r) || (y)->__pos > p0)
#define FACT_PSAME(y, r) (!(r) || PREV(N_) == PREV(s0))
#define FACT_PNONE(y, r) (!(r) || PREV(N_) == 0)
#define FACT_PCLOSED(y, r) (!(r) || PREV(N_) == 1)
#define FACT_VSAME(y, r) (!(r) || VAL(N_) == VAL(s0))
#define FACT_VSET(y, r) (!(r) || VAL(N_))
#define FACT_SSAME(y, r) (!(r) || SB(N_) == SB(s0))
#define FACT_SACT(y, r) (!(r) || SB(N_))
#define FACT_CHSAME(y, r) (!(r) || CH(N_) == CH(s0))
void harness(void)
{
    Y = __CPROVER_allocate(sizeof(*Y), 1);
    unsigned sel = vf_uint();
/*CHECKS*/
}
