/* Environment of the units "detail-*": the text a description function writes,
 * followed at one arbitrary position KD (the witness) through the real code.
 * snprintf calls are rewritten mechanically on every run into the pieces their
 * format literal names (vf_begin, vf_lit, vf_num, vf_text, vf_end), and stores
 * str[E] = c become vf_store(E, c), which keeps the byte at KD; numerals
 * are of any length; snprint_sequence is replaced by its contract (unit sequence). */
#ifndef VDETAIL_H
#define VDETAIL_H
/* What a byte is: itself, digit k of a number, byte k of a string or of a
 * sequence.  Equal descriptions are equal bytes. */
typedef unsigned long vf_byte;
#define B_CHAR(c) ((vf_byte)(unsigned char)(c))
#define B_DIGIT(v, k) (1ul << 60 | (vf_byte)(v) << 8 | (k))
#define B_TEXT(k) (2ul << 60 | (k))
#define B_SEQ(q, k) (3ul << 60 | (vf_byte)(q) << 40 | (k))
#undef snprintf
#undef strncpy
#define strncpy vf_strncpy
static size_t KD, SZ; static char *S_; static vf_byte bk;   /* the byte of the buffer at KD */
static _Bool vf_failed_;
static const char *vf_sp; static size_t vf_sl;       /* the string the node holds, its length */
/* what is being written */
static size_t w_at, w_av, w_len; static vf_byte w_ch; static _Bool w_hit;
/* the reference */
static size_t rp; static vf_byte rc; static unsigned gi;
static cypher_astnode_t vf_cell, vf_cell2;
/* sequences written */
static const cypher_astnode_t * const *sq_els[4]; static unsigned sq_n[4], sq, rq;

/* the length of a numeral: any function of the number (ordinals are only passed on, so the
 * values may be chosen such that their low bits say how long each is) */
static size_t num_len(unsigned v) { return 1 + (v & 15); }
static size_t sq_len[4];
static size_t str_len(const char *s)
{
    if (s == vf_sp) { return vf_sl; }
    return s[0] == 0 ? 0 : s[1] == 0 ? 1 : s[2] == 0 ? 2 : s[3] == 0 ? 3 : s[4] == 0 ? 4 : s[5] == 0 ? 5 : s[6] == 0 ? 6 : s[7] == 0 ? 7
        : s[8] == 0 ? 8 : s[9] == 0 ? 9 : s[10] == 0 ? 10 : s[11] == 0 ? 11 : s[12] == 0 ? 12 : s[13] == 0 ? 13 : s[14] == 0 ? 14 : s[15] == 0 ? 15
        : s[16] == 0 ? 16 : s[17] == 0 ? 17 : s[18] == 0 ? 18 : s[19] == 0 ? 19 : s[20] == 0 ? 20 : s[21] == 0 ? 21 : s[22] == 0 ? 22 : s[23] == 0 ? 23 : 24;
}
static void vf_target(char *s, size_t av)
{
    w_at = (size_t)__CPROVER_POINTER_OFFSET(s);
    __CPROVER_assert(av == 0 || (__CPROVER_same_object(s, S_) && av <= SZ && w_at <= SZ - av), "PROP only the buffer is written");
    w_av = av; w_len = 0; w_hit = 0;
}
#define W_PIECE(len, ch) do { size_t l_ = (len); size_t k_ = KD - w_at - w_len; if (w_av > 0 && KD >= w_at + w_len && k_ < l_) { w_hit = 1; w_ch = (ch); } w_len += l_; } while (0)
static int vf_begin(char *s, size_t av) { vf_target(s, av); return 0; }
static int vf_lit(const char *s, size_t n) { W_PIECE(n, B_CHAR(s[k_])); return 0; }
static int vf_text(const char *s) { W_PIECE(str_len(s), s == vf_sp ? B_TEXT(k_) : B_CHAR(s[k_])); return 0; }
static int vf_num(unsigned v) { W_PIECE(num_len(v), B_DIGIT(v, k_)); return 0; }
static int vf_end(void)
{
    __CPROVER_assert(!vf_failed_, "PROP nothing is written after a failure");
    if (vf_bool()) { vf_failed_ = 1; return -1; }
    if (w_av > 0 && KD >= w_at)
    {
        size_t k = KD - w_at, e = w_len < w_av ? w_len : w_av - 1;
        if (k < e) { bk = w_ch; }
        if (k == e) { bk = 0; }
    }
    return (int)w_len;
}
static void vf_store(size_t at, char c)
{
    __CPROVER_assert(at < SZ, "PROP only the buffer is written");
    if (at == KD) { bk = B_CHAR(c); }
}
static char *vf_strncpy(char *d, const char *s, size_t n)
{
    vf_target(d, n);
    size_t l = str_len(s);
    if (KD >= w_at && KD - w_at < n) { bk = KD - w_at < l ? B_CHAR(s[KD - w_at]) : 0; }
    return d;
}
#define snprint_sequence vf_snprint_sequence
ssize_t snprint_sequence(char *s, size_t av, const cypher_astnode_t * const *els, unsigned n)
{
    __CPROVER_assert(!vf_failed_, "PROP nothing is written after a failure");
    vf_target(s, av);
    if (vf_bool()) { vf_failed_ = 1; return -1; }
    __CPROVER_assert(sq < 4, "PROP few sequences");
    size_t l = vf_size(); VF_ASSUME(l >= 2 && l <= (1u << 25)); sq_len[sq] = l;
    sq_els[sq] = els; sq_n[sq] = n;
    if (KD >= w_at && KD - w_at < av && KD - w_at < l) { bk = B_SEQ(sq, KD - w_at); }
    sq++;
    return (ssize_t)l;
}
/* the reference text */
#define R_PIECE(len, ch) do { size_t l_ = (len); size_t k_ = KD - rp; if (KD >= rp && k_ < l_) { rc = (ch); } rp += l_; } while (0)
static void vf_rtext(const char *s) { R_PIECE(str_len(s), s == vf_sp ? B_TEXT(k_) : B_CHAR(s[k_])); }
static void vf_rnum(unsigned v) { vf_rtext("@"); R_PIECE(num_len(v), B_DIGIT(v, k_)); }
static void vf_rseq(unsigned n, const cypher_astnode_t *w)
{
    VF_ASSERT(rq < sq, "a sequence for every sequence of the node");
    VF_ASSERT(sq_n[rq] == n, "every element of the sequence");
    if (K < n) { VF_ASSERT(sq_els[rq][K] == w, "the elements in order"); }
    R_PIECE(sq_len[rq], B_SEQ(rq, k_));
    rq++;
}
#define P(s) vf_rtext(s)
#define R(n) vf_rnum((n)->ordinal)
#define SEQ(n, f) do { unsigned n_q = (n); vf_rseq(n_q, K < n_q ? f(a, K) : NULL); } while (0)
#define OPSTR(o) ((o)->str)
/* element e of the array the loop goes through (extraction: node->ARRAY[e]->ordinal and
 * node->ARRAY[e]->str become VF_AT(e), VF_OP(e)): what is read is checked, its value any */
static unsigned ci; static _Bool at_pairs; static size_t at_last; static unsigned at_lastv;
static unsigned vf_at(size_t e)
{
    if (e == at_last) { return at_lastv; }
    if (at_pairs) { __CPROVER_assert(e == 2 * (size_t)ci || e == 2 * (size_t)ci + 1, "PROP the elements in order"); return e == 2 * (size_t)ci ? vf_cell.ordinal : vf_cell2.ordinal; }
    __CPROVER_assert(e == ci, "PROP the elements in order");
    return vf_cell.ordinal;
}
#define VF_AT(e) vf_at(e)
#define VF_DETAIL_INIT() do { KD = vf_size(); SZ = vf_size(); VF_ASSUME(SZ <= (1u << 30) && KD <= (1u << 30)); static char s_; S_ = &s_; bk = (vf_byte)vf_size(); vf_failed_ = 0; \
    rp = 0; rc = 0; gi = 0; sq = rq = 0; vf_sp = NULL; vf_sl = 0; w_at = w_av = w_len = 0; w_hit = 0; ci = 0; at_pairs = 0; at_last = (size_t)-1; } while (0)
#endif
