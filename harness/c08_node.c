/* _cypher_ast_fprint: a line for the node, then its children in order, one level deeper */
#include "vf.h"
#include <stdio.h>
#include <errno.h>
#include "../../config.h"
#include "astnode.h"
#include "cypher-parser.h"
static FILE *S_; static struct cypher_parser_colorization C_; static char **B_; static size_t *BC_; static unsigned RW_, OW_, SW_, EW_, NW_, DP_;
static _Bool g_fail, seen; static unsigned ind, calls, W, n, lines; static size_t TL; static long len_; static cypher_astnode_t *the; static cypher_astnode_t w_;
static int stage;   /* 0 line begun, 1 description known, 2 line ended */
static _Bool fails(void) { __CPROVER_assert(!g_fail, "PROP nothing is written after a failure"); if (vf_bool()) { g_fail = 1; return 1; } return 0; }
int vf_rec(const cypher_astnode_t *, FILE *, const struct cypher_parser_colorization *, char **, size_t *, unsigned, unsigned, unsigned, unsigned, unsigned, unsigned);
int vf_detail(FILE *, const cypher_astnode_t *, const char *, size_t, unsigned, unsigned, const struct cypher_parser_colorization *);
ssize_t vf_detailstr(const cypher_astnode_t *, char **, size_t *);
const char *vf_typestr(cypher_astnode_type_t);
static int vf_fprintf(FILE *s) { __CPROVER_assert(s == S_ && stage < 2, "PROP the line of the node comes before its children"); return fails() ? -1 : 1; }
static int vf_fputs(const char *t, FILE *s)
{
    __CPROVER_assert(s == S_ && stage == 0 && t[0] == '>' && t[1] == ' ' && t[2] == 0, "PROP two characters for each level");
    if (fails()) { return EOF; }
    ind++; return 0;
}
static int vf_fputc(int c, FILE *s)
{
    __CPROVER_assert(s == S_ && stage == 1 && len_ == 0 && c == '\n', "PROP a line without a description ends after the name");
    if (fails()) { return EOF; }
    stage = 2; return 0;
}
ssize_t vf_snprintf_realloc(char **b, size_t *c, const char *f, unsigned o) { __CPROVER_assert(b == B_ && c == BC_ && o == the->ordinal, "PROP the ordinal is written"); return fails() ? -1 : 1; }
size_t vf_strlen(const char *s) { __CPROVER_assert(s == vf_typestr(the->type), "PROP the name is measured"); return TL; }
#define fprintf(s, ...) ((void)(__VA_ARGS__), vf_fprintf(s))
#define fputs vf_fputs
#define fputc vf_fputc
#define snprintf_realloc(b, c, f, o) vf_snprintf_realloc(b, c, f, o)
#define strlen vf_strlen
#include "util.h"
#include "ast.c"
static char tname;
const char *vf_typestr(cypher_astnode_type_t t) { __CPROVER_assert(t == the->type, "PROP the name of the type"); return &tname; }
ssize_t vf_detailstr(const cypher_astnode_t *a, char **b, size_t *c)
{
    __CPROVER_assert(a == the && b == B_ && c == BC_ && stage == 0 && ind == DP_, "PROP the name is indented by its depth, then comes the description");
    if (fails()) { return -1; }
    *b = vf_ptr(); *c = vf_size(); stage = 1; return len_;
}
int vf_detail(FILE *s, const cypher_astnode_t *a, const char *d, size_t l, unsigned rw, unsigned off, const struct cypher_parser_colorization *c)
{
    __CPROVER_assert(s == S_ && a == the && d == *B_ && l == (size_t)len_ && l > 0 && stage == 1 && rw == RW_ && c == &C_, "PROP the description is written whole");
    __CPROVER_assert(off == NW_ + SW_ + EW_ + OW_ + 8, "PROP descriptions begin in one column");
    if (fails()) { return -1; }
    stage = 2; return 0;
}
int vf_rec(const cypher_astnode_t *a, FILE *s, const struct cypher_parser_colorization *c, char **b, size_t *bc, unsigned rw, unsigned ow, unsigned sw, unsigned ew, unsigned nw, unsigned d)
{
    __CPROVER_assert(stage == 2, "PROP a node before its children");
    __CPROVER_assert(calls != W || a == &w_, "PROP children in order");
    __CPROVER_assert(s == S_ && c == &C_ && b == B_ && bc == BC_ && rw == RW_ && ow == OW_ && sw == SW_ && ew == EW_ && nw == NW_ && d == DP_ + 1, "PROP in the same columns, one level deeper");
    if (calls == W) { seen = 1; }
    calls++;
    return fails() ? -1 : 0;
}
void harness(void)
{
    n = vf_count(); W = vf_uint(); calls = ind = lines = 0; g_fail = seen = 0; stage = 0; len_ = vf_long(); VF_ASSUME(len_ >= 0 && len_ <= (1 << 30));
    cypher_astnode_t t; the = &t; cypher_astnode_t **ch = __CPROVER_allocate((size_t)n * sizeof(*ch), 0); if (W < n) { ch[W] = &w_; } t.children = ch; t.nchildren = n;
    static char *b; static size_t bc; static char s_; S_ = (FILE *)&s_; B_ = &b; BC_ = &bc;
    RW_ = vf_uint(); OW_ = vf_count(); SW_ = vf_count(); EW_ = vf_count(); NW_ = vf_count(); DP_ = vf_count(); TL = vf_count();
    VF_ASSUME(2 * (size_t)DP_ + TL <= NW_);     /* contract: the column of names is wide enough (unit widths) */
    int r = _cypher_ast_fprint(the, S_, &C_, B_, BC_, RW_, OW_, SW_, EW_, NW_, DP_);
    VF_ASSERT((r == 0) == !g_fail && (r == 0 || r == -1), "a failure is reported");
    if (r == 0) { VF_ASSERT(stage == 2 && calls == n && (W >= n || seen), "the node and each child, once"); VF_REACH("written"); }
    else { VF_REACH("failed"); }
}
