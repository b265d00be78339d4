/* ast_fprint_detail: the description is written whole, escaped and wrapped */
#include "vf.h"
#include <stdio.h>
#include <errno.h>
#include "../../config.h"
#include "astnode.h"
#include "cypher-parser.h"
static char *D; static size_t L; static unsigned RW, OFF; static size_t WID;   /* the description, the width asked for, where it begins */
static size_t g_n, g_w; static unsigned g_ind; static int g_h, g_nl, g_st; static _Bool g_fail; static FILE *S_;
static struct cypher_parser_colorization C_;
/* the documented escapes */
static char esc(char c) { return c == 7 ? 'a' : c == 8 ? 'b' : c == 12 ? 'f' : c == 10 ? 'n' : c == 13 ? 'r' : c == 9 ? 't' : c == 11 ? 'v' : 0; }
static _Bool fails(void) { __CPROVER_assert(!g_fail, "PROP nothing is written after a failure"); if (vf_bool()) { g_fail = 1; return 1; } return 0; }
static int vf_fputc(int c, FILE *s)
{
    __CPROVER_assert(s == S_ && g_st == 1, "PROP the description is between its colors");
    if (fails()) { return EOF; }
    if (g_nl == 1) { __CPROVER_assert(c == '\n', "PROP a full line ends"); g_ind = OFF; g_nl = OFF > 0 ? 2 : 0; return 0; }
    if (g_nl == 2) { __CPROVER_assert(c == ' ', "PROP the next line begins under the first"); if (--g_ind == 0) { g_nl = 0; } return 0; }
    if (g_n == L) { __CPROVER_assert(c == '\n', "PROP the line ends after the description"); g_st = 2; return 0; }
    char ch = D[g_n]; size_t at = g_n;
    if (esc(ch))
    {
        if (g_h == 0) { __CPROVER_assert(c == '\\', "PROP a control character is escaped"); g_h = 1; }
        else { __CPROVER_assert(c == esc(ch), "PROP with its own letter"); g_h = 0; g_n++; }
    }
    else { __CPROVER_assert((unsigned char)c == (unsigned char)ch, "PROP other characters are written as they are"); g_n++; }
    if (RW > 0 && --g_w == 0 && at + 1 < L) { g_nl = 1; g_w = WID; }
    return 0;
}
static int vf_fputs(const char *t, FILE *s)
{
    __CPROVER_assert(s == S_ && (g_st == 0 ? t == C_.ast_desc[0] : g_st == 2 && t == C_.ast_desc[1]), "PROP the colors of descriptions, around it");
    if (fails()) { return EOF; }
    g_st++;
    return 0;
}
#define fputc vf_fputc
#define fputs vf_fputs
#include "ast.c"
void harness(void)
{
    L = vf_size(); VF_ASSUME(L >= 1 && L <= (1u << 30)); D = __CPROVER_allocate(L, 0); RW = vf_uint(); OFF = vf_uint(); VF_ASSUME(OFF <= (1u << 30));
    WID = RW == 0 ? 0 : OFF < RW ? RW - OFF : 10; g_w = WID; g_n = 0; g_ind = 0; g_h = g_nl = g_st = 0; g_fail = 0;
    static char s_, c0, c1; S_ = (FILE *)&s_; C_.ast_desc[0] = &c0; C_.ast_desc[1] = &c1;
    cypher_astnode_t node;
    int r = ast_fprint_detail(S_, &node, D, L, RW, OFF, &C_);
    VF_ASSERT((r == 0) == !g_fail && (r == 0 || r == -1), "a write error is reported");
    if (r == 0) { VF_ASSERT(g_st == 3 && g_n == L && g_nl == 0 && g_h == 0, "the description is written whole"); VF_REACH("written"); }
    else { VF_REACH("failed"); }
}
