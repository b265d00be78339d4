/* The functions of the lint tool (linter/src/cypher-lint.c), each against the
 * contracts of those it calls: 1 print_error, 2 parse_callback, 3 process_all,
 * 4 process_streamed, 5 process, 6 main */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <getopt.h>
#include <libgen.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include "cypher-parser.h"
static FILE *out_, *err_, *in_; static char f_[4];
#undef stdout
#undef stderr
#undef stdin
#define stdout out_
#define stderr err_
#define stdin in_
#undef errno
static int vf_errno;
#define errno vf_errno
static struct cypher_parser_colorization ansi_, none_, EC_, OC_;
const struct cypher_parser_colorization *cypher_parser_ansi_colorization, *cypher_parser_no_colorization;
/* ghost: a list of N errors; one at an arbitrary position W */
static unsigned N, W, shown; static char errs[1]; static const char *FN; static _Bool seen;
static _Bool printed_ast, ast_fail, complained, name_shown; static unsigned width_; static const struct cypher_parser_colorization *want_oc, *want_ec;
static void vf_perror(const char *s) { complained = 1; }
#define perror vf_perror
static cypher_parse_error_t *err_at(unsigned i) { return (cypher_parse_error_t *)(errs + i); }   /* the i-th: an address that names it */

#if VF_WHAT == 1
/* what goes to standard error, followed at one arbitrary position KD */
typedef unsigned long vf_byte;
static size_t KD, wp, rp; static vf_byte wc, rc; static const char *msg_, *ctx_; static unsigned line_, col_, off_;
static const char *known[3]; static size_t klen[3];
static size_t slen(const char *s) { return s == known[0] ? klen[0] : s == known[1] ? klen[1] : s == known[2] ? klen[2] : s[0] == 0 ? 0 : s[1] == 0 ? 1 : s[2] == 0 ? 2 : s[3] == 0 ? 3 : s[4] == 0 ? 4 : s[5] == 0 ? 5 : s[6] == 0 ? 6 : s[7] == 0 ? 7 : 8; }
static vf_byte sbyte(const char *s, size_t k) { return s == known[0] ? (1ul << 60 | k) : s == known[1] ? (2ul << 60 | k) : s == known[2] ? (3ul << 60 | k) : (vf_byte)(unsigned char)s[k]; }
static size_t nlen(unsigned v) { return 1 + (v & 15); }    /* any function of the number */
#define PIECE(pos, ch, len, b) do { size_t l_ = (len), k_ = KD - pos; if (KD >= pos && k_ < l_) { ch = (b); } pos += l_; } while (0)
static int vf_begin(FILE *f) { __CPROVER_assert(f == err_, "PROP errors go to standard error"); return 0; }
static int vf_end(void) { return 0; }
static int vf_lit(const char *s, size_t n) { PIECE(wp, wc, n, (vf_byte)(unsigned char)s[k_]); return 0; }
static int vf_text(const char *s) { PIECE(wp, wc, slen(s), sbyte(s, k_)); return 0; }
static int vf_num(unsigned v) { PIECE(wp, wc, nlen(v), 4ul << 60 | (vf_byte)v << 8 | k_); return 0; }
static int vf_pad(int w, int p, const char *s)
{
    size_t l = slen(s); if (p >= 0 && (size_t)p < l) { l = p; }
    size_t t = w >= 0 && (size_t)w > l ? (size_t)w : l;
    PIECE(wp, wc, t - l, ' '); PIECE(wp, wc, l, sbyte(s, k_)); return 0;
}
struct cypher_input_position cypher_parse_error_position(const cypher_parse_error_t *e) { __CPROVER_assert(e == err_at(0), "PROP this error"); struct cypher_input_position p; p.line = line_; p.column = col_; p.offset = vf_size(); return p; }
const char *cypher_parse_error_message(const cypher_parse_error_t *e) { __CPROVER_assert(e == err_at(0), "PROP this error"); return msg_; }
const char *cypher_parse_error_context(const cypher_parse_error_t *e) { __CPROVER_assert(e == err_at(0), "PROP this error"); return ctx_; }
size_t cypher_parse_error_context_offset(const cypher_parse_error_t *e) { __CPROVER_assert(e == err_at(0), "PROP this error"); return off_; }
static void r_text(const char *s) { PIECE(rp, rc, slen(s), sbyte(s, k_)); }
static void r_num(unsigned v) { PIECE(rp, rc, nlen(v), 4ul << 60 | (vf_byte)v << 8 | k_); }
#else
/* contract of print_error (unit print-error) */
static void vf_print_error(const cypher_parse_error_t *e, const char *fn, const struct cypher_parser_colorization *c)
{
    __CPROVER_assert(e == err_at(shown) && shown < N, "PROP each error once, in order");
    __CPROVER_assert(fn == FN && !printed_ast, "PROP with the name of its input, before the tree");
    if (shown == W) { seen = 1; }
    shown++;
}
#endif
static cypher_parse_segment_t *seg_; static cypher_parse_result_t *res_; static unsigned nfree, nparse;
const cypher_parse_error_t *cypher_parse_segment_get_error(const cypher_parse_segment_t *s, unsigned i) { __CPROVER_assert(s == seg_, "PROP the segment delivered"); return i < N ? err_at(i) : NULL; }
unsigned cypher_parse_segment_nerrors(const cypher_parse_segment_t *s) { return N; }
const cypher_parse_error_t *cypher_parse_result_get_error(const cypher_parse_result_t *s, unsigned i) { __CPROVER_assert(s == res_ && nfree == 0, "PROP the result of the parse"); return i < N ? err_at(i) : NULL; }
unsigned cypher_parse_result_nerrors(const cypher_parse_result_t *s) { __CPROVER_assert(s == res_ && nfree == 0, "PROP the result of the parse"); return N; }
static int ast(FILE *f, unsigned w, const struct cypher_parser_colorization *c)
{
    __CPROVER_assert(f == out_ && w == width_ && c == want_oc, "PROP the tree goes to standard output as asked for");
    __CPROVER_assert(shown == N && !printed_ast, "PROP the tree once, after the errors");
    printed_ast = 1; if (vf_bool()) { ast_fail = 1; return -1; } return 0;
}
int cypher_parse_segment_fprint_ast(const cypher_parse_segment_t *s, FILE *f, unsigned w, const struct cypher_parser_colorization *c, uint_fast32_t fl) { __CPROVER_assert(s == seg_, "PROP the segment delivered"); return ast(f, w, c); }
int cypher_parse_result_fprint_ast(const cypher_parse_result_t *s, FILE *f, unsigned w, const struct cypher_parser_colorization *c, uint_fast32_t fl) { __CPROVER_assert(s == res_ && nfree == 0, "PROP the result of the parse"); return ast(f, w, c); }
void cypher_parse_result_free(cypher_parse_result_t *r) { __CPROVER_assert(r == res_, "PROP the result is released"); nfree++; vf_errno = vf_int(); }
static FILE *stream_; static cypher_parser_config_t *cc_; static uint_fast32_t flags_; static int each_ret; static _Bool cc_fail;
cypher_parse_result_t *cypher_fparse(FILE *s, struct cypher_input_position *last, cypher_parser_config_t *c, uint_fast32_t fl)
{
    __CPROVER_assert(s == stream_ && c == cc_ && fl == flags_, "PROP the input is parsed as asked for");
    nparse++; return vf_bool() ? res_ : NULL;
}
#define printf(f, x) ((void)(name_shown = (x) == FN))
#include "c18_env.h"
#include "cypher-lint.inc"

#if VF_WHAT >= 3
int cypher_fparse_each(FILE *s, cypher_parser_segment_callback_t cb, void *d, struct cypher_input_position *last, cypher_parser_config_t *c, uint_fast32_t fl)
{
    __CPROVER_assert(s == stream_ && c == cc_ && fl == flags_ && cb == parse_callback, "PROP the input is parsed as asked for");
    struct parse_callback_data *q = d;
    __CPROVER_assert(q->filename == FN && q->nerrors == 0 && q->output_colorization == want_oc && q->error_colorization == want_ec && q->config->width == width_, "PROP segments are handled as asked for");
    nparse++; q->nerrors = N; return each_ret;
}
#endif

#if VF_WHAT == 5
static void process_harness(struct lint_config *cfg)
{
    nnew = ncfree = ncalls = 0; set_ec = NULL; cc_fail = vf_bool(); sub_ret = vf_int(); VF_ASSUME(sub_ret >= -1 && sub_ret <= 1); want_cfg = cfg; sub_streamed = 0;
    want_ec = cfg->colorize_errors ? &ansi_ : &none_; want_oc = cfg->colorize_output ? &ansi_ : NULL;
    int r = process(stream_, FN, cfg);
    if (cc_fail) { VF_ASSERT(r == -1 && ncalls == 0, "a failure is reported"); return; }
    VF_ASSERT(ncalls == 1 && nnew == 1 && ncfree == 1 && sub_streamed == cfg->stream, "each input is handled once, streamed exactly if asked for");
    VF_ASSERT(r == sub_ret && (r >= 0 || vf_errno == 77), "its outcome is reported");
    VF_REACH("processed");
}
#endif
#if VF_WHAT == 6
static int vf_process(FILE *s, const char *n, struct lint_config *c)
{
    __CPROVER_assert(!helped && !versioned && !bad && !g_stop, "PROP inputs are read only if they are to be");
    __CPROVER_assert(nargs == 0 ? s == in_ && n == NULL && done == 0 : is_dash ? s == in_ : s == opened && n == cur_arg, "PROP the input named");
    __CPROVER_assert(!c->dump_ast == !x_ast && !c->stream == !(x_stream || !x_ast) && c->width == x_width && !c->colorize_output == !x_ceo && !c->colorize_errors == !x_cee, "PROP options as documented");
    __CPROVER_assert(c->flags == ((x_one ? CYPHER_PARSE_SINGLE : 0) | (x_only ? CYPHER_PARSE_ONLY_STATEMENTS : 0)), "PROP options as documented");
    done++; int r = vf_int(); VF_ASSUME(r >= -1 && r <= 1);
    if (r != 0) { g_err = 1; }
    if (r < 0 && nargs > 0 && !is_dash) { g_stop = 1; }
    return r;
}
static void main_harness(void)
{
    /* what the options stand for (unit options) */
    code[0] = '1'; code[1] = code[2] = 'a'; code[3] = code[4] = code[5] = COLORIZE_OPT; code[6] = code[7] = NO_COLORIZE_OPT; code[8] = code[9] = 'h'; code[10] = ONLY_STATEMENTS_OPT;
    code[11] = OUTPUT_WIDTH_OPT; code[12] = STREAM_OPT; code[13] = VERSION_OPT;
    nopts = vf_count(); oi = 0; nargs = vf_count(); ai = 0; helped = versioned = bad = 0; x_one = x_ast = x_only = x_stream = 0; x_width = 0; x_ceo = vf_bool(); x_cee = vf_bool(); w_arg = 0;
    g_err = g_stop = is_dash = open_fails = 0; done = 0; static char op_; opened = (void *)&op_; cur_arg = NULL; vf_optind = 1 + (int)vf_count();
    char **av = __CPROVER_allocate(((size_t)vf_optind + nargs) * sizeof(char *), 0); av[0] = cell_;
    int r = lint_main(vf_optind + (int)nargs, av);
    if (helped || versioned) { VF_ASSERT(r == EXIT_SUCCESS && done == 0, "help and version succeed"); VF_REACH("help"); return; }
    if (bad) { VF_ASSERT(r == EXIT_FAILURE && done == 0, "an unknown option is refused"); return; }
    VF_ASSERT(r == (g_err || g_stop ? EXIT_FAILURE : EXIT_SUCCESS), "success exactly if every input was read and had no error");
    if (!g_stop) { VF_ASSERT(done == (nargs == 0 ? 1 : nargs) && ai == nargs, "every input named"); VF_REACH("all"); }
}
#endif

#if VF_WHAT == 7
static _Bool same(const char *a, const char *b) { for (int i = 0; i < 20; i++) { if (a[i] != b[i]) { return 0; } if (a[i] == 0) { return 1; } } return 0; }
static int lookup(const char *n, int arg)
{
    for (int i = 0; i < 20; i++) { if (longopts[i].name == NULL) { break; } if (same(longopts[i].name, n)) { VF_ASSERT(longopts[i].has_arg == arg && longopts[i].flag == NULL, "the option takes its argument"); return longopts[i].val; } }
    VF_ASSERT(0, "every documented option is known"); return -2;
}
static int shortopt(char c) { for (int i = 0; i < 12; i++) { if (shortopts[i] == 0) { break; } if (shortopts[i] == c) { VF_ASSERT(shortopts[i + 1] != ':', "the option takes its argument"); return c; } } VF_ASSERT(0, "every documented option is known"); return -2; }

static void options_harness(void)
{
    VF_ASSERT(shortopt('1') == '1' && shortopt('a') == 'a' && shortopt('h') == 'h', "short options");
    VF_ASSERT(lookup("ast", 0) == 'a' && lookup("help", 0) == 'h' && lookup("colorize", 0) == COLORIZE_OPT && lookup("colorise", 0) == COLORIZE_OPT && lookup("colourise", 0) == COLORIZE_OPT, "long options");
    VF_ASSERT(lookup("no-colorize", 0) == NO_COLORIZE_OPT && lookup("no-colorise", 0) == NO_COLORIZE_OPT && lookup("only-statements", 0) == ONLY_STATEMENTS_OPT && lookup("output-width", 1) == OUTPUT_WIDTH_OPT && lookup("stream", 0) == STREAM_OPT && lookup("version", 0) == VERSION_OPT, "long options");
    VF_REACH("options");
}
#endif

void harness(void)
{
    out_ = (FILE *)f_; err_ = (FILE *)(f_ + 1); in_ = (FILE *)(f_ + 2); cypher_parser_ansi_colorization = &ansi_; cypher_parser_no_colorization = &none_;
    N = vf_count(); W = vf_uint(); shown = 0; seen = printed_ast = ast_fail = complained = name_shown = 0; static char fn_; FN = vf_bool() ? &fn_ : NULL; width_ = vf_uint(); nfree = nparse = 0; cc_fail = 0;
    static char sg_, rs_; seg_ = (void *)&sg_; res_ = (void *)&rs_;
    want_oc = vf_bool() ? &OC_ : NULL; want_ec = &EC_; static char st_, cf_; stream_ = (void *)&st_; cc_ = (void *)&cf_; flags_ = vf_uint() & 0x7fffffff; each_ret = vf_int();
    struct lint_config cfg; cfg.width = width_; cfg.flags = (int)flags_; cfg.dump_ast = vf_bool(); cfg.colorize_output = vf_bool(); cfg.colorize_errors = vf_bool(); cfg.stream = vf_bool();
#if VF_WHAT == 1
    static char m_, c_; msg_ = &m_; ctx_ = &c_; line_ = vf_uint(); col_ = vf_uint(); off_ = vf_count(); KD = vf_size(); wp = rp = 0; wc = rc = 0;
    known[0] = &fn_; known[1] = msg_; known[2] = ctx_;
    for (int i = 0; i < 3; i++) { klen[i] = vf_size(); VF_ASSUME(klen[i] <= (1u << 30)); }
    print_error(err_at(0), FN, &EC_);
    r_text(FN ? FN : "<stdin>"); r_text(":"); r_num(line_); r_text(":"); r_num(col_); r_text(": "); r_text(msg_); r_text("\n"); r_text(ctx_); r_text("\n");
    PIECE(rp, rc, off_, ' '); r_text("^"); r_text("\n");
    VF_ASSERT(wp == rp && (KD >= rp || wc == rc), "name, line, column, message, then the context with a caret under the place");
    VF_REACH("error");
#elif VF_WHAT == 2
    struct parse_callback_data d; d.filename = FN; d.config = &cfg; d.error_colorization = &EC_; d.output_colorization = want_oc; unsigned n0 = vf_count(); d.nerrors = n0;
    int r = parse_callback(&d, seg_);
    VF_ASSERT(shown == N && (W >= N || seen) && d.nerrors == n0 + N, "every error of the segment is shown and counted");
    VF_ASSERT(printed_ast == cfg.dump_ast, "the tree exactly if asked for");
    VF_ASSERT(r == (ast_fail ? -1 : 0), "a tree that cannot be written ends the parse");
    VF_REACH("segment");
#elif VF_WHAT == 3
    int r = process_all(stream_, FN, &cfg, cc_, &EC_, want_oc);
    VF_ASSERT(nparse == 1, "the input is parsed once");
    if (nfree == 0) { VF_ASSERT(r == -1 && complained && shown == 0 && !printed_ast, "an input that cannot be read is reported"); VF_REACH("unread"); return; }
    VF_ASSERT(nfree == 1, "the result is released");
    VF_ASSERT(shown == N && (W >= N || seen), "every error is shown");
    VF_ASSERT(printed_ast == cfg.dump_ast && (!printed_ast || name_shown == (FN != NULL)), "the tree exactly if asked for, under the name of the input");
    VF_ASSERT(r == (ast_fail ? -1 : N == 0 ? 0 : 1), "whether there was an error");
    VF_REACH("all");
#elif VF_WHAT == 4
    int r = process_streamed(stream_, FN, &cfg, cc_, &EC_, want_oc);
    VF_ASSERT(nparse == 1 && complained == (each_ret != 0), "the input is parsed once; if it cannot be read, that is reported");
    VF_ASSERT(r == (each_ret != 0 ? -1 : N == 0 ? 0 : 1), "whether there was an error");
    VF_REACH("streamed");
#endif
#if VF_WHAT == 5
    process_harness(&cfg);
#endif
#if VF_WHAT == 7
    options_harness();
#endif
#if VF_WHAT == 6
    main_harness();
#endif
}
