#if VF_WHAT == 5
static unsigned nnew, ncfree, ncalls; static int sub_ret; static _Bool sub_streamed; static const struct cypher_parser_colorization *set_ec;
struct lint_config;
cypher_parser_config_t *cypher_parser_new_config(void) { if (cc_fail) { return NULL; } nnew++; return cc_; }
void cypher_parser_config_free(cypher_parser_config_t *c) { __CPROVER_assert(c == cc_ && ncalls == 1, "PROP the configuration is released after use"); ncfree++; vf_errno = vf_int(); }
void cypher_parser_config_set_error_colorization(cypher_parser_config_t *c, const struct cypher_parser_colorization *e) { __CPROVER_assert(c == cc_ && ncalls == 0, "PROP configured before use"); set_ec = e; }
static const void *want_cfg; static int sub(_Bool streamed, FILE *s, const char *fn, const void *cfg, cypher_parser_config_t *c, const struct cypher_parser_colorization *e, const struct cypher_parser_colorization *o)
{
    __CPROVER_assert(s == stream_ && fn == FN && c == cc_ && cfg == want_cfg && e == want_ec && o == want_oc, "PROP the input is handled as asked for");
    __CPROVER_assert(e == &none_ ? set_ec == NULL : set_ec == e, "PROP errors are colored as asked for");
    ncalls++; sub_streamed = streamed; vf_errno = sub_ret < 0 ? 77 : vf_int(); return sub_ret;
}
static void process_harness(struct lint_config *);
#endif
#if VF_WHAT == 6
/* the options given, in order, then the inputs named */
enum { O_ONE, O_AST, O_COLOR, O_NOCOLOR, O_HELP, O_ONLY, O_WIDTH, O_STREAM, O_VERSION, O_BAD, O_N };
static int code[14]; static unsigned nopts, oi, nargs, ai; static int helped, versioned, bad; static _Bool x_one, x_ast, x_only, x_stream, x_ceo, x_cee; static unsigned x_width; static int w_arg;
static int atoi_(const char *s) { return w_arg; }
#define atoi atoi_
static _Bool g_err, g_stop, is_dash, open_fails; static unsigned done, closed; static char *a_; static int lres; static FILE *opened; static char cell_[2]; static char *cur_arg;
static char *vf_basename(char *s) { return s; }
#undef basename
#define basename vf_basename
static int vf_isatty(int fd) { return fd == 1 ? x_ceo : x_cee; }
#define isatty vf_isatty
static int vf_fileno(FILE *f) { return f == out_ ? 1 : 2; }
#undef fileno
#define fileno vf_fileno
static int vf_optind; static char *vf_optarg;
#define optind vf_optind
#define optarg vf_optarg
static int vf_getopt(void)
{
    if (oi >= nopts || helped || versioned || bad) { return -1; }
    oi++;
    unsigned o = vf_uint(); VF_ASSUME(o < 14);
    /* the documented meaning of the option */
    if (o == 0) { x_one = 1; }
    if (o == 1 || o == 2) { x_ast = 1; }
    if (o == 3 || o == 4 || o == 5) { x_ceo = x_cee = 1; }
    if (o == 6 || o == 7) { x_ceo = x_cee = 0; }
    if (o == 8 || o == 9) { helped = 1; }
    if (o == 10) { x_only = 1; }
    if (o == 11) { w_arg = vf_int(); x_width = w_arg; }
    if (o == 12) { x_stream = 1; }
    if (o == 13) { versioned = 1; }
    if (vf_bool()) { if (!helped && !versioned) { bad = 1; return '?'; } }
    return code[o];
}
#define getopt_long(ac, av, so, lo, ix) vf_getopt()
static int vf_strcmp(const char *a, const char *b) { __CPROVER_assert(a == cur_arg && b[0] == '-' && b[1] == 0, "PROP the input named"); return !is_dash; }
static FILE *vf_fopen(const char *n, const char *m) { __CPROVER_assert(n == cur_arg && m[0] == 'r' && !is_dash, "PROP the input named is opened"); if (open_fails) { g_stop = 1; return NULL; } return opened; }
static int vf_fclose(FILE *f) { __CPROVER_assert(f == opened, "PROP the input is closed"); return 0; }
#define strcmp vf_strcmp
#define fopen vf_fopen
#define fclose vf_fclose
#define usage(s, n) ((void)0)
#undef fprintf
#define fprintf(s, ...) ((void)0)
static void main_harness(void);
struct lint_config;
static int vf_process(FILE *s, const char *n, struct lint_config *c);
#define VF_ARG() do { is_dash = vf_bool(); open_fails = vf_bool(); cur_arg = &cell_[0]; *argv = cur_arg; ai++; __CPROVER_assert(!g_stop, "PROP no further than the first input that cannot be read"); } while (0)
#endif
