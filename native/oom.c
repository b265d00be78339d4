/* Every allocation of every operation fails in turn.  Appended to the dumper
   and stmt.c (its main renamed).  argv: rounds seed */
#include <time.h>
static bool inlib, fired; static long countdown, nalloc, live; static size_t lastsz;
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); extern char *__real_strdup(const char *), *__real_strndup(const char *, size_t); extern void __real_free(void *);
static bool failnow(void) { if (!inlib) return false; nalloc++; if (countdown > 0 && --countdown == 0) { fired = true; errno = ENOMEM; return true; } return false; }
void *__wrap_malloc(size_t n) { if (failnow()) return NULL; void *p = __real_malloc(n); if (inlib && p) live++; return p; }
void *__wrap_calloc(size_t a, size_t n) { if (failnow()) return NULL; void *p = __real_calloc(a, n); if (inlib && p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (failnow()) return NULL; void *p = __real_realloc(q, n); if (inlib && p && !q) live++; return p; }
char *__wrap_strdup(const char *s) { if (failnow()) return NULL; char *p = __real_strdup(s); if (inlib && p) live++; return p; }
char *__wrap_strndup(const char *s, size_t n) { if (failnow()) return NULL; char *p = __real_strndup(s, n); if (inlib && p) live++; return p; }
void __wrap_free(void *p) { if (inlib && p) live--; __real_free(p); }

static B in; static cypher_parser_config_t *conf; static uint_fast32_t flags; static unsigned width; static bool color; static int cbret, cbat;
static B out;                                  /* the outcome of the operation */
static const char *op; static cypher_parse_result_t *given; static const cypher_astnode_t *tree;
static char *devbuf; static FILE *dev;
static void fin(const char *s, size_t n) { bool i = inlib; inlib = false; bput(&out, s, n); inlib = i; }
static void err_out(const cypher_parse_error_t *e)
{
    struct cypher_input_position p = cypher_parse_error_position(e);
    bool i = inlib; inlib = false;
    bf(&out, "error %u:%u:%zu %s|%s|%zu\n", p.line, p.column, p.offset, cypher_parse_error_message(e), cypher_parse_error_context(e), cypher_parse_error_context_offset(e));
    inlib = i;
}
static void tree_out(const cypher_astnode_t *n) { bool i = inlib; inlib = false; dump(&out, n); bs(&out, "\n"); inlib = i; }
static void result_out(cypher_parse_result_t *r)
{
    for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) tree_out(cypher_parse_result_get_root(r, i));
    for (unsigned i = 0; i < cypher_parse_result_ndirectives(r); i++) tree_out(cypher_parse_result_get_directive(r, i));
    for (unsigned i = 0; i < cypher_parse_result_nerrors(r); i++) err_out(cypher_parse_result_get_error(r, i));
    fin(cypher_parse_result_eof(r) ? "eof" : "...", 3);
}
static cypher_parse_segment_t *kept[4096]; static int nkept, ncalls;
static int on_segment(void *u, cypher_parse_segment_t *s)
{
    ncalls++;
    bool i = inlib; inlib = false; bf(&out, "segment %zu-%zu %d\n", cypher_parse_segment_get_range(s).start.offset, cypher_parse_segment_get_range(s).end.offset, (int)cypher_parse_segment_is_eof(s)); inlib = i;
    for (unsigned k = 0; k < cypher_parse_segment_nroots(s); k++) tree_out(cypher_parse_segment_get_root(s, k));
    for (unsigned k = 0; k < cypher_parse_segment_nerrors(s); k++) err_out(cypher_parse_segment_get_error(s, k));
    if (nkept < 4096 && ncalls % 2) { cypher_parse_segment_retain(s); kept[nkept++] = s; }
    return ncalls == cbat ? cbret : 0;
}
static int on_quick(void *u, const cypher_quick_parse_segment_t *s)
{
    ncalls++; size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n); fin(t, n); fin("\n", 1);
    return ncalls == cbat ? cbret : 0;
}
static bool release_kept(void) { for (int i = 0; i < nkept; i++) { unsigned k = 0; for (unsigned j = 0; j < cypher_parse_segment_nroots(kept[i]); j++) { inlib = false; B t = { 0 }; dump(&t, cypher_parse_segment_get_root(kept[i], j)); k += t.n; bfree(&t); inlib = true; } (void)k; cypher_parse_segment_release(kept[i]); } nkept = 0; return true; }
static FILE *stream; static char *mbuf; static size_t mlen;
/* operations: 1 success, 0 failure reported; the outcome in out */
static int do_parse(void)
{
    cypher_parse_result_t *r = stream ? cypher_fparse(stream, NULL, conf, flags) : cypher_uparse(in.p, in.n, NULL, conf, flags);
    int e = errno; if (!r) { errno = e; return 0; }
    result_out(r); cypher_parse_result_free(r); return 1;
}
static int do_each(void)
{
    struct cypher_input_position last; ncalls = 0;
    int r = stream ? cypher_fparse_each(stream, on_segment, NULL, &last, conf, flags) : cypher_uparse_each(in.p, in.n, on_segment, NULL, &last, conf, flags);
    int e = errno; release_kept(); errno = e;
    if (r < 0 && fired) return 0;
    bool i = inlib; inlib = false; bf(&out, "result %d", r); inlib = i; return 1;
}
static int do_quick(void)
{
    ncalls = 0; int r = stream ? cypher_quick_fparse(stream, on_quick, NULL, flags) : cypher_quick_uparse(in.p, in.n, on_quick, NULL, flags);
    if (r < 0 && fired) return 0;
    bool i = inlib; inlib = false; bf(&out, "result %d", r); inlib = i; return 1;
}
static int do_clone(void)
{
    cypher_astnode_t *c = cypher_ast_clone(tree);
    if (!c) return 0;
    tree_out(c); int e = errno; cypher_ast_free(c); errno = e; return 1;
}
static int do_print(void)
{
    rewind(dev);
    int r = cypher_ast_fprint(tree, dev, width, color ? cypher_parser_ansi_colorization : NULL, 0);
    int e = errno; inlib = false; long at = ftell(dev); fflush(dev); if (r >= 0) bput(&out, mbuf, at < 0 ? 0 : at); inlib = true; errno = e;
    return r < 0 ? 0 : 1;
}
static int do_config(void)
{
    cypher_parser_config_t *c = cypher_parser_new_config();
    if (!c) return 0;
    cypher_parser_config_free(c); return 1;
}
static cypher_ast_annotation_context_t *ctx; static int va, vb, vc; static int stage;
static int do_annotate(void)
{
    cypher_ast_annotation_context_t *x = cypher_ast_annotation_context();
    if (!x) return 0;
    void *old = &vc; int r = cypher_astnode_attach_annotation(x, tree, &va, &old), ok = 0, e = errno;
    if (r == 0)
    {
        CHECK(old == NULL && cypher_astnode_get_annotation(x, tree) == &va, "an attached annotation is not found");
        const cypher_astnode_t *t2 = cypher_astnode_nchildren(tree) ? cypher_astnode_get_child(tree, 0) : tree;
        r = cypher_astnode_attach_annotation(x, t2, &vb, &old); e = errno;
        if (r == 0) { CHECK(cypher_astnode_get_annotation(x, t2) == &vb, "an attached annotation is not found"); ok = 1; }
        else { CHECK(cypher_astnode_get_annotation(x, tree) == &va, "a failed attach lost another annotation"); CHECK(t2 == tree || cypher_astnode_get_annotation(x, t2) == NULL, "a failed attach attached"); }
    }
    else CHECK(cypher_astnode_get_annotation(x, tree) == NULL, "a failed attach attached");
    cypher_ast_annotation_context_free(x); errno = e; return ok;
}
static unsigned long faults, okays, nops;
static void faultall(const char *name, int (*f)(void), bool prefix)
{
    op = name;
    for (int s = 0; s < 2; s++)
    {
        bool streamed = s == 1;
        if (streamed && f != do_parse && f != do_each && f != do_quick) break;
        if (streamed && rnd(4)) break;
        B want = { 0 }; long total = 0;
        for (long k = 0; ; k++)                  /* k 0: no fault */
        {
            if (k > total) break;
            if (k > 0 && total > 150 && rnd((unsigned)total) > 150) continue;   /* a sample of a long operation's */
            if (streamed) stream = in.n ? fmemopen(in.p, in.n, "r") : fopen("/dev/null", "r"); else stream = NULL;
            if (stream) setvbuf(stream, NULL, _IONBF, 0);
            out.n = 0; bs(&out, ""); nkept = 0; live = 0; nalloc = 0; fired = false; countdown = k; errno = 0; inlib = true;
            int r = f(); int e = errno;
            inlib = false; nops++;
            if (stream) fclose(stream);
            if (k == 0)
            {
                CHECK(r == 1, "%s fails although no allocation does (errno %d)", name, e);
                CHECK(live == 0, "%s leaves %ld allocations behind, with no failure", name, live);
                total = nalloc; bput(&want, out.p, out.n); continue;
            }
            if (!fired) { CHECK(out.n == want.n && !memcmp(out.p, want.p, want.n), "%s behaves differently after a failed call", name); continue; }
            faults++;
            CHECK(live == 0, "%s with allocation %ld of %ld failing (%s): %ld allocations not released%s", name, k, total, r ? "completed" : "failure reported", live, live < 0 ? " (some released twice or not its own)" : "");
            if (r == 1) { okays++; CHECK(out.n == want.n && !memcmp(out.p, want.p, want.n), "%s with allocation %ld of %ld failing reports success with another outcome\n expected %.300s\n got %.300s", name, k, total, want.p, out.p); }
            else
            {
                CHECK(e != 0, "%s with allocation %ld of %ld failing: no error number set", name, k, total);
                if (prefix) CHECK(out.n <= want.n && !memcmp(out.p, want.p, out.n), "%s with allocation %ld of %ld failing delivered something else before", name, k, total);
            }
        }
        /* and afterwards all is as before */
        if (streamed) stream = in.n ? fmemopen(in.p, in.n, "r") : fopen("/dev/null", "r"); else stream = NULL;
        out.n = 0; bs(&out, ""); live = 0; countdown = 0; fired = false; inlib = true; int r = f(); inlib = false;
        if (stream) fclose(stream);
        CHECK(r == 1 && live == 0 && out.n == want.n && !memcmp(out.p, want.p, want.n), "%s behaves differently after failed calls", name);
        bfree(&want);
    }
    stream = NULL;
}
int main(int argc, char **argv)
{
    unsigned rounds = atoi(argv[1]); uint64_t sd = strtoull(argv[2], 0, 10);
    signal(SIGABRT, on_crash); signal(SIGALRM, on_crash);
    dev = open_memstream(&mbuf, &mlen);
    conf = cypher_parser_new_config();
    for (unsigned r = 0; r < rounds; r++)
    {
        seed(sd * 7919u + r); alarm(60);
        in.n = 0; bs(&in, "");
        if (r % 3 == 0) make_input(&in, 1 + rnd(4));
        else
        {
            ntk = 0; npend = 0; txt.n = 0; bs(&txt, ""); needws = plainws = false; npool = 0; spacing = rnd(4); D = 1 + rnd(2);
            litmode = rnd(4) == 0;
            do { if (rnd(5) == 0 && !litmode) command(); else statement(); } while (rnd(3) == 0);
            bput(&in, txt.p, txt.n > 4000 ? 4000 : txt.n);
            for (unsigned i = 0; i < npool; i++) free(pool[i]);
        }
        cur = in.p; curn = in.n;
        flags = (rnd(4) ? 0 : CYPHER_PARSE_ONLY_STATEMENTS) | (rnd(6) ? 0 : CYPHER_PARSE_SINGLE);
        color = rnd(2); width = rnd(3) ? 0 : 20 + rnd(80); cbat = 1 + rnd(4); cbret = (int)rnd(3) - 1;
        cypher_parser_config_set_error_colorization(conf, color ? cypher_parser_ansi_colorization : cypher_parser_no_colorization);
        faultall("parsing", do_parse, false); faultall("incremental parsing", do_each, true);
        faultall("quick parsing", do_quick, true);
        given = cypher_uparse(in.p, in.n, NULL, NULL, 0);
        if (!given) { perror("cypher_uparse"); return 3; }
        B before = { 0 };
        for (unsigned i = 0; i < cypher_parse_result_nroots(given); i++) dump(&before, cypher_parse_result_get_root(given, i));
        for (unsigned i = 0; i < cypher_parse_result_nroots(given) && i < 3; i++)
        {
            tree = cypher_parse_result_get_root(given, i);
            faultall("cloning", do_clone, false); faultall("printing", do_print, false); faultall("annotating", do_annotate, false);
        }
        B after = { 0 };
        for (unsigned i = 0; i < cypher_parse_result_nroots(given); i++) dump(&after, cypher_parse_result_get_root(given, i));
        CHECK(before.n == after.n && !memcmp(before.p ? before.p : "", after.p ? after.p : "", after.n), "the tree given was changed by a failing call");
        bfree(&before); bfree(&after);
        cypher_parse_result_free(given);
        faultall("creating a configuration", do_config, false);
    }
    cypher_parser_config_free(conf);
    printf("%lu single allocation failures in %lu calls: reported, or (%lu) without effect; all memory released\n", faults, nops, okays);
    return 0;
}
