/* The lint tool (its main renamed) run on generated inputs and options, against
   what the library itself delivers for the same bytes.  argv: rounds seed */
#define _GNU_SOURCE
#include "gen.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
static int tty;
static int vf_isatty(int fd) { return (tty >> (fd == 2)) & 1; }
#include <unistd.h>
#define isatty vf_isatty
#define main lint_main
#include "../../linter/src/cypher-lint.c"
#undef main
#undef isatty
static B slurp(const char *f) { B b = { 0 }; bs(&b, ""); int fd = open(f, O_RDONLY); if (fd < 0) exit(3); char t[65536]; ssize_t n; while ((n = read(fd, t, sizeof t)) > 0) bput(&b, t, n); close(fd); return b; }
static void spit(const char *f, const B *b) { int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, b->p, b->n) != (ssize_t)b->n) exit(3); close(fd); }
static B eout, eerr; static unsigned nerr; static bool want_ast, want_stream, cout_, cerr_; static unsigned width; static int flags; static const char *iname;
static void err1(const cypher_parse_error_t *e)
{
    struct cypher_input_position p = cypher_parse_error_position(e);
    bf(&eerr, "%s:%u:%u: %s\n%s\n", iname ? iname : "<stdin>", p.line, p.column, cypher_parse_error_message(e), cypher_parse_error_context(e));
    for (size_t i = cypher_parse_error_context_offset(e); i > 0; i--) bs(&eerr, " ");
    bs(&eerr, "^\n"); nerr++;
}
static int seg(void *u, cypher_parse_segment_t *s)
{
    const cypher_parse_error_t *e;
    for (unsigned i = 0; (e = cypher_parse_segment_get_error(s, i)); i++) err1(e);
    if (want_ast && want_stream)
    {
        char *m = NULL; size_t n = 0; FILE *f = open_memstream(&m, &n);
        if (cypher_parse_segment_fprint_ast(s, f, width, cout_ ? cypher_parser_ansi_colorization : NULL, 0) < 0) exit(3);
        fclose(f); bput(&eout, m, n); free(m);
    }
    return 0;
}
static void expect(const B *in)
{
    cypher_parser_config_t *c = cypher_parser_new_config();
    if (cerr_) cypher_parser_config_set_error_colorization(c, cypher_parser_ansi_colorization);
    FILE *st = in->n ? fmemopen(in->p, in->n, "r") : fopen("/dev/null", "r");
    if (cypher_fparse_each(st, seg, NULL, NULL, c, flags)) exit(3);
    fclose(st);
    if (want_ast && !want_stream)
    {
        cypher_parse_result_t *r = cypher_uparse(in->p, in->n, NULL, c, flags);
        if (!r) exit(3);
        if (iname) bf(&eout, "%s:\n", iname);
        char *m = NULL; size_t n = 0; FILE *f = open_memstream(&m, &n);
        if (cypher_parse_result_fprint_ast(r, f, width, cout_ ? cypher_parser_ansi_colorization : NULL, 0) < 0) exit(3);
        fclose(f); bput(&eout, m, n); free(m); cypher_parse_result_free(r);
    }
    cypher_parser_config_free(c);
}
static B squeeze(const B *b) { B o = { 0 }; bs(&o, ""); for (size_t i = 0; i < b->n; i++) { if (b->p[i] == 27) { while (i < b->n && b->p[i] != 'm') i++; } else if (b->p[i] != ' ') bput(&o, b->p + i, 1); } return o; }
static int run(int argc, char **argv, B *o, B *e)
{
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) exit(3);
    if (p == 0)
    {
        signal(SIGABRT, SIG_DFL); alarm(20);
        int i = open("in", O_RDONLY), a = open("out", O_WRONLY | O_CREAT | O_TRUNC, 0600), b = open("err", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (i < 0 || a < 0 || b < 0) _exit(77);
        dup2(i, 0); dup2(a, 1); dup2(b, 2); optind = 1;
        int rc = lint_main(argc, argv); fflush(NULL); _exit(rc);
    }
    int st; waitpid(p, &st, 0); *o = slurp("out"); *e = slurp("err");
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void differ(const char *what, const B *exp, const B *got)
{
    if (exp->n == got->n && !memcmp(exp->p, got->p, exp->n)) return;
    size_t d = 0; while (d < exp->n && d < got->n && exp->p[d] == got->p[d]) d++;
    size_t f = d > 80 ? d - 80 : 0;
    bad("%s differs from offset %zu\n expected ...%.300s\n got      ...%.300s", what, d, exp->p + f, got->p + f);
}
int main(int argc, char **argv)
{
    unsigned rounds = atoi(argv[1]); uint64_t sd = strtoull(argv[2], 0, 10), errs = 0, ast = 0;
    signal(SIGABRT, on_crash); mkdir("dir", 0700);
    for (unsigned r = 0; r < rounds; r++)
    {
        seed(sd * 50021u + r);
        char *av[40]; int ac = 0; static char buf[40][64]; B cmd = { 0 }; bs(&cmd, "");
        av[ac++] = "/x/cypher-lint";
        tty = rnd(3) ? 0 : rnd(4); want_ast = false; want_stream = false; cout_ = tty & 1; cerr_ = (tty >> 1) & 1; width = 0; flags = 0;
        bool done = false; int erc = 0; nerr = 0;
        for (unsigned k = rnd(6); k > 0; k--)
        {
            static const char *const col[] = { "--colorize", "--colorise", "--colourise" }, *const noc[] = { "--no-colorize", "--no-colorise", "--no-colourise" };
            switch (rnd(10))
            {
            case 0: av[ac++] = "-1"; flags |= CYPHER_PARSE_SINGLE; break;
            case 1: case 2: case 3: av[ac++] = rnd(2) ? "-a" : "--ast"; want_ast = true; break;
            case 4: av[ac++] = (char *)col[rnd(3)]; cout_ = cerr_ = true; break;
            case 5: av[ac++] = (char *)noc[rnd(3)]; cout_ = cerr_ = false; break;
            case 6: av[ac++] = "--only-statements"; flags |= CYPHER_PARSE_ONLY_STATEMENTS; break;
            case 7: width = rnd(3) ? 20 + rnd(120) : rnd(10); if (rnd(2)) { sprintf(buf[ac], "--output-width=%u", width); av[ac] = buf[ac]; ac++; } else { av[ac++] = "--output-width"; sprintf(buf[ac], "%u", width); av[ac] = buf[ac]; ac++; } break;
            case 8: av[ac++] = "--stream"; want_stream = true; break;
            case 9: if (rnd(4) == 0) { unsigned w = rnd(3); av[ac++] = w == 0 ? (rnd(2) ? "-h" : "--help") : w == 1 ? "--version" : "--nosuch"; if (!done) { done = true; erc = w == 2 ? 1 : 0; if (w == 2) erc = 2; if (w == 1) erc = 3; } } break;
            }
        }
        B in[8] = { { 0 } }; unsigned nf = rnd(5), stdinuse = 0; B sin = { 0 }; bs(&sin, ""); bool sneed = false;
        if (rnd(2)) make_input(&sin, 1 + rnd(5));
        char kind[8]; eout.n = eerr.n = 0; bs(&eout, ""); bs(&eerr, ""); bool stop = false, failed = false; B tail = { 0 };
        for (unsigned i = 0; i < nf; i++)
        {
            kind[i] = rnd(8) == 0 ? 'n' : rnd(8) == 0 ? 'd' : rnd(6) == 0 && !stdinuse ? '-' : 'f';
            if (kind[i] == '-') stdinuse = 1;
            bs(&in[i], "");
            if (kind[i] == 'f')
            {
                if (rnd(3)) { for (unsigned k = rnd(5); k > 0; k--) { bs(&in[i], corpus[rnd(NCORPUS)]); bs(&in[i], rnd(4) ? ";\n" : "\n"); } }
                else if (rnd(6)) make_input(&in[i], 1 + rnd(5));
                sprintf(buf[ac], "f%u", i); spit(buf[ac], &in[i]);
            }
            else sprintf(buf[ac], kind[i] == 'n' ? "absent" : kind[i] == 'd' ? "dir" : "-");
            av[ac] = buf[ac]; ac++;
        }
        spit("in", &sin); av[ac] = NULL;
        for (int i = 1; i < ac; i++) bf(&cmd, "%s ", av[i]);
        bf(&cmd, "(tty %d) ", tty);
        if (nf) for (unsigned i = 0; i < nf; i++) { bf(&cmd, "\n  f%u: ", i); bput(&cmd, in[i].p, in[i].n); }
        bs(&cmd, "\n  stdin: "); bput(&cmd, sin.p, sin.n);
        cur = cmd.p; curn = cmd.n; (void)sneed; (void)tail;
        if (!want_ast) want_stream = true;
        if (!done)
        {
            if (nf == 0) { iname = NULL; expect(&sin); }
            for (unsigned i = 0; i < nf && !stop; i++)
            {
                if (kind[i] == 'f') { iname = buf[ac - nf + i]; expect(&in[i]); }
                else if (kind[i] == '-') { iname = "<stdin>"; expect(&sin); }
                else { stop = failed = true; if (kind[i] == 'n') bf(&eerr, "cypher-lint: absent: %s\n", strerror(ENOENT)); }
            }
        }
        B o, e; int rc = run(ac, av, &o, &e);
        if (done)
        {
            CHECK(rc == (erc == 2 ? EXIT_FAILURE : EXIT_SUCCESS), "exit status %d", rc);
            B *u = erc == 2 ? &e : &o;
            if (erc == 3) { B v = { 0 }; bf(&v, "cypher-lint: %s\nlibcypher-parser: %s\n", PACKAGE_VERSION, libcypher_parser_version()); differ("the version output", &v, &o); bfree(&v); }
            else CHECK(strstr(u->p, "usage: cypher-lint ") != NULL, "no usage information");
        }
        else
        {
            bool partial = failed && e.n > eerr.n;             /* a message about an unreadable input may follow */
            if (partial) { e.n = eerr.n; e.p[e.n] = 0; }
            differ("standard error", &eerr, &e); differ("standard output", &eout, &o);
            int want = failed || nerr ? EXIT_FAILURE : EXIT_SUCCESS;
            CHECK(rc == want, "exit status %d, expected %d (%u errors%s)", rc, want, nerr, failed ? ", an input could not be read" : "");
            errs += nerr; ast += eout.n;
            if (want_ast && !stop && nf <= 1 && width == 0 && nerr == 0 && rnd(4) == 0)
            {   /* streamed or not, the same trees */
                char *a2[44]; int n2 = 0; B o2, e2; eout.n = 0;
                for (int i = 0; i < ac - (int)nf; i++) if (strcmp(av[i], "--stream")) a2[n2++] = av[i];
                if (!want_stream) a2[n2++] = "--stream";
                for (int i = ac - (int)nf; i < ac; i++) a2[n2++] = av[i];
                a2[n2] = NULL; run(n2, a2, &o2, &e2);
                B x = squeeze(&o), y = squeeze(&o2); char *p = x.p, *q = y.p;
                char h[80]; sprintf(h, "%s:\n", nf ? (kind[0] == '-' ? "<stdin>" : av[ac - 1]) : "");
                if (nf) { if (!strncmp(p, h, strlen(h))) p += strlen(h); if (!strncmp(q, h, strlen(h))) q += strlen(h); }
                CHECK(!strcmp(p, q), "streaming shows other trees\n %.400s\n %.400s", p, q);
                bfree(&x); bfree(&y); bfree(&o2); bfree(&e2);
            }
        }
        bfree(&o); bfree(&e); bfree(&cmd); bfree(&sin); for (int i = 0; i < 8; i++) bfree(&in[i]);
    }
    printf("%u runs of the tool: %lu errors reported, %lu bytes of trees shown, as expected\n", rounds, errs, ast);
    return 0;
}
