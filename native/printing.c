/* Printed forests against an independently rendered text, at many widths, with
 * colors, and with write failures.  argv: rounds seed */
#define _GNU_SOURCE
#include "gen.h"
#include "astnode.h"
static struct cypher_parser_colorization tags = { .error = {"<E","E>"}, .error_token = {"<t","t>"}, .error_message = {"<m","m>"},
    .ast_ordinal = {"<o","o>"}, .ast_range = {"<r","r>"}, .ast_indent = {"<i","i>"}, .ast_type = {"<y","y>"}, .ast_desc = {"<d","d>"} };
static const struct cypher_parser_colorization none = { .error = {"",""}, .error_token = {"",""}, .error_message = {"",""},
    .ast_ordinal = {"",""}, .ast_range = {"",""}, .ast_indent = {"",""}, .ast_type = {"",""}, .ast_desc = {"",""} };
static unsigned digits(size_t v) { unsigned d = 1; while (v >= 10) { v /= 10; d++; } return d; }
struct cols { unsigned ord, start, end, name; };
static void measure(struct cols *c, const cypher_astnode_t *a, unsigned depth)
{
    if (digits(a->ordinal) + 1 > c->ord) c->ord = digits(a->ordinal) + 1;
    if (digits(a->range.start.offset) > c->start) c->start = digits(a->range.start.offset);
    if (digits(a->range.end.offset) > c->end) c->end = digits(a->range.end.offset);
    unsigned n = strlen(cypher_astnode_typestr(a->type)) + 2 * depth; if (n > c->name) c->name = n;
    for (unsigned i = 0; i < a->nchildren; i++) measure(c, a->children[i], depth + 1);
}
static void pad(B *b, unsigned n) { while (n--) bs(b, " "); }
static void render(B *b, const struct cols *c, const cypher_astnode_t *a, unsigned depth, unsigned width, const struct cypher_parser_colorization *z)
{
    char *d; size_t cap = 64; ssize_t len;
    for (d = malloc(cap); (len = cypher_astnode_detailstr(a, d, cap)) >= (ssize_t)cap; d = realloc(d, cap)) cap = len + 1;
    if (len < 0) bad("no description");
    char t[64]; const char *name = cypher_astnode_typestr(a->type);
    bs(b, z->ast_ordinal[0]); snprintf(t, sizeof t, "@%u", a->ordinal); pad(b, c->ord - strlen(t)); bs(b, t); bs(b, z->ast_ordinal[1]); bs(b, "  ");
    bs(b, z->ast_range[0]); snprintf(t, sizeof t, "%zu", a->range.start.offset); pad(b, c->start - strlen(t)); bs(b, t); bs(b, "..");
    snprintf(t, sizeof t, "%zu", a->range.end.offset); bs(b, t); pad(b, c->end - strlen(t)); bs(b, z->ast_range[1]); bs(b, "  ");
    bs(b, z->ast_indent[0]); for (unsigned i = 0; i < depth; i++) bs(b, "> "); bs(b, z->ast_indent[1]);
    bs(b, z->ast_type[0]); bs(b, name); bs(b, z->ast_type[1]);
    if (len > 0)
    {
        pad(b, c->name - 2 * depth - strlen(name) + 2); bs(b, z->ast_desc[0]);
        B e = {0}; bs(&e, "");
        for (ssize_t i = 0; i < len; i++)
        {
            const char *p = d[i] ? strchr("\aa\bb\ff\nn\rr\tt\vv", d[i]) : NULL;
            if (d[i] == 0) continue;
            if (p && d[i] < 32) { bs(&e, "\\"); bput(&e, p + 1, 1); } else bput(&e, d + i, 1);
        }
        unsigned off = c->ord + 2 + c->start + 2 + c->end + 2 + c->name + 2, w = off < width ? width - off : 10;
        if (width == 0) bput(b, e.p, e.n);
        else
        {
            /* the last character is not split from what precedes it in its escape */
            size_t last = e.n - ((d[len-1] < 32 && d[len-1] > 6 && d[len-1] < 14) ? 2 : 1);
            for (size_t k = 0; k < e.n; ) { if (k) { bs(b, "\n"); pad(b, off); } size_t m = e.n - k < w || k + w > last ? e.n - k : w; bput(b, e.p + k, m); k += m; }
        }
        bs(b, "\n"); bs(b, z->ast_desc[1]); bfree(&e);
    }
    else bs(b, "\n");
    free(d);
    for (unsigned i = 0; i < a->nchildren; i++) render(b, c, a->children[i], depth + 1, width, z);
}
struct sink { B b; size_t limit; };
static ssize_t sink_write(void *u, const char *buf, size_t n)
{
    struct sink *k = u; size_t room = k->limit - k->b.n;
    if (n > room) n = room;
    if (n == 0) { errno = ENOSPC; return 0; }
    bput(&k->b, buf, n); return n;
}
struct job { int kind; const void *x; const cypher_astnode_t *const *v; unsigned n; };
static int print(const struct job *j, FILE *f, unsigned width, const struct cypher_parser_colorization *z)
{
    switch (j->kind)
    {
    case 0: return cypher_parse_result_fprint_ast(j->x, f, width, z, 0);
    case 1: return cypher_parse_segment_fprint_ast(j->x, f, width, z, 0);
    default: return cypher_ast_fprint(j->v[0], f, width, z, 0);
    }
}
static unsigned long printed;
static void check(const struct job *j)
{
    struct cols c = { 2, 1, 1, 0 };
    for (unsigned i = 0; i < j->n; i++) measure(&c, j->v[i], 0);
    unsigned off = c.ord + c.start + c.end + c.name + 8;
    for (unsigned t = 0; t < 3; t++)
    {
        unsigned width = t == 0 ? 0 : (rnd(2) ? off + rnd(12) : rnd(160));
        const struct cypher_parser_colorization *z = rnd(2) ? &tags : &none;
        B want = {0}; bs(&want, "");
        for (unsigned i = 0; i < j->n; i++) render(&want, &c, j->v[i], 0, width, z);
        struct sink k = { {0}, (size_t)-1 }; cookie_io_functions_t io = { .write = sink_write };
        FILE *f = fopencookie(&k, "w", io); setvbuf(f, NULL, _IONBF, 0); bs(&k.b, "");
        int r = print(j, f, width, z == &none && rnd(2) ? NULL : z); fclose(f);
        CHECK(r == 0, "printing returned %d", r);
        if (k.b.n != want.n || memcmp(k.b.p, want.p, want.n))
        {
            size_t i = 0; while (i < want.n && i < k.b.n && want.p[i] == k.b.p[i]) i++;
            bad("printing at width %u differs from byte %zu:\n-- expected\n%.*s\n-- printed\n%.*s", width, i, (int)(want.n < 4000 ? want.n : 4000), want.p, (int)(k.b.n < 4000 ? k.b.n : 4000), k.b.p);
        }
        printed++;
        for (unsigned q = 0; q < 4 && want.n; q++)
        {
            struct sink s = { {0}, rnd(want.n) }; if (q == 0) s.limit = want.n - 1; bs(&s.b, "");
            f = fopencookie(&s, "w", io); setvbuf(f, NULL, _IONBF, 0);
            r = print(j, f, width, z); fclose(f);
            CHECK(r < 0, "writing failed after %zu of %zu bytes but printing returned %d", s.limit, want.n, r);
            CHECK(memcmp(s.b.p, want.p, s.b.n) == 0 && s.b.n <= s.limit, "other text before a write failure");
            bfree(&s.b);
        }
        bfree(&want); bfree(&k.b);
    }
}
static int each(void *u, cypher_parse_segment_t *s)
{
    const cypher_astnode_t *v[256]; unsigned n = cypher_parse_segment_nroots(s);
    if (n > 256) return 0;
    for (unsigned i = 0; i < n; i++) v[i] = cypher_parse_segment_get_root(s, i);
    struct job j = { 1, s, v, n }; check(&j);
    if (n) { const cypher_astnode_t *a = v[rnd(n)]; while (rnd(2) && a->nchildren) a = a->children[rnd(a->nchildren)]; struct job q = { 2, NULL, &a, 1 }; check(&q); }
    return 0;
}
int main(int argc, char **argv)
{
    unsigned rounds = atoi(argv[1]); uint64_t sd = strtoull(argv[2], 0, 10);
    signal(SIGABRT, on_crash); signal(SIGALRM, on_crash);
    for (unsigned i = 0; i < rounds; i++)
    {
        seed(sd * 15485863u + i); alarm(60);
        B in = {0}; make_input(&in, i % 25 == 24 ? 20 : 3);
        if (rnd(3) == 0) { bs(&in, " RETURN '"); for (unsigned k = rnd(i % 7 == 0 ? 3000 : 120); k > 0; k--) { char ch = "ab\n\t\a\v\f\b\r \\\\x.'y"[rnd(16)]; if (ch == '\\' || ch == '\'') bs(&in, "\\\\"); else bput(&in, &ch, 1); } bs(&in, "';"); }
        cur = in.p; curn = in.n;
        cypher_parser_config_t *c = cypher_parser_new_config(); static const unsigned ps[] = { 0, 1, 9, 10, 11, 98, 99, 100, 990, 999, 1000, 99990, 100000, 999999990 };
        cypher_parser_config_set_initial_ordinal(c, ps[rnd(14)]);
        struct cypher_input_position p = { 1, 1, ps[rnd(14)] }; cypher_parser_config_set_initial_position(c, p);
        if (cypher_uparse_each(in.p, in.n, each, NULL, NULL, c, 0)) bad("parse failed");
        cypher_parse_result_t *r = cypher_uparse(in.p, in.n, NULL, c, 0); if (!r) bad("parse failed");
        unsigned n = cypher_parse_result_nroots(r); const cypher_astnode_t **v = malloc((n + 1) * sizeof *v);
        for (unsigned k = 0; k < n; k++) v[k] = cypher_parse_result_get_root(r, k);
        struct job j = { 0, r, v, n }; check(&j);
        free(v); cypher_parse_result_free(r); cypher_parser_config_free(c); bfree(&in);
    }
    printf("%u generated inputs, %lu printed forests: nothing found\n", rounds, printed);
    return 0;
}
