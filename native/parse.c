/* Runs the real parsers over generated inputs and checks the whole-input
 * guarantees against independent computations.  argv: mode rounds seed */
#define _GNU_SOURCE
#include "gen.h"
#include "cypher-parser.h"
unsigned int cypher_ast_depth(const cypher_astnode_t *ast); /* internal */
static unsigned mode_is(const char *m, const char *x) { return strcmp(m, x) == 0; }

/* ---------------------------------------------------------------- dumping */
static void dump_pos(B *b, struct cypher_input_position p) { bf(b, "%u:%u:%zu", p.line, p.column, p.offset); }
static void dump_range(B *b, struct cypher_input_range r) { dump_pos(b, r.start); bs(b, "-"); dump_pos(b, r.end); }
static void dump_node(B *b, const cypher_astnode_t *n)
{
    bf(b, "(%d ", cypher_astnode_type(n)); dump_range(b, cypher_astnode_range(n));
    for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) dump_node(b, cypher_astnode_get_child(n, i));
    bs(b, ")");
}
/* the context shows as much of the line as has been read, which a stream limits */
static bool dump_context = true;
static void dump_error(B *b, const cypher_parse_error_t *e)
{
    bs(b, "E "); dump_pos(b, cypher_parse_error_position(e));
    bf(b, " <%s>", cypher_parse_error_message(e));
    if (dump_context) bf(b, " <%s> %zu", cypher_parse_error_context(e), cypher_parse_error_context_offset(e));
    bs(b, "\n");
}
static void dump_ast(B *b, const cypher_parse_segment_t *s)
{
    char *t = NULL; size_t n = 0; FILE *f = open_memstream(&t, &n);
    if (cypher_parse_segment_fprint_ast(s, f, 0, NULL, 0) < 0) bad("printing failed");
    fclose(f); bput(b, t, n); free(t);
}
static void dump_segment(B *b, const cypher_parse_segment_t *s)
{
    bs(b, "S "); dump_range(b, cypher_parse_segment_get_range(s));
    const cypher_astnode_t *d = cypher_parse_segment_get_directive(s);
    int di = -1;
    for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) if (cypher_parse_segment_get_root(s, i) == d && d) di = i;
    if (d != NULL && di < 0) bad("the directive of a segment is not among its roots");
    bf(b, " eof=%d n=%u d=%d\n", cypher_parse_segment_is_eof(s), cypher_parse_segment_nnodes(s), di);
    for (unsigned i = 0; i < cypher_parse_segment_nerrors(s); i++) dump_error(b, cypher_parse_segment_get_error(s, i));
    for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) { dump_node(b, cypher_parse_segment_get_root(s, i)); bs(b, "\n"); }
    dump_ast(b, s);
}
struct dumper { B b; unsigned nseg; };
static int dump_cb(void *u, cypher_parse_segment_t *s) { struct dumper *d = u; d->nseg++; dump_segment(&d->b, s); return 0; }
static int quick_cb(void *u, const cypher_quick_parse_segment_t *s)
{
    struct dumper *d = u; size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n);
    d->nseg++;
    bf(&d->b, "Q %d%d eof=%d %zu ", cypher_quick_parse_segment_is_statement(s), cypher_quick_parse_segment_is_command(s), cypher_quick_parse_segment_is_eof(s), n);
    dump_range(&d->b, cypher_quick_parse_segment_get_range(s)); bs(&d->b, " "); dump_pos(&d->b, cypher_quick_parse_segment_get_next(s)); bs(&d->b, " ");
    bput(&d->b, t, n); bs(&d->b, "\n");
    return 0;
}

/* ---------------------------------------------------------------- sources */
struct chunked { const char *s; size_t n, pos; unsigned max; };
static ssize_t chunk_read(void *c, char *buf, size_t size)
{
    struct chunked *k = c; size_t n = k->n - k->pos;
    if (n > size) n = size;
    if (k->max && n > k->max) n = 1 + rnd(k->max);
    memcpy(buf, k->s + k->pos, n); k->pos += n; return n;
}
static FILE *chunk_open(struct chunked *k)
{
    cookie_io_functions_t io = { .read = chunk_read };
    FILE *f = fopencookie(k, "r", io);
    if (f == NULL) exit(3);
    return f;
}
static void differ(const char *what, B *a, B *b)
{
    size_t i = 0; while (i < a->n && i < b->n && a->p[i] == b->p[i]) i++;
    size_t s = i > 60 ? i - 60 : 0;
    printf("first difference at %zu:\n  %.*s\n  %.*s\n", i, (int)(a->n - s > 160 ? 160 : a->n - s), a->p ? a->p + s : "", (int)(b->n - s > 160 ? 160 : b->n - s), b->p ? b->p + s : "");
    bad("%s", what);
}
static cypher_parser_config_t *random_config(struct cypher_input_position *ip, unsigned *ord)
{
    cypher_parser_config_t *c = cypher_parser_new_config();
    if (c == NULL) exit(3);
    *ip = cypher_input_position_zero; *ord = 0;
    if (rnd(2)) { ip->line = 1 + rnd(50); ip->column = 1 + rnd(50); ip->offset = rnd(1000); cypher_parser_config_set_initial_position(c, *ip); }
    if (rnd(2)) { *ord = rnd(100); cypher_parser_config_set_initial_ordinal(c, *ord); }
    return c;
}
static uint_fast32_t random_flags(void) { return (rnd(4) == 0 ? CYPHER_PARSE_SINGLE : 0) | (rnd(4) == 0 ? CYPHER_PARSE_ONLY_STATEMENTS : 0); }

static void m_source(unsigned round)
{
    dump_context = false;
    B in = {0};
    if (round % 10 == 9) { for (unsigned i = 20 + rnd(60); i > 0; i--) make_input(&in, 4); } else make_input(&in, 3);
    /* exactly sized, no terminator: reading beyond it is detected */
    char *exact = malloc(in.n ? in.n : 1); memcpy(exact, in.p, in.n);
    cur = exact; curn = in.n;
    struct cypher_input_position ip; unsigned ord; cypher_parser_config_t *c = random_config(&ip, &ord);
    uint_fast32_t fl = random_flags();
    struct cypher_input_position l1 = {7,7,7}, l2 = {7,7,7};
    struct dumper a = {{0}}, b = {{0}};
    bs(&a.b, ""); bs(&b.b, "");
    int r1 = cypher_uparse_each(exact, in.n, dump_cb, &a, &l1, c, fl);
    struct chunked k = { exact, in.n, 0, rnd(3) ? 1 + rnd(40) : 0 };
    FILE *f = chunk_open(&k);
    int r2 = cypher_fparse_each(f, dump_cb, &b, &l2, c, fl);
    fclose(f);
    CHECK(r1 == r2, "buffer returned %d, stream %d", r1, r2);
    if (a.b.n != b.b.n || memcmp(a.b.p, b.b.p, a.b.n)) differ("buffer and stream parse differently", &a.b, &b.b);
    CHECK(l1.offset == l2.offset && l1.line == l2.line && l1.column == l2.column, "last positions differ");
    /* whole parses */
    cypher_parse_result_t *x = cypher_uparse(exact, in.n, NULL, c, fl);
    k.pos = 0; f = chunk_open(&k); cypher_parse_result_t *y = cypher_fparse(f, NULL, c, fl); fclose(f);
    CHECK(x && y, "no result");
    char *t1 = 0, *t2 = 0; size_t n1, n2; FILE *m = open_memstream(&t1, &n1); cypher_parse_result_fprint_ast(x, m, 0, NULL, 0); fclose(m);
    m = open_memstream(&t2, &n2); cypher_parse_result_fprint_ast(y, m, 0, NULL, 0); fclose(m);
    CHECK(n1 == n2 && memcmp(t1, t2, n1) == 0 && cypher_parse_result_eof(x) == cypher_parse_result_eof(y) && cypher_parse_result_nerrors(x) == cypher_parse_result_nerrors(y), "whole parses of buffer and stream differ");
    free(t1); free(t2); cypher_parse_result_free(x); cypher_parse_result_free(y);
    /* as a string, if it is one */
    if (memchr(exact, 0, in.n) == NULL)
    {
        struct dumper s = {{0}}; bs(&s.b, "");
        int r3 = cypher_parse_each(in.p, dump_cb, &s, &l2, c, fl);
        if (r3 != r1 || s.b.n != a.b.n || memcmp(s.b.p, a.b.p, a.b.n)) differ("string and buffer parse differently", &a.b, &s.b);
        bfree(&s.b);
    }
    /* quick parser */
    struct dumper q1 = {{0}}, q2 = {{0}}; bs(&q1.b, ""); bs(&q2.b, "");
    r1 = cypher_quick_uparse(exact, in.n, quick_cb, &q1, fl);
    k.pos = 0; f = chunk_open(&k); r2 = cypher_quick_fparse(f, quick_cb, &q2, fl); fclose(f);
    CHECK(r1 == r2, "quick: buffer returned %d, stream %d", r1, r2);
    if (q1.b.n != q2.b.n || memcmp(q1.b.p, q2.b.p, q1.b.n)) differ("quick: buffer and stream parse differently", &q1.b, &q2.b);
    bfree(&q1.b); bfree(&q2.b); bfree(&a.b); bfree(&b.b);
    cypher_parser_config_free(c); free(exact); bfree(&in);
    /* every byte value, whole, in order: comments carry arbitrary bytes */
    B big = {0};
    size_t total = rnd(4) ? rnd(600) : 900 + rnd(9000), start[64], len[64]; unsigned nc = 0;
    while (big.n < total && nc < 64)
    {
        bs(&big, "/*"); start[nc] = big.n; len[nc] = rnd(2) ? rnd(200) : rnd(2500);
        for (size_t i = 0; i < len[nc]; i++) { char ch = (char)rnd(256); if (ch == '*' || ch == '/') ch = 'x'; if (rnd(20) == 0) ch = 0; bput(&big, &ch, 1); }
        bs(&big, "*/ "); nc++;
    }
    cur = big.p; curn = big.n;
    bs(&big, ""); 
    for (int src = 0; src < 2; src++)
    {
        struct chunked kk = { big.p, big.n, 0, 1 + rnd(2000) };
        FILE *ff = src ? chunk_open(&kk) : NULL;
        cypher_parse_result_t *r = src ? cypher_fparse(ff, NULL, NULL, 0) : cypher_uparse(big.p, big.n, NULL, NULL, 0);
        CHECK(r != NULL, "no result");
        CHECK(cypher_parse_result_nroots(r) == nc && cypher_parse_result_nerrors(r) == 0, "%u comments gave %u roots and %u errors", nc, cypher_parse_result_nroots(r), cypher_parse_result_nerrors(r));
        for (unsigned i = 0; i < nc; i++)
        {
            const cypher_astnode_t *n = cypher_parse_result_get_root(r, i);
            struct cypher_input_range g = cypher_astnode_range(n);
            CHECK(g.start.offset == start[i] && g.end.offset == start[i] + len[i], "comment %u lies at %zu..%zu, reported %zu..%zu", i, start[i], start[i] + len[i], g.start.offset, g.end.offset);
            const char *v = cypher_ast_block_comment_get_value(n);
            size_t m2 = strnlen(big.p + start[i], len[i]);
            CHECK(strlen(v) == m2 && memcmp(v, big.p + start[i], m2) == 0, "bytes of comment %u changed", i);
        }
        cypher_parse_result_free(r); if (ff) fclose(ff);
    }
    bfree(&big);
    cur = NULL;
}

/* ---------------------------------------------- whole-input invariants */
struct seg { cypher_parse_segment_t *s; };
struct run { struct seg *v; unsigned n; int script[64]; unsigned calls; B snap; };
static int keep_cb(void *u, cypher_parse_segment_t *s)
{
    struct run *r = u;
    cypher_parse_segment_retain(s);
    r->v = realloc(r->v, (r->n + 1) * sizeof(*r->v)); r->v[r->n++].s = s;
    dump_segment(&r->snap, s);
    int v = (r->calls < 64) ? r->script[r->calls] : 0;
    r->calls++;
    return v;
}
static struct cypher_input_position ref_pos(struct cypher_input_position ip, const char *s, size_t off)
{
    struct cypher_input_position p = ip;
    size_t ls = 0; unsigned lines = 0;
    for (size_t i = 0; i < off; i++) if (s[i] == '\n') { lines++; ls = i + 1; }
    p.line = ip.line + lines; p.offset = ip.offset + off; p.column = lines ? off - ls + 1 : ip.column + off;
    return p;
}
static void chk_pos(struct cypher_input_position ip, const char *s, size_t n, struct cypher_input_position p, const char *what)
{
    CHECK(p.offset >= ip.offset && p.offset - ip.offset <= n, "%s: offset %zu outside the input", what, p.offset);
    struct cypher_input_position q = ref_pos(ip, s, p.offset - ip.offset);
    CHECK(q.line == p.line && q.column == p.column, "%s at offset %zu is at %u:%u, reported %u:%u", what, p.offset, q.line, q.column, p.line, p.column);
}
static void chk_node(struct cypher_input_position ip, const char *s, size_t n, const cypher_astnode_t *a, const cypher_astnode_t *parent)
{
    struct cypher_input_range r = cypher_astnode_range(a);
    const char *ty = cypher_astnode_typestr(cypher_astnode_type(a));
    chk_pos(ip, s, n, r.start, ty); chk_pos(ip, s, n, r.end, ty);
    CHECK(r.start.offset <= r.end.offset, "%s ends before it starts", ty);
    if (parent)
    {
        struct cypher_input_range q = cypher_astnode_range(parent);
        CHECK(q.start.offset <= r.start.offset && r.end.offset <= q.end.offset, "%s lies outside its parent %s", ty, cypher_astnode_typestr(cypher_astnode_type(parent)));
    }
    /* names and literals lie where they are said to lie */
    const char *t = s + (r.start.offset - ip.offset); size_t l = r.end.offset - r.start.offset;
    cypher_astnode_type_t k = cypher_astnode_type(a);
    if (k == CYPHER_AST_INTEGER) { const char *v = cypher_ast_integer_get_valuestr(a); CHECK(strlen(v) == l && !memcmp(v, t, l), "integer is not at its range"); }
    if (k == CYPHER_AST_FLOAT) { const char *v = cypher_ast_float_get_valuestr(a); CHECK(strlen(v) == l && !memcmp(v, t, l), "float is not at its range"); }
    if (k == CYPHER_AST_TRUE) CHECK(l == 4 && !strncasecmp(t, "true", 4), "true is not at its range");
    if (k == CYPHER_AST_NULL) CHECK(l == 4 && !strncasecmp(t, "null", 4), "null is not at its range");
    if (k == CYPHER_AST_LABEL) { CHECK(t[0] == ':', "label does not start at its colon"); const char *v = cypher_ast_label_get_name(a);
        if (l > 1 && t[l-1] != '`' && !memchr(t, 0, l)) { size_t m = strlen(v); CHECK(m < l && !memcmp(t + l - m, v, m), "label does not end at its name"); } }
    if (k == CYPHER_AST_LINE_COMMENT) { CHECK(t[-1] == '/' && t[-2] == '/' , "line comment does not start after //"); CHECK(t + l == s + n || t[l] == '\n' || t[l] == '\r', "line comment does not end with its line"); }
    if (k == CYPHER_AST_BLOCK_COMMENT) { CHECK(t[-1] == '*' && t[-2] == '/', "block comment does not start after /*"); CHECK(t[l] == '*' && t[l+1] == '/', "block comment does not end at */"); }
    if (k == CYPHER_AST_STRING && l > 0 && cypher_astnode_type(parent ? parent : a) != CYPHER_AST_COMMAND && (t[0] == '\'' || t[0] == '"') && parent && cypher_astnode_type(parent) != CYPHER_AST_CYPHER_OPTION_PARAM && cypher_astnode_type(parent) != CYPHER_AST_CYPHER_OPTION)
        CHECK(l >= 2 && t[l-1] == t[0], "string does not end at its quote");
    for (unsigned i = 0; i < cypher_astnode_nchildren(a); i++) chk_node(ip, s, n, cypher_astnode_get_child(a, i), a);
}
static unsigned ref_count(const cypher_astnode_t *a) { unsigned c = 1; for (unsigned i = 0; i < cypher_astnode_nchildren(a); i++) c += ref_count(cypher_astnode_get_child(a, i)); return c; }
static unsigned ref_depth(const cypher_astnode_t *a) { unsigned c = 0; for (unsigned i = 0; i < cypher_astnode_nchildren(a); i++) { unsigned d = ref_depth(cypher_astnode_get_child(a, i)); if (d > c) c = d; } return c + 1; }
/* the ordinals printed must be next, next+1, ... ; returns the number of lines */
static unsigned chk_ordinals(const char *text, unsigned next)
{
    unsigned k = 0;
    for (const char *l = text; *l; k++)
    {
        while (*l == ' ') l++;
        CHECK(*l == '@', "a printed line does not start with an ordinal: %.60s", l);
        unsigned o = strtoul(l + 1, NULL, 10);
        CHECK(o == next + k, "node %u of the segment has ordinal %u, expected %u", k, o, next + k);
        l = strchr(l, '\n'); if (!l) break; l++;
    }
    return k;
}
/* reference: the context of an error */
static void chk_context(const char *s, size_t n, size_t base, size_t limit, const cypher_parse_error_t *e, struct cypher_input_position ip)
{
    const char *c = cypher_parse_error_context(e); size_t co = cypher_parse_error_context_offset(e);
    CHECK(c != NULL, "an error has no context");
    size_t off = cypher_parse_error_position(e).offset - ip.offset, cl = strlen(c);
    CHECK(cl <= 80, "context of %zu bytes", cl);
    CHECK(strchr(c, '\n') == NULL && strchr(c, '\r') == NULL, "context has a line terminator");
    if (off < n && s[off] != '\n' && s[off] != '\r' && s[off] != 0)
    {
        size_t a = off, z = off;
        while (a > base && s[a-1] != '\n' && s[a-1] != '\r') a--;
        while (z < n && s[z] != '\n' && s[z] != '\r') z++;
        if (memchr(s + a, 0, z - a)) return;
        CHECK(co < cl, "context offset %zu beyond context of %zu bytes", co, cl);
        CHECK(co <= off, "context offset");
        size_t w = off - co;       /* where the section begins */
        CHECK(w >= a && w + cl <= z, "context leaves the line of the error: <%s> offset %zu", c, co);
        /* it ends where the line ends, where the text read so far ends, or is a full window */
        bool full = cl == 80, cs = w > a;
        CHECK(full || (!cs && (w + cl == z || w + cl >= limit)), "the context lacks a part of the line: <%s> offset %zu", c, co);
        for (size_t i = 0; i < cl; i++)
        {
            bool dots = (cs && i < 3), maydots = full && w + cl < z && i >= cl - 3;
            CHECK((dots || (maydots && c[cl-1] == '.' && c[cl-2] == '.' && c[cl-3] == '.')) ? c[i] == '.' : c[i] == s[w + i], "context is not the text of the line: <%s> offset %zu", c, co);
            if (maydots && limit > w + cl) CHECK(c[i] == '.', "the cut end of the context is not marked: <%s>", c);
        }
    }
}
/* reference form of a message */
static void chk_message(const char *s, size_t n, const cypher_parse_error_t *e, struct cypher_input_position ip)
{
    const char *m = cypher_parse_error_message(e); size_t off = cypher_parse_error_position(e).offset - ip.offset;
    char want[64]; const char *d = NULL; char one[4];
    if (off >= n || s[off] == 0) d = "at end of input";
    else switch (s[off])
    {
    case '\a': d = "'\\a'"; break; case '\b': d = "'\\b'"; break; case '\f': d = "'\\f'"; break; case '\n': d = "'\\n'"; break;
    case '\r': d = "'\\r'"; break; case '\t': d = "'\\t'"; break; case '\v': d = "'\\v'"; break; case '\'': d = "'\\''"; break;
    default: one[0] = '\''; one[1] = s[off]; one[2] = '\''; one[3] = 0; d = one; break;
    }
    snprintf(want, sizeof want, "Invalid input %s: expected ", d);
    CHECK(strncmp(m, want, strlen(want)) == 0, "message <%s> does not begin with <%s>", m, want);
    /* labels: a, b, c or d -- each once */
    const char *p = m + strlen(want); char *lab[300]; unsigned nl = 0; bool last = false;
    while (*p)
    {
        const char *q;
        if (*p == '\'' && (p[1] == 0 || !strncmp(p + 1, ", ", 2) || !strncmp(p + 1, " or ", 4))) q = p + 1;
        else if (*p == '\'') { q = strchr(p + 1, '\''); if (q && q[1] == '\'') q++; CHECK(q != NULL, "message <%s>", m); q++; }
        else { q = p; while (*q && *q != ',' && strncmp(q, " or ", 4)) q++; }
        CHECK(q > p && nl < 299, "empty expectation in <%s>", m);
        lab[nl++] = strndup(p, q - p);
        CHECK(!last || *q == 0, "something follows the last expectation in <%s>", m);
        if (*q == ',') { CHECK(q[1] == ' ', "message <%s>", m); p = q + 2; CHECK(*p, "message <%s> ends early", m); }
        else if (!strncmp(q, " or ", 4)) { p = q + 4; last = true; CHECK(*p, "message <%s> ends early", m); }
        else { CHECK(*q == 0, "message <%s>", m); p = q; }
    }
    CHECK(nl == 1 || last, "message <%s> lacks a final or", m);
    for (unsigned i = 0; i < nl; i++) for (unsigned j = 0; j < i; j++) CHECK(strcmp(lab[i], lab[j]), "<%s> is named twice in <%s>", lab[i], m);
    for (unsigned i = 0; i < nl; i++) free(lab[i]);
}
static void free_run(struct run *r) { for (unsigned i = 0; i < r->n; i++) cypher_parse_segment_release(r->v[i].s); free(r->v); bfree(&r->snap); memset(r, 0, sizeof(*r)); }

static void m_whole(const char *m, unsigned round)
{
    B in = {0};
    make_input(&in, round % 20 == 19 ? 40 : 4);
    cur = in.p; curn = in.n;
    struct cypher_input_position ip; unsigned ord; cypher_parser_config_t *c = random_config(&ip, &ord);
    uint_fast32_t only = rnd(5) == 0 ? CYPHER_PARSE_ONLY_STATEMENTS : 0;
    struct run r = {0}; bs(&r.snap, "");
    struct cypher_input_position last = {0, 0, 0};
    int rc = cypher_uparse_each(in.p, in.n, keep_cb, &r, &last, c, only);
    CHECK(rc == 0, "parse returned %d", rc);
    if (mode_is(m, "positions"))
    {
        for (unsigned i = 0; i < r.n; i++)
        {
            const cypher_parse_segment_t *s = r.v[i].s; struct cypher_input_range g = cypher_parse_segment_get_range(s);
            chk_pos(ip, in.p, in.n, g.start, "segment start"); chk_pos(ip, in.p, in.n, g.end, "segment end");
            for (unsigned k = 0; k < cypher_parse_segment_nerrors(s); k++) chk_pos(ip, in.p, in.n, cypher_parse_error_position(cypher_parse_segment_get_error(s, k)), "error");
            size_t prev = g.start.offset;
            for (unsigned k = 0; k < cypher_parse_segment_nroots(s); k++)
            {
                const cypher_astnode_t *a = cypher_parse_segment_get_root(s, k); struct cypher_input_range q = cypher_astnode_range(a);
                CHECK(q.start.offset >= prev && q.end.offset <= g.end.offset, "root %u lies outside its segment or before its predecessor", k);
                prev = q.start.offset;
                chk_node(ip, in.p, in.n, a, NULL);
            }
        }
        if (r.n) chk_pos(ip, in.p, in.n, last, "last position");
    }
    if (mode_is(m, "segments"))
    {
        size_t at = ip.offset; struct cypher_input_position e = ip;
        for (unsigned i = 0; i < r.n; i++)
        {
            const cypher_parse_segment_t *s = r.v[i].s; struct cypher_input_range g = cypher_parse_segment_get_range(s);
            CHECK(g.start.offset == e.offset && g.start.line == e.line && g.start.column == e.column, "segment %u does not start where its predecessor ended", i);
            CHECK(g.end.offset > g.start.offset, "segment %u is empty", i);
            CHECK(!cypher_parse_segment_is_eof(s) || i + 1 == r.n, "segment %u of %u is flagged as the last", i, r.n);
            CHECK(!cypher_parse_segment_is_eof(s) || g.end.offset == ip.offset + in.n, "flagged as the end of input before the end");
            if (i + 1 == r.n && in.n > 0 && in.p[in.n-1] != ';' && in.p[in.n-1] != '\n') CHECK(cypher_parse_segment_is_eof(s), "the end of input ended the last segment but it is not flagged");
            if (i + 1 == r.n && in.p[in.n-1] == ';')
            {
                const char *t = in.p + (g.start.offset - ip.offset); size_t l = g.end.offset - g.start.offset; bool plain = true;
                for (size_t k = 0; k < l; k++) if (strchr("'\"`/\\", t[k])) plain = false;
                if (plain) CHECK(!cypher_parse_segment_is_eof(s), "a segment ended by a semicolon is flagged as the end of input");
            }
            e = g.end; at = g.end.offset;
        }
        CHECK(at - ip.offset == in.n, "segments cover %zu of %zu bytes", at - ip.offset, in.n);
        if (r.n) CHECK(last.offset == e.offset && last.line == e.line && last.column == e.column, "last position is not the end of the last segment");
        /* under a scripted callback */
        struct run q = {0}; bs(&q.snap, "");
        unsigned stop = rnd(r.n + 2); int v = rnd(2) ? 1 + (int)rnd(5) : -1 - (int)rnd(5);
        if (stop < 64) q.script[stop] = v;
        struct cypher_input_position l2 = {0, 0, 0};
        rc = cypher_uparse_each(in.p, in.n, keep_cb, &q, &l2, c, only);
        bool hit = stop < r.n && stop < 64;
        CHECK(q.n == (hit ? stop + 1 : r.n), "callback returned %d for segment %u of %u, %u segments were delivered", v, stop, r.n, q.n);
        CHECK(rc == ((hit && v < 0) ? v : 0), "callback returned %d, the parse %d", v, rc);
        CHECK(memcmp(q.snap.p, r.snap.p, q.snap.n) == 0, "segments differ between runs");
        if (q.n) { struct cypher_input_position z = cypher_parse_segment_get_range(q.v[q.n-1].s).end; CHECK(l2.offset == z.offset && l2.line == z.line && l2.column == z.column, "last position is not the end of the last segment delivered"); }
        free_run(&q);
        /* one only */
        bs(&q.snap, "");
        l2.offset = 0;
        rc = cypher_uparse_each(in.p, in.n, keep_cb, &q, &l2, c, only | CYPHER_PARSE_SINGLE);
        CHECK(rc == 0 && q.n == (r.n ? 1 : 0) && memcmp(q.snap.p, r.snap.p, q.snap.n) == 0, "asked for one segment, %u delivered", q.n);
        if (q.n) CHECK(l2.offset == cypher_parse_segment_get_range(q.v[0].s).end.offset, "last position is not the end of the only segment");
        free_run(&q);
        /* statements only: a leading colon is no command */
        if (only) for (unsigned i = 0; i < r.n; i++) { const cypher_astnode_t *d = cypher_parse_segment_get_directive(r.v[i].s); CHECK(d == NULL || cypher_astnode_type(d) != CYPHER_AST_COMMAND, "a command was recognised among statements"); }
    }
    if (mode_is(m, "errors"))
    {
        for (unsigned i = 0; i < r.n; i++)
        {
            const cypher_parse_segment_t *s = r.v[i].s; size_t prev = 0; struct cypher_input_range g = cypher_parse_segment_get_range(s);
            for (unsigned k = 0; k < cypher_parse_segment_nerrors(s); k++)
            {
                const cypher_parse_error_t *e = cypher_parse_segment_get_error(s, k); size_t o = cypher_parse_error_position(e).offset;
                CHECK(k == 0 || o > prev, "error %u is not after error %u", k, k - 1);
                CHECK(o >= g.start.offset, "error before its segment");
                prev = o;
                chk_message(in.p, in.n, e, ip);
            }
            unsigned nerr = 0;
            for (unsigned k = 0; k < cypher_parse_segment_nroots(s); k++) if (cypher_astnode_type(cypher_parse_segment_get_root(s, k)) == CYPHER_AST_ERROR) nerr++;
            CHECK(nerr == 0 || cypher_parse_segment_nerrors(s) > 0, "text was skipped but no error reported");
            CHECK(cypher_parse_segment_get_error(s, cypher_parse_segment_nerrors(s)) == NULL, "an error beyond the last");
        }
    }
    if (mode_is(m, "context"))
        for (unsigned i = 0; i < r.n; i++)
        {
            struct cypher_input_range g = cypher_parse_segment_get_range(r.v[i].s); size_t base = g.start.offset - ip.offset, limit = g.end.offset - ip.offset;
            for (unsigned k = 0; k < cypher_parse_segment_nerrors(r.v[i].s); k++) chk_context(in.p, in.n, base, limit, cypher_parse_segment_get_error(r.v[i].s, k), ip);
        }
    if (mode_is(m, "result"))
    {
        cypher_parse_result_t *x = cypher_uparse(in.p, in.n, NULL, c, only);
        CHECK(x != NULL, "no result");
        unsigned ne = 0, nr = 0, nd = 0, nn = 0; bool eof = false; B a = {0}, b = {0}; bs(&a, ""); bs(&b, "");
        for (unsigned i = 0; i < r.n; i++)
        {
            const cypher_parse_segment_t *s = r.v[i].s;
            for (unsigned k = 0; k < cypher_parse_segment_nerrors(s); k++, ne++)
            {
                const cypher_parse_error_t *e = cypher_parse_result_get_error(x, ne);
                CHECK(e != NULL, "error %u is missing from the result", ne);
                a.n = b.n = 0; dump_error(&a, cypher_parse_segment_get_error(s, k)); dump_error(&b, e);
                if (a.n != b.n || memcmp(a.p, b.p, a.n)) differ("error of segment and result differ", &a, &b);
            }
            for (unsigned k = 0; k < cypher_parse_segment_nroots(s); k++, nr++)
            {
                const cypher_astnode_t *p = cypher_parse_result_get_root(x, nr);
                CHECK(p != NULL, "root %u is missing from the result", nr);
                a.n = b.n = 0; dump_node(&a, cypher_parse_segment_get_root(s, k)); dump_node(&b, p);
                if (a.n != b.n || memcmp(a.p, b.p, a.n)) differ("root of segment and result differ", &a, &b);
                if (cypher_parse_segment_get_root(s, k) == cypher_parse_segment_get_directive(s))
                { CHECK(cypher_parse_result_get_directive(x, nd) == p, "directive %u of the result is not the root it should be", nd); nd++; }
            }
            nn += cypher_parse_segment_nnodes(s);
            if (cypher_parse_segment_is_eof(s) && (cypher_parse_segment_get_directive(s) || cypher_parse_segment_nerrors(s))) eof = true;
        }
        CHECK(ne == cypher_parse_result_nerrors(x) && cypher_parse_result_get_error(x, ne) == NULL, "%u errors, the result has %u", ne, cypher_parse_result_nerrors(x));
        CHECK(nr == cypher_parse_result_nroots(x) && cypher_parse_result_get_root(x, nr) == NULL, "%u roots, the result has %u", nr, cypher_parse_result_nroots(x));
        CHECK(nd == cypher_parse_result_ndirectives(x) && cypher_parse_result_get_directive(x, nd) == NULL, "%u directives, the result has %u", nd, cypher_parse_result_ndirectives(x));
        CHECK(nn == cypher_parse_result_nnodes(x), "%u nodes, the result has %u", nn, cypher_parse_result_nnodes(x));
        CHECK(eof == cypher_parse_result_eof(x), "end of input: %d, the result says %d", eof, cypher_parse_result_eof(x));
        char *t1 = 0; size_t n1; FILE *f = open_memstream(&t1, &n1); CHECK(cypher_parse_result_fprint_ast(x, f, 0, NULL, 0) >= 0, "print"); fclose(f);
        chk_ordinals(t1, ord); free(t1);
        bfree(&a); bfree(&b); cypher_parse_result_free(x);
    }
    if (mode_is(m, "ordinals"))
    {
        unsigned next = ord;
        for (unsigned i = 0; i < r.n; i++)
        {
            const cypher_parse_segment_t *s = r.v[i].s; unsigned nn = 0;
            for (unsigned k = 0; k < cypher_parse_segment_nroots(s); k++)
            {
                const cypher_astnode_t *a = cypher_parse_segment_get_root(s, k);
                nn += ref_count(a);
                CHECK(cypher_ast_depth(a) == ref_depth(a), "depth %u, reported %u", ref_depth(a), cypher_ast_depth(a));
            }
            CHECK(nn == cypher_parse_segment_nnodes(s), "segment has %u nodes, reports %u", nn, cypher_parse_segment_nnodes(s));
            B t = {0}; bs(&t, ""); dump_ast(&t, s);
            CHECK(chk_ordinals(t.p, next) == nn, "number of lines printed");
            bfree(&t);
            next += nn;
        }
        cypher_parse_result_t *x = cypher_uparse(in.p, in.n, NULL, c, only);
        CHECK(x && cypher_parse_result_nnodes(x) == next - ord, "nodes of the result");
        cypher_parse_result_free(x);
    }
    if (mode_is(m, "retain"))
    {
        /* retained segments are unchanged long after */
        B late = {0}; bs(&late, "");
        struct run noise = {0}; bs(&noise.snap, "");
        cypher_uparse_each(in.p, in.n, keep_cb, &noise, NULL, NULL, 0); free_run(&noise);
        unsigned extra = rnd(3);
        for (unsigned i = 0; i < r.n; i++) for (unsigned k = 0; k < extra; k++) cypher_parse_segment_retain(r.v[i].s);
        for (unsigned i = 0; i < r.n; i++) for (unsigned k = 0; k < extra; k++) cypher_parse_segment_release(r.v[i].s);
        for (unsigned i = 0; i < r.n; i++) dump_segment(&late, r.v[i].s);
        if (late.n != r.snap.n || memcmp(late.p, r.snap.p, late.n)) differ("a retained segment changed", &r.snap, &late);
        /* no configuration: as with a new one */
        cypher_parser_config_t *d = cypher_parser_new_config();
        struct dumper a = {{0}}, b = {{0}}; bs(&a.b, ""); bs(&b.b, "");
        cypher_uparse_each(in.p, in.n, dump_cb, &a, NULL, NULL, only); cypher_uparse_each(in.p, in.n, dump_cb, &b, NULL, d, only);
        if (a.b.n != b.b.n || memcmp(a.b.p, b.b.p, a.b.n)) differ("no configuration is not the default one", &a.b, &b.b);
        if (a.nseg && in.n) CHECK(strncmp(a.b.p, "S 1:1:0-", 8) == 0, "default parse does not start at 1:1:0");
        if (strstr(a.b.p, "\x1b[")) CHECK(memchr(in.p, 0x1b, in.n), "default parse is colored");
        /* settings are independent */
        struct cypher_input_position p = { 1 + rnd(9), 1 + rnd(9), rnd(99) }; unsigned o = rnd(50); unsigned which = rnd(8);
        if (which & 1) cypher_parser_config_set_initial_position(d, p);
        if (which & 2) cypher_parser_config_set_initial_ordinal(d, o);
        if (which & 4) cypher_parser_config_set_error_colorization(d, cypher_parser_ansi_colorization);
        struct run z = {0}; bs(&z.snap, "");
        cypher_uparse_each(in.p, in.n, keep_cb, &z, NULL, d, only);
        unsigned next = (which & 2) ? o : 0;
        for (unsigned i = 0; i < z.n; i++)
        {
            const cypher_parse_segment_t *s = z.v[i].s;
            if (i == 0) { struct cypher_input_position st = cypher_parse_segment_get_range(s).start; struct cypher_input_position w = (which & 1) ? p : cypher_input_position_zero; CHECK(st.line == w.line && st.column == w.column && st.offset == w.offset, "initial position"); }
            B t = {0}; bs(&t, ""); dump_ast(&t, s); chk_ordinals(t.p, next); bfree(&t); next += cypher_parse_segment_nnodes(s);
            for (unsigned k = 0; k < cypher_parse_segment_nerrors(s); k++) { const char *msg = cypher_parse_error_message(cypher_parse_segment_get_error(s, k));
                CHECK(((which & 4) != 0) == (strncmp(msg, "\x1b[1m\x1b[31mInvalid input\x1b[0m", 21) == 0), "coloring of <%s>", msg); }
        }
        /* changing the configuration's source afterwards must not matter; a second new one is default again */
        cypher_parser_config_t *d2 = cypher_parser_new_config(); struct dumper a2 = {{0}}; bs(&a2.b, "");
        cypher_uparse_each(in.p, in.n, dump_cb, &a2, NULL, d2, only);
        if (a.b.n != a2.b.n || memcmp(a.b.p, a2.b.p, a.b.n)) differ("a new configuration is not the default one", &a.b, &a2.b);
        cypher_parser_config_free(d2); bfree(&a2.b);
        free_run(&z); bfree(&a.b); bfree(&b.b); bfree(&late); cypher_parser_config_free(d);
    }
    free_run(&r); cypher_parser_config_free(c); bfree(&in); cur = NULL;
}

int main(int argc, char **argv)
{
    const char *m = argv[1]; unsigned rounds = atoi(argv[2]); uint64_t sd = strtoull(argv[3], 0, 10);
    signal(SIGABRT, on_crash); signal(SIGALRM, on_crash);
    for (unsigned i = 0; i < rounds; i++)
    {
        seed(sd * 1000003u + i);
        alarm(60);
        if (mode_is(m, "source")) m_source(i); else m_whole(m, i);
    }
    printf("%u generated inputs, mode %s: nothing found\n", rounds, m);
    return 0;
}
