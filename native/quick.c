/* Quick parser against a hand-written scanner of the same bytes.  argv: rounds seed */
#define _GNU_SOURCE
#include "gen.h"
#include "cypher-parser.h"
static const char *s; static size_t n; static bool hit_eof;
static bool eol(size_t p, size_t *e) { if (p < n && s[p] == '\n') { *e = p + 1; return true; } if (p + 1 < n && s[p] == '\r' && s[p+1] == '\n') { *e = p + 2; return true; } return false; }
static bool line_comment(size_t p, size_t *e)
{
    if (p + 1 >= n || s[p] != '/' || s[p+1] != '/') return false;
    size_t x;
    for (p += 2; p < n && !eol(p, &x); p++);
    if (p >= n) { hit_eof = true; *e = n; } else *e = x;
    return true;
}
/* 1 closed, 2 unclosed */
static int block_comment(size_t p, size_t *e)
{
    if (p + 1 >= n || s[p] != '/' || s[p+1] != '*') return 0;
    for (p += 2; p + 1 < n; p++) if (s[p] == '*' && s[p+1] == '/') { *e = p + 2; return 1; }
    *e = n; return 2;
}
static size_t blank(size_t p, bool newlines)
{
    for (;;)
    {
        size_t e;
        if (p < n && (s[p] == ' ' || s[p] == '\t')) p++;
        else if (newlines && eol(p, &e)) p = e;
        else if (newlines && line_comment(p, &e)) p = e;
        else if (block_comment(p, &e) == 1) p = e;
        else return p;
    }
}
static bool escaped(size_t p) { return p + 1 < n && s[p] == '\\' && s[p+1] && strchr("abfnrtv\"'?\\", s[p+1]); }
static bool quoted(size_t p, size_t *e)
{
    if (p >= n || (s[p] != '\'' && s[p] != '"')) return false;
    char q = s[p++];
    while (p < n && s[p] != q) p += escaped(p) ? 2 : 1;
    if (p >= n) { hit_eof = true; *e = n; } else *e = p + 1;
    return true;
}
static bool line_end(size_t p, size_t *e) { if (line_comment(p, e) || eol(p, e)) return true; if (p >= n) { hit_eof = true; *e = p; return true; } return false; }
struct want { size_t begin, end, next; bool statement, eof; };
/* the segment that begins its search at p; false: nothing more */
static bool next_segment(size_t p, bool only, struct want *w)
{
    size_t e; bool keep;
    hit_eof = false;
    size_t b = blank(p, true);
    if (!only && b < n && s[b] == ':')
    {
        size_t at = b + 1;
        for (;;)
        {
            if (escaped(at)) at += 2;
            else if (at + 1 < n && s[at] == '\\' && s[at+1] == ';') at += 2;
            else if (at < n && s[at] == '\\' && (keep = hit_eof, line_end(blank(at + 1, false), &e))) at = e;
            else if (block_comment(at, &e)) { if (e == n && block_comment(at, &e) == 2) hit_eof = true; at = e; }
            else if (quoted(at, &e)) at = e;
            else if (at < n && s[at] == ';') break;
            else { keep = hit_eof; bool stop = line_end(blank(at, false), &e); hit_eof = keep; if (stop) break; at++; }
        }
        w->begin = b; w->end = at; w->statement = false;
        at = blank(at, false);
        if (at < n && s[at] == ';') e = at + 1; else if (!line_end(at, &e)) bad("reference scanner: command end");
        w->next = e; w->eof = hit_eof;
        return true;
    }
    size_t at = b;
    for (;;)
    {
        if (line_comment(at, &e) || block_comment(at, &e) == 1) at = e;
        else if (quoted(at, &e)) at = e;
        else if (block_comment(at, &e) == 2) { hit_eof = true; at = e; }
        else if (escaped(at)) at += 2;
        else { keep = hit_eof; size_t z = blank(at, true); hit_eof = keep; if ((z < n && s[z] == ';') || at >= n) break; at++; }
    }
    w->begin = b; w->end = at; w->statement = true;
    at = blank(at, true);
    if (at < n) w->next = at + 1; else { w->next = n; hit_eof = true; }
    w->eof = hit_eof;
    return !(w->end == p && w->eof);
}
static struct cypher_input_position pos(size_t off)
{
    struct cypher_input_position p = cypher_input_position_zero; size_t ls = 0;
    for (size_t i = 0; i < off; i++) if (s[i] == '\n') { p.line++; ls = i + 1; }
    p.column = off - ls + 1; p.offset = off; return p;
}
#define SAME(a, b) ((a).line == (b).line && (a).column == (b).column && (a).offset == (b).offset)
struct ctx { size_t at; bool only, done; unsigned k; int stop_at, ret; };
static int cb(void *u, const cypher_quick_parse_segment_t *g)
{
    struct ctx *c = u; struct want w; size_t l;
    CHECK(!c->done, "a segment after the last");
    if (!next_segment(c->at, c->only, &w)) bad("segment %u: nothing is left at %zu", c->k, c->at);
    const char *t = cypher_quick_parse_segment_get_text(g, &l);
    struct cypher_input_range r = cypher_quick_parse_segment_get_range(g); struct cypher_input_position x = cypher_quick_parse_segment_get_next(g);
    CHECK(cypher_quick_parse_segment_is_statement(g) == w.statement && cypher_quick_parse_segment_is_command(g) == !w.statement, "segment %u: kind", c->k);
    CHECK(l == w.end - w.begin && memcmp(t, s + w.begin, l) == 0, "segment %u is bytes %zu..%zu, its text was <%.*s>", c->k, w.begin, w.end, (int)l, t);

    struct cypher_input_position p1 = pos(w.begin), p2 = pos(w.end), p3 = pos(w.next);
    CHECK(SAME(r.start, p1), "segment %u starts at %zu (%u:%u), reported %zu (%u:%u)", c->k, p1.offset, p1.line, p1.column, r.start.offset, r.start.line, r.start.column);
    CHECK(SAME(r.end, p2), "segment %u ends at %zu (%u:%u), reported %zu (%u:%u)", c->k, p2.offset, p2.line, p2.column, r.end.offset, r.end.line, r.end.column);
    CHECK(SAME(x, p3), "after segment %u: %zu (%u:%u), reported %zu (%u:%u)", c->k, p3.offset, p3.line, p3.column, x.offset, x.line, x.column);
    CHECK(cypher_quick_parse_segment_is_eof(g) == w.eof, "segment %u: end of input is %d", c->k, w.eof);
    c->at = w.next; if (w.eof) c->done = true;
    return (int)c->k++ == c->stop_at ? c->ret : 0;
}
struct chunked { const char *s; size_t n, pos; };
static ssize_t chunk_read(void *c, char *buf, size_t size)
{
    struct chunked *k = c; size_t m = k->n - k->pos; if (m > size) m = size; if (m > 7) m = 1 + rnd(m);
    memcpy(buf, k->s + k->pos, m); k->pos += m; return m;
}
int main(int argc, char **argv)
{
    unsigned rounds = atoi(argv[1]); uint64_t sd = strtoull(argv[2], 0, 10);
    static const char *const bits[] = { ";", " ", "\n", "\r\n", "\r", "\t", "//", "/*", "*/", "'", "\"", "\\", "\\;", "\\'", "\\n", ":", "a", "B c", "1", "`", ":x y", "\\ \n", "*", "/" };
    signal(SIGABRT, on_crash); signal(SIGALRM, on_crash);
    unsigned total = 0;
    for (unsigned i = 0; i < rounds; i++)
    {
        seed(sd * 7919u + i); alarm(30);
        B in = {0}; bs(&in, "");
        if (i % 2) { for (unsigned k = rnd(i % 16 == 1 ? 60 : 14); k > 0; k--) bs(&in, bits[rnd(sizeof(bits)/sizeof(*bits))]); }
        else make_input(&in, i % 30 == 0 ? 30 : 4);
        char *exact = malloc(in.n ? in.n : 1); memcpy(exact, in.p, in.n);
        cur = s = exact; curn = n = in.n;
        for (int v = 0; v < 4; v++)
        {
            struct ctx c = { .only = rnd(3) == 0, .stop_at = v == 1 || v == 3 ? (int)rnd(4) : -1, .ret = rnd(2) ? 1 + (int)rnd(9) : -1 - (int)rnd(9) };
            uint_fast32_t fl = (c.only ? CYPHER_PARSE_ONLY_STATEMENTS : 0) | (v == 2 ? CYPHER_PARSE_SINGLE : 0);
            int rc;
            if (rnd(3)) rc = cypher_quick_uparse(exact, n, cb, &c, fl);
            else
            {
                struct chunked k = { exact, n, 0 }; cookie_io_functions_t io = { .read = chunk_read }; FILE *f = fopencookie(&k, "r", io);
                rc = cypher_quick_fparse(f, cb, &c, fl); fclose(f);
            }
            bool stopped = c.stop_at >= 0 && (int)c.k > c.stop_at;
            CHECK(!stopped || (int)c.k == c.stop_at + 1, "parsing went on after the callback returned %d", c.ret);
            CHECK(rc == (stopped && c.ret < 0 ? c.ret : 0), "callback returned %d, the parse %d", stopped ? c.ret : 0, rc);
            struct want w;
            if (v == 2) CHECK(c.k == (next_segment(0, c.only, &w) ? 1 : 0), "asked for one segment, %u delivered", c.k);
            else if (!stopped) CHECK(c.done || !next_segment(c.at, c.only, &w), "no segment delivered for the input from %zu", c.at);
            total += c.k;
        }
        free(exact); bfree(&in);
    }
    printf("%u generated inputs, %u segments: nothing found\n", rounds, total);
    return 0;
}
