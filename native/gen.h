/* deterministic generation shared by the native companions */
#ifndef GEN_H
#define GEN_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include "corpus.h"
static uint64_t rs = 88172645463325252ull;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? (unsigned)((rs >> 11) % n) : 0; }
static void seed(uint64_t s) { rs = 0x9E3779B97F4A7C15ull * (s + 1); for (int i = 0; i < 8; i++) rnd(2); }
typedef struct { char *p; size_t n, cap; } B;
static void bput(B *b, const void *s, size_t n)
{
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); if (!b->p) exit(3); }
    memcpy(b->p + b->n, s, n); b->n += n; b->p[b->n] = 0;
}
static void bs(B *b, const char *s) { bput(b, s, strlen(s)); }
static void bf(B *b, const char *f, ...) __attribute__((format(printf, 2, 3)));
static void bf(B *b, const char *f, ...)
{
    char *t = NULL; va_list ap; va_start(ap, f); int n = vasprintf(&t, f, ap); va_end(ap);
    if (n < 0) exit(3);
    bput(b, t, n); free(t);
}
static void bfree(B *b) { free(b->p); memset(b, 0, sizeof(*b)); }
/* the text of an input, readable */
static void show(FILE *f, const char *s, size_t n)
{
    fputc('"', f);
    for (size_t i = 0; i < n && i < 3000; i++)
    {
        unsigned char c = s[i];
        if (c == '\n') fputs("\\n", f); else if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\%03o", c); else fputc(c, f);
    }
    fputc('"', f);
    if (n > 3000) fprintf(f, "... (%zu bytes)", n);
    fputc('\n', f);
}
static const char *cur; static size_t curn;
static void bad(const char *what, ...) __attribute__((format(printf, 1, 2)));
static void bad(const char *what, ...)
{
    va_list ap; va_start(ap, what); printf("VIOLATED: "); vprintf(what, ap); va_end(ap);
    printf("\ninput: "); show(stdout, cur ? cur : "", cur ? curn : 0);
    fflush(stdout); _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) bad(__VA_ARGS__); } while (0)
static void on_crash(int sig)
{
    (void)sig;
    printf("VIOLATED: the process was aborted (signal %d)\ninput: ", sig); show(stdout, cur ? cur : "", cur ? curn : 0);
    fflush(stdout); _exit(1);
}
static const char *const frag[] = { ";", "\n", "\r\n", " ", "//c\n", "/*c*/", "/*\n*/", "\t", "'", "\"", "`", "(", ")", "[", "]", "{", "}", ":", "-", "->", "<-",
    "1", "0x1F", "1.5e3", "'a\\nb'", "\"q;q\"", "`b\nq`", "x", "_y1", "$p", "{p}", "AND", "OR", "NOT", "=", "<>", "<", ">=", "+", "*", "^", ".", "..", ",", "|",
    "RETURN", "MATCH (n)", "WITH x", "WHERE", "CREATE (a)", "//", "/*", "\\", "\\;", ":cmd arg\n", "\xc3\xa9", "\xff", "\x01", "UNWIND", "MERGE", "SET x.y = 1",
    "DELETE x", "EXPLAIN", "PROFILE", "CYPHER 2.3 a=b", "ORDER BY", "CASE WHEN 1 THEN 2 END", "IS NULL", "IN", "STARTS WITH", "\n\n", "'\n'", "\a", "\r", "@" };
#define NFRAG (sizeof(frag)/sizeof(frag[0]))
/* an input: statements of the corpus, whole or mangled, with arbitrary glue */
static void make_input(B *b, unsigned size)
{
    unsigned parts = 1 + rnd(size);
    for (unsigned i = 0; i < parts; i++)
    {
        const char *q = corpus[rnd(NCORPUS)];
        size_t n = strlen(q);
        switch (rnd(8))
        {
        case 0: { size_t a = rnd(n + 1); bput(b, q, a); bs(b, frag[rnd(NFRAG)]); bput(b, q + a, n - a); break; }
        case 1: { size_t a = rnd(n + 1), k = rnd(n - a + 1); bput(b, q, a); bput(b, q + a + k, n - a - k); break; }
        case 2: for (unsigned k = rnd(6); k > 0; k--) { bs(b, frag[rnd(NFRAG)]); if (rnd(2)) bs(b, " "); } break;
        case 3: for (size_t k = 0; k < n; k++) { if (q[k] == ' ' && rnd(2)) { static const char *const sp[] = { "\n", "\r\n", " /*x\ny*/ ", " //z\n", "\t ", "  " }; bs(b, sp[rnd(6)]); } else bput(b, q + k, 1); } break;
        default: bput(b, q, n); break;
        }
        switch (rnd(6)) { case 0: break; case 1: bs(b, "\n"); break; case 2: bs(b, " ; \n "); break; default: bs(b, ";"); break; }
    }
    if (rnd(6) == 0 && b->n > 0) { size_t a = rnd(b->n); b->p[a] = (char)(1 + rnd(255)); }
    if (rnd(40) == 0 && b->n > 0) { size_t a = rnd(b->n); b->p[a] = 0; }
    if (b->n == 0) bs(b, "");
}
#endif
