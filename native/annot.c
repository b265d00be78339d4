/* Random histories of annotation operations against a table.  argv: rounds seed */
#define _GNU_SOURCE
#include "gen.h"
#include "cypher-parser.h"
#define MC 6
#define MN 40
static cypher_ast_annotation_context_t *ctx[MC]; static int hset[MC]; static void *hud[MC];
static cypher_astnode_t *root[MN]; static const cypher_astnode_t *node[MN]; static int owner[MN]; /* index of root, -1 free */
static void *table[MC][MN];
static bool pending[MC][MN]; static unsigned npending;
static void release(void *u, const cypher_astnode_t *a, void *data)
{
    int c = (int)(((char *)u - (char *)hud) / (int)sizeof(void *)) % MC, i;
    for (c = 0; c < MC; c++) if (ctx[c] != NULL && hud[c] == u) break;
    CHECK(c < MC && hset[c], "release handler called with user data %p of no context", u);
    for (i = 0; i < MN; i++) if (node[i] == a && owner[i] >= 0) break;
    CHECK(i < MN, "release handler called for an unknown node");
    CHECK(pending[c][i], "release handler called for an annotation that is not being released");
    CHECK(table[c][i] == data, "release handler called with data %p, attached was %p", data, table[c][i]);
    pending[c][i] = false; npending--;
}
static B hist;
static void note(void) { cur = hist.p; curn = hist.n; }
static void check_all(void)
{
    for (int c = 0; c < MC; c++) if (ctx[c]) for (int i = 0; i < MN; i++) if (owner[i] >= 0)
    {
        void *v = cypher_astnode_get_annotation(ctx[c], node[i]);
        CHECK(v == table[c][i], "context %d node %d: annotation %p, expected %p", c, i, v, table[c][i]);
    }
}
static void expect(int c, int i) { if (hset[c] && table[c][i]) { pending[c][i] = true; npending++; } }
static void free_root(int r)
{
    for (int i = 0; i < MN; i++) if (owner[i] == r) for (int c = 0; c < MC; c++) if (ctx[c]) expect(c, i);
    bf(&hist, "free-tree %d; ", r); note();
    cypher_ast_free(root[r]);
    CHECK(npending == 0, "%u annotations of a freed tree were not released", npending);
    for (int i = 0; i < MN; i++) if (owner[i] == r) { owner[i] = -1; for (int c = 0; c < MC; c++) table[c][i] = NULL; }
    root[r] = NULL;
}
static void free_ctx(int c)
{
    for (int i = 0; i < MN; i++) if (owner[i] >= 0) expect(c, i);
    bf(&hist, "free-context %d; ", c); note();
    cypher_ast_annotation_context_free(ctx[c]);
    CHECK(npending == 0, "%u annotations of a freed context were not released", npending);
    for (int i = 0; i < MN; i++) table[c][i] = NULL;
    ctx[c] = NULL; hset[c] = 0; hud[c] = NULL;
}
int main(int argc, char **argv)
{
    unsigned rounds = atoi(argv[1]); uint64_t sd = strtoull(argv[2], 0, 10), ops = 0;
    struct cypher_input_range r0 = { {1,1,0}, {1,1,0} };
    signal(SIGABRT, on_crash); signal(SIGALRM, on_crash);
    for (unsigned t = 0; t < rounds; t++)
    {
        seed(sd * 104729u + t); alarm(30); hist.n = 0; bs(&hist, ""); note();
        memset(table, 0, sizeof table); memset(pending, 0, sizeof pending); npending = 0;
        for (int i = 0; i < MN; i++) { owner[i] = -1; node[i] = NULL; root[i] = NULL; }
        for (int c = 0; c < MC; c++) { ctx[c] = NULL; hset[c] = 0; hud[c] = NULL; }
        unsigned len = 5 + rnd(t % 10 == 0 ? 400 : 60), nc = 1 + rnd(MC), nn = 2 + rnd(MN - 2);
        for (unsigned k = 0; k < len; k++, ops++)
        {
            int c = rnd(nc), i = rnd(nn);
            switch (rnd(14))
            {
            case 0: if (!ctx[c]) { ctx[c] = cypher_ast_annotation_context(); if (!ctx[c]) exit(3); bf(&hist, "context %d; ", c); note(); } break;
            case 1: if (ctx[c]) { hset[c] = rnd(3) != 0; hud[c] = (char *)hud + 8 * (1000 + c) + 1; if (!hset[c]) hud[c] = NULL;
                bf(&hist, "handler %d %d; ", c, hset[c]); note();
                cypher_ast_annotation_context_set_release_handler(ctx[c], hset[c] ? release : NULL, hud[c]); } break;
            case 2: if (ctx[c] && rnd(3) == 0) free_ctx(c); break;
            case 3: { int r; for (r = 0; r < (int)nn && root[r]; r++);
                /* a tree of 1 to 3 nodes in free slots */
                int slots[3], ns = 0, want = 1 + rnd(3); for (int j = 0; j < (int)nn && ns < want; j++) if (owner[j] < 0) slots[ns++] = j;
                if (r == (int)nn || ns == 0) break;
                cypher_astnode_t *a = cypher_ast_integer("1", 1, r0); if (!a) exit(3);
                node[slots[0]] = a;
                if (ns > 1) { cypher_astnode_t *ch[] = { a }; a = cypher_ast_unary_operator(CYPHER_OP_NOT, a, ch, 1, r0); if (!a) exit(3); node[slots[1]] = a; }
                if (ns > 2) { cypher_astnode_t *ch[] = { a }; a = cypher_ast_unary_operator(CYPHER_OP_NOT, a, ch, 1, r0); if (!a) exit(3); node[slots[2]] = a; }
                for (int j = 0; j < ns; j++) owner[slots[j]] = r;
                root[r] = a; bf(&hist, "tree %d of %d; ", r, ns); note(); break; }
            case 4: { int r = rnd(nn); if (root[r] && rnd(3) == 0) free_root(r); break; }
            case 5: case 6: if (ctx[c] && owner[i] >= 0) { void *v = cypher_astnode_remove_annotation(ctx[c], node[i]); bf(&hist, "remove %d %d; ", c, i); note();
                CHECK(v == table[c][i], "removed %p, attached was %p", v, table[c][i]); table[c][i] = NULL; } break;
            default: if (ctx[c] && owner[i] >= 0) { void *p = (void *)(uintptr_t)(1 + rnd(1000000)), *prev = (void *)1; bool ask = rnd(2);
                bf(&hist, "attach %d %d; ", c, i); note();
                int e = cypher_astnode_attach_annotation(ctx[c], node[i], p, ask ? &prev : NULL);
                CHECK(e == 0, "attach failed"); CHECK(!ask || prev == table[c][i], "previous annotation is %p, attached was %p", prev, table[c][i]);
                table[c][i] = p; } break;
            }
            if (k % 3 == 0 || len < 80) check_all();
        }
        check_all();
        /* release everything, in either order */
        unsigned order = rnd(2);
        for (int ph = 0; ph < 2; ph++)
        {
            if (ph == (int)order) for (int c = 0; c < MC; c++) { if (ctx[c]) { free_ctx(c); check_all(); } }
            if (ph != (int)order) for (int r = 0; r < MN; r++) { if (root[r]) { free_root(r); check_all(); } }
        }
    }
    bfree(&hist);
    printf("%u histories, %llu operations: nothing found\n", rounds, (unsigned long long)ops);
    return 0;
}
