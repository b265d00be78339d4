/* Proof environment for one AST node type: the real ast_<type>.c is included
 * after this header.  Contracts of what it calls are given here as contract
 * stubs (assert the precondition, havoc, assume the postcondition):
 *   memcpy                  exact on the witness element K (K is arbitrary)
 *   cypher_astnode_init     verified against the real ast.c in unit ast_init
 *   cypher_astnode_instanceof   exact on the nodes the harness names
 *   child_index             verified against the real astnode.h in unit child_index
 * Extraction drops the membership scans REQUIRE_CONTAINS* / REQUIRE_TYPE_ALL
 * (argument validation); membership is the representation invariant assumed.
 */
#ifndef VFAST_H
#define VFAST_H
#include "vf.h"
#include "cypher-parser.h"
#include "util.h"
#include "astnode.h"

#undef REQUIRE_TYPE_ALL
#define REQUIRE_TYPE_ALL(collection, size, type, res) \
    REQUIRE((size) == 0 || (collection) != NULL, res)
#undef REQUIRE_CONTAINS
#define REQUIRE_CONTAINS(collection, size, val, res)
#undef REQUIRE_CONTAINS_OPTIONAL
#define REQUIRE_CONTAINS_OPTIONAL(collection, size, val, res)
#undef REQUIRE_CONTAINS_ALL
#define REQUIRE_CONTAINS_ALL(collection, size, vals, nvals, res)
#undef REQUIRE_CHILD
#define REQUIRE_CHILD(collection, size, val, type, res) REQUIRE_TYPE(val, type, res)
#undef REQUIRE_CHILD_OPTIONAL
#define REQUIRE_CHILD_OPTIONAL(collection, size, val, type, res) REQUIRE((val) == NULL || cypher_astnode_instanceof(val, type), res)
#undef REQUIRE_CHILD_ALL
#define REQUIRE_CHILD_ALL(collection, size, vals, nvals, type, res) REQUIRE_TYPE_ALL(vals, nvals, type, res)

#ifdef VF_OOM
/* memory may run out (once vf_oom_on): what is live is counted, each piece is
 * released once; free keeps the error number (POSIX.1-2024, glibc 2.33) */
#undef errno
static int vf_errno;
#define errno vf_errno
static _Bool vf_oom_on, vf_oom_failed; static int vf_oom_err;
static const void *vf_live_p[12]; static _Bool vf_live_f[12]; static unsigned vf_live_n, vf_live;
#define VF_EACH12(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11)
static _Bool vf_oom(void)
{
    if (!vf_oom_on || !vf_bool()) { return 0; }
    __CPROVER_assert(!vf_oom_failed, "PROP nothing is allocated after a failure");
    vf_oom_failed = 1; vf_oom_err = vf_int(); VF_ASSUME(vf_oom_err != 0); errno = vf_oom_err; return 1;
}
static void vf_track(const void *p)
{
    __CPROVER_assert(vf_live_n < 12, "PROP ghost table large enough");
    vf_live_p[vf_live_n] = p; vf_live_f[vf_live_n] = 1; vf_live_n++; vf_live++;
}
static void vf_free(void *p)
{
    if (p == NULL) { return; }
    _Bool found = 0;
#define VF_F(i) if (!found && (i) < vf_live_n && vf_live_f[i] && vf_live_p[i] == p) { vf_live_f[i] = 0; found = 1; }
    VF_EACH12(VF_F)
    __CPROVER_assert(found, "PROP only what is live is released");
    vf_live--;
}
#define VF_OOM_CHECK if (vf_oom()) { return NULL; }
#define VF_TRACK(p) vf_track(p)
#else
#define VF_OOM_CHECK
#define VF_TRACK(p)
#endif

/* zeroed memory as an array of words (every size requested is a multiple of one) */
static void *vf_calloc(size_t n, size_t size)
{
    void *p;
    VF_OOM_CHECK
    if (size == sizeof(void *))
    {
        p = __CPROVER_allocate(n * sizeof(void *), 1);
    }
    else
    {
#ifdef VF_WORDS
        __CPROVER_precondition(size % sizeof(void *) == 0, "PROP word sized allocation");
        size_t w = (n * size) / sizeof(void *);
        p = __CPROVER_allocate(w * sizeof(void *), 1);
#else
        p = __CPROVER_allocate(n * size, 1);
#endif
    }
    VF_TRACK(p);
    return p;
}
#define calloc vf_calloc

/* ghost state: K an arbitrary element index, Gj an arbitrary child index,
 * W the byte offset of element K, Wn its width */
unsigned K, Gj;
static const cypher_astnode_t *vf_welem;
size_t W, Wn = sizeof(void *);

static const void *vf_copied[4];
static size_t vf_copied_n[4];
static unsigned vf_ncopied;

void *memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(n == 0 || __CPROVER_r_ok(s, n), "PROP memcpy source readable");
    __CPROVER_precondition(n == 0 || __CPROVER_w_ok(d, n), "PROP memcpy destination writable");
    if (n > 0)
    {
#define VF_DISJOINT(i) __CPROVER_precondition(!((i) < vf_ncopied) || !__CPROVER_same_object(d, vf_copied[i]) || \
            (size_t)__CPROVER_POINTER_OFFSET(d) >= (size_t)__CPROVER_POINTER_OFFSET(vf_copied[i]) + vf_copied_n[i] || \
            (size_t)__CPROVER_POINTER_OFFSET(d) + n <= (size_t)__CPROVER_POINTER_OFFSET(vf_copied[i]), \
            "PROP copies write disjoint areas");
        VF_DISJOINT(0) VF_DISJOINT(1) VF_DISJOINT(2) VF_DISJOINT(3)
        if (vf_ncopied < 4)
        {
            vf_copied[vf_ncopied] = d;
            vf_copied_n[vf_ncopied] = n;
            vf_ncopied++;
        }
        if (Wn == 1)
        {
            if (W < n)
            {
                ((char *)d)[W] = ((const char *)s)[W];
            }
        }
        else if (W + sizeof(void *) <= n)
        {
            void *v = *(void **)((char *)s + W);
            *(void **)((char *)d + W) = v;
        }
    }
    return d;
}

/* contract of mdup (verified in unit mdup): a fresh copy of n bytes, of words here */
static inline void *vf_mdup(const void *src, size_t n)
{
    __CPROVER_precondition(n % sizeof(void *) == 0, "PROP word sized copy");
    VF_OOM_CHECK
    size_t w = n / sizeof(void *);
    void *p = __CPROVER_allocate(w * sizeof(void *), 0);
    VF_TRACK(p);
    memcpy(p, src, n);
    return p;
}
#define mdup vf_mdup

/* the nodes the harness knows: the type each of them is an instance of */
#define VF_MAXN 14
static const cypher_astnode_t *vf_node[VF_MAXN];
static cypher_astnode_type_t vf_node_type[VF_MAXN];
static unsigned vf_nnodes;
static const cypher_astnode_t *vf_made[2];
static cypher_astnode_type_t vf_made_type[2];
static unsigned vf_nmade;
static bool vf_any_type;   /* children are well typed: not at issue */
#ifdef VF_OOM
#define VF_OOM_INIT() do { vf_oom_on = vf_oom_failed = 0; vf_live_n = vf_live = 0; } while (0)
#else
#define VF_OOM_INIT()
#endif
#define VF_INIT() do { VF_OOM_INIT(); vf_any_type = 0; vf_nnodes = 0; vf_nmade = 0; vf_ncopied = 0; Wn = sizeof(void *); } while (0)

static void vf_register(const cypher_astnode_t *n, cypher_astnode_type_t t)
{
    vf_node[vf_nnodes] = n;
    vf_node_type[vf_nnodes] = t;
    vf_nnodes++;
}

#define VF_EACH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13)

bool cypher_astnode_instanceof(const cypher_astnode_t *node, cypher_astnode_type_t type)
{
#ifdef VF_ELEM1
    /* every element given is of the type the precondition asks for */
    if (type == VF_ELEM1 || type == VF_ELEM2) { return 1; }
#endif
    if (vf_any_type && type != VF_SELF && type != VF_SUPER) { return 1; }
#define VF_M(i) if ((i) < vf_nmade && vf_made[i] == node) { return vf_made_type[i] == type || type == VF_SUPER; }
    VF_M(0) VF_M(1)
    if (vf_any_type) { return 1; }
#define VF_T(i) if ((i) < vf_nnodes && vf_node[i] == node) { return vf_node_type[i] == type; }
    VF_EACH(VF_T)
    return 1;
}

int cypher_astnode_init(cypher_astnode_t *node, cypher_astnode_type_t type,
        cypher_astnode_t **children, unsigned int nchildren, struct cypher_input_range range)
{
    __CPROVER_precondition(node != NULL && __CPROVER_w_ok(node, sizeof(*node)), "PROP node initialised in its own storage");
    __CPROVER_precondition(nchildren == 0 || children != NULL, "PROP children given");
    node->type = type;
    node->range = range;
    node->children = NULL;
    node->nchildren = 0;
    if (nchildren > 0)
    {
#ifdef VF_OOM
        if (vf_oom()) { return -1; }
#endif
        node->children = malloc(nchildren * sizeof(cypher_astnode_t *));
        VF_TRACK(node->children);
        if (node->children == NULL)
        {
            return -1;
        }
        if (Gj < nchildren)
        {
            node->children[Gj] = children[Gj];
        }
        node->nchildren = nchildren;
    }
    if (vf_nmade < 2)
    {
        vf_made[vf_nmade] = node;
        vf_made_type[vf_nmade] = type;
        vf_nmade++;
    }
    return 0;
}

void cypher_astnode_release(cypher_astnode_t *node)
{
#ifdef VF_OOM
    vf_free(node);
#else
    free(node);
#endif
}
#ifdef VF_OOM
#define free vf_free
#endif

ssize_t snprint_sequence(char *str, size_t size, const cypher_astnode_t * const *elements, unsigned int n)
{
    return vf_long();
}

/* requires: child is among node's children; ensures: children[result] is child
 * (the position Gj of the child that is followed, an arbitrary one otherwise) */
static inline int vf_child_index(const cypher_astnode_t *node, const cypher_astnode_t *child)
{
    if (child == vf_welem && child != NULL) { return (int)Gj; }
    int r = vf_int();
    __CPROVER_assume(r >= 0 && (unsigned)r < node->nchildren);
    return r;
}
#ifndef VF_REAL_CHILD_INDEX
#define child_index vf_child_index
#endif

#ifdef VF_STRLEN
static size_t vf_strlen_result;
size_t strlen(const char *s)
{
    size_t n = vf_size();
    __CPROVER_assume(n < (1u << 21) && __CPROVER_r_ok(s, n + 1));
    __CPROVER_assume(s[n] == '\0');
    __CPROVER_assume(!(W < n) || s[W] != '\0');
    vf_strlen_result = n;
    return n;
}
#endif
#endif
