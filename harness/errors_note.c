/* cp_et_note_potential_error of the real errors.c, for every tracking state */
#include "vf.h"
#include "errors.h"
static unsigned K;                       /* witness: an arbitrary label */
static const char *given, *wl;           /* the new label, label K */
static int eqK;                          /* how the new label compares with label K */
static _Bool matched;
static const char **ret_labels;
static unsigned old_n;
int vf_strcmp(const char *a, const char *b)
{
    __CPROVER_assert(a == given || b == given, "PROP labels are compared with the one given");
    const char *o = (a == given) ? b : a;
    int r = vf_int();
    if (o == wl) { r = eqK; }
    matched |= (r == 0);
    return r;
}
void *vf_realloc(void *p, size_t n)
{
    if (vf_bool()) { errno = ENOMEM; return NULL; }
    size_t w = n / sizeof(char *);
    const char **q = __CPROVER_allocate(w * sizeof(char *), 0);
    if (K < old_n && K < w) { q[K] = ((const char **)p)[K]; }
    free(p);
    return q;
}
#define strcmp vf_strcmp
#define realloc vf_realloc
#include "errors.c"
#undef strcmp
#undef realloc
void harness(void)
{
    struct cp_error_tracking et;
    K = vf_uint();
    unsigned n = vf_count(), cap = vf_count();
    VF_ASSUME(n <= cap);
    const char **labels = malloc(cap * sizeof(char *));
    VF_ASSUME(labels != NULL);
    if (cap == 0 && vf_bool()) { free(labels); labels = NULL; }
    et.labels = labels; et.nlabels = n; et.labels_capacity = cap; old_n = n;
    static char a, b;
    given = &a; wl = &b; eqK = vf_int(); matched = 0;
    if (K < n) { labels[K] = wl; }
    struct cp_error_tracking old = et;
    struct cypher_input_position p;
    char c = vf_char();
    /* the same place was noted with the same line, column and character */
    VF_ASSUME(!(n > 0 && p.offset == et.last_position.offset) ||
        (p.line == et.last_position.line && p.column == et.last_position.column && c == et.last_char));
    int r = cp_et_note_potential_error(&et, p, c, given);
    VF_ASSERT(et.nerrors == old.nerrors && et.errors == old.errors && et.last_error_offset == old.last_error_offset, "errors already reported are kept");
    VF_ASSERT(r == 0 || r == -1, "result");
    _Bool ignored = p.offset < old.last_position.offset || (old.nerrors > 0 && p.offset <= old.last_error_offset);
    if (ignored)
    {
        VF_ASSERT(r == 0 && et.nlabels == n && et.labels == old.labels && et.labels_capacity == cap &&
            et.last_position.offset == old.last_position.offset && et.last_position.line == old.last_position.line &&
            et.last_position.column == old.last_position.column && et.last_char == old.last_char,
            "expectations before the furthest place or the last error are left out");
        if (K < n) { VF_ASSERT(et.labels[K] == wl, "labels kept"); }
        return;
    }
    VF_ASSERT(et.last_position.offset == p.offset && et.last_position.line == p.line && et.last_position.column == p.column && et.last_char == c,
        "the furthest place and its character are noted");
    _Bool fresh = n == 0 || p.offset > old.last_position.offset;
    if (r != 0) { VF_ASSERT(et.nlabels == (fresh ? 0 : n) && et.labels == old.labels, "labels kept on failure"); return; }
    if (fresh)
    {
        VF_ASSERT(et.nlabels == 1 && et.labels[0] == given, "a further place starts a new set of expectations");
        VF_REACH("fresh");
    }
    else if (et.nlabels == n)
    {
        VF_ASSERT(matched, "a label is left out only if it is there already");
        if (K < n) { VF_ASSERT(et.labels[K] == wl, "labels kept"); }
    }
    else
    {
        VF_ASSERT(et.nlabels == n + 1 && et.labels[n] == given, "a new label is added last");
        if (K < n) { VF_ASSERT(et.labels[K] == wl, "earlier labels kept in order"); VF_ASSERT(eqK != 0, "no label is noted twice"); VF_REACH("appended"); }
    }
    VF_ASSERT(et.nlabels <= et.labels_capacity, "capacity");
    VF_ASSERT(__CPROVER_r_ok(et.labels, et.labels_capacity * sizeof(char *)), "capacity backed by memory");
}
