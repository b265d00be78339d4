/* cp_vector_push and the accessors, for elements of the sizes used */
#include "vf.h"
static size_t W, oldbytes, ES; static _Bool fails; static void *E;
void *vf_realloc(void *p, size_t n)
{
    if (vf_bool()) { fails = 1; errno = ENOMEM; return NULL; }
    char *q = __CPROVER_allocate(n, 0);
    if (W < oldbytes && W < n) { q[W] = ((char *)p)[W]; }
    free(p);
    return q;
}
void *vf_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "PROP copies within bounds");
    if (W >= oldbytes && W - oldbytes < n) { ((char *)d)[W - oldbytes] = ((const char *)s)[W - oldbytes]; }
    return d;
}
#define realloc vf_realloc
#define memcpy vf_memcpy
#include "vector.c"
#undef realloc
#undef memcpy
void harness(void)
{
    struct cp_vector v; W = vf_size(); ES = VF_ES;
    unsigned cap = vf_count(), len = vf_count(), i = vf_uint();
    VF_ASSUME(len <= cap);
    cp_vector_init(&v, ES);
    VF_ASSERT(v.element_size == ES && v.length == 0 && v.capacity == 0 && v.elements == NULL, "starts empty");
    VF_ASSERT(cp_vector_last(&v) == NULL && cp_vector_pop(&v) == NULL && cp_vector_get(&v, i) == NULL && cp_vector_size(&v) == 0, "nothing in an empty vector");
    v.elements = cap ? __CPROVER_allocate((size_t)cap * ES, 0) : NULL; v.capacity = cap; v.length = len; oldbytes = (size_t)len * ES;
    char e[VF_ES]; 
    VF_ASSUME(W < oldbytes + ES);
    char w = W < oldbytes ? v.elements[W] : e[W - oldbytes];
    struct cp_vector v0 = v; fails = 0;
    int r = cp_vector_push(&v, e);
    if (r != 0) { VF_ASSERT(r == -1 && fails && v.elements == v0.elements && v.length == len && v.capacity == cap, "failure changes nothing"); VF_REACH("failed"); return; }
    VF_ASSERT(!fails && cp_vector_size(&v) == len + 1 && v.element_size == ES && v.length <= v.capacity && __CPROVER_w_ok(v.elements, (size_t)v.capacity * ES), "one element more, capacity backed by memory");
    VF_ASSERT(v.elements[W] == w, "earlier elements kept, the new one last, byte for byte");
    VF_ASSERT(cp_vector_elements(&v) == v.elements && cp_vector_last(&v) == v.elements + (size_t)len * ES, "elements and last");
    VF_ASSERT(cp_vector_get(&v, i) == (i < len + 1 ? v.elements + (size_t)i * ES : NULL), "element i, nothing beyond the end");
    VF_ASSERT(cp_vector_pop(&v) == v.elements + (size_t)len * ES && cp_vector_size(&v) == len && v.elements[W] == w, "pop takes the last");
    unsigned k = vf_uint(); cp_vector_npop(&v, k);
    VF_ASSERT(cp_vector_size(&v) == (k < len ? len - k : 0), "npop takes that many, or all");
    cp_vector_clear(&v); VF_ASSERT(cp_vector_size(&v) == 0, "cleared");
    VF_REACH("pushed");
}
