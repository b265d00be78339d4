/* line_context of the real util.c, for every text, place and limit */
#include "vf.h"
#include <assert.h>
static size_t K, J, e0, n_; static _Bool fails;
static const char *B; static const char *vf_src; static char *ctx;
void *vf_malloc(size_t n)
{
    __CPROVER_assert(n >= 1, "PROP room for the terminator");
    n_ = n - 1;
    if (vf_bool()) { fails = 1; errno = ENOMEM; return NULL; }
    return __CPROVER_allocate(n, 0);
}
void *vf_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(n == 0 || __CPROVER_r_ok(s, n), "PROP only bytes of the input are read");
    __CPROVER_precondition(n == 0 || __CPROVER_w_ok(d, n), "PROP copy fits");
    vf_src = s;
    if (K < n) { ((char *)d)[K] = ((const char *)s)[K]; }
    return d;
}
#define malloc vf_malloc
#define memcpy vf_memcpy
#define O(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#define EOLC(c) ((c) == '\n' || (c) == '\r')
#define TERM(c) (EOLC(c) || (c) == '\0')
#include "util.c"
#undef malloc
#undef memcpy
void harness(void)
{
    K = vf_size(); J = vf_size();
    size_t size = vf_size(), off = vf_size(), max = vf_size(), off0;
    VF_ASSUME(size >= 1 && size <= ((size_t)1 << 30) && off <= size && max >= 7 && max <= 4096);
    char *b = __CPROVER_allocate(size, 0);
    B = b; off0 = off; e0 = off < size ? off : size - 1;
    ctx = line_context(b, size, &off, max);
    if (ctx == NULL) { VF_ASSERT(fails && off == off0, "fails only when out of memory"); return; }
    size_t s = off0 - off, t = s + n_;
    VF_ASSERT(s <= e0 && t <= size && n_ <= max, "the context lies within the input and the limit");
    VF_ASSERT(n_ == 0 || vf_src == b + s, "the offset is that of the place within the context");
    VF_ASSUME(s <= e0 && t <= size && n_ <= max);
    if (J >= s && J < t) { VF_ASSERT(!EOLC(b[J]), "the context is on one line"); VF_REACH("inside"); }
    if (J >= t && J <= e0) { VF_ASSERT(TERM(b[J]), "the context reaches the place, but for line ends before it"); }
    _Bool cut0 = !(s == 0 || EOLC(b[s-1])), cut1 = !(t == size || EOLC(b[t]));
    VF_ASSERT(n_ == max || (!cut0 && !cut1), "the whole line is given if it fits");
    VF_ASSERT(ctx[n_] == '\0', "the context is terminated");
    if (K < n_)
    {
        _Bool dot = (cut0 && K < 3) || (cut1 && K + 3 >= n_);
        VF_ASSERT(ctx[K] == (dot ? '.' : b[s + K]), "the context is the text of the line, cut ends and only those marked by three dots");
        VF_REACH("text");
    }
}
