/* cp_sb_append: what is appended follows what was there, whole and unchanged */
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
static size_t K, old; static _Bool fails; static const char *S; 
void *vf_realloc(void *p, size_t n)
{
    if (vf_bool()) { fails = 1; errno = ENOMEM; return NULL; }
    char *q = __CPROVER_allocate(n, 0);
    if (K < old && K < n) { q[K] = ((char *)p)[K]; }
    free(p);
    return q;
}
void *vf_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "PROP copies within bounds");
    __CPROVER_assert(s == S, "PROP the bytes given are appended");
    if (K >= old && K - old < n) { ((char *)d)[K - old] = ((const char *)s)[K - old]; }
    return d;
}
/* contract of strncpy: stops at a NUL byte and fills up with NUL bytes */
char *vf_strncpy(char *d, const char *s, size_t n)
{
    __CPROVER_precondition(n == 0 || __CPROVER_w_ok(d, n), "PROP copies within bounds");
    size_t z = vf_size(); VF_ASSUME(z <= n && (z == n || s[z] == 0));
    if (K >= old && K - old < n) { VF_ASSUME(K - old >= z || s[K - old] != 0); ((char *)d)[K - old] = K - old < z ? s[K - old] : 0; }
    return d;
}
#define realloc vf_realloc
#define strncpy vf_strncpy
#define memmove vf_memcpy
#define memcpy vf_memcpy
#include "string_buffer.c"
#undef realloc
#undef strncpy
#undef memmove
#undef memcpy
void harness(void)
{
    struct cp_string_buffer sb; K = vf_size();
    size_t cap = vf_size(), len = vf_size(), n = vf_size();
    /* invariant: room for a terminator, or nothing allocated */
    VF_ASSUME(cap <= ((size_t)1 << 40) && (len < cap || (cap == 0 && len == 0)) && n <= ((size_t)1 << 40));
    sb.buffer = cap ? __CPROVER_allocate(cap, 0) : NULL; sb.capacity = cap; sb.length = len; old = len;
    char *s = __CPROVER_allocate(n, 0); S = s;
    char w = 0;
    if (K < len) { w = sb.buffer[K]; } else if (K - len < n) { w = s[K - len]; }
    struct cp_string_buffer sb0 = sb; fails = 0;
    int r = cp_sb_append(&sb, s, n);
    if (r != 0) { VF_ASSERT(r == -1 && fails && sb.buffer == sb0.buffer && sb.capacity == cap && sb.length == len, "failure changes nothing"); VF_REACH("failed"); return; }
    VF_ASSERT(!fails && cp_sb_length(&sb) == len + n, "the length grows by what is appended");
    VF_ASSERT(sb.length < sb.capacity && __CPROVER_w_ok(sb.buffer, sb.capacity) && cp_sb_data(&sb) == sb.buffer, "capacity backed by memory, with room for a terminator");
    if (K < len + n) { VF_ASSERT(sb.buffer[K] == w, "every byte in its place, unchanged"); VF_REACH("byte"); }
    cp_sb_reset(&sb);
    VF_ASSERT(cp_sb_length(&sb) == 0, "reset empties the buffer");
}
