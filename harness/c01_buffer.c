/* source_from_buffer: takes the next bytes, in order, whatever their values */
#include "vfparser.h"
static void vf_at_abort(void) {}
#include VF_SRC
void harness(void)
{
    K = vf_size();
    struct source_from_buffer_data in;
    size_t len = vf_size(); VF_ASSUME(len <= ((size_t)1 << 40));
    char *s = __CPROVER_allocate(len, 0);
    int n = vf_int(); VF_ASSUME(n >= 0);
    char *buf = __CPROVER_allocate((size_t)n, 0);
    in.buffer = s; in.length = len;
    char w = K < len ? s[K] : 0;
    int r = source_from_buffer(&in, buf, n);
    size_t expect = len < (size_t)n ? len : (size_t)n;
    VF_ASSERT(r >= 0 && (size_t)r == expect, "as many bytes as are left and fit are taken");
    VF_ASSERT(in.buffer == s + expect && in.length == len - expect, "the bytes taken are passed once");
    if (K < expect) { VF_ASSERT(buf[K] == w, "each byte is taken unchanged in its place"); VF_REACH("byte"); }
    if (K < len) { VF_ASSERT(s[K] == w, "the input is not changed"); }
}
