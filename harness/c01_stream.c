/* source_from_stream: one byte per call, 0xFF is no end, errors are reported */
#include "vfparser.h"
static int vf_next; static _Bool vf_err; static unsigned calls;
static FILE *the_stream;
int vf_getc(FILE *f) { __CPROVER_assert(f == the_stream, "PROP the stream given is read"); calls++; return vf_next; }
int vf_ferror(FILE *f) { __CPROVER_assert(f == the_stream, "PROP the stream given is asked"); return vf_err ? 1 + (vf_uint() & 7) : 0; }
static void vf_at_abort(void) {}
#include "../../config.h"
#include "cypher-parser.h"
#undef getc
#define getc vf_getc
#define fgetc vf_getc
#undef ferror
#define ferror vf_ferror
#include VF_SRC
void harness(void)
{
    int n = vf_int(); VF_ASSUME(n >= 1);
    char *buf = __CPROVER_allocate((size_t)n, 0);
    char b0 = buf[0];
    the_stream = (FILE *)vf_ptr();
    vf_next = vf_int(); VF_ASSUME(vf_next == EOF || (vf_next >= 0 && vf_next <= 255));
    vf_err = vf_bool(); calls = 0;
    VF_ASSUME(vf_next == EOF || !vf_err);
    int r = source_from_stream(the_stream, buf, n);
    VF_ASSERT(calls == 1, "the stream is read once");
    if (vf_next != EOF) { VF_ASSERT(r == 1 && (unsigned char)buf[0] == vf_next, "every byte value is passed on"); VF_REACH("byte"); }
    else { VF_ASSERT(r == (vf_err ? -1 : 0), "end and failure of the stream are told apart"); VF_ASSERT(buf[0] == b0, "nothing is added at the end"); VF_REACH("end"); }
}
