/* Arbitrary patch bytes: handing the patch over in parts gives the same
 * outcome and output as handing it over whole.  Only real code on both sides. */
#include "env.h"

#ifdef RAWN
#include "rawpatch.h"
#define PATCH pbuf
#else
#define PATCH patch
#endif
#ifndef N
#define N 7
#endif
#ifndef TMAX
#define TMAX 4
#endif
#ifndef NFROM
#define NFROM 3
#endif

#ifndef RAWN
static uint8_t patch[N];
#endif
static struct env e1, e2;
static struct detools_apply_patch_t ap1, ap2;

void harness_body(void)
{
    size_t n, off, len;
    int r1, r2 = 0, f1, f2;

#ifdef RAWN
    raw_patch(COMP, in_lt(TMAX + 1));
    n = pn;
#else
    IN(patch);
    n = N;
#  ifdef COMP
    ASSUME(patch[0] == COMP);
#  endif
#  ifdef SZ4                                    /* CRLE: to-size and diff size of four bytes, nothing more */
    ASSUME(patch[1] >= 0x80 && patch[2] >= 0x80 && patch[3] >= 0x80 && patch[5] == 0 && patch[6] == 5 && patch[7] == 0
           && patch[8] >= 0x80 && patch[9] >= 0x80 && patch[10] >= 0x80);
#  endif
#  ifndef SZ4
    ASSUME(patch[1] <= TMAX);                   /* to-size */
#  endif
#endif
    env_reset(&e1); env_reset(&e2);
    e1.from_n = e2.from_n = NFROM;
    symx_bytes(e1.from, NFROM);
    memcpy(e2.from, e1.from, NFROM);
    CHECK(ap_init(&ap1, env_read, env_seek, n, env_write, &e1) == 0, "init succeeds");
    r1 = detools_apply_patch_process(&ap1, PATCH, n);
    f1 = detools_apply_patch_finalize(&ap1);

    CHECK(ap_init(&ap2, env_read, env_seek, n, env_write, &e2) == 0, "init succeeds");
    for (off = 0; off < n && r2 == 0; off += len) {
#ifdef TWO
        len = off ? n - off : 1 + symx_concretize(in_lt((uint8_t)(n - 1)));
#else
        len = 1 + symx_concretize(in_lt((uint8_t)(n - off)));
#endif
        r2 = detools_apply_patch_process(&ap2, &PATCH[off], len);
    }
    f2 = detools_apply_patch_finalize(&ap2);
    OBSERVE(r1); OBSERVE(f1); OBSERVE(r2); OBSERVE(f2);

    CHECK(r1 == r2, "processing reports the same result for any split");
    if (r1 == 0) CHECK(f1 == f2, "finalizing reports the same result for any split");
    if (r1 == 0 && f1 >= 0) {
        CHECK(e1.out_n == e2.out_n, "the same number of bytes is written for any split");
        if (f1 > 0) WITNESS("applied");
    } else {
        WITNESS("rejected");
    }
    for (size_t i = 0; i < e1.out_n && i < e2.out_n && i < TMAX; i++) {
        CHECK(e1.out[i] == e2.out[i], "the same bytes are written for any split");
    }
}
