/* Arbitrary patch bytes, arbitrary from-data, any split into process() calls:
 * outcome, output bytes and safety against the reference. */
#ifdef REF_MAX
#define ENV_OUT REF_MAX
#endif
#include "ref.h"
#include "env.h"

#ifdef RAWN
#include "rawpatch.h"
#define PATCH pbuf
#else
#define PATCH patch
#endif
#ifndef N
#define N 8
#endif
#ifndef COMP
#define COMP 0
#endif
#ifndef TMAX
#define TMAX 4
#endif
#ifndef NFROM
#define NFROM 3
#endif

#ifndef RAWN
static uint8_t patch[N];
#endif
static struct env e;
static struct ref_res ref;
static struct detools_apply_patch_t ap;

void harness_body(void)
{
    size_t n, off, len;
    int res = 0, fin;

#ifdef RAWN
    raw_patch(COMP, in_lt(TMAX + 1));
    n = pn;
#  ifdef ANYLEN
    n = symx_concretize(in_lt((uint8_t)(pn + 1)));
#  endif
#else
    IN(patch);
    n = N;
#  ifdef ANYLEN
    n = symx_concretize(in_lt(N + 1));
#  endif
#  ifdef SZ4                                    /* CRLE: to-size and diff size of four bytes, nothing more */
    ASSUME(patch[1] >= 0x80 && patch[2] >= 0x80 && patch[3] >= 0x80 && patch[5] == 0 && patch[6] == 5 && patch[7] == 0
           && patch[8] >= 0x80 && patch[9] >= 0x80 && patch[10] >= 0x80);
#  endif
#  ifdef CRLE_LONG
    ASSUME(patch[1] == 1 && patch[2] <= 1 && patch[3] >= 0x80 && patch[4] >= 0x80 && patch[5] >= 0x80);
#  endif
#  ifndef FREEHDR
    if (n > 0) ASSUME(patch[0] == COMP);
#  endif
#endif
    env_reset(&e);
    e.from_n = NFROM;
    symx_bytes(e.from, NFROM);
    ref_seq(&ref, PATCH, n, e.from, e.from_n);
    ASSUME(ref.to_size <= TMAX);

    CHECK(ap_init(&ap, env_read, env_seek, n, env_write, &e) == 0, "init succeeds");
#if SPLIT == 0
    res = detools_apply_patch_process(&ap, PATCH, n);
#else
    for (off = 0; off < n && res == 0; off += len) {
#  if SPLIT == 1
        len = 1;
#  else
        len = 1 + symx_concretize(in_lt((uint8_t)(n - off)));
#  endif
        res = detools_apply_patch_process(&ap, &PATCH[off], len);
    }
#endif
    (void)off; (void)len;
    fin = detools_apply_patch_finalize(&ap);
    OBSERVE(res); OBSERVE(fin); OBSERVE(e.out_n);
    for (size_t i = 0; i < e.out_n && i < TMAX; i++) OBSERVE(e.out[i]);
    if (ref.status == REF_OK && ref.to_size > 0) WITNESS("well-formed");
    if (ref.status == REF_TRUNC) WITNESS("truncated");
#ifdef P_RESULT
    CHECK(res <= 0, "processing returns zero or a negative error");
    if (res < 0) CHECK(fin < 0, "after a failed step finalize fails");
    CHECK(e.out_n <= ref.out_n, "nothing is written that the patch does not describe");
    for (size_t i = 0; i < e.out_n && i < TMAX; i++)
        CHECK(e.out[i] == ref.out[i], "every written byte is the one the patch describes");
    if (ref.status == REF_OK) {
        CHECK(res == 0, "a well-formed patch is not rejected");
        if (ref.used == n && !ref.pending)
            CHECK(fin == (int)ref.to_size, "a well-formed patch succeeds with the to-size");
        if (fin >= 0) {
            CHECK(fin == (int)ref.to_size, "success returns the to-size");
            CHECK(e.out_n == ref.to_size, "success means all bytes written");
        }
    } else {
        CHECK(res < 0 || fin < 0, "a malformed or incomplete patch is not applied successfully");
    }
#endif
#ifdef P_BOUND
    CHECK(ref.to_size > TMAX || e.out_n <= ref.to_size, "no more than the declared to-size is written");
    if (res == 0 && fin >= 0) {
        CHECK(ref.status != REF_EMPTY && fin == (int)ref.to_size, "success returns the declared to-size");
        CHECK(e.out_n == ref.to_size, "success means exactly the declared to-size is written");
    } else {
        CHECK(res < 0 || fin < 0, "failure is reported as a negative value");
    }
    if (ref.status == REF_BAD) WITNESS("too long");
#endif
#ifdef SZ4
    if (ref.status == REF_BAD) CHECK(res < 0, "a diff size beyond the to-size is rejected");
    if (ref.status == REF_TRUNC) CHECK(res == 0, "a diff size up to the to-size is accepted");
#endif
#ifdef P_TRUNC
    if (ref.status == REF_TRUNC) {
        CHECK(fin < 0, "an incomplete patch is not a success");
        if (!e.failed) {
            CHECK(res == 0 || (COMP == 0 && res == -DETOOLS_CORRUPT_PATCH), "no other error for incomplete data");
            if (COMP != 0) CHECK(fin == -DETOOLS_NOT_ENOUGH_PATCH_DATA, "missing data is reported as such");
        }
    }
    if (ref.status == REF_OK && ref.used < n && ref.comp == 0) {
        CHECK(res < 0 || fin < 0, "an uncompressed patch with surplus bytes is rejected");
        WITNESS("surplus");
    }
    if (ref.status == REF_OK && ref.comp == 4 && ref.pending)
        CHECK(fin < 0, "undelivered decompressed data is rejected");
#endif
#ifdef P_HDR
    switch (ref.status) {
    case REF_EMPTY:
        CHECK(fin == -DETOOLS_SHORT_HEADER, "an empty patch is a short header");
        WITNESS("empty");
        break;
    case REF_TYPE:
        CHECK(res == -DETOOLS_BAD_PATCH_TYPE, "another patch type is rejected as bad patch type");
        CHECK(e.calls == 0, "rejected before touching any data");
        CHECK(fin < 0, "finalize fails after rejection");
        WITNESS("type");
        break;
    case REF_COMP:
        CHECK(res == -DETOOLS_BAD_COMPRESSION, "an unknown compression is rejected as bad compression");
        CHECK(e.calls == 0, "rejected before touching any data");
        CHECK(fin < 0, "finalize fails after rejection");
        WITNESS("compression");
        break;
    case REF_OVERFLOW:
        CHECK(res == -DETOOLS_CORRUPT_PATCH_OVERFLOW, "a size too big is rejected as overflow");
        CHECK(fin < 0, "finalize fails after rejection");
        WITNESS("overflow");
        break;
    case REF_DF:
        CHECK(res == -DETOOLS_NOT_IMPLEMENTED, "data format patches are rejected as not implemented");
        CHECK(e.calls == 0, "rejected before touching any data");
        WITNESS("data format");
        break;
    case REF_KIND:
        CHECK(res == -DETOOLS_CORRUPT_PATCH_CRLE_KIND, "a bad CRLE kind is rejected as such");
        WITNESS("kind");
        break;
    case REF_HSHDR:
        CHECK(res == -DETOOLS_HEATSHRINK_HEADER, "another heatshrink window or lookahead is rejected as such");
        WITNESS("heatshrink header");
        break;
    case REF_OK:
        if (ref.to_size == 0 && ref.used == n) {
            CHECK(res == 0 && fin == 0, "an empty to-file is created by an empty patch");
            CHECK(e.calls == 0, "nothing is written for an empty to-file");
            WITNESS("empty to-file");
        }
        break;
    }
#endif
}
