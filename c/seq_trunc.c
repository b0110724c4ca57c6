/* A well-formed patch cut short anywhere, or (uncompressed) with bytes added,
 * is never applied successfully, and writes only what is right. */
#include "shape.h"
#ifndef SPLIT
#define SPLIT 0
#endif
static struct detools_apply_patch_t ap;

void harness_body(void)
{
    uint16_t cut;
    size_t n, k, off, size;
    int res = 0, fin, declared;

    build();
    IN(cut);
#ifdef DECLARED                                 /* complete, but not of the size it should have */
    ASSUME(cut != pn);
    n = pn;
#elif defined(LONGER)
    ASSUME(cut >= 1 && cut <= 3);
    n = pn + symx_concretize(cut);
    symx_bytes(&pbuf[pn], n - pn);
#else
    ASSUME(cut < pn);
    n = symx_concretize(cut);
#endif
    /* the declared size may be what arrives or what should have */
#if defined(LONGER) || defined(DECLARED)
    declared = 0;
#else
    declared = (int)symx_concretize(in_lt(2));
#endif
#ifdef DECLARED
    size = cut;
#else
    size = declared ? pn : n;
#endif
    CHECK(ap_init(&ap, env_read, env_seek, size, env_write, &e) == 0, "init succeeds");
#if SPLIT == 0
    if (n) res = detools_apply_patch_process(&ap, pbuf, n);
    (void)off; (void)k;
#else
    for (off = 0; off < n && res == 0; off += k) {
        k = n - off < SPLIT ? n - off : SPLIT;
        res = detools_apply_patch_process(&ap, &pbuf[off], k);
    }
#endif
    fin = detools_apply_patch_finalize(&ap);
    OBSERVE(res); OBSERVE(fin); OBSERVE(e.out_n);
    CHECK(res <= 0, "processing returns zero or a negative error");
#ifdef DECLARED
    CHECK(res < 0 || fin < 0, "an uncompressed patch of another size than declared is rejected");
    WITNESS("declared");
#elif defined(LONGER)
    CHECK(res < 0 || fin < 0, "an uncompressed patch with surplus bytes is rejected");
    WITNESS("longer");
#else
    CHECK(res < 0 || fin < 0, "a patch cut short is rejected");
    if (declared && n > 0) {
        CHECK(res == 0, "processing the beginning of a patch is no error");
        CHECK(fin == -DETOOLS_NOT_ENOUGH_PATCH_DATA || (COMP == 0 && fin == -DETOOLS_CORRUPT_PATCH),
              "missing data is reported as such");
    }
    if (n == 0) CHECK(fin == -DETOOLS_SHORT_HEADER, "no data at all is a short header");
    WITNESS("short");
#endif
    CHECK(e.out_n <= to_size, "no more than the to-size is written");
    for (size_t i = 0; i < e.out_n; i++)
        CHECK(e.out[i] == want[i], "only bytes the patch describes are written");
}
