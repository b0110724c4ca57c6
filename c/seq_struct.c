/* Well-formed patches of chosen shape with symbolic data: the result is the
 * to-data the patch describes, however the patch is handed over. */
#include "shape.h"

/* SPLIT: 0 whole, 1 bytewise, 2 two parts cut anywhere, 3 fixed parts of CH */
#ifndef SPLIT
#define SPLIT 0
#endif
#ifndef CH
#define CH 128
#endif

static struct detools_apply_patch_t ap;

void harness_body(void)
{
    size_t off, len;
    int res = 0, fin;

    build();
    CHECK(ap_init(&ap, env_read, env_seek, pn, env_write, &e) == 0, "init succeeds");
#if SPLIT == 0
    res = detools_apply_patch_process(&ap, pbuf, pn);
    (void)off; (void)len;
#elif SPLIT == 2
    {
        uint16_t cut;
        IN(cut);
        ASSUME(cut <= pn);
        len = symx_concretize(cut);
        if (len > 0) res = detools_apply_patch_process(&ap, pbuf, len);
        CHECK(res == 0, "each part is accepted");
        if (len < pn) res = detools_apply_patch_process(&ap, &pbuf[len], pn - len);
        (void)off;
    }
#else
    for (off = 0; off < pn && res == 0; off += len) {
        len = SPLIT == 1 ? 1 : pn - off < CH ? pn - off : CH;
        res = detools_apply_patch_process(&ap, &pbuf[off], len);
    }
#endif
    CHECK(res == 0, "each part is accepted");
    fin = detools_apply_patch_finalize(&ap);
    CHECK(fin == (int)to_size, "finalize returns the to-size");
    CHECK(e.out_n == to_size, "exactly the to-size is written");
    for (size_t i = 0; i < to_size; i++) {
        CHECK(e.out[i] == want[i], "every written byte is the one the patch describes");
        if (i < 4) OBSERVE(e.out[i]);
    }
    OBSERVE(fin); OBSERVE(e.calls);
    WITNESS("applied");
}
