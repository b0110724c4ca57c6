/* Any in-place callback failing with any nonzero value, at any call. */
#include "ipshape.h"
#ifdef LZ
#include "lzpatch.h"
#endif
#ifndef SPLIT
#define SPLIT 0
#endif
static struct detools_apply_patch_in_place_t ap;

void harness_body(void)
{
    size_t k, off;
    int res = 0, fin, code;

    ip_build();
#ifdef LZ
    lz_patch();
#endif
    IN(code);
    ASSUME(code != 0);
    ip.fail_at = in_lt(MAXCALLS);
    ip.fail_code = code;
    CHECK(ip_init(&ap, &ip, pn) == 0, "init succeeds");
    for (off = 0; off < pn && res == 0; off += k) {
        k = SPLIT == 0 || pn - off < SPLIT ? pn - off : SPLIT;
        res = detools_apply_patch_in_place_process(&ap, &pbuf[off], k);
        if (ip.failed) CHECK(res < 0, "a failing callback makes processing fail");
    }
    OBSERVE(res);
    if (res < 0) {
        CHECK(detools_apply_patch_in_place_process(&ap, pbuf, pn) < 0, "processing keeps failing after a failure");
        CHECK(ip.after_fail == 0, "no callback after a failed callback");
    }
    fin = detools_apply_patch_in_place_finalize(&ap);
    OBSERVE(fin); OBSERVE(ip.calls);
    if (ip.failed) {
        CHECK(fin < 0, "a failing callback is never reported as success");
        CHECK(ip.after_fail == 0, "no callback after a failed callback");
        CHECK(!ip.cleared, "the stored step is not cleared by a failed run");
        WITNESS("failed");
    } else {
        CHECK(res == 0 && fin == tosize, "without failure the patch is applied");
        for (int i = 0; i < tosize; i++) CHECK(ip.mem[i] == want[i], "the memory holds the described to-data");
        WITNESS("not failed");
    }
}
