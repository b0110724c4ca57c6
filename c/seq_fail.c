/* Any callback failing with any nonzero value, at any call: the failure is
 * reported, nothing more is called, and the failure stays. */
#include "shape.h"
#ifndef SPLIT
#define SPLIT 0
#endif
static struct detools_apply_patch_t ap;

void harness_body(void)
{
    size_t k, off;
    int res = 0, fin, code;
    uint8_t at;

    build();
    IN(code);
    ASSUME(code != 0);
    IN(at);
    ASSUME(at < MAXCALLS);
    e.fail_at = at;
    e.fail_code = code;
    CHECK(ap_init(&ap, env_read, env_seek, pn, env_write, &e) == 0, "init succeeds");
    for (off = 0; off < pn && res == 0; off += k) {
        k = SPLIT == 0 || pn - off < SPLIT ? pn - off : SPLIT;
        res = detools_apply_patch_process(&ap, &pbuf[off], k);
        if (e.failed) CHECK(res < 0, "a failing callback makes processing fail");
    }
    OBSERVE(res);
    if (res < 0) {
        CHECK(detools_apply_patch_process(&ap, pbuf, pn) < 0, "processing keeps failing after a failure");
        CHECK(e.after_fail == 0, "no callback after a failed callback");
    }
    fin = detools_apply_patch_finalize(&ap);
    OBSERVE(fin); OBSERVE(e.calls);
    if (e.failed) {
        CHECK(fin < 0, "a failing callback is never reported as success");
        CHECK(e.after_fail == 0, "no callback after a failed callback");
        WITNESS("failed");
    } else {
        CHECK(res == 0 && fin == (int)to_size, "without failure the patch is applied");
        WITNESS("not failed");
    }
}
