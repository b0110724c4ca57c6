/* The in-place callback API. */
#include "ipshape.h"
#ifdef LZ
#include "lzpatch.h"
#endif
static size_t got;
static int rd_calls, rd_fail_at, rd_code, rd_failed, rd_after;

static int patch_read(void *a, uint8_t *b, size_t n)
{
    CHECK(a == &ip, "the user data is passed on");
    if (rd_failed || ip.failed) rd_after++;
    if (rd_calls++ == rd_fail_at) { rd_failed = 1; return rd_code; }
    CHECK(n > 0 && n <= pn - got, "no more than the patch is read");
    memcpy(b, &pbuf[got], n);
    got += n;
    return 0;
}

void harness_body(void)
{
    int res, short_by;

    ip_build();
#ifdef LZ
    lz_patch();
#endif
    got = 0; rd_calls = rd_failed = rd_after = 0;
    IN(rd_code);
    ASSUME(rd_code != 0);
    rd_fail_at = in_lt(6);
    if (symx_concretize(in_lt(2))) { ip.fail_at = in_lt(100); IN(ip.fail_code); ASSUME(ip.fail_code != 0); }
#ifdef LZ
    short_by = 0;                               /* data may be complete without the end marker */
#else
    short_by = (int)symx_concretize(in_lt(2));          /* declared one byte short */
#endif
    pn -= (size_t)short_by;
    ip.have_steps = (int)symx_concretize(in_lt(2));
    res = detools_apply_patch_in_place_callbacks(ip_read, ip_write, ip_erase, ip.have_steps ? ip_step_set : NULL,
                                                 ip.have_steps ? ip_step_get : NULL, patch_read, pn, &ip);
#ifdef LZ
    lz_released();
#endif
    OBSERVE(res); OBSERVE(got); OBSERVE(rd_calls);
    if (rd_failed || ip.failed) {
        CHECK(res < 0, "a failing callback is never reported as success");
        if (rd_failed) CHECK(res == -DETOOLS_IO_FAILED, "a failing patch read is reported as such");
        CHECK(rd_after == 0 && ip.after_fail == 0, "no callback after a failed callback");
        WITNESS("failed");
    } else if (short_by) {
        CHECK(res < 0, "a patch cut short is rejected");
        WITNESS("short");
    } else {
        CHECK(res == tosize, "the result is the to-size");
        CHECK(got == pn, "the whole patch is read");
        for (int i = 0; i < tosize; i++) CHECK(ip.mem[i] == want[i], "the memory holds the described to-data");
        CHECK(ip.step == 0, "the stored step is cleared after success");
        WITNESS("applied");
    }
}
