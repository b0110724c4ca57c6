/* The callback API: reads the patch in order, completely and only once, and
 * gives the same result; a failing patch read is reported. */
#include "shape.h"
#ifdef LZ
#include "lzpatch.h"
#endif
static size_t got;
static int rd_calls, rd_fail_at, rd_code, rd_failed, rd_after;

static int patch_read(void *a, uint8_t *b, size_t n)
{
    CHECK(a == &e, "the user data is passed on");
    if (rd_failed) rd_after++;
    if (rd_calls++ == rd_fail_at) { rd_failed = 1; return rd_code; }
    CHECK(n > 0 && n <= pn - got, "no more than the patch is read");
    memcpy(b, &pbuf[got], n);
    got += n;
    return 0;
}

void harness_body(void)
{
    int res, short_by, env_fail;

    build();
#ifdef LZ
    lz_patch();
#endif
    got = 0; rd_calls = rd_failed = rd_after = 0;
    IN(rd_code);
    ASSUME(rd_code != 0);
    rd_fail_at = in_lt(6);
    env_fail = (int)symx_concretize(in_lt(2));
    if (env_fail) { e.fail_at = in_lt(12); IN(e.fail_code); ASSUME(e.fail_code != 0); }
#ifdef LZ
    short_by = 0;                               /* data may be complete without the end marker */
#else
    short_by = (int)symx_concretize(in_lt(2));          /* declared one byte short */
#endif
    pn -= (size_t)short_by;
    res = detools_apply_patch_callbacks(env_read, env_seek, patch_read, pn, env_write, &e);
#ifdef LZ
    lz_released();
#endif
    OBSERVE(res); OBSERVE(got); OBSERVE(rd_calls);
    if (rd_failed || e.failed) {
        CHECK(res < 0, "a failing callback is never reported as success");
        CHECK(res == -DETOOLS_IO_FAILED, "a failing callback is reported as such");
        CHECK(rd_after == 0 && e.after_fail == 0, "no callback after a failed callback");
        WITNESS("failed");
    } else if (short_by) {
        CHECK(res < 0, "a patch cut short is rejected");
        WITNESS("short");
    } else {
        CHECK(res == (int)to_size, "the result is the to-size");
        CHECK(got == pn, "the whole patch is read");
        CHECK(e.out_n == to_size, "exactly the to-size is written");
        for (size_t i = 0; i < to_size; i++) CHECK(e.out[i] == want[i], "every written byte is the one the patch describes");
        WITNESS("applied");
    }
}
