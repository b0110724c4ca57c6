/* Dumping and restoring: a storage or from-file failure is reported, a state
 * that cannot be dumped is refused. */
#include "shape.h"
#ifdef LZ
#include "lzma_stub.h"
#endif
static struct detools_apply_patch_t ap, ap2;
static struct env env2;
static uint8_t store[sizeof(struct detools_apply_patch_t) + 64];
static size_t stored, loaded;
static int s_calls, s_fail_at, s_code, s_failed;

static int st_write(void *a, const void *b, size_t n)
{
    CHECK(a == &e, "the user data is passed on");
    if (s_calls++ == s_fail_at) { s_failed = 1; return s_code; }
    CHECK(stored + n <= sizeof(store), "the dump fits the object size");
    memcpy(store + stored, b, n);
    stored += n;
    return 0;
}
static int st_read(void *a, void *b, size_t n)
{
    CHECK(a == &env2, "the user data is passed on");
    if (s_calls++ == s_fail_at) { s_failed = 1; return s_code; }
    CHECK(loaded + n <= stored, "restore reads no more than was dumped");
    memcpy(b, store + loaded, n);
    loaded += n;
    return 0;
}
void harness_body(void)
{
    size_t at;
    int res, fin;

    build();
    at = symx_concretize(in_lt((uint8_t)(pn < 200 ? pn + 1 : 200)));
#ifdef LZ
    pbuf[0] = 1;
    lz_comp = &pbuf[pn - rawn]; lz_compn = rawn; lz_shape = 0; lz_eager = 1;
#endif
    IN(s_code);
    ASSUME(s_code != 0);
    s_fail_at = in_lt(4);
    s_calls = s_failed = 0; stored = loaded = 0;
    CHECK(ap_init(&ap, env_read, env_seek, pn, env_write, &e) == 0, "init succeeds");
    CHECK(detools_apply_patch_process(&ap, pbuf, at) == 0, "each part is accepted");
    res = detools_apply_patch_dump(&ap, st_write);
    OBSERVE(res);
    if (s_failed) {
        CHECK(res < 0, "a failing storage is never reported as success");
        WITNESS("failed");
        fin = 0;
        for (; at < pn && fin == 0; at++) fin = detools_apply_patch_process(&ap, &pbuf[at], 1);
        CHECK(fin == 0, "the patch can still be applied after a failed dump");
        fin = detools_apply_patch_finalize(&ap);
        CHECK(fin == (int)to_size, "the patch can still be applied after a failed dump");
        for (size_t i = 0; i < to_size; i++) CHECK(e.out[i] == want[i], "a failed dump does not change the output");
        return;
    }
#ifdef LZ
    if (at >= pn - rawn && at > 1) {
        CHECK(res == -DETOOLS_NOT_IMPLEMENTED, "an LZMA decoder is not dumped");
        WITNESS("refused");
        detools_apply_patch_finalize(&ap);
    }
    return;
#endif
    CHECK(res == 0, "dumping succeeds");
    s_calls = 0;
    IN(s_code);
    ASSUME(s_code != 0);
    s_fail_at = in_lt(4);
    env_reset(&env2);
    env2.from_n = e.from_n;
    env2.fail_at = in_lt(2) ? 0 : -1;
    IN(env2.fail_code);
    ASSUME(env2.fail_code != 0);
    CHECK(ap_init(&ap2, env_read, env_seek, pn, env_write, &env2) == 0, "init succeeds");
    res = detools_apply_patch_restore(&ap2, st_read);
    OBSERVE(res);
    if (s_failed || env2.failed) {
        CHECK(res < 0, "a failing storage or from-file is never reported as success");
        WITNESS("restore failed");
    } else {
        CHECK(res == 0, "restoring succeeds");
        WITNESS("refused");
    }
}
