/* Many adjustments of any size the encoding can hold: the from-position is
 * always the sum of all moves or the patch is rejected; never a wrapped one. */
#include "enc.h"
#include "env.h"
#ifndef PRE
#define PRE 0                   /* that many of the largest moves first */
#endif
#ifndef MOVES
#define MOVES 18
#endif
static struct detools_apply_patch_t ap, ap2;
static int64_t pos, pos2, sum;
static uint8_t store[sizeof(struct detools_apply_patch_t) + 64];
static size_t stored, loaded;
static int rd(void *a, uint8_t *b, size_t n) { (void)a; (void)b; (void)n; return -1; }
static int sk(void *a, int o) { *(int64_t *)a += o; return 0; }
static int wr(void *a, const uint8_t *b, size_t n) { (void)a; (void)b; (void)n; return 0; }
static int st_write(void *a, const void *b, size_t n)
{
    (void)a;
    CHECK(stored + n <= sizeof(store), "the dump fits the object size");
    memcpy(store + stored, b, n);
    stored += n;
    return 0;
}
static int st_read(void *a, void *b, size_t n)
{
    (void)a;
    CHECK(loaded + n <= stored, "restore reads no more than was dumped");
    memcpy(b, store + loaded, n);
    loaded += n;
    return 0;
}
void harness_body(void)
{
    int res, k, fin;
    uint8_t b[4];

    pn = 0;
    p_put(0); p_put(1); p_put(0);
    pos = pos2 = sum = 0;
    stored = loaded = 0;
    for (k = 0; k < MOVES; k++) {
        p_put(0); p_put(0);
        /* stated bound: sign and the 7 highest bits are free */
        b[0] = SIGN == 1 ? 0xff : SIGN == 0 ? 0xbf : (uint8_t)(0xbf | symx_concretize(in_lt(2)) << 6);
        b[1] = b[2] = 0xff;
        b[3] = k < PRE ? 127 : in_lt(128);
        for (int i = 0; i < 4; i++) p_put(b[i]);
    }
    CHECK(ap_init(&ap, rd, sk, pn + 4, wr, &pos) == 0, "init succeeds");
    CHECK(detools_apply_patch_process(&ap, pbuf, 3) == 0, "each part is accepted");
    res = 0;
    for (k = 0; k < MOVES && res == 0; k++) {
        const uint8_t *q = &pbuf[3 + 6 * k + 2];
        int32_t v = (int32_t)(q[0] & 63) | (int32_t)(q[1] & 127) << 6 | (int32_t)(q[2] & 127) << 13 | (int32_t)q[3] << 20;
        if (q[0] & 0x40) v = -v;
        sum += v;
        res = detools_apply_patch_process(&ap, &pbuf[3 + 6 * k], 6);
        CHECK(res <= 0, "processing returns zero or a negative error");
        if (sum > INT32_MAX || sum < INT32_MIN) {
            CHECK(res < 0, "a position that cannot be represented is rejected");
        } else {
            CHECK(res == 0, "a representable position is accepted");
        }
        if (res == 0) CHECK(pos == sum, "the from-file is moved by the sum of all adjustments");
    }
    if (res < 0) {
        fin = detools_apply_patch_finalize(&ap);
        CHECK(fin < 0, "errors stay");
        WITNESS("rejected");
        return;
    }
    CHECK(detools_apply_patch_dump(&ap, st_write) == 0, "dumping succeeds");
    CHECK(ap_init(&ap2, rd, sk, pn + 4, wr, &pos2) == 0, "init succeeds");
    CHECK(detools_apply_patch_restore(&ap2, st_read) == 0, "restoring succeeds");
    CHECK(pos2 == sum, "restoring moves the from-file to where it was");
    {
        static const uint8_t tail[] = {0, 1, 0x55, 0};
        CHECK(detools_apply_patch_process(&ap2, tail, 4) == 0, "each part is accepted after restoring");
    }
    fin = detools_apply_patch_finalize(&ap2);
    CHECK(fin == 1, "finalize returns the to-size after restoring");
    WITNESS("success");
}
