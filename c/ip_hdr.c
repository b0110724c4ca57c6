/* In-place patch headers of any content: the error defined for what is wrong, and
 * no access to the memory. */
#include "ipenv.h"
#ifndef MODE
#define MODE 0                          /* 0: every header byte; 1: long sizes; 2: what follows a fine header */
#endif
#ifndef COMPS
#define COMPS 0x15                      /* compressions compiled in */
#endif
#define MAXN 16
static struct detools_apply_patch_in_place_t ap;

static int size_at(const uint8_t *p, size_t n, size_t *off, uint64_t *v)
{
    int sh = 6, k = 0;
    if (*off >= n) return 1;
    *v = p[*off] & 0x3f;
    while (p[(*off)++] & 0x80) {
        if (*off >= n) return 1;
        if (++k == 4) return 2;                         /* more than four bytes */
        *v |= (uint64_t)(p[*off] & 0x7f) << sh;
        sh += 7;
    }
    return 0;
}

void harness_body(void)
{
    uint8_t p[MAXN];
    size_t n = 0, off, len, cut = 0;
    int res = 0, fin, r = 0;
    uint64_t v[5] = {0, 0, 0, 0, 0};

    symx_bytes(p, sizeof(p));
#if MODE == 0
    n = symx_concretize(in_lt(7));
    if (n > 1) ASSUME(p[1] == 4);                       /* stated bound: memory and from-size */
    if (n > 4) ASSUME(p[4] == 0);
    if (n > 5) ASSUME((p[5] & 0xbf) <= 1 || (p[5] & 0x80));
#elif MODE == 1
    {
        size_t f = symx_concretize(in_lt(5));           /* the size that is long */
        ASSUME((p[0] & 0x7f) == 0x10);
        n = 11;
        for (size_t i = 1; i < f + 1; i++) { ASSUME(p[i] == (i == 1 ? 4 : i == 2 ? 1 : 0)); }
        if (symx_concretize(in_lt(2))) {
            for (size_t i = f + 1; i < f + 5; i++) ASSUME(p[i] & 0x80);
        } else {                                        /* as long as it may be, a small value */
            ASSUME((p[f + 1] & 0xbf) == (0x80 | (f == 0 ? 4 : f == 1 ? 1 : 0)));
            ASSUME(p[f + 2] == 0x80 && p[f + 3] == 0x80 && p[f + 4] == 0);
            for (size_t i = f + 5; i < 10; i++) { size_t k = i - 3; ASSUME(p[i] == (k == 2 ? 1 : 0)); }
            n = 9;
        }
    }
#else
    n = 6 + symx_concretize(in_lt(3));
    ASSUME((p[0] & 0x7f) == 0x10 || (p[0] & 0x7f) == 0x12 || (p[0] & 0x7f) == 0x14);
    ASSUME(p[1] == 4 && p[2] == 2 && p[3] == 2 && p[4] == 0 && p[5] == 1);
#endif
    cut = symx_concretize(in_lt((uint8_t)(n + 1)));
    ip_reset(&ip);
    ip.size = 4;
    symx_bytes(ip.mem, 4);
    CHECK(ip_init(&ap, &ip, n) == 0, "init succeeds");
    for (off = 0; off < n && res == 0; off += len) {
        len = off < cut ? cut : n - off;
        res = detools_apply_patch_in_place_process(&ap, &p[off], len);
    }
    {
        int calls = ip.calls;
        fin = detools_apply_patch_in_place_finalize(&ap);
        OBSERVE(res); OBSERVE(fin);
        CHECK(res <= 0, "processing returns zero or a negative error");
        if (res < 0) { CHECK(fin < 0, "errors stay"); CHECK(ip.calls == calls, "nothing is accessed after an error"); }
    }
    if (n == 0) {
        CHECK(fin == -DETOOLS_SHORT_HEADER, "an empty patch is a short header");
        WITNESS("empty");
        return;
    }
    if (((p[0] >> 4) & 7) != 1) {
        CHECK(res == -DETOOLS_BAD_PATCH_TYPE, "another patch type is rejected as bad patch type");
        CHECK(ip.calls == 0, "rejected before touching the memory");
        WITNESS("type");
        return;
    }
    off = 1;
    for (int k = 0; k < 5 && r == 0; k++) r = size_at(p, n, &off, &v[k]);
    if (r == 2) {
        CHECK(res == -DETOOLS_CORRUPT_PATCH_OVERFLOW, "a size too big is rejected as overflow");
        CHECK(ip.calls == 0, "rejected before touching the memory");
        WITNESS("overflow");
        return;
    }
    if (r == 1) {
        CHECK(res == 0 && fin < 0, "an incomplete header is not a success");
        CHECK(ip.calls == 0, "nothing is accessed before the header is complete");
        WITNESS("incomplete");
        return;
    }
    if (!((COMPS >> (p[0] & 15)) & 1)) {
        CHECK(res == -DETOOLS_BAD_COMPRESSION, "an unknown compression is rejected as bad compression");
        CHECK(ip.calls == 0, "rejected before touching the memory");
        WITNESS("compression");
        return;
    }
    if (MODE == 1) CHECK(v[4] == 0, "(the harness made an empty to-file)");
    if (v[4] == 0) {
        CHECK(res == 0 && ip.calls == 0, "an empty to-file does not touch the memory");
        if (off == n) CHECK(fin == 0, "an empty to-file is created");
        WITNESS("empty to-file");
        return;
    }
    if (v[1] == 0 || v[2] > v[0] || v[4] > v[0]) {
        CHECK(res < 0 && ip.calls == 0, "impossible sizes are rejected before touching the memory");
        WITNESS("sizes");
        return;
    }
#if MODE == 2
    if (off == n) return;
    switch (p[0] & 15) {
    case 0:
        if (p[off] & 0x80) return;
        if ((p[off] & 0x40) == 0 && (p[off] & 0x3f)) {
            CHECK(res == -DETOOLS_NOT_IMPLEMENTED, "data format patches are rejected as not implemented");
            WITNESS("data format");
        }
        break;
    case 2:
        if (p[off] > 1) {
            CHECK(res == -DETOOLS_CORRUPT_PATCH_CRLE_KIND, "a bad CRLE kind is rejected as such");
            WITNESS("kind");
        }
        break;
    case 4:
        if (p[off] != 0x44 && off + 1 == n) return;
        if (p[off] != 0x44) {
            CHECK(res == -DETOOLS_HEATSHRINK_HEADER, "another heatshrink window or lookahead is rejected as such");
            WITNESS("heatshrink header");
        }
        break;
    }
#endif
}
