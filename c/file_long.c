/* Files beyond 16 bits: the bytes at the edges are free, the others fixed. */
#define RAWCAP 70000
#define VCAP 150000
#include "enc.h"
#include "env.h"
#include "vfs.h"
#ifndef LENS
#define LENS {200, 65536, 66000}
#endif
#ifndef MOVE
#define MOVE {0, 67000, 139000}
#endif
static const int lens[] = LENS, moves[] = MOVE;
#define PICK(t) t[symx_concretize(in_lt(sizeof(t) / sizeof(t[0])))]
#define NFROM 140000
static uint8_t fixed(size_t i) { return (uint8_t)(i * 31 + (i >> 8) + (i >> 16) * 5); }
void harness_body(void)
{
    size_t d, x, at1, at2, at3;
    int res, n = 0, move;

    rawn = pn = 0;
    v_reset("from", "patch", "to");
    for (size_t i = 0; i < NFROM; i++) vf[0].b[i] = fixed(i);
    vf[0].n = NFROM; vf[0].exists = 1;
    d = (size_t)PICK(lens);
    x = (size_t)PICK(lens);
    if (d + x > 70000 - 200) { ASSUME(0); return; }
    move = PICK(moves);
    symx_bytes(&vf[0].b[move], 4);
    raw_size(0);
    raw_size((int64_t)d);
    at1 = rawn; for (size_t i = 0; i < d; i++) raw_put((uint8_t)(i * 7 + (i >> 8)));
    symx_bytes(&raw[at1 + d - 2], 2);
    raw_size((int64_t)x);
    at2 = rawn; for (size_t i = 0; i < x; i++) raw_put((uint8_t)(i * 5 + (i >> 8)));
    symx_bytes(&raw[at2 + x - 2], 2);
    raw_size(move - (int64_t)d);
    raw_size(4);
    at3 = rawn; raw_syms(4);
    raw_size(0); raw_size(0);
    p_put(0);
    n = (int)(d + x + 4);
    p_size(n);
    enc_none();
    memcpy(vf[1].b, pbuf, pn); vf[1].n = pn; vf[1].exists = 1;
    res = detools_apply_patch_filenames("from", "patch", "to");
    OBSERVE(res); OBSERVE(vf[2].n);
    v_closed();
    CHECK(!v_failed, "nothing is read outside of the files");
    CHECK(res == n, "the result is the to-size");
    CHECK(vf[2].n == (size_t)n, "the result file has the to-size");
    for (size_t i = 0; i < d; i++)
        CHECK(vf[2].b[i] == (uint8_t)(raw[at1 + i] + vf[0].b[i]), "the result file holds the described to-data");
    for (size_t i = 0; i < x; i++)
        CHECK(vf[2].b[d + i] == raw[at2 + i], "the result file holds the described to-data");
    for (size_t i = 0; i < 4; i++)
        CHECK(vf[2].b[d + x + i] == (uint8_t)(raw[at3 + i] + vf[0].b[(size_t)move + i]), "the result file holds the described to-data");
    WITNESS("applied");
}
