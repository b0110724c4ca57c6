/* Well-formed in-place patches: the memory holds the described to-data
 * afterwards, whether or not steps are stored and however the patch arrives. */
#include "ipshape.h"
#ifdef LZ
#include "lzpatch.h"
#endif
#ifndef SPLIT
#define SPLIT 0
#endif
static struct detools_apply_patch_in_place_t ap;

void harness_body(void)
{
    size_t off, len;
    int res = 0, fin;

    ip_build();
#ifdef LZ
    lz_patch();
#endif
    ip.have_steps = (int)symx_concretize(in_lt(2));
    CHECK(ip_init(&ap, &ip, pn) == 0, "init succeeds");
#if SPLIT == 2
    { uint16_t cut; IN(cut); ASSUME(cut > 0 && cut < pn); len = symx_concretize(cut); }
#endif
    for (off = 0; off < pn && res == 0; off += len) {
#if SPLIT == 0
        len = pn;
#elif SPLIT == 1
        len = 1;
#else
        if (off) len = pn - off;
#endif
        res = detools_apply_patch_in_place_process(&ap, &pbuf[off], len);
    }
    CHECK(res == 0, "each part is accepted");
    fin = detools_apply_patch_in_place_finalize(&ap);
#ifdef LZ
    lz_released();
#endif
    OBSERVE(fin); OBSERVE(ip.calls);
    CHECK(fin == tosize, "finalize returns the to-size");
    for (int i = 0; i < tosize; i++) CHECK(ip.mem[i] == want[i], "the memory holds the described to-data");
    if (ip.have_steps) CHECK(ip.step == 0, "the stored step is cleared after success");
    else CHECK(ip.nset == 0, "no step is stored without step callbacks");
    if (ip.have_steps) WITNESS("steps"); else WITNESS("no steps");
}
