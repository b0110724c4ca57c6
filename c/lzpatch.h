/* Turns the patch in pbuf[], uncompressed so far, into an LZMA patch: as many
 * compressed bytes as the solver likes, decoded by the model of liblzma. */
#ifndef LZPATCH_H
#define LZPATCH_H
#include "lzma_stub.h"
#include "heap.h"
#ifndef LZN
#define LZN 18
#endif
static void lz_patch(void)
{
    size_t hdr = pn - rawn;
    pbuf[0] |= 1;
    lz_compn = (size_t)7 + symx_concretize(in_lt(2)) * LZN;
    pn = hdr + lz_compn;
    symx_bytes(&pbuf[hdr], lz_compn);
    lz_comp = &pbuf[hdr];
    lz_shape = (int)symx_concretize(in_lt(3));
    lz_eager = (int)symx_concretize(in_lt(2));
    lz_err_at = -1; lz_calls = 0; lz_live = 0; lz_init_err = 0;
    heap_live = heap_calls = heap_failed = 0; heap_fail_at = -1;
}
static void lz_released(void)
{
    CHECK(lz_live == 0, "the decoder is released");
    CHECK(heap_live == 0, "all memory is released");
}
#endif
