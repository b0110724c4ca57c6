/* LZMA patches against a model of the decompression library. */
#define COMP 0
#include "shape.h"
#include "lzma_stub.h"
#include "heap.h"
#ifndef CHS
#define CHS {1, 2, 64, 5000}
#endif
static const int chs[] = CHS;
static struct detools_apply_patch_t ap;

void harness_body(void)
{
    size_t off, ch, hdr, stop;
    int res = 0, fin, mode;

    build();                                    /* raw[]: the uncompressed stream */
    hdr = pn - rawn;
    pbuf[0] = 1;
    /* the compressed form: as many bytes as the solver likes */
    lz_compn = (size_t)7 + symx_concretize(in_lt(4)) * 9;
    pn = hdr + lz_compn;
    symx_bytes(&pbuf[hdr], lz_compn);
    lz_comp = &pbuf[hdr];
    lz_shape = (int)symx_concretize(in_lt(3));
    lz_eager = (int)symx_concretize(in_lt(2));
    lz_err_at = -1; lz_calls = 0; lz_live = 0; lz_init_err = 0;
    mode = (int)symx_concretize(in_lt(5));
    heap_live = heap_calls = heap_failed = 0; heap_fail_at = -1;
    stop = pn;
    if (mode == 1) {                            /* the decoder fails */
        lz_err_at = in_lt(20);
        lz_err = LZMA_DATA_ERROR;
        { uint8_t c; IN(c); ASSUME(c >= 2 && c <= 11); lz_err = c; }
    } else if (mode == 2) {                     /* the patch is cut short */
        stop = hdr + symx_concretize(in_lt(4)) * lz_compn / 4;
    } else if (mode == 3) {                     /* the decoder cannot be set up */
        lz_init_err = LZMA_MEM_ERROR;
    } else if (mode == 4) {                     /* the heap is exhausted */
        heap_fail_at = in_lt(12);
    }
    ch = (size_t)PICK(chs);
    CHECK(ap_init(&ap, env_read, env_seek, stop, env_write, &e) == 0, "init succeeds");
    for (off = 0; off < stop && res == 0; off += ch)
        res = detools_apply_patch_process(&ap, &pbuf[off], stop - off < ch ? stop - off : ch);
    CHECK(res <= 0, "processing returns zero or a negative error");
    fin = detools_apply_patch_finalize(&ap);
    OBSERVE(res); OBSERVE(fin); OBSERVE(e.out_n);
    CHECK(lz_live == 0, "the decoder is released");
    CHECK(heap_live == 0, "all memory is released");
    for (size_t i = 0; i < e.out_n; i++)
        CHECK(i < to_size && e.out[i] == want[i], "only bytes the patch describes are written");
    if (heap_failed) {
        CHECK(fin < 0 && (res < 0 ? res : fin) == -DETOOLS_OUT_OF_MEMORY, "running out of memory is reported as such");
        WITNESS("no memory");
    } else if (lz_init_err) {
        CHECK(res == -DETOOLS_LZMA_INIT && fin < 0, "failing to set up the decoder is reported as such");
        WITNESS("no decoder");
    } else if (lz_err_at >= 0 && lz_calls > lz_err_at) {
        CHECK(fin < 0, "a decoder error is never reported as success");
        CHECK((res < 0 ? res : fin) == -DETOOLS_LZMA_DECODE, "a decoder error is reported as such");
        WITNESS("decoder error");
    } else if (stop < pn && lz_out < rawn) {
        CHECK(res < 0 || fin < 0, "a patch cut short is rejected");
        WITNESS("short");
    } else if (stop == pn) {
        CHECK(res == 0, "each part is accepted");
        CHECK(fin == (int)to_size, "finalize returns the to-size");
        CHECK(e.out_n == to_size, "exactly the to-size is written");
        WITNESS("applied");
    }
}
