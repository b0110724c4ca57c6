/* Power loss at any modifying operation (before, in the middle of or after it),
 * up to CRASHES times, each followed by starting over with the same patch: the
 * final memory is that of an uninterrupted run. */
#include "ipshape.h"
#ifndef CRASHES
#define CRASHES 1
#endif
#ifndef MAXOPS
#define MAXOPS 200
#endif
#ifndef CH
#define CH 7
#endif
static struct detools_apply_patch_in_place_t ap;

static int once(int *fin)
{
    int res = 0;
    size_t off;
    CHECK(ip_init(&ap, &ip, pn) == 0, "init succeeds");
    for (off = 0; off < pn && res == 0; off += CH)
        res = detools_apply_patch_in_place_process(&ap, &pbuf[off], pn - off < CH ? pn - off : CH);
    *fin = detools_apply_patch_in_place_finalize(&ap);
    return res;
}

void harness_body(void)
{
    int fin, res;

    ip_build();
    for (int k = 0; k < CRASHES && !ip.cleared; k++) {
#ifdef AFTER
        ip.after = AFTER + (int)symx_concretize(in_lt(NAFTER));
#endif
        ip.crash_at = in_lt(MAXOPS);
        ip.torn = in_lt(3);
        ip.ops = 0;
        res = once(&fin);
        if (!ip.dead) {                         /* finished before the crash point */
            CHECK(res == 0 && fin == tosize, "an uninterrupted run succeeds");
            CHECK(ip.cleared, "the stored step is cleared after success");
            break;
        }
        CHECK(res < 0 && fin < 0, "the interrupted run does not report success");
        WITNESS("interrupted");
        ip.dead = 0;
    }
    ip.crash_at = -1;
    if (!ip.cleared) {
        res = once(&fin);
        CHECK(res == 0 && fin == tosize, "starting over after a power loss succeeds");
        WITNESS("resumed");
    }
    OBSERVE(ip.step); OBSERVE(ip.nset);
    for (int i = 0; i < tosize; i++)
        CHECK(ip.mem[i] == want[i], "the memory holds the described to-data after power losses");
    CHECK(ip.step == 0, "the stored step is cleared after success");
}
