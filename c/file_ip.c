/* In-place files. */
#include "ipshape.h"
#include "vfs.h"
void harness_body(void)
{
    int res, missing, steps;

    ip_build();
    v_reset("mem", "patch", "-");
    memset(vf[0].b, 0, (size_t)msize);
    memcpy(vf[0].b, from, (size_t)fsize); vf[0].n = (size_t)msize; vf[0].exists = 1;
    memcpy(vf[1].b, pbuf, pn); vf[1].n = pn; vf[1].exists = 1;
    steps = 0;
#ifdef NOFAIL
    missing = 0;
    (void)missing;
#else
    missing = (int)symx_concretize(in_lt(3));
    if (missing) vf[missing - 1].exists = 0;
    v_fail_at = in_lt(128);
#endif
    res = detools_apply_patch_in_place_filenames("mem", "patch", NULL, NULL);
    (void)steps;
    OBSERVE(res); OBSERVE(v_calls);
    v_closed();
    if (v_failed) {
        CHECK(res < 0, "a failing file operation is never reported as success");
        WITNESS("failed");
    } else {
        CHECK(res == tosize, "the result is the to-size");
        for (int i = 0; i < tosize; i++) CHECK(vf[0].b[i] == want[i], "the memory file holds the described to-data");
        CHECK(vf[0].n == (size_t)msize, "the memory file keeps its size");
        WITNESS("applied");
    }
}
