/* Files: the result file holds the described to-data, and a failure of any
 * file operation is reported. */
#include "shape.h"
#include "vfs.h"
#ifndef FROMCUT
#define FROMCUT (ENV_FROM - 2)
#endif
void harness_body(void)
{
    int res, missing, empty;

    build();
    v_reset("from", "patch", "to");
    memcpy(vf[0].b, e.from, e.from_n); vf[0].n = e.from_n - symx_concretize(in_lt(2)) * FROMCUT; vf[0].exists = 1;
    memcpy(vf[1].b, pbuf, pn); vf[1].n = pn; vf[1].exists = 1;
    missing = (int)symx_concretize(in_lt(3));
    if (missing) vf[missing - 1].exists = 0;
    empty = (int)symx_concretize(in_lt(2));
    if (empty) vf[1].n = 0;
    v_fail_at = in_lt(64);
    res = detools_apply_patch_filenames("from", "patch", "to");
    OBSERVE(res); OBSERVE(v_calls); OBSERVE(vf[2].n);
    v_closed();
    if (v_failed || empty) {
        CHECK(res < 0, "a failing file operation is never reported as success");
        WITNESS("failed");
    } else {
        CHECK(res == (int)to_size, "the result is the to-size");
        CHECK(vf[2].n == to_size, "the result file has the to-size");
        for (size_t i = 0; i < to_size; i++) CHECK(vf[2].b[i] == want[i], "the result file holds the described to-data");
        WITNESS("applied");
    }
    for (size_t i = 0; i < vf[0].n; i++) CHECK(vf[0].b[i] == e.from[i], "the from-file is not changed");
}
