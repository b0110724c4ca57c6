/* Error texts. */
#include "h.h"
#include "detools.h"
void harness_body(void)
{
    int a, b;
    const char *s, *t, *u;

    IN(a); IN(b);
    u = detools_error_as_string(99999);
    s = detools_error_as_string(a);
    CHECK(s != NULL && s[0] != 0, "every code has a text");
    OBSERVE(strlen(s));
    if (a != -2147483647 - 1) {
        t = detools_error_as_string(-a);
        CHECK(strcmp(s, t) == 0, "the sign of the code does not matter");
    }
    if (a >= 1 && a <= 27) {
        CHECK(strcmp(s, u) != 0, "every defined code has a text of its own");
        ASSUME(b >= 1 && b <= 27 && b != a);
        t = detools_error_as_string(b);
        CHECK(strcmp(s, t) != 0, "every defined code has a text of its own");
        WITNESS("defined");
    } else if (a > 27 || a < -27 || a == 0) {
        CHECK(strcmp(s, u) == 0, "other codes share the text for unknown errors");
        WITNESS("unknown");
    }
}
