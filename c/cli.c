/* The command line program, with the two file functions replaced: the exit
 * code tells success from failure, and the arguments are passed on. */
#include "h.h"
#include <setjmp.h>
#include <stdio.h>
int cli_main(int argc, const char *argv[]);
static int which, result, printed, err_text;
static const char *arg[3];
int detools_apply_patch_filenames(const char *a, const char *b, const char *c)
{
    which |= 1; arg[0] = a; arg[1] = b; arg[2] = c;
    return result;
}
int detools_apply_patch_in_place_filenames(const char *a, const char *b, int (*s)(void *, int), int (*g)(void *, int *))
{
    which |= 2; arg[0] = a; arg[1] = b;
    CHECK(s == NULL && g == NULL, "no steps are stored");
    return result;
}
const char *detools_error_as_string(int e) { err_text = e; return "text"; }
int __wrap_printf(const char *f, ...) { (void)f; printed++; return 1; }
static void done(int code, int exited)
{
    int ok;
    OBSERVE(code); OBSERVE(which);
    (void)exited;
    ok = which && result >= 0;
    if (ok) { CHECK(code == 0, "success exits with zero"); WITNESS("success"); }
    else {
        CHECK((code & 0xff) != 0, "failure exits with nonzero");
        CHECK(printed > 0, "failure is reported on the console");
        if (which) { CHECK(err_text == result || err_text == -result, "the error is described"); WITNESS("failure"); }
        else WITNESS("usage");
    }
}
static int in_exit;
void __wrap_exit(int code);
static const char *const words[] = {"apply_patch", "apply_patch_in_place", "apply", "", "apply_patch_in_place2"};
static const char *av[7] = {"detools", NULL, "A", "B", "C", "D", NULL};
void harness_body(void)
{
    int argc, w;
    IN(result);
    ASSUME(result >= -27);
    argc = 1 + (int)symx_concretize(in_lt(6));
    w = (int)symx_concretize(in_lt(5));
    av[1] = argc > 1 ? words[w] : NULL;
    which = printed = in_exit = 0;
    av[2] = "A"; av[3] = "B"; av[4] = "C"; av[5] = "D";
    av[argc] = NULL;
    if (argc == 5 && w == 0) WITNESS("sequential");
    if (argc == 4 && w == 1) WITNESS("in-place");
    in_exit = cli_main(argc, av);
    if (argc == 5 && w == 0) CHECK(which == 1 && arg[0] == av[2] && arg[1] == av[3] && arg[2] == av[4], "the file names are passed on in order");
    else if (argc == 4 && w == 1) CHECK(which == 2 && arg[0] == av[2] && arg[1] == av[3], "the file names are passed on in order");
    else CHECK(which == 0, "nothing is done for wrong arguments");
    done(in_exit, 0);
}
#ifdef REPLAY
#include <unistd.h>
void __wrap_exit(int code) { CHECK(which == 0, "nothing is done for wrong arguments"); done(code, 1); fflush(NULL); _exit(0); }
#else
void symx_end_path(void);
void __wrap_exit(int code) { CHECK(which == 0, "nothing is done for wrong arguments"); done(code, 1); symx_end_path(); }
#endif
