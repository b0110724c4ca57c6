/* Native runtime of h.h: replays one solver assignment against the real code. */
#include <stdio.h>
#include "h.h"
#include <fcntl.h>
#include <unistd.h>
/* plain file descriptors: stdio may be wrapped by the harness */
static uint8_t in_b[1 << 16];
static size_t in_n, in_i;
static int obs_fd = -1;
void symx_assert(int cond, const char *msg)
{
    if (!cond) { dprintf(2, "REPLAY-VIOLATION assert: %s\n", msg); _Exit(66); }
}
void symx_assume(int cond) { if (!cond) { dprintf(2, "REPLAY-ASSUME\n"); _Exit(77); } }
void symx_witness(const char *name) { dprintf(2, "REPLAY-WITNESS %s\n", name); }
void symx_bytes(void *p, size_t n)
{
    uint8_t *b = p;
    for (size_t i = 0; i < n; i++) b[i] = in_i < in_n ? in_b[in_i++] : 0;
}
void symx_observe(uint64_t v) { if (obs_fd >= 0) dprintf(obs_fd, "%llx,", (unsigned long long)v); }
int symx_and(int a, int b) { return a && b; }
int symx_or(int a, int b) { return a || b; }
uint64_t symx_concretize(uint64_t v) { return v; }
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define POISON(p, n) __msan_poison(p, n)
#endif
#endif
#ifndef POISON
#define POISON(p, n) ((void)0)
#endif
void symx_poison(void *p, size_t n) { memset(p, 0xaa, n); POISON(p, n); }
int main(int argc, char **argv)
{
    int fd = open(argv[1], O_RDONLY);
    ssize_t k;
    if (fd < 0) return 78;
    while (in_n < sizeof(in_b) && (k = read(fd, &in_b[in_n], sizeof(in_b) - in_n)) > 0) in_n += (size_t)k;
    if (argc > 2) obs_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
    harness_body();
    return 0;
}
