/* Common harness layer.  Every harness is compiled twice: to LLVM IR for the
 * symbolic executor, where the bytes drawn by IN() are unconstrained solver
 * variables, and natively with sanitizers for the replay, where they are read
 * from a file holding a solver assignment. */
#ifndef H_H
#define H_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>

void symx_assert(int cond, const char *msg);
void symx_assume(int cond);
void symx_witness(const char *name);
void symx_bytes(void *p, size_t n);
void symx_observe(uint64_t v);
int symx_and(int a, int b);
int symx_or(int a, int b);
uint64_t symx_concretize(uint64_t v);
void symx_poison(void *p, size_t n);       /* contents become undefined */

#define CHECK(c, msg) symx_assert(!!(c), msg)
#define ASSUME(c) symx_assume(!!(c))
#define WITNESS(name) symx_witness(name)
#define OBSERVE(v) symx_observe((uint64_t)(v))
#define IN(lv) symx_bytes(&(lv), sizeof(lv))

static inline uint8_t in_u8(void) { uint8_t v; IN(v); return v; }
static inline uint8_t in_lt(uint8_t n) { uint8_t v; IN(v); ASSUME(v < n); return v; }
void harness_body(void);
#endif
