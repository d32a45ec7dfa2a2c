/*
 * Common harness layer.  The same harness is
 *  (1) executed symbolically by engine/sse over the bitcode of the real
 *      sources, every vp_u64/vp_range value being a bit-vector variable, and
 *  (2) compiled natively against the real sources (vp_rt.c) to replay one
 *      concrete assignment (and schedule) found by the solver.
 */
#ifndef VP_H
#define VP_H
#if defined(__SANITIZE_ADDRESS__) && defined(__clang__)
/* The harness itself is not instrumented, but the inline functions of small it calls poison memory. */
#include <sanitizer/asan_interface.h>
#undef ASAN_POISON_MEMORY_REGION
#undef ASAN_UNPOISON_MEMORY_REGION
#define ASAN_POISON_MEMORY_REGION(addr, size) __asan_poison_memory_region((addr), (size))
#define ASAN_UNPOISON_MEMORY_REGION(addr, size) __asan_unpoison_memory_region((addr), (size))
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

#ifdef __cplusplus
extern "C" {
#endif
/** An arbitrary 64-bit value. */
uint64_t vp_u64(void);
/** An arbitrary value in [lo, hi]. */
uint64_t vp_range(uint64_t lo, uint64_t hi);
/** An arbitrary value in [0, n), each explored as a separate path. */
uint64_t vp_choose(uint64_t n);
/** Split the path on every feasible value of v. */
uint64_t vp_concretize(uint64_t v);
void vp_check(int cond, const char *msg);
void vp_assume(int cond);
/** Reachability witness: the check is vacuous unless it is reached. */
void vp_witness(const char *name);
/** Observable value, compared between the encoding and the native build. */
void vp_log(const char *tag, uint64_t v);
/** Raw memory of the environment (mmap-like). */
void *vp_alloc(size_t size, size_t align, int zero);
void vp_dealloc(void *p);
/** Any access by anyone to a protected range is a violation. */
void vp_protect(const void *p, size_t n);
void vp_unprotect(const void *p, size_t n);
/** [p, p + n) lies within one live object. */
int vp_accessible(const void *p, size_t n);
int vp_is_poisoned(const void *p);
/** Fill with arbitrary bytes. */
void vp_symbolic(void *p, size_t n);
/** Threads: accesses to shared objects and atomics are scheduling points. */
void vp_shared(void *p, size_t n);
void vp_spawn(void (*fn)(void *), void *arg);
void vp_join(void);
int vp_tid(void);
/** The symbolic run drops a path that is here in a state it explored before. */
void vp_merge(void);
/** The end of the path: all is well. */
void vp_end(void) __attribute__((noreturn));
#ifdef __cplusplus
}
#endif

#define VP_ASSERT(c, msg) vp_check((c) ? 1 : 0, msg)
#define VP_ASSUME(c) vp_assume((c) ? 1 : 0)
#define VP_WITNESS(n) vp_witness(n)
static inline bool vp_bool(void) { return vp_choose(2) != 0; }
#endif
