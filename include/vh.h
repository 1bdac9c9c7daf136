/* Verification harness support.
 *
 * One harness text, three readings:
 *   VH_PROOF  - CBMC code contracts (goto-instrument --dfcc), unbounded sizes, loop contracts
 *   VH_BMC    - CBMC without contracts, small sizes: counterexample search / bounded stand-in
 *   VH_NATIVE - gcc + sanitizers: replays an input recorded from a counterexample, or searches
 */
#ifndef VH_H
#define VH_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#ifndef VH_NATIVE
#define __NO_CTYPE 1            /* character classes by function (CBMC has models), not by table */
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <limits.h>

#ifndef VH_NATIVE
/* errno as an ordinary object, so that it can be named in an assigns clause */
int vh_errno;
#undef errno
#define errno vh_errno
#endif

#if !defined(VH_PROOF) && !defined(VH_BMC) && !defined(VH_NATIVE)
#error "no mode"
#endif

#ifdef VH_NATIVE
extern uint64_t vh_next(const char *name, int sz);
extern void vh_skip(void) __attribute__((noreturn));
extern void vh_fail(const char *label) __attribute__((noreturn));
#define VH_MASK(x) _Generic((x), _Bool: (uint64_t)1, default: ~(uint64_t)0)
#define IN(T, x)        T x; do { uint64_t vh_t = vh_next(#x, sizeof(T)) & VH_MASK(x); memcpy(&x, &vh_t, sizeof(T)); } while (0)
#define IN_TO(T, lv)    do { uint64_t vh_t = vh_next(#lv, sizeof(T)) & VH_MASK(lv); memcpy(&(lv), &vh_t, sizeof(T)); } while (0)
#define ASSUME(c)       do { if (!(c)) vh_skip(); } while (0)
#define CHECK(c, label) do { if (!(c)) vh_fail(label); } while (0)
#define COVER(label)    do { } while (0)
#define VH_UNREACHABLE  vh_skip()
#else
#define IN(T, x)        T x; do { T vh_t; x = vh_t; __CPROVER_input(#x, x); } while (0)
#define IN_TO(T, lv)    do { T vh_t; (lv) = vh_t; __CPROVER_input(#lv, vh_t); } while (0)
#define ASSUME(c)       __CPROVER_assume(c)
#define CHECK(c, label) __CPROVER_assert((c), "CHECK:" label)
#ifdef VH_PROOF
#define COVER(label)    __CPROVER_assert(0, "COVER:" label)
#else
#define COVER(label)    do { } while (0)
#endif
#define VH_UNREACHABLE  __CPROVER_assume(0)
#endif

/* Contracts: real clauses in the proof reading, plain prototypes otherwise */
#ifdef VH_PROOF
#define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#define ENSURES(...)  __CPROVER_ensures(__VA_ARGS__)
#define ASSIGNS(...)  __CPROVER_assigns(__VA_ARGS__)
#define FREES(...)    __CPROVER_frees(__VA_ARGS__)
#define OLD(x)        __CPROVER_old(x)
#define RESULT        __CPROVER_return_value
#define BOUND(n, k)   do { } while (0)   /* no bound in the proof */
#else
#define REQUIRES(...)
#define ENSURES(...)
#define ASSIGNS(...)
#define FREES(...)
#define BOUND(n, k)   ASSUME((n) <= (k)) /* search / stand-in only */
#endif

unsigned long cligen_ghost_k, cligen_ghost_j;   /* named in the loop contracts of the sources */
int cligen_ghost_holds;
void *cligen_ghost_state;
char *cligen_ghost_text;
long cligen_ghost_n;

/* Objects larger than this do not exist (PTRDIFF_MAX is 2^63; this keeps n*16 in range) */
#define VH_HUGE ((size_t)1 << 40)

/* arbitrary memory block of exactly n bytes, n >= 0 (never fails) */
static void *
vh_block(size_t n)
{
    unsigned char *p = malloc(n);
    ASSUME(p != NULL);
#ifndef VH_PROOF
    for (size_t vh_i = 0; vh_i < n; vh_i++)
        IN_TO(unsigned char, p[vh_i]);
#endif
    return p;
}
/* arbitrary NUL terminated string in a block of exactly n+1 bytes */
static char *
vh_string(size_t n)
{
    char *p = vh_block(n + 1);
#ifdef VH_PROOF
    p[n] = '\0';
#else
    for (size_t vh_i = 0; vh_i < n; vh_i++)
        ASSUME(p[vh_i] != '\0');
    p[n] = '\0';
#endif
    return p;
}
#define VH_MAYBE_UNUSED __attribute__((unused))
static VH_MAYBE_UNUSED void *vh_keep_[2] = {(void*)vh_block, (void*)vh_string};
#endif
