/* Dual-mode run time for contract harnesses.
 *
 * Under CBMC (__CPROVER__ defined by goto-cc) every IN_* is a fully symbolic input, ASSUME is a
 * precondition, CHECK a proof obligation and REACH a vacuity guard (an assertion that must FAIL,
 * i.e. the point must be reachable).
 * Natively the same file is the replay/search program: IN_* values come from a replay file or a
 * random generator, a failed ASSUME discards the run and a failed CHECK is a concrete violation.
 */
#ifndef RT_H
#define RT_H
#include <stddef.h>
typedef unsigned long u64;
typedef long i64;

#ifdef __CPROVER__
u64 nondet_u64(void);
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(label, c) __CPROVER_assert((c), "CHECK:" label)
#ifdef NO_REACH
#define REACH(label) ((void) 0)
#else
#define REACH(label) __CPROVER_assert(0, "REACH:" label)
#endif
#define IN_U(var, id) do { u64 in_v_ = nondet_u64(); __CPROVER_input(id, in_v_); (var) = in_v_; } while (0)
#define IN_SEL(var, id, lo, hi) do { u64 in_v_ = nondet_u64(); __CPROVER_assume(in_v_ >= (u64) (lo) && in_v_ <= (u64) (hi)); __CPROVER_input(id, in_v_); (var) = in_v_; } while (0)
/* natively mostly within lo..usual */
#define IN_USUAL(var, id, lo, usual, hi) IN_SEL(var, id, lo, hi)
#define IN_FIX(var, id, val) ((var) = (val))
#define NATIVE 0
#define HARNESS(name) void name(void)
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
#define NATIVE 1
extern jmp_buf rt_jmp;
extern int rt_failed, rt_verbose;
u64 rt_in(const char *id, u64 lo, u64 hi);
u64 rt_usual(const char *id, u64 lo, u64 usual, u64 hi);
void rt_check(const char *label, int c);
#define ASSUME(c) do { if (!(c)) longjmp(rt_jmp, 1); } while (0)
#define CHECK(label, c) rt_check(label, !!(c))
#define REACH(label) rt_reach(label)
void rt_reach(const char *label);
#define IN_U(var, id) ((var) = rt_in(id, 0, ~0UL))
#define IN_FIX(var, id, val) ((var) = rt_in(id, (u64) (val), (u64) (val)))
#define IN_SEL(var, id, lo, hi) ((var) = rt_in(id, (u64) (lo), (u64) (hi)))
#define IN_USUAL(var, id, lo, usual, hi) ((var) = rt_usual(id, (u64) (lo), (u64) (usual), (u64) (hi)))
#define __CPROVER_r_ok(p, n) 1
#define HARNESS(name) void name(void)
#endif

#endif
