/* Contract DSL.  One contract text, three back ends:
 *   VC_DFCC   goto-instrument --dfcc enforces the contract (requires / assigns / ensures)
 *   VC_PLAIN  the contract is expanded around the call: assume(requires); call; assert(ensures)
 *   VC_NATIVE the same text compiled with gcc + sanitizers and run on concrete inputs (replay)
 *
 *   #define CONTRACT_foo  REQUIRES(e) ASSIGNS(lvalues) ENSURES("name", e)
 *   VC_DECLARE(ret, foo, (params))          declares the contract (DFCC only)
 *   VC_ENFORCE(ret, foo, call)              call is checked against the contract
 *   RV                                      the returned value, inside ENSURES
 */
#ifndef VC_H
#define VC_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VC_NATIVE
#include <stdio.h>
#include <unistd.h>
uint64_t vc_in(void);
int64_t in_range(int64_t lo, int64_t hi);
uint64_t in_u64(void);
double in_f64(void);
void vc_reject(const char *why);
void vc_fail(const char *what, const char *expr, const char *file, int line);
void vc_bulk(void *p, size_t n);
#define VC_BULK(lv) vc_bulk(&(lv), sizeof(lv))
#define HAVOC(lv) ((void)0)
#define ASSUME(c) do { if (!(c)) vc_reject(#c); } while (0)
#define CHECK(id, c) do { if (!(c)) vc_fail(id, #c, __FILE__, __LINE__); } while (0)
#define REACH(id) ((void)0)
#else
static uint64_t vc_in(void) { uint64_t t; uint64_t vc_input = t; return vc_input; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(id, c) __CPROVER_assert((c), "OBL " id)
#define REACH(id) __CPROVER_assert(0, "REACH " id)
static int64_t in_range(int64_t lo, int64_t hi) { int64_t x = (int64_t)vc_in(); __CPROVER_assume(x >= lo && x <= hi); return x; }
static uint64_t in_u64(void) { return vc_in(); }
static double in_f64(void) { union { uint64_t u; double d; } c; c.u = vc_in(); return c.d; }
#define VC_BULK(lv) do { __typeof__(lv) vc_t; lv = vc_t; } while (0)
/* state a harness does not describe is arbitrary, not zero (a native run leaves it zero: one of its values) */
#define HAVOC(lv) VC_BULK(lv)
#endif
static bool in_bool(void) { return in_range(0, 1) != 0; }

/* values invented by a callee specification: never replayed */
#ifndef VC_NATIVE
static uint64_t spec_u64(void) { uint64_t t; return t; }
static bool spec_bool(void) { uint64_t t; return t & 1; }
static int64_t spec_range(int64_t lo, int64_t hi) { int64_t x; __CPROVER_assume(x >= lo && x <= hi); return x; }
#endif

#if defined(VC_DFCC)
#define REQUIRES(e) __CPROVER_requires(e)
#define ENSURES(id, e) __CPROVER_ensures(e)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define FREES(...) __CPROVER_frees(__VA_ARGS__)
#define RV __CPROVER_return_value
#define VC_DECLARE(ret, name, params) ret name params CONTRACT_##name;
#define VC_ENFORCE(ret, name, call) call
#define VC_ENFORCE_VOID(name, call) call
#elif defined(VC_PLAIN)
#define REQUIRES(e) if (vc_phase == 0) __CPROVER_assume(e);
#define ENSURES(id, e) if (vc_phase == 1) __CPROVER_assert((e), "OBL " id);
#define ASSIGNS(...)
#define FREES(...)
#define RV vc_rv
#define VC_DECLARE(ret, name, params)
#define VC_ENFORCE(ret, name, call) ({ ret vc_rv; { const int vc_phase = 0; CONTRACT_##name } vc_rv = call; { const int vc_phase = 1; CONTRACT_##name } vc_rv; })
#define VC_ENFORCE_VOID(name, call) do { { const int vc_phase = 0; CONTRACT_##name } call; { const int vc_phase = 1; CONTRACT_##name } } while (0)
#else /* VC_NATIVE */
#define REQUIRES(e) if (vc_phase == 0 && !(e)) vc_reject(#e);
#define ENSURES(id, e) if (vc_phase == 1 && !(e)) vc_fail(id, #e, __FILE__, __LINE__);
#define ASSIGNS(...)
#define FREES(...)
#define RV vc_rv
#define VC_DECLARE(ret, name, params)
#define VC_ENFORCE(ret, name, call) ({ ret vc_rv; { const int vc_phase = 0; CONTRACT_##name } vc_rv = call; { const int vc_phase = 1; CONTRACT_##name } vc_rv; })
#define VC_ENFORCE_VOID(name, call) do { { const int vc_phase = 0; CONTRACT_##name } call; { const int vc_phase = 1; CONTRACT_##name } } while (0)
#endif
#define IMPLIES(a, b) (!(a) || (b))
#endif
