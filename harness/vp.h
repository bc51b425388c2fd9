/*
 * Harness support: the same harness file is encoded by CBMC (inputs are
 * symbolic) and compiled natively (inputs come from a replay file, so that a
 * solver counterexample is re-run against the real code).
 */
#ifndef VP_H
#define VP_H

#include <stddef.h>
#include <stdint.h>

#ifdef VP_CBMC

long long nondet_vp_ll (void);

/* Every symbolic input passes through here, in execution order. */
static inline long long vp_in_ (const char * name, long long lo, long long hi)
{
	long long vp_v = nondet_vp_ll ();
	__CPROVER_assume (vp_v >= lo && vp_v <= hi);
	__CPROVER_input ("vp", vp_v);
	return vp_v;
}

#define vp_assume(c) __CPROVER_assume (c)
#define vp_assert(c, msg) __CPROVER_assert ((c), "VP: " msg)
#ifdef VP_REACH
#define vp_reach() __CPROVER_assert (0, "VP-REACH")
#else
#define vp_reach() ((void) 0)
#endif

#else /* native replay */

#include <stdio.h>
#include <stdlib.h>

extern long long vp_next (const char * name);
extern void      vp_fail (const char * msg, const char * file, int line);
extern void      vp_reached (void);

static inline long long vp_in_ (const char * name, long long lo, long long hi)
{
	long long v = vp_next (name);
	if (v < lo || v > hi) {
		/* input outside the harness' range: the path diverged from the solver's */
		fprintf (stderr, "VP-ASSUME-FAILED input %s\n", name);
		exit (77);
	}
	return v;
}

#define vp_assume(c) do { if (!(c)) { fprintf (stderr, "VP-ASSUME-FAILED %s:%d\n", __FILE__, __LINE__); exit (77); } } while (0)
#define vp_assert(c, msg) do { if (!(c)) vp_fail (msg, __FILE__, __LINE__); } while (0)
#define vp_reach() vp_reached ()

#endif

#define vp_int(name, lo, hi)  ((int32_t) vp_in_ (name, (lo), (hi)))
#define vp_uint(name, lo, hi) ((uint32_t) vp_in_ (name, (lo), (hi)))
#define vp_ll(name, lo, hi)   (vp_in_ (name, (lo), (hi)))
#define vp_any_int(name)      vp_int (name, INT32_MIN, INT32_MAX)
#define vp_any_uint(name)     vp_uint (name, 0, UINT32_MAX)
#define vp_bool(name)         ((int) vp_in_ (name, 0, 1))

#endif
