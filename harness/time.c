/* Time values: both representations (64 bit integer; 32 bit struct with
 * -DVP_TIME32) against plain integer arithmetic. */
#include "vp.h"
#ifdef VP_TIME32
#include <stdint.h>
#undef INTPTR_MAX
#define INTPTR_MAX INT32_MAX
#endif
#include "BKTime.h"

#define U (1 << 20)

static int64_t V (BKTime t)
{
	vp_assert (BKTimeGetFrac (t) < U, "the fraction is less than one frame");
	return (int64_t) BKTimeGetTime (t) * U + BKTimeGetFrac (t);
}

static int in_range (int64_t v)
{
	return v >= (int64_t) INT32_MIN * U && v <= (int64_t) INT32_MAX * U + (U - 1);
}

int main (void)
{
#ifdef VP_TIME32
	vp_assert (! BK_IS_64_BIT, "32 bit representation selected");
	uint32_t const fmax = 0x7FFFFFFF;
#else
	vp_assert (BK_IS_64_BIT, "64 bit representation selected");
	uint32_t const fmax = 0xFFFFFFFF;
#endif
	BKInt   sa = vp_any_int ("sa"), sb = vp_any_int ("sb");
	BKUInt  fa = vp_any_uint ("fa"), fb = vp_uint ("fb", 0, U - 1);
	int64_t va = (int64_t) sa * U + fa, vb = (int64_t) sb * U + fb;
	vp_assume (in_range (va));
	BKTime a = BKTimeMake (sa, fa), b = BKTimeMake (sb, fb);
	vp_assert (V (a) == va && V (b) == vb, "a time is made of the given frames and fraction");
	vp_assert (BKTimeGetTime (a) == (BKInt) (va >> 20) && BKTimeGetFrac (a) == (BKUInt) (va & (U - 1)), "frames and fraction can be read back");
	vp_assert (BKTimeGetFUInt20 (a) == (BKUInt) va, "the 12.20 value is the time modulo 4096 frames");

	if (in_range (va + vb))
		vp_assert (V (BKTimeAdd (a, b)) == va + vb, "addition is exact");
	if (in_range (va - vb))
		vp_assert (V (BKTimeSub (a, b)) == va - vb, "subtraction is exact");
	BKUInt p = vp_uint ("period", 0, fmax);
	if (in_range (va + p))
		vp_assert (V (BKTimeAddFUInt20 (a, p)) == va + p, "adding a period is exact");
	if (in_range (va - p))
		vp_assert (V (BKTimeSubFUInt20 (a, p)) == va - p, "subtracting a period is exact");

	vp_assert (! BKTimeIsEqual (a, b) == (va != vb), "equal");
	vp_assert (! BKTimeIsGreater (a, b) == ! (va > vb), "greater");
	vp_assert (! BKTimeIsGreaterEqual (a, b) == ! (va >= vb), "greater or equal");
	vp_assert (! BKTimeIsLess (a, b) == ! (va < vb), "less");
	vp_assert (! BKTimeIsLessEqual (a, b) == ! (va <= vb), "less or equal");
	BKUInt q = vp_any_uint ("q");
	vp_assert (! BKTimeIsGreaterFUInt20 (a, q) == ! (va > (int64_t) q), "greater than a period");
	vp_assert (! BKTimeIsLessFUInt20 (a, q) == ! (va < (int64_t) q), "less than a period");
	vp_assert (V (BK_TIME_ZERO) == 0 && ! BKTimeIsGreater (a, BK_TIME_MAX), "zero and the greatest time");
	vp_reach ();
	return 0;
}
