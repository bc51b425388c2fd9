/* BKInterpolation: slides and oscillations */
#include "vp.h"
#include "BlipKit.h"
#include "BKInterpolation.h"

#define ABS(a) ((a) < 0 ? - (a) : (a))
#define SHIFTBITS (H_MAX ? 15 : 0)

/* H_G: some bits of the values are the same */
#ifdef H_G
static BKInt value (char const * name)
{
	BKInt v = vp_int (name, - (H_RANGE >> H_G) - 1, (H_RANGE >> H_G) + 1) * ((1 << H_G) + 1);
	return BKClamp (v, - H_RANGE, H_RANGE);
}
#else
#define value(name) vp_int (name, - H_RANGE, H_RANGE)
#endif

#if defined (H_SLIDE)
/* slide with H_SLIDE steps; H_AT: new target after so many steps */
static BKSlideState s;
static BKInt from, to, n = H_SLIDE;
static void slide (int max)
{
	BKInt last = from;
	for (int k = 1; k <= max; k ++) {
		BKSlideStateStep (& s);
		BKInt v = BKSlideStateGetValue (& s);
		vp_assert (from <= to ? v >= last && v <= to : v <= last && v >= to, "a slide moves towards its target and never beyond");
		long long err = (long long) n * ((long long) v - from) - ((long long) to - from) * (k < n ? k : n);
		vp_assert (ABS (err) <= (k >= n ? 0 : (long long) n * (H_MAX ? 2 : k + 1)), "a slide is linear and reaches its target in exactly the given steps");
		last = v;
	}
	from = last;
}
int main (void)
{
	BKSlideStateInit (& s, H_MAX);
	from = value ("from");
	to = value ("to");
	BKSlideStateSetValueAndSteps (& s, from, 0);
	vp_assert (BKSlideStateGetValue (& s) == from, "0 steps reach the target at once");
	BKSlideStateStep (& s);
	vp_assert (BKSlideStateGetValue (& s) == from, "without steps the value stays");
	BKSlideStateSetSteps (& s, n);
	vp_assert (BKSlideStateGetValue (& s) == from, "setting the steps does not change the value");
	BKSlideStateSetValue (& s, to);
	vp_assert (BKSlideStateGetValue (& s) == from, "a slide starts from its current value");
#ifdef H_AT
	long long err;
	slide (H_AT);
	/* fraction of the current value is not visible */
	BKInt at = from, target = value ("to2");
	BKSlideStateSetValue (& s, target);
	BKInt last = BKSlideStateGetValue (& s);
	vp_assert (ABS (last - at) <= 1, "a new target continues from the current value");
	for (int k = 1; k <= n; k ++) {
		BKSlideStateStep (& s);
		BKInt v = BKSlideStateGetValue (& s);
		vp_assert (target >= at ? v >= last - 1 && v <= target + 1 : v <= last + 1 && v >= target - 1, "a slide moves towards its new target");
		err = (long long) n * ((long long) v - at) - ((long long) target - at) * k;
		vp_assert (k == n ? v == target : ABS (err) <= (long long) n * (H_MAX ? 3 : k + 1), "and reaches it in the given steps");
		last = v;
	}
	/* halt */
	BKSlideStateSetValue (& s, from = value ("to3"));
	BKSlideStateStep (& s);
	last = BKSlideStateGetValue (& s);
	int end = vp_bool ("end");
	BKSlideStateHalt (& s, end);
	BKSlideStateStep (& s);
	vp_assert (BKSlideStateGetValue (& s) == (end ? from : last), "a halted slide stays where it is or at its target");
#else
	slide (n + 2);
	vp_assert (BKSlideStateGetValue (& s) == to, "target is kept");
	BKSlideStateSetValueAndSteps (& s, from = value ("to2"), vp_int ("neg", INT32_MIN, 0));
	vp_assert (BKSlideStateGetValue (& s) == from, "0 steps reach the target at once");
	BKSlideStateStep (& s);
	vp_assert (BKSlideStateGetValue (& s) == from, "and stay there");
#endif
	vp_reach ();
	return 0;
}

#elif defined (H_BIG)
/* any number of steps */
int main (void)
{
	BKSlideState s;
	BKSlideStateInit (& s, H_MAX);
	BKInt from = value ("from"), to = value ("to");
	BKInt n = vp_any_int ("steps");
	BKSlideStateSetValueAndSteps (& s, from, 0);
	BKSlideStateSetValueAndSteps (& s, to, n);
	BKInt last = BKSlideStateGetValue (& s);
	vp_assert (last == (n <= 0 ? to : from), "a slide starts from its current value");
	for (int k = 1; k <= H_BIG; k ++) {
		BKSlideStateStep (& s);
		BKInt v = BKSlideStateGetValue (& s);
		vp_assert (from <= to ? v >= last && v <= to : v <= last && v >= to, "a slide moves towards its target and never beyond");
		vp_assert (k < n || v == to, "the target is reached after the given steps");
		last = v;
	}
	vp_reach ();
	return 0;
}

#elif defined (H_INTERVAL)
/* oscillation with H_INTERVAL steps per phase; H_AT: new delta after so many steps; H_NEW: new steps then */
int main (void)
{
	BKIntervalState s;
	BKInt n = H_INTERVAL;
	BKIntervalStateInit (& s, H_MAX);
	vp_assert (BKIntervalStateGetValue (& s) == 0, "an oscillation starts from 0");
	BKInt d = value ("delta"), v, last = 0;
	BKIntervalStateSetDeltaAndSteps (& s, d, n);
	vp_assert (BKIntervalStateGetValue (& s) == 0, "an oscillation starts from 0");
	int at = 0, k;
	for (k = 1; k <= H_AT + 4 * n; k ++) {
		BKIntervalStateStep (& s);
		v = BKIntervalStateGetValue (& s);
		at ++;
		if (at == 4 * n)
			at = 0;
		int up = at <= n || at > 3 * n;
		if (at == 0)
			up = 1;
		vp_assert (ABS (v) <= ABS (d), "an oscillation stays between plus and minus its delta");
		vp_assert (at == 0 || at == 2 * n ? v == 0 : at == n ? v == d : at == 3 * n ? v == - d : 1, "extremes and zeros are reached in exactly the given steps");
		if (k != H_AT + 1 || ! H_AT)
			vp_assert (v == last || (v > last) == (up == (d > 0)), "an oscillation raises and lowers in turns");
		vp_assert (at < n || at > 3 * n || at == 0 || (d >= 0 ? at <= 2 * n ? v >= 0 : v <= 0 : at <= 2 * n ? v <= 0 : v >= 0), "sign of each phase");
		/* within one unit of the exact line */
		int q = at / n, r = at % n;
		long long ideal = (long long) d * (q == 0 ? r : q == 1 ? n - r : q == 2 ? - r : r - n);
		long long err = (long long) v * n - ideal;
		vp_assert (ABS (err) <= (long long) n * (H_MAX ? 2 : n + 1), "phases are linear");
		last = v;
#if H_AT
		if (k == H_AT) {
			BKInt d2 = value ("delta2");
			int m = n;
#ifdef H_NEW
			m = H_NEW;
			BKIntervalStateSetDeltaAndSteps (& s, d2, m);
			/* keeps the position within the phase, rounded to whole steps */
			int q = at / n, r = (at % n * 2 + 1) * m / (n * 2);
			at = q * m + r;
			n = m;
#else
			BKIntervalStateSetDelta (& s, d2);
#endif
			d = d2;
			v = BKIntervalStateGetValue (& s);
			vp_assert (ABS (v) <= ABS (d), "a new delta takes effect at once");
			last = v;
		}
#endif
	}
	BKIntervalStateSetSteps (& s, vp_int ("stop", INT32_MIN, 0));
	vp_assert (BKIntervalStateGetValue (& s) == 0, "0 steps stop at 0");
	BKIntervalStateStep (& s);
	vp_assert (BKIntervalStateGetValue (& s) == 0, "and stay there");
	vp_reach ();
	return 0;
}
#endif
