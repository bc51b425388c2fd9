/* Note to period */
#include "vp.h"
#include "BKTone.h"

#define T(n, f) (((n) << 20) + (f))

#if defined (H_MONO)
int main (void)
{
	BKUInt rate = H_RATE;
	for (BKInt n = H_MONO; n < H_MONO + H_NUM; n ++) {
		BKUInt f1 = vp_uint ("f1", 0, (1 << H_BITS) - 1) << (20 - H_BITS), f2 = vp_uint ("f2", 0, (1 << H_BITS) - 1) << (20 - H_BITS);
		vp_assume (f1 <= f2);
		BKUInt p0 = BKTonePeriodLookup (T (n, 0), rate);
		BKUInt p1 = BKTonePeriodLookup (T (n, f1), rate);
		BKUInt p2 = BKTonePeriodLookup (T (n, f2), rate);
		BKUInt p3 = BKTonePeriodLookup (T (n + 1, 0), rate);
		vp_assert (p0 >= p1 && p1 >= p2 && p2 >= p3 && p0 > p3, "a higher note has a shorter period");
		/* equal temperament: one semitone is a factor of 2^(1/12) = 1.05946 (table rounding: 0.7 %, 1.5 % for the highest notes) */
		vp_assert ((uint64_t) p0 * 1000 >= (uint64_t) p3 * (n < 60 ? 1052 : 1045) && (uint64_t) p0 * 1000 <= (uint64_t) p3 * (n < 60 ? 1067 : 1075), "a semitone is a factor of 2^(1/12)");
	}
	vp_reach ();
	return 0;
}

#elif defined (H_LINEAR)
/* between two semitones the period is interpolated linearly */
int main (void)
{
	for (BKInt n = H_LINEAR; n < H_LINEAR + H_NUM; n ++) {
		BKUInt k = vp_uint ("k", 0, 15);
		int64_t p0 = BKTonePeriodLookup (T (n, 0), 44100);
		int64_t p1 = BKTonePeriodLookup (T (n + 1, 0), 44100);
		int64_t p  = BKTonePeriodLookup (T (n, k << 16), 44100);
		int64_t d  = p * 16 - (p0 * 16 - (p0 - p1) * k);
		vp_assert (d <= 44100 * 4 * 16 && d >= -44100 * 4 * 16, "pitches between semitones are interpolated");
		int64_t q0 = BKLog2PeriodLookup (T (n, 0));
		int64_t q1 = BKLog2PeriodLookup (T (n + 1, 0));
		int64_t q  = BKLog2PeriodLookup (T (n, k << 16));
		int64_t e  = q * 16 - (q0 * 16 - (q0 - q1) * k);
		vp_assert (e <= 32 && e >= -32, "sample pitches between semitones are interpolated");
	}
	vp_reach ();
	return 0;
}

#elif defined (H_CLAMP)
/* every tone and rate value: clamped to the valid ranges, tables never left */
int main (void)
{
	BKInt  t = vp_any_int ("tone");
	BKUInt r = vp_any_uint ("rate");
	vp_assume (t < 0 || t > T (BK_MAX_NOTE, 0) || r < BK_MIN_SAMPLE_RATE || r > BK_MAX_SAMPLE_RATE);
	BKInt  tc = BKClamp (t, 0, T (BK_MAX_NOTE, 0));
	BKUInt rc = BKClamp (r, BK_MIN_SAMPLE_RATE, BK_MAX_SAMPLE_RATE);
	if (t <= 0)
		vp_assert (BKTonePeriodLookup (t, r) == BKTonePeriodLookup (0, rc) && BKLog2PeriodLookup (t) == BKLog2PeriodLookup (0), "notes below the range play the lowest note");
	if (t >= T (BK_MAX_NOTE, 0))
		vp_assert (BKTonePeriodLookup (t, r) == BKTonePeriodLookup (T (BK_MAX_NOTE, 0), rc) && BKLog2PeriodLookup (t) == BKLog2PeriodLookup (T (BK_MAX_NOTE, 0)), "notes above the range play the highest note");
	(void) BKTonePeriodLookup (tc, r); /* bounds checks */
	(void) BKLog2PeriodLookup (tc);
	vp_reach ();
	return 0;
}

#elif defined (H_TUNING)
/* absolute tuning, every note against 440 Hz equal temperament */
int main (void)
{
	/* 2^(k/12) * 1000000 */
	static int64_t const ratio [12] = { 1000000, 1059463, 1122462, 1189207, 1259921, 1334840, 1414214, 1498307, 1587401, 1681793, 1781797, 1887749 };
	for (BKInt n = H_TUNING; n < H_TUNING + 24 && n <= BK_MAX_NOTE; n ++) {
		BKUInt rate = vp_uint ("rate", BK_MIN_SAMPLE_RATE, BK_MAX_SAMPLE_RATE);
		BKUInt p = BKTonePeriodLookup (T (n, 0), rate);
		/* frequency in 1/1000000 Hz: note 57 is A 4 = 440 Hz */
		int oct = (n + 3) / 12 - 5, k = (n + 3) % 12;
		int64_t f = 440 * ratio [k];
		f = oct >= 0 ? f << oct : f >> - oct;
		/* a full wave lasts rate / f frames; the period counts in 2^-19 frames with 0.5 % table rounding */
		int64_t want = ((int64_t) 1000000 << 19) / f; /* in 2^-19 s */
		int64_t lo = want - want / 128 - 1, hi = want + want / 128 + 1;
		vp_assert ((int64_t) p >= lo * rate - 4 * (int64_t) rate && (int64_t) p <= hi * rate + 4 * (int64_t) rate, "notes are tuned to 440 Hz equal temperament");
	}
	vp_reach ();
	return 0;
}

#elif defined (H_LOG2)
int main (void)
{
	for (BKInt n = H_LOG2; n < H_LOG2 + H_NUM; n ++) {
		BKUInt f1 = vp_uint ("f1", 0, (1 << H_BITS) - 1) << (20 - H_BITS), f2 = vp_uint ("f2", 0, (1 << H_BITS) - 1) << (20 - H_BITS);
		vp_assume (f1 <= f2);
		BKUInt p0 = BKLog2PeriodLookup (T (n, 0)), p1 = BKLog2PeriodLookup (T (n, f1)), p2 = BKLog2PeriodLookup (T (n, f2)), p3 = BKLog2PeriodLookup (T (n + 1, 0));
		vp_assert (p0 <= p1 && p1 <= p2 && p2 <= p3 && p0 < p3, "a higher sample pitch plays faster");
		vp_assert ((uint64_t) p3 * 100000 >= (uint64_t) p0 * 105900 && (uint64_t) p3 * 100000 <= (uint64_t) p0 * 105990, "a semitone is a factor of 2^(1/12)");
		if (n % 12 == 0)
			vp_assert (p0 == (1u << 20) >> 4 << (n / 12), "an octave doubles the playback speed; C 4 is the recorded speed");
	}
	vp_reach ();
	return 0;
}
#endif
