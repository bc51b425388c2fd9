/* Sample buffer: BKBufferAddPulse/AddFrame/End/Shift/Read/Size/Clear */
#include "vp.h"
#include "BlipKit.h"

#define FRAME(n) ((BKFUInt20) (n) << BK_FINT20_SHIFT)
#define WRAP 32768 /* pulses are scaled by 2^15 - 1 */

static BKBuffer a, b;

#if defined (H_TIME)
/* every position: one unit pulse lands exactly where the kernel says, nothing else changes */
int main (void)
{
	a.pulse = BKBufferPulseKernels [H_K];
	BKFUInt20 base = FRAME (1) + H_TIME;
	BKFUInt20 t    = vp_uint ("time", 0, FRAME (2) - 1);
	a.time = base;
	BKBufferAddPulse (& a, t, 1);
	BKUInt o    = (base + t) >> 20;
	BKUInt step = ((base + t) & 0xFFFFF) >> 15;
	BKUInt q    = vp_uint ("q", 0, BK_BUFFER_CAPACITY - 1);
	BKInt  want = (q >= o && q < o + BK_STEP_WIDTH) ? a.pulse -> frames [step] [q - o] : 0;
	vp_assert (a.frames [q] == want, "a pulse lands at its frame with the kernel row of its sub-frame position");
	vp_assert (a.time == base, "adding a pulse does not move the time");
	vp_reach ();
	return 0;
}

#elif defined (H_KERNEL)
/* all rows of both kernels: the step has the same total height */
int main (void)
{
	for (int k = 0; k < 2; k ++) {
		for (int f = 0; f < BK_STEP_UNIT; f ++) {
			BKInt sum = 0;
			BKBufferPulse const * p = BKBufferPulseKernels [k];
			BKUInt i = vp_uint ("i", 0, BK_STEP_WIDTH - 1);
			for (int i = 0; i < BK_STEP_WIDTH; i ++)
				sum += p -> frames [f] [i];
			vp_assert (sum == 32767, "a step has the same total height at every sub-frame position");
			/* at most the whole amplitude in one frame: the products stay within 32 bits */
			vp_assert (p -> frames [f] [i] <= 32767 && p -> frames [f] [i] > -32767, "no frame of a step overshoots the full range");
		}
	}
	vp_reach ();
	return 0;
}

#elif defined (H_LINEAR) || defined (H_CANCEL)
/* arbitrary amplitudes on top of arbitrary contents, for a kernel of plain factors */
static BKBufferPulse kernel;

static void fill_kernel (void)
{
	static BKInt const factors [8] = { 0, 1, 64, 3, 2, 16384, 256, 5 };

	for (int f = 0; f < BK_STEP_UNIT; f ++)
		for (int i = 0; i < BK_STEP_WIDTH; i ++)
			kernel.frames [f] [i] = factors [(f + i * 3 + i / 8) & 7];
	a.pulse = & kernel;
}

#if defined (H_LINEAR)
int main (void)
{
	fill_kernel ();
	static BKInt before [36];
	for (int i = 0; i < 36; i ++)
		a.frames [i] = before [i] = vp_int ("frame", -(1 << 30), 1 << 30);
	BKInt const p = vp_int ("pulse", -65534, 65534);
	for (int f = H_LINEAR; f <= H_LINEAR; f ++) {
		static BKBuffer c;
		c = a;
		BKBufferAddPulse (& c, FRAME (2) + ((BKFUInt20) f << 15) + (f * 1057 & 0x7FFF), p);
		for (int i = 0; i < 36; i ++) {
			BKInt k = (i >= 2 && i < 34) ? kernel.frames [f] [i - 2] : 0;
			BKInt add = k * p;
			vp_assert (c.frames [i] == before [i] + add, "a pulse adds amplitude x kernel to what is there");
		}
		/* and its opposite takes it away again */
		BKBufferAddPulse (& c, FRAME (2) + ((BKFUInt20) f << 15), - p);
		for (int i = 0; i < 36; i ++)
			vp_assert (c.frames [i] == before [i], "a pulse and its opposite cancel");
	}
	vp_reach ();
	return 0;
}
#else
/* two pulses in both orders */
int main (void)
{
	fill_kernel ();
	for (int i = 0; i < BK_BUFFER_CAPACITY; i ++)
		a.frames [i] = vp_int ("frame", -(1 << 29), 1 << 29);
	b = a;
	BKInt p1 = vp_int ("p1", -32767, 32767);
	BKInt p2 = vp_int ("p2", -32767, 32767);
	BKFUInt20 t1 = FRAME (1) + 31 * 32768 + 17, t2 = FRAME (2) + 7 * 32768;
	BKBufferAddPulse (& a, t1, p1);
	BKBufferAddPulse (& a, t2, p2);
	BKBufferAddPulse (& b, t2, p2);
	BKBufferAddPulse (& b, t1, p1);
	for (int q = 0; q < BK_BUFFER_CAPACITY; q ++)
		vp_assert (a.frames [q] == b.frames [q], "pulses can be added in any order");
	vp_reach ();
	return 0;
}
#endif

#elif defined (H_SAFE)
/* the whole 12.20 time range, real capacity */
int main (void)
{
	a.pulse = BKBufferPulseKernels [vp_int ("kernel", 0, 1)];
	BKFUInt20 end = vp_any_uint ("end");
	BKBufferEnd (& a, end);
	vp_assert (a.capacity == end >> 20, "ending a period makes its full frames available");
	BKFUInt20 shift = vp_any_uint ("shift");
	vp_assume (shift <= end);
	BKBufferShift (& a, shift);
	vp_assert (BKBufferSize (& a) >= 0 && (BKUInt) BKBufferSize (& a) <= a.capacity, "the readable size lies within the capacity");
	/* the last frames of the range, at every 8th step position (bounds checks) */
	a.time = vp_uint ("base", 0, 1);
	for (BKUInt o = 4093; o < 4096; o ++) {
		for (BKUInt f = 7; f < 32; f += 8) {
			static BKBuffer c;
			c.pulse = a.pulse;
			c.time = 0;
			BKBufferAddPulse (& c, FRAME (o) + f * 32768 + 32767, 1);
			BKBufferAddFrame (& c, FRAME (o), 1);
		}
	}
	vp_reach ();
	return 0;
}

#elif defined (H_FRACT)
/* periods that are no whole number of frames: nothing is lost */
int main (void)
{
	BKFUInt20 t = 0;
	for (int i = 0; i < 4; i ++) {
		BKFUInt20 e = vp_uint ("end", 0, FRAME (1023));
		BKBufferEnd (& a, e);
		BKBufferShift (& a, e);
		t += e;
		vp_assert (BKBufferSize (& a) == (BKInt) (t >> 20), "the finished frames are the whole frames of the elapsed time");
		vp_assert (a.time == t, "fractions of frames are carried over to the next period");
	}
	vp_reach ();
	return 0;
}

#elif defined (H_FULL)
/* reading the longest period */
int main (void)
{
	static BKFrame out [4096];
	a.pulse = BKBufferPulseKernels [1];
	a.accum = vp_any_int ("accum");
	BKBufferEnd (& a, FRAME (4095) + 0xFFFFF);
	BKBufferShift (& a, FRAME (4095) + 0xFFFFF);
	BKUInt got = BKBufferRead (& a, out, 4095, 1);
	vp_assert (got == 4095, "the longest period can be read");
	vp_assert (a.capacity == 0, "the longest period can be read completely");
	vp_reach ();
	return 0;
}

#elif defined (H_SPLIT)
/* reading n + m frames at once or in two reads gives the same frames */
#define N 6
int main (void)
{
	a.pulse = BKBufferPulseKernels [1];
	BKBufferEnd (& a, FRAME (N));
	for (int i = 0; i < N + BK_STEP_WIDTH; i ++)
		a.frames [i] = vp_any_int ("frame");
	a.accum = vp_any_int ("accum");
	BKBufferShift (& a, FRAME (N));
	for (int n = 0; n <= N; n ++) {
		static BKBuffer c, d;
		BKFrame o1 [N * 2] = {0}, o2 [N * 2] = {0};
		c = a; d = a;
		BKInt r1 = BKBufferRead (& c, o1, N, 2);
		BKInt r2 = BKBufferRead (& d, o2, n, 2);
		BKInt r3 = BKBufferRead (& d, o2 + 2 * n, N - n, 2);
		vp_assert (r1 == N && r2 == n && r3 == N - n, "a read returns the requested frames while available");
		for (int i = 0; i < N; i ++) {
			vp_assert (o1 [2 * i] == o2 [2 * i], "reading in pieces gives the same frames");
			vp_assert (o1 [2 * i + 1] == 0 && o2 [2 * i + 1] == 0, "an interleaved read leaves the other channels alone");
		}
		for (int i = 0; i < BK_STEP_WIDTH; i ++)
			vp_assert (c.frames [i] == d.frames [i] && c.frames [i] == a.frames [i + N], "the tail of unfinished steps is kept for the next read");
		for (int i = BK_STEP_WIDTH; i < BK_BUFFER_CAPACITY; i ++)
			vp_assert (c.frames [i] == 0 && d.frames [i] == 0, "space behind the tail is cleared");
		vp_assert (c.accum == d.accum && c.time == d.time && BKBufferSize (& c) == 0 && BKBufferSize (& d) == 0, "reading in pieces leaves the same state");
	}
	vp_reach ();
	return 0;
}

#elif defined (H_SIZE)
/* what is returned, for every request and every amount available */
#define N 5
int main (void)
{
	BKFrame canary = vp_int ("canary", -32768, 32767);
	for (int n = 0; n <= N; n ++) {
		static BKBuffer z;
		a = z;
		BKBufferEnd (& a, FRAME (n));
		BKBufferShift (& a, FRAME (n));
		BKFrame out [N + 1];
		for (int i = 0; i <= N; i ++)
			out [i] = canary;
		for (int i = 0; i < n; i ++)
			a.frames [i] = vp_int ("frame", -(1 << 29), 1 << 29);
		vp_assert (BKBufferSize (& a) == n, "the size is the number of finished frames");
		for (int want = 0; want <= N + 1; want ++) {
			static BKBuffer c;
			c = a;
			BKInt got = BKBufferRead (& c, out, want, want & 1);
			vp_assert (got == BKMin (want, n), "a read returns what is asked for or what is there");
			vp_assert (BKBufferSize (& c) == n - got, "the size shrinks by what was read");
			for (int i = got; i <= N; i ++)
				vp_assert (out [i] == canary, "nothing is written beyond the frames returned");
			for (int i = 0; i <= N; i ++)
				out [i] = canary;
		}
	}
	vp_reach ();
	return 0;
}

#elif defined (H_AHEAD)
/* after ending a period only the ended frames may be read, also when the mix already reaches further */
int main (void)
{
	for (int e = 0; e <= 3; e ++) {
		for (int ahead = 0; ahead <= 2; ahead ++) {
			static BKBuffer z;
			a = z;
			a.pulse = BKBufferPulseKernels [1];
			BKBufferEnd (& a, FRAME (e + ahead)); /* a unit ended further ahead */
			BKBufferShift (& a, FRAME (e));
			BKFrame out [8];
			BKInt p = vp_int ("pulse", -32767, 32767);
			BKBufferAddPulse (& a, FRAME (1), p); /* in the next period */
			BKInt before = a.frames [e + 1 + 15];
			BKInt got = BKBufferRead (& a, out, 8, 1);
			vp_assert (got == e, "only finished frames are read");
			vp_assert (a.frames [1 + 15] == before, "a step of the next period stays in the next period");
			vp_assert (BKBufferSize (& a) == 0, "everything finished has been read");
		}
	}
	vp_reach ();
	return 0;
}

#elif defined (H_LEVEL)
/* one frame from an arbitrary mix level: saturation, high pass, sign */
int main (void)
{
	BKBufferEnd (& a, FRAME (1));
	BKBufferShift (& a, FRAME (1));
	a.accum = vp_int ("accum", -(1 << 30), 1 << 30);
	a.frames [0] = vp_int ("frame", -(1 << 30), (1 << 30) - 1);
	BKInt in = a.frames [0];
	BKInt acc = a.accum;
	BKFrame out;
	BKInt got = BKBufferRead (& a, & out, 1, 1);
	vp_assert (got == 1, "one frame read");
	/* level after the slow DC filter (at most 1/256 is removed per frame) */
	int64_t hi = (int64_t) acc + in, lo = hi;
	if (acc > 0) lo -= acc / 256 + 1; else hi += -(int64_t) acc / 256 + 1;
	int64_t want_hi = hi >> 14, want_lo = lo >> 14;
	want_hi = BKClamp (want_hi, -32767, 32767);
	want_lo = BKClamp (want_lo, -32768, 32766);
	vp_assert (out >= want_lo && out <= want_hi, "the output is the mixed level, limited to the 16 bit range");
	vp_reach ();
	return 0;
}

#elif defined (H_DECAY)
/* silence: an arbitrary level only decays and never changes sign */
int main (void)
{
	a.accum = vp_any_int ("accum");
	BKInt prev = a.accum;
	BKFrame out [4];
	BKBufferEnd (& a, FRAME (4));
	BKBufferShift (& a, FRAME (4));
	BKBufferRead (& a, out, 4, 1);
	BKInt now = a.accum;
	vp_assert ((prev >= 0 && now >= 0 && now <= prev) || (prev < 0 && now <= 0 && now >= prev), "without input the level moves towards zero");
	vp_assert (now != prev || (prev >= 0 && prev < 16384), "without input the level keeps falling until it is silent");
	/* (a limited frame may differ by one from another limited frame) */
	for (int i = 0; i < 3; i ++)
		vp_assert ((prev >= 0) ? (out [i + 1] <= out [i] + (out [i] == 32766) && out [i + 1] >= 0) : (out [i + 1] >= out [i] - (out [i] == -32767) && out [i + 1] <= 0),
			"without input the output fades monotonically");
	vp_reach ();
	return 0;
}

#elif defined (H_CLEAR)
int main (void)
{
	a.pulse = BKBufferPulseKernels [vp_int ("kernel", 0, 1)];
	a.time = vp_uint ("time", 0, FRAME (8));
	a.capacity = vp_uint ("capacity", 0, 8);
	a.accum = vp_any_int ("accum");
	for (int i = 0; i < BK_BUFFER_CAPACITY; i ++)
		a.frames [i] = vp_any_int ("frame");
	BKBufferPulse const * k = a.pulse;
	if (vp_bool ("via_clear")) {
		BKBufferClear (& a);
		vp_assert (a.pulse == k, "clearing keeps the selected pulse kernel");
	}
	else {
		BKBufferInit (& a);
		vp_assert (a.pulse == BKBufferPulseKernels [BK_PULSE_KERNEL_HARM], "a new buffer uses the default kernel");
	}
	vp_assert (a.time == 0 && a.capacity == 0 && a.accum == 0 && BKBufferSize (& a) == 0, "a cleared buffer is empty");
	for (int q = 0; q < BK_BUFFER_CAPACITY; q ++)
		vp_assert (a.frames [q] == 0, "a cleared buffer holds no signal");
	vp_reach ();
	return 0;
}
#endif
