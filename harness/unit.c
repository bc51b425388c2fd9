/* BKUnit: waveforms, samples, attributes */
#include "vp.h"
#include "BlipKit.h"

#ifndef H_SHIFT
#define H_SHIFT 12
#endif
#ifndef H_PULSES
#define H_PULSES 2
#endif
#ifndef H_CH
#define H_CH 2
#endif
#define MAXV BK_MAX_VOLUME
#define TIME(name, lo, hi) ((BKFUInt20) vp_uint (name, lo, hi) << H_SHIFT)

static BKContext ctx;
static BKBuffer chan [BK_MAX_CHANNELS];
static BKUnit unit;

/* ---- monitor of the pulses of each channel */
static long long base;           /* time ended so far */
static long long next [H_CH];    /* time the next pulse is due */
static BKInt     level [H_CH];   /* sum of the pulses */
static BKUInt    count [H_CH];   /* pulses so far */

static BKInt expect (int c, BKUInt n); /* level of channel c after its n-th pulse */

#ifdef H_SPLIT
#define LOG 8
static int second;
static BKUInt n1 [H_CH], n2 [H_CH];
static long long ltime [H_CH] [LOG];
static BKInt lpulse [H_CH] [LOG];
void vp_pulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
{
	int c = (int) (buf - chan);
	vp_assert (c >= 0 && c < H_CH, "pulses are added to channels of the context");
	if (! second) {
		ltime [c] [n1 [c]] = time;
		lpulse [c] [n1 [c]] = pulse;
		n1 [c] ++;
	}
	else {
		vp_assert (n2 [c] < n1 [c], "no additional changes");
		vp_assert (ltime [c] [n2 [c]] == base + time, "changes at the same time");
		vp_assert (lpulse [c] [n2 [c]] == pulse, "the same changes");
		n2 [c] ++;
	}
}
#else
void vp_pulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
{
	int c = (int) (buf - chan);
	vp_assert (c >= 0 && c < H_CH, "pulses are added to channels of the context");
#ifndef H_FAR
	vp_assert (base + time == next [c], "amplitude changes at exact multiples of the period");
#endif
	level [c] += pulse;
	vp_assert (level [c] == expect (c, count [c]), "level is the amplitude of the phase times the volume of the channel");
	count [c] ++;
#ifndef H_SAMPLE
	next [c] += (long long) unit.period;
#endif
}
#endif

static void setup (BKEnum waveform)
{
	ctx.numChannels = H_CH;
	ctx.sampleRate = 44100;
	ctx.channels = chan;
	vp_assert (BKUnitInit (& unit, waveform) == 0, "unit is initialised");
	vp_assert (BKUnitAttach (& unit, & ctx) == 0, "unit is attached");
}

static void run (BKFUInt20 end)
{
	BKUnitRun (& unit, end);
}

#if defined (H_WAVE)
/* 1 square, 2 triangle, 3 sawtooth, 4 sine */
#define H_WF (H_WAVE == 1 ? BK_SQUARE : H_WAVE == 2 ? BK_TRIANGLE : H_WAVE == 3 ? BK_SAWTOOTH : BK_SINE)
/*
 * Phases of a waveform from any phase, over two runs and the end of a period in
 * between: all changes up to the end, none later, none twice.
 */
static BKUInt phase0, num, duty;
static BKInt vol [H_CH];
static BKInt amplitude (BKUInt n)
{
#if H_WAVE == 1
	BKUInt p = (phase0 + n) % 16;
	/* `duty' phases in a row; inverted if more than a half */
	BKUInt first = duty <= 8 ? (duty == 1 ? 1 : duty < 4 ? 2 : duty < 6 ? 3 : duty < 8 ? 4 : 5) : 15 - duty;
	return p >= first && p < first + duty ? (duty <= 8 ? MAXV : - MAXV) : 0;
#elif H_WAVE == 2
	BKInt p = (phase0 + n) % 32;
	BKInt a = p < 8 ? p : p < 16 ? 15 - p : p < 24 ? p - 15 : 32 - p;
	a = a ? a * 2048 - 1 : 0;
	return p < 16 ? a : - a;
#elif H_WAVE == 3
	BKUInt p = phase0 + n;
	return (6 - (BKInt) (p < 7 ? p : p - 7)) * 5461;
#elif H_WAVE == 4
	static BKInt const quarter [9] = { 0, 6392, 12539, 18204, 23169, 27244, 30272, 32137, 32767 };
	BKInt p = (phase0 + n) % 32;
	BKInt q = p % 16;
	BKInt a = quarter [q <= 8 ? q : 16 - q] / 2;
	return p < 16 ? a : - a;
#endif
}
static BKInt expect (int c, BKUInt n)
{
	return (amplitude (n) * vol [c]) >> 15;
}

int main (void)
{
	setup (H_WF);
	BKInt got;
	BKUInt period = TIME ("period", 1, 63);
	duty = 4;
#if H_WAVE == 1
	duty = vp_uint ("duty", 1, 15);
	BKSetAttr (& unit, BK_DUTY_CYCLE, duty);
#endif
	BKGetAttr (& unit, BK_NUM_PHASES, & got);
	num = got;
	vp_assert (num == (H_WAVE == 1 ? 16 : H_WAVE == 3 ? 7 : 32), "number of phases");
	phase0 = vp_uint ("phase", 0, num - 1);
	BKSetAttr (& unit, BK_PHASE, phase0);
	BKGetAttr (& unit, BK_PHASE, & got);
	vp_assert ((BKUInt) got == phase0, "phase reads back");
	BKSetAttr (& unit, BK_PERIOD, period);
	BKUInt start = TIME ("start", 0, 31);
	unit.time = start;
	for (int c = 0; c < H_CH; c ++) {
		vol [c] = c == 0 ? H_VOL : H_VOL2;
		BKSetAttr (& unit, BK_VOLUME_0 + c, vol [c]);
		next [c] = start;
	}
	BKUInt t0 = TIME ("t0", 0, 255), e = TIME ("end", 0, 255), t1 = TIME ("t1", 0, 255);
	vp_assume (t0 <= start + H_PULSES * period && e + t1 <= start + 2 * H_PULSES * period && e <= t0);
	run (t0);
	BKUInt stop0 = unit.time;
	vp_assert (stop0 >= t0, "a unit runs at least to the requested time");
	BKUnitEnd (& unit, e);
	base += e;
	run (t1);
	vp_assert (base + unit.time >= base + t1, "a unit runs at least to the requested time");
	long long total = base + t1 > t0 ? base + t1 : t0;
	for (int c = 0; c < H_CH; c ++) {
		if (vol [c])
			vp_assert (next [c] >= total && (next [c] == start || next [c] - period < total), "all changes up to the end have been made and none later");
		else
			vp_assert (count [c] == 0, "a channel with volume 0 gets no pulses");
	}
	BKGetAttr (& unit, BK_PHASE, & got);
	vp_assert ((BKUInt) got < num, "the phase stays below the number of phases");
	vp_assert ((BKUInt) got == (phase0 + count [0]) % num, "the phase advances by one each period");
	vp_reach ();
	return 0;
}

#elif defined (H_NOISE) || defined (H_CUSTOM)
/* noise and custom waveforms with phase wrap, two runs with the end of a period in between */
static BKUInt wrap, num, cur [H_CH], left [H_CH];
#ifdef H_CUSTOM
#define FR H_CUSTOM
#if FR > 64
static BKFrame frames [FR] = { 11, 2200, -33, 4400, -5, 66, 77, [58] = 1, 222, 3333, -444, 55, 666, -777, -888, 99, 1010, 111, 122, };
#else
static BKFrame frames [FR] = { 32767, -32768, 100, -1, 5000, };
#endif
static BKData data;
#define FIRST phase0
static BKUInt phase0;
#else
#define FIRST 0x4a41
#endif
static BKInt expect (int c, BKUInt n)
{
	if (n == 0) {
		cur [c] = FIRST;
		left [c] = wrap;
	}
	/* starts over after `wrap' phases */
	if (wrap && left [c] == 0) {
#ifdef H_CUSTOM
		cur [c] = 0;
#else
		cur [c] = FIRST;
#endif
		left [c] = wrap;
	}
	left [c] --;
#ifdef H_CUSTOM
	BKInt a = frames [cur [c]];
	cur [c] ++;
	if (cur [c] == (num < 64 ? num : 64))
		cur [c] = 0;
#else
	/* 16 bit shift register; its new bit is the sign */
	BKUInt bit = (cur [c] ^ cur [c] >> 2 ^ cur [c] >> 3 ^ cur [c] >> 5) & 1;
	cur [c] = cur [c] >> 1 | bit << 15;
	BKInt a = bit ? 16383 : -16383;
#endif
	return (a * (c == 0 ? H_VOL : H_VOL2)) >> 15;
}
int main (void)
{
	setup (BK_NOISE);
	BKInt got, ph;
	wrap = vp_uint ("wrap", 0, 5);
#ifdef H_CUSTOM
	num = vp_uint ("num", FR > 64 ? FR : 2, FR);
	BKDataInit (& data);
	vp_assert (BKDataSetFrames (& data, frames, num, 1, 0) == 0, "frames are set");
	vp_assert (BKSetPtr (& unit, BK_WAVEFORM, & data, sizeof (& data)) == 0, "custom waveform is set");
	BKGetAttr (& unit, BK_NUM_PHASES, & got);
	vp_assert ((BKUInt) got == (num < 64 ? num : 64), "a custom waveform has one phase per frame, up to 64");
#endif
	BKSetAttr (& unit, BK_PHASE_WRAP, wrap);
	if (wrap == 1)
		wrap = 2;
	BKGetAttr (& unit, BK_PHASE_WRAP, & got);
	vp_assert (got == (BKInt) wrap, "phase wrap is 0 or at least 2");
#ifdef H_CUSTOM
	phase0 = vp_uint ("phase", FR > 64 ? 58 : 0, 70);
	BKSetAttr (& unit, BK_PHASE, phase0);
	if (phase0 > (num < 64 ? num : 64) - 1)
		phase0 = (num < 64 ? num : 64) - 1;
#endif
	BKUInt period = TIME ("period", 1, 63), start = TIME ("start", 0, 31);
	BKSetAttr (& unit, BK_PERIOD, period);
	unit.time = start;
	for (int c = 0; c < H_CH; c ++) {
		BKSetAttr (& unit, BK_VOLUME_0 + c, c == 0 ? H_VOL : H_VOL2);
		next [c] = start;
	}
	BKUInt t0 = TIME ("t0", 0, 255), e = TIME ("end", 0, 255), t1 = TIME ("t1", 0, 511);
	vp_assume (t0 <= start + H_PULSES * period && e + t1 <= start + 2 * H_PULSES * period && e <= t0);
	run (t0);
	BKUnitEnd (& unit, e);
	base += e;
	run (t1);
	long long total = base + t1 > t0 ? base + t1 : t0;
	for (int c = 0; c < H_CH; c ++) {
		if (c == 0 ? H_VOL : H_VOL2)
			vp_assert (next [c] >= total && (next [c] == start || next [c] - period < total), "all changes up to the end have been made and none later");
		else
			vp_assert (count [c] == 0, "a channel with volume 0 gets no pulses");
	}
	vp_reach ();
	return 0;
}

#elif defined (H_DUTY)
/* whole cycle of a square wave: `duty' phases in a row differ from the others by the full volume */
static BKInt expect (int c, BKUInt n) { (void) n; return level [c]; }
int main (void)
{
	setup (BK_SQUARE);
	BKInt duty = vp_any_int ("duty"), got, want = duty < 1 ? 1 : duty > 15 ? 15 : duty;
	BKSetAttr (& unit, BK_DUTY_CYCLE, duty);
	BKGetAttr (& unit, BK_DUTY_CYCLE, & got);
	vp_assert (got == want, "duty cycle is limited to 1..15");
	BKSetAttr (& unit, BK_PERIOD, 1000);
	BKSetAttr (& unit, BK_VOLUME, MAXV);
	int on = 0, changes = 0, last = 0;
	for (int i = 0; i < 32; i ++) {
		run (1000 * i + 1);
		int now = level [0] != 0;
		vp_assert (level [0] == 0 || (want <= 8 ? level [0] == (MAXV * MAXV) >> 15 : level [0] == - ((MAXV * MAXV) >> 15) - 1), "a square wave is at 0 or at its amplitude");
		if (i >= 16) {
			on += now;
			changes += now != last;
		}
		last = now;
	}
	vp_assert (on == want, "a square wave is on for exactly as many of 16 phases as its duty cycle says");
	vp_assert (changes == 2 || changes == 1, "... in a row");
	vp_assert (level [0] == level [1], "channels of the same volume get the same amplitude");
	vp_reach ();
	return 0;
}

#elif defined (H_VOLUMES)
/* each channel follows its own volume, whatever the others; volumes and mute change between runs */
static BKInt vol [H_CH];
static BKUInt pos; /* phases done before this run */
static BKInt expect (int c, BKUInt n)
{
	static BKInt const tri [32] = { 0, 2047, 4095, 6143, 8191, 10239, 12287, 14335, 14335, 12287, 10239, 8191, 6143, 4095, 2047, 0,
		0 - 2047, -4095, -6143, -8191, -10239, -12287, -14335, -16383, -16383, -14335, -12287, -10239, -8191, -6143, -4095, -2047 };
	return (tri [(pos + n) & 31] * vol [c]) >> 15;
}
#define PERIOD 100000
static void part (int k)
{
	int mute = 0;
	long long t = base + unit.time;
	BKInt before [H_CH], got, any = 0;
	BKUInt n = H_VOLUMES_N;
	for (int c = 0; c < H_CH; c ++) {
		count [c] = 0;
		next [c] = t;
		before [c] = level [c];
		/* two channels have any volume, the others are on or off */
		BKInt v = c == H_A || c == H_B ? vp_any_int ("volume") : (H_ON >> c & 1) * 1234;
		vp_assert (BKSetAttr (& unit, BK_VOLUME_0 + c, v) == 0, "volume is set");
		vol [c] = v < 0 ? 0 : v > MAXV ? MAXV : v;
		vp_assert (BKGetAttr (& unit, BK_VOLUME_0 + c, & got) == 0 && got == vol [c], "volume is limited to 0..32767");
		any |= vol [c];
	}
#ifdef H_MUTE
	if (k) {
		mute = H_MUTE;
		BKSetAttr (& unit, BK_MUTE, mute);
	}
#endif
	BKUInt end = unit.time + PERIOD * (n - 1) + 1;
	run (end);
	for (int c = 0; c < H_CH; c ++) {
		vp_assert (count [c] == (vol [c] && ! mute ? n : 0), "exactly the channels with a volume get all changes");
		vp_assert (count [c] || level [c] == before [c], "others keep their level");
		BKGetAttr (& unit, BK_VOLUME_0 + c, & got);
		vp_assert (got == vol [c], "mute does not change the volume");
	}
	vp_assert (unit.time == (any && ! mute ? t - base + PERIOD * n : end), "all channels continue at the same time");
	if (any && ! mute)
		pos += n;
	BKGetAttr (& unit, BK_PHASE, & got);
	vp_assert (got == (BKInt) (pos & 31), "all channels continue with the same phase");
	base += end;
	BKUnitEnd (& unit, end);
}
int main (void)
{
	setup (BK_TRIANGLE);
	BKSetAttr (& unit, BK_PERIOD, PERIOD);
	BKSetAttr (& unit, BK_PHASE, H_VOLUMES);
	pos = H_VOLUMES;
	part (0);
#ifdef H_MUTE
	part (1);
#endif
	vp_reach ();
	return 0;
}

#elif defined (H_SAMPLE)
/*
 * Samples: every frame played is the one of the ideal position, whatever the
 * range, direction, period and split into runs.
 *   H_SAMPLE  0: once, 1: repeat, 2: palindrome
 *   H_SUSTAIN 0: hold, 1: hold and release, 2: hold and release immediately
 *   H_STEP    n: whole frames only
 */
#define NF 6
#define UNIT BK_FINT20_UNIT
#define NEG(a) (-(a) - 1)
#ifdef H_STEREO
static BKFrame const frames [NF * 3] = { 1000, 5, -2000, 6, 32767, -32768, -32768, 77, 7, 1111, 12345, 3333, -4444, 222, 31000, -9, 8765, 4321 };
#define FRAMES(i, c) frames [(i) * DCH + (c)]
#define DCH H_CH
#else
static BKFrame const frames [NF] = { 1000, -2000, 32767, -32768, 7, 12345 };
#define FRAMES(i, c) frames [i]
#define DCH 1
#endif
static BKInt lo, len, rev, ended, released;
static long long per, start;
static BKInt resets;
#ifdef H_SUSTAIN
static BKInt sus0, sus1, cur;
#endif
static BKInt expect (int c, BKUInt n)
{
	BKInt idx;
	long long x = per * (long long) n;
	BKInt whole = (BKInt) (x >> 20);
	vp_assert (c > 0 || ! ended, "nothing is played behind the end");
#ifdef H_SUSTAIN
	idx = cur;
	/* next frame */
	if (! rev) {
		cur += whole = (BKInt) (per >> 20);
		if (! released && cur >= sus1)
			cur = sus0;
		else if (cur >= len)
			ended = 1;
	}
	else {
		cur -= (BKInt) (per >> 20);
		if (! released && cur < sus0)
			cur = sus1 - 1;
		else if (cur < 0)
			ended = 1;
	}
#elif H_SAMPLE == 2
	BKInt m = whole + (rev ? len : 0);
	m -= m >= 4 * len ? 4 * len : 0;
	m -= m >= 2 * len ? 2 * len : 0;
	idx = m < len ? m : 2 * len - 1 - m;
#else
	if (rev)
		whole = (BKInt) ((x + UNIT - 1) >> 20);
#if H_SAMPLE == 1
	whole -= whole >= 8 * len ? 8 * len : 0;
	whole -= whole >= 4 * len ? 4 * len : 0;
	whole -= whole >= 2 * len ? 2 * len : 0;
	whole -= whole >= len ? len : 0;
#else
	x += per;
	if (((rev ? x + UNIT - 1 : x) >> 20) >= len)
		ended = 1;
#endif
	idx = rev ? len - 1 - whole : whole;
#endif
	/* the next frame is due one frame later, at the fraction of its position */
	x = per * (long long) (n + 1);
	next [c] = start + (long long) (n + 1) * UNIT + ((rev ? - x : x) & (UNIT - 1));
	return ((BKInt) FRAMES (lo + idx, c) * MAXV) >> 15;
}

static BKEnum reset_cb (BKCallbackInfo * info, void * user)
{
	vp_assert (info -> object == & unit && user == & ctx, "callback info");
	if (info -> event == BK_EVENT_SAMPLE_RESET)
		resets ++;
	else
		vp_assert (info -> event == BK_EVENT_SAMPLE_BEGIN, "event");
	return H_SAMPLE;
}

int main (void)
{
	static BKData data;
	BKInt got;
	setup (BK_SQUARE);
	BKDataInit (& data);
	vp_assert (BKDataSetFrames (& data, frames, NF, DCH, 0) == 0, "frames are set");
	vp_assert (BKSetPtr (& unit, BK_SAMPLE, & data, sizeof (& data)) == 0, "sample is set");
	BKGetAttr (& unit, BK_NUM_PHASES, & got);
	vp_assert (got == NF, "number of frames");
#ifdef H_CB
	BKCallback cb = { reset_cb, & ctx };
	vp_assert (BKSetPtr (& unit, BK_SAMPLE_CALLBACK, & cb, sizeof (cb)) == 0, "callback is set");
#else
	BKSetAttr (& unit, BK_SAMPLE_REPEAT, H_SAMPLE == 0 ? BK_NO_REPEAT : H_SAMPLE == 1 ? BK_REPEAT : BK_PALINDROME);
#endif
	BKInt range [2] = { vp_int ("offset", -8, 8), vp_int ("end", -8, 8) };
	/* negative values count from the end */
	BKInt o = range [0] < 0 ? range [0] + NF + 1 : range [0], e = range [1] < 0 ? range [1] + NF + 1 : range [1];
	o = o < 0 ? 0 : o > NF ? NF : o;
	e = e < 0 ? 0 : e > NF ? NF : e;
	vp_assert (BKSetPtr (& unit, BK_SAMPLE_RANGE, range, sizeof (range)) == 0, "range is set");
	BKInt r [2];
	vp_assert (BKGetPtr (& unit, BK_SAMPLE_RANGE, r, sizeof (r)) == 0 && r [0] == o && r [1] == e, "the range in effect reads back");
	lo = o < e ? o : e;
	len = o < e ? e - o : o - e;
	rev = e < o;
	per = vp_uint ("period", 1, 15);
#ifdef H_STEP
	per <<= 20;
	vp_assume (per <= H_STEP * UNIT);
#if H_SAMPLE == 2
	vp_assume (per >> 20 <= len);
#endif
#else
	per <<= 18;
#endif
	BKSetAttr (& unit, BK_SAMPLE_PERIOD, vp_bool ("negative") ? (BKInt) - per : (BKInt) per);
	BKGetAttr (& unit, BK_SAMPLE_PERIOD, & got);
	vp_assert (got == per, "sample period reads back");
#ifdef H_SUSTAIN
	range [0] = vp_int ("sustain", -8, 8), range [1] = vp_int ("sustain end", -8, 8);
	vp_assert (BKSetPtr (& unit, BK_SAMPLE_SUSTAIN_RANGE, range, sizeof (range)) == 0, "sustain range is set");
	sus0 = range [0] < 0 ? range [0] + len + 1 : range [0], sus1 = range [1] < 0 ? range [1] + len + 1 : range [1];
	sus0 = sus0 < 0 ? 0 : sus0 > len ? len : sus0;
	sus1 = sus1 < 0 ? 0 : sus1 > len ? len : sus1;
	if (sus1 < sus0) {
		BKInt h = sus0;
		sus0 = sus1;
		sus1 = h;
	}
	if (range [0] == range [1])
		sus0 = sus1 = 0;
	vp_assert (BKGetPtr (& unit, BK_SAMPLE_SUSTAIN_RANGE, r, sizeof (r)) == 0 && r [0] == sus0 && r [1] == sus1, "the sustain range in effect reads back");
	released = sus0 == sus1; /* nothing to hold */
	cur = rev ? len - 1 : 0;
	BKSetAttr (& unit, BK_SAMPLE_IMMED_RELEASE, H_SUSTAIN == 2);
#endif
	/* a note start */
	BKSetAttr (& unit, BK_PHASE, -1);
	BKSetAttr (& unit, BK_VOLUME, MAXV);
	if (len < 2)
		ended = 1;
	start = unit.time = TIME ("start", 0, 31);
	for (int c = 0; c < H_CH; c ++)
		next [c] = start;
	BKUInt t0 = TIME ("t0", 0, H_T), end = TIME ("end", 0, H_T), t1 = TIME ("t1", 0, H_T);
	vp_assume (end <= t0 && end + t1 <= (H_T << H_SHIFT));
	run (t0);
	BKUnitEnd (& unit, end);
	base += end;
	long long total = t0;
#if H_SUSTAIN
	if (! released) {
		vp_assert (! ended || len < 2, "a sustained sample does not end");
		released = 1;
		if (H_SUSTAIN == 2) {
			cur = ! rev ? (sus1 < len ? sus1 : len - 1) : (sus0 > 0 ? sus0 - 1 : 0);
		}
	}
	vp_assert (BKSetAttr (& unit, BK_FLAG_RELEASE, 1) == 0, "release");
#endif
	run (t1);
	if (base + t1 > total)
		total = base + t1;
	BKGetAttr (& unit, BK_MUTE, & got);
	vp_assert (got == (ended && len >= 2), "a sample which reached its end is muted, others not");
#ifdef H_CB
	if (H_SAMPLE == 0)
		vp_assert (resets == got, "the callback is asked once at the end");
	else if (len >= 2 && ! rev)
		vp_assert ((resets > 0) == ((per * (long long) count [0]) >> 20 >= len), "the callback is asked at the end");
#endif
	if (! ended) {
		vp_assert (count [0] == (total > start ? ((total - start + UNIT - 1) >> 20) : 0), "one frame is played for each frame of time");
		BKGetAttr (& unit, BK_PHASE, & got);
		vp_assert (got >= 0 && got < len, "the phase stays within the range");
	}
	else
		vp_assert (count [0] >= 1 || len < 2, "a sample is played up to its end");
	vp_reach ();
	return 0;
}

#elif defined (H_FAR)
/* any period, also many times the range */
#define NF 6
static BKFrame const frames [NF + 4] = { 32767, 32767, 1000, 1001, 1002, 1003, 32767, 32767, 32767, 32767 };
static BKInt expect (int c, BKUInt n)
{
	vp_assert (level [c] >= 999 && level [c] <= 1003, "only frames of the range are played");
	return level [c];
}
int main (void)
{
	static BKData data;
	BKInt got;
	setup (BK_SQUARE);
	BKDataInit (& data);
	vp_assert (BKDataSetFrames (& data, frames, NF + 4, 1, 0) == 0, "frames are set");
	vp_assert (BKSetPtr (& unit, BK_SAMPLE, & data, sizeof (& data)) == 0, "sample is set");
	BKInt range [2] = { H_FAR ? 6 : 2, H_FAR ? 2 : 6 };
	BKSetPtr (& unit, BK_SAMPLE_RANGE, range, sizeof (range));
	BKSetAttr (& unit, BK_SAMPLE_REPEAT, vp_int ("mode", 0, 3));
	BKInt period = vp_any_int ("period");
	vp_assume (period != INT32_MIN);
	BKSetAttr (& unit, BK_SAMPLE_PERIOD, period);
	BKGetAttr (& unit, BK_SAMPLE_PERIOD, & got);
	period = period < 0 ? - period : period;
	vp_assert (got == (period < 4096 ? 4096 : period > 1 << 28 ? 1 << 28 : period), "sample period is limited to 1/256..256 frames");
	range [0] = vp_int ("sustain", -5, 4);
	range [1] = vp_int ("sustain end", -5, 4);
	BKSetPtr (& unit, BK_SAMPLE_SUSTAIN_RANGE, range, sizeof (range));
	BKSetAttr (& unit, BK_PHASE, vp_any_int ("phase"));
	BKSetAttr (& unit, BK_SAMPLE_IMMED_RELEASE, vp_bool ("immed"));
	BKSetAttr (& unit, BK_FLAG_RELEASE, vp_bool ("release"));
	BKSetAttr (& unit, BK_VOLUME, MAXV);
	/* only the level of the pulses is of interest */
	unit.sample.timeFrac = 0;
	run (BK_FINT20_UNIT + 1);
	vp_reach ();
	return 0;
}

#elif defined (H_SPLIT)
/*
 * From any state: running to a time is the same as running to any time before and
 * then to the time, with or without ending the period in between.
 *   H_SPLIT  waveform, 6: sample
 */
static BKUnit other;
#define W ((BKEnum []) { 0, BK_SQUARE, BK_TRIANGLE, BK_SAWTOOTH, BK_SINE, BK_NOISE, BK_CUSTOM, BK_SAMPLE } [H_SPLIT])
static BKFrame const frames [6] = { 1000, -2000, 32767, -32768, 7, 12345 };
static void state (BKUnit * u, BKUInt phase, BKUInt time, BKUInt frac, BKUInt left, BKInt l0, BKInt l1)
{
	static BKData data;
	BKUnitInit (u, BK_SQUARE);
	BKUnitAttach (u, & ctx);
	BKSetAttr (u, BK_DUTY_CYCLE, 5);
	if (H_SPLIT <= 5)
		BKSetAttr (u, BK_WAVEFORM, W);
	else {
		BKDataInit (& data);
		BKDataSetFrames (& data, frames, 6, 1, 0);
		BKSetPtr (u, H_SPLIT == 6 ? BK_WAVEFORM : BK_SAMPLE, & data, sizeof (& data));
	}
	u -> phase.phase = phase;
	u -> time = time;
	u -> sample.timeFrac = frac;
	u -> lastPulse [0] = l0;
	u -> lastPulse [1] = l1;
	BKSetAttr (u, BK_VOLUME, 12345);
	BKSetAttr (u, BK_VOLUME_1, 32767);
}
int main (void)
{
	ctx.numChannels = H_CH;
	ctx.channels = chan;
	BKInt num = 1 << 16;
	BKUInt time = TIME ("time", 0, 15), frac = 0, phase = 0, left = 0, period = TIME ("period", 1, 63);
	static BKInt const counts [] = { 0, 16, 32, 7, 32, 1 << 16, 6, 6 };
	phase = vp_uint ("phase", 0, counts [H_SPLIT] - 1);
	BKInt l0 = vp_int ("level", -16384, 16383), l1 = vp_int ("level", -16384, 16383);
#if H_SPLIT == 7
	frac = vp_uint ("frac", 0, 3) << 18;
	period = 1000;
#endif
	state (& unit, phase, time, frac, left, l0, l1);
	state (& other, phase, time, frac, left, l0, l1);
	BKSetAttr (& unit, BK_PERIOD, period);
	BKSetAttr (& other, BK_PERIOD, period);
#if H_SPLIT == 5 || H_SPLIT == 6
	BKUInt wrap = vp_uint ("wrap", 0, 4);
	unit.phase.wrap = other.phase.wrap = wrap == 1 ? 0 : wrap;
	unit.phase.wrapCount = other.phase.wrapCount = vp_uint ("left", 1, 5);
#endif
#if H_SPLIT == 7
	BKInt range [2] = { H_REV ? 6 : 0, H_REV ? 0 : 6 }, mode = H_REPEAT, p = vp_int ("sample period", 1, 15) << 18;
	BKInt sus [2] = { vp_int ("sustain", 0, 5), vp_int ("sustain end", 0, 6) }, release = vp_bool ("release");
	for (int i = 0; i < 2; i ++) {
		BKUnit * u = i ? & other : & unit;
		BKSetPtr (u, BK_SAMPLE_RANGE, range, sizeof (range));
		BKSetPtr (u, BK_SAMPLE_SUSTAIN_RANGE, sus, sizeof (sus));
		BKSetAttr (u, BK_SAMPLE_REPEAT, mode);
		BKSetAttr (u, BK_SAMPLE_PERIOD, p);
		BKSetAttr (u, BK_FLAG_RELEASE, release);
		u -> phase.phase = phase;
	}
#endif
	BKUInt t = TIME ("end", 0, H_T), s = TIME ("split", 0, H_T), cut = TIME ("cut", 0, H_T);
	vp_assume (s <= t && cut <= s && t <= time + 4 * (H_SPLIT == 7 ? BK_FINT20_UNIT : period));
	BKUnitRun (& unit, t);
	second = 1;
	BKUnitRun (& other, s);
	base = cut;
	BKUnitEnd (& other, cut);
	BKUnitRun (& other, t - cut);
	BKInt a, b;
	for (int c = 0; c < H_CH; c ++) {
		vp_assert (n1 [c] == n2 [c], "no changes missing");
		vp_assert (unit.lastPulse [c] == other.lastPulse [c], "same level");
	}
	BKGetAttr (& unit, BK_PHASE, & a);
	BKGetAttr (& other, BK_PHASE, & b);
	vp_assert (a == b, "same phase");
	BKGetAttr (& unit, BK_MUTE, & a);
	BKGetAttr (& other, BK_MUTE, & b);
	vp_assert (a == b, "same end");
	vp_assert (unit.phase.wrapCount == other.phase.wrapCount && unit.sample.timeFrac == other.sample.timeFrac && unit.sample.period == other.sample.period, "same state");
	vp_assert (unit.time == other.time + cut, "same time");
	vp_reach ();
	return 0;
}

#elif defined (H_ATTR)
/* any attribute is set to any value: it reads back limited, the others keep theirs */
static BKInt expect (int c, BKUInt n) { return level [c]; }
static BKEnum const attrs [] = { BK_WAVEFORM, BK_DUTY_CYCLE, BK_PERIOD, BK_PHASE, BK_PHASE_WRAP, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3,
	BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7, BK_MUTE, BK_SAMPLE_REPEAT, BK_SAMPLE_PERIOD, BK_SAMPLE_IMMED_RELEASE, BK_FLAG_RELEASE, BK_NUM_PHASES };
#define NA ((int) (sizeof (attrs) / sizeof (*attrs)))
#define LIMIT(v, l, h) ((v) < (l) ? (l) : (v) > (h) ? (h) : (v))
int main (void)
{
	BKInt before [NA], after [NA];
	setup (H_ATTR == 0 ? BK_SQUARE : H_ATTR == 1 ? BK_NOISE : BK_SINE);
	BKInt count0 = H_ATTR == 0 ? 16 : H_ATTR == 1 ? 8 : 32;
	/* some state */
	BKSetAttr (& unit, BK_PERIOD, vp_int ("period0", 0, INT32_MAX));
	BKSetAttr (& unit, BK_PHASE, 3);
	BKSetAttr (& unit, BK_VOLUME_2, 100);
	BKSetAttr (& unit, BK_VOLUME_7, 700);
	BKEnum attr = vp_any_uint ("attr");
	BKInt value = vp_any_int ("value");
	vp_assume (value != INT32_MIN); /* has no absolute value */
	for (int i = 0; i < NA; i ++) {
		before [i] = -12345;
		vp_assert (BKGetAttr (& unit, attrs [i], & before [i]) == 0, "attribute is readable");
	}
	BKInt r = BKSetAttr (& unit, attr, value);
	BKInt known = attr == BK_VOLUME;
	BKInt wave = value == BK_SQUARE ? 16 : value == BK_NOISE ? 8 : value == BK_SINE || value == BK_TRIANGLE ? 32 : value == BK_SAWTOOTH ? 7 : value == 0 ? 16 : -1;
	for (int i = 0; i < NA; i ++) {
		BKGetAttr (& unit, attrs [i], & after [i]);
		BKInt want = before [i];
		if (attr == attrs [i] && attr != BK_NUM_PHASES) {
			known = 1;
			switch (attr) {
				case BK_WAVEFORM: if (wave >= 0) want = value; else known = 0; break;
				case BK_DUTY_CYCLE: want = LIMIT (value, 1, 15); break;
				case BK_PERIOD: want = value < 0 ? - value : value; break;
				case BK_PHASE: want = LIMIT (value, 0, count0 - 1); break;
				case BK_PHASE_WRAP: want = value == 0 ? 0 : value < 2 ? 2 : value; break;
				case BK_MUTE: case BK_SAMPLE_IMMED_RELEASE: want = value != 0; break;
				case BK_SAMPLE_REPEAT: want = value == BK_REPEAT || value == BK_PALINDROME ? value : BK_NO_REPEAT; break;
				case BK_SAMPLE_PERIOD: want = value < 0 ? - value : value; want = LIMIT (want, 4096, 1 << 28); break;
				case BK_FLAG_RELEASE: break; /* needs a sustain range */
				default: want = LIMIT (value, 0, 32767); break;
			}
		}
		else if (attr == BK_VOLUME && i >= 5 && i < 13)
			want = LIMIT (value, 0, 32767);
		else if (attr == BK_WAVEFORM && wave >= 0 && attrs [i] == BK_NUM_PHASES)
			want = wave;
		else if (attrs [i] == BK_PHASE && ((attr == BK_WAVEFORM && wave >= 0 && value != before [0]) || attr == BK_PHASE_WRAP))
			want = 0;
		else if (attrs [i] == BK_PHASE && attr == BK_DUTY_CYCLE && H_ATTR == 0)
			want = after [i] == 0 ? 0 : want; /* may start over */
		vp_assert (after [i] == want, "the attribute reads back limited, the others keep their values");
	}
	vp_assert ((r == 0) == known, "known attributes are set, others are refused");
	if (! known)
		vp_assert (r == (attr == BK_WAVEFORM ? BK_INVALID_VALUE : BK_INVALID_ATTRIBUTE), "error code");
	/* reading */
	attr = vp_any_uint ("get");
	BKInt v = 4711;
	r = BKGetAttr (& unit, attr, & v);
	known = 0;
	for (int i = 0; i < NA; i ++)
		known |= attrs [i] == attr;
	vp_assert ((r == 0) == known && (r == 0 || (r == BK_INVALID_ATTRIBUTE && v == 4711)), "unknown attributes are not readable");
	vp_reach ();
	return 0;
}

#elif defined (H_PTR)
/* pointers: samples and waveforms set, read back, replaced, unset; refused values change nothing */
static BKInt expect (int c, BKUInt n) { return level [c]; }
static BKFrame fr [2] [6];
static BKData d0, d1;
static void check (BKEnum waveform, void * data)
{
	void * p = & unit;
	BKInt w = -1;
	vp_assert (BKGetAttr (& unit, BK_WAVEFORM, & w) == 0 && w == (BKInt) waveform, "waveform");
	vp_assert (BKGetPtr (& unit, BK_SAMPLE, & p, sizeof (p)) == 0 && p == data, "the data in use reads back");
}
int main (void)
{
	setup (BK_SINE);
	BKDataInit (& d0);
	BKDataInit (& d1);
	BKInt ch = H_DCH;
	BKDataSetFrames (& d0, fr [0], 2, ch, 0);
	BKDataSetFrames (& d1, fr [1], 6, 1, 0);
	check (BK_SINE, NULL);
#if H_PTR < 0
	BKEnum other = vp_any_uint ("attr");
	if (other != BK_SAMPLE_CALLBACK && other != BK_WAVEFORM && other != BK_SAMPLE) {
		BKInt range [2] = { 1, 2 };
		BKInt r = BKSetPtr (& unit, other, range, sizeof (range));
		vp_assert (r == (other == BK_SAMPLE_RANGE || other == BK_SAMPLE_SUSTAIN_RANGE ? BK_INVALID_STATE : BK_INVALID_ATTRIBUTE), "unknown pointers and ranges without a sample are refused");
	}
	check (BK_SINE, NULL);
#else
	/* two steps: each sets or unsets sample or waveform */
	BKEnum w = BK_SINE;
	void * used = NULL;
	for (int i = 0; i < 2; i ++) {
		int s = (i ? H_PTR / 6 : H_PTR % 6) / 3;
		int d = (i ? H_PTR / 6 : H_PTR % 6) % 3;
		BKData * data = d == 0 ? NULL : d == 1 ? & d0 : & d1;
		BKInt r = BKSetPtr (& unit, s ? BK_SAMPLE : BK_WAVEFORM, data, sizeof (void *));
		if (d == 0) {
			vp_assert (r == 0, "data is unset");
			if (w == (s ? BK_SAMPLE : BK_CUSTOM)) {
				w = 0;
				used = NULL;
			}
		}
		else if (s && d == 1 && ch == 3) {
			vp_assert (r == BK_INVALID_NUM_CHANNELS, "number of channels must match");
			if (w == BK_SAMPLE || w == BK_CUSTOM) {
				w = 0;
				used = NULL;
			}
		}
		else {
			vp_assert (r == 0, "data is set");
			w = s ? BK_SAMPLE : BK_CUSTOM;
			used = data;
		}
		check (w, used);
		vp_assert ((d0.stateList == & unit.sample.dataState) == (unit.sample.dataState.data == & d0) && (d1.stateList == & unit.sample.dataState) == (unit.sample.dataState.data == & d1), "data knows its users");
		vp_assert (! used || unit.sample.dataState.data == used, "the data in use is informed about");
	}
#endif
	BKDispose (& unit);
	vp_assert (d0.stateList == NULL && d1.stateList == NULL, "a disposed unit uses no data");
	vp_assert (ctx.firstUnit == NULL, "a disposed unit is detached");
	vp_reach ();
	return 0;
}
#endif
