/* BKClock/BKContext: scheduling of clocks, dividers and units */
#include "vp.h"
#include "BlipKit.h"

/* times are multiples of a power of two below 2^14 of it: the adders the solver
   has to reason about are 14 bits wide, at the low end or across the frames */
#ifndef H_SHIFT
#define H_SHIFT 17
#endif
#ifndef H_BITS
#define H_BITS 14
#endif
#define VMIN(a, b) ((a) < (b) ? (a) : (b))
#define TIME(name, lo, hi) (vp_ll (name, ((lo) + (1LL << H_SHIFT) - 1) >> H_SHIFT, VMIN ((hi) >> H_SHIFT, (1LL << H_BITS) - 1)) << H_SHIFT)

#define FRAME(n) ((BKFUInt20) (n) << BK_FINT20_SHIFT)

static BKContext ctx;
/* not arrays: the solver keeps them apart */
static BKClock clk0, clk1, clk2;
static BKDivider dvd0, dvd1;
#define CLK(i) ((i) == 0 ? & clk0 : (i) == 1 ? & clk1 : & clk2)
#define DVD(i) ((i) == 0 ? & dvd0 : & dvd1)
static BKUnit units [2];

/* ---- a recording unit */
static long long base;       /* ended time */
static long long run_to;     /* absolute time the units were run to */
static int       num_runs;
static BKInt rec_run (BKUnit * unit, BKFUInt20 endTime)
{
	long long t = base + endTime;
	if (unit == & units [0]) {
		if (t > run_to)
			run_to = t;
		num_runs ++;
	}
	if (endTime > unit -> time)
		unit -> time = endTime;
	for (BKUInt i = 0; i < unit -> ctx -> numChannels; i ++)
		BKBufferEnd (& unit -> ctx -> channels [i], unit -> time);
	return 0;
}

static void rec_end (BKUnit * unit, BKFUInt20 time)
{
	if (unit == & units [0])
		base += time;
	unit -> time -= time;
}

static void unit_init (BKUnit * unit)
{
	unit -> run   = (BKUnitRunFunc) rec_run;
	unit -> end   = (BKUnitEndFunc) rec_end;
	unit -> ctx   = & ctx;
	unit -> time  = ctx.deltaTime;
	ctx.firstUnit = ctx.lastUnit = unit;
}

static long long now (void)
{
	BKTime t;
	BKContextGetPtr (& ctx, BK_TIME, & t);
	return t;
}

/* ---- monitor: each tick is checked when it happens */
static long long due [3];     /* next tick of each clock; -1: none */
static long long per [3];
static long long last_time = -1;
static int       last_id;
static int       order [3] = { 0, 1, 2 };
static int       num_ticks;
static int       ahead;       /* the clocks have been run ahead of a requested time */

static void tick (BKCallbackInfo * info, int id)
{
	vp_assert (info -> event == BK_EVENT_CLOCK && info -> object == CLK (id), "callback is told its clock");
	vp_assert (due [id] >= 0, "no detached clock ticks");
	vp_assert (now () == due [id], "a clock ticks exactly at multiples of its period");
	vp_assert (run_to == now (), "units have been run exactly to the time of the tick");
	vp_assert (now () >= last_time, "ticks happen in order of time");
	vp_assert (now () > last_time || order [id] > order [last_id], "simultaneous ticks happen in order of the list, each clock once");
	last_time = now ();
	last_id   = id;
	due [id] += per [id];
	num_ticks ++;
}

static BKEnum rec (BKCallbackInfo * info, void * user)
{
	tick (info, (int) (intptr_t) user);
	return 0;
}

static void clock_init (int i, BKTime period, BKCallbackFunc func)
{
	BKCallback c = { func, (void *) (intptr_t) i };
	BKClockInit (CLK (i), period, & c);
	per [i] = period;
	due [i] = -1;
}

static BKFrame out [8192];


#if defined (H_TICKS)
/* one clock, attached when some time has passed: ticks at s, s+p, s+2p ... whatever the chunks */
int main (void)
{
	BKContextInit (& ctx, 1, 44100);
	ctx.numChannels = 0; /* no output needed */
	unit_init (& units [0]);
	long long p = TIME ("period", H_MINP, H_MAXP);
	BKFUInt20 s = TIME ("start", 0, FRAME (10));
	BKContextEnd (& ctx, s);
	clock_init (0, p, rec);
	vp_assert (BKClockAttach (CLK (0), & ctx, NULL) == 0, "attach");
	due [0] = s;
	long long end = s;
	for (int i = 0; i < H_CHUNKN; i ++) {
		BKFUInt20 c = TIME ("chunk", 0, FRAME (1024));
		end += c;
		vp_assume (end - s <= H_MAXT * p);
		BKContextEnd (& ctx, c);
		vp_assert (base == end, "units are ended at the requested time");
		vp_assert (run_to >= end, "units are run to the requested time");
		vp_assert (due [0] >= end, "each tick before the end time happened");
	}
	vp_reach ();
	return 0;
}

#elif defined (H_TWO)
/* two clocks of different periods; the second is attached later, before or behind the first */
int main (void)
{
	BKContextInit (& ctx, 1, 44100);
	ctx.numChannels = 0; /* no output needed */
	unit_init (& units [0]);
	long long p0 = TIME ("p0", 1, FRAME (700)), p1 = TIME ("p1", 1, FRAME (700));
	clock_init (0, p0, rec);
	clock_init (1, p1, rec);
	BKClockAttach (CLK (0), & ctx, NULL);
	due [0] = 0;
	BKFUInt20 late = TIME ("late", 0, FRAME (8));
	vp_assume (late <= p0);
	BKContextRun (& ctx, late);
	due [1] = now (); /* clocks already are at the next tick */
#if H_TWO == 1
	BKClockAttach (CLK (1), & ctx, BK_FIRST_ELEMENT_PTR);
	order [0] = 1;
	order [1] = 0;
#elif H_TWO == 2
	BKClockAttach (CLK (1), & ctx, CLK (0));
	order [0] = 1;
	order [1] = 0;
#else
	BKClockAttach (CLK (1), & ctx, NULL);
#endif
	BKFUInt20 c0 = TIME ("c0", 0, FRAME (1024)), c1 = TIME ("c1", 0, FRAME (1024));
	BKFUInt20 end = c0 + c1;
	vp_assume (c0 >= late && end <= 2 * p0 && end <= due [1] + 2 * p1);
	BKContextEnd (& ctx, c0);
	vp_assert (due [0] >= c0 && (c0 == late || due [1] >= c0), "each tick before the end time happens");
	BKContextEnd (& ctx, c1);
	for (int i = 0; i < 2; i ++)
		vp_assert (due [i] >= end, "each tick before the end time happens");
	vp_assert (base == end && run_to >= end, "units are run to the end");
	vp_reach ();
	return 0;
}

#elif defined (H_INDUCT)
/* one step from any state: clocks anywhere within their periods, context anywhere */
int main (void)
{
	BKContextInit (& ctx, 1, 44100);
	ctx.numChannels = 0; /* no output needed */
	unit_init (& units [0]);
	long long cur = TIME ("current", 0, 1LL << 40);
	BKFUInt20 d   = TIME ("delta", 0, FRAME (700));
	vp_assume (d <= cur);
	ctx.currentTime = cur;
	ctx.deltaTime   = d;
	units [0].time  = d;
	base   = cur - d;
	run_to = cur;
	long long rest [2];
	for (int i = 0; i < 2; i ++) {
		clock_init (i, TIME ("period", 1, 1LL << 40), rec);
		BKClockAttach (CLK (i), & ctx, NULL);
		rest [i] = TIME ("rest", 0, 1LL << 40);
		vp_assume (rest [i] <= per [i]);
		CLK (i) -> time     = TIME ("time", 0, 1LL << 40);
		CLK (i) -> nextTime = CLK (i) -> time + rest [i];
		due [i] = cur + rest [i];
	}
	BKFUInt20 end = TIME ("end", 0, FRAME (2047));
	/* at most one tick time behind the present one */
	for (int i = 0; i < 2; i ++) {
		vp_assume (end <= d + per [i]);
		vp_assume (rest [i] == 0 || rest [0] == rest [1] || end <= d + rest [i]);
	}
	vp_assume (end <= d + FRAME (600));
	BKContextEnd (& ctx, end);
	if (d < end)
		for (int i = 0; i < 2; i ++)
			vp_assert (due [i] >= cur - d + end, "each tick before the end time happens");
	vp_assert (base == cur - d + end && run_to >= base, "units are run and ended at the requested time");
	vp_assert (now () == run_to && ctx.deltaTime == run_to - base, "clocks are as far as the units");
	for (int i = 0; i < 2; i ++)
		vp_assert (CLK (i) -> nextTime - CLK (i) -> time == due [i] - now () || (CLK (i) -> nextTime == CLK (i) -> time && due [i] == now () + per [i]), "clocks are due at their next tick");
	vp_reach ();
	return 0;
}

#elif defined (H_DIVIDER)
/* dividers of a clock, of any value; reset at any tick */
static int called [2];
static int sequence;
static BKEnum div_rec (BKCallbackInfo * info, void * user)
{
	int d = (int) (intptr_t) user;
	vp_assert (info -> event == BK_EVENT_DIVIDER, "event of divider");
	called [d] ++;
	if (d)
		sequence = called [0];
	return 0;
}

int main (void)
{
	static BKClock c;
	BKUInt n [2] = { vp_uint ("n0", 0, INT32_MAX), vp_uint ("n1", 0, 8) };
	BKCallback cb [2] = { { div_rec, (void *) 0 }, { div_rec, (void *) 1 } };
	BKClockInit (& c, FRAME (1), NULL);
	BKDividerInit (DVD (0), n [0], & cb [0]);
	BKDividerInit (DVD (1), n [1], & cb [1]);
	vp_assert (BKDividerAttachToClock (DVD (0), & c) == 0, "attach divider");
	vp_assert (BKDividerAttachToClock (DVD (1), & c) == 0, "attach divider");
	int reset_at = vp_int ("reset_at", 0, 12);
	BKUInt since [2] = { 0, 0 };
	for (int t = 0; t < 10; t ++) {
		if (t == reset_at) {
			if (vp_bool ("clock")) {
				BKClockReset (& c);
				since [0] = since [1] = 0;
			}
			else {
				BKDividerReset (DVD (1));
				since [1] = 0;
			}
		}
		called [0] = called [1] = sequence = 0;
		BKClockTick (& c);
		for (int d = 0; d < 2; d ++) {
			vp_assert (called [d] == (since [d] == 0), "a divider of n is called at every nth tick, starting with the first");
			if (++ since [d] >= (n [d] < 1 ? 1 : n [d]))
				since [d] = 0;
		}
		vp_assert (! called [1] || sequence == called [0], "dividers are called in the order they are attached");
		BKClockTick (& c);
		vp_assert (called [0] + called [1] <= 2, "a clock ticks once at a time");
		BKClockAdvance (& c, FRAME (1));
	}
	vp_reach ();
	return 0;
}

#elif defined (H_NEWDIV)
/* the callback changes the divider value */
static BKUInt newdiv, seen;
static int calls;
static BKEnum chdiv (BKCallbackInfo * info, void * user)
{
	vp_assert (info -> event == BK_EVENT_DIVIDER && user == & newdiv, "callback is told its event");
	seen = info -> divider;
	if (calls == 1)
		info -> divider = newdiv;
	calls ++;
	return 0;
}

int main (void)
{
	static BKClock c;
	BKCallback cb = { chdiv, & newdiv };
	BKUInt n = vp_uint ("n", 1, 4);
	newdiv = vp_uint ("new", 0, INT32_MAX);
	BKClockInit (& c, FRAME (1), NULL);
	BKDividerInit (DVD (0), n, & cb);
	BKDividerAttachToClock (DVD (0), & c);
	BKUInt want = newdiv < 1 ? 1 : newdiv;
	BKUInt next = 0;
	for (BKUInt t = 0; t < 12; t ++) {
		int before = calls;
		BKClockTick (& c);
		if (t == next) {
			vp_assert (calls == before + 1, "divider is called at its tick");
			vp_assert (seen == (before < 2 ? n : want), "callback is told the current divider");
			next += before < 1 ? n : want;
		}
		else {
			vp_assert (calls == before, "divider is not called in between");
		}
		BKClockAdvance (& c, FRAME (1));
	}
	vp_reach ();
	return 0;
}

#elif defined (H_PERIOD)
/* a callback returns a next time, sets the period, resets or detaches its clock */
static int at;
static BKTime np;
static BKEnum act (BKCallbackInfo * info, void * user)
{
	int self = (int) (intptr_t) user;
	vp_assert (info -> nextTime == CLK (self) -> time, "callback is told the time of the tick");
	tick (info, self);
	if (num_ticks - 1 == at) {
		due [self] -= per [self];
#if H_PERIOD == 1
		per [self] = np;
		info -> nextTime = info -> nextTime + np;
#elif H_PERIOD == 2
		per [self] = np;
		BKClockSetPeriod (CLK (self), np);
#elif H_PERIOD == 3
		BKClockReset (CLK (self));
		/* a clock which is reset within its tick goes on from there */
		last_time --;
#elif H_PERIOD == 4
		BKClockDetach (CLK (self));
		per [self] = 0;
		due [self] = -1;
#elif H_PERIOD == 5
		info -> nextTime = info -> nextTime - np;
#elif H_PERIOD == 6
		BKClockReset (CLK (self));
		last_time --;
		per [self] = np;
		info -> nextTime = info -> nextTime + np;
#endif
		due [self] += per [self];
#if H_PERIOD == 4
		due [self] = -1;
#endif
	}
	return 0;
}

int main (void)
{
	BKContextInit (& ctx, 1, 44100);
	ctx.numChannels = 0; /* no output needed */
	unit_init (& units [0]);
	long long p = TIME ("p", 1, FRAME (200));
	np     = TIME ("np", 1, FRAME (200));
	at     = vp_int ("at", 0, 2);
	clock_init (0, p, act);
	BKClockAttach (CLK (0), & ctx, NULL);
	due [0] = 0;
	BKFUInt20 end = TIME ("end", 1, FRAME (1000));
	vp_assume (end <= 3 * p && end <= 3 * np);
	BKContextEnd (& ctx, end);
	vp_assert (due [0] < 0 || due [0] >= end, "each tick happens");
	vp_assert (due [0] < 0 || CLK (0) -> period == per [0], "only the callback changes the period");
	vp_assert (base == end && run_to >= end, "units are run to the end");
	vp_reach ();
	return 0;
}

#elif defined (H_OTHER)
/* a callback resets, detaches or attaches an other clock */
static int at;
static BKEnum act (BKCallbackInfo * info, void * user)
{
	int self = (int) (intptr_t) user;
	tick (info, self);
	if (num_ticks - 1 == at) {
#if H_OTHER == 1
		BKClockReset (CLK (! self));
		due [! self] = now ();
		if (last_id > ! self || ! self < self)
			last_time = now () - 1;
#elif H_OTHER == 2
		BKClockDetach (CLK (! self));
		due [! self] = -1;
#elif H_OTHER == 3
		BKClockAttach (CLK (2), & ctx, NULL);
		due [2] = now ();
#elif H_OTHER == 4
		BKClockAttach (CLK (2), & ctx, BK_FIRST_ELEMENT_PTR);
		due [2] = now ();
		last_time = now () - 1;
#elif H_OTHER == 5
		BKClockDetach (CLK (2));
		due [2] = -1;
#endif
	}
#if H_OTHER == 4
	/* the new first clock starts when all others had their turn */
	else if (num_ticks - 2 == at && due [2] == now ()) {
		last_time = now () - 1;
	}
#endif
	return 0;
}

int main (void)
{
	BKContextInit (& ctx, 1, 44100);
	ctx.numChannels = 0; /* no output needed */
	unit_init (& units [0]);
	clock_init (0, TIME ("p0", 1, FRAME (100)), act);
	clock_init (1, TIME ("p1", 1, FRAME (100)), act);
	clock_init (2, TIME ("p2", 1, FRAME (100)), rec);
#if H_OTHER == 4
	order [2] = -1;
#endif
	for (int i = 0; i < 2; i ++) {
		BKClockAttach (CLK (i), & ctx, NULL);
		due [i] = 0;
	}
#if H_OTHER == 5
	BKClockAttach (CLK (2), & ctx, NULL);
	due [2] = 0;
#endif
#ifdef H_AT
	at = H_AT;
#else
	at = vp_int ("at", 0, 2);
#endif
	BKFUInt20 end = TIME ("end", 1, FRAME (300));
	for (int i = 0; i < 3; i ++)
		vp_assume (end <= 2 * per [i]);
	BKContextEnd (& ctx, end);
	for (int i = 0; i < 3; i ++)
		vp_assert (due [i] < 0 || due [i] >= end, "each tick happens");
	vp_assert (base == end && run_to >= end, "units are run to the end");
	vp_reach ();
	return 0;
}

#elif defined (H_NOCLOCK)
int main (void)
{
	BKContextInit (& ctx, 1, 44100);
	unit_init (& units [0]);
	long long end = 0;
	for (int i = 0; i < 3; i ++) {
		BKFUInt20 c = TIME ("chunk", 0, FRAME (1024));
		if (vp_bool ("run"))
			BKContextRun (& ctx, vp_uint ("part", 0, c));
		BKContextEnd (& ctx, c);
		end += c;
		vp_assert (base == end && run_to == end, "units are run to the requested time");
		vp_assert (now () == end, "time advances without clocks");
		vp_assert (ctx.deltaTime == 0, "nothing is run ahead");
	}
	vp_reach ();
	return 0;
}

#elif defined (H_TOTIME)
/* generating to times: all frames up to that time, once */
static int written;
static int fail_at = -1, calls;
static BKInt write_frames (BKFrame frames [], BKUInt size, void * info)
{
	vp_assert (size > 0 && size <= BK_MAX_GENERATE_SAMPLES, "write is called for frames only");
	vp_assert (info == & ctx, "user info");
	written += size;
	return calls ++ == fail_at ? 1 : 0;
}

int main (void)
{
	BKContextInit (& ctx, 1, 44100);
	unit_init (& units [0]);
#if H_TOTIME == 1
	clock_init (0, TIME ("period", FRAME (450), FRAME (1LL << 13)), rec);
	BKClockAttach (CLK (0), & ctx, NULL);
	due [0] = 0;
#endif
#if H_TOTIME == 2
	fail_at = vp_int ("fail", 0, 2);
	long long t0 = TIME ("t0", FRAME (1), FRAME (1500));
	BKInt r = BKContextGenerateToTime (& ctx, t0, write_frames, & ctx);
	BKInt blocks = t0 >> 30 ? 2 : 1;
	if ((t0 & 0x3FFFFFFF) < FRAME (1))
		blocks = t0 >> 30;
	vp_assert ((r == BK_INVALID_RETURN_VALUE) == (fail_at < blocks), "generating stops when the callback fails");
	vp_assert (calls <= fail_at + 1, "a failing callback is not called again");
#else
	long long t0 = TIME ("t0", 0, FRAME (1600)), t1 = TIME ("t1", 0, FRAME (2000));
	vp_assume (t1 - t0 <= FRAME (600));
	BKInt n0 = BKContextGenerateToTime (& ctx, t0, write_frames, & ctx);
	vp_assert (n0 == t0 >> 20 && written == n0, "all frames up to the time are generated");
	vp_assert (base == t0, "generated exactly to the time");
	BKInt n1 = BKContextGenerateToTime (& ctx, t1, write_frames, & ctx);
	long long last = t1 > t0 ? t1 : t0;
	vp_assert (n0 + n1 == last >> 20 && written == n0 + n1, "generating in pieces gives all frames");
	vp_assert (BKContextSize (& ctx) == 0, "no frame is left");
#endif
	vp_reach ();
	return 0;
}

#elif defined (H_GENERATE)
extern int stub_reads [], stub_num;
extern BKUInt stub_interlace;
extern BKFrame * stub_base;
int main (void)
{
	BKContextInit (& ctx, H_GENERATE, 44100);
	unit_init (& units [0]);
	stub_base = out;
	BKUInt n = vp_uint ("n", 0, 2500);
	BKInt r = BKContextGenerate (& ctx, out, n);
	vp_assert (r == (BKInt) n, "the requested number of frames is generated");
	vp_assert (base == FRAME (1) * (long long) n, "exactly for their time");
	vp_assert (BKContextSize (& ctx) == 0, "no frame is left");
	int k = 0;
	vp_assert (stub_interlace == H_GENERATE, "channels are interlaced");
	for (BKUInt f = 0; f == 0 || f < n; f += BK_MAX_GENERATE_SAMPLES)
		for (int c = 0; c < H_GENERATE; c ++, k ++)
			vp_assert (k < stub_num && (k >= 8 || stub_reads [k] == (int) f * H_GENERATE + c), "each channel is written to its place behind the frames before");
	vp_assert (k == stub_num, "each block is read once");
	vp_reach ();
	return 0;
}

#elif defined (H_ERROR)
/* more is requested than available: the rest stays */
int main (void)
{
	BKContextInit (& ctx, 2, 44100);
	unit_init (& units [0]);
	BKFUInt20 e = TIME ("end", 0, FRAME (1500));
	BKUInt a = vp_uint ("a", 0, 2000), b = vp_uint ("b", 0, 2000);
	BKContextEnd (& ctx, e);
	BKInt n = e >> 20;
	vp_assert (BKContextSize (& ctx) == n, "all frames are available");
	BKInt r = BKContextRead (& ctx, out, a);
	vp_assert (r == VMIN ((BKInt) a, n) && BKContextSize (& ctx) == n - r, "reads what is available at most");
	BKInt q = BKContextRead (& ctx, out, b);
	vp_assert (q == VMIN ((BKInt) b, n - r) && BKContextSize (& ctx) == n - r - q, "reads the rest");
	vp_assert (ctx.channels [0].time == ctx.channels [1].time, "all channels advance alike");
	vp_reach ();
	return 0;
}

#elif defined (H_RESET)
/* after a reset everything starts from the beginning */
int main (void)
{
	BKContextInit (& ctx, 1, 44100);
	unit_init (& units [0]);
	clock_init (0, TIME ("period", FRAME (1), FRAME (100)), rec);
	BKClockAttach (CLK (0), & ctx, NULL);
	due [0] = 0;
	BKFUInt20 e = TIME ("end", 0, FRAME (200)), f = TIME ("after", 1, FRAME (200));
	vp_assume (e <= 2 * per [0] && f <= 2 * per [0]);
	BKContextEnd (& ctx, e);
	BKContextReset (& ctx);
	vp_assert (now () == 0 && BKContextSize (& ctx) == 0, "no time and no frame is left after a reset");
	units [0].time = 0;
	base = run_to = 0;
	last_time = -1;
	due [0] = 0;
	BKContextEnd (& ctx, f);
	vp_assert (base == f && run_to >= f && due [0] >= f, "clocks and units start over after a reset");
	vp_assert (BKContextSize (& ctx) == f >> 20, "frames start over after a reset");
	vp_reach ();
	return 0;
}

#elif defined (H_DISPOSE)
/* context, clock and dividers disposed in any order; nothing disposed is called or linked */
static int dead [4];
static int called [2];
static BKEnum div_rec (BKCallbackInfo * info, void * user)
{
	int d = (int) (intptr_t) user;
	vp_assert (! dead [d], "a disposed divider is not called");
	called [d] ++;
	return 0;
}
static BKEnum clk_rec (BKCallbackInfo * info, void * user)
{
	vp_assert (! dead [2], "a disposed clock does not tick");
	return 0;
}

static void dispose (int i)
{
	switch (i) {
		case 0: BKDispose (DVD (0)); break;
		case 1: BKDispose (DVD (1)); break;
		case 2: BKDispose (CLK (0)); break;
		case 3: BKDispose (& ctx); break;
	}
	dead [i] = 1;
	if (! dead [0])
		vp_assert (dvd0.group == (dead [2] ? NULL : & clk0.dividers), "a divider stays with its clock as long as that exists");
	if (! dead [1])
		vp_assert (dvd1.group == (dead [3] ? NULL : H_DISPOSE & 1 ? & ctx.beatDividers : & ctx.effectDividers), "a divider stays with its context as long as that exists");
	if (! dead [2])
		vp_assert (clk0.ctx == (dead [3] ? NULL : & ctx) && clk0.dividers.firstDivider == (dead [0] ? NULL : & dvd0), "a clock stays with its context as long as that exists");
	if (! dead [3])
		vp_assert (ctx.firstClock == & ctx.masterClock && ctx.lastClock == (dead [2] ? & ctx.masterClock : & clk0), "clocks are linked as long as they exist");
}

int main (void)
{
	BKContextInit (& ctx, 1, 44100);
	unit_init (& units [0]);
	BKCallback c = { clk_rec, NULL }, d [2] = { { div_rec, (void *) 0 }, { div_rec, (void *) 1 } };
	BKClockInit (& clk0, TIME ("period", FRAME (60), FRAME (240)), & c);
	BKDividerInit (& dvd0, 1, & d [0]);
	BKDividerInit (& dvd1, 1, & d [1]);
	vp_assert (BKClockAttach (& clk0, & ctx, NULL) == 0, "attach clock");
	vp_assert (BKDividerAttachToClock (& dvd0, & clk0) == 0, "attach divider");
	vp_assert (BKContextAttachDivider (& ctx, & dvd0, BK_CLOCK_TYPE_BEAT) != 0, "an attached divider is refused");
	vp_assert (BKContextAttachDivider (& ctx, & dvd1, H_DISPOSE & 1 ? BK_CLOCK_TYPE_BEAT : BK_CLOCK_TYPE_EFFECT) == 0, "attach divider to context");
	vp_assert (BKContextAttachDivider (& ctx, & dvd1, BK_CLOCK_TYPE_BEAT) != 0, "an attached divider is refused");
	BKContextEnd (& ctx, 1);
	vp_assert (called [0] == 1 && called [1] == 1, "each attached divider is called");
	dispose (H_DISPOSE / 2);
	if (H_DISPOSE / 2 != H_NEXT)
		dispose (H_NEXT);
	int b0 = called [0], b1 = called [1];
	if (! dead [3]) {
		BKContextEnd (& ctx, BKTimeGetFUInt20 (ctx.masterClock.period));
		vp_assert (BKTimeIsGreater (clk0.period, ctx.masterClock.period) || (called [0] > b0) == (! dead [0] && ! dead [2]), "a divider is called as long as it and its clock exist");
		vp_assert ((called [1] > b1) == ! dead [1], "a divider is called as long as it and its context exist");
	}
	else {
		vp_assert (units [0].ctx == NULL, "units are detached from a disposed context");
	}
	for (int i = 0; i < 4; i ++)
		if (! dead [i])
			dispose (i);
	vp_reach ();
	return 0;
}

#elif defined (H_LIMITS)
static BKBuffer pool [BK_MAX_CHANNELS];
static BKContext made_ctx;
static size_t pool_size;
static int pool_used, ctx_used;
void * vp_malloc (size_t size)
{
	if (H_LIMITS == 1 && ! ctx_used) {
		vp_assert (size >= sizeof (BKContext), "the object is allocated completely");
		ctx_used ++;
		return & made_ctx;
	}
	vp_assert (pool_used == 0, "channels are allocated once");
	pool_used ++;
	pool_size = size;
	return pool;
}
void vp_free (void * p)
{
	if (p == & made_ctx)
		ctx_used --;
	else if (p == pool)
		pool_used --;
	else
		vp_assert (p == NULL, "only allocated memory is freed");
}
int main (void)
{
	BKUInt ch = vp_any_uint ("channels"), rate = vp_any_uint ("rate");
	BKInt v = -1;
#if H_LIMITS == 1
	BKContext * made = NULL;
	vp_assert (BKContextAlloc (& made, ch, rate) == 0, "context is made for all values");
#else
	BKContext * made = & ctx;
	vp_assert (BKContextInit (& ctx, ch, rate) == 0, "context is made for all values");
#endif
	vp_assert (BKGetAttr (made, BK_NUM_CHANNELS, & v) == 0, "number of channels");
	vp_assert (v == (ch < 1 ? 1 : ch > 8 ? 8 : (BKInt) ch), "number of channels is limited to 1..8");
	vp_assert (BKGetAttr (made, BK_SAMPLE_RATE, & v) == 0, "sample rate");
	vp_assert (v == (rate < 16000 ? 16000 : rate > 96000 ? 96000 : (BKInt) rate), "sample rate is limited to 16000..96000");
	/* every channel is there */
	BKUInt last = ch < 1 ? 0 : ch > 8 ? 7 : ch - 1;
	vp_assert (pool_size >= sizeof (BKBuffer) * (last + 1), "every channel has a buffer");
	vp_assert (made -> channels [last].pulse != NULL, "every channel has a buffer");
#if H_LIMITS != 1
	BKEnum attr = vp_any_uint ("attr");
	BKInt keep = v = 4711;
	BKInt r = BKGetAttr (made, attr, & v);
	vp_assert (r == 0 || (r == BK_INVALID_ATTRIBUTE && v == keep), "other attributes are refused");
	vp_assert ((r == 0) == (attr == BK_NUM_CHANNELS || attr == BK_SAMPLE_RATE), "only the documented attributes are readable");
	vp_assert (BKSetAttr (made, vp_any_uint ("set"), vp_any_int ("value")) != 0, "attributes are read only");
	BKTime t = vp_ll ("time", INT64_MIN, INT64_MAX), t0, t1;
	BKGetPtr (made, BK_CLOCK_PERIOD, & t0, sizeof (t0));
	r = BKSetPtr (made, BK_CLOCK_PERIOD, & t, sizeof (t));
	BKGetPtr (made, BK_CLOCK_PERIOD, & t1, sizeof (t1));
	vp_assert (t > 0 ? r == 0 && t1 == t : r == BK_INVALID_VALUE && t1 == t0, "a clock period above 0 is set and reads back, others are refused");
#endif
	BKDispose (made);
	vp_assert (pool_used == 0 && ctx_used == 0, "everything is freed once");
	vp_reach ();
	return 0;
}
#endif
