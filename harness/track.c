/* BKTrack: volumes, notes, effects, arpeggio, reset. Context, data and tone tables are stand-ins here (decided by C.., D.. and T02) */
#include "vp.h"
#include "BlipKit.h"
#include "BKUnit_internal.h"
#include "BKContext_internal.h"
#include "BKInstrument_internal.h"
#include "BKTone.h"
#include <string.h>

#ifndef H_CH
#define H_CH 2
#endif
#ifndef H_WAVE
#define H_WAVE BK_SQUARE
#endif
#define MAXV BK_MAX_VOLUME
#define UNIT BK_FINT20_UNIT
#define ABS(a) ((a) < 0 ? - (a) : (a))
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define CLAMP(v, lo, hi) ((v) < (lo) ? (lo) : (v) > (hi) ? (hi) : (v))

/* ---- stand-ins */
static BKInt tone, tones, logs, toneResult = 64 << 20, logResult = 1 << 20;
static BKUInt toneRate;
BKFUInt20 BKTonePeriodLookup (BKFInt20 t, BKUInt rate) { tone = t; toneRate = rate; tones ++; return toneResult; }
BKFUInt20 BKLog2PeriodLookup (BKFInt20 t) { tone = t; logs ++; return logResult; }
static int attached, divFail;
BKInt BKDividerInit (BKDivider * divider, BKUInt count, BKCallback * callback)
{
	vp_assert (count == 1, "a track ticks with every effect tick");
	memset (divider, 0, sizeof (* divider));
	divider -> callback = * callback;
	return 0;
}
void BKDividerDetach (BKDivider * divider) { (void) divider; attached = 0; }
BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
{
	(void) ctx; (void) divider;
	if (divFail)
		return BK_INVALID_STATE;
	vp_assert (type == BK_CLOCK_TYPE_EFFECT, "tracks tick with the effect clock");
	attached ++;
	return 0;
}
BKInt BKContextSetAttrInt (BKContext * ctx, BKEnum attr, BKInt value) { (void) ctx; (void) attr; (void) value; return 0; }
BKInt BKDataStateSetData (BKDataState * state, BKData * data) { state -> data = data; return 0; }
#ifdef H_SMPSCRIPT
static BKBuffer chan [BK_MAX_CHANNELS];
void vp_heard (int c, BKUInt time, BKInt pulse);
#endif
void vp_pulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
{
#ifdef H_SMPSCRIPT
	vp_heard (buf != chan, time, pulse);
#else
	(void) buf; (void) time; (void) pulse;
#endif
}

static BKContext ctx;
static BKBuffer chan [BK_MAX_CHANNELS];
static BKTrack track;
static BKFrame frames [130];
static BKData data;
static BKInstrument instr;

static void tick (void)
{
	BKCallbackInfo info;
	memset (& info, 0, sizeof (info));
	track.divider.callback.func (& info, track.divider.callback.userInfo);
}
static void run (void) { track.unit.run (& track.unit, 0); }
static void setup (void)
{
	ctx.numChannels = H_CH;
	ctx.sampleRate = 44100;
	ctx.channels = chan;
	vp_assert (BKTrackInit (& track, H_WAVE) == 0, "track is initialised");
	vp_assert (BKTrackAttach (& track, & ctx) == 0 && attached == 1 && ctx.firstUnit == & track.unit, "track is attached");
	vp_assert (BKTrackAttach (& track, & ctx) == BK_INVALID_STATE && attached == 1, "a track is only attached once");
}
static BKInt get (BKEnum attr)
{
	BKInt v = 0;
	vp_assert (BKGetAttr (& track, attr, & v) == 0, "attribute reads back");
	return v;
}
static void set (BKEnum attr, BKInt value) { vp_assert (BKSetAttr (& track, attr, value) == 0, "attribute is set"); }

/* full scale in 16 levels */
#define LEVEL(name) (vp_int (name, 0, 15) * 2184 + 7 * vp_bool (name " lsb"))
#if defined (H_FULL)
#define FULL(name) vp_int (name, 0, MAXV)
#else
#define FULL(name) LEVEL (name)
#endif

#if defined (H_VOLUME)
/* volume, master volume, panning, instrument and tremolo; only those given are symbolic */
int main (void)
{
	setup ();
#if H_VOLUME & 1
	BKInt v = FULL ("volume");
	set (BK_VOLUME, v);
#else
	BKInt v = MAXV;
#endif
#if H_VOLUME & 2
	BKInt m = LEVEL ("master");
#elif defined (H_FULL)
	BKInt m = H_FULL;
#else
	BKInt m = MAXV;
#endif
	set (BK_MASTER_VOLUME, m);
#if H_VOLUME & 4
	BKInt p = LEVEL ("panning");
	if (vp_bool ("left"))
		p = - p;
	set (BK_PANNING, p);
#else
	BKInt p = 0;
#endif
	#ifndef H_TRI
#define H_TRI 1
#endif
	BKInt tri = H_TRI;
	set (BK_TRIANGLE_IGNORES_VOLUME, tri);
	vp_assert (get (BK_TRIANGLE_IGNORES_VOLUME) == tri, "reads back");
	int ignore = tri && H_WAVE == BK_TRIANGLE;
	BKInt iv = MAXV;
#if H_VOLUME & 8
	iv = LEVEL ("instrument volume");
	BKInt ip = LEVEL ("instrument panning");
	vp_assert (BKInstrumentInit (& instr) == 0, "instrument");
	BKInstrumentSetSequence (& instr, BK_SEQUENCE_VOLUME, & iv, 1, 0, 1);
	BKInstrumentSetSequence (& instr, BK_SEQUENCE_PANNING, & ip, 1, 0, 1);
	vp_assert (BKSetPtr (& track, BK_INSTRUMENT, & instr, sizeof (& instr)) == 0, "instrument is set");
	p = CLAMP (p + ip, - MAXV, MAXV);
#endif
	set (BK_NOTE, 12 * UNIT);
	tick ();
	BKInt e = ignore ? (v ? MAXV : 0) : v;
#if H_VOLUME & 8
	if (! ignore || iv == 0)
		e = (e * iv) >> BK_VOLUME_SHIFT;
#endif
	e = (e * m) >> BK_VOLUME_SHIFT;
	BKInt l = e, r = e;
	if (H_CH == 2 && p > 0)
		l = ((MAXV - p) * e) >> BK_VOLUME_SHIFT;
	if (H_CH == 2 && p < 0)
		r = ((MAXV + p) * e) >> BK_VOLUME_SHIFT;
	vp_assert (track.unit.volume [0] == l, "left is the product of all volumes");
	vp_assert (track.unit.volume [1] == r, "right is the product of all volumes");
	for (int c = 2; c < BK_MAX_CHANNELS; c ++)
		vp_assert (H_CH == 2 && p ? 1 : track.unit.volume [c] == e, "other channels have no panning");
	vp_assert (! track.unit.mute, "a playing note is heard");
	set (BK_NOTE, BK_NOTE_MUTE);
	run ();
	vp_assert (track.unit.mute, "a muted note is not");
	vp_reach ();
	return 0;
}
#elif defined (H_CLAMP)
/* any values are clamped and read back */
int main (void)
{
	setup ();
	BKInt v = H_CLAMP == 0 ? vp_any_int ("volume") : LEVEL ("volume"), m = H_CLAMP == 1 ? vp_any_int ("master") : LEVEL ("master"), p = H_CLAMP == 2 ? vp_any_int ("panning") : LEVEL ("panning");
	set (BK_VOLUME, v);
	set (BK_MASTER_VOLUME, m);
	set (BK_PANNING, p);
	v = CLAMP (v, 0, MAXV);
	m = CLAMP (m, 0, MAXV);
	p = CLAMP (p, - MAXV, MAXV);
	vp_assert (get (BK_VOLUME) == v && get (BK_MASTER_VOLUME) == m && get (BK_PANNING) == p, "volumes are clamped and read back");
	vp_reach ();
	return 0;
}
#elif defined (H_SLIDE)
/* volume and panning slides and tremolo change the volume within bounds: H_SLIDE steps */
int main (void)
{
	setup ();
	BKInt v0 = vp_int ("volume", 0, 15) * 0x888, v1 = vp_int ("volume", 0, 15) * 0x888, p1 = vp_int ("panning", -15, 15) * 0x888;
	set (BK_MASTER_VOLUME, MAXV);
	set (BK_VOLUME, v0);
	set (BK_NOTE, 0);
	tick ();
	BKInt steps [3] = { H_SLIDE };
	vp_assert (BKSetPtr (& track, BK_EFFECT_VOLUME_SLIDE, steps, sizeof (steps [0])) == 0, "slide is set");
	set (BK_EFFECT_PANNING_SLIDE, H_SLIDE);
	set (BK_VOLUME, v1);
	set (BK_PANNING, p1);
	BKInt last = track.unit.volume [0];
	for (int t = 0; t <= H_SLIDE; t ++) {
		tick ();
		BKInt l = track.unit.volume [0], r = track.unit.volume [1], loud = l > r ? l : r;
		BKInt lo = MIN (v0, v1), hi = v0 + v1 - lo;
		vp_assert (loud >= lo - 2 && loud <= hi, "between both volumes");
		vp_assert (v1 >= v0 ? loud >= last - 1 : loud <= last + 1, "towards the new volume");
		vp_assert (p1 >= 0 ? l <= r : l >= r, "towards the new panning");
		if (t == 0)
			vp_assert (loud <= v0 && loud >= v0 - 2, "starts with the old volume");
		last = loud;
	}
	vp_assert (last <= v1 && last >= v1 - 2, "reaches the new volume");
	BKInt quiet = track.unit.volume [0] + track.unit.volume [1] - last;
	vp_assert (ABS ((long long) quiet * MAXV - (long long) last * (MAXV - ABS (p1))) <= 3 * MAXV, "reaches the new panning");
	vp_reach ();
	return 0;
}

#elif defined (H_TREMOLO)
/* tremolo lowers the volume by at most its delta */
int main (void)
{
	setup ();
	BKInt v = LEVEL ("volume"), d = LEVEL ("delta");
	set (BK_MASTER_VOLUME, MAXV);
	set (BK_VOLUME, v);
	set (BK_NOTE, 0);
	BKInt values [2] = { H_TREMOLO, d };
	vp_assert (BKSetPtr (& track, BK_EFFECT_TREMOLO, values, sizeof (values)) == 0, "tremolo is set");
	for (int t = 0; t <= 4 * H_TREMOLO; t ++) {
		tick ();
		BKInt l = track.unit.volume [0];
		vp_assert (l == track.unit.volume [1] && l <= v && (long long) l * MAXV >= (long long) v * (MAXV - d) - 3 * MAXV, "not more than the delta");
		if (t % (2 * H_TREMOLO) == 0)
			vp_assert (l >= v - 3, "begins and ends each interval with the full volume");
		if (t % (2 * H_TREMOLO) == H_TREMOLO)
			vp_assert ((long long) l * MAXV <= (long long) v * (MAXV - d) + (H_TREMOLO + 2) * MAXV, "reaches the delta");
	}
	vp_assert (BKSetPtr (& track, BK_EFFECT_TREMOLO, NULL, 0) == 0, "tremolo is removed");
	tick ();
	vp_assert (track.unit.volume [0] >= v - 2, "full volume without tremolo");
	vp_reach ();
	return 0;
}
#elif defined (H_NOTE)
/* any note and pitch; with arpeggio and instrument pitch (1), as sample (2), custom waveform of 100 frames (3) */
static BKInt clampNote (BKInt n) { return CLAMP (n, BK_MIN_NOTE * UNIT, BK_MAX_NOTE * UNIT); }
static BKInt clampPitch (BKInt n) { return CLAMP (n, BK_MIN_SAMPLE_TONE * UNIT, BK_MAX_SAMPLE_TONE * UNIT); }
int main (void)
{
	setup ();
	BKInt add = 0, phases = track.unit.phase.count;
	toneResult = vp_int ("period", 0, INT32_MAX);
	logResult = vp_int ("sample period", BK_MIN_SAMPLE_PERIOD, BK_MAX_SAMPLE_PERIOD);
	set (BK_MASTER_VOLUME, MAXV);
#if H_NOTE == 1
	BKInt arp [2] = { 1, vp_int ("arpeggio", -96 * UNIT, 96 * UNIT) };
	vp_assert (BKSetPtr (& track, BK_ARPEGGIO, arp, sizeof (arp)) == 0, "arpeggio is set");
	BKInt ip = vp_int ("instrument pitch", -96 * UNIT, 96 * UNIT);
	vp_assert (BKInstrumentInit (& instr) == 0, "instrument");
	BKInstrumentSetSequence (& instr, BK_SEQUENCE_PITCH, & ip, 1, 0, 1);
	vp_assert (BKSetPtr (& track, BK_INSTRUMENT, & instr, sizeof (& instr)) == 0, "instrument is set");
	add = arp [1] + ip;
#endif
#if H_NOTE == 2
	data.numFrames = 4;
	data.numChannels = 1;
	data.frames = frames;
	data.samplePitch = vp_int ("data pitch", -48 * UNIT, 48 * UNIT);
	vp_assert (BKSetPtr (& track, BK_SAMPLE, & data, sizeof (& data)) == 0 && get (BK_WAVEFORM) == BK_SAMPLE, "sample is set");
	vp_assert (get (BK_SAMPLE_PITCH) == data.samplePitch, "pitch of the sample");
	BKInt sp = vp_any_int ("sample pitch");
	set (BK_SAMPLE_PITCH, sp);
	sp = clampPitch (sp);
	vp_assert (get (BK_SAMPLE_PITCH) == sp, "pitch of the sample is clamped");
	add = sp;
#endif
#if H_NOTE == 3
	data.numFrames = 100;
	data.numChannels = 1;
	data.frames = frames;
	vp_assert (BKSetPtr (& track, BK_WAVEFORM, & data, sizeof (& data)) == 0 && get (BK_WAVEFORM) == BK_CUSTOM, "waveform is set");
	phases = BK_WAVE_MAX_LENGTH;
#endif
	BKInt p = vp_any_int ("pitch");
	set (BK_PITCH, p);
	p = clampPitch (p);
	vp_assert (get (BK_PITCH) == p, "pitch is clamped and reads back");
	vp_assert (track.unit.mute && get (BK_NOTE) == -1, "silent without a note");
	BKInt n = vp_int ("note", 0, INT32_MAX);
	set (BK_NOTE, n);
	n = clampNote (n);
	vp_assert (get (BK_NOTE) == n, "notes are clamped and read back");
	tick ();
	vp_assert (! track.unit.mute, "a note plays");
	vp_assert (tone == n + p + add, "note and all pitches are added");
#if H_NOTE == 2
	vp_assert (logs > 0 && track.unit.sample.period == logResult, "the sample has the period of the note");
#else
	vp_assert (toneRate == 44100 && (BKInt) track.unit.period == toneResult / phases, "the waveform has the period of the note");
#endif
	/* changes while playing */
	BKInt p2 = vp_int ("new pitch", -12 * UNIT, 12 * UNIT), n2 = vp_int ("new note", 0, 96 * UNIT);
	set (BK_PITCH, p2);
	tick ();
	vp_assert (tone == n + p2 + add, "a new pitch is heard");
#if H_NOTE == 0
	static BKEnum const waves [] = { BK_NOISE, BK_SAWTOOTH, BK_SINE, BK_SQUARE, BK_TRIANGLE };
	static BKInt const numPhases [] = { BK_NOISE_PHASES, BK_SAWTOOTH_PHASES, BK_SINE_PHASES, BK_SQUARE_PHASES, BK_TRIANGLE_PHASES };
	for (int w = 0; w < 5; w ++) {
		set (BK_WAVEFORM, waves [w]);
		run ();
		vp_assert (get (BK_WAVEFORM) == waves [w] && get (BK_NUM_PHASES) == numPhases [w], "waveform is set");
		vp_assert ((BKInt) track.unit.period == toneResult / numPhases [w], "the note is kept with an other waveform");
	}
#endif
	set (BK_NOTE, n2);
	tick ();
	vp_assert (tone == clampNote (n2) + p2 + add && get (BK_NOTE) == clampNote (n2), "a new note is heard");
	vp_assert (BKSetAttr (& track, BK_NOTE, vp_int ("no note", INT32_MIN, -3)) == 0 && get (BK_NOTE) == clampNote (n2) && ! track.unit.mute, "other values are no notes");
	set (BK_NOTE, BK_NOTE_MUTE);
	tick ();
	vp_assert (track.unit.mute && get (BK_NOTE) == -1, "a muted note is silent");
	vp_reach ();
	return 0;
}
#elif defined (H_PORTAMENTO)
/* slides from note to note in H_PORTAMENTO ticks; vibrato stays within its delta */
int main (void)
{
	setup ();
	BKInt n0 = vp_int ("note", 0, 96 * 4) * (UNIT / 4), n1 = vp_int ("note", 0, 96 * 4) * (UNIT / 4), n2 = vp_int ("note", 0, 96 * 4) * (UNIT / 4), last;
	set (BK_EFFECT_PORTAMENTO, H_PORTAMENTO);
	vp_assert (get (BK_EFFECT_PORTAMENTO) == H_PORTAMENTO, "reads back");
	set (BK_NOTE, n0);
	tick ();
	vp_assert (tone == n0, "the first note does not slide");
	set (BK_NOTE, n1);
	last = n0;
	for (int t = 0; t <= H_PORTAMENTO + 1; t ++) {
		tick ();
		vp_assert (n1 >= n0 ? tone >= last && tone <= n1 : tone <= last && tone >= n1, "slides towards the new note");
		if (t == 0)
			vp_assert (tone == n0, "starts from the old note");
		last = tone;
		if (t >= H_PORTAMENTO)
			vp_assert (tone == n1, "reaches the new note");
	}
	set (BK_NOTE, BK_NOTE_RELEASE);
	tick ();
	vp_assert (track.unit.mute && get (BK_NOTE) == -1, "a released note is silent without an instrument");
	set (BK_NOTE, n2);
	tick ();
	vp_assert (tone == n2 && ! track.unit.mute, "the next first note does not slide");
	vp_reach ();
	return 0;
}
#elif defined (H_VIBRATO)
int main (void)
{
	setup ();
	BKInt n = vp_int ("note", 0, 96) * UNIT, d = vp_int ("delta", 0, 31) * (UNIT / 2);
	BKInt values [2] = { H_VIBRATO, d };
#if defined (H_MORE)
	/* also with constant arpeggio, pitch of an instrument and of the track */
	BKInt arp [2] = { 1, vp_int ("arpeggio", -24, 24) * UNIT }, ip = vp_int ("instrument pitch", -24, 24) * UNIT, p = vp_int ("pitch", -24, 24) * UNIT, to = vp_int ("to", 0, 96) * UNIT;
	vp_assert (BKInstrumentInit (& instr) == 0 && BKInstrumentSetSequence (& instr, BK_SEQUENCE_PITCH, & ip, 1, 0, 1) == 0, "instrument");
	vp_assert (BKSetPtr (& track, BK_INSTRUMENT, & instr, sizeof (& instr)) == 0 && BKSetPtr (& track, BK_ARPEGGIO, arp, sizeof (arp)) == 0, "instrument and arpeggio are set");
	set (BK_PITCH, p);
	set (BK_NOTE, n);
	set (BK_EFFECT_PORTAMENTO, 1);
	set (BK_NOTE, to);
	tick ();
	vp_assert (tone == n + arp [1] + ip + p, "sum of note, arpeggio and pitches");
	n = to + arp [1] + ip + p;
#else
	set (BK_NOTE, n);
#endif
	vp_assert (BKSetPtr (& track, BK_EFFECT_VIBRATO, values, sizeof (values)) == 0, "vibrato is set");
	int above = 0;
	for (int t = 0; t <= 4 * H_VIBRATO; t ++) {
		tick ();
		vp_assert (tone >= n - d && tone <= n + d, "vibrato stays within its delta");
		if (t % (2 * H_VIBRATO) == 0)
			vp_assert (tone == n, "begins and ends with the note");
		else if (t % (2 * H_VIBRATO) == H_VIBRATO)
			vp_assert (t < 2 * H_VIBRATO ? tone >= n + d - H_VIBRATO : tone <= n - d + H_VIBRATO, "reaches its delta");
		(void) above;
	}
	vp_assert (BKSetPtr (& track, BK_EFFECT_VIBRATO, NULL, 0) == 0, "vibrato is removed");
	tick ();
	tick ();
	vp_assert (tone == n, "the note without vibrato");
	vp_reach ();
	return 0;
}
#elif defined (H_LIFE)
/* a note with an instrument of H_HOLD values held and H_TAIL values released */
int main (void)
{
	BKInt v [4];
	setup ();
	set (BK_MASTER_VOLUME, MAXV);
	set (BK_INSTRUMENT_DIVIDER, H_LIFE);
	vp_assert (get (BK_INSTRUMENT_DIVIDER) == H_LIFE, "reads back");
	for (int i = 0; i < H_HOLD + H_TAIL; i ++)
		v [i] = LEVEL ("volume");
	vp_assert (BKInstrumentInit (& instr) == 0, "instrument");
	BKInstrumentSetSequence (& instr, BK_SEQUENCE_VOLUME, v, H_HOLD + H_TAIL, 0, H_HOLD);
	vp_assert (BKSetPtr (& track, BK_INSTRUMENT, & instr, sizeof (& instr)) == 0, "instrument is set");
	BKInstrument * got = NULL;
	vp_assert (BKGetPtr (& track, BK_INSTRUMENT, & got, sizeof (got)) == 0 && got == & instr, "instrument reads back");
	tick ();
	vp_assert (track.unit.mute, "silent without a note");
	for (int round = 0; round < 2; round ++) {
		set (BK_NOTE, 12 * UNIT);
		for (int t = 0; t < H_T; t ++) {
			tick ();
			vp_assert (! track.unit.mute, "held as long as not released");
			vp_assert (track.unit.volume [0] >= ((v [t / H_LIFE % H_HOLD] * MAXV) >> 15) - 1 && track.unit.volume [0] <= v [t / H_LIFE % H_HOLD], "values in order, each for the ticks of the divider");
		}
		set (BK_NOTE, BK_NOTE_RELEASE);
		vp_assert (get (BK_NOTE) == -1, "no note");
		BKInt n = 0;
		for (; n < H_LIFE * (H_TAIL + 1) + 1 && ! track.unit.mute; n ++) {
			tick ();
			if (! track.unit.mute && n >= H_LIFE)
				vp_assert (track.unit.volume [0] <= v [H_HOLD] || track.unit.volume [0] <= v [H_HOLD + H_TAIL - 1], "only values of the release");
		}
		vp_assert (track.unit.mute && n <= H_LIFE * (H_TAIL + 1) && n > (H_TAIL - 1) * H_LIFE, "silent when the release is over");
		tick ();
		vp_assert (track.unit.mute, "stays silent");
	}
	/* disposing the instrument leaves the track usable */
	set (BK_NOTE, 12 * UNIT);
	BKDispose (& instr);
	got = & instr;
	vp_assert (BKGetPtr (& track, BK_INSTRUMENT, & got, sizeof (got)) == 0 && got == NULL, "a disposed instrument is removed");
	tick ();
	vp_assert (! track.unit.mute && track.unit.volume [0] >= MAXV - 2, "the note goes on without instrument");
	set (BK_NOTE, BK_NOTE_RELEASE);
	vp_assert (track.unit.mute, "and is released without instrument");
	vp_reach ();
	return 0;
}
#elif defined (H_ATTACH)
/* a note set before attaching, other contexts */
static BKContext other;
int main (void)
{
	vp_assert (BKTrackInit (& track, H_WAVE) == 0, "track is initialised");
	BKInt n = vp_int ("note", 0, 96 * UNIT), p = LEVEL ("panning");
	toneResult = vp_int ("period", 1 << 10, INT32_MAX);
	set (BK_NOTE, n);
	set (BK_MASTER_VOLUME, MAXV);
	set (BK_PANNING, p);
	ctx.numChannels = 2;
	ctx.sampleRate = 44100;
	ctx.channels = chan;
	other.numChannels = H_CH;
	other.sampleRate = 96000;
	other.channels = chan;
	divFail = 1;
	vp_assert (BKTrackAttach (& track, & ctx) < 0 && track.unit.ctx == NULL && ctx.firstUnit == NULL, "not attached if its divider is not");
	divFail = 0;
	vp_assert (BKTrackAttach (& track, & ctx) == 0, "track is attached");
	tick ();
	vp_assert (tone == n && toneRate == 44100 && (BKInt) track.unit.period == toneResult / (BKInt) track.unit.phase.count, "period of the note");
	vp_assert (p == 0 || track.unit.volume [0] < track.unit.volume [1], "panning");
#if H_ATTACH
	/* the way a disposed context detaches its units */
	BKUnitDetach (& track.unit);
	BKDividerDetach (& track.divider);
#else
	BKTrackDetach (& track);
	vp_assert (attached == 0, "divider is detached");
#endif
	vp_assert (track.unit.ctx == NULL && ctx.firstUnit == NULL, "unit is detached");
	toneResult = vp_int ("period", 1 << 10, INT32_MAX);
	vp_assert (BKTrackAttach (& track, & other) == 0, "attached to an other context");
	tick ();
	vp_assert (tone == n && toneRate == 96000 && (BKInt) track.unit.period == toneResult / (BKInt) track.unit.phase.count, "period for the sample rate of the other context");
	if (H_CH != 2)
		vp_assert (track.unit.volume [0] == track.unit.volume [1] && track.unit.volume [0] >= MAXV - 2, "no panning if not stereo");
	else
		vp_assert (p == 0 || track.unit.volume [0] < track.unit.volume [1], "panning");
	BKDispose (& track);
	vp_assert (attached == 0 && other.firstUnit == NULL, "a disposed track is detached");
	vp_reach ();
	return 0;
}

#elif defined (H_EFFECT)
/* each effect reads back what is in effect and leaves the others as they are */
static BKInt was [5] [3];
static void check (void)
{
	for (int e = 0; e < 5; e ++) {
		BKInt got [4] = { -1, -1, -1, 12345 };
		vp_assert (BKGetPtr (& track, BK_EFFECT_VOLUME_SLIDE + e, got, 3 * sizeof (BKInt)) == 0, "effects can be read");
		for (int i = 0; i < 3; i ++)
			vp_assert (got [i] == was [e] [i], "effects read back");
		vp_assert (got [3] == 12345, "only what is asked for");
	}
}
static void setEffect (int e, int n)
{
	BKInt v [3];
	for (int i = 0; i < 3; i ++)
		v [i] = vp_any_int ("value");
	if (e == 4)
		vp_assume (v [1] >= - 96 * UNIT && v [1] <= 96 * UNIT);
	if (e >= 3)
		v [2] = n < 3 ? v [2] : H_EFFECT;
	vp_assert (BKSetPtr (& track, BK_EFFECT_VOLUME_SLIDE + e, v, n * sizeof (BKInt)) == 0, "effect is set");
	for (int i = 0; i < 3; i ++)
		was [e] [i] = i < n && (e >= 3 || i == 0) ? v [i] : 0;
	was [e] [0] = CLAMP (was [e] [0], 0, 1 << 16);
	was [e] [2] = CLAMP (was [e] [2], 0, 1 << 16);
	if (e == 3)
		was [e] [1] = CLAMP (was [e] [1], 0, MAXV);
}
int main (void)
{
	setup ();
	check ();
#if H_ORDER
	for (int e = 0; e < 5; e ++) { setEffect (e, 2 + (H_EFFECT > 0)); check (); }
#else
	for (int e = 4; e >= 0; e --) { setEffect (e, 1 + (e > 2) + (H_EFFECT > 0)); check (); }
#endif
	vp_assert (BKSetPtr (& track, BK_EFFECT_TYPE, & was, sizeof (BKInt)) < 0 && BKSetPtr (& track, BK_EFFECT_VIBRATO + 1, & was, sizeof (BKInt)) < 0, "unknown effects are refused");
	BKInt any;
	vp_assert (BKGetPtr (& track, BK_EFFECT_VIBRATO + 1, & any, sizeof (BKInt)) < 0, "unknown effects are refused");
	check ();
	/* single values */
	BKInt s = vp_any_int ("steps");
	set (BK_EFFECT_VOLUME_SLIDE + H_SINGLE, s);
	was [H_SINGLE] [0] = CLAMP (s, 0, 1 << 16);
	vp_assert (get (BK_EFFECT_VOLUME_SLIDE + H_SINGLE) == was [H_SINGLE] [0], "reads back");
	check ();
	/* removing */
	for (int e = 0; e < 5; e ++) {
		vp_assert (BKSetPtr (& track, BK_EFFECT_VOLUME_SLIDE + e, NULL, e) == 0, "effect is removed");
		was [e] [0] = was [e] [1] = was [e] [2] = 0;
		check ();
	}
	vp_reach ();
	return 0;
}
#elif defined (H_OLDPTR)
/* functions without size use the documented number of values */
int main (void)
{
	setup ();
	BKInt v [2] = { vp_int ("steps", 0, 1 << 16), vp_int ("delta", 0, MAXV) }, w [2] = { 0 };
	vp_assert (BKTrackSetPtr (& track, BK_EFFECT_TREMOLO, v) == 0 && BKTrackGetPtr (& track, BK_EFFECT_TREMOLO, w) == 0, "set and read");
	vp_assert (w [0] == v [0] && w [1] == v [1], "reads back");
	BKInt a [4] = { 3, vp_any_int ("note"), vp_any_int ("note"), vp_any_int ("note") }, b [BK_MAX_ARPEGGIO + 1] = { 0 };
	vp_assert (BKTrackSetPtr (& track, BK_ARPEGGIO, a) == 0 && BKTrackGetPtr (& track, BK_ARPEGGIO, b) == 0, "set and read");
	for (int i = 0; i < 4; i ++)
		vp_assert (b [i] == a [i], "reads back");
	vp_reach ();
	return 0;
}
#elif defined (H_ARP)
/* H_ARP notes each H_DIV ticks; replaced by H_ARP2 notes after H_AT ticks */
static BKInt n, list [12], list2 [12];
int main (void)
{
	setup ();
	n = vp_int ("note", 0, 96) * UNIT;
	for (int i = 0; i < 12; i ++) {
		list [i] = vp_int ("offset", -96 * UNIT, 96 * UNIT);
		list2 [i] = vp_int ("offset", -96 * UNIT, 96 * UNIT);
	}
	list [0] = H_ARP;
	list2 [0] = H_ARP2;
	int count = MIN (H_ARP, BK_MAX_ARPEGGIO), count2 = MIN (H_ARP2, BK_MAX_ARPEGGIO);
	set (BK_ARPEGGIO_DIVIDER, H_DIV);
	vp_assert (get (BK_ARPEGGIO_DIVIDER) == (H_DIV < 1 ? 1 : H_DIV), "reads back");
	vp_assert (BKSetPtr (& track, BK_ARPEGGIO, list, sizeof (list)) == 0, "arpeggio is set");
	BKInt got [BK_MAX_ARPEGGIO + 1];
	vp_assert (BKGetPtr (& track, BK_ARPEGGIO, got, sizeof (got)) == 0 && got [0] == count, "number of notes reads back");
	for (int i = 1; i <= count; i ++)
		vp_assert (got [i] == list [i], "notes read back");
	set (BK_NOTE, n);
	int pos = 0, left = 0, div = H_DIV < 1 ? 1 : H_DIV;
	BKInt add = 0, * cur = list, num = count;
	for (int t = 0; t < H_T; t ++) {
		if (t == H_AT) {
			vp_assert (BKSetPtr (& track, BK_ARPEGGIO, H_ARP2 == 0 && H_DIV == 2 ? NULL : list2, sizeof (list2)) == 0, "arpeggio is replaced");
			cur = list2;
			num = count2;
			if (pos >= num)
				pos = 0;
		}
		tick ();
		if (num <= 0) {
			vp_assert (tone == n, "no offset without arpeggio");
			continue;
		}
		if (left == 0) {
			add = cur [1 + pos ++];
			left = div;
			if (pos >= num)
				pos = 0;
		}
		left --;
		vp_assert (tone == n + add, "notes in order, each for the ticks of the divider");
	}
	/* a new note after a release starts with the first offset */
	set (BK_NOTE, BK_NOTE_RELEASE);
	set (BK_NOTE, n);
	while (left) {
		tick ();
		left --;
	}
	tick ();
	vp_assert (num <= 0 || tone == n + cur [1], "a new note starts over");
	vp_reach ();
	return 0;
}
#elif defined (H_ARPANY)
/* any number of notes and any size given */
int main (void)
{
	BKInt list [12], got [BK_MAX_ARPEGGIO + 1] = { 0 };
	setup ();
	for (int i = 0; i < 12; i ++)
		list [i] = vp_int ("offset", -96 * UNIT, 96 * UNIT);
	list [0] = vp_any_int ("count");
	BKUInt size = vp_uint ("size", 0, sizeof (list));
	BKInt room = size / sizeof (BKInt) - 1, count = CLAMP (list [0], 0, BK_MAX_ARPEGGIO);
	if (count > room)
		count = room < 0 ? 0 : room;
	vp_assert (BKSetPtr (& track, BK_ARPEGGIO, list, size) == 0, "arpeggio is set");
	vp_assert (BKGetPtr (& track, BK_ARPEGGIO, got, sizeof (got)) == 0 && got [0] == count, "cut to the limit and to what is given");
	for (int i = 1; i <= BK_MAX_ARPEGGIO; i ++)
		if (i <= count)
			vp_assert (got [i] == list [i], "notes read back");
	BKInt d = vp_any_int ("divider");
	for (int k = 0; k < 3; k ++) {
		BKEnum attr = k == 0 ? BK_ARPEGGIO_DIVIDER : k == 1 ? BK_EFFECT_DIVIDER : BK_INSTRUMENT_DIVIDER;
		set (attr, d);
		vp_assert (get (attr) == (d < 1 ? 1 : d), "dividers are at least 1");
	}
	vp_reach ();
	return 0;
}
#elif defined (H_SCRIPT)
/* histories of notes and instruments against what is documented for them; all values are symbolic
 * 0 note, 1 release, 2 mute, 3/4 instrument A/B, 5 no instrument, 6/7 dispose A/B, 8 own duty cycle, 9 own volume, 10 pitch, 11 detach and attach,
 * 20+n instrument divider, 100+n ticks */
typedef struct { int len, so, sl; } Form;
static Form const forms [2] [BK_MAX_SEQUENCES] = {
	{ [BK_SEQUENCE_VOLUME] = { H_VOL }, [BK_SEQUENCE_PANNING] = { H_PAN }, [BK_SEQUENCE_PITCH] = { H_PIT }, [BK_SEQUENCE_DUTY_CYCLE] = { H_DUT } },
	{ [BK_SEQUENCE_VOLUME] = { H_VOL2 }, [BK_SEQUENCE_PANNING] = { H_PAN2 }, [BK_SEQUENCE_PITCH] = { H_PIT2 }, [BK_SEQUENCE_DUTY_CYCLE] = { H_DUT2 } },
};
static BKInt const normal [BK_MAX_SEQUENCES] = { [BK_SEQUENCE_VOLUME] = MAXV };
static BKInt vals [2] [BK_MAX_SEQUENCES] [4];
static BKInstrument instrs [2];
static int const ops [] = { H_OPS };
static int inst = -1, held, loud, released, left, every = 1, count, atRelease;
static BKInt duty, vol = MAXV, pitch, note;
static BKInt shown (int slot)
{
	if (inst < 0 || forms [inst] [slot].len == 0)
		return normal [slot];
	Form f = forms [inst] [slot];
	int n = released ? atRelease : count, i = n ? n - 1 : 0, end = f.so + f.sl;
	if (released && end < f.len) {
		i = end + (count ? count - 1 : 0);
		return vals [inst] [slot] [MIN (i, f.len - 1)];
	}
	if (i >= end && f.so < f.len)
		i = f.sl ? f.so + (i - f.so) % f.sl : f.so;
	return vals [inst] [slot] [MIN (i, f.len - 1)];
}
/* number of sequences which are not played to their end */
static int active (void)
{
	int n = 0;
	for (int s = 0; s < BK_MAX_SEQUENCES; s ++) {
		Form f = forms [inst] [s];
		if (f.len == 0)
			continue;
		if (released)
			n += f.so + f.sl < f.len && count - 1 < f.len - f.so - f.sl;
		else
			n += f.so < f.len || count - 1 < f.len;
	}
	return n;
}
static int any (void) { int n = 0; for (int s = 0; s < BK_MAX_SEQUENCES; s ++) n += forms [inst] [s].len > 0; return n; }
static void start (void) { released = count = left = 0; }
static void none (void) { inst = -1; if (! held) loud = 0; }
static void look (int ticked)
{
	vp_assert (get (BK_NOTE) == (held ? note : -1), "the note reads back until it ends");
	vp_assert (! track.unit.mute == loud, "heard from its start until it is released and all sequences are over");
	if (! ticked || ! loud)
		return;
	BKInt v = (vol * shown (BK_SEQUENCE_VOLUME)) >> BK_VOLUME_SHIFT;
	if (inst < 0)
		v = vol;
	v = (v * MAXV) >> BK_VOLUME_SHIFT;
	BKInt p = shown (BK_SEQUENCE_PANNING), l = v, r = v;
	if (p > 0)
		l = ((MAXV - p) * v) >> BK_VOLUME_SHIFT;
	if (p < 0)
		r = ((MAXV + p) * v) >> BK_VOLUME_SHIFT;
	vp_assert (track.unit.volume [0] == l && track.unit.volume [1] == r, "volume and panning of the instrument");
	vp_assert (tone == note + pitch + shown (BK_SEQUENCE_PITCH), "pitch of the instrument");
	BKInt d = shown (BK_SEQUENCE_DUTY_CYCLE);
	vp_assert (get (BK_DUTY_CYCLE) == (d ? d : duty), "duty cycle of the instrument or else of the track");
}
int main (void)
{
	setup ();
	set (BK_MASTER_VOLUME, MAXV);
	duty = get (BK_DUTY_CYCLE);
	every = get (BK_INSTRUMENT_DIVIDER);
	for (int i = 0; i < 2; i ++) {
		vp_assert (BKInstrumentInit (& instrs [i]) == 0, "instrument");
		for (int s = 0; s < BK_MAX_SEQUENCES; s ++) {
			Form f = forms [i] [s];
			for (int k = 0; k < f.len; k ++)
				vals [i] [s] [k] = s == BK_SEQUENCE_VOLUME ? LEVEL ("volumes") : s == BK_SEQUENCE_PANNING ? vp_int ("pannings", -15, 15) * 2184 : s == BK_SEQUENCE_PITCH ? vp_int ("pitches", -96 * UNIT, 96 * UNIT) : vp_int ("duties", 0, 15);
			if (f.len)
				vp_assert (BKInstrumentSetSequence (& instrs [i], s, vals [i] [s], f.len, f.so, f.sl) == 0, "sequence is set");
		}
	}
	for (unsigned o = 0; o < sizeof (ops) / sizeof (ops [0]); o ++) {
		int op = ops [o];
		if (op >= 100) {
			for (int t = 0; t < op - 100; t ++) {
				tick ();
				if (inst >= 0) {
					if (left == 0) {
						left = every;
						count ++;
						if (loud && any () && ! active ()) { loud = held = 0; }
					}
					left --;
				}
				look (1);
			}
			continue;
		}
		if (op >= 20) {
			set (BK_INSTRUMENT_DIVIDER, op - 20);
			every = op - 20;
			left = 0;
		}
		else switch (op) {
			case 0:
#if defined (H_NOTES)
				note = (12 + 7 * (BKInt) o) * UNIT;
#else
				note = vp_int ("note", 0, 96 * UNIT);
#endif
				set (BK_NOTE, note);
				if (! held)
					start ();
				held = loud = 1;
				break;
			case 1:
				set (BK_NOTE, BK_NOTE_RELEASE);
				if (inst < 0)
					loud = 0;
				else if (held) {
					atRelease = count;
					released = 1;
					count = 0;
					if (! active ())
						loud = 0;
				}
				held = 0;
				break;
			case 2:
				set (BK_NOTE, BK_NOTE_MUTE);
				held = loud = 0;
				break;
			case 3: case 4: case 5: {
				BKInstrument * in = op == 5 ? NULL : & instrs [op - 3], * got = & instrs [op == 3];
				vp_assert (BKSetPtr (& track, BK_INSTRUMENT, in, sizeof (in)) == 0 && BKGetPtr (& track, BK_INSTRUMENT, & got, sizeof (got)) == 0 && got == in, "instrument is set");
				if (op == 5) {
					if (inst >= 0)
						none ();
				}
				else if (inst != op - 3) {
					inst = op - 3;
					start ();
					if (! held)
						loud = 0;
				}
				break;
			}
			case 6: case 7: {
				BKInstrument * got = & instrs [0];
				BKDispose (& instrs [op - 6]);
				if (inst == op - 6)
					none ();
				vp_assert (BKGetPtr (& track, BK_INSTRUMENT, & got, sizeof (got)) == 0 && got == (inst < 0 ? NULL : & instrs [inst]), "only a used instrument is removed");
				break;
			}
			case 8:
				duty = vp_int ("duty", 1, 15);
				set (BK_DUTY_CYCLE, duty);
				break;
			case 9:
				vol = LEVEL ("volume");
				set (BK_VOLUME, vol);
				break;
			case 10:
				pitch = vp_int ("pitch", -48 * UNIT, 48 * UNIT);
				set (BK_PITCH, pitch);
				break;
			case 11:
				BKTrackDetach (& track);
				vp_assert (BKTrackAttach (& track, & ctx) == 0, "attached again");
				break;
		}
		look (0);
	}
	vp_reach ();
	return 0;
}
#elif defined (H_FXSLIDE)
/* vibrato (0) or tremolo (1) of H_STEPS steps whose delta grows within H_SLIDESTEPS steps; replaced by one with an other delta */
int main (void)
{
	setup ();
	BKInt d = vp_int ("delta", 0, 15) * 2184, d2 = vp_int ("new delta", 0, 15) * 2184;
	BKInt values [3] = { H_STEPS, d, H_SLIDESTEPS };
	set (BK_MASTER_VOLUME, MAXV);
	set (BK_NOTE, 48 * UNIT);
	vp_assert (BKSetPtr (& track, H_FXSLIDE ? BK_EFFECT_TREMOLO : BK_EFFECT_VIBRATO, values, sizeof (values)) == 0, "effect is set");
#if H_OTHER
	/* the others do not disturb it */
	BKInt others [3] = { 3, 12345, 0 };
	vp_assert (BKSetPtr (& track, H_FXSLIDE ? BK_EFFECT_VIBRATO : BK_EFFECT_TREMOLO, others, sizeof (others)) == 0, "other effect is set");
	set (BK_EFFECT_PANNING_SLIDE, 4);
	set (H_FXSLIDE ? BK_EFFECT_PORTAMENTO : BK_EFFECT_VOLUME_SLIDE, 5);
	set (H_FXSLIDE ? BK_NOTE : BK_VOLUME, 12 * UNIT);
#endif
	for (int round = 0; round < 2; round ++) {
		BKInt limit = d > d2 ? d : d2, most = 0, least = MAXV, first [4 * H_STEPS];
		if (round)
			vp_assert (BKSetPtr (& track, H_FXSLIDE ? BK_EFFECT_TREMOLO : BK_EFFECT_VIBRATO, values, sizeof (values)) == 0, "effect is replaced");
		for (int t = 0; t < H_SLIDESTEPS + 8 * H_STEPS + 2; t ++) {
			tick ();
			BKInt x = H_FXSLIDE ? MAXV - track.unit.volume [0] : tone - 48 * UNIT;
			int k = t - H_SLIDESTEPS - 2;
			if (round == 0)
				limit = d;
			vp_assert (H_FXSLIDE ? x >= 0 && x <= limit + 3 : ABS (x) <= limit, "never more than the deltas");
			if (round == 0 && t == 0)
				vp_assert (H_FXSLIDE ? x <= 3 : x == 0, "begins with nothing");
			if (k >= 0 && k < 4 * H_STEPS) {
				first [k] = x;
				if (ABS (x) > most)
					most = ABS (x);
				if (ABS (x) < least)
					least = ABS (x);
			}
			if (k >= 4 * H_STEPS)
				vp_assert (ABS (x - first [k - 4 * H_STEPS]) <= 4 * H_STEPS, "the same in each cycle of the given steps");
		}
		vp_assert (most >= values [1] - 4 && most <= values [1] + 3 && least <= 4, "reaches the delta and nothing within a cycle");
		values [1] = d2;
	}
	vp_reach ();
	return 0;
}
#elif defined (H_FXDIV)
/* volume slide of H_STEPS steps, each H_FXDIV ticks; restarted by a new divider of H_FXDIV2 after H_AT ticks */
int main (void)
{
	setup ();
	BKInt v0 = LEVEL ("volume"), v1 = LEVEL ("volume");
	set (BK_MASTER_VOLUME, MAXV);
	set (BK_VOLUME, v0);
	set (BK_NOTE, 0);
	tick ();
	set (BK_EFFECT_DIVIDER, H_FXDIV);
	set (BK_EFFECT_VOLUME_SLIDE, H_STEPS);
	set (BK_VOLUME, v1);
	int left = 0, steps = 0, every = H_FXDIV;
	BKInt last = 0;
	v0 = (v0 * MAXV) >> BK_VOLUME_SHIFT;
	v1 = (v1 * MAXV) >> BK_VOLUME_SHIFT;
	for (int t = 0; t < H_T; t ++) {
		if (t == H_AT) {
			set (BK_EFFECT_DIVIDER, H_FXDIV2);
			every = H_FXDIV2;
			left = 0;
		}
		tick ();
		/* what is seen is the volume after the steps done by the ticks before */
		BKInt l = track.unit.volume [0];
		if (steps == 0)
			vp_assert (l == v0, "old volume until the first step");
		else if (steps >= H_STEPS)
			vp_assert (l == v1, "new volume after the last step");
		else
			vp_assert (ABS (l * H_STEPS - (v0 * (H_STEPS - steps) + v1 * steps)) <= 3 * H_STEPS, "one step each time the divider is over");
		if (left == 0) {
			left = every;
			steps ++;
		}
		left --;
		(void) last;
	}
	vp_assert (steps > H_STEPS, "slide is over");
	vp_reach ();
	return 0;
}
#elif defined (H_SMPSCRIPT)
/* histories of notes for a sample of 8 frames, one frame each time unit
 * 0 first or other note, 1 release, 2 mute, 3 set sustain range, 4 no sustain range, 5 repeat, 6 no repeat, 7 instrument, 8 no instrument, 9 release at once, 100+n ticks and n frames each */
static BKFrame smp [8];
static int const ops [] = { H_OPS };
static int held, loud, released, sus, repeat, pos, ins, immediate;
static BKInt level [2];
void vp_heard (int c, BKUInt time, BKInt pulse) { (void) time; level [c] += pulse; }
int main (void)
{
	BKInt iv = MAXV;
	setup ();
	set (BK_MASTER_VOLUME, MAXV);
	for (int i = 0; i < 8; i ++)
		smp [i] = vp_int ("frames", -4, 3) * 8192 + 37 * i;
	data.numFrames = 8;
	data.numChannels = 1;
	data.frames = smp;
	vp_assert (BKInstrumentInit (& instr) == 0, "instrument");
	BKInstrumentSetSequence (& instr, BK_SEQUENCE_VOLUME, & iv, 1, 0, 1);
	vp_assert (BKSetPtr (& track, BK_SAMPLE, & data, sizeof (& data)) == 0, "sample is set");
	logResult = UNIT;
	for (unsigned o = 0; o < sizeof (ops) / sizeof (ops [0]); o ++) {
		int op = ops [o];
		BKInt range [2] = { 2, 4 };
		switch (op) {
			case 0:
				set (BK_NOTE, (24 + (BKInt) o) * UNIT);
				if (! held)
					pos = 0;
				held = loud = 1;
				released = 0;
				break;
			case 1:
				set (BK_NOTE, BK_NOTE_RELEASE);
				if (! sus && ! ins)
					loud = 0;
				if (ins && held)
					loud = 0;
				if (sus && held && ! released && immediate && pos < 4)
					pos = 4;
				held = 0;
				released = 1;
				break;
			case 2:
				set (BK_NOTE, BK_NOTE_MUTE);
				held = loud = released = 0;
				break;
			case 3:
				vp_assert (BKSetPtr (& track, BK_SAMPLE_SUSTAIN_RANGE, range, sizeof (range)) == 0, "sustain range is set");
				sus = 1;
				break;
			case 4:
				range [1] = range [0];
				vp_assert (BKSetPtr (& track, BK_SAMPLE_SUSTAIN_RANGE, range, sizeof (range)) == 0, "sustain range is removed");
				sus = 0;
				break;
			case 5: case 6:
				set (BK_SAMPLE_REPEAT, op == 5 ? BK_REPEAT : BK_NO_REPEAT);
				repeat = op == 5;
				break;
			case 7: case 8:
				vp_assert (BKSetPtr (& track, BK_INSTRUMENT, op == 7 ? & instr : NULL, sizeof (& instr)) == 0, "instrument is set");
				ins = op == 7;
				break;
			case 9:
				set (BK_SAMPLE_IMMED_RELEASE, 1);
				immediate = 1;
				break;
			default:
				for (int t = 0; t < op - 100; t ++) {
					tick ();
					track.unit.run (& track.unit, UNIT);
					vp_assert (track.unit.time == UNIT, "one frame is played");
					BKUnitEnd (& track.unit, UNIT);
					if (! loud) {
						continue;
					}
					BKInt want = (smp [pos] * (((MAXV * MAXV) >> BK_VOLUME_SHIFT) - ins)) >> BK_VOLUME_SHIFT;
					vp_assert (level [0] == want && level [1] == want, "frames in order from the first one, again in the sustain range until the note is released");
					pos ++;
					if (sus && ! released && pos == 4)
						pos = 2;
					if (pos == 8) {
						pos = 0;
						if (! repeat)
							loud = held = 0;
					}
				}
		}
		vp_assert (! track.unit.mute == loud, "heard from the start of the note to the end of the sample");
	}
	vp_reach ();
	return 0;
}
#elif defined (H_RESET)
/* reset (1) or cleared (0) track against a new one */
static BKEnum const attrs [] = { BK_VOLUME, BK_PANNING, BK_NOTE, BK_PITCH, BK_SAMPLE_PITCH, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_MUTE, BK_PHASE_WRAP, BK_SAMPLE_REPEAT };
static BKInt initial [sizeof (attrs) / sizeof (attrs [0])];
int main (void)
{
	setup ();
	for (unsigned i = 0; i < sizeof (attrs) / sizeof (attrs [0]); i ++)
		initial [i] = get (attrs [i]);
	BKInt duty = get (BK_DUTY_CYCLE), master = vp_int ("master", 0, MAXV), newDuty = vp_int ("duty", 1, 15);
	vp_assert (BKInstrumentInit (& instr) == 0, "instrument");
	BKInt one [2] = { vp_int ("instrument", 0, MAXV), 0 };
	BKInstrumentSetSequence (& instr, BK_SEQUENCE_VOLUME, one, 2, 0, 2);
	BKInstrumentSetSequence (& instr, BK_SEQUENCE_PITCH, one, 2, 0, 2);
	set (BK_MASTER_VOLUME, master);
	set (BK_DUTY_CYCLE, newDuty);
	set (BK_VOLUME, H_TICKS ? 12345 : vp_any_int ("volume"));
	set (BK_PANNING, H_TICKS ? -9999 : vp_any_int ("panning"));
	set (BK_PITCH, vp_any_int ("pitch"));
	set (BK_SAMPLE_PITCH, vp_any_int ("pitch"));
	set (BK_PHASE_WRAP, vp_any_int ("wrap"));
	set (BK_SAMPLE_REPEAT, BK_REPEAT);
	set (BK_ARPEGGIO_DIVIDER, 3);
	set (BK_EFFECT_DIVIDER, 5);
	set (BK_INSTRUMENT_DIVIDER, 7);
	BKInt a [3] = { 2, vp_int ("offset", -96 * UNIT, 96 * UNIT), 12 * UNIT }, e [3] = { 3, 100, 2 };
	BKSetPtr (& track, BK_ARPEGGIO, a, sizeof (a));
	for (int i = 0; i < 5; i ++)
		BKSetPtr (& track, BK_EFFECT_VOLUME_SLIDE + i, e, sizeof (e));
	BKSetPtr (& track, BK_INSTRUMENT, & instr, sizeof (& instr));
	set (BK_NOTE, H_TICKS ? 1234567 : vp_int ("note", 0, 96 * UNIT));
	for (int t = 0; t < H_TICKS; t ++)
		tick ();
	if (H_RESET)
		BKTrackReset (& track);
	else
		BKTrackClear (& track);
	for (unsigned i = 0; i < sizeof (attrs) / sizeof (attrs [0]); i ++)
		vp_assert (get (attrs [i]) == initial [i], "attributes are the initial ones");
	vp_assert (get (BK_DUTY_CYCLE) == (H_RESET ? duty : newDuty), "duty cycle is only reset by reset");
	vp_assert (get (BK_MASTER_VOLUME) == master && get (BK_WAVEFORM) == H_WAVE, "master volume and waveform are kept");
	BKInt got [BK_MAX_ARPEGGIO + 1] = { 9 };
	vp_assert (BKGetPtr (& track, BK_ARPEGGIO, got, sizeof (got)) == 0 && got [0] == 0, "no arpeggio");
	for (int i = 0; i < 5; i ++) {
		BKInt v [3] = { 9, 9, 9 };
		vp_assert (BKGetPtr (& track, BK_EFFECT_VOLUME_SLIDE + i, v, sizeof (v)) == 0 && v [0] == 0 && v [1] == 0 && v [2] == 0, "no effect");
	}
	BKInstrument * in = & instr;
	vp_assert (BKGetPtr (& track, BK_INSTRUMENT, & in, sizeof (in)) == 0 && in == NULL && instr.stateList == NULL, "no instrument");
	vp_assert (attached == 1 && track.unit.ctx == & ctx && ctx.firstUnit == & track.unit, "still attached");
	/* plays as a new one */
	BKInt n = vp_int ("note", 0, 96 * UNIT);
	set (BK_NOTE, n);
	for (int t = 0; t < 3; t ++) {
		tick ();
		vp_assert (tone == n, "nothing of the old note");
		vp_assert (track.unit.volume [0] == track.unit.volume [1] && track.unit.volume [0] <= master && track.unit.volume [0] >= master - 1, "nothing of the old volume");
	}
	/* panning, effects and instruments work as for a new one */
	set (BK_PANNING, MAXV / 2);
	tick ();
	BKInt full = (MAXV * master) >> BK_VOLUME_SHIFT;
	vp_assert (track.unit.volume [0] == ((MAXV - MAXV / 2) * full) >> BK_VOLUME_SHIFT && track.unit.volume [1] == full, "panning as for a new track");
	set (BK_EFFECT_PANNING_SLIDE, 1);
	set (BK_PANNING, 0);
	tick ();
	tick ();
	vp_assert (track.unit.volume [0] == full && track.unit.volume [1] == full, "slides as for a new track");
	/* disposing */
	BKSetPtr (& track, BK_INSTRUMENT, & instr, sizeof (& instr));
	vp_assert (instr.stateList != NULL, "instrument is used");
	BKDispose (& track);
	vp_assert (instr.stateList == NULL && attached == 0 && ctx.firstUnit == NULL && ctx.lastUnit == NULL, "a disposed track is not known any more");
	vp_reach ();
	return 0;
}
#elif defined (H_DATA)
/* data of the track changes, also after it was cleared (H_DATA 1) or reset (2) */
int main (void)
{
	setup ();
	toneResult = vp_int ("period", 1 << 16, INT32_MAX);
	if (H_DATA == 1)
		BKTrackClear (& track);
	if (H_DATA == 2)
		BKTrackReset (& track);
	data.numFrames = 4;
	data.numChannels = 1;
	data.frames = frames;
	vp_assert (BKSetPtr (& track, BK_WAVEFORM, & data, sizeof (& data)) == 0, "waveform is set");
	set (BK_NOTE, 12 * UNIT);
	tick ();
	vp_assert ((BKInt) track.unit.period == toneResult / 4, "period of the note");
	/* what BKData does when its frames change */
	data.numFrames = H_FRAMES;
	BKInt count = MIN (data.numFrames, BK_WAVE_MAX_LENGTH);
	track.unit.sample.dataState.callback (BK_DATA_STATE_EVENT_RESET, track.unit.sample.dataState.callbackUserInfo);
	vp_assert ((BKInt) track.unit.phase.count == count && (BKInt) track.unit.period == toneResult / count, "the note is kept with an other number of phases");
	data.numFrames = 1;
	track.unit.sample.dataState.callback (BK_DATA_STATE_EVENT_RESET, track.unit.sample.dataState.callbackUserInfo);
	tick ();
	vp_assert (track.unit.waveform == 0 && track.unit.sample.frames == NULL, "data which can not be used is not");
	vp_reach ();
	return 0;
}
#elif defined (H_INVALID)
/* a track initialised with a waveform which needs data */
int main (void)
{
	ctx.numChannels = H_CH;
	ctx.sampleRate = 44100;
	ctx.channels = chan;
	BKTrackInit (& track, H_INVALID);
	vp_assert (BKTrackAttach (& track, & ctx) == 0, "track is attached");
	set (BK_NOTE, vp_int ("note", 0, 96 * UNIT));
	tick ();
	run ();
	data.numFrames = 4;
	data.numChannels = 1;
	data.frames = frames;
	BKInt res = BKSetPtr (& track, BK_SAMPLE, & data, sizeof (& data));
	vp_assert (res == 0, "sample is set");
	set (BK_NOTE, vp_int ("note", 0, 96 * UNIT));
	tick ();
	vp_assert (logs > 0 && track.unit.sample.period == logResult, "the sample plays");
	vp_reach ();
	return 0;
}
#endif
