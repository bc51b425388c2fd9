/* BKObject: initialising, allocating, disposing; attributes; failing allocations */
#include "vp.h"
#include "BlipKit.h"
#include "BKData_internal.h"
#include "BKInstrument_internal.h"
#ifdef VP_FILES
#include "BKWaveFileReader.h"
#include "BKWaveFileWriter.h"
#include "BKWaveFile_internal.h"
static unsigned le (unsigned char const * p, int n)
{
	unsigned v = 0;
	for (int i = n - 1; i >= 0; i --)
		v = v << 8 | p [i];
	return v;
}
#endif
#include "vp_count_impl.h"
#ifdef VP_FILES
#include "vp_file_impl.h"
#endif

#if defined (H_CLASS)
/* an own class with H_CLASS bytes more than an object */
typedef struct { BKObject object; unsigned char more [H_CLASS]; } Obj;
static int disposed, given;
static void * self;
static BKInt attrValue, attrCode;
static size_t ptrSize;
static void * ptrValue;
static void dispose (Obj * o)
{
	disposed ++;
	vp_assert (o == self && (o -> object.flags & BKObjectFlagInitialized), "disposed as it is");
	for (int i = 0; i < H_CLASS; i ++)
		vp_assert (o -> more [i] == 7 + i, "contents are still there when disposing");
}
static BKInt setAttr (Obj * o, BKEnum attr, BKInt value) { vp_assert (o == self, "object"); given |= 1; attrCode = attr; attrValue = value; return -123; }
static BKInt getAttr (Obj const * o, BKEnum attr, BKInt * value) { vp_assert (o == self, "object"); given |= 2; attrCode = attr; * value = attrValue; return -124; }
static BKInt setPtr (Obj * o, BKEnum attr, void * ptr, BKSize size) { vp_assert (o == self, "object"); given |= 4; attrCode = attr; ptrValue = ptr; ptrSize = size; return -125; }
static BKInt getPtr (Obj const * o, BKEnum attr, void * ptr, BKSize size) { vp_assert (o == self, "object"); given |= 8; attrCode = attr; ptrValue = ptr; ptrSize = size; return -126; }
static BKClass const full = { 0, sizeof (Obj), (BKDisposeFunc) dispose, (BKSetAttrFunc) setAttr, (BKGetAttrFunc) getAttr, (BKSetPtrFunc) setPtr, (BKGetPtrFunc) getPtr };
static BKClass const none = { 0, sizeof (Obj) };
static BKClass const empty = { 0 };
static void use (Obj * o, BKClass const * c)
{
	int has = c == & full;
	BKInt attr = vp_any_int ("attr"), value = vp_any_int ("value"), out = 99, x;
	size_t size = vp_uint ("size", 0, 100);
	self = o;
	given = 0;
	for (int i = 0; i < H_CLASS; i ++)
		o -> more [i] = 7 + i;
	vp_assert (BKSetAttr (o, attr, value) == (has ? -123 : BK_INVALID_STATE) && given == (has ? 1 : 0) && (! has || (attrCode == attr && attrValue == value)), "attributes are set by the class");
	attrCode = ~ attr;
	vp_assert (BKGetAttr (o, attr, & out) == (has ? -124 : BK_INVALID_STATE) && given == (has ? 3 : 0) && out == (has ? value : 99) && (! has || attrCode == attr), "attributes are got from the class");
	vp_assert (BKSetPtr (o, attr, & x, size) == (has ? -125 : BK_INVALID_STATE) && given == (has ? 7 : 0) && (! has || (ptrValue == & x && ptrSize == size)), "pointers are set by the class");
	ptrValue = NULL; ptrSize = 1000;
	vp_assert (BKGetPtr (o, attr, & x, size) == (has ? -126 : BK_INVALID_STATE) && given == (has ? 15 : 0) && (! has || (ptrValue == & x && ptrSize == size)), "pointers are got from the class");
}
int main (void)
{
	struct { unsigned char before [4]; Obj o; unsigned char after [4]; } s;
	Obj * o;
	BKInt v = 5;
	for (int k = 0; k < 2; k ++) {
		BKClass const * c = k ? & none : & full;
		for (int i = 0; i < sizeof (s); i ++)
			((unsigned char *) & s) [i] = 170;
		vp_assert (BKObjectInit (& s.o, c, sizeof (Obj) - 1) == BK_ALLOCATION_ERROR && BKObjectInit (& s.o, c, sizeof (Obj) + 1) == BK_ALLOCATION_ERROR && BKObjectInit (NULL, c, sizeof (Obj)) == BK_ALLOCATION_ERROR && BKObjectInit (& s.o, NULL, sizeof (Obj)) == BK_ALLOCATION_ERROR, "wrong sizes and objects are refused");
		for (int i = 0; i < sizeof (s); i ++)
			vp_assert (((unsigned char *) & s) [i] == 170, "nothing is written if refused");
		vp_assert (BKObjectInit (& s.o, c, sizeof (Obj)) == 0, "initialised");
		vp_assert (s.o.object.isa == c && s.o.object.flags == BKObjectFlagInitialized, "class is set");
		for (int i = 0; i < H_CLASS; i ++)
			vp_assert (s.o.more [i] == 0, "all is cleared");
		use (& s.o, c);
		disposed = 0;
		BKDispose (& s.o);
		vp_assert (disposed == ! k, "disposed once");
		for (int i = 0; i < sizeof (Obj); i ++)
			vp_assert (((unsigned char *) & s.o) [i] == 0, "disposed objects are cleared");
		BKDispose (& s.o);
		vp_assert (disposed == ! k && vp_total == k, "nothing happens when disposed again");
		for (int i = 0; i < 4; i ++)
			vp_assert (s.before [i] == 170 && s.after [i] == 170, "nothing beyond the object is written");
		o = (void *) & s;
		vp_assert (BKObjectAlloc (NULL, c, 0) == BK_ALLOCATION_ERROR && BKObjectAlloc ((void **) & o, NULL, 0) == BK_ALLOCATION_ERROR && o == NULL, "refused");
		o = (void *) & s;
		vp_assert (BKObjectAlloc ((void **) & o, & empty, 0) == BK_ALLOCATION_ERROR && o == NULL && vp_total == k, "class without size is refused");
		vp_assert (BKObjectAlloc ((void **) & o, c, 3) == 0 && o != NULL && vp_live == 1 && vp_total == k + 1, "allocated");
		vp_assert (o -> object.isa == c && o -> object.flags == (BKObjectFlagInitialized | BKObjectFlagAllocated), "class is set");
		for (int i = 0; i < H_CLASS; i ++)
			vp_assert (o -> more [i] == 0, "all is cleared");
		for (int i = 0; i < 3; i ++)
			((unsigned char *) (o + 1)) [i] = i;
		use (o, c);
		disposed = 0;
		BKDispose (o);
		vp_assert (disposed == ! k && vp_live == 0, "disposed once and freed");
	}
	BKDispose (NULL);
	vp_assert (BKSetAttr (NULL, 1, 1) == BK_INVALID_STATE && BKGetAttr (NULL, 1, & v) == BK_INVALID_STATE && v == 5 && BKSetPtr (NULL, 1, & v, 4) == BK_INVALID_STATE && BKGetPtr (NULL, 1, & v, 4) == BK_INVALID_STATE && v == 5, "no object");
	vp_fail_at = vp_total;
	vp_assert (BKObjectAlloc ((void **) & o, & full, 0) == BK_ALLOCATION_ERROR && o == NULL && vp_live == 0, "failed allocations are reported");
	vp_reach ();
	return 0;
}

#elif defined (H_KIND)
/* each class of the library: allocated, initialised and disposed; attributes it does not know are refused and change nothing */
static int total;
static BKEnum callback (BKCallbackInfo * info, void * u) { return 0; }
#if H_KIND == 0
#define T BKClock
#define INIT(o) BKClockInit (o, BKTimeMake (10, 0), & cb)
#define ALLOC(o) BKClockAlloc (o, BKTimeMake (10, 0), & cb)
#define OBJ(o) ((o) -> object)
#define NOATTR 1
#define GOOD(o) ((o) -> callback.func == callback && (o) -> ctx == NULL && BKTimeIsEqual ((o) -> period, BKTimeMake (10, 0)) && (o) -> dividers.firstDivider == NULL)
#elif H_KIND == 1
#define T BKDivider
#define INIT(o) BKDividerInit (o, 3, & cb)
#define ALLOC(o) BKDividerAlloc (o, 3, & cb)
#define OBJ(o) ((o) -> object)
#define NOATTR 1
#define GOOD(o) ((o) -> callback.func == callback && (o) -> divider == 3 && (o) -> counter == 0 && (o) -> group == NULL)
#elif H_KIND == 2
#define T BKContext
#define INIT(o) BKContextInit (o, 2, 44100)
#define ALLOC(o) BKContextAlloc (o, 2, 44100)
#define OBJ(o) ((o) -> object)
#define MORE 1
#define KNOWN(a) (a == BK_SAMPLE_RATE || a == BK_NUM_CHANNELS || a == BK_TIME || a == BK_MASTER_VOLUME)
#define KNOWNPTR(a) 1
#define GOOD(o) ((o) -> numChannels == 2 && (o) -> sampleRate == 44100 && (o) -> firstUnit == NULL && (o) -> firstClock == NULL)
#elif H_KIND == 3
#define T BKData
#define INIT(o) BKDataInit (o)
#define ALLOC(o) BKDataAlloc (o)
#define OBJ(o) ((o) -> object)
#define KNOWN(a) (a == BK_NUM_FRAMES || a == BK_NUM_CHANNELS || a == BK_SAMPLE_PITCH)
#define KNOWNPTR(a) (a == BK_SAMPLE_SUSTAIN_RANGE)
#define GOOD(o) ((o) -> frames == NULL && (o) -> stateList == NULL && (o) -> numFrames == 0 && (o) -> sustainEnd == 0)
#elif H_KIND == 4
#define T BKInstrument
#define INIT(o) BKInstrumentInit (o)
#define ALLOC(o) BKInstrumentAlloc (o)
#define OBJ(o) ((o) -> object)
#define NOATTR 1
#define GOOD(o) ((o) -> numSequences == 0 && (o) -> stateList == NULL && (o) -> sequences [0] == NULL && (o) -> sequences [BK_MAX_SEQUENCES - 1] == NULL)
#elif H_KIND == 5
#define T BKUnit
#define INIT(o) BKUnitInit (o, BK_SQUARE)
#define ALLOC(o) BKUnitInit (* (o) = & alone, BK_SQUARE)
#define ALONE 1
#define OBJ(o) ((o) -> object)
#define GOOD(o) ((o) -> waveform == BK_SQUARE && (o) -> ctx == NULL && (o) -> mute == 0 && (o) -> sample.dataState.data == NULL)
#elif H_KIND == 6
#define T BKTrack
#define INIT(o) BKTrackInit (o, BK_SQUARE)
#define ALLOC(o) BKTrackAlloc (o, BK_SQUARE)
#define OBJ(o) ((o) -> unit.object)
#define GOOD(o) ((o) -> waveform == BK_SQUARE && (o) -> unit.ctx == NULL && (o) -> instrState.instrument == NULL)
#endif
#ifndef MORE
#define MORE 0
#endif
int main (void)
{
	BKCallback cb = { callback, & total };
	struct { unsigned char before [8]; T o; unsigned char after [8]; } s;
	T * o = NULL;
#ifdef ALONE
	static T alone;
#endif
	for (int i = 0; i < 8; i ++)
		s.before [i] = s.after [i] = 170;
	vp_assert (INIT (& s.o) == 0 && (OBJ (& s.o).flags & BKObjectFlagMask) == BKObjectFlagInitialized && vp_live == MORE, "initialised");
	vp_assert (GOOD (& s.o), "all is initialised");
	vp_assert (ALLOC (& o) == 0 && o, "allocated");
#ifdef ALONE
	vp_assert (vp_live == MORE * 2, "nothing is allocated");
#else
	vp_assert ((OBJ (o).flags & BKObjectFlagMask) == (BKObjectFlagInitialized | BKObjectFlagAllocated) && vp_live == MORE * 2 + 1, "allocated");
#endif
	vp_assert (GOOD (o), "all is initialised");
	BKInt attr = vp_any_int ("attr"), v = 77, p [16] = { 55 };
#ifdef NOATTR
	vp_assert (BKSetAttr (o, attr, vp_any_int ("value")) == BK_INVALID_STATE && BKGetAttr (o, attr, & v) == BK_INVALID_STATE && v == 77, "no attributes");
	vp_assert (BKSetPtr (o, attr, p, sizeof (p)) == BK_INVALID_STATE && BKGetPtr (o, attr, p, sizeof (p)) == BK_INVALID_STATE && p [0] == 55, "no pointers");
	vp_assert (GOOD (o), "nothing is changed");
#elif defined (KNOWN)
	vp_assume (! KNOWN (attr));
	vp_assert (BKSetAttr (o, attr, vp_any_int ("value")) < 0 || attr == BK_ARPEGGIO_DIVIDER || attr == BK_EFFECT_DIVIDER || attr == BK_INSTRUMENT_DIVIDER, "unknown attributes are refused");
	vp_assert (BKGetAttr (o, attr, & v) < 0 && v == 77, "unknown attributes are refused");
	vp_assert (KNOWNPTR (attr) || (BKSetPtr (o, attr, p, sizeof (p)) < 0 && BKGetPtr (o, attr, p, sizeof (p)) < 0 && p [0] == 55), "unknown pointers are refused");
	vp_assert (GOOD (o), "nothing is changed");
#endif
	BKDispose (o);
	vp_assert (vp_live == MORE, "what was allocated is freed");
#ifdef ALONE
	for (int i = 0; i < sizeof (alone); i ++)
		vp_assert (((unsigned char *) & alone) [i] == 0, "disposed objects are cleared");
	BKDispose (o);
#endif
	BKDispose (& s.o);
	vp_assert (vp_live == 0, "what was allocated is freed");
	vp_assert (OBJ (& s.o).flags == 0 && OBJ (& s.o).isa == NULL, "disposed objects are cleared");
	BKDispose (& s.o);
	vp_assert (vp_live == 0, "nothing happens when disposed again");
	for (int i = 0; i < 8; i ++)
		vp_assert (s.before [i] == 170 && s.after [i] == 170, "nothing beyond the object is written");
	vp_reach ();
	return 0;
}

#elif defined (H_RANGE)
/* pitch and sustain range of data read back */
int main (void)
{
	BKData data;
	BKFrame frames [H_RANGE] = { 0 };
	BKInt v = -1, r [2] = { -1, -1 };
	BKInt pitch = vp_any_int ("pitch"), range [2] = { vp_any_int ("offset"), vp_any_int ("end") };
	BKDataInit (& data);
	vp_assert (BKDataSetFrames (& data, frames, H_RANGE, 1, 0) == 0, "frames are set");
	vp_assert (BKSetAttr (& data, BK_SAMPLE_PITCH, pitch) == 0 && BKGetAttr (& data, BK_SAMPLE_PITCH, & v) == 0, "pitch is set");
	vp_assert (v == BKClamp (pitch, BK_MIN_SAMPLE_TONE * (1 << 20), BK_MAX_SAMPLE_TONE * (1 << 20)), "pitch is limited");
	vp_assert (BKGetAttr (& data, BK_NUM_FRAMES, & v) == 0 && v == H_RANGE && BKGetAttr (& data, BK_NUM_CHANNELS, & v) == 0 && v == 1, "number of frames and channels");
	vp_assert (BKSetPtr (& data, BK_SAMPLE_SUSTAIN_RANGE, range, sizeof (range)) == 0 && BKGetPtr (& data, BK_SAMPLE_SUSTAIN_RANGE, r, sizeof (r)) == 0, "range is set");
	BKInt a = range [0], b = range [1];
	if (a == b)
		a = b = 0;
	a = a < 0 ? a + H_RANGE + 1 : a;
	b = b < 0 ? b + H_RANGE + 1 : b;
	a = BKClamp (a, 0, H_RANGE);
	b = BKClamp (b, 0, H_RANGE);
	vp_assert (r [0] == BKMin (a, b) && r [1] == BKMax (a, b), "range is ordered and within the frames");
	vp_assert (BKSetPtr (& data, BK_SAMPLE_SUSTAIN_RANGE, NULL, sizeof (range)) == 0 && BKGetPtr (& data, BK_SAMPLE_SUSTAIN_RANGE, r, sizeof (r)) == 0 && r [0] == 0 && r [1] == 0, "range is removed");
	BKDispose (& data);
	vp_reach ();
	return 0;
}

#elif defined (H_FAILALLOC)
/* allocation H_AT of creating an object fails */
int main (void)
{
#if H_FAILALLOC < 6
	void * o;
	BKInt r;
	for (int at = 0; at <= (H_FAILALLOC == 2); at ++) {
		o = & vp_live;
		vp_total = 0;
		vp_fail_at = at;
		r = H_FAILALLOC == 0 ? BKClockAlloc ((BKClock **) & o, BKTimeMake (1, 0), NULL) :
			H_FAILALLOC == 1 ? BKDividerAlloc ((BKDivider **) & o, 1, NULL) :
			H_FAILALLOC == 2 ? BKContextAlloc ((BKContext **) & o, 2, 44100) :
			H_FAILALLOC == 3 ? BKDataAlloc ((BKData **) & o) :
			H_FAILALLOC == 4 ? BKInstrumentAlloc ((BKInstrument **) & o) :
			BKTrackAlloc ((BKTrack **) & o, BK_SQUARE);
		vp_assert (r < 0 && o == NULL, "failed allocation is reported");
		vp_assert (vp_live == 0, "nothing is left");
	}
#else
	BKContext ctx;
	vp_total = vp_fail_at = 0;
	vp_assert (BKContextInit (& ctx, 2, 44100) == BK_ALLOCATION_ERROR && vp_live == 0, "failed allocation is reported");
	BKDispose (& ctx);
	vp_assert (vp_live == 0 && BKContextInit (& ctx, 2, 44100) == 0 && vp_live == 1, "can be initialised again");
	BKDispose (& ctx);
	vp_assert (vp_live == 0, "all is freed");
#endif
	vp_reach ();
	return 0;
}

#elif defined (H_FAILDATA)
/* operation H_FAILDATA on data, owned or not (H_OWN), in use by two users */
static BKFrame frames [6], other [6];
static int events;
static BKEnum changed (BKEnum event, void * u)
{
	events ++;
	return 0;
}
static int same (BKData const * d, BKFrame const * f, BKFrame const * values, BKDataState * a, BKDataState * b)
{
	int r = d -> frames == f && d -> numFrames == 3 && d -> numChannels == 2 && d -> samplePitch == 12345 && d -> sustainOffset == 1 && d -> sustainEnd == 2 && a -> data == d && b -> data == d && d -> stateList != NULL;
	for (int i = 0; i < 6; i ++)
		r = r && d -> frames [i] == values [i];
	return r;
}
static BKInt op (BKData * d, BKData * copy)
{
	(void) copy;
#if H_FAILDATA == 0
	return BKDataSetFrames (d, other, 3, 2, 1);
#elif H_FAILDATA == 1
	return BKDataSetData (d, other, sizeof (other), 2, BK_16_BIT_SIGNED);
#elif H_FAILDATA == 2
	vp_pos = 0;
	return BKDataLoadRaw (d, VP_FILE, 2, BK_16_BIT_SIGNED);
#elif H_FAILDATA == 3
	vp_pos = 0;
	return BKDataLoadWAVE (d, VP_FILE);
#elif H_FAILDATA == 4
	return BKDataNormalize (d);
#elif H_FAILDATA == 5
	return BKDataInitCopy (copy, d);
#endif
}
int main (void)
{
	BKInt const range [2] = { 1, 2 };
	BKData data, copy;
	BKDataState a = { 0 }, b = { 0 };
	BKFrame values [6];
	for (int i = 0; i < 6; i ++) {
		frames [i] = values [i] = vp_int ("frame", -32768, 32767);
#if H_FAILDATA == 4
		frames [i] = values [i] = i * 100;
#endif
		other [i] = i + 1;
	}
#if H_FAILDATA == 2 || H_FAILDATA == 3
	static unsigned char const head [] = { 'R','I','F','F', 0,0,0,0, 'W','A','V','E', 'f','m','t',' ', 16,0,0,0, 1,0, 2,0, 0x44,0xac,0,0, 0,0,0,0, 4,0, 16,0, 'd','a','t','a', 12,0,0,0 };
	int n = 0;
	for (; H_FAILDATA == 3 && n < 44; n ++)
		vp_file [n] = head [n];
	for (int i = 0; i < 12; i ++)
		vp_file [n ++] = i & 1 ? 0 : i / 2 + 1;
	vp_size = n;
#endif
	a.callback = changed;
	b.callback = changed;
	BKDataInit (& data);
	vp_assert (BKDataSetFrames (& data, frames, 3, 2, H_OWN) == 0, "frames are set");
	vp_assert (vp_live == H_OWN && (data.frames == frames) == ! H_OWN, "frames are copied if requested");
	vp_assert (BKSetAttr (& data, BK_SAMPLE_PITCH, 12345) == 0 && BKSetPtr (& data, BK_SAMPLE_SUSTAIN_RANGE, (void *) range, sizeof (range)) == 0, "attributes are set");
	BKDataStateSetData (& a, & data);
	BKDataStateSetData (& b, & data);
	events = 0;
	BKFrame * f = data.frames;
	for (int at = 0; at < H_ALLOCS; at ++) {
		vp_total = 0;
		vp_fail_at = at;
		vp_assert (op (& data, & copy) < 0, "failed allocation is reported");
		vp_assert (vp_live == H_OWN, "nothing is left allocated");
		vp_assert (same (& data, f, values, & a, & b) && events == 0, "data keeps its frames and users");
#if H_FAILDATA == 5
		vp_assert (copy.frames == NULL && copy.stateList == NULL, "copy has no frames");
		BKDispose (& copy);
		vp_assert (vp_live == H_OWN && same (& data, f, values, & a, & b), "a failed copy can be disposed");
#endif
	}
	/* works again */
	vp_fail_at = -1;
	vp_assert (op (& data, & copy) == 0, "works when there is memory again");
#if H_FAILDATA == 5
	vp_assert (vp_live == H_OWN + 1, "copied");
	BKDispose (& copy);
#elif H_FAILDATA != 4
	vp_assert (vp_live == 1 && events == 2, "users are told");
	for (int i = 0; i < 6; i ++)
		vp_assert (data.frames [i] == other [i], "new frames are used");
#else
	vp_assert (vp_live == 1, "frames are owned");
#endif
	for (int i = 0; i < 6; i ++)
		vp_assert (frames [i] == values [i], "borrowed frames are never changed");
	BKDispose (& data);
	vp_assert (vp_live == 0 && a.data == NULL && b.data == NULL, "all is freed");
	vp_reach ();
	return 0;
}

#elif defined (H_FAILINSTR)
/* replacing (H_SLOT set before) or adding a sequence to an instrument in use, or copying it */
static int events;
static BKEnum changed (BKEnum event, void * u)
{
	events ++;
	return 0;
}
static BKInt set (BKInstrument * in, int kind, BKInt const * v)
{
	BKSequencePhase const p [2] = { { 5, v [0] }, { 6, v [1] } };
	return kind == 0 ? BKInstrumentSetSequence (in, BK_SEQUENCE_PITCH, v, 3, 0, 1) : kind == 1 ? BKInstrumentSetEnvelope (in, BK_SEQUENCE_PITCH, p, 2, 0, 1) : BKInstrumentSetEnvelopeADSR (in, 5, 6, 7000, 8);
}
int main (void)
{
	BKInstrument in, copy;
	BKInstrumentState state;
	BKInt v [3] = { vp_int ("value", -1000, 1000), 20, 30 }, w [3] = { 40, 50, 60 };
	int slot = H_FAILINSTR == 2 ? BK_SEQUENCE_VOLUME : BK_SEQUENCE_PITCH;
	BKInstrumentInit (& in);
	vp_assert (set (& in, 0, v) == 0 && BKInstrumentSetSequence (& in, BK_SEQUENCE_PANNING, w, 2, 1, 1) == 0, "sequences are set");
	if (H_FAILINSTR == 2)
		set (& in, 2, v);
	int live = vp_live;
	BKInstrumentStateInit (& state);
	BKInstrumentStateSetInstrument (& state, & in);
	state.callback = (void *) changed;
	BKInstrumentStateTick (& state, 1);
	BKSequence const * s = BKInstrumentGetSequence (& in, slot), * t = BKInstrumentGetSequence (& in, BK_SEQUENCE_PANNING);
	BKSequenceState before = state.states [slot];
	BKInt num = in.numSequences;
	vp_total = 0;
	vp_fail_at = 0;
#if H_FAILINSTR < 3
	vp_assert (set (& in, H_FAILINSTR, w) == BK_ALLOCATION_ERROR, "failed allocation is reported");
#else
	for (int at = 0; at < 2; at ++) {
		vp_total = 0;
		vp_fail_at = at;
		vp_assert (BKInstrumentInitCopy (& copy, & in) == BK_ALLOCATION_ERROR, "failed allocation is reported");
		vp_assert (vp_live == live, "nothing is left allocated");
		BKDispose (& copy);
		vp_assert (vp_live == live, "a failed copy can be disposed");
	}
#endif
	vp_assert (vp_live == live && in.numSequences == num && in.stateList == & state && state.instrument == & in && BKInstrumentGetSequence (& in, slot) == s && BKInstrumentGetSequence (& in, BK_SEQUENCE_PANNING) == t && events == 0, "instrument is kept");
	vp_assert (state.states [slot].sequence == s && state.states [slot].value == before.value && state.states [slot].phase == before.phase, "playing sequence is kept");
	BKInstrumentStateTick (& state, 1);
	vp_fail_at = -1;
#if H_FAILINSTR < 3
	vp_assert (set (& in, H_FAILINSTR, w) == 0 && vp_live == live && state.states [slot].sequence == BKInstrumentGetSequence (& in, slot), "works when there is memory again");
#else
	vp_assert (BKInstrumentInitCopy (& copy, & in) == 0 && vp_live == 2 * live, "works when there is memory again");
	BKDispose (& copy);
#endif
	BKDispose (& in);
	vp_assert (vp_live == 0 && state.instrument == NULL, "all is freed");
	vp_reach ();
	return 0;
}

#elif defined (H_FAILSEQ)
/* creating and copying sequences */
int main (void)
{
	BKSequence * s = NULL, * c = NULL;
	BKInt v [2] = { vp_any_int ("value"), 3 };
	BKSequencePhase p [2] = { { 5, 10 }, { 6, vp_int ("value", 0, 1000) } };
	void const * values = H_FAILSEQ ? (void *) p : (void *) v;
	BKSequenceFuncs const * funcs = H_FAILSEQ ? & BKSequenceFuncsEnvelope : & BKSequenceFuncsSimple;
	vp_fail_at = 0;
	vp_assert (BKSequenceCreate (& s, funcs, values, 2, 1, 1) == BK_ALLOCATION_ERROR && s == NULL && vp_live == 0, "failed allocation is reported");
	vp_assert (BKSequenceCreate (& s, funcs, values, 2, 1, 1) == 0 && s != NULL && vp_live == 1, "works when there is memory again");
	vp_fail_at = vp_total;
	vp_assert (BKSequenceCopy (& c, s) == BK_ALLOCATION_ERROR && c == NULL && vp_live == 1, "failed allocation is reported");
	vp_assert (BKSequenceCopy (& c, s) == 0 && c != NULL && c != s && vp_live == 2, "works when there is memory again");
	BKSequenceDispose (s);
	vp_assert (vp_live == 1, "freed");
	BKSequenceDispose (c);
	vp_assert (vp_live == 0, "freed");
	vp_reach ();
	return 0;
}
#endif
