/* BKSequence, BKInstrument: value sequences, envelopes, instruments */
#include "vp.h"
#include "BlipKit.h"
#include "BKInstrument_internal.h"
#include <stdlib.h>

#define ABS(a) ((a) < 0 ? - (a) : (a))

#if defined (H_SIMPLE)
/* sequence of H_SIMPLE values, any sustain range, released (H_REL) after any number of steps or muted */
int main (void)
{
	enum { L = H_SIMPLE };
	BKSequence * seq = NULL;
	BKSequenceState state = { 0 };
	BKInt values [L], copy [L];
	for (int i = 0; i < L; i ++)
		copy [i] = values [i] = vp_any_int ("value");
	BKInt so = vp_any_int ("sustainOffset"), sl = vp_any_int ("sustainLength");
	vp_assert (BKSequenceCreate (& seq, & BKSequenceFuncsSimple, values, L, so, sl) == 0, "sequence is created");
	for (int i = 0; i < L; i ++)
		values [i] = 0;
	so = so < 0 || so > L ? L : so;
	sl = sl < 0 || sl > L - so ? L - so : sl;
	vp_assert (BKSequenceStateStep (& state, 1) < 0 && BKSequenceStateSetPhase (& state, BK_SEQUENCE_PHASE_ATTACK) < 0, "nothing is played without a sequence");
	BKSequenceStateSetSequence (& state, seq);
	vp_assert (BKSequenceStateStep (& state, 1) == BK_SEQUENCE_RETURN_NONE, "a muted sequence does not play");
	vp_assert (BKSequenceStateSetPhase (& state, vp_int ("phase", 3, INT32_MAX)) == BK_INVALID_ATTRIBUTE, "unknown phases are refused");
	BKInt r = BKSequenceStateSetPhase (& state, BK_SEQUENCE_PHASE_ATTACK);
	vp_assert (r == BK_SEQUENCE_RETURN_NONE && state.value == copy [0], "a sequence starts with its first value");
	int pos = 0, done = 0, held = 1, rel = vp_int ("release", 0, H_T);
	BKInt value = copy [0];
	for (int t = 0; t < H_T; t ++) {
		if (t == rel) {
			/* continues behind the sustain range */
			r = BKSequenceStateSetPhase (& state, BK_SEQUENCE_PHASE_RELEASE);
			held = 0;
			pos = so + sl;
			done = pos >= L;
			vp_assert (r == (done ? BK_SEQUENCE_RETURN_FINISH : BK_SEQUENCE_RETURN_NONE), "a released sequence finishes if nothing is left");
			if (! done)
				value = copy [pos];
			vp_assert (state.value == value, "a released sequence continues behind the sustain range");
		}
		vp_assert (BKSequenceStateStep (& state, 0) == BK_SEQUENCE_RETURN_NONE && state.value == value, "only divided steps advance");
		r = BKSequenceStateStep (& state, 1);
		if (done)
			vp_assert (r == BK_SEQUENCE_RETURN_NONE, "a sequence finishes once");
		else {
			int repeat = held && pos >= so + sl;
			if (repeat)
				pos = so;
			if (pos < L) {
				value = copy [pos ++];
				vp_assert (r == (repeat ? BK_SEQUENCE_RETURN_REPEAT : BK_SEQUENCE_RETURN_STEP), "values are played");
			}
			else {
				done = 1;
				vp_assert (r == BK_SEQUENCE_RETURN_FINISH, "the end is reported");
			}
		}
		vp_assert (state.value == value, "values in order; the last one is kept");
	}
	r = BKSequenceStateSetPhase (& state, BK_SEQUENCE_PHASE_MUTE);
	vp_assert (r == BK_SEQUENCE_RETURN_FINISH && BKSequenceStateStep (& state, 1) == BK_SEQUENCE_RETURN_NONE && state.value == value, "a muted sequence is finished");
	/* copy */
	BKSequence * c = NULL;
	vp_assert (BKSequenceCopy (& c, seq) == 0, "sequence is copied");
	BKSequenceDispose (seq);
	vp_assert (state.sequence == NULL && BKSequenceStateStep (& state, 1) < 0, "a disposed sequence is not used any more");
	BKSequenceStateSetSequence (& state, c);
	BKSequenceStateSetPhase (& state, BK_SEQUENCE_PHASE_ATTACK);
	vp_assert (state.value == copy [0], "a copy does not need the original");
	BKSequenceDispose (c);
	vp_assert (state.sequence == NULL, "a disposed sequence is not used any more");
	vp_reach ();
	return 0;
}

#elif defined (H_ENVELOPE)
/* envelope of H_ENVELOPE phases, sustain range H_SO, H_SL, released after H_REL steps, H_T steps */
enum { L = H_ENVELOPE };
static struct { BKSequence s; BKSequencePhase p [L]; } pool [2];
static int used, live [2];
void * vp_malloc (size_t size)
{
	vp_assert (size >= sizeof (pool [0]) && used < 2, "room for all phases");
	live [used] = 1;
	return & pool [used ++];
}
void vp_free (void * p)
{
	int i = p == & pool [1];
	vp_assert ((i || p == & pool [0]) && live [i], "what was allocated is freed once");
	live [i] = 0;
}
static BKSequencePhase ph [L];
#ifdef H_ADSR
static BKInstrument instr;
#endif
static BKSequenceState state;
static int pos, left, n, done, held, hasEnd;
static BKInt from, to; /* phase being played */
static BKInt value, lastv;
/* the next phase with steps, setting the values of those without */
static int load (int * repeat)
{
	for (int k = 0; k < 2 * L + 1; k ++) {
		if (held && pos >= H_SO + H_SL) {
			pos = H_SO;
			* repeat = 1;
		}
		if (pos >= L) {
			done = 1;
			return 0;
		}
		if (ph [pos].steps) {
			from = value;
			to = ph [pos].value;
			left = n = ph [pos].steps;
			return 1;
		}
		value = ph [pos].value;
		pos ++;
	}
	vp_assert (0, "a phase is found");
	return 0;
}
static void check (BKInt r, int repeat, int moved)
{
	vp_assert (r == (done ? BK_SEQUENCE_RETURN_FINISH : repeat ? BK_SEQUENCE_RETURN_REPEAT : BK_SEQUENCE_RETURN_STEP), "steps, repetition and end are reported");
	if (left && left < n) {
		/* on the way: between both values, near the line, moving towards the target */
		BKInt lo = from < to ? from : to, hi = from < to ? to : from;
		vp_assert (state.value >= lo - 1 && state.value <= hi, "an envelope does not overshoot");
		long long err = (long long) (state.value - from) * n - (long long) (to - from) * (n - left);
		vp_assert (ABS (err) <= 2 * n, "phases are linear");
		(void) moved;
	}
	else
		vp_assert (state.value == value, "each value is reached after exactly its steps");
}
int main (void)
{
	BKSequence * seq = NULL;
	BKInt sum = 0;
	for (int i = 0; i < L; i ++) {
		ph [i].steps = (BKUInt []) { H_STEPS } [i];
#ifdef H_G
		ph [i].value = vp_int ("value", - (H_RANGE >> H_G), H_RANGE >> H_G) * ((1 << H_G) + 1);
#else
		ph [i].value = vp_int ("value", - H_RANGE, H_RANGE);
#endif
		if (i >= H_SO && i < H_SO + H_SL)
			sum += ph [i].steps;
	}
#ifdef H_ADSR
	/* attack, decay, hold and release of an instrument */
	vp_assume (ph [1].value >= 0);
	ph [0].value = BK_MAX_VOLUME;
	ph [2].value = ph [1].value;
	ph [3].value = 0;
	vp_assert (BKInstrumentInit (& instr) == 0, "initialised");
	BKInt r = BKInstrumentSetEnvelopeADSR (& instr, ph [0].steps, ph [1].steps, ph [1].value, ph [3].steps);
	seq = (BKSequence *) BKInstrumentGetSequence (& instr, BK_SEQUENCE_VOLUME);
	vp_assert (seq && seq -> length == 4 && seq -> sustainOffset == 2 && seq -> sustainLength == 1, "sustained behind attack and decay");
	ph [2].steps = ((BKSequencePhase const *) seq -> values) [2].steps;
	vp_assert (ph [2].steps > 0, "the level is held");
	ph [2].steps = 240;
#else
	BKInt r = BKSequenceCreate (& seq, & BKSequenceFuncsEnvelope, ph, L, H_SO, H_SL);
#endif
	vp_assert (r == (H_SO < L && sum == 0 ? BK_INVALID_VALUE : 0), "a sustain range needs steps");
	if (r != 0)
		goto end;
	/* values are of the magnitude which fixes the precision */
	BKInt max = 0;
	for (int i = 0; i < L; i ++)
		max = ABS (ph [i].value) > max ? ABS (ph [i].value) : max;
	vp_assume (max > H_RANGE / 2);
	vp_assert (seq -> fracShift == H_FRAC, "as much precision as the values leave room for");
	seq -> fracShift = H_FRAC;
	BKSequenceStateSetSequence (& state, seq);
#ifdef H_START
	value = vp_int ("start", 0, BK_MAX_DUTY_CYCLE);
	BKSequenceStateSetValue (& state, value);
	vp_assert (state.value == value, "the starting value is set");
#endif
	held = 1;
	int repeat = 0;
	r = BKSequenceStateSetPhase (& state, BK_SEQUENCE_PHASE_ATTACK);
	load (& repeat);
	check (r, repeat, 0);
	for (int t = 0; t < H_T; t ++) {
		repeat = 0;
		if (t == H_REL) {
			held = 0;
			pos = H_SO + H_SL;
			done = 0;
			left = n = 0;
			value = state.value;
			r = BKSequenceStateSetPhase (& state, BK_SEQUENCE_PHASE_RELEASE);
			load (& repeat);
			check (r, 0, 0);
		}
		r = BKSequenceStateStep (& state, 0);
		if (done) {
			vp_assert (r == BK_SEQUENCE_RETURN_NONE && state.value == value, "an envelope finishes once and keeps its last value");
			continue;
		}
		left --;
		if (left == 0) {
			value = to;
			pos ++;
			n = 0;
			load (& repeat);
		}
		check (r, repeat, 1);
	}
	BKSequence * c = NULL;
	value = state.value;
	vp_assert (BKSequenceStateSetPhase (& state, BK_SEQUENCE_PHASE_MUTE) == BK_SEQUENCE_RETURN_FINISH && state.value == value, "a muted envelope is finished");
	vp_assert (BKSequenceCopy (& c, seq) == 0, "envelope is copied");
	BKSequenceDispose (seq);
	vp_assert (state.sequence == NULL, "a disposed envelope is not used any more");
	state.phase = BK_SEQUENCE_PHASE_MUTE;
	BKSequenceStateSetSequence (& state, c);
	BKSequenceStateSetPhase (& state, BK_SEQUENCE_PHASE_ATTACK);
	if (ph [0].steps)
		vp_assert (state.steps == (BKInt) ph [0].steps && state.value == value, "a copy does not need the original");
	BKSequenceDispose (c);
	vp_assert (! live [0] && ! live [1], "nothing is left allocated");
end:
	vp_reach ();
	return 0;
}

#elif defined (H_INSTR)
/* operations H_OPS on two instruments and two states with any values in two slots */
enum { SLOTS = 2 };
static BKInt const slots [SLOTS] = { BK_SEQUENCE_VOLUME, BK_SEQUENCE_PITCH };
static BKInt const defaults [SLOTS] = { BK_MAX_VOLUME, 0 };
static BKInstrument ins [2];
static BKInstrumentState st [2];
/* what should be */
static int len [2] [SLOTS];
static BKInt val [2] [SLOTS] [2];
static int user [2], phase [2], pos [2] [SLOTS], fin [2] [SLOTS];
static BKInt cur [2] [SLOTS];
static int calls [2] [3], expect [2] [3];
static int up;
static BKEnum callback (BKEnum event, void * info)
{
	int k = (BKInstrumentState *) info == & st [1];
	vp_assert (up && event < 3, "users are called with an event");
	calls [k] [event] ++;
	return 0;
}
static void mphase (int k, int ph)
{
	int i = user [k], active = 0;
	if (i < 0 || (phase [k] == BK_SEQUENCE_PHASE_RELEASE && ph == BK_SEQUENCE_PHASE_RELEASE))
		return;
	for (int s = 0; s < SLOTS; s ++)
		if (len [i] [s]) {
			/* no sustain range: released values continue at the end */
			pos [k] [s] = ph == BK_SEQUENCE_PHASE_ATTACK ? 0 : len [i] [s];
			fin [k] [s] = ph != BK_SEQUENCE_PHASE_ATTACK;
			if (ph == BK_SEQUENCE_PHASE_ATTACK) {
				cur [k] [s] = val [i] [s] [0];
				active = 1;
			}
		}
	if (! active && ph == BK_SEQUENCE_PHASE_RELEASE)
		ph = BK_SEQUENCE_PHASE_MUTE;
	if (ph == BK_SEQUENCE_PHASE_MUTE && phase [k] != ph)
		expect [k] [BK_INSTR_STATE_EVENT_MUTE] ++;
	phase [k] = ph;
}
static void mdefault (int k)
{
	for (int s = 0; s < SLOTS; s ++)
		cur [k] [s] = len [user [k]] [s] ? 0 : defaults [s];
}
static void mset (int k, int i)
{
	user [k] = i;
	if (i >= 0) {
		mdefault (k);
		mphase (k, BK_SEQUENCE_PHASE_ATTACK);
	}
}
static void mtick (int k)
{
	int i = user [k], active = 0, f = 0;
	for (int s = 0; s < SLOTS; s ++)
		if (len [i] [s] && ! fin [k] [s]) {
			if (pos [k] [s] < len [i] [s])
				cur [k] [s] = val [i] [s] [pos [k] [s] ++];
			else
				fin [k] [s] = f = 1;
			active |= ! fin [k] [s];
		}
	if (f && ! active && phase [k] != BK_SEQUENCE_PHASE_MUTE) {
		phase [k] = BK_SEQUENCE_PHASE_MUTE;
		expect [k] [BK_INSTR_STATE_EVENT_MUTE] ++;
	}
}
static void mgone (int i)
{
	for (int k = 0; k < 2; k ++)
		if (user [k] == i) {
			user [k] = -1;
			expect [k] [BK_INSTR_STATE_EVENT_DISPOSE] ++;
		}
}
static void mseq (int i, int s)
{
	for (int k = 0; k < 2; k ++)
		if (user [k] == i) {
			mdefault (k);
			mphase (k, BK_SEQUENCE_PHASE_MUTE);
			expect [k] [BK_INSTR_STATE_EVENT_RESET] ++;
		}
}
static void check (void)
{
	for (int i = 0; i < 2; i ++)
		for (int s = 0; s < SLOTS; s ++) {
			BKSequence const * q = BKInstrumentGetSequence (& ins [i], slots [s]);
			vp_assert (len [i] [s] ? q && q -> length == len [i] [s] : q == NULL, "sequences read back");
			if (q)
				for (int n = 0; n < len [i] [s]; n ++)
					vp_assert (((BKInt const *) q -> values) [n] == val [i] [s] [n], "values read back");
		}
	for (int k = 0; k < 2; k ++) {
		vp_assert (st [k].instrument == (user [k] < 0 ? NULL : & ins [user [k]]), "a user has the instrument set or none if it was disposed");
		for (int s = 0; s < SLOTS; s ++) {
			BKInt v = BKInstrumentStateGetSequenceValueAtOffset (& st [k], slots [s], 0);
			vp_assert (v == (user [k] < 0 ? defaults [s] : cur [k] [s]), "every user has the values of its own instrument");
		}
		for (int e = 0; e < 3; e ++)
			vp_assert (calls [k] [e] == expect [k] [e], "users are told about changes");
	}
}
static void op (int code)
{
	/* digits: operation, instrument, state or slot, kind */
	int kind = code % 10, k = code / 10 % 10, i = code / 100 % 10;
	code /= 1000;
	if (code == 0) {
		int s = k, l = kind;
		BKInt v [2];
		for (int n = 0; n < 2; n ++)
			v [n] = vp_any_int ("value");
		if (kind > 2) {
			vp_assert (BKInstrumentSetSequence (& ins [i], BK_MAX_SEQUENCES + vp_uint ("slot", 0, 100), v, 2, -1, -1) == BK_INVALID_ATTRIBUTE, "unknown slots are refused");
			return;
		}
		vp_assert (BKInstrumentSetSequence (& ins [i], slots [s], v, l, -1, -1) == 0, "sequences are set");
		len [i] [s] = l;
		for (int n = 0; n < 2; n ++)
			val [i] [s] [n] = v [n];
		mseq (i, s);
	}
	else if (code == 1) {
		BKInstrumentStateSetInstrument (& st [k], kind ? NULL : & ins [i]);
		mset (k, kind ? -1 : i);
	}
	else if (code == 2) {
		int ph = kind > 2 ? vp_int ("phase", 0, 2) : kind;
		BKInstrumentStateSetPhase (& st [k], ph);
		mphase (k, ph);
	}
	else if (code == 3) {
		if (user [k] >= 0 && (kind == 0 || vp_bool ("tick"))) {
			BKInstrumentStateTick (& st [k], 1);
			mtick (k);
		}
	}
	else if (code == 4) {
		/* disposed or only detached */
		if (kind) {
			BKDispose (& ins [i]);
			vp_assert (BKInstrumentInit (& ins [i]) == 0, "can be used again");
			for (int s = 0; s < SLOTS; s ++)
				len [i] [s] = 0;
		}
		else
			BKInstrumentDetach (& ins [i]);
		mgone (i);
	}
	else {
		BKDispose (& ins [i]);
		mgone (i);
		vp_assert (BKInstrumentInitCopy (& ins [i], & ins [! i]) == 0, "is copied");
		for (int s = 0; s < SLOTS; s ++) {
			len [i] [s] = len [! i] [s];
			for (int n = 0; n < 2; n ++)
				val [i] [s] [n] = val [! i] [s] [n];
		}
	}
}
int main (void)
{
	BKInt ops [H_INSTR] = { H_OPS };
	for (int i = 0; i < 2; i ++) {
		vp_assert (BKInstrumentInit (& ins [i]) == 0, "initialised");
		BKInstrumentStateInit (& st [i]);
		st [i].callback = (void *) callback;
		st [i].callbackUserInfo = & st [i];
		user [i] = -1;
	}
	up = 1;
	check ();
	for (int n = 0; n < H_INSTR; n ++) {
		op (ops [n]);
		check ();
	}
	/* all is given back */
	BKDispose (& ins [0]);
	BKDispose (& ins [1]);
	vp_assert (st [0].instrument == NULL && st [1].instrument == NULL, "no user is left");
	vp_reach ();
	return 0;
}
#endif
