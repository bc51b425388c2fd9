/* Users of instruments, sequences and data: after every history of changes exactly the current users are told, once
   each, and no user keeps a disposed object */
#include "vp.h"
#include <string.h>
#include "BlipKit.h"
#include "BKInstrument_internal.h"

#define N 4
static int user [N] = { -1, -1, -1, -1 };
static int told [N];

#if H_USERS == 0
#define OBJECT BKInstrument
#define STATE BKInstrumentState
static BKInstrument obj0, obj1;
#elif H_USERS == 1
#define OBJECT BKSequence
#define STATE BKSequenceState
static BKSequence * obj0, * obj1;
#else
#define OBJECT BKData
#define STATE BKDataState
static BKData obj0, obj1;
static BKFrame frames [4] = { 1, 2, 3, 4 };
#endif
static STATE s0, s1, s2, s3; /* not an array: the solver keeps them apart */
#define ST(i) ((i) == 0 ? & s0 : (i) == 1 ? & s1 : (i) == 2 ? & s2 : & s3)
#if H_USERS == 1
#define OB(i) ((i) == 0 ? obj0 : obj1)
#else
#define OB(i) ((i) == 0 ? & obj0 : & obj1)
#endif

static BKInt on_change (BKEnum event, void * info)
{
#if H_USERS == 0
	if (event == BK_INSTR_STATE_EVENT_MUTE) /* its sequences ended */
		return 0;
#endif
	told [* (int *) info] ++;
	return 0;
}
static int id0 = 0, id1 = 1, id2 = 2, id3 = 3;

static void set (STATE * s, OBJECT * o)
{
#if H_USERS == 0
	BKInstrumentStateSetInstrument (s, o);
#elif H_USERS == 1
	BKSequenceStateSetSequence (s, o);
#else
	BKDataStateSetData (s, o);
#endif
}

static OBJECT * used (STATE * s)
{
#if H_USERS == 0
	return s -> instrument;
#elif H_USERS == 1
	return s -> sequence;
#else
	return s -> data;
#endif
}

static BKInt values [3];

static void change (OBJECT * o)
{
#if H_USERS == 0
	vp_assert (BKInstrumentSetSequence (o, BK_SEQUENCE_PITCH, values, 3, 0, 0) == 0, "sequences can be set");
#elif H_USERS == 2
	vp_assert (BKDataSetFrames (o, frames, 4, 1, 0) == 0, "frames can be set");
#endif
}

static void dispose (OBJECT * o)
{
#if H_USERS == 1
	BKSequenceDispose (o);
#else
	BKDispose (o);
#endif
}

/* told about a change: the current users and nobody else */
static void verify_told (int c)
{
	for (int i = 0; i < N; i ++) {
#if H_USERS != 1
		vp_assert (told [i] == (user [i] == c), "exactly the current users are told, once");
#endif
		told [i] = 0;
	}
}

static void history (int second, int to)
{
	values [0] = vp_any_int ("value");
	values [1] = vp_any_int ("value");
	values [2] = vp_any_int ("value");
#if H_USERS == 0
	BKInstrumentInit (& obj0);
	BKInstrumentInit (& obj1);
	for (int i = 0; i < N; i ++)
		BKInstrumentStateInit (ST (i));
#elif H_USERS == 1
	vp_assert (BKSequenceCreate (& obj0, & BKSequenceFuncsSimple, values, 3, 0, 0) == 0, "sequences can be created");
	vp_assert (BKSequenceCreate (& obj1, & BKSequenceFuncsSimple, values, 3, 0, 3) == 0, "sequences can be created");
#else
	BKDataInit (& obj0);
	BKDataInit (& obj1);
#endif
#if H_USERS != 1
	s0.callback = s1.callback = s2.callback = s3.callback = (void *) on_change;
	s0.callbackUserInfo = & id0;
	s1.callbackUserInfo = & id1;
	s2.callbackUserInfo = & id2;
	s3.callbackUserInfo = & id3;
#endif
	change (OB (0));
	change (OB (1));
	for (int i = 0; i < N; i ++)
		user [i] = -1;
	for (int i = 0; i < H_FIXED; i ++) {
		set (ST (i), OB (0));
		user [i] = 0;
	}
#if H_FIRST >= 0
	set (ST (H_FIRST), H_TO < 0 ? NULL : OB (H_TO));
	user [H_FIRST] = H_TO;
#endif
#ifdef H_ANY
	for (int i = 0; i < N; i ++) {
		if (i != second)
			continue;
		for (int x = -1; x < 2; x ++) {
			if (x != to)
				continue;
			set (ST (i), x < 0 ? NULL : OB (x));
			user [i] = x;
		}
	}
#else
	set (ST (second), to < 0 ? NULL : OB (to));
	user [second] = to;
#endif
	for (int i = 0; i < N; i ++)
		vp_assert (used (ST (i)) == (user [i] < 0 ? NULL : OB (user [i])), "each user uses what was set");
	memset (told, 0, sizeof (told));
	change (OB (H_OBJ));
	verify_told (H_OBJ);
	dispose (OB (H_OBJ));
	verify_told (H_OBJ);
	for (int i = 0; i < N; i ++) {
		if (user [i] == H_OBJ)
			user [i] = -1;
		vp_assert (used (ST (i)) == (user [i] < 0 ? NULL : OB (user [i])), "no user keeps a disposed object, others keep theirs");
	}
	/* the others still work */
	change (OB (! H_OBJ));
	verify_told (! H_OBJ);
	dispose (OB (! H_OBJ));
	verify_told (! H_OBJ);
	for (int i = 0; i < N; i ++)
		vp_assert (used (ST (i)) == NULL, "no user keeps a disposed object");
}

int main (void)
{
#ifdef H_ANY
	int second = vp_int ("user", 0, N - 1), to = vp_int ("object", -1, 1);
	history (second, to);
#else
	for (int second = 0; second < N; second ++) {
		for (int to = -1; to < 2; to ++)
			history (second, to);
	}
#endif
	vp_reach ();
	return 0;
}
