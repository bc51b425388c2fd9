/* BKData: import, ownership of frames, users */
#include "vp.h"
#include "BKData_internal.h"
#include "BKTone.h"
#include "vp_count_impl.h"

static BKData data;

#if defined (H_CONVERT)
/* format H_CONVERT with H_SIZE bytes and H_CH channels, endian flag H_ENDIAN */
static BKInt value (unsigned char const * b, int j)
{
	switch (H_CONVERT) {
		case BK_1_BIT_UNSIGNED: return (b [j / 8] >> (7 - j % 8) & 1) ? 32767 : 0;
		case BK_2_BIT_UNSIGNED: return (b [j / 4] >> (6 - j % 4 * 2) & 3) * 32767 / 3;
		case BK_4_BIT_UNSIGNED: return (b [j / 2] >> (4 - j % 2 * 4) & 15) * 32767 / 15;
		case BK_8_BIT_UNSIGNED: return b [j] * 32767 / 255;
		case BK_8_BIT_SIGNED: {
			BKInt v = b [j] < 128 ? b [j] : b [j] - 256;
			return v == -128 ? -32767 : v * 32767 / 127;
		}
		default: {
			BKInt v = (H_ENDIAN) == BK_BIG_ENDIAN ? b [2 * j] * 256 + b [2 * j + 1] : b [2 * j + 1] * 256 + b [2 * j];
			return v < 32768 ? v : v - 65536;
		}
	}
}
int main (void)
{
	unsigned char * bytes = malloc (H_SIZE);
	unsigned char saved [H_SIZE];
	for (int i = 0; i < H_SIZE; i ++)
		saved [i] = bytes [i] = vp_uint ("byte", 0, 255);
	int bits = H_CONVERT == BK_1_BIT_UNSIGNED ? 1 : H_CONVERT == BK_2_BIT_UNSIGNED ? 2 : H_CONVERT == BK_4_BIT_UNSIGNED ? 4 : H_CONVERT == BK_16_BIT_SIGNED ? 16 : 8;
	int n = H_SIZE * 8 / bits / H_CH;
	vp_assert (BKDataInit (& data) == 0, "initialised");
	vp_assert (BKDataSetData (& data, bytes, H_SIZE, H_CH, H_CONVERT | H_ENDIAN) == (n < 2 ? BK_INVALID_NUM_FRAMES : 0), "data is converted if there are at least two frames");
	if (n < 2)
		vp_assert (! data.frames && data.numFrames == 0 && vp_live == 0, "refused data changes nothing");
	else {
		BKInt v = -1;
		vp_assert (BKGetAttr (& data, BK_NUM_FRAMES, & v) == 0 && v == n, "number of frames");
		vp_assert (BKGetAttr (& data, BK_NUM_CHANNELS, & v) == 0 && v == H_CH, "number of channels");
		for (int j = 0; j < n * H_CH; j ++)
			vp_assert (data.frames [j] == value (saved, j), "each value is the one the format denotes");
		for (int i = 0; i < H_SIZE; i ++) {
			vp_assert (bytes [i] == saved [i], "the data given is not changed");
			bytes [i] = 0;
		}
		if (n > 0)
			vp_assert (data.frames [n * H_CH - 1] == value (saved, n * H_CH - 1), "the data given is copied");
	}
	BKDispose (& data);
	vp_assert (vp_live == 0, "nothing is left allocated");
	vp_reach ();
	return 0;
}

#elif defined (H_REFUSE)
int main (void)
{
	BKFrame frames [4] = { 0 };
	BKUInt ch = vp_any_uint ("channels");
	vp_assume (ch < 1 || ch > BK_MAX_CHANNELS);
	BKDataInit (& data);
	for (BKEnum kind = 0; kind < 16; kind ++)
		if (kind < BK_1_BIT_UNSIGNED || kind > BK_16_BIT_SIGNED)
			vp_assert (BKDataSetData (& data, frames, 8, 1, kind) == BK_INVALID_NUM_BITS, "unknown formats are refused");
	vp_assert (BKDataSetData (& data, frames, 8, ch, BK_16_BIT_SIGNED) == BK_INVALID_NUM_CHANNELS, "number of channels is checked");
	vp_assert (data.frames == NULL && data.numFrames == 0 && vp_live == 0, "refused data changes nothing");
	vp_reach ();
	return 0;
}

#elif defined (H_NORMALIZE)
/* H_NORMALIZE frames; values in multiples of H_STEP */
int main (void)
{
	BKFrame in [H_NORMALIZE], saved [H_NORMALIZE];
	int max = 0;
	for (int i = 0; i < H_NORMALIZE; i ++) {
		saved [i] = in [i] = vp_int ("frame", -H_LIM, H_LIM - (H_LIM * H_STEP == 32768)) * H_STEP;
		max = in [i] > max ? in [i] : - in [i] > max ? - in [i] : max;
	}
	BKDataInit (& data);
	vp_assert (BKDataSetFrames (& data, in, H_NORMALIZE, 1, H_COPY) == 0, "frames are set");
	vp_assert (BKDataNormalize (& data) == 0, "is normalised");
	vp_assert (data.numFrames == H_NORMALIZE && data.numChannels == 1, "number of frames and channels are kept");
	int out = 0;
	for (int i = 0; i < H_NORMALIZE; i ++) {
		int v = data.frames [i];
		out = v > out ? v : - v > out ? - v : out;
		vp_assert (in [i] == saved [i], "the frames given are not changed");
		vp_assert (in [i] > 0 ? v >= 0 : in [i] < 0 ? v <= 0 : v == 0, "sign and zero are kept");
		for (int j = 0; j < i; j ++)
			vp_assert (in [i] <= in [j] ? data.frames [i] <= data.frames [j] : data.frames [i] >= data.frames [j], "order is kept");
		/* within the rounding of the exact value */
		long long err = (long long) v * max - (long long) in [i] * 32767;
		vp_assert (max == 0 || (err < 2 * max && err > -2 * max), "all is scaled by the same factor");
	}
	vp_assert (max == 0 ? out == 0 : out >= 32766 && out <= 32767, "the largest value is at full range");
	BKDispose (& data);
	vp_assert (vp_live == 0, "nothing is left allocated");
	vp_reach ();
	return 0;
}

#elif defined (H_RANGE)
/* sustain range of data with n frames */
int main (void)
{
	enum { N = H_RANGE };
	BKFrame in [N] = { 0 };
	BKInt r [2] = { vp_any_int ("offset"), vp_any_int ("end") }, got [2] = { -1, -1 };
	BKDataInit (& data);
	vp_assert (BKDataSetFrames (& data, in, N, 1, 0) == 0, "frames are set");
	long long a = r [0], e = r [1];
	if (a == e)
		a = e = 0;
	a = a < 0 ? a + N + 1 : a;
	e = e < 0 ? e + N + 1 : e;
	a = a < 0 ? 0 : a > N ? N : a;
	e = e < 0 ? 0 : e > N ? N : e;
	vp_assert (BKSetPtr (& data, BK_SAMPLE_SUSTAIN_RANGE, r, sizeof (r)) == 0, "range is set");
	vp_assert (BKGetPtr (& data, BK_SAMPLE_SUSTAIN_RANGE, got, sizeof (got)) == 0, "range is read");
	vp_assert (got [0] == (a < e ? a : e) && got [1] == (a < e ? e : a), "the range lies in the data in ascending order");
	vp_assert (BKSetPtr (& data, BK_SAMPLE_SUSTAIN_RANGE, NULL, 0) == 0 && BKGetPtr (& data, BK_SAMPLE_SUSTAIN_RANGE, got, sizeof (got)) == 0 && got [0] == 0 && got [1] == 0, "range is unset");
	BKEnum other = vp_any_uint ("attr");
	BKInt v = vp_any_int ("value"), w = 77;
	BKInt res = BKSetAttr (& data, other, v);
	vp_assert (res == (other == BK_SAMPLE_PITCH ? 0 : BK_INVALID_ATTRIBUTE), "unknown attributes are refused");
	res = BKGetAttr (& data, other, & w);
	vp_assert (res == (other == BK_SAMPLE_PITCH || other == BK_NUM_FRAMES || other == BK_NUM_CHANNELS ? 0 : BK_INVALID_ATTRIBUTE), "unknown attributes are refused");
	BKInt lo = BK_MIN_SAMPLE_TONE * (1 << BK_FINT20_SHIFT), hi = BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT;
	if (res == 0)
		vp_assert (w == (other == BK_NUM_FRAMES ? N : other == BK_NUM_CHANNELS ? 1 : v < lo ? lo : v > hi ? hi : v), "values in effect are read");
	else
		vp_assert (w == 77, "nothing is read");
	vp_reach ();
	return 0;
}

#elif defined (H_OWN)
/* operations on data with users; H_OPS: operation, buffer or user, channels, number of frames */
enum { MAX = 8, USERS = 3 };
static BKData copy;
static BKFrame buf [2] [MAX], keep [2] [MAX], content [MAX];
static BKFrame * borrowed;
static int n, ch, owned, hasCopy;
static BKDataState user [USERS];
static int list [USERS], num, calls [USERS] [2], expect [USERS] [2], failing [USERS], busy;
static BKInt callback (BKEnum event, void * info)
{
	int k = (BKDataState *) info - user;
	vp_assert (event < 2 && k >= 0 && k < USERS, "users are called with an event");
	vp_assert (busy, "users are called when something changes");
	calls [k] [event] ++;
	return failing [k] ? -1 : 0;
}
static void tell (int event)
{
	int m = 0;
	for (int i = 0; i < num; i ++) {
		int k = list [i];
		expect [k] [event] ++;
		if (! failing [k] && event == 0)
			list [m ++] = k;
	}
	num = m;
}
static void check (void)
{
	int live = owned + hasCopy;
	vp_assert (vp_live == live, "owned frames are allocated once and freed");
	vp_assert (data.numFrames == n && data.numChannels == ch, "number of frames and channels");
	vp_assert (n == 0 ? data.frames == NULL : owned ? data.frames != buf [0] && data.frames != buf [1] && data.frames : data.frames == borrowed, "frames are borrowed or owned");
	for (int i = 0; i < n * ch; i ++)
		vp_assert (data.frames [i] == content [i], "frames are the ones set");
	for (int b = 0; b < 2; b ++)
		for (int i = 0; i < MAX; i ++)
			vp_assert (buf [b] [i] == keep [b] [i], "borrowed frames are not written");
	BKDataState * s = data.stateList;
	for (int i = 0; i < num; i ++) {
		vp_assert (s == & user [list [i]] && s -> data == & data, "data knows its users");
		s = s -> nextState;
	}
	vp_assert (s == NULL, "data knows only its users");
	for (int k = 0; k < USERS; k ++) {
		int in = 0;
		for (int i = 0; i < num; i ++)
			in |= list [i] == k;
		vp_assert (in || user [k].data == NULL, "others do not use the data");
		for (int e = 0; e < 2; e ++)
			vp_assert (calls [k] [e] == expect [k] [e], "each user is told once about a change");
	}
}
static void op (int code)
{
	int count = code % 10, c = code / 10 % 10, b = code / 100 % 10;
	code /= 1000;
	busy = code != 6 && code != 7 && code != 11;
	switch (code) {
		case 0: /* copied */
		case 1: /* borrowed */
			vp_assert (BKDataSetFrames (& data, buf [b], count, c, code == 0) == 0, "frames are set");
			for (int i = 0; i < count * c; i ++)
				content [i] = buf [b] [i];
			n = count, ch = c, owned = code == 0, borrowed = buf [b];
			tell (0);
			break;
		case 2: /* the own frames with other channels */
			vp_assert (BKDataSetFrames (& data, data.frames, count, c, 0) == 0, "frames are set");
			n = count, ch = c;
			tell (0);
			break;
		case 3: /* part of the own frames */
			vp_assert (BKDataSetFrames (& data, data.frames + 1, n - 1, 1, 1) == 0, "frames are set");
			n = n - 1, ch = 1, owned = 1;
			for (int i = 0; i < n; i ++)
				content [i] = content [i + 1];
			tell (0);
			break;
		case 4: /* converted */
			vp_assert (BKDataSetData (& data, buf [b], count * c * 2, c, BK_16_BIT_SIGNED) == 0, "frames are converted");
			for (int i = 0; i < count * c; i ++)
				content [i] = buf [b] [i];
			n = count, ch = c, owned = 1;
			tell (0);
			break;
		case 5:
			vp_assert (BKDataNormalize (& data) == 0, "is normalised");
			owned = 1;
			for (int i = 0; i < n * ch; i ++)
				content [i] = data.frames [i];
			tell (0);
			break;
		case 6:
			vp_assert (BKDataStateSetData (& user [b], & data) == 0, "user is added");
			for (int i = 0; i < num; i ++)
				if (list [i] == b) {
					for (; i < num - 1; i ++)
						list [i] = list [i + 1];
					num --;
				}
			list [num ++] = b;
			break;
		case 7:
			vp_assert (BKDataStateSetData (& user [b], NULL) == 0, "user is removed");
			for (int i = 0; i < num; i ++)
				if (list [i] == b) {
					for (; i < num - 1; i ++)
						list [i] = list [i + 1];
					num --;
				}
			break;
		case 8:
			BKDispose (& data);
			tell (1);
			n = ch = owned = 0;
			check ();
			BKDispose (& data);
			vp_assert (BKDataInit (& data) == 0, "can be used again");
			break;
		case 9:
			if (hasCopy)
				BKDispose (& copy);
			hasCopy = 0;
			vp_assert (vp_live == owned, "a copy is disposed");
			vp_assert (BKDataInitCopy (& copy, & data) == 0, "is copied");
			hasCopy = n != 0;
			vp_assert (copy.numFrames == n && copy.numChannels == ch && copy.stateList == NULL && (n == 0 || copy.frames != data.frames), "copy has its own frames and no users");
			for (int i = 0; i < n * ch; i ++)
				vp_assert (copy.frames [i] == content [i], "copy has the same frames");
			if (b) /* continue with the copy as it would be the original */
				vp_assert (BKDataSetFrames (& copy, buf [0], 2, 1, 1) == 0, "a copy is independent");
			hasCopy |= b;
			break;
		case 10: {
			BKUInt k = vp_any_uint ("frames"), l = vp_any_uint ("channels");
			vp_assume (k < 2 || l < 1 || l > BK_MAX_CHANNELS);
			vp_assert (BKDataSetFrames (& data, buf [b], k, l, c) < 0, "invalid numbers are refused");
			break;
		}
		case 11:
			failing [b] = count;
			break;
		case 12:
			BKDataDetach (& data);
			tell (1);
			break;
	}
	/* owned frames do not depend on the ones given */
	if (owned || n == 0)
		for (int k = 0; k < 2; k ++)
			for (int i = 0; i < MAX; i ++)
				keep [k] [i] = buf [k] [i] = vp_int ("frame", -32768, 32767);
}
int main (void)
{
	int ops [] = { H_OPS };
	for (int b = 0; b < 2; b ++)
		for (int i = 0; i < MAX; i ++)
			keep [b] [i] = buf [b] [i] = vp_int ("frame", -32768, 32767);
	vp_assert (BKDataInit (& data) == 0, "initialised");
	for (int k = 0; k < USERS; k ++) {
		user [k].callback = callback;
		user [k].callbackUserInfo = & user [k];
	}
	check ();
	for (int i = 0; i < sizeof (ops) / sizeof (ops [0]); i ++) {
		op (ops [i]);
		check ();
	}
	busy = 1;
	BKDispose (& data);
	tell (1);
	if (hasCopy)
		BKDispose (& copy);
	n = ch = owned = hasCopy = 0;
	check ();
	vp_reach ();
	return 0;
}
#endif
