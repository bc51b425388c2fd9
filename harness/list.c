/* Linking of clocks, units and dividers: every sequence of attach/detach keeps the lists in the order of a reference */
#include "vp.h"
#include "BlipKit.h"

#define N 3
static BKContext ctx [2];

/* reference: where each object is, and the order */
static int where [N] = { -1, -1, -1 };
static int len [2];
static int list [2][N];

static void ref_insert (int c, int pos, int i)
{
	for (int k = N - 1; k > 0; k --)
		if (k > pos)
			list [c][k] = list [c][k - 1];
	for (int k = 0; k < N; k ++)
		if (k == pos)
			list [c][k] = i;
	len [c] ++;
	where [i] = c;
}

static void ref_remove (int i)
{
	int c = where [i];
	if (c < 0)
		return;
	int hit = 0;
	for (int k = 0; k < N; k ++) {
		if (k < len [c] && list [c][k] == i)
			hit = 1;
		if (hit && k + 1 < N)
			list [c][k] = list [c][k + 1];
	}
	len [c] --;
	where [i] = -1;
}

static int ref_pos (int c, int i)
{
	int p = -1;
	for (int k = 0; k < N; k ++)
		if (k < len [c] && list [c][k] == i)
			p = k;
	return p;
}

#if H_LIST == 0
static BKClock obj0, obj1, obj2; /* not an array: the solver keeps them apart */
#define TYPE BKClock
#define FIRST(c) ctx [c].firstClock
#define LAST(c) ctx [c].lastClock
#define NEXT nextClock
#define PREV prevClock
#elif H_LIST == 1
static BKUnit obj0, obj1, obj2; /* not an array: the solver keeps them apart */
#define TYPE BKUnit
#define FIRST(c) ctx [c].firstUnit
#define LAST(c) ctx [c].lastUnit
#define NEXT nextUnit
#define PREV prevUnit
#else
static BKDivider obj0, obj1, obj2; /* not an array: the solver keeps them apart */
#define TYPE BKDivider
#define FIRST(c) ctx [c].beatDividers.firstDivider
#define LAST(c) ctx [c].beatDividers.lastDivider
#define NEXT nextDivider
#define PREV prevDivider
#endif

#define OBJ(i) ((i) == 0 ? & obj0 : (i) == 1 ? & obj1 : & obj2)

static void verify (void)
{
	for (int c = 0; c < 2; c ++) {
		TYPE * o = FIRST (c);
		for (int k = 0; k < N; k ++) {
			if (k < len [c]) {
				vp_assert (o == OBJ (list [c][k]), "exactly the attached objects are linked, in order");
				o = o -> NEXT;
			}
		}
		vp_assert (o == NULL, "no other object is linked");
		o = LAST (c);
		for (int k = N - 1; k >= 0; k --) {
			if (k < len [c]) {
				vp_assert (o == OBJ (list [c][k]), "exactly the attached objects are linked, backwards");
				o = o -> PREV;
			}
		}
		vp_assert (o == NULL, "no other object is linked backwards");
	}
#if H_LIST < 2
	for (int i = 0; i < N; i ++)
		vp_assert (OBJ (i) -> ctx == (where [i] < 0 ? NULL : & ctx [where [i]]), "objects know their context");
#endif
}


static BKInt attach (TYPE * o, BKContext * x, TYPE * before)
{
#if H_LIST == 0
	return BKClockAttach (o, x, before);
#elif H_LIST == 1
	return BKUnitAttach (o, x);
#else
	return BKDividerAttachToGroup (o, & x -> beatDividers);
#endif
}

static void detach (TYPE * o)
{
#if H_LIST == 0
	BKClockDetach (o);
#elif H_LIST == 1
	BKUnitDetach (o);
#else
	BKDividerDetach (o);
#endif
}

int main (void)
{
	/* some are attached, one of them is detached again */
	for (int i = 0; i < H_FIXED; i ++) {
		vp_assert (attach (OBJ (i), & ctx [0], NULL) == 0, "detached objects can be attached");
		ref_insert (0, len [0], i);
	}
	for (int i = H_FIXED; i < H_FIXED + H_OTHER; i ++) {
		vp_assert (attach (OBJ (i), & ctx [1], NULL) == 0, "detached objects can be attached");
		ref_insert (1, len [1], i);
	}
#if H_DETACH >= 0
	detach (OBJ (H_DETACH));
	ref_remove (H_DETACH);
	verify ();
#endif
	/* any operation on any of them */
	int sel = vp_int ("object", 0, N - 1), c = vp_int ("context", 0, 1);
	int op = vp_int ("op", 0, H_LIST == 0 ? 5 : 1);
	BKInt r = 0, want = 0;
	for (int i = 0; i < N; i ++) {
		if (i != sel)
			continue;
		if (op == 1) {
			detach (OBJ (i));
			ref_remove (i);
			continue;
		}
		int pos = 0;
		want = where [i] < 0 ? 0 : BK_INVALID_STATE;
		for (int x = 0; x < 2; x ++) {
			if (x != c)
				continue;
			if (op == 0) {
				r   = attach (OBJ (i), & ctx [x], NULL);
				pos = len [x];
			}
#if H_LIST == 0
			else if (op == 2) {
				r = attach (OBJ (i), & ctx [x], BK_FIRST_ELEMENT_PTR);
			}
			else {
				for (int b = 0; b < N; b ++) {
					if (op != 3 + b)
						continue;
					r   = attach (OBJ (i), & ctx [x], OBJ (b));
					pos = ref_pos (x, b);
					if (want == 0 && pos < 0)
						want = BK_INVALID_VALUE;
				}
			}
#endif
			vp_assert (r == want, "objects can be attached once, and only next to others of the same context");
			if (want == 0)
				ref_insert (x, pos, i);
		}
	}
	verify ();
	/* everything can be detached */
	for (int i = 0; i < N; i ++)
		detach (OBJ (i));
	len [0] = len [1] = 0;
	for (int i = 0; i < N; i ++)
		where [i] = -1;
	verify ();
	vp_reach ();
	return 0;
}
