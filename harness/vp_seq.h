/* Envelopes live in a typed pool, so that their steps stay constant for the solver */
#ifndef VP_SEQ_H
#define VP_SEQ_H
#include <stdlib.h>
#include <string.h>
#include "BKSequence.h"
extern void * vp_malloc (size_t size);
extern void vp_free (void * p);
static inline void vp_memcpy (void * to, void const * from, size_t size)
{
	if (size == sizeof (BKSequence))
		* (BKSequence *) to = * (BKSequence const *) from;
	else
		for (size_t i = 0; i < size / sizeof (BKSequencePhase); i ++)
			((BKSequencePhase *) to) [i] = ((BKSequencePhase const *) from) [i];
}
static inline void vp_memset (void * to, size_t size)
{
	if (size == sizeof (BKSequence)) {
		BKSequence zero = { 0 };
		* (BKSequence *) to = zero;
	}
	else
		(memset) (to, 0, size);
}
#define malloc vp_malloc
#define free vp_free
#define memcpy(to, from, size) vp_memcpy (to, from, size)
#define memset(to, v, size) vp_memset (to, size)
#endif
