/* memset of whole structures as assignments, so that what is constant stays constant for the solver */
#ifndef VP_TRACK_H
#define VP_TRACK_H
#include "vp_pulse.h"
#include <stdlib.h>
#include <string.h>
#include "BKTrack.h"
#define VP_ZERO(type) if (size == sizeof (type)) { type zero = { 0 }; * (type *) to = zero; return; }
static inline void vp_memset (void * to, int v, size_t size)
{
	if (v == 0) {
		if (size == sizeof (BKTrack) - offsetof (BKTrack, arpeggioDivider)) {
			BKTrack zero = { 0 };
			BKTrack * t = (BKTrack *) ((char *) to - offsetof (BKTrack, arpeggioDivider));
			zero.unit = t -> unit;
			zero.flags = t -> flags;
			zero.divider = t -> divider;
			* t = zero;
			return;
		}
		VP_ZERO (BKTrack)
		VP_ZERO (BKInstrument)
		VP_ZERO (BKInstrumentState)
		VP_ZERO (BKSlideState)
		VP_ZERO (BKIntervalState)
		VP_ZERO (BKDivider)
		VP_ZERO (BKCallbackInfo)
	}
	(memset) (to, v, size);
}
static inline void vp_memcpy (void * to, void const * from, size_t size)
{
	if (size % sizeof (BKInt) == 0 && size <= 12 * sizeof (BKInt))
		for (size_t i = 0; i < 12 && i < size / sizeof (BKInt); i ++)
			((BKInt *) to) [i] = ((BKInt const *) from) [i];
	else
		(memcpy) (to, from, size);
}
#define memcpy(to, from, size) vp_memcpy (to, from, size)
#define memset(to, v, size) vp_memset (to, v, size)
#endif
