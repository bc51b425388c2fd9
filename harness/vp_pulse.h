/* Pulses are recorded instead of added to the frames (what a pulse does to the frames is decided by B01..B04) */
#ifndef VP_PULSE_H
#define VP_PULSE_H
#define BKBufferAddPulse vp_real_BKBufferAddPulse
#include "BKBuffer.h"
#undef BKBufferAddPulse
extern void vp_pulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse);
static inline BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
{
	vp_pulse (buf, time, pulse);
	return 0;
}
#endif
