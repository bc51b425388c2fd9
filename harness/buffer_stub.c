/* Frame accounting of BKBuffer.c without the frames (BKBuffer.c itself is decided by B01..B04) */
#include "BlipKit.h"
static BKBufferPulse const stub_pulse;
BKBufferPulse const * const BKBufferPulseKernels [] = { & stub_pulse, & stub_pulse };
BKInt BKBufferInit (BKBuffer * buf) { buf -> time = 0; buf -> capacity = 0; buf -> accum = 0; buf -> pulse = & stub_pulse; return 0; }
void BKBufferDispose (BKBuffer * buf) { (void) buf; }
void BKBufferClear (BKBuffer * buf) { buf -> time = 0; buf -> capacity = 0; buf -> accum = 0; }
int stub_reads [BK_MAX_CHANNELS];
BKFrame * stub_base;
BKUInt stub_interlace;
int stub_num;
BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt interlace)
{
	BKUInt n = BKBufferSize (buf);
	if (size > n)
		size = n;
	buf -> capacity -= size;
	buf -> time -= size << BK_FINT20_SHIFT;
	if (stub_base && stub_num < BK_MAX_CHANNELS)
		stub_reads [stub_num] = (int) (outFrames - stub_base);
	stub_num ++;
	stub_interlace = interlace;
	return size;
}
