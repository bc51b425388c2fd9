/* Seconds to frames for all sample rates, fixed durations */
#include "vp.h"
#ifdef VP_TIME32
#include <stdint.h>
#undef INTPTR_MAX
#define INTPTR_MAX INT32_MAX
#endif
#include "BKContext.h"
#include "BKTime.h"

int main (void)
{
	static BKContext ctx;
	ctx.sampleRate = vp_uint ("rate", BK_MIN_SAMPLE_RATE, BK_MAX_SAMPLE_RATE);
	BKTime t = BKTimeFromSeconds (& ctx, (double) H_NUM / H_DEN);
	int64_t v = (int64_t) BKTimeGetTime (t) * (1 << 20) + BKTimeGetFrac (t);
	int64_t want = (int64_t) ctx.sampleRate * (1 << 20) * H_NUM;
	/* v == want / H_DEN up to one unit of the fraction */
	vp_assert (v * H_DEN <= want + H_DEN && v * H_DEN >= want - H_DEN, "seconds are converted exactly to one 2^-20th of a frame");
	vp_reach ();
	return 0;
}
