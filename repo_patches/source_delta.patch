From a622ece600826f01a745904bb068bd7f6c6fa914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 01/58] fix: keep full amplitude change in BKBufferAddPulse

The difference between two amplitudes does not fit into 16 bits. A change from
e.g. -32767 to 32767 was truncated and left a permanent offset in the mix.
---
 src/BKBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 9a9fa94..5b33bc3 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -80,7 +80,7 @@ extern void BKBufferDispose (BKBuffer * buf);
 /**
  * Add pulse at time offset
  */
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse);
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse);
 
 /**
  * Add single frame at time offset
@@ -147,7 +147,7 @@ BK_INLINE BKInt BKBufferSize (BKBuffer const * buf)
 	return buf -> time >> BK_FINT20_SHIFT;
 }
 
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-- 
2.43.0


From dd629ad56067061bebde1783c6ab677b3cc0e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 02/58] fix: keep frame fraction when shifting buffer time

Ending a period which is not a whole number of frames dropped the fraction, so
following periods were mixed too early and frames were lost.
---
 src/BKBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 5b33bc3..e4266a9 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -131,7 +131,8 @@ BK_INLINE BKInt BKBufferShift (BKBuffer * buf, BKFUInt20 time)
 {
 	BKFUInt20 maxShift;
 
-	maxShift = buf -> capacity << BK_FINT20_SHIFT;
+	// keep frame fraction
+	maxShift = (buf -> capacity << BK_FINT20_SHIFT) | BK_FINT20_FRAC;
 
 	if (buf -> time + time > maxShift) {
 		time = maxShift - buf -> time;
-- 
2.43.0


From bb7bd3a4b3da24eba953ccc9de29b350b233c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 03/58] fix: only read finished frames from buffer

Frames after the ended time are still being mixed; reading them moved the buffer
time below zero and later pulses out of the buffer.
---
 src/BKBuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index ec43219..0e94956 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -135,8 +135,8 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 	BKUInt  bufferSize;
 	BKInt   amp;
 
-	interlace = BKMax (interlace, 1);          // step must be at least 1
-	size      = BKMin (size, buf -> capacity); // can only read available frames
+	interlace = BKMax (interlace, 1);            // step must be at least 1
+	size      = BKMin (size, BKBufferSize (buf)); // can only read finished frames
 
 	while (frames < & buf -> frames [size]) {
 		accum -= (accum >> (BK_INT_SHIFT - BK_HIGH_PASS_SHIFT));  // apply high pass filter
-- 
2.43.0


From 5df8939974f0d58450851546852ba86f4f9488b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 04/58] fix: make 64 bit times from more than 2047 samples

The shift was done in 32 bits and dropped the upper bits.
---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 4076bdf..771c74d 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -38,7 +38,7 @@
 
 BK_INLINE BKTime BKTimeMake (BKInt samples, BKFUInt20 frac)
 {
-	return (samples << BK_FINT20_SHIFT) + frac;
+	return ((BKTime) samples << BK_FINT20_SHIFT) + frac;
 }
 
 BK_INLINE BKInt BKTimeGetTime (BKTime a)
-- 
2.43.0


From 03a37fe1771c312770868ac208483f4189d3837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 05/58] fix: compare time with periods of 2048 or more samples

The unsigned period was compared as a negative number.
---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 771c74d..fa845c2 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -88,7 +88,7 @@ BK_INLINE BKInt BKTimeIsGreater (BKTime a, BKTime b)
 
 BK_INLINE BKInt BKTimeIsGreaterFUInt20 (BKTime a, BKFUInt20 b)
 {
-	return a > (BKInt) b;
+	return a > (BKTime) b;
 }
 
 BK_INLINE BKInt BKTimeIsGreaterEqual (BKTime a, BKTime b)
-- 
2.43.0


From 352020394921f8b049d9f940cea96e3749f68c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 06/58] fix: do not read beyond status names for other values

---
 src/BKBase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBase.c b/src/BKBase.c
index 5fa987d..52b82e5 100644
--- a/src/BKBase.c
+++ b/src/BKBase.c
@@ -48,7 +48,7 @@ char const * BKStatusGetName (BKEnum status)
 {
 	char const * name = "Unknown status";
 
-	if (status & BK_RETURN_TYPE && status <= BK_OTHER_ERROR) {
+	if (status > (BKEnum) BK_RETURN_TYPE && status <= (BKEnum) BK_OTHER_ERROR) {
 		name = statusNames [BK_STATUS_IDX (status)];
 	}
 
-- 
2.43.0


From 3e1c7d013c6b877005efe7c12051f135b43e85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 07/58] fix: do not loop forever when disposing clock with
 dividers

---
 src/BKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 3729e5f..0b01c7e 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -79,7 +79,7 @@ static void BKClockDisposeObject (BKClock * clock)
 	BKClockDetach (clock);
 
 	for (BKDivider * divider = clock -> dividers.firstDivider; divider; divider = nextDivider) {
-		nextDivider = divider;
+		nextDivider = divider -> nextDivider;
 		BKDividerDetach (divider);
 	}
 }
-- 
2.43.0


From 845a54fd0081a391c76001a99b79ccf731f71981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 08/58] fix: do not half attach clock before clock of other
 context

---
 src/BKClock.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 0b01c7e..835b077 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -87,12 +87,17 @@ static void BKClockDisposeObject (BKClock * clock)
 BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 {
 	if (clock -> ctx == NULL) {
-		clock -> ctx = ctx;
-		BKClockReset (clock);
-
 		if (beforeClock == BK_FIRST_ELEMENT_PTR)
 			beforeClock = ctx -> firstClock;
 
+		// previous clock must be in same context
+		if (beforeClock && beforeClock -> ctx != ctx) {
+			return BK_INVALID_VALUE;
+		}
+
+		clock -> ctx = ctx;
+		BKClockReset (clock);
+
 		if (beforeClock == NULL) {
 			clock -> prevClock = ctx -> lastClock;
 			clock -> nextClock = NULL;
@@ -107,8 +112,7 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 				ctx -> lastClock  = clock;
 			}
 		}
-		// previous clock must be in same context
-		else if (beforeClock -> ctx == ctx) {
+		else {
 			clock -> prevClock = beforeClock -> prevClock;
 			clock -> nextClock = beforeClock;
 
@@ -121,9 +125,6 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 
 			beforeClock -> prevClock = clock;
 		}
-		else {
-			return BK_INVALID_VALUE;
-		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From 9b77988cb94229a6075fe383df5f4729e5075745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 09/58] fix: keep period if clock is reset by its own callback

---
 src/BKClock.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 835b077..ab73d55 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -215,13 +215,14 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 BKInt BKClockTick (BKClock * clock)
 {
 	BKInt result = 0;
+	BKTime time = clock -> time;
 	BKCallbackInfo info;
 
 	if (BKTimeIsEqual (clock -> time, clock -> nextTime)) {
 		memset (& info, 0, sizeof (BKCallbackInfo));
 		info.object   = clock;
 		info.event    = BK_EVENT_CLOCK;
-		info.nextTime = clock -> time;
+		info.nextTime = time;
 
 		if (clock -> callback.func)
 			result = clock -> callback.func (& info, clock -> callback.userInfo);
@@ -230,15 +231,13 @@ BKInt BKClockTick (BKClock * clock)
 
 		clock -> counter ++;
 
-		// set next time and new period from callback
-		if (BKTimeIsGreater (info.nextTime, clock -> time)) {
-			clock -> period   = BKTimeSub (info.nextTime, clock -> time);
-			clock -> nextTime = info.nextTime;
-		}
-		// set next period
-		else {
-			clock -> nextTime = BKTimeAdd (clock -> time, clock -> period);
+		// set new period from callback
+		if (BKTimeIsGreater (info.nextTime, time)) {
+			clock -> period = BKTimeSub (info.nextTime, time);
 		}
+
+		// set next time; clock time may be reset by callback
+		clock -> nextTime = BKTimeAdd (clock -> time, clock -> period);
 	}
 
 	return result;
-- 
2.43.0


From 02a3eebcb43a00b1c3860f5277965e4a4cb300fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 10/58] fix: advance clocks attached or reset later than the
 context

---
 src/BKContext.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 81ea857..bd62547 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -339,28 +339,33 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * error)
 {
 	BKClock * clock;
-	BKTime    nextTime;
 	BKTime    deltaTime;
+	BKTime    minDelta;
 	BKFUInt20 period;
 
 	do {
-		nextTime = BK_TIME_MAX;
 		ctx -> flags &= ~BK_CONTEXT_FLAG_CLOCK_RESET; // clear clock reset flag
 
-		for (clock = clocks; clock; clock = clock -> nextClock) {
+		for (clock = clocks; clock; clock = clock -> nextClock)
 			BKClockTick (clock);
 
-			// get next time to tick
-			if (BKTimeIsLess (clock -> nextTime, nextTime))
-				nextTime = clock -> nextTime;
-		}
+		// callbacks may have attached or detached clocks
+		clocks = ctx -> firstClock;
 	}
 	while (ctx -> flags & BK_CONTEXT_FLAG_CLOCK_RESET);
 
-	deltaTime = BKTimeSub (nextTime, ctx -> currentTime);
+	// get time until next tick; each clock has its own time base
+	minDelta = BK_TIME_MAX;
+
+	for (clock = clocks; clock; clock = clock -> nextClock) {
+		deltaTime = BKTimeSub (clock -> nextTime, clock -> time);
+
+		if (BKTimeIsLess (deltaTime, minDelta))
+			minDelta = deltaTime;
+	}
 
-	if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
-		period = BKTimeGetFUInt20 (deltaTime);
+	if (BKTimeIsLessFUInt20 (minDelta, BK_INT_MAX / 3)) {
+		period = BKTimeGetFUInt20 (minDelta);
 	}
 	else {
 		period = BK_INT_MAX / 3;
-- 
2.43.0


From 5bab309189c4af9bf578b104bbf423fcf3a92f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 11/58] fix: advance context time without clocks

---
 src/BKContext.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index bd62547..a64b9c6 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -408,6 +408,12 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 		// run units
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 			unit -> run (unit, endTime);
+
+		// advance time without clocks
+		if (ctx -> deltaTime < endTime) {
+			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
+			ctx -> deltaTime   = endTime;
+		}
 	}
 
 	return endTime;
-- 
2.43.0


From 06ab708fe30613af7eaa8054b16257cdbb567dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 12/58] fix: generate all frames up to the given time

---
 src/BKContext.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index a64b9c6..9a157f2 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -301,11 +301,15 @@ BKInt BKContextGenerate (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write) (BKFrame inFrames [], BKUInt size, void * info), void * info)
 {
 	BKInt numFrames = 0;
+	BKTime time;
 	BKTime deltaTime;
 	BKFUInt20 period;
 
-	while (BKTimeIsLess (ctx -> currentTime, endTime)) {
-		deltaTime = BKTimeSub (endTime, ctx -> currentTime);
+	// the clocks may already be ahead of the generated time
+	time = BKTimeSubFUInt20 (ctx -> currentTime, ctx -> deltaTime);
+
+	while (BKTimeIsLess (time, endTime)) {
+		deltaTime = BKTimeSub (endTime, time);
 
 		if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 			period = BKTimeGetFUInt20 (deltaTime);
@@ -315,9 +319,10 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 		}
 
 		BKContextEnd (ctx, period);
+		time = BKTimeSubFUInt20 (ctx -> currentTime, ctx -> deltaTime);
 
-		// write frames if buffer filled or end time is reached
-		if (BKBufferSize (& ctx -> channels [0]) >= BK_MAX_GENERATE_SAMPLES || BKTimeIsGreaterEqual (ctx -> currentTime, endTime)) {
+		// write frames if buffer filled or as long as there are any if end time is reached
+		while (BKContextSize (ctx) >= BK_MAX_GENERATE_SAMPLES || (BKContextSize (ctx) > 0 && BKTimeIsGreaterEqual (time, endTime))) {
 			BKInt size;
 			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
-- 
2.43.0


From 1cd51f06bf9e363beef499a7969f973b8d86d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 13/58] fix: detach dividers when disposing context

---
 src/BKContext.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 9a157f2..2ab4b51 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -112,6 +112,12 @@ static void BKContextDisposeObject (BKContext * ctx)
 		BKUnitDetach (unit);
 	}
 
+	while (ctx -> effectDividers.firstDivider)
+		BKDividerDetach (ctx -> effectDividers.firstDivider);
+
+	while (ctx -> beatDividers.firstDivider)
+		BKDividerDetach (ctx -> beatDividers.firstDivider);
+
 	for (BKClock * clock = ctx -> firstClock; clock; clock = nextClock) {
 		nextClock = clock -> nextClock;
 		BKClockDetach (clock);
-- 
2.43.0


From 05ccd21cdd58805885579cd8dd6033cd4b64b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 14/58] fix: report divider already attached

---
 src/BKContext.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 2ab4b51..391d598 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -523,7 +523,9 @@ BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
 	if (group) {
 		// Check if required values set
 		if (BKTimeIsGreater (clock -> period, BK_TIME_ZERO)) {
-			BKDividerAttachToGroup (divider, group);
+			if (BKDividerAttachToGroup (divider, group) < 0)
+				return BK_INVALID_STATE;
+
 			BKClockAttach (clock, ctx, ctx -> firstClock);
 		}
 		else {
-- 
2.43.0


From 147e50cef8ad57027746591b4862db04851dde98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 15/58] fix: report and clean up when context channels can not
 be allocated

---
 src/BKContext.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 391d598..0ccfdac 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -82,7 +82,8 @@ BKInt BKContextInit (BKContext * ctx, BKUInt numChannels, BKUInt sampleRate)
 	}
 
 	if (BKContextInitGeneric (ctx, numChannels, sampleRate) < 0) {
-		return -1;
+		BKDispose (ctx);
+		return BK_ALLOCATION_ERROR;
 	}
 
 	return 0;
@@ -95,7 +96,9 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 	}
 
 	if (BKContextInitGeneric (*outCtx, numChannels, sampleRate) < 0) {
-		return -1;
+		BKDispose (*outCtx);
+		*outCtx = NULL;
+		return BK_ALLOCATION_ERROR;
 	}
 
 	return 0;
@@ -123,9 +126,11 @@ static void BKContextDisposeObject (BKContext * ctx)
 		BKClockDetach (clock);
 	}
 
-	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
-		channel = & ctx -> channels [i];
-		BKBufferDispose (channel);
+	if (ctx -> channels) {
+		for (BKInt i = 0; i < ctx -> numChannels; i ++) {
+			channel = & ctx -> channels [i];
+			BKBufferDispose (channel);
+		}
 	}
 
 	free (ctx -> channels);
-- 
2.43.0


From a0a6b178be8272b5374d686b335631a57ee17363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 16/58] fix: use result of sample callback

BKUnitCallSampleCallback always returned 0, so a sample with a callback was never
repeated although the callback decides it.
---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 85f5d0b..aa1aa15 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -223,7 +223,7 @@ static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
 		info.object = unit;
 		info.event  = event;
 
-		unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
+		result = unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
 	}
 
 	return result;
-- 
2.43.0


From 038cd2dfe31588705abfdca0d24ce8181e4525e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 17/58] fix: get pointers of unit instead of setting them

BKGetPtr with a unit called BKUnitSetPtr.
---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index aa1aa15..4fcde8d 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1273,7 +1273,7 @@ static BKInt BKUnitSetPtrSize (BKUnit * unit, BKEnum attr, void * ptr, BKSize si
 
 static BKInt BKUnitGetPtrSize (BKUnit * unit, BKEnum attr, void * outPtr, BKSize size)
 {
-	return BKUnitSetPtr (unit, attr, outPtr);
+	return BKUnitGetPtr (unit, attr, outPtr);
 }
 
 BKClass BKUnitClass =
-- 
2.43.0


From a994974884101b8af181d67f64e8ac2a1bb12acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 18/58] fix: do not start forward sample range at its end

Setting a range of a sample at its begin moved the phase to the last frame even
if it is played forward, and to -1 for an empty range.
---
 src/BKUnit.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 4fcde8d..1294798 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -348,13 +348,14 @@ static void BKUnitUpdateSampleRange (BKUnit * unit, BKInt offset, BKInt end)
 
 	// if not playing yet
 	if (unit -> sample.repeatCount == 0) {
-		// set sample phase to begin if sample phase is at end
-		if (unit -> sample.offset < unit -> sample.end && unit -> phase.phase == unit -> sample.length - 1) {
-			newPhase = 0;
+		if (offset < end) {
+			// set sample phase to begin if sample phase is at end
+			if (unit -> phase.phase == unit -> sample.length - 1)
+				newPhase = 0;
 		}
 		// set sample phase to end if sample phase is at begin
-		else if (unit -> phase.phase == 0) {
-			newPhase = unit -> sample.length - 1;
+		else if (unit -> phase.phase == 0 && newLength > 0) {
+			newPhase = newLength - 1;
 		}
 	}
 
-- 
2.43.0


From 9cac39c7698241ea841e222644cc121faaf1b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 19/58] fix: keep sample sustain range within sample range

The sustain range is relative to the sample range but was only limited to the
number of frames of the data, so frames behind the range and behind the data
were played. Jumping to the release phase left the range too if the sustain
range reaches to its end.
---
 src/BKUnit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 1294798..2e237e8 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -371,7 +371,8 @@ static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt e
 		return;
 	}
 
-	sampleLength = unit -> sample.dataState.data -> numFrames;
+	// relative to range
+	sampleLength = unit -> sample.length;
 
 	if (offset < 0) {
 		offset += sampleLength + 1;
@@ -555,7 +556,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				if (value) {
 					if ((unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
 						if (unit -> sample.period > 0) {
-							unit -> phase.phase = unit -> sample.sustainEnd;
+							unit -> phase.phase = BKMin (unit -> sample.sustainEnd, unit -> sample.length - 1);
 						}
 						else {
 							unit -> phase.phase = BKMax (0, (BKInt) unit -> sample.sustainOffset - 1);
-- 
2.43.0


From ecd50034897c08eaf82a7a99f3cab0c9581727e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 20/58] fix: stay within sample range when reversing at its
 begin

The phase was set to the length of the range when wrapping exactly at its begin,
which is the frame behind the end of the range.
---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 2e237e8..be5eeee 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1078,7 +1078,7 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 				unit -> phase.phase = unit -> sample.length - unit -> phase.phase - 1;
 			}
 			else if (resetDir == -1) {
-				unit -> phase.phase = unit -> sample.length - unit -> phase.phase;
+				unit -> phase.phase = unit -> sample.length - unit -> phase.phase - 1;
 			}
 			mode = -resetDir;
 			break;
-- 
2.43.0


From f9a5125a06e842a10cecf3440b26538737a74a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 21/58] fix: sustain samples up to the end of their range

A sustain range which ends with the sample, or which is left by more frames at once
than there are behind it, was never repeated since the end of the sample was
checked first.
---
 src/BKUnit.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index be5eeee..daba1ab 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1155,13 +1155,6 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 		unit -> phase.phase += (unit -> sample.timeFrac >> BK_FINT20_SHIFT) - (lastTime >> BK_FINT20_SHIFT);
 		unit -> sample.timeFrac &= BK_FINT20_FRAC;
 
-		// check phase boundary
-		if ((BKInt) unit -> phase.phase < 0 || (BKInt) unit -> phase.phase >= (BKInt) unit -> sample.length) {
-			if (BKUnitResetSample (unit) == 1) {
-				break;
-			}
-		}
-
 		// check for sustain range boundary
 		if (checkBounds) {
 			if (unit -> sample.period > 0) {
@@ -1175,6 +1168,13 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 				}
 			}
 		}
+
+		// check phase boundary
+		if ((BKInt) unit -> phase.phase < 0 || (BKInt) unit -> phase.phase >= (BKInt) unit -> sample.length) {
+			if (BKUnitResetSample (unit) == 1) {
+				break;
+			}
+		}
 	}
 
 	return time;
-- 
2.43.0


From 035f05b7182b6b7f32dec89be3f09f3605181033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 22/58] fix: play samples without waveform period

Samples only depend on BK_SAMPLE_PERIOD, but a unit with a sample was silent as long
as BK_PERIOD was not set too.
---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index daba1ab..d098423 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1186,7 +1186,7 @@ BKInt BKUnitRun (BKUnit * unit, BKFUInt20 endTime)
 	BKFUInt20   time = unit -> time;
 	BKBuffer  * channel;
 
-	if (unit -> period) {
+	if (unit -> period || unit -> waveform == BK_SAMPLE) {
 		switch (unit -> waveform) {
 			case BK_SQUARE:
 			case BK_TRIANGLE:
-- 
2.43.0


From 0b1afc64a69f2f2984deef513ce342d6e744ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 23/58] fix: do not keep frames of changed or disposed data

A unit kept playing the frames of data which was freed or replaced when the unit was
detached from its context, when the new frames did not fit the unit, or when unsetting
the data with the attribute (BK_WAVEFORM or BK_SAMPLE) the unit does not use. Unsetting a
custom waveform reported an error and stayed registered for changes.
---
 src/BKUnit.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index d098423..33351ad 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -79,10 +79,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 {
 	BKContext * ctx = unit -> ctx;
 
-	if (ctx == NULL) {
-		return BK_INVALID_STATE;
-	}
-
 	switch (type) {
 		// set data as custom waveform
 		case BK_WAVEFORM: {
@@ -106,7 +102,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 				unit -> sample.offset = 0;
 				unit -> sample.end    = 0;
 				unit -> sample.frames = NULL;
-				return -1;
 			}
 
 			break;
@@ -116,7 +111,7 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 			if (data && event != BK_DATA_STATE_EVENT_DISPOSE) {
 				// number of channels must eighter be 1 or equal to
 				// number of context channels
-				if (data -> numChannels != 1 && data -> numChannels != ctx -> numChannels) {
+				if (ctx && data -> numChannels != 1 && data -> numChannels != ctx -> numChannels) {
 					return BK_INVALID_NUM_CHANNELS;
 				}
 				else if (data -> numFrames < 2) {
@@ -171,7 +166,19 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 {
 	BKInt res;
 
-	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
+	if (unit -> ctx == NULL && data) {
+		res = BK_INVALID_STATE;
+	}
+	// only unset data of same type
+	else if (data == NULL && type == BK_WAVEFORM && unit -> waveform == BK_SAMPLE) {
+		return 0;
+	}
+	else if (data == NULL && type == BK_SAMPLE && unit -> waveform == BK_CUSTOM) {
+		return 0;
+	}
+	else {
+		res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
+	}
 
 	if (res == 0) {
 		BKDataStateSetData (& unit -> sample.dataState, data);
@@ -193,6 +200,7 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 {
 	BKEnum type;
+	BKInt  res;
 
 	switch (unit -> waveform) {
 		case BK_CUSTOM: {
@@ -210,7 +218,15 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 	}
 
 	// reset data
-	return BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+	res = BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+
+	// unset data when failed
+	if (res < 0) {
+		unit -> waveform      = 0;
+		unit -> sample.frames = NULL;
+	}
+
+	return res;
 }
 
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
-- 
2.43.0


From 3c3fc93a14a517fe49034f229a4231204b2e9196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 24/58] fix: do not attach units with samples not matching the
 context

A unit with a sample could be moved to a context with more channels than the sample
has, where the frames of missing channels were read from behind the sample.
---
 src/BKUnit.c | 5 +++++
 src/BKUnit.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 33351ad..95f4891 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -276,6 +276,11 @@ void BKUnitDisposeObject (BKUnit * unit)
 BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx)
 {
 	if (unit -> ctx == NULL) {
+		// number of channels may differ from those of the previous context
+		if (unit -> waveform == BK_SAMPLE && unit -> sample.numChannels != 1 && unit -> sample.numChannels != ctx -> numChannels) {
+			return BK_INVALID_NUM_CHANNELS;
+		}
+
 		unit -> prevUnit = ctx -> lastUnit;
 		unit -> nextUnit = NULL;
 		unit -> ctx      = ctx;
diff --git a/src/BKUnit.h b/src/BKUnit.h
index 4a7e1ae..459fda5 100644
--- a/src/BKUnit.h
+++ b/src/BKUnit.h
@@ -116,6 +116,7 @@ extern BKInt BKUnitInit (BKUnit * unit, BKEnum waveform);
  *
  * Errors:
  * BK_INVALID_STATE if already attached to a context
+ * BK_INVALID_NUM_CHANNELS if the sample's number of channels does not match that of the context
  */
 extern BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx);
 
-- 
2.43.0


From 0c96020899b8420b2ab3d862ca9297f6af23cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 25/58] fix: keep unit at context time when resetting

Resetting a unit or track while its context is in the middle of a run made it
start over at the beginning of the buffer.
---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 95f4891..f875f42 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1283,7 +1283,7 @@ void BKUnitReset (BKUnit * unit)
 
 	unit -> waveform    = 0;
 	unit -> phase.phase = 0;
-	unit -> time = 0;
+	unit -> time = unit -> ctx ? unit -> ctx -> deltaTime : 0;
 
 	for (BKInt i = 0; i < BK_MAX_CHANNELS; i ++)
 		unit -> lastPulse [i] = 0;
-- 
2.43.0


From 9ff982286ccbbf0c7090d9ba3fba501a0ad8bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 26/58] fix: make first phase wrap as long as the others

The phase was reset after one phase less than BK_PHASE_WRAP the first time.
---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index f875f42..6d571f2 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -504,7 +504,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			value = value ? BKMax (value, 2) : 0;
 			unit -> phase.phase     = 0;
 			unit -> phase.wrap      = value;
-			unit -> phase.wrapCount = value;
+			unit -> phase.wrapCount = value ? value + 1 : 0; // first reset is after `value` phases too
 			break;
 		}
 		case BK_PERIOD: {
-- 
2.43.0


From 4c4d7612e9ad525b46bf5f5896793c6dbea03582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 27/58] fix: round slides and oscillations by at most half a
 unit

---
 src/BKInterpolation.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index bd8fb7c..3c7de6e 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -14,6 +14,14 @@ static BKUInt BKGetMaxValueShift (BKInt maxValue)
 	return shift;
 }
 
+/**
+ * Half of an integer step
+ */
+static BKInt BKGetRoundBias (BKUInt valueShift)
+{
+	return (1 << valueShift) >> 1;
+}
+
 void BKSlideStateInit (BKSlideState * state, BKInt maxValue)
 {
 	memset (state, 0, sizeof (* state));
@@ -24,8 +32,6 @@ void BKSlideStateInit (BKSlideState * state, BKInt maxValue)
 void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt steps)
 {
 	BKInt stepDelta, deltaValue;
-	BKInt roundBias = 0;
-	BKInt const stepShift = BK_STATE_STEP_FRAC_SHIFT;
 
 	steps = BKClamp (steps, 0, BK_STATE_MAX_STEPS);
 
@@ -34,17 +40,11 @@ void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt s
 		deltaValue = endValue - state -> value;
 		stepDelta  = deltaValue / steps;
 
-		// prevent division by 0
-		if ((deltaValue >> state -> valueShift)) {
-			roundBias = ((steps << stepShift) / (deltaValue >> state -> valueShift) / 2);
-			roundBias = (roundBias * (stepDelta >> stepShift));
-		}
-
 		state -> endValue  = endValue;
 		state -> stepDelta = stepDelta;
 		state -> steps     = steps;
 		state -> step      = steps;
-		state -> roundBias = roundBias;
+		state -> roundBias = BKGetRoundBias (state -> valueShift);
 	}
 	else {
 		state -> value     = (endValue << state -> valueShift);
@@ -74,7 +74,6 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 {
 	BKInt stepFrac, step;
 	BKInt stepDelta, value = 0;
-	BKInt roundBias = 0;
 	BKInt const stepShift = BK_STATE_STEP_FRAC_SHIFT;
 
 	steps = BKClamp (steps, 0, BK_STATE_MAX_STEPS);
@@ -97,12 +96,6 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 
 			stepDelta = delta / steps;
 
-			// prevent division by 0
-			if (delta >> state -> valueShift) {
-				roundBias = ((steps << stepShift) / (delta >> state -> valueShift) / 2);
-				roundBias = (roundBias * (stepDelta >> stepShift));
-			}
-
 			switch (state -> phase) {
 				//  / ̅  raise from zero
 				case 0: {
@@ -132,7 +125,7 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 			state -> steps     = steps;
 			state -> value     = value;
 			state -> stepDelta = stepDelta;
-			state -> roundBias = roundBias;
+			state -> roundBias = BKGetRoundBias (state -> valueShift);
 			state -> step      = step;
 		}
 	}
-- 
2.43.0


From 79b456057c5d475a79eabd2b4d5022332b373bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 28/58] fix: give copied sequences their own values and states

---
 src/BKSequence.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 67183a7..4eddb48 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -122,10 +122,12 @@ static BKInt BKSequenceFuncSimpleCopy (BKSequence ** outCopy, BKSequence const *
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
 		* outCopy = copy;
 
@@ -365,10 +367,12 @@ static BKInt BKSequenceFuncEnvelopeCopy (BKSequence ** outCopy, BKSequence const
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
 		* outCopy = copy;
 
-- 
2.43.0


From 36a02ea0e66442593ab930b2e0394718dd5fa1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 29/58] fix: remove states from disposed sequence

---
 src/BKSequence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 4eddb48..6de73ba 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -457,6 +457,9 @@ BKInt BKSequenceCopy (BKSequence ** outSequence, BKSequence * sequence)
 
 void BKSequenceDispose (BKSequence * sequence)
 {
+	while (sequence -> stateList)
+		BKSequenceStateRemoveFromSequence (sequence -> stateList);
+
 	free (sequence);
 }
 
-- 
2.43.0


From eed5143c1daed6f36df1cc6dad08bb47b4e33087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 30/58] fix: initialize copied instrument

---
 src/BKInstrument.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/BKInstrument.c b/src/BKInstrument.c
index b49cc35..27f3fcb 100644
--- a/src/BKInstrument.c
+++ b/src/BKInstrument.c
@@ -117,9 +117,11 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 	BKInt res = 0;
 	BKSequence * sequence;
 
-	memset (copy, 0, sizeof (sizeof (BKInstrument)));
+	if (BKObjectInit (copy, & BKInstrumentClass, sizeof (*copy)) < 0) {
+		return -1;
+	}
 
-	copy -> object.flags = (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
+	copy -> object.flags |= (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
 	copy -> numSequences = original -> numSequences;
 
 	for (BKInt i = 0; i < original -> numSequences; i ++) {
@@ -128,8 +130,10 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 		if (sequence) {
 			res = BKSequenceCopy (& copy -> sequences [i], sequence);
 
-			if (res < 0)
+			if (res < 0) {
+				BKDispose (copy);
 				return res;
+			}
 		}
 	}
 
-- 
2.43.0


From 7cf1d831626dd1b5373e35af53c6ece13d7acfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 31/58] fix: leave room for duty cycle in envelopes with small
 values

---
 src/BKSequence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 6de73ba..0501ab8 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -168,6 +168,9 @@ static BKUInt BKSequencePhaseGetFracShift (BKSequencePhase const * phases, BKUIn
 	BKInt shift    = 0;
 	BKInt maxValue = BKSequencePhaseGetMaxAbsValue (phases, length);
 
+	// leave room for a duty cycle which is set as current value
+	maxValue = BKMax (maxValue, BK_SQUARE_PHASES);
+
 	// shift must be smaller than maximum value
 	// reduce by one bit to allow enough delta to slide from maximum to minimum
 	while ((1 << shift) <= maxValue && shift < 30)
-- 
2.43.0


From 64a6f3722c2585daac0a24197d31c228d29028b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 32/58] fix: apply pitch to playing note and read it back

The pitch of a track only took effect with the next note or effect and could not be read.
---
 src/BKTrack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 020e1af..d244ea1 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -721,10 +721,12 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 		}
 		case BK_PITCH: {
 			track -> pitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_SAMPLE_PITCH: {
 			track -> samplePitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
@@ -794,6 +796,10 @@ static BKInt BKTrackGetAttrInt (BKTrack const * track, BKEnum attr, BKInt * outV
 			value = track -> curNote;
 			break;
 		}
+		case BK_PITCH: {
+			value = track -> pitch;
+			break;
+		}
 		case BK_SAMPLE_PITCH: {
 			value = track -> samplePitch;
 			break;
-- 
2.43.0


From 21f3eedfa78445d5eb0660e850c4ec45ad0ad81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 33/58] fix: update note and panning when attaching track

The period of the note was kept when attaching a track to a context with an
other sample rate, panning stayed enabled when the previous context was disposed,
and a track stayed half attached if its divider could not be attached.
---
 src/BKTrack.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index d244ea1..7be81ef 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -516,12 +516,17 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 	if (ret == 0) {
 		BKContextSetAttrInt (ctx, BK_CLOCK_TYPE_EFFECT, 1);
 
-		BKContextAttachDivider (ctx, & track -> divider, BK_CLOCK_TYPE_EFFECT);
+		ret = BKContextAttachDivider (ctx, & track -> divider, BK_CLOCK_TYPE_EFFECT);
 
-		if (ctx -> numChannels == 2)
-			track -> flags |= (BKPanningEnabledFlag);
+		if (ret != 0) {
+			BKUnitDetach (& track -> unit);
+			return ret;
+		}
 
-		track -> flags |= BKTrackAttrUpdateFlagVolume;
+		BKBitSetCond (track -> flags, BKPanningEnabledFlag, ctx -> numChannels == 2);
+
+		// sample rate may differ from that of the previous context
+		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote;
 		BKTrackUpdateUnit (track);
 	}
 
-- 
2.43.0


From c3da54c6c72b77e6ec525e1f1a0b7e8de730e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 34/58] fix: limit number of arpeggio notes

A negative number of notes copied a huge amount of memory, and more notes than given were read.
---
 src/BKTrack.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 7be81ef..1a8f47b 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -205,13 +205,17 @@ static void BKTrackArpeggioSetNotes (BKTrack * track, BKInt * arpeggio, BKInt co
 {
 	BKArpeggioState * state = & track -> arpeggio;
 
+	count = BKClamp (count, 0, BK_MAX_ARPEGGIO);
+
 	state -> count = count;
 
 	if (state -> offset >= state -> count) {
 		state -> offset = 0;
 	}
 
-	memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+	if (count > 0)
+		memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+
 	BKBitSetCond (track -> flags, BKArpeggioFlag, count > 0);
 
 	track -> flags |= BKTrackAttrUpdateFlagNote;
@@ -1038,12 +1042,13 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 				}
 				case BK_ARPEGGIO: {
 					BKInt * arpeggio = ptr;
-					BKUInt  count    = 0;
+					BKInt   count    = 0;
 
-					if (arpeggio && size)
-						count = BKMin (arpeggio [0], BK_MAX_ARPEGGIO);
+					// only use given notes
+					if (arpeggio && size >= sizeof (BKInt))
+						count = BKMin (arpeggio [0], (BKInt) BKMin (size / sizeof (BKInt) - 1, BK_MAX_ARPEGGIO));
 
-					BKTrackArpeggioSetNotes (track, & arpeggio [1], count);
+					BKTrackArpeggioSetNotes (track, arpeggio ? & arpeggio [1] : NULL, count);
 
 					break;
 				}
-- 
2.43.0


From e8bd6e08e40c8decdfc4e73b1c5cbf3798d59a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 35/58] fix: set and get arpeggio and effects with
 BKTrackSetPtr and BKTrackGetPtr

Both passed a size of 0 since sizes were introduced, which always disabled the
effect or arpeggio and returned no values.
---
 src/BKTrack.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 1a8f47b..2d684d1 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1065,9 +1065,26 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 	return 0;
 }
 
+/**
+ * Documented size of pointers without size
+ */
+static BKSize BKTrackPtrSize (BKEnum attr)
+{
+	switch (attr & BK_ATTR_TYPE_MASK) {
+		case BK_EFFECT_TYPE: {
+			return 2 * sizeof (BKInt);
+			break;
+		}
+		default: {
+			return attr == BK_ARPEGGIO ? (BK_MAX_ARPEGGIO + 1) * sizeof (BKInt) : sizeof (void *);
+			break;
+		}
+	}
+}
+
 BKInt BKTrackSetPtr (BKTrack * track, BKEnum attr, void * ptr)
 {
-	return BKTrackSetPtrObj (track, attr, ptr, 0);
+	return BKTrackSetPtrObj (track, attr, ptr, BKTrackPtrSize (attr));
 }
 
 static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr, BKSize size)
@@ -1113,7 +1130,7 @@ static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr
 
 BKInt BKTrackGetPtr (BKTrack const * track, BKEnum attr, void * outPtr)
 {
-	return BKTrackGetPtrObj (track, attr, outPtr, 0);
+	return BKTrackGetPtrObj (track, attr, outPtr, BKTrackPtrSize (attr));
 }
 
 BKClass BKTrackClass =
-- 
2.43.0


From a9b9d523ca8b562f1b67903613656a35171e91cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 36/58] fix: return values of tremolo and vibrato as they were
 set

The values were returned with the internal precision.
---
 src/BKTrack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 2d684d1..875775b 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -965,14 +965,14 @@ BKInt BKTrackGetEffect (BKTrack const * track, BKEnum effect, void * outValues,
 			break;
 		}
 		case BK_EFFECT_TREMOLO: {
-			values [0] = track -> tremoloSteps.endValue;
-			values [1] = track -> tremoloDelta.endValue;
+			values [0] = track -> tremoloSteps.endValue >> track -> tremoloSteps.valueShift;
+			values [1] = track -> tremoloDelta.endValue >> track -> tremoloDelta.valueShift;
 			values [2] = track -> tremoloDelta.steps;
 			break;
 		}
 		case BK_EFFECT_VIBRATO: {
-			values [0] = track -> vibratoSteps.endValue;
-			values [1] = track -> vibratoDelta.endValue;
+			values [0] = track -> vibratoSteps.endValue >> track -> vibratoSteps.valueShift;
+			values [1] = track -> vibratoDelta.endValue >> track -> vibratoDelta.valueShift;
 			values [2] = track -> vibratoDelta.steps;
 			break;
 		}
-- 
2.43.0


From a7b8e31802a2a090a74a9eafdb5f2ed9bbefed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 37/58] fix: do not accept dividers smaller than 1

A divider of 0 or less never reached 0 again.
---
 src/BKTrack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 875775b..0b83da0 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -739,17 +739,17 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
-			track -> arpeggioDivider.divider = value;
+			track -> arpeggioDivider.divider = BKMax (value, 1);
 			track -> arpeggioDivider.counter = 0;
 			break;
 		}
 		case BK_EFFECT_DIVIDER: {
-			track -> effectDivider.divider = value;
+			track -> effectDivider.divider = BKMax (value, 1);
 			track -> effectDivider.counter = 0;
 			break;
 		}
 		case BK_INSTRUMENT_DIVIDER: {
-			track -> instrDivider.divider = value;
+			track -> instrDivider.divider = BKMax (value, 1);
 			track -> instrDivider.counter = 0;
 			break;
 		}
-- 
2.43.0


From 3ac56ce8973260a77843706de5f689de3c2ceb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 38/58] fix: keep data callback of track when clearing it

The note was not updated any more when changing the data of a cleared or reset track.
---
 src/BKTrack.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 0b83da0..6999cfb 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -403,9 +403,6 @@ static BKInt BKTrackInitGeneric (BKTrack * track, BKEnum waveform)
 	BKSetAttr (track, BK_WAVEFORM, waveform);
 	BKTrackReset (track);
 
-	track -> unit.sample.dataState.callback         = (void *) BKTrackSampleDataStateCallback;
-	track -> unit.sample.dataState.callbackUserInfo = track;
-
 	callback.func     = (BKCallbackFunc) BKTrackTick;
 	callback.userInfo = track;
 
@@ -469,6 +466,10 @@ void BKTrackClear (BKTrack * track)
 
 	BKUnitClear (& track -> unit);
 
+	// set to the one of the unit by `BKUnitClear`
+	track -> unit.sample.dataState.callback         = (void *) BKTrackSampleDataStateCallback;
+	track -> unit.sample.dataState.callbackUserInfo = track;
+
 	BKTrackSetInstrument (track, NULL);
 
 	// only clear fields after and including "arpeggioDivider" field
-- 
2.43.0


From 8011c48e5ffbdfa0e09ec0dd49e661045fde5e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 39/58] fix: initialize number of phases if waveform is invalid

A track initialized with a waveform which needs data divided by 0.
---
 src/BKUnit.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 6d571f2..fb548d0 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -255,6 +255,9 @@ BKInt BKUnitInit (BKUnit * unit, BKEnum waveform)
 	unit -> end   = (BKUnitEndFunc) BKUnitEnd;
 	unit -> reset = (BKUnitResetFunc) BKUnitReset;
 
+	// prevent division by 0 if waveform is invalid
+	unit -> phase.count = BK_SQUARE_PHASES;
+
 	BKSetAttr (unit, BK_DUTY_CYCLE, BK_DEFAULT_DUTY_CYCLE);
 	BKSetAttr (unit, BK_WAVEFORM, waveform);
 
-- 
2.43.0


From 5633f762e3271d15f892dc28a71ff6f883c7baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 40/58] fix: convert negative values of signed 8 bit data

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index a192e1d..cb7d38a 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -510,7 +510,8 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 8: {
 				if (isSigned) {
-					outFrames [0] = (BKFrame) (* (signed char *) charData) * BK_FRAME_MAX / 127;
+					// lowest value would exceed the frame range
+					outFrames [0] = BKMax ((* (signed char *) charData) * (BKInt) BK_FRAME_MAX / 127, -(BKInt) BK_FRAME_MAX);
 				} else {
 					outFrames [0] = (BKFrame) (* (unsigned char *) charData) * BK_FRAME_MAX / 255;
 				}
-- 
2.43.0


From 60e29494d2ea1598a0290db3e8fbbdb6949f53af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 41/58] fix: keep lower byte when reversing endian of 16 bit
 data

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index cb7d38a..70c7dab 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -522,7 +522,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 16: {
 				if (reverseEndian) {
-					outFrames [0] = (charData [0] << 8) | (charData [1] >> 8);
+					outFrames [0] = (charData [0] << 8) | charData [1];
 				} else {
 					outFrames [0] =  (* (BKFrame *) charData);
 				}
-- 
2.43.0


From 385e93f500542462a7bc1e60d33388c7bf71d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 42/58] fix: convert all values of data with incomplete frames

---
 src/BKData.c | 41 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 70c7dab..ec3b907 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -438,26 +438,15 @@ static BKInt BKDataNumBitsFromParam (BKEnum param, BKUInt * outNumBits, BKInt *
 	return 0;
 }
 
-static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBits, BKUInt numChannels)
+/**
+ * Get number of values of all channels contained in data
+ */
+static BKSize BKDataCalculateNumValuesFromNumBits (BKUInt dataSize, BKUInt numBits)
 {
-	BKInt numFrames = 0;
-	BKInt packetSize;
-	BKInt dataSizeBits = dataSize * 8;
-
-	if (numBits <= 8) {
-		packetSize = (numBits * numChannels);
-	}
-	else {
-		// round up to multiple of 4
-		packetSize = (numBits + 3) / 4 * 4 * numChannels;
-	}
-
-	numFrames = dataSizeBits / packetSize * numChannels;
-
-	return numFrames;
+	return (BKSize) dataSize * 8 / numBits;
 }
 
-static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUInt dataSize, BKUInt numBits, BKInt isSigned, BKInt reverseEndian, BKUInt numChannels)
+static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUInt dataSize, BKUInt numBits, BKInt isSigned, BKInt reverseEndian)
 {
 	BKSize mask;
 	unsigned char const * charData = data;
@@ -472,7 +461,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 		case 16: mask = 2; break;
 	}
 
-	dataSize -= (dataSize % (mask * numChannels));
+	dataSize -= (dataSize % mask);
 
 	for (charData = data; (void *) charData < data + dataSize;) {
 		switch (numBits) {
@@ -546,7 +535,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	BKUInt    bits   = (params & BK_DATA_BITS_MASK);
 	BKUInt    numBits;
 	BKInt     isSigned, reverseEndian = 0;
-	BKInt     numFrames;
+	BKSize    numValues;
 	BKFrame * frames;
 
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
@@ -558,26 +547,24 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	if (BKDataNumBitsFromParam (bits, & numBits, & isSigned) < 0)
 		return BK_INVALID_NUM_BITS;
 
-	numFrames = BKDataCalculateNumFramesFromNumBits (dataSize, numBits, numChannels);
-
-	if (numFrames < 0)
-		return BK_INVALID_NUM_BITS;
+	// values of the last frame may be incomplete
+	numValues = BKDataCalculateNumValuesFromNumBits (dataSize, numBits);
 
 	if (data -> object.flags & BK_DATA_FLAG_COPY) {
-		frames = realloc (data -> frames, numFrames * sizeof (BKFrame));
+		frames = realloc (data -> frames, numValues * sizeof (BKFrame));
 	}
 	else {
-		frames = malloc (numFrames * sizeof (BKFrame));
+		frames = malloc (numValues * sizeof (BKFrame));
 	}
 
 	if (frames == NULL)
 		return BK_ALLOCATION_ERROR;
 
-	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian, numChannels) < 0)
+	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian) < 0)
 		return -1;
 
 	data -> frames      = frames;
-	data -> numFrames   = numFrames / numChannels;
+	data -> numFrames   = (BKUInt) (numValues / numChannels);
 	data -> numChannels = numChannels;
 	data -> numBits     = numBits;
 
-- 
2.43.0


From 6155b4c0004eaee48f293a704ec19d6bb7111d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 43/58] fix: own converted frames and reset users

---
 src/BKData.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index ec3b907..f6264fc 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -138,6 +138,17 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 	data -> object.flags &= ~BKObjectFlagLocked;
 }
 
+/**
+ * Free frames if they are owned by the data
+ */
+static void BKDataFreeFrames (BKData * data)
+{
+	if (data -> object.flags & BK_DATA_FLAG_COPY) {
+		free (data -> frames);
+		data -> object.flags &= ~BK_DATA_FLAG_COPY;
+	}
+}
+
 static BKInt BKDataPromoteToCopy (BKData * data)
 {
 	BKSize    size;
@@ -173,9 +184,7 @@ static void BKDataDisposeObject (BKData * data)
 {
 	BKDataDetach (data);
 
-	if (data -> object.flags & BK_DATA_FLAG_COPY) {
-		free (data -> frames);
-	}
+	BKDataFreeFrames (data);
 }
 
 void BKDataDetach (BKData * data)
@@ -550,24 +559,30 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	// values of the last frame may be incomplete
 	numValues = BKDataCalculateNumValuesFromNumBits (dataSize, numBits);
 
-	if (data -> object.flags & BK_DATA_FLAG_COPY) {
-		frames = realloc (data -> frames, numValues * sizeof (BKFrame));
-	}
-	else {
-		frames = malloc (numValues * sizeof (BKFrame));
-	}
+	// need at least 2 phases
+	if (numValues / numChannels < 2)
+		return BK_INVALID_NUM_FRAMES;
+
+	frames = malloc (numValues * sizeof (BKFrame));
 
 	if (frames == NULL)
 		return BK_ALLOCATION_ERROR;
 
-	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian) < 0)
+	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian) < 0) {
+		free (frames);
 		return -1;
+	}
+
+	BKDataFreeFrames (data);
 
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> frames      = frames;
 	data -> numFrames   = (BKUInt) (numValues / numChannels);
 	data -> numChannels = numChannels;
 	data -> numBits     = numBits;
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From a39676540f8729cc3c12ae7601a02f76df8fbd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 44/58] fix: only free frames owned by data

---
 src/BKData.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index f6264fc..31f0cfb 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -342,9 +342,12 @@ static BKInt BKDataGetPtr (BKData const * data, BKEnum attr, void * outPtr)
 
 BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames, BKUInt numChannels, BKInt copy)
 {
-	BKUInt    size;
+	BKSize    size;
 	BKFrame * newFrames;
 
+	if (frames == NULL)
+		return -1;
+
 	// need at least 2 phases
 	if (numFrames < 2)
 		return BK_INVALID_NUM_FRAMES;
@@ -352,33 +355,25 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
 		return BK_INVALID_NUM_CHANNELS;
 
-	size = numFrames * numChannels * sizeof (BKFrame);
+	size = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 
 	if (copy) {
-		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-			newFrames = realloc (data -> frames, size);
-		}
-		else {
-			newFrames = malloc (size);
-		}
+		newFrames = malloc (size);
 
 		if (newFrames == NULL)
-			return -1;
-
-		data -> object.flags |= BK_DATA_FLAG_COPY;
+			return BK_ALLOCATION_ERROR;
 
 		memcpy (newFrames, frames, size);
+
+		BKDataFreeFrames (data);
+
+		data -> object.flags |= BK_DATA_FLAG_COPY;
 	}
 	else {
-		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-			free (data -> frames);
-		}
-
 		newFrames = (BKFrame *) frames;
-	}
 
-	if (newFrames == NULL) {
-		return -1;
+		if (newFrames != data -> frames)
+			BKDataFreeFrames (data);
 	}
 
 	data -> frames      = newFrames;
-- 
2.43.0


From dfc7bae20fc86c0504519e06929a1cac41872825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 45/58] fix: initialize copied data

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 31f0cfb..1bbb82d 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -201,7 +201,7 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 
 	memcpy (copy, original, sizeof (BKData));
 
-	copy -> object.flags &= BK_DATA_FLAG_COPY_MASK;
+	copy -> object.flags = BKObjectFlagInitialized;
 	copy -> stateList = NULL;
 	copy -> frames    = NULL;
 
-- 
2.43.0


From 14894202022732b381d899fdd528a8f4708d2161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 46/58] fix: keep remaining states when removing a state from
 data

---
 src/BKData.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 1bbb82d..999b9f8 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -129,10 +129,10 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 
 			state -> nextState = NULL;
 			state -> data      = NULL;
-			state = NULL;
 		}
-
-		prevState = state;
+		else {
+			prevState = state;
+		}
 	}
 
 	data -> object.flags &= ~BKObjectFlagLocked;
-- 
2.43.0


From 6f84765a65e3fef3640d391a937633546a89b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 47/58] fix: report errors when loading raw data

---
 src/BKData.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 999b9f8..01e7276 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -583,7 +583,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 
 BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum params)
 {
-	BKSize offset, size;
+	long   offset, size;
 	void * frames;
 	BKInt  ret = 0;
 
@@ -596,7 +596,7 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 	fseek (file, 0, SEEK_END);
 	size = ftell (file);
 
-	if (size < 0) {
+	if (size < offset || size - offset > UINT32_MAX) {
 		return BK_FILE_ERROR;
 	}
 
@@ -608,7 +608,11 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 	}
 
 	fseek (file, offset, SEEK_SET);
-	fread (frames, sizeof (char), size, file);
+
+	if (fread (frames, sizeof (char), size, file) != size) {
+		free (frames);
+		return BK_FILE_ERROR;
+	}
 
 	ret = BKDataSetData (data, frames, (BKUInt) size, numChannels, params);
 
-- 
2.43.0


From be10a9a3ca56eb1d5ef636a5ceadf694bdb6f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 48/58] fix: reset users of normalized data

---
 src/BKData.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 01e7276..d8eabc9 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -155,7 +155,7 @@ static BKInt BKDataPromoteToCopy (BKData * data)
 	BKFrame * frames;
 
 	if ((data -> object.flags & BK_DATA_FLAG_COPY) == 0) {
-		size   = data -> numFrames * data -> numChannels * sizeof (BKFrame);
+		size   = (BKSize) data -> numFrames * data -> numChannels * sizeof (BKFrame);
 		frames = malloc (size);
 
 		if (frames == NULL)
@@ -686,6 +686,8 @@ BKInt BKDataNormalize (BKData * data)
 			data -> frames [i] = (data -> frames [i] * factor) >> 16;
 	}
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From 914476b33920fcc6dbf95b5ee02d81cc3e94b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 49/58] fix: own frames of converted data

---
 src/BKData.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index d8eabc9..eb7b32f 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -780,7 +780,7 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 	BKSize length;
 	BKDataConvertInfo validatedInfo;
 
-	length = data -> numFrames * data -> numChannels;
+	length = (BKSize) data -> numFrames * data -> numChannels;
 
 	validatedInfo = (* info);
 
@@ -803,7 +803,7 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 		convertedFrames = malloc (length * sizeof (BKFrame));
 
 		if (convertedFrames == NULL)
-			return -1;
+			return BK_ALLOCATION_ERROR;
 	}
 	else {
 		convertedFrames = data -> frames;
@@ -812,6 +812,7 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 	BKDataReduceBits (convertedFrames, data -> frames, length, & validatedInfo);
 
 	data -> frames = convertedFrames;
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 
 	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
 
-- 
2.43.0


From 2cef2e896dfe2e3fb00b56899d950f29aeb186b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 50/58] fix: replace frames when loading a WAVE file

---
 src/BKData.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index eb7b32f..189f48a 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -633,10 +633,22 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	}
 
 	if (BKWaveFileReaderReadHeader (& reader, & numChannels, & sampleRate, & numFrames) < 0) {
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
-	size   = numFrames * numChannels * sizeof (BKFrame);
+	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_CHANNELS;
+	}
+
+	// need at least 2 phases
+	if (numFrames < 2) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_FRAMES;
+	}
+
+	size   = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 	frames = malloc (size);
 
 	if (frames == NULL) {
@@ -646,9 +658,12 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 
 	if (BKWaveFileReaderReadFrames (& reader, frames) < 0) {
 		free (frames);
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
+	BKDataFreeFrames (data);
+
 	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> numBits       = 16;
 	data -> sampleRate    = sampleRate;
@@ -658,6 +673,8 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 
 	BKDispose (& reader);
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From e412ff6d7a10def84fbb42a72644ba3b91ffb2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 51/58] fix: do not swap sample rate and channels when writing
 data

---
 src/BKWaveFileWriter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 5ccb0b6..a722ddb 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -253,7 +253,7 @@ BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, B
 {
 	BKWaveFileWriter writer;
 
-	if (BKWaveFileWriterInit (& writer, file, sampleRate, data -> numChannels, numBits) < 0) {
+	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From 7a4938e12f07e072215ef9158ba17675790bcaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 52/58] fix: size of WAVE not beginning at start of file

---
 src/BKWaveFileWriter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index a722ddb..a2186a8 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -155,7 +155,7 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
 	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
 
-	writer -> fileSize += ftell (writer -> file) - 8;
+	writer -> fileSize += ftell (writer -> file) - writer -> initOffset - 8;
 
 	writer -> object.flags |= BKWaveFileFlagHeaderWritten;
 
-- 
2.43.0


From 55e595ff0257271042f906b0a96e8509930bb0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 53/58] fix: write header of WAVE without frames

---
 src/BKWaveFileWriter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index a2186a8..f88b214 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -219,6 +219,12 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	BKSize   offset;
 	uint32_t chunkSize;
 
+	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
+		if (BKWaveFileWriterWriteHeader (writer) < 0) {
+			return -1;
+		}
+	}
+
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
 	chunkSize = (uint32_t) writer -> fileSize;
 
-- 
2.43.0


From ebbc1be911919e6df42d2ff83ab5c13079c4df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 54/58] fix: report failed writes of WAVE files

---
 src/BKWaveFileWriter.c | 43 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index f88b214..0824434 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -151,9 +151,11 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 		fmtHeader.byteRate      = BKInt32Reverse (fmtHeader.byteRate);
 	}
 
-	fwrite (& header, sizeof (header), 1, writer -> file);
-	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
-	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
+	if (fwrite (& header, sizeof (header), 1, writer -> file) != 1 ||
+	    fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file) != 1 ||
+	    fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> fileSize += ftell (writer -> file) - writer -> initOffset - 8;
 
@@ -199,11 +201,15 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 			frames += writeSize;
 			numFrames -= writeSize;
 
-			fwrite (buffer, numBits / 8, writeSize, writer -> file);
+			if (fwrite (buffer, numBits / 8, writeSize, writer -> file) != writeSize) {
+				return BK_FILE_ERROR;
+			}
 		}
 	}
 	else {
-		fwrite (frames, sizeof (BKFrame), numFrames, writer -> file);
+		if (fwrite (frames, sizeof (BKFrame), numFrames, writer -> file) != numFrames) {
+			return BK_FILE_ERROR;
+		}
 	}
 
 	writer -> fileSize += dataSize;
@@ -232,8 +238,10 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0 ||
+	    fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
 	offset = writer -> initOffset + sizeof (BKWaveFileHeader) + sizeof (BKWaveFileHeaderFmt);
 	offset += offsetof (BKWaveFileHeaderData, subchunkSize);
@@ -244,11 +252,14 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0 ||
+	    fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
-	fseek (writer -> file, 0, SEEK_END);
-	fflush (writer -> file);
+	if (fseek (writer -> file, 0, SEEK_END) != 0 || fflush (writer -> file) != 0) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> object.flags |= BKWaveFileFlagTerminated;
 
@@ -257,18 +268,22 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 
 BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, BKInt numBits)
 {
+	BKInt res;
 	BKWaveFileWriter writer;
 
 	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-	BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
-	BKWaveFileWriterTerminate (& writer);
+	res = BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
+
+	if (res == 0) {
+		res = BKWaveFileWriterTerminate (& writer);
+	}
 
 	BKDispose (& writer);
 
-	return 0;
+	return res;
 }
 
 BKClass BKWaveFileWriterClass =
-- 
2.43.0


From 2c317af98f1e98707287ee59a11a8a14b39c438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 55/58] fix: refuse WAVE files without channels or sample rate

---
 src/BKWaveFileReader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 258184b..059d6d4 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -133,6 +133,10 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.numChannels == 0 || headerFmt.sampleRate == 0 || headerFmt.sampleRate > INT32_MAX) {
+			return -1;
+		}
+
 		do {
 			size = fread (& headerData, 1, sizeof (headerData), reader -> file);
 
-- 
2.43.0


From cb6d8eb1ea4c42971e59726b2f352b578878b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 56/58] fix: skip extension of format and padding of chunks in
 WAVE files

---
 src/BKWaveFileReader.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 059d6d4..0016a5e 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -25,6 +25,8 @@
 #include "BKWaveFileReader.h"
 #include "BKWaveFile_internal.h"
 
+#define BK_WAVE_FILE_FMT_SIZE 16
+
 extern BKClass BKWaveFileReaderClass;
 
 static BKInt BKCheckFile (FILE * file)
@@ -90,6 +92,14 @@ static void BKWaveFileHeaderDataRead (BKWaveFileHeaderData * headerData)
 	}
 }
 
+/**
+ * Length of chunk in file. Chunks with an odd size are followed by a pad byte.
+ */
+static long BKWaveFileChunkLength (uint32_t size)
+{
+	return (long) size + (size & 1);
+}
+
 BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChannels, BKInt * outSampleRate, BKInt * outNumFrames)
 {
 	BKSize size;
@@ -129,6 +139,15 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.subchunkSize < BK_WAVE_FILE_FMT_SIZE) {
+			return -1;
+		}
+
+		// skip extension and padding of format chunk
+		if (fseek (reader -> file, BKWaveFileChunkLength (headerFmt.subchunkSize) - BK_WAVE_FILE_FMT_SIZE, SEEK_CUR) < 0) {
+			return -1;
+		}
+
 		if (headerFmt.bitsPerSample != 8 && headerFmt.bitsPerSample != 16) {
 			return -1;
 		}
@@ -151,7 +170,9 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			}
 
 			// seek to next subchunk
-			fseek (reader -> file, headerData.subchunkSize, SEEK_CUR);
+			if (fseek (reader -> file, BKWaveFileChunkLength (headerData.subchunkSize), SEEK_CUR) < 0) {
+				return -1;
+			}
 		}
 		while (1);
 
-- 
2.43.0


From 20890407627553546f91d53ff0c63e1d68a71bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 57/58] fix: only read full frames of WAVE files

---
 src/BKWaveFileReader.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 0016a5e..420044a 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -104,6 +104,7 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 {
 	BKSize size;
 	BKSize frameSize;
+	BKSize numFrames;
 	BKWaveFileHeader header;
 	BKWaveFileHeaderFmt headerFmt;
 	BKWaveFileHeaderData headerData;
@@ -176,11 +177,7 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 		}
 		while (1);
 
-		reader -> sampleRate  = headerFmt.sampleRate;
-		reader -> numChannels = headerFmt.numChannels;
-		reader -> numBits     = headerFmt.bitsPerSample;
-
-		switch (reader -> numBits) {
+		switch (headerFmt.bitsPerSample) {
 			case 8: {
 				frameSize = 1;
 				break;
@@ -208,7 +205,18 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			reader -> dataSize = size - cur;
 		}
 
-		reader -> numFrames = (BKInt) reader -> dataSize / reader -> numChannels / frameSize;
+		// only full frames are read
+		numFrames = reader -> dataSize / headerFmt.numChannels / frameSize;
+
+		if (numFrames > INT32_MAX) {
+			return -1;
+		}
+
+		reader -> sampleRate  = headerFmt.sampleRate;
+		reader -> numChannels = headerFmt.numChannels;
+		reader -> numBits     = headerFmt.bitsPerSample;
+		reader -> numFrames   = (BKInt) numFrames;
+		reader -> dataSize    = numFrames * headerFmt.numChannels * frameSize;
 	}
 
 	* outNumChannels = reader -> numChannels;
@@ -293,8 +301,8 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		}
 	}
 
-	// empty trailing byte if any
-	memset (outFrames, 0, reader -> dataSize - writeSize);
+	// empty missing frames if any
+	memset (outFrames, 0, (reader -> dataSize - writeSize) / frameSize * sizeof (BKFrame));
 
 	return 0;
 }
-- 
2.43.0


From d3dee6b58849c40688d9b825eb1fdaaec95c85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:07 +0000
Subject: [PATCH 58/58] fix: arguments of pointer functions of data

---
 src/BKData.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 189f48a..0ceaf56 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -268,7 +268,7 @@ BKInt BKDataGetAttr (BKData const * data, BKEnum attr, BKInt * outValue)
 	return BKDataGetAttrInt (data, attr, outValue);
 }
 
-static BKInt BKDataSetPtr (BKData * data, BKEnum attr, void * ptr)
+static BKInt BKDataSetPtr (BKData * data, BKEnum attr, void * ptr, BKSize size)
 {
 	BKInt * values;
 
@@ -321,7 +321,7 @@ static BKInt BKDataSetPtr (BKData * data, BKEnum attr, void * ptr)
 	return 0;
 }
 
-static BKInt BKDataGetPtr (BKData const * data, BKEnum attr, void * outPtr)
+static BKInt BKDataGetPtr (BKData const * data, BKEnum attr, void * outPtr, BKSize size)
 {
 	BKInt * values = outPtr;
 
-- 
2.43.0

