/* WAVE files in memory */
#include "vp.h"
#include "BKData_internal.h"
#include "BKWaveFileReader.h"
#include "BKWaveFileWriter.h"
#include "BKWaveFile_internal.h"

static unsigned le (unsigned char const * p, int n)
{
	unsigned v = 0;
	for (int i = n - 1; i >= 0; i --)
		v = v << 8 | p [i];
	return v;
}
#if defined (H_WRITE)
#include "vp_count_impl.h"
#include "vp_file_impl.h"
/* H_N frames of all channels with H_BITS bits appended in pieces of H_SPLIT, behind H_OFF bytes, terminated after each of H_TERM */
#define BYTES (H_BITS == 8 ? 1 : 2)
static BKFrame frames [H_N + 1], out [H_N + 1];
static unsigned char before [H_OFF + 1];
static void header (int n, BKInt ch, BKInt rate)
{
	unsigned char const * h = & vp_file [H_OFF];
	vp_assert (h [0] == 'R' && h [1] == 'I' && h [2] == 'F' && h [3] == 'F' && h [8] == 'W' && h [9] == 'A' && h [10] == 'V' && h [11] == 'E', "begins as WAVE file");
	vp_assert (h [12] == 'f' && h [13] == 'm' && h [14] == 't' && h [15] == ' ' && h [36] == 'd' && h [37] == 'a' && h [38] == 't' && h [39] == 'a', "format and data chunks");
	vp_assert (vp_size == H_OFF + 44 + n * BYTES, "file has the header and all frames");
	vp_assert (le (h + 4, 4) == 36 + n * BYTES, "size of the file");
	vp_assert (le (h + 40, 4) == n * BYTES, "size of the data");
	vp_assert (le (h + 16, 4) == 16 && le (h + 20, 2) == 1, "PCM format");
	vp_assert (le (h + 22, 2) == ch, "number of channels");
	vp_assert (le (h + 24, 4) == rate, "sample rate");
	vp_assert (le (h + 28, 4) == (uint32_t) rate * ch * BYTES, "byte rate");
	vp_assert (le (h + 32, 2) == ch * BYTES, "size of a frame");
	vp_assert (le (h + 34, 2) == 8 * BYTES, "bits of a sample");
	for (int i = 0; i < H_OFF; i ++)
		vp_assert (vp_file [i] == before [i], "what was written before is kept");
	for (int i = 0; i < n; i ++)
		vp_assert (H_BITS == 8 ? h [44 + i] == (frames [i] >> 8) + 128 : (BKFrame) le (h + 44 + 2 * i, 2) == frames [i], "frames are written in order");
}
int main (void)
{
	BKInt const split [] = { H_SPLIT }, term [] = { H_TERM };
	BKWaveFileWriter writer;
	BKWaveFileReader reader;
	BKInt ch = H_CH, n = 0;
#ifdef H_RATE
	BKInt rate = H_RATE;
#else
	BKInt rate = vp_int ("rate", 1, INT32_MAX);
#endif
	for (int i = 0; i < H_OFF; i ++)
		before [i] = vp_file [i] = vp_uint ("before", 0, 255);
	vp_size = vp_pos = H_OFF;
	for (int i = 0; i < H_N; i += H_EVERY)
		frames [i] = vp_int ("frame", -32768, 32767);
#ifdef H_DATA
	BKData data;
	BKDataInit (& data);
	vp_assert (BKDataSetFrames (& data, frames, H_N / H_CH, ch, 0) == 0, "frames are set");
	vp_assert (BKWaveFileWriteData (VP_FILE, & data, rate, H_BITS) == 0, "data is written");
	n = H_N;
	header (n, ch, rate);
#else
	vp_mode = O_RDONLY;
	vp_assert (BKWaveFileWriterInit (& writer, VP_FILE, ch, rate, H_BITS) == BK_FILE_NOT_WRITABLE_ERROR, "file has to be writable");
	vp_mode = H_CH & 1 ? O_RDWR : O_WRONLY;
	BKInt bits = vp_any_int ("bits");
	BKWaveFileWriter other;
	BKInt r = BKWaveFileWriterInit (& other, VP_FILE, ch, rate, bits);
	vp_assert (r == (bits == 0 || bits == 8 || bits == 16 ? 0 : BK_INVALID_VALUE), "8 or 16 bits");
	vp_assert (BKWaveFileWriterInit (& writer, VP_FILE, ch, rate, H_BITS) == 0, "initialised");
	for (int i = 0; i < sizeof (split) / sizeof (split [0]); i ++) {
		vp_assert (BKWaveFileWriterAppendFrames (& writer, frames + n, split [i]) == 0, "frames are appended");
		n += split [i];
		if (term [i]) {
			vp_assert (BKWaveFileWriterTerminate (& writer) == 0, "is terminated");
			header (n, ch, rate);
			vp_assert (vp_pos == vp_size, "continues at the end");
		}
	}
	BKDispose (& writer);
	header (n, ch, rate);
#endif
	/* read again (sizes have been shown to be these) */
	for (int i = 0; i < 4; i ++) {
		vp_file [H_OFF + 16 + i] = 16 >> 8 * i;
		vp_file [H_OFF + 40 + i] = n * BYTES >> 8 * i;
	}
	vp_file [H_OFF + 22] = ch;
	vp_file [H_OFF + 34] = H_BITS;
	for (int i = 0; i < 4; i ++) {
		vp_file [H_OFF + i] = "RIFF" [i];
		vp_file [H_OFF + 8 + i] = "WAVE" [i];
		vp_file [H_OFF + 12 + i] = "fmt " [i];
		vp_file [H_OFF + 36 + i] = "data" [i];
	}
	vp_file [H_OFF + 20] = 1;
	vp_file [H_OFF + 21] = vp_file [H_OFF + 23] = vp_file [H_OFF + 35] = 0;
	vp_pos = H_OFF;
	vp_mode = O_WRONLY;
	vp_assert (BKWaveFileReaderInit (& reader, VP_FILE) == BK_FILE_NOT_READABLE_ERROR, "file has to be readable");
	vp_mode = O_RDONLY;
	vp_assert (BKWaveFileReaderInit (& reader, VP_FILE) == 0, "initialised");
	BKInt c = -1, s = -1, f = -1;
#ifndef H_RATE
	enum { READ = 1 };
#else
	enum { READ = 2 };
#endif
	for (int i = 0; i < READ; i ++) {
		vp_assert (BKWaveFileReaderReadHeader (& reader, & c, & s, & f) == 0, "header is read");
		vp_assert (c == ch && s == rate && f == n / ch, "channels, rate and frames are the ones written");
	}
	vp_assert (reader.dataSize == n * BYTES && reader.numBits == 8 * BYTES && vp_pos == H_OFF + 44, "frames are read next");
	reader.dataSize = n * BYTES;
	reader.numBits = 8 * BYTES;
	vp_pos = H_OFF + 44;
	out [n] = 12345;
	vp_assert (BKWaveFileReaderReadFrames (& reader, out) == 0, "frames are read");
	for (int i = 0; i < n; i ++)
		vp_assert (out [i] == (H_BITS == 8 ? frames [i] & ~255 : frames [i]), "frames are the ones written");
	vp_assert (out [n] == 12345, "only the frames are written");
	BKDispose (& reader);
	vp_reach ();
	return 0;
}

#elif defined (H_FULL)
/* no more than H_FULL bytes can be written */
#include "vp_count_impl.h"
#include "vp_file_impl.h"
int main (void)
{
	BKWaveFileWriter writer;
	BKFrame frames [4] = { 1, 2, 3, 4 };
	BKInt bits = H_BITS, r = 0;
	vp_room = H_FULL;
	vp_assert (BKWaveFileWriterInit (& writer, VP_FILE, 1, 44100, bits) == 0, "initialised");
	r |= BKWaveFileWriterAppendFrames (& writer, frames, 4);
	r |= BKWaveFileWriterTerminate (& writer);
	vp_assert (H_FULL >= 44 + 4 * bits / 8 ? r == 0 : r != 0, "failed writes are reported");
	vp_room = VP_FILES;
	BKDispose (& writer);
	vp_reach ();
	return 0;
}

#elif defined (H_READ)
/* file with H_READ bytes, H_FMT of them (the header up to the first data chunk) symbolic */
#define K 24
static BKFrame pool [K + 1], old [3] = { 5, 6, 7 };
static int live, asked;
void * vp_malloc (size_t size)
{
	vp_assert (! live, "one allocation at a time");
	if (size > K * sizeof (BKFrame))
		return NULL;
	vp_assert (size % sizeof (BKFrame) == 0, "room for full frames");
	live = 1;
	asked = size / sizeof (BKFrame);
	for (int i = 0; i <= K; i ++)
		pool [i] = i < asked ? 1111 : 2222;
	return pool;
}
void vp_free (void * p)
{
	vp_assert (p == NULL || (live && p == pool), "only what was allocated is freed");
	if (p)
		live = 0;
}
void * vp_calloc (size_t n, size_t size)
{
	BKFrame * p = vp_malloc (n * size);
	for (int i = 0; p && i < asked; i ++)
		p [i] = 0;
	return p;
}
void * vp_realloc (void * p, size_t size)
{
	vp_assert (p == NULL, "only called without memory in this version");
	return vp_malloc (size);
}
#undef malloc
#undef calloc
#undef realloc
#undef free
#include "vp_file_impl.h"
int main (void)
{
#ifndef H_BASE
#define H_BASE 'R','I','F','F', 0,0,0,0, 'W','A','V','E', 'f','m','t',' ', 16,0,0,0, 1,0, 2,0, 0x44,0xac,0,0, 0,0,0,0, 4,0, 16,0, 'd','a','t','a', 8,0,0,0
#endif
	static unsigned char const base [] = { H_BASE };
	BKInt const any [] = { H_ANY };
	BKData data;
	for (int i = 0; i < H_READ; i ++)
		vp_file [i] = i < sizeof (base) ? base [i] : vp_uint ("content", 0, 255);
	for (int i = 0; i < sizeof (any) / sizeof (any [0]); i ++)
		vp_file [any [i]] = vp_uint ("byte", 0, 255);
	vp_size = H_READ;
#ifdef H_HEADER
	/* only the header */
	BKWaveFileReader reader;
	BKInt c = -1, s = -1, f = -1;
	vp_assert (BKWaveFileReaderInit (& reader, VP_FILE) == 0, "initialised");
	BKInt res = BKWaveFileReaderReadHeader (& reader, & c, & s, & f);
	vp_assert ((res == 0) == (H_VALID), "valid headers are accepted, others are refused");
	if (res == 0) {
		vp_assert (c == (H_CHANNELS) && c > 0, "channels of the file");
		vp_assert (f == (H_FRAMES) && f >= 0, "frames of the file");
		vp_assert (s == le (& vp_file [24], 4) && s > 0, "sample rate of the file");
		vp_assert (reader.dataSize == (BKSize) c * f * (reader.numBits / 8), "size of full frames");
		vp_assert (vp_pos == (H_POS), "frames are read next");
	}
	else {
		vp_assert (c == -1 && s == -1 && f == -1, "nothing is returned");
	}
#else
	BKDataInit (& data);
	vp_assert (BKDataSetFrames (& data, old, 3, 1, 0) == 0, "frames are set");
	BKInt r = BKDataLoadWAVE (& data, VP_FILE);
	vp_assert (old [0] == 5 && old [1] == 6 && old [2] == 7, "frames set before are not written");
	if (r != 0) {
		vp_assert (! live && data.frames == old && data.numFrames == 3 && data.numChannels == 1, "a refused file changes nothing");
	}
	else {
		vp_assert (live && data.frames == pool && data.numFrames >= 2 && data.numChannels >= 1 && data.numChannels <= BK_MAX_CHANNELS, "frames are loaded");
		vp_assert (data.numFrames * data.numChannels == asked, "room for all frames");
		vp_assert (data.sampleRate > 0, "sample rate");
		for (int i = asked; i <= K; i ++)
			vp_assert (pool [i] == 2222, "no frame is written behind");
#ifdef H_CHANNELS
		vp_assert (data.numChannels == (H_CHANNELS), "channels of the file");
		vp_assert (data.numFrames == (H_FRAMES), "frames of the file");
		vp_assert (data.sampleRate == le (& vp_file [24], 4), "sample rate of the file");
#endif
#ifdef H_DATAPOS
		/* the frames lie at H_DATAPOS; missing ones are 0 */
		for (int i = 0; i < asked; i ++) {
			int at = H_DATAPOS + i * (H_BITS / 8);
			BKFrame v = H_BITS == 8 ? (at < H_READ ? (vp_file [at] - 128) * 256 : 0) : at + 1 < H_READ ? (BKFrame) le (& vp_file [at], 2) : 0;
			vp_assert (pool [i] == v, "frames are the ones of the file");
		}
#endif
	}
#ifdef H_VALID
	vp_assert ((r == 0) == (H_VALID), "valid files are accepted, others are refused");
#endif
	BKDispose (& data);
	vp_assert (! live, "nothing is left allocated");
#endif
	vp_reach ();
	return 0;
}
#endif
