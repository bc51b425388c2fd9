/* Word-wise models of memmove/memset for code whose buffers are arrays of
 * 32 bit integers (encoding only; the native build uses the C library). */
#ifndef VP_MEM_INT_H
#define VP_MEM_INT_H
#ifdef VP_CBMC
#include <stdint.h>
#include <string.h>

static inline void * vp_memmove32 (void * dst, void const * src, size_t n)
{
	int32_t * d = dst;
	int32_t const * s = src;
	__CPROVER_assert (n % 4 == 0, "memmove model: whole words");
	if (n == 0 || d == s)
		return dst;
	if (__CPROVER_POINTER_OBJECT (d) != __CPROVER_POINTER_OBJECT (s) || __CPROVER_POINTER_OFFSET (d) < __CPROVER_POINTER_OFFSET (s)) {
		for (size_t i = 0; i < n / 4; i ++)
			d [i] = s [i];
	}
	else {
		for (size_t i = n / 4; i > 0; i --)
			d [i - 1] = s [i - 1];
	}
	return dst;
}

static inline void * vp_memset32 (void * dst, int c, size_t n)
{
	int32_t * d = dst;
	if (n > 4096 || n % 4) /* whole objects */
		return memset (dst, c, n);
	__CPROVER_assert (c == 0, "memset model: zero fill");
	for (size_t i = 0; i < n / 4; i ++)
		d [i] = 0;
	return dst;
}
#define memmove vp_memmove32
#define memset vp_memset32
#endif
#endif
