/* One allocation at a time from a fixed pool (allocations of symbolic size are hard to decide) */
#ifndef VP_POOL_H
#define VP_POOL_H
#include <stdlib.h>
#include <string.h>
extern void * vp_malloc (size_t size);
extern void vp_free (void * p);
#define malloc vp_malloc
#define free vp_free
#endif
