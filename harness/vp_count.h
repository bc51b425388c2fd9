/* Allocations are counted and can fail; files are kept in memory */
#ifndef VP_COUNT_H
#define VP_COUNT_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
extern void * vp_malloc (size_t size);
extern void * vp_calloc (size_t n, size_t size);
extern void * vp_realloc (void * p, size_t size);
extern void vp_free (void * p);
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#ifdef VP_FILES
extern size_t vp_fread (void * to, size_t size, size_t n, FILE * f);
extern size_t vp_fwrite (void const * from, size_t size, size_t n, FILE * f);
extern int vp_fseek (FILE * f, long offset, int whence);
extern long vp_ftell (FILE * f);
extern int vp_fcntl (int fd);
#define fread vp_fread
#define fwrite vp_fwrite
#define fseek vp_fseek
#define ftell vp_ftell
#define fileno(f) 3
#define fcntl(fd, ...) vp_fcntl (fd)
#define fflush(f) 0
#endif
#endif
