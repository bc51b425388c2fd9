/* one file in memory; writing beyond its room fails like a full disk */
#undef fread
#undef fwrite
#undef fseek
#undef ftell
#undef fileno
#undef fcntl
#undef fflush
static unsigned char vp_file [VP_FILES];
static long vp_size, vp_pos;
static int vp_mode = O_RDWR, vp_room = VP_FILES;
static FILE * const VP_FILE = (FILE *) 16;
size_t vp_fread (void * to, size_t size, size_t n, FILE * f)
{
	size_t k = 0;
	vp_assert (f == VP_FILE, "the file given is read");
	/* headers are set by their type, so that known sizes stay known to the solver */
	if (vp_pos + (long) (size * n) <= vp_size) {
		unsigned char const * b = & vp_file [vp_pos];
		if (size * n == sizeof (BKWaveFileHeader)) {
			BKWaveFileHeader h = { { b [0], b [1], b [2], b [3] }, le (b + 4, 4), { b [8], b [9], b [10], b [11] } };
			* (BKWaveFileHeader *) to = h;
			vp_pos += sizeof (h);
			return n;
		}
		if (size * n == sizeof (BKWaveFileHeaderFmt)) {
			BKWaveFileHeaderFmt h = { { b [0], b [1], b [2], b [3] }, le (b + 4, 4), le (b + 8, 2), le (b + 10, 2), le (b + 12, 4), le (b + 16, 4), le (b + 20, 2), le (b + 22, 2) };
			* (BKWaveFileHeaderFmt *) to = h;
			vp_pos += sizeof (h);
			return n;
		}
		if (size * n == sizeof (BKWaveFileHeaderData)) {
			BKWaveFileHeaderData * h = to;
			for (int i = 0; i < 4; i ++)
				h -> subchunkID [i] = b [i];
			h -> subchunkSize = le (b + 4, 4);
			vp_pos += sizeof (* h);
			return n;
		}
	}
	for (size_t i = 0; i < size * n && vp_pos < vp_size; i ++, k ++)
		((unsigned char *) to) [i] = vp_file [vp_pos ++];
	return k / size;
}
size_t vp_fwrite (void const * from, size_t size, size_t n, FILE * f)
{
	size_t k = 0;
	vp_assert (f == VP_FILE, "the file given is written");
	for (size_t i = 0; i < size * n && vp_pos < vp_room; i ++, k ++)
		vp_file [vp_pos ++] = ((unsigned char const *) from) [i];
	if (vp_pos > vp_size)
		vp_size = vp_pos;
	return k / size;
}
int vp_fseek (FILE * f, long offset, int whence)
{
	long pos = offset + (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? vp_pos : vp_size);
	if (pos < 0)
		return -1;
	vp_pos = pos;
	return 0;
}
long vp_ftell (FILE * f)
{
	return vp_pos;
}
int vp_fcntl (int fd)
{
	return vp_mode;
}
