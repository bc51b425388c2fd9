/* Native replay runtime: feeds the recorded inputs to the harness. */
#if 1
#undef malloc
#undef free
#undef realloc
#undef calloc
#undef fflush
#endif
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

static long long * vp_vals;
static size_t      vp_count, vp_pos;
static int         vp_did_reach;

static void vp_load (void)
{
	char const * path = getenv ("VP_REPLAY");
	FILE * f = path ? fopen (path, "r") : NULL;
	long long v;
	size_t cap = 1024;

	vp_vals = malloc (sizeof (* vp_vals) * cap);
	while (f && fscanf (f, "%lld", & v) == 1) {
		if (vp_count == cap) {
			cap *= 2;
			vp_vals = realloc (vp_vals, sizeof (* vp_vals) * cap);
		}
		vp_vals [vp_count ++] = v;
	}
	if (f)
		fclose (f);
}

long long vp_next (char const * name)
{
	(void) name;
	if (vp_vals == NULL)
		vp_load ();
	if (vp_pos < vp_count)
		return vp_vals [vp_pos ++];
	return 0;
}

void vp_fail (char const * msg, char const * file, int line)
{
	fflush (stdout);
	fprintf (stderr, "VP-ASSERT-FAILED %s (%s:%d)\n", msg, file, line);
	fflush (stderr);
	_exit (42);
}

void vp_reached (void)
{
	vp_did_reach = 1;
	fprintf (stderr, "VP-REACHED\n");
	fflush (stderr);
}
