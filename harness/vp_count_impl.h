/* for the harness itself: allocations made by the code under test */
#undef malloc
#undef calloc
#undef realloc
#undef free
static int vp_live, vp_total, vp_fail_at = -1;
void * vp_malloc (size_t size)
{
	if (vp_total ++ == vp_fail_at)
		return NULL;
	vp_live ++;
	return malloc (size);
}
void * vp_calloc (size_t n, size_t size)
{
	if (vp_total ++ == vp_fail_at)
		return NULL;
	vp_live ++;
	return calloc (n, size);
}
void * vp_realloc (void * p, size_t size)
{
	if (vp_total ++ == vp_fail_at)
		return NULL;
	vp_live += p == NULL;
	return realloc (p, size);
}
void vp_free (void * p)
{
	vp_live -= p != NULL;
	free (p);
}
