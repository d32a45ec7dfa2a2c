/* malloc()/free() of the environment: any allocation may fail (at most
 * env_malloc_fail_left times), sizes requested are recorded. The sources are
 * compiled with malloc & co. renamed to these. */
#ifndef ENV_MALLOC_H
#define ENV_MALLOC_H
#undef malloc
#undef free
#undef calloc
#undef realloc
static int env_malloc_live, env_malloc_failed, env_malloc_fail_left, env_malloc_calls;
static size_t env_malloc_last;
void *
env_malloc(size_t size)
{
	env_malloc_calls++;
	env_malloc_last = size;
	if (env_malloc_fail_left > 0 && vp_bool()) {
		env_malloc_fail_left--;
		env_malloc_failed++;
		VP_WITNESS("malloc-failed");
		return NULL;
	}
	void *p = malloc(size);
	if (p == NULL)
		env_malloc_failed++;
	else
		env_malloc_live++;
	return p;
}
void
env_free(void *p)
{
	if (p != NULL)
		env_malloc_live--;
	free(p);
}
#endif
