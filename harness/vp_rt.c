/* Native runtime of the harness layer: feeds recorded inputs (and schedule)
 * to a harness compiled against the real sources. */
#undef malloc
#undef free
#undef exit
#undef realloc
#undef calloc
#include "vp.h"
#include <unistd.h>
#include <sys/mman.h>
#ifdef VP_THREADS
#include <ucontext.h>
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define VP_ASAN 1
#endif

static uint64_t *vp_in;
static size_t vp_n, vp_cap, vp_pos;
static int *vp_sch;
static size_t vp_sn, vp_spos;

static void
vp_done(int code)
{
	fflush(stdout);
	fflush(stderr);
	_exit(code);
}

__attribute__((constructor)) static void
vp_load(void)
{
	const char *f = getenv("VP_INPUTS");
	if (f != NULL) {
		FILE *fp = fopen(f, "r");
		char kind[8];
		unsigned long long v;
		if (fp == NULL)
			_exit(80);
		while (fscanf(fp, "%7s %llu", kind, &v) == 2) {
			if (kind[0] == 'i') {
				if (vp_n == vp_cap) {
					vp_cap = vp_cap ? 2 * vp_cap : 64;
					vp_in = (uint64_t *)realloc(vp_in, vp_cap * sizeof(*vp_in));
				}
				vp_in[vp_n++] = v;
			} else {
				vp_sch = (int *)realloc(vp_sch, (vp_sn + 1) * sizeof(int));
				vp_sch[vp_sn++] = (int)v;
			}
		}
		fclose(fp);
	}
}

uint64_t
vp_u64(void)
{
	if (vp_pos >= vp_n) {
		printf("INPUTS-EXHAUSTED\n");
		vp_done(79);
	}
	return vp_in[vp_pos++];
}

uint64_t
vp_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = vp_u64();
	vp_assume(v >= lo && v <= hi);
	return v;
}

uint64_t
vp_choose(uint64_t n)
{
	uint64_t v = vp_u64();
	vp_assume(v < n);
	return v;
}

uint64_t vp_concretize(uint64_t v) { return v; }

void
vp_check(int cond, const char *msg)
{
	if (!cond) {
		printf("FAIL %s\n", msg);
		vp_done(77);
	}
}

void
vp_assume(int cond)
{
	if (!cond) {
		printf("INFEASIBLE\n");
		vp_done(78);
	}
}

void vp_witness(const char *name) { printf("WITNESS %s\n", name); }
void vp_log(const char *tag, uint64_t v) { printf("LOG %s %llu\n", tag, (unsigned long long)v); }
void vp_merge(void) {}
void vp_end(void) { vp_done(0); __builtin_unreachable(); }

void *
vp_alloc(size_t size, size_t align, int zero)
{
	void *p = NULL;
	if (size > (1ull << 36))
		return NULL;
	if (align < sizeof(void *))
		align = sizeof(void *);
	if (posix_memalign(&p, align, size) != 0)
		return NULL;
	if (zero)
		memset(p, 0, size);
	return p;
}

void vp_dealloc(void *p) { free(p); }

void
vp_protect(const void *p, size_t n)
{
	(void)p; (void)n;
#ifdef VP_ASAN
	__asan_poison_memory_region(p, n);
#endif
}

void
vp_unprotect(const void *p, size_t n)
{
	(void)p; (void)n;
#ifdef VP_ASAN
	__asan_unpoison_memory_region(p, n);
#endif
}

int
vp_accessible(const void *p, size_t n)
{
	(void)p; (void)n;
#ifdef VP_ASAN
	return n == 0 || __asan_region_is_poisoned((void *)p, n) == NULL;
#else
	return 1;
#endif
}

int
vp_is_poisoned(const void *p)
{
	(void)p;
#ifdef VP_ASAN
	return __asan_address_is_poisoned(p);
#else
	return 0;
#endif
}

void
vp_symbolic(void *p, size_t n)
{
	for (size_t i = 0; i < n; i++)
		((uint8_t *)p)[i] = (uint8_t)vp_u64();
}

/* ------------------------------------------------------------ threads */
#ifdef VP_THREADS
enum { VP_MAXT = 8, VP_STK = 1 << 18 };
static ucontext_t vp_ctx[VP_MAXT];
static int vp_state[VP_MAXT];	/* 0 runnable, 1 joining, 2 done */
static int vp_skip[VP_MAXT];
static int vp_nt = 1, vp_cur;
static void (*vp_fn[VP_MAXT])(void *);
static void *vp_arg[VP_MAXT];
static const char *vp_sh[64];
static size_t vp_shn[64];
static int vp_nsh;

int vp_tid(void) { return vp_cur; }

/** The copy of a thread-local variable of the current thread (zero at first). */
void *
vp_tls(void *p, uint64_t size)
{
	static struct { void *p, *copy; int t; } tab[64];
	static int n;
	if (vp_cur == 0)
		return p;
	for (int i = 0; i < n; i++)
		if (tab[i].p == p && tab[i].t == vp_cur)
			return tab[i].copy;
	if (n == 64)
		abort();
	tab[n].p = p;
	tab[n].t = vp_cur;
	tab[n].copy = aligned_alloc(4096, (size + 4095) & ~4095ull);
	memset(tab[n].copy, 0, size);
	return tab[n++].copy;
}

void
vp_shared(void *p, size_t n)
{
	vp_sh[vp_nsh] = (const char *)p;
	vp_shn[vp_nsh++] = n;
}

static int
vp_next(void)
{
	if (vp_spos >= vp_sn) {
		printf("SCHEDULE-EXHAUSTED\n");
		vp_done(79);
	}
	return vp_sch[vp_spos++];
}

static void
vp_switch(int t)
{
	int me = vp_cur;
	if (t < 0 || t >= vp_nt || vp_state[t] != 0) {
		printf("BAD-SCHEDULE\n");
		vp_done(79);
	}
	if (t == me)
		return;
	vp_cur = t;
	swapcontext(&vp_ctx[me], &vp_ctx[t]);
}

static void
vp_block(void)
{
	int run = 0;
	for (int t = 0; t < vp_nt; t++)
		run += vp_state[t] == 0;
	if (run == 0) {
		/* everybody else ended: the joiner goes on */
		int me = vp_cur;
		vp_state[0] = 0;
		vp_nt = 1;
		vp_cur = 0;
		if (me != 0)
			swapcontext(&vp_ctx[me], &vp_ctx[0]);
		return;
	}
	int t = vp_next();
	if (t >= 0 && t < vp_nt)
		vp_skip[t] = 1;
	vp_switch(t);
}

static void
vp_tramp(int t)
{
	vp_fn[t](vp_arg[t]);
	vp_state[t] = 2;
	vp_block();
	printf("BAD-SCHEDULE\n");
	vp_done(79);
}

void
vp_spawn(void (*fn)(void *), void *arg)
{
	int t = vp_nt++;
	vp_fn[t] = fn;
	vp_arg[t] = arg;
	vp_state[t] = 0;
	vp_skip[t] = 0;
	getcontext(&vp_ctx[t]);
	vp_ctx[t].uc_stack.ss_sp = malloc(VP_STK);
	vp_ctx[t].uc_stack.ss_size = VP_STK;
	vp_ctx[t].uc_link = NULL;
	makecontext(&vp_ctx[t], (void (*)(void))vp_tramp, 1, t);
}

void
vp_join(void)
{
	if (vp_nt == 1)
		return;
	vp_state[0] = 1;
	vp_block();
}

void
vp_sched_point(const void *p, int atomic)
{
	int live = 0, hit = atomic;
	for (int t = 0; t < vp_nt; t++)
		live += vp_state[t] == 0;
	if (vp_nt < 2 || live < 2)
		return;
	for (int i = 0; !hit && i < vp_nsh; i++)
		hit = (const char *)p >= vp_sh[i] && (const char *)p < vp_sh[i] + vp_shn[i];
	if (!hit)
		return;
	if (vp_skip[vp_cur]) {
		vp_skip[vp_cur] = 0;
		return;
	}
	int t = vp_next();
	if (t != vp_cur) {
		if (t >= 0 && t < vp_nt)
			vp_skip[t] = 1;
		vp_switch(t);
		/* resumed: the switch gave us our pending access */
		vp_skip[vp_cur] = 0;
	}
}
#else
int vp_tid(void) { return 0; }
#endif
