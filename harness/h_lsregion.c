/* lsregion: OPS operations with symbolic sizes and ids; arena, malloc and quota
 * may fail. FLUSH: with lsregion_to_iovec(). */
#include "vp.h"
#include "env_malloc.h"
#include "env_slab.h"
/* lsregion.h frees in inline functions */
#define malloc env_malloc
#define free env_free
#include "lsregion.h"
#ifdef FLUSH
#define A_MEM(c, m) ((void)0)
#define A_IOV(c, m) VP_ASSERT(c, m)
#else
#define A_MEM(c, m) VP_ASSERT(c, m)
#define A_IOV(c, m) ((void)0)
#endif
#ifndef MAXSIZE
#define MAXSIZE UINT64_MAX
#endif
#ifdef SIZES	/* long histories with three sizes and small steps of ids */
static uint64_t sizes[3];
#define ANY_SIZE sizes[vp_choose(3)]
#define ANY_ID (lastid + (int64_t)vp_choose(2))
#define GC_ID (n == 0 ? lastid : a[vp_choose(n)].id)
#else
#define ANY_SIZE vp_range(1, MAXSIZE)
#define ANY_ID (int64_t)vp_range(0, INT64_MAX)
#define GC_ID (int64_t)vp_range(0, INT64_MAX)
#endif
/* live chunks, in order of allocation; d is the size with padding */
static struct { char *p; struct lslab *s; uint64_t size, d; int64_t id; bool flushed; } a[OPS + 1];
static int n;
static struct lsregion r;
static struct lsregion_svp svp;

/** Is s one of the blocks? */
static bool
has(struct lslab *b)
{
	struct lslab *s;
	rlist_foreach_entry(s, &r.slabs.slabs, next_in_list)
		if (s == b)
			return true;
	return false;
}

static struct lslab *
last(void)
{
	return rlist_empty(&r.slabs.slabs) ? NULL : rlist_last_entry(&r.slabs.slabs, struct lslab, next_in_list);
}

static void
check(void)
{
	uint64_t used = 0, held = 0;
	struct lslab *s;
	for (int i = 0; i < n; i++) {
		used += a[i].d;
		s = a[i].s;
		A_MEM(has(s), "a chunk that was not collected stays in its block");
		uint64_t off = a[i].p - (char *)s;
		A_MEM((off >= lslab_sizeof()) & (off + a[i].size <= s->slab_used) & (s->slab_used <= s->slab_size),
		      "a chunk that was not collected stays in the used part of its block");
		int k = env_slab_of((char *)s);
		A_MEM(k < 0 || env_mapped[k], "a chunk that was not collected stays mapped");
	}
	A_MEM(lsregion_used(&r) == used, "used is the size of the chunks");
	int nlarge = 0;
	uint64_t charged = 0;
	rlist_foreach_entry(s, &r.slabs.slabs, next_in_list) {
		if (env_slab_of(s) < 0) {
			nlarge++;
			held += s->slab_size;
			charged += (s->slab_size + 1023) / 1024 * 1024;
		}
	}
	A_MEM(lsregion_total(&r) == held + (uint64_t)env_nmapped * ENV_SZ, "total is what is held");
	A_MEM(env_malloc_live == nlarge, "large blocks are freed with their chunks");
	A_MEM(quota_used(&env_quota) == charged, "the quota is charged for large blocks");
}

#ifdef FLUSH
static void
flush(int max)
{
	struct iovec iov[OPS + 2];
	int cnt = max;
	int64_t id = lsregion_to_iovec(&r, iov, &cnt, &svp);
	A_IOV(cnt >= 0 && cnt <= max, "no more vectors than asked for");
	uint64_t len = 0, want = 0;
	int64_t last = LSLAB_NOT_USED_ID;
	for (int k = 0; k < cnt; k++) {
		len += iov[k].iov_len;
		A_IOV(iov[k].iov_len > 0, "no empty vectors");
	}
	bool more = false;
	int at = 0;	/* vectors are in the order of the chunks */
	for (int i = 0; i < n; i++) {
		if (a[i].flushed)
			continue;
		int k;
		for (k = at; k < cnt; k++)
			if (a[i].p >= (char *)iov[k].iov_base && a[i].p + a[i].size <= (char *)iov[k].iov_base + iov[k].iov_len)
				break;
		if (k == cnt) {
			A_IOV(cnt == max, "everything new is flushed while there are vectors left");
			more = true;
			continue;
		}
		A_IOV(!more, "chunks are flushed in order");
		at = k;
		a[i].flushed = true;
		want += a[i].d;
		last = a[i].id;
		VP_WITNESS("flushed");
	}
	A_IOV(len == want, "each chunk is flushed once, and nothing else");
	A_IOV(id == last, "the identifier of the last flushed chunk is returned");
	if (more)
		VP_WITNESS("more");
}
#endif

int
main(void)
{
	env_slab_init(LIMIT);
#if !defined(FLUSH) && !defined(SIZES)
	env_malloc_fail_left = 1;
#endif
	memset(&r, 0xa5, sizeof(r));
	lsregion_create(&r, &env_arena);
	memset(&svp, 0xa5, sizeof(svp));
	lsregion_svp_create(&svp);
	int64_t lastid = 0;
#ifdef SIZES
	/* a part of a slab, most of it, more than it */
	sizes[0] = vp_range(8, 56);
	sizes[1] = vp_range(120, 180);
	sizes[2] = vp_range(217, 1000);
#endif
	for (int i = 0; i < OPS; i++) {
#ifdef SIZES
		vp_merge();
#endif
		uint64_t op = vp_choose(3);
		if (i == 0)
			VP_ASSUME(op < 2);
		uint64_t used0 = lsregion_used(&r), total0 = lsregion_total(&r);
		if (op == 0) {
			uint64_t size = ANY_SIZE, align = 1;
			int64_t id = ANY_ID;
			VP_ASSUME(id >= lastid);
			int f0 = env_failed + env_malloc_failed;
			uint64_t left = quota_total(&env_quota) - quota_used(&env_quota);
			char *p;
#if defined(FLUSH) || defined(SIZES)
			if (i % 2 == 0) {
#else
			if (vp_bool()) {
#endif
				p = (char *)lsregion_alloc(&r, size, id);
			} else {
				align = i % 2 ? 8 : 64;
#ifdef FLUSH
				p = (char *)lsregion_aligned_alloc(&r, size, align, id);
#else
				void *un = NULL;
				char *q = (char *)lsregion_aligned_reserve(&r, size, align, &un);
				p = (char *)lsregion_aligned_alloc(&r, size, align, id);
				A_MEM((q == p) | (q == NULL), "an allocation gets what was reserved");
				A_MEM(q == NULL || (q >= (char *)un) & (q - (char *)un < align), "the unaligned address is told");
#endif
			}
			if (p == NULL) {
				A_MEM((env_failed + env_malloc_failed > f0) | (size > left) | (size + 2048 > left), "refused only out of memory or quota");
				A_MEM(lsregion_used(&r) == used0 && lsregion_total(&r) == total0, "a refused allocation changes nothing");
				VP_WITNESS("refused");
			} else {
				lastid = id;
				A_MEM(((uintptr_t)p & (align - 1)) == 0, "aligned as asked");
				for (int k = 0; k < n; k++)
					A_MEM((p + size <= a[k].p) | (a[k].p + a[k].size <= p), "chunks do not overlap");
				uint64_t d = lsregion_used(&r) - used0;
				A_MEM((lsregion_used(&r) > used0) & (d >= size) & (d - size < align), "used grows by the size and the padding");
				a[n].p = p;
				a[n].s = last();
				a[n].size = size;
				a[n].d = d;
				a[n].flushed = false;
				a[n++].id = id;
				VP_WITNESS("allocated");
			}
		} else if (op == 1) {
			uint64_t size = ANY_SIZE;
			char *p = (char *)lsregion_reserve(&r, size);
			A_MEM(lsregion_used(&r) == used0, "reserved memory is not used");
			if (p != NULL) {
				struct lslab *s = last();
				A_MEM(s != NULL && (p == (char *)s + s->slab_used) & (size <= s->slab_size - s->slab_used), "reserved memory is in a block");
				VP_WITNESS("reserved");
			}
		} else if (op == 2) {
			int64_t id = GC_ID;
			/* the last chunk of every block decides */
			bool gone[OPS + 1];
			int keep = 0;
			for (int k = 0; k < n; k++) {
				int64_t max = 0;
				for (int j = 0; j < n; j++)
					if (a[j].s == a[k].s)
						max = a[j].id;
				gone[k] = max <= id;
			}
			lsregion_gc(&r, id);
			for (int k = 0; k < n; k++) {
				if (gone[k])
					continue;
				if (keep != k)
					a[keep] = a[k];
				keep++;
			}
			if (keep < n)
				VP_WITNESS("collected");
			n = keep;
			A_MEM(n > 0 || lsregion_total(&r) <= ENV_SZ, "at most one idle block is kept when everything is collected");
		}
#ifdef FLUSH
		if (i < OPS - 1 && vp_bool())
			flush(i % 2 ? OPS + 1 : 1);
#endif
		check();
#ifdef SIZES
		for (int k = n; k <= OPS; k++)
			memset(&a[k], 0, sizeof(a[k]));
		env_failed = env_nmaps = env_nunmaps = env_malloc_failed = 0;
#endif
	}
#ifdef FLUSH
	flush(OPS + 1);
	for (int i = 0; i < n; i++)
		A_IOV(a[i].flushed, "everything gets flushed");
	flush(OPS + 1);
#endif
	lsregion_destroy(&r);
	A_MEM(env_nmapped == 0 && env_malloc_live == 0 && quota_used(&env_quota) == 0, "destroy returns everything");
	VP_WITNESS("end");
	return 0;
}
