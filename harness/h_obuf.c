/* obuf: contents. OPS operations with sizes around what is left in the block. */
#include "vp.h"
#include "env_slab.h"
#ifdef ENABLE_ASAN
#include "env_malloc.h"
#endif
#include "obuf.h"
#define MAXU 2048
static struct obuf b;
static char shadow[MAXU], src[MAXU];
static uint32_t used;
static char salt, gen;
static struct obuf_svp svp;
static bool have_svp;
static uint32_t svp_used;

static uint32_t
pick(void)
{
	uint32_t left = (uint32_t)(b.capacity[b.pos] - b.iov[b.pos].iov_len);
	switch (vp_choose(5)) {
	case 0: return 1;
	case 1: return 50;
	case 2: return left;
	case 3: return left + 1;
	default: return left + 200;
	}
}

static void
add(char *p, uint32_t size)
{
	VP_ASSUME(used + size <= MAXU);
	for (uint32_t k = 0; k < size; k++) {
		shadow[used + k] = (char)(salt + gen * 31 + (char)k);
		if (p != NULL)
			p[k] = shadow[used + k];
	}
	gen++;
	used += size;
}

static void
cut(uint32_t to)
{
	memset(shadow + to, 0, used - to);
	used = to;
}

static void
check(void)
{
	VP_ASSERT(obuf_size(&b) == used, "size");
	uint32_t off = 0;
	for (int i = 0; i < obuf_iovcnt(&b); i++) {
		const char *p = (const char *)b.iov[i].iov_base;
		VP_ASSERT(b.iov[i].iov_len <= used - off, "the vectors hold the size of the buffer");
		for (uint32_t k = 0; k < b.iov[i].iov_len; k++)
			VP_ASSERT(p[k] == shadow[off + k], "the vectors hold the data in order");
		off += (uint32_t)b.iov[i].iov_len;
	}
	VP_ASSERT(off == used, "the vectors hold all of the data");
#ifdef ENABLE_ASAN
	VP_ASSERT(env_malloc_live == obuf_iovcnt(&b), "every vector is a block of its own");
#endif
}

int
main(void)
{
	env_slab_init(1 << 20);
	salt = (char)vp_range(0, 255);
	memset(&b, 0xa5, sizeof(b));
	obuf_create(&b, &env_cache, START);
#ifdef ENABLE_ASAN
	small_on_assert_failure = env_on_fail;
	if (vp_bool()) {	/* to the vectors shared by allocations */
		while (b.pos < SMALL_OBUF_IOV_CHECKED_MAX - 1)
			add((char *)obuf_alloc(&b, 1), 1);
	}
#endif
	for (int i = 0; i < OPS; i++) {
		vp_merge();
		uint64_t op = vp_choose(6);
		if (op == 0) {
			uint32_t size = pick();
			VP_ASSUME(size > 0);
			char *p = (char *)(vp_bool() ? obuf_alloc(&b, size) : obuf_alloc_cb(&b, size));
			if (p != NULL) {
				add(p, size);
#ifdef ENABLE_ASAN
				VP_ASSERT(vp_is_poisoned(p + size), "what follows an allocation is poisoned");
#endif
			} else
				VP_WITNESS("refused");
		} else if (op == 1) {
			size_t want = pick(), room = want;
			VP_ASSUME(want > 0);
			char *p = (char *)obuf_reserve_cb(&b, &room);
			if (p != NULL) {
				VP_ASSERT(room >= want, "what was asked for is reserved");
				for (size_t k = 0; k < room; k++)
					p[k] = 'x';
				uint32_t take = (uint32_t)(vp_bool() ? want : (want + 1) / 2);
				char *q = (char *)obuf_alloc(&b, take);
				VP_ASSERT(p == q, "allocating reserved memory does not move it");
				add(p, take);
#ifdef ENABLE_ASAN
				VP_ASSERT(vp_is_poisoned(p + take), "what follows an allocation is poisoned");
#endif
				VP_WITNESS("reserved");
			}
		} else if (op == 2) {
			uint32_t size = pick(), u = used;
			VP_ASSUME(used + size <= MAXU);
			for (uint32_t k = 0; k < size; k++)
				src[k] = (char)(salt + gen * 31 + (char)k);
			uint32_t done = (uint32_t)obuf_dup(&b, src, size);
			memset(src, 0, sizeof(src));
			VP_ASSERT(done <= size, "no more is copied than was given");
			if (done != size) {
				VP_ASSERT(env_failed > 0, "all is copied unless out of memory");
				VP_WITNESS("partial");
			}
			add(NULL, done);
			VP_ASSERT(used == u + done, "what was copied is there");
			VP_WITNESS("dup");
		} else if (op == 3) {
			if (have_svp) {
				obuf_rollback_to_svp(&b, &svp);
				cut(svp_used);
				have_svp = false;
				memset(&svp, 0, sizeof(svp));
				svp_used = 0;
				VP_WITNESS("rollback");
			} else {
				svp = obuf_create_svp(&b);
				svp_used = used;
				have_svp = true;
				VP_ASSERT(obuf_svp_to_ptr(&b, &svp) == (char *)b.iov[b.pos].iov_base + b.iov[b.pos].iov_len, "a savepoint is where the data ends");
			}
		} else if (op == 4) {
			struct obuf_svp s0;
			obuf_svp_reset(&s0);
			if (vp_bool())
				obuf_reset(&b);
			else
				obuf_rollback_to_svp(&b, &s0);
			have_svp = false;
			memset(&svp, 0, sizeof(svp));
			svp_used = 0;
			cut(0);
		} else {
			VP_ASSUME(i == 0);	/* destroy and create */
			obuf_destroy(&b);
			memset(&b, 0xa5, sizeof(b));
			obuf_create(&b, &env_cache, START);
			cut(0);
		}
		check();
		env_failed = env_nmaps = env_nunmaps = 0;
	}
	obuf_destroy(&b);
	VP_ASSERT(slab_cache_used(&env_cache) == 0, "destroy returns everything");
#ifdef ENABLE_ASAN
	VP_ASSERT(env_malloc_live == 0, "destroy returns everything");
#endif
	VP_WITNESS("end");
	return 0;
}
