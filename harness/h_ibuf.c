/* ibuf: contents. OPS operations with sizes around what is left in the buffer. */
#include "vp.h"
#include "env_slab.h"
#ifdef ENABLE_ASAN
#include "env_malloc.h"
#endif
#include "ibuf.h"
#define MAXU 1024
static struct ibuf b;
static char shadow[MAXU];	/* the unread data */
static uint32_t used;
static char salt, gen;

#ifdef ENABLE_ASAN
/* The unread data is all that may be accessed (poison begins and ends at multiples of 8, so that is what can be checked). */
static void
check_poison(bool unallocated)
{
	if (b.buf == NULL)
		return;
	for (char *q = (char *)(((uintptr_t)b.buf + 7) & ~7ull); q + 8 <= b.rpos; q += 8)
		VP_ASSERT(vp_is_poisoned(q) && vp_is_poisoned(q + 7), "what is consumed is poisoned");
	for (char *q = b.rpos; q < b.wpos; q++)
		VP_ASSERT(!vp_is_poisoned(q), "unread data is accessible");
	for (char *q = b.wpos; unallocated && q < b.end; q += q < b.wpos + 64 ? 1 : 64)
		VP_ASSERT(vp_is_poisoned(q), "what is not allocated is poisoned");
	if (unallocated && b.wpos < b.end)
		VP_ASSERT(vp_is_poisoned(b.end - 1), "what is not allocated is poisoned up to its end");
	if (unallocated)
		VP_WITNESS("poisoned");
}
#endif

static uint32_t
pick(void)
{
	uint32_t consumed = (uint32_t)ibuf_pos(&b), unused = (uint32_t)ibuf_unused(&b);
	switch (vp_choose(6)) {
	case 0: return 1;
	case 1: return 40;
	case 2: return unused;
	case 3: return unused + 1;
	case 4: return unused + consumed;
	default: return unused + consumed + 1;
	}
}

int
main(void)
{
	env_slab_init(1 << 20);
	salt = (char)vp_range(0, 255);
	memset(&b, 0xa5, sizeof(b));
	ibuf_create(&b, &env_cache, START);
	bool tail = false;	/* what follows the data is certainly poisoned */
	for (int i = 0; i < OPS; i++) {
		vp_merge();
		uint64_t op = vp_choose(6);
		if (op <= 1) {
			uint32_t size = pick(), take = size;
			VP_ASSUME(size > 0);
			char *p;
			if (op == 0) {
				p = (char *)(b.wpos == b.buf ? ibuf_alloc_cb(&b, size) : ibuf_alloc(&b, size));
			} else {
				/* reserve, write, use a part */
				size_t room = size;
				p = (char *)(vp_bool() ? ibuf_reserve(&b, size) : ibuf_reserve_cb(&b, &room));
				if (p != NULL) {
					VP_ASSERT(room >= size && ibuf_unused(&b) >= size, "what was asked for is reserved");
					if (room == ibuf_unused(&b))
						for (uint32_t k = 0; k < room; k++)
							p[k] = 'x';
					if (vp_bool())
						take = (size + 1) / 2;
					char *q = (char *)ibuf_alloc(&b, take);
					VP_ASSERT(p == q, "reserved memory stays where it was");
				}
			}
			if (p == NULL) {
				VP_ASSERT(env_failed > 0, "refused only out of memory");
				VP_WITNESS("refused");
			} else {
				VP_ASSUME(used + take <= MAXU);
				for (uint32_t k = 0; k < take; k++)
					p[k] = shadow[used + k] = (char)(salt + gen * 31 + (char)k);
				gen++;
				used += take;
				tail = true;
				VP_WITNESS("added");
			}
		} else if (op == 2) {
			/* consume a part or all */
			uint32_t k = vp_bool() ? used : (used + 1) / 2;
			if (vp_bool())
				ibuf_consume(&b, k);
			else
				ibuf_consume_before(&b, b.rpos + k);
			memmove(shadow, shadow + k, used - k);
			memset(shadow + used - k, 0, k);
			used -= k;
		} else if (op == 3) {
			uint32_t k = vp_bool() ? 1 : used / 2;
			VP_ASSUME(k <= used);
			if (vp_bool())
				ibuf_discard(&b, k);
			else
				ibuf_truncate(&b, used - k);
			memset(shadow + used - k, 0, k);
			used -= k;
			tail = true;
		} else if (op == 4) {
			char *p = b.buf;
			ibuf_shrink(&b);
			if (b.buf != p) {
				VP_WITNESS("shrunk");
				tail = true;
			}
		} else {
			if (vp_bool())
				ibuf_reset(&b);
			else
				ibuf_reinit(&b);
			memset(shadow, 0, used);
			used = 0;
			tail = true;
		}
#ifdef ENABLE_ASAN
		check_poison(tail);
#endif
		VP_ASSERT(ibuf_used(&b) == used, "used");
		for (uint32_t k = 0; k < used; k++)
			VP_ASSERT(b.rpos[k] == shadow[k], "unread data stays intact");
		env_failed = env_nmaps = env_nunmaps = 0;
	}
	ibuf_destroy(&b);
	VP_ASSERT(slab_cache_used(&env_cache) == 0, "destroy returns everything");
#ifdef ENABLE_ASAN
	VP_ASSERT(env_malloc_live == 0, "destroy frees everything");
#endif
	VP_WITNESS("end");
	return 0;
}
