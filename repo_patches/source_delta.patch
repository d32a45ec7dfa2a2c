From 19602b8e53a4f9fe53ce1883218b94cda6c656a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 01/29] fix: quota_use must not overflow the 32-bit unit
 counter

used_in_units + size_in_units wraps around when the limit is close to
QUOTA_MAX: a request that does not fit failed an assertion or, with
NDEBUG, was granted and reset the usage to a small number.
---
 include/small/quota.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 238d15e..d3e24d4 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -140,12 +140,13 @@ quota_use(struct quota *quota, size_t size)
 		uint32_t total_in_units = value >> 32;
 		uint32_t used_in_units = value & UINT32_MAX;
 
+		/* Usage never exceeds the limit, the sum may overflow. */
+		if (size_in_units > total_in_units - used_in_units)
+			return -1;
+
 		uint32_t new_used_in_units = used_in_units + size_in_units;
 		assert(new_used_in_units > used_in_units);
 
-		if (new_used_in_units > total_in_units)
-			return -1;
-
 		uint64_t new_value =
 			((uint64_t) total_in_units << 32) | new_used_in_units;
 
-- 
2.43.0


From 043fe85b58c4bd6fdba515190154565972d3b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 02/29] fix: allow quota_release of QUOTA_MAX bytes

quota_use grants QUOTA_MAX bytes when the limit allows, the same amount
must be accepted back.
---
 include/small/quota.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index d3e24d4..3575182 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -160,7 +160,7 @@ quota_use(struct quota *quota, size_t size)
 static inline ssize_t
 quota_release(struct quota *quota, size_t size)
 {
-	assert(size < QUOTA_MAX);
+	assert(size <= QUOTA_MAX);
 	uint32_t size_in_units = (size + (QUOTA_UNIT_SIZE - 1))
 				  / QUOTA_UNIT_SIZE;
 	assert(size_in_units);
-- 
2.43.0


From 1a946714bb318013205c2366705b13c649dcb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 03/29] fix: quota_lease must try exactly what it needs before
 failing

The amount requested from the source quota was halved until it dropped
below the required one, so a lease could be refused even though the
source had enough quota for it.
---
 include/small/quota_lessor.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/small/quota_lessor.h b/include/small/quota_lessor.h
index cdd15f7..864efd8 100644
--- a/include/small/quota_lessor.h
+++ b/include/small/quota_lessor.h
@@ -127,7 +127,7 @@ quota_lease(struct quota_lessor *lessor, ssize_t size)
 	size_t required = size + lessor->leased - lessor->used;
 	size_t use = required > QUOTA_USE_MIN ? required : QUOTA_USE_MIN;
 
-	for (; use >= required; use = use/2) {
+	for (;;) {
 
 		ssize_t used = quota_use(lessor->source, use);
 		if (used >= 0) {
@@ -135,8 +135,11 @@ quota_lease(struct quota_lessor *lessor, ssize_t size)
 			lessor->leased += size;
 			return size;
 		}
+		if (use == required)
+			return -1;
+		/* Try less, but not less than it is necessary. */
+		use = use / 2 > required ? use / 2 : required;
 	}
-	return -1;
 }
 
 /*
-- 
2.43.0


From 9e75c3c4964ea77ae128d58b4cdc37dc7c50d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 04/29] fix: lf_lifo_is_empty must ignore the ABA counter

After the last element is popped the head keeps the non-zero counter,
and lf_lifo_is_empty reported the list as not empty.
---
 include/small/lf_lifo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/small/lf_lifo.h b/include/small/lf_lifo.h
index 8181fef..1adc61f 100644
--- a/include/small/lf_lifo.h
+++ b/include/small/lf_lifo.h
@@ -114,7 +114,8 @@ lf_lifo_pop(struct lf_lifo *head)
 static inline bool
 lf_lifo_is_empty(struct lf_lifo *head)
 {
-	return head->next == NULL;
+	/* The ABA counter survives in the head of an emptied list. */
+	return lf_lifo(head->next) == NULL;
 }
 
 #if defined(__cplusplus)
-- 
2.43.0


From ca81b9b592211f32b517bfa31c2b5eff26c99594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 05/29] fix: slab_cache_check must use the order, not its
 truncated size

slab_cache_check() stored the size of the order in a uint8_t and used it
as an order: the checks of the statistics were done against the size of
another order, and hit an assertion when the size did not truncate to 0.
---
 small/slab_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/small/slab_cache.c b/small/slab_cache.c
index 5ac33ad..0684c21 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -437,7 +437,7 @@ slab_cache_check(struct slab_cache *cache)
 	     list <= cache->orders + cache->order_max;
 	     list++) {
 
-		uint8_t order = slab_order_size(cache, list - cache->orders);
+		uint8_t order = list - cache->orders;
 		ordered += list->stats.total;
 		used += list->stats.used;
 
-- 
2.43.0


From 352b93f1890eadb4495e0a28de35fbc0ff59cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:20 +0000
Subject: [PATCH 06/29] fix: slab_get must refuse a size that overflows with
 the slab header

slab_get() and slab_get_large() added the size of the slab header to the
requested size without an overflow check: a request close to SIZE_MAX was
granted with a block of a few bytes.
---
 small/slab_cache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/small/slab_cache.c b/small/slab_cache.c
index 0684c21..c42690c 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -270,6 +270,8 @@ slab_get_with_order(struct slab_cache *cache, uint8_t order)
 struct slab *
 slab_get_large(struct slab_cache *cache, size_t size)
 {
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	size += slab_sizeof();
 	if (quota_use(cache->arena->quota, size) < 0)
 		return NULL;
@@ -317,6 +319,8 @@ struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
 	struct slab *slab;
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	uint8_t order = slab_order(cache, size + slab_sizeof());
 	if (order == cache->order_max + 1)
 		slab = slab_get_large(cache, size);
-- 
2.43.0


From a8c6d8dbf530243d7027680e768dfe174f5689e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:56 +0000
Subject: [PATCH 07/29] fix: smalloc must account waste for the pool it
 allocated from

When the arena is exhausted, smalloc() deactivates idle pools and retries.
The pool it was using can be deactivated as well: the object was then
allocated from the deactivated pool, but the waste was computed for the
new used_pool, so it did not match what smfree() subtracts later, and
drifted.
---
 small/small.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/small/small.c b/small/small.c
index 666cb58..9464d52 100644
--- a/small/small.c
+++ b/small/small.c
@@ -337,26 +337,28 @@ smalloc(struct small_alloc *alloc, size_t size)
 			return NULL;
 		return slab_data(slab);
 	}
-	struct mempool *pool = &small_mempool->used_pool->pool;
-	assert(size <= pool->objsize);
-	void *ptr = mempool_alloc(pool);
+	struct small_mempool *used_pool = small_mempool->used_pool;
+	assert(size <= used_pool->pool.objsize);
+	void *ptr = mempool_alloc(&used_pool->pool);
 	if (ptr == NULL) {
 		/*
 		 * In case we run out of memory let's try to deactivate some
 		 * pools and release their sparse slabs. It might not help tho.
 		 */
 		small_mempool_group_sweep_sparse(alloc);
-		ptr = mempool_alloc(pool);
+		/* The pool in use could have been deactivated as well. */
+		used_pool = small_mempool->used_pool;
+		ptr = mempool_alloc(&used_pool->pool);
 	}
 
-	if (ptr != NULL && small_mempool->used_pool != small_mempool) {
+	if (ptr != NULL && used_pool != small_mempool) {
 		/*
 		 * Waste for this allocation is the difference between
 		 * the size of objects optimal (i.e. best-fit) mempool and
 		 * used mempool.
 		 */
 		small_mempool->waste +=
-			(small_mempool->used_pool->pool.objsize -
+			(used_pool->pool.objsize -
 			 small_mempool->pool.objsize);
 		/*
 		 * In case when waste for this mempool becomes greater than
-- 
2.43.0


From 5fb295d35e4fda922e0a9df21b48d8df3fec0633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 08/29] fix: region must refuse a size that overflows with its
 overhead

region_reserve_slow() added the block header and region_aligned_reserve()
added the alignment to the requested size without an overflow check: a
request close to SIZE_MAX was granted with a block of a few bytes.
---
 include/small/region.h | 2 ++
 small/region.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 27d142f..ae02496 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -261,6 +261,8 @@ region_alloc(struct region *region, size_t size)
 static inline void *
 region_aligned_reserve(struct region *region, size_t size, size_t alignment)
 {
+	if (size > SIZE_MAX - (alignment - 1))
+		return NULL;
 	/* reserve extra to allow for alignment */
 	void *ptr = region_reserve(region, size + alignment - 1);
 	/* assuming NULL==0, aligned NULL still a NULL */
diff --git a/small/region.c b/small/region.c
index 32ab981..202b08d 100644
--- a/small/region.c
+++ b/small/region.c
@@ -36,6 +36,8 @@
 void *
 region_reserve_slow(struct region *region, size_t size)
 {
+	if (size > SIZE_MAX - (rslab_sizeof() - slab_sizeof()))
+		return NULL;
 	/* The new slab must have at least this many bytes available. */
 	size_t slab_min_size = size + rslab_sizeof() - slab_sizeof();
 
-- 
2.43.0


From 4adb85e1b6c6ced67006774144eb577bd65bd767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 09/29] fix: region block usage must not be truncated to 32
 bits

A block of the region is as large as the largest allocation, but its
usage was stored in 32 bits. After an allocation of 4 GiB or more, the
usage of the block did not match the usage of the region, so
region_truncate() released blocks with older allocations.
---
 include/small/region.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index ae02496..ae29ec9 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -180,7 +180,7 @@ struct rslab
 	 * extra members.
 	 */
 	struct slab slab;
-	uint32_t used;
+	size_t used;
 };
 
 static inline uint32_t
@@ -202,7 +202,7 @@ rslab_data_end(struct rslab *slab)
 }
 
 /** How much memory is available in a given block? */
-static inline uint32_t
+static inline size_t
 rslab_unused(struct rslab *slab)
 {
 	return slab->slab.size - rslab_sizeof() - slab->used;
@@ -286,8 +286,8 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 		 * account for optional padding before the allocated
 		 * block (alignment)
 		 */
-		uint32_t effective_size = (uint32_t)(
-			(char *)ptr - (char *)rslab_data_end(slab) + size);
+		size_t effective_size =
+			(char *)ptr - (char *)rslab_data_end(slab) + size;
 
 		assert(effective_size <= rslab_unused(slab));
 
-- 
2.43.0


From f44e01c46fdc36845296eeb1a0c8288f8bc30921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 10/29] fix: region_reset must empty all blocks of the region

region_reset() is to mark the region as empty, keeping the blocks, but
it reset only the last block: region_used() of a region with several
blocks was not 0 after the reset.
---
 include/small/region.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index ae29ec9..9cea63b 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -309,13 +309,10 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 static inline void
 region_reset(struct region *region)
 {
-	if (! rlist_empty(&region->slabs.slabs)) {
-		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
-						       struct rslab,
-						       slab.next_in_list);
-		region->slabs.stats.used -= slab->used;
+	struct rslab *slab;
+	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list)
 		slab->used = 0;
-	}
+	region->slabs.stats.used = 0;
 #ifndef NDEBUG
 	region->reserved = false;
 #endif
-- 
2.43.0


From 6cddd214a105cfc8a735d35c17556057b94f3a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 11/29] fix: region_reserve_cb must not read a block of an
 empty region

When the reservation fails in an empty region, there is no first block:
the head of the list was read as one.
---
 include/small/region.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 9cea63b..42cfefa 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -358,6 +358,8 @@ region_reserve_cb(void *ctx, size_t *size)
 {
 	struct region *region = (struct region *) ctx;
 	void *ptr = region_reserve(region, *size);
+	if (ptr == NULL)
+		return NULL;
 	struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
 					       struct rslab,
 					       slab.next_in_list);
-- 
2.43.0


From 26c1b98254a5f6b2975ea2a256e41e6c762952e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:26 +0000
Subject: [PATCH 12/29] fix: lsregion must refuse a size that overflows

---
 include/small/lsregion.h | 3 ++-
 small/lsregion.c         | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/small/lsregion.h b/include/small/lsregion.h
index bec534e..fb762dd 100644
--- a/include/small/lsregion.h
+++ b/include/small/lsregion.h
@@ -247,7 +247,8 @@ lsregion_aligned_reserve(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		void *pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if (pos <= lslab_end(slab) &&
+		    size <= (size_t)((char *)lslab_end(slab) - (char *)pos))
 			return pos;
 	}
 	return lsregion_aligned_reserve_slow(lsregion, size, alignment,
diff --git a/small/lsregion.c b/small/lsregion.c
index 4b3446c..ba5b006 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -47,9 +47,12 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if (pos <= lslab_end(slab) &&
+		    size <= (size_t)((char *)lslab_end(slab) - (char *)pos))
 			return pos;
 	}
+	if (size > SIZE_MAX - lslab_sizeof() - (alignment - 1))
+		return NULL;
 	/*
 	 * Need to allocate more, since it can happen, that the
 	 * new slab won't be aligned by the needed alignment, and
-- 
2.43.0


From df0d08f850e573cb7686e5b5ff4f99850b0b8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:26 +0000
Subject: [PATCH 13/29] fix: lsregion must give a new id to a reused cached
 slab

---
 small/lsregion.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/small/lsregion.c b/small/lsregion.c
index ba5b006..ffbafde 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -78,6 +78,11 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		/* If there is the cached slab then use it. */
 		slab = lsregion->cached;
 		lsregion->cached = NULL;
+		/*
+		 * The id must grow along the list, but other slabs could
+		 * be added since this one was cached.
+		 */
+		slab->slab_id = ++lsregion->slab_id;
 		rlist_add_tail_entry(&lsregion->slabs.slabs, slab,
 				     next_in_list);
 	} else {
-- 
2.43.0


From f62c64a41c35706fef95f4810d61a20931c1885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:26 +0000
Subject: [PATCH 14/29] fix: lsregion_to_iovec must not stop at an unused slab

---
 small/lsregion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/small/lsregion.c b/small/lsregion.c
index ffbafde..e6c25bc 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -111,9 +111,9 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 	int max_iovcnt = *iovcnt;
 	int cnt = 0;
 	rlist_foreach_entry(lslab, &lsregion->slabs.slabs, next_in_list) {
-		/* There might be an unused slab at the end of the list. */
+		/* There might be unused slabs, reserved but not allocated from. */
 		if (lslab->max_id == LSLAB_NOT_USED_ID)
-			break;
+			continue;
 		/* An already seen slab with no new allocations. */
 		if (lslab->slab_id < prev_id ||
 		    (lslab->slab_id == prev_id &&
-- 
2.43.0


From 29dc0d08b857f2658419c0480c6a4884bc07d7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:17 +0000
Subject: [PATCH 15/29] fix: matras_destroy_read_view must free extents of
 blocks the previous view lacks

---
 small/matras.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 991eeac..5c5f983 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -406,8 +406,12 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		return;
 	if (v->root == next_view->root && next_view->block_count)
 		return;
-	if (prev_view && v->root == prev_view->root && prev_view->block_count)
-		return;
+	/*
+	 * The previous view may share the extents of the upper levels, but
+	 * have less blocks: the extents of the rest belong to this view.
+	 */
+	bool root_is_shared = prev_view && prev_view->block_count &&
+			      v->root == prev_view->root;
 	void **extent1 = (void **)v->root;
 	void **extent1n = (void **) next_view->root;
 	void **extent1p = 0;
@@ -421,15 +425,15 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
 		void **extent2p = 0;
+		bool extent2_is_shared = false;
 		if (next_view->block_count > j1) {
 			if (extent1[i1] == extent1n[i1])
 				continue;
 			extent2n = (void **) extent1n[i1];
 		}
 		if (prev_view && prev_view->block_count > j1) {
-			if (extent1[i1] == extent1p[i1])
-				continue;
 			extent2p = (void **) extent1p[i1];
+			extent2_is_shared = extent2 == extent2p;
 		}
 		for (i2 = j2 = 0;
 		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
@@ -445,9 +449,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			}
 			matras_free_read_view_extent(m, extent3);
 		}
-		matras_free_read_view_extent(m, extent2);
+		if (!extent2_is_shared)
+			matras_free_read_view_extent(m, extent2);
 	}
-	matras_free_read_view_extent(m, extent1);
+	if (!root_is_shared)
+		matras_free_read_view_extent(m, extent1);
 }
 
 /*
-- 
2.43.0


From 5ba1fc7f41c2368216701c704193dee3f40867bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:21 +0000
Subject: [PATCH 16/29] fix: matras must not shift identifiers by 32 bits and
 more with large extents

---
 small/matras.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 5c5f983..285f697 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -78,6 +78,9 @@ matras_create(struct matras *m, matras_id_t block_size,
 		log2_capacity = 32;
 	m->capacity = (size_t)1 << log2_capacity;
 	m->shift1 = log1 * 2 - log2 - log3;
+	/* Identifiers are 32-bit: with large extents the first one is enough. */
+	if (m->shift1 > 31)
+		m->shift1 = 31;
 	m->shift2 = log1 - log2;
 	m->mask1 = (((matras_id_t)1) << m->shift1) - ((matras_id_t)1);
 	m->mask2 = (((matras_id_t)1) << m->shift2) - ((matras_id_t)1);
@@ -146,16 +149,15 @@ matras_destroy(struct matras *m)
 	if (m->head.block_count == 0)
 		return;
 
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	size_t i1 = 0, j1 = 0, i2, j2;
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			matras_free_extent(m, extent3);
@@ -417,10 +419,9 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	void **extent1p = 0;
 	if (prev_view)
 		extent1p = (void **) prev_view->root;
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	size_t i1 = 0, j1 = 0, i2, j2;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
@@ -436,7 +437,7 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			extent2_is_shared = extent2 == extent2p;
 		}
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			if (next_view->block_count > j1 + j2) {
-- 
2.43.0


From f9eaf1dd0f7cfd13e894c3bc8740704618fbf189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:36 +0000
Subject: [PATCH 17/29] fix: ibuf must refuse a size that overflows with its
 positions

---
 include/small/ibuf.h | 4 ++--
 small/ibuf.c         | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/small/ibuf.h b/include/small/ibuf.h
index b67dc9a..aff8016 100644
--- a/include/small/ibuf.h
+++ b/include/small/ibuf.h
@@ -151,7 +151,7 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size);
 static inline void *
 ibuf_reserve(struct ibuf *ibuf, size_t size)
 {
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		ibuf_unpoison_unallocated(ibuf);
 		return ibuf->wpos;
 	}
@@ -162,7 +162,7 @@ static inline void *
 ibuf_alloc(struct ibuf *ibuf, size_t size)
 {
 	void *ptr;
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		/*
 		 * In case of using same buffer we need to unpoison newly
 		 * allocated memory after previous ibuf_alloc or poison after
diff --git a/small/ibuf.c b/small/ibuf.c
index 03370da..e1b1189 100644
--- a/small/ibuf.c
+++ b/small/ibuf.c
@@ -29,6 +29,7 @@
  * SUCH DAMAGE.
  */
 #include "ibuf.h"
+#include <stdint.h>
 #include <string.h>
 #include "slab_cache.h"
 
@@ -69,7 +70,7 @@ ibuf_reinit(struct ibuf *ibuf)
 void *
 ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 {
-	assert(ibuf->wpos + size > ibuf->end);
+	assert(size > ibuf_unused(ibuf));
 	size_t used = ibuf_used(ibuf);
 	size_t capacity = ibuf_capacity(ibuf);
 	/*
@@ -78,11 +79,14 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 	 * by moving existing data to the beginning.
 	 * Otherwise, get a bigger buffer.
 	 */
-	if (size + used <= capacity) {
+	if (size <= capacity - used) {
 		ibuf_unpoison_consumed(ibuf);
 		ibuf_unpoison_unallocated(ibuf);
 		memmove(ibuf->buf, ibuf->rpos, used);
 	} else {
+		/* Such a capacity can't be reached by doubling. */
+		if (size > SIZE_MAX / 2 - used)
+			return NULL;
 		/* Use start_capacity as allocation factor. */
 		size_t new_capacity = capacity * 2;
 		if (new_capacity < ibuf->start_capacity)
-- 
2.43.0


From 831c417291beecb816abd2d701dcb39a11cb6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 18/29] fix: obuf must refuse a size that overflows with the
 vector length

---
 include/small/obuf.h | 4 ++--
 small/obuf.c         | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/small/obuf.h b/include/small/obuf.h
index 898bc27..192fe76 100644
--- a/include/small/obuf.h
+++ b/include/small/obuf.h
@@ -175,7 +175,7 @@ obuf_reserve(struct obuf *buf, size_t size)
 {
 	void *ptr = NULL;
 	assert(!buf->reserved);
-	if (buf->iov[buf->pos].iov_len + size > buf->capacity[buf->pos]) {
+	if (size > buf->capacity[buf->pos] - buf->iov[buf->pos].iov_len) {
 		ptr = obuf_reserve_slow(buf, size);
 	} else {
 		struct iovec *iov = &buf->iov[buf->pos];
@@ -199,7 +199,7 @@ obuf_alloc(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	void *ptr;
-	if (iov->iov_len + size <= buf->capacity[buf->pos]) {
+	if (size <= buf->capacity[buf->pos] - iov->iov_len) {
 		ptr = (char *) iov->iov_base + iov->iov_len;
 	} else {
 		ptr = obuf_reserve_slow(buf, size);
diff --git a/small/obuf.c b/small/obuf.c
index dd0b030..8d6c73b 100644
--- a/small/obuf.c
+++ b/small/obuf.c
@@ -29,6 +29,7 @@
  * SUCH DAMAGE.
  */
 #include "obuf.h"
+#include <stdint.h>
 #include <string.h>
 
 #include "slab_cache.h"
@@ -173,6 +174,9 @@ obuf_dup(struct obuf *buf, const void *data, size_t size)
 void *
 obuf_reserve_slow(struct obuf *buf, size_t size)
 {
+	/* Such a capacity can't be reached by doubling. */
+	if (size > SIZE_MAX / 2)
+		return NULL;
 	struct iovec *iov = &buf->iov[buf->pos];
 	size_t capacity = buf->capacity[buf->pos];
 	if (iov->iov_len > 0) {
-- 
2.43.0


From bf0db7df632a34bba5bcfdfc269dd12b8df650d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:49 +0000
Subject: [PATCH 19/29] fix: static buffer must refuse a size that overflows
 with its position

---
 include/small/static.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/small/static.h b/include/small/static.h
index ab28cb4..e1ff8c6 100644
--- a/include/small/static.h
+++ b/include/small/static.h
@@ -73,7 +73,7 @@ static_reset(void)
 static inline void *
 static_reserve(size_t size)
 {
-	if (static_storage_pos + size > SMALL_STATIC_SIZE) {
+	if (size > SMALL_STATIC_SIZE - static_storage_pos) {
 		if (size > SMALL_STATIC_SIZE)
 			return NULL;
 		static_storage_pos = 0;
@@ -105,6 +105,8 @@ static_alloc(size_t size)
 static inline void *
 static_aligned_reserve(size_t size, size_t alignment)
 {
+	if (size > SMALL_STATIC_SIZE)
+		return NULL;
 	void *unaligned = static_reserve(size + alignment - 1);
 	if (unaligned == NULL)
 		return NULL;
-- 
2.43.0


From 992cc1dbb68aa80a9b78b79a1217587805d00e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:33 +0000
Subject: [PATCH 20/29] fix: rlist_cut_before must look for the item in the
 list it cuts

---
 include/small/rlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/rlist.h b/include/small/rlist.h
index ae27127..5cd1400 100644
--- a/include/small/rlist.h
+++ b/include/small/rlist.h
@@ -244,7 +244,7 @@ rlist_splice_tail(struct rlist *head1, struct rlist *head2)
 static SMALL_ALWAYS_INLINE void
 rlist_cut_before(struct rlist *head1, struct rlist *head2, struct rlist *item)
 {
-	if (head1->next == item) {
+	if (head2->next == item) {
 		rlist_create(head1);
 		return;
 	}
-- 
2.43.0


From e4dea110f849125047193bfceb6ec0bab714eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 21/29] fix: rb iterators must have room for paths of
 alternating colors

---
 include/small/rb.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/small/rb.h b/include/small/rb.h
index 12dc6bd..4bdea01 100644
--- a/include/small/rb.h
+++ b/include/small/rb.h
@@ -64,9 +64,10 @@ enum {
 /*
  * Max height of the tree which can be iterated over.
  * The tree can have no more nodes than x86_64 has distinct
- * addresses.
+ * addresses. On the longest path black and red nodes alternate, so
+ * it has up to twice as many nodes as there are bits in an address.
  */
-#define RB_MAX_TREE_HEIGHT 48
+#define RB_MAX_TREE_HEIGHT 96
 
 /* Left accessors. */
 #define	rbtn_left_get(a_type, a_field, a_node)				\
-- 
2.43.0


From a14b5c3717906912df8dd8139f2cfc0da1f39689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:29 +0000
Subject: [PATCH 22/29] fix: small_asan_alloc must fail if the size overflows

The size of the header and the paddings was added to the requested size
without an overflow check: a request close to SIZE_MAX was granted with a
block of a few bytes.
---
 small/util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/small/util.c b/small/util.c
index a1abf0c..a5b5f37 100644
--- a/small/util.c
+++ b/small/util.c
@@ -89,8 +89,10 @@ small_asan_alloc(size_t payload_size, size_t alignment, size_t header_size)
 			    header_size +
 			    SMALL_POISON_ALIGNMENT - 1 +
 			    sizeof(uint16_t) +
-			    2 * alignment - 1 +
-			    payload_size;
+			    2 * alignment - 1;
+	if (small_unlikely(payload_size > SIZE_MAX - alloc_size))
+		small_xmalloc_fail(payload_size, __FILE__, __LINE__);
+	alloc_size += payload_size;
 	char *alloc = (char *)small_xmalloc(alloc_size);
 
 	char *payload = alloc + alloc_size - payload_size;
-- 
2.43.0


From 8f0fa60f5536fa4ed608efc3e759098eea727f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:29 +0000
Subject: [PATCH 23/29] fix: ASAN slab cache must initialize its usage

slab_cache_create() left cache->used uninitialized: slab_cache_used()
returned garbage unless the memory of the cache was zeroed beforehand.
---
 small/slab_cache_asan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index af89995..72ea5f6 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -35,6 +35,7 @@ void
 slab_cache_create(struct slab_cache *cache, struct slab_arena *arena)
 {
 	quota_lessor_create(&cache->quota, arena->quota);
+	cache->used = 0;
 	cache->id = small_asan_reserve_id();
 	slab_cache_set_thread(cache);
 }
-- 
2.43.0


From 8b49817ea43ccb645698b87cd840d36c2d3f7dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:39 +0000
Subject: [PATCH 24/29] fix: ASAN region_join must take the last bytes of a
 partly joined block

If the joined size ended inside of an allocation, the first bytes of the
allocation were copied instead of the last ones.
---
 small/region_asan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/small/region_asan.c b/small/region_asan.c
index ea61e8c..7f37028 100644
--- a/small/region_asan.c
+++ b/small/region_asan.c
@@ -145,7 +145,8 @@ region_join(struct region *region, size_t size)
 		if (offset < copy_size)
 			copy_size = offset;
 		memcpy(ret + offset - copy_size,
-		       small_asan_payload_from_header(alloc), copy_size);
+		       (char *)small_asan_payload_from_header(alloc) +
+		       alloc->used - copy_size, copy_size);
 
 		offset -= copy_size;
 		alloc = rlist_next_entry(alloc, link);
-- 
2.43.0


From 440c187e4dad2f46b7354b4a5fc61a568b538d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:25 +0000
Subject: [PATCH 25/29] fix: ASAN lsregion_to_iovec must not skip allocations
 with equal ids

A savepoint remembered the id of the last flushed allocation, and all the
allocations with ids not greater were skipped, including those with the
same id that were made later or did not fit into the previous vectors.
They were never flushed.
---
 include/small/lsregion_asan.h |  8 ++++++++
 small/lsregion_asan.c         | 10 ++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/small/lsregion_asan.h b/include/small/lsregion_asan.h
index 5876dca..c969a48 100644
--- a/include/small/lsregion_asan.h
+++ b/include/small/lsregion_asan.h
@@ -55,6 +55,8 @@ struct lsregion {
 	struct rlist allocations;
 	/** Total size of allocated memory. */
 	size_t used;
+	/** Number of the next allocation, see lsregion_allocation. */
+	int64_t next_slab_id;
 };
 
 /** Extra data associated with each lsregion allocation. */
@@ -70,6 +72,11 @@ struct lsregion_allocation {
 	size_t used;
 	/** Allocation id. */
 	int64_t id;
+	/**
+	 * Number of the allocation. Unlike id it is unique, so that it tells
+	 * in a savepoint which allocations are already flushed.
+	 */
+	int64_t slab_id;
 	/** Allocation alignment. */
 	size_t alignment;
 };
@@ -79,6 +86,7 @@ lsregion_create(struct lsregion *lsregion, struct slab_arena *arena)
 {
 	(void)arena;
 	lsregion->used = 0;
+	lsregion->next_slab_id = 0;
 	rlist_create(&lsregion->allocations);
 }
 
diff --git a/small/lsregion_asan.c b/small/lsregion_asan.c
index c153407..a7fa093 100644
--- a/small/lsregion_asan.c
+++ b/small/lsregion_asan.c
@@ -51,6 +51,7 @@ lsregion_prepare_buf(struct lsregion *lsregion, size_t size, size_t alignment)
 	alloc->size = size;
 	alloc->used = 0;
 	alloc->id = LSLAB_NOT_USED_ID;
+	alloc->slab_id = lsregion->next_slab_id++;
 	alloc->alignment = alignment;
 	rlist_add_tail_entry(&lsregion->allocations, alloc, link);
 	return alloc;
@@ -104,19 +105,20 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 		  int *iovcnt, struct lsregion_svp *svp)
 {
 	struct lsregion_allocation *alloc;
-	int64_t prev_id = svp->slab_id;
+	int64_t prev_slab_id = svp->slab_id;
 	int max_iovcnt = *iovcnt;
 	int64_t max_alloc_id = LSLAB_NOT_USED_ID;
 	int cnt = 0;
 	rlist_foreach_entry(alloc, &lsregion->allocations, link) {
-		/* An already seen allocation. */
-		if (alloc->id <= prev_id)
+		/* An already seen or reserved but not used allocation. */
+		if (alloc->slab_id <= prev_slab_id ||
+		    alloc->id == LSLAB_NOT_USED_ID)
 			continue;
 		if (cnt >= max_iovcnt)
 			break;
 		iov->iov_base = small_asan_payload_from_header(alloc);
 		iov->iov_len = alloc->used;
-		svp->slab_id = alloc->id;
+		svp->slab_id = alloc->slab_id;
 		/*
 		 * This isn't correct but will do for tests which span one slab
 		 * in a normal lsregion implementation. pos isn't used to
-- 
2.43.0


From bd910a3ae9e915a88217d9b9be49929e4bd73d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:10 +0000
Subject: [PATCH 26/29] fix: ASAN obuf must not loop or wrap on sizes that
 overflow

Once allocations share vectors, the requested size was added to the length
of the vector without an overflow check, so that a request close to
SIZE_MAX was granted without room, and doubling the capacity up to a size
above SIZE_MAX / 2 never ended.
---
 small/obuf_asan.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/small/obuf_asan.c b/small/obuf_asan.c
index f885a35..bc1b877 100644
--- a/small/obuf_asan.c
+++ b/small/obuf_asan.c
@@ -67,9 +67,8 @@ obuf_unallocated_size(const struct obuf *buf)
 static void
 obuf_prepare_buf(struct obuf *buf, size_t size)
 {
-	size_t used = buf->iov[buf->pos].iov_len + size;
 	if (buf->pos < SMALL_OBUF_IOV_CHECKED_MAX ||
-	    used > buf->capacity[buf->pos]) {
+	    size > obuf_unallocated_size(buf)) {
 		size_t capacity;
 		if (buf->pos < SMALL_OBUF_IOV_CHECKED_MAX) {
 			/* See limit explanation in the header. */
@@ -81,7 +80,8 @@ obuf_prepare_buf(struct obuf *buf, size_t size)
 			capacity = buf->start_capacity;
 			capacity <<= buf->pos - SMALL_OBUF_IOV_CHECKED_MAX;
 			while (capacity < size)
-				capacity <<= 1;
+				capacity = capacity <= SIZE_MAX / 2 ?
+					   capacity << 1 : size;
 		}
 
 		/* See obuf.pos semantics in struct definition. */
-- 
2.43.0


From 7e70db2da6f60b0d6a8ae86cfb83b5827d0c64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 27/29] fix: ASAN slab_get must refuse a size that overflows
 with the slab header

As in the regular implementation.
---
 small/slab_cache_asan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index 72ea5f6..a1f6977 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -44,6 +44,8 @@ SMALL_NO_SANITIZE_ADDRESS struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
 	small_asan_assert(pthread_equal(cache->thread_id, pthread_self()));
+	if (size > SIZE_MAX - slab_sizeof() - small_getpagesize())
+		return NULL;
 	size = slab_real_size(cache, size);
 	struct slab_cache_object *obj =
 			small_asan_alloc(size,
-- 
2.43.0


From 54860f8a45a50065fd5e583fe2488a87d8d4a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 28/29] fix: region_alloc_array must not truncate the size of
 the array

The size was kept in an int: an array of 4 GiB and more was granted with
the low 31 bits of its size, and a size of 2 GiB became a huge one. If the
size does not fit into size_t the allocation must be refused.
---
 include/small/region.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/small/region.h b/include/small/region.h
index 42cfefa..af207e3 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -399,7 +399,9 @@ struct RegionGuard {
 })
 
 #define region_alloc_array(region, T, count, size) ({				\
-	int _tmp_ = sizeof(T) * (count);					\
+	size_t _count_ = (count);						\
+	size_t _tmp_ = _count_ <= SIZE_MAX / sizeof(T) ?			\
+		       sizeof(T) * _count_ : SIZE_MAX;				\
 	*(size) = _tmp_;							\
 	(T *)region_aligned_alloc((region), _tmp_, alignof(T));			\
 })
-- 
2.43.0


From d1e5fa56bf1ce68c66b59dd836f62d3ddf07b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 29/29] fix: small_test_feature must not shift by an unchecked
 feature

The behaviour of the shift is undefined for 64 and more.
---
 small/small_features.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/small/small_features.c b/small/small_features.c
index 06654eb..dee6d2b 100644
--- a/small/small_features.c
+++ b/small/small_features.c
@@ -113,11 +113,11 @@ static rt_helper_t rt_helpers[FEATURE_MAX] = {
 bool
 small_test_feature(unsigned int feature)
 {
-	uint64_t mask = SMALL_FEATURE_MASK(feature);
-
 	if (feature >= FEATURE_MAX)
 		return false;
 
+	uint64_t mask = SMALL_FEATURE_MASK(feature);
+
 	/* Make sure it is compiled in. */
 	if (!(builtin_mask & mask))
 		return false;
-- 
2.43.0

