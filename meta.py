"""Text of every property: the source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
META = []
NA = []


def M(pid, title, statement, over, text, why, files, mech, observe, state=(), na=None):
    META.append(dict(id=pid, title=title, statement=statement,
                     quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                  observe_at=observe, hook_needed=None)))
    if na:
        NA.append(dict(property=pid, reason=na))


M("C01", "Memory quota: the limit is never exceeded and usage is exact",
  "quota_use() grants exactly the requested size rounded up to whole 1 KB units when the result stays within the limit, "
  "and otherwise returns -1 and changes nothing, for every limit, usage and size. quota_release() gives back exactly the "
  "rounded size, and quota_set() accepts a limit exactly when it is not below the usage, rounding it up to a unit. Usage "
  "reported never exceeds the limit.",
  ["inputs", "histories"], "all 64-bit sizes and limits up to QUOTA_MAX, all short histories of use/release/set from any reachable usage",
  "test/quota.cc uses a handful of fixed sizes; the boundary between granted and refused, rounding and 32-bit unit overflow depend on every size.",
  ["include/small/quota.h"],
  [("quota_use", "include/small/quota.h"), ("quota_release", "include/small/quota.h"), ("quota_set", "include/small/quota.h")],
  ["quota_use", "quota_release", "quota_set", "quota_used", "quota_total"],
  [("value", "limit and usage in units packed in one 64-bit word", "include/small/quota.h")])
M("C02", "Memory quota is linearizable under concurrent use",
  "When several threads use, release and set one quota concurrently, the limit is never exceeded at any moment, no "
  "granted or released byte is lost, and every call returns what some sequential order of the calls would return. A call "
  "is refused only if it would not have fitted at some moment during the call.",
  ["schedules", "inputs"], "all interleavings of the atomic accesses of 2 threads with 2-3 calls each and 3 threads with 1-2 calls each, symbolic sizes and limits",
  "test/quota.cc runs random threads: it samples a handful of interleavings per run and checks only the final sum.",
  ["include/small/quota.h", "pmatomic/pmatomic.h"],
  [("CAS retry loops", "include/small/quota.h")], ["quota_use", "quota_release", "quota_set", "quota_used", "quota_total"])
M("C03", "Quota lessor: leases are exact and backed by the source quota",
  "The amount leased out is exact to the byte and always backed by what the lessor has taken from its source quota, which "
  "never exceeds its limit. A lease is granted in full whenever it fits into what is left in the source (and in the lessor), "
  "and otherwise is refused with the source unchanged. Memory that is returned goes back to the source once more than a bounded "
  "reserve is idle, and destroying the lessor returns everything.",
  ["inputs", "histories"], "any source limit up to the stated bound, any usage by others, any lease/return sizes, all short histories",
  "test/quota_lessor.c follows one scripted scenario; what is granted near exhaustion depends on the exact sizes left.",
  ["include/small/quota_lessor.h", "include/small/quota.h"],
  [("quota_lease", "include/small/quota_lessor.h"), ("quota_end_lease", "include/small/quota_lessor.h")],
  ["quota_lease", "quota_end_lease", "quota_leased", "quota_available", "quota_used"])
M("C04", "Lock-free LIFO: an element is popped exactly once, in LIFO order",
  "With any interleaving of concurrent pushes and pops, including an element that is popped and pushed again while another "
  "pop is in progress (ABA), every pushed element is popped at most once, none is lost, and a pop returns NULL only if "
  "the list was empty. Sequentially it is a stack, and lf_lifo_is_empty() tells whether a pop would return NULL.",
  ["schedules", "histories"], "all interleavings of 2-3 threads with up to 5 operations, all sequential histories to the stated length, any initial ABA counter",
  "test/lf_lifo.c is sequential and single-schedule; ABA needs a specific preemption between two loads and a CAS.",
  ["include/small/lf_lifo.h", "pmatomic/pmatomic.h"],
  [("ABA tag in the low 16 bits of the head", "include/small/lf_lifo.h"), ("CAS loops", "include/small/lf_lifo.h")],
  ["lf_lifo_push", "lf_lifo_pop", "lf_lifo_is_empty"])
M("C05", "Slab arena: exclusive, aligned slabs, charged to the quota, nothing leaked",
  "Every slab the arena gives out is wholly mapped, aligned to the slab size, and held by one owner at a time even under "
  "concurrent map/unmap; returned slabs are reused before new memory is mapped, and the quota is charged exactly for the "
  "distinct slabs, never beyond its limit. When mapping fails, or the quota is exhausted, NULL is returned and nothing stays "
  "charged or mapped. The memory is mapped private or shared, and left out of core dumps, as was requested. Destroying the "
  "arena (and a failed create) unmaps everything that was mapped exactly once.",
  ["schedules", "inputs", "fault_sequences", "histories"],
  "all requested slab sizes and preallocation sizes, any failing or misaligned mmap, all histories and interleavings within the stated lengths",
  "test/slab_arena.c and arena_mt.c never see mmap fail or return a misaligned region at a chosen point, and sample schedules.",
  ["small/slab_arena.c", "include/small/slab_arena.h", "include/small/lf_lifo.h", "include/small/quota.h"],
  [("slab_map", "small/slab_arena.c"), ("mmap_checked", "small/slab_arena.c"), ("slab_arena_create", "small/slab_arena.c")],
  ["slab_arena_create", "slab_map", "slab_unmap", "slab_arena_destroy", "quota_used"])

M("C06", "Slab cache: blocks are big enough, aligned, disjoint and reused",
  "A slab obtained from the slab cache has at least the requested usable size, is aligned to its own (power of two) size when it "
  "is an ordered slab, never overlaps another live slab nor memory that was given back to the arena, and keeps its contents until it is put. "
  "Any requested size is either served or refused with NULL, never wrapped to a smaller one, and a request is refused only when the arena, "
  "malloc or the quota refuses memory.",
  ["inputs", "histories", "fault_sequences"], "all 64-bit sizes, all histories of get/get_order/get_large/put within the stated lengths, failures at any point, all arena slab sizes",
  "test/slab_cache.c runs one random history with sizes in a narrow range and never sees memory refused; splits and merges of buddies depend on the whole history.",
  ["small/slab_cache.c", "include/small/slab_cache.h"],
  [("buddy split and merge", "small/slab_cache.c"), ("slab_get_large", "small/slab_cache.c"), ("slab_order", "include/small/slab_cache.h")],
  ["slab_get", "slab_get_order", "slab_get_large", "slab_put", "slab_data", "slab_capacity"])
M("C07", "Slab cache: accounting is exact and memory goes back to the arena",
  "slab_cache_used() is always the sum of the sizes of the slabs in use, the memory held is exactly what was mapped and not yet unmapped, "
  "and the quota is charged exactly for what is held. Putting a slab merges it with its free buddies, so that when everything is put no fragment "
  "remains, at most one arena slab is kept per cache, and destroying the cache returns all of it. A refused request changes no account.",
  ["inputs", "histories", "fault_sequences"], "all 64-bit sizes, all histories within the stated lengths, arena and malloc failures at any point",
  "test/slab_cache.c calls slab_cache_check() on one random history; an account that drifts only after a failure, or one missed merge, goes unnoticed.",
  ["small/slab_cache.c", "include/small/slab_cache.h"],
  [("slab_put_with_order", "small/slab_cache.c"), ("slab_get_order", "small/slab_cache.c"), ("stats", "small/slab_cache.c")],
  ["slab_cache_used", "slab_cache_check", "quota_used", "slab_cache_destroy"])
M("C08", "mempool: objects are exclusive, within the pool's slabs, and keep their data",
  "Every object a mempool returns lies wholly inside the object area of one of its slabs, is aligned to the largest power of two that divides the object size, "
  "overlaps no other live object, and keeps its contents until it is freed, whatever the order of frees. An allocation fails only when no slab "
  "has room and the slab cache refuses memory.",
  ["inputs", "histories", "fault_sequences"], "all object sizes in the stated range, all histories of allocations and frees within the stated lengths, failures at any point",
  "test/mempool.c runs one random history of few object sizes without failures.",
  ["small/mempool.c", "include/small/mempool.h", "small/slab_cache.c"],
  [("free list and uninitialized tail of mslab", "small/mempool.c"), ("hot_slabs tree and cold_slabs list", "small/mempool.c")],
  ["mempool_alloc", "mempool_free", "mslab_alloc", "mslab_free"])
M("C09", "mempool: slabs are reused lowest-address first, spare returned, stats exact",
  "The pool's used and total are exact after every operation, including refused ones. An allocation takes memory from the slab with the lowest "
  "address that has room, a new slab is taken only when none has room, a slab that becomes empty is kept as the only spare or returned to the "
  "slab cache, and destroying the pool returns every slab.",
  ["inputs", "histories", "fault_sequences"], "all object sizes in the stated range, all histories within the stated lengths, failures at any point",
  "test/mempool.c checks only totals of one random history; the transitions between hot, cold and spare slabs depend on the exact order of frees.",
  ["small/mempool.c", "include/small/mempool.h", "small/slab_cache.c"],
  [("mslab_free and spare", "small/mempool.c"), ("mempool_alloc and first_hot_slab", "small/mempool.c")],
  ["mempool_used", "mempool_total", "mempool_count", "slab_cache_used"])
M("C10", "small_class: size classes are monotonic, tight, and consistent both ways",
  "For every factor, granularity and minimal size, each size maps to a class whose size is at least as large, while the previous class is "
  "smaller than the size; class sizes are strictly increasing multiples of the granularity. The actual factor is close to the requested one "
  "and the waste of a size within its class is bounded by it.",
  ["inputs"], "all sizes up to the stated bound with symbolic minimal sizes; a grid of factors and granularities",
  "test/small_class.cc samples sizes and factors; class borders depend on bit arithmetic on every size.",
  ["small/small_class.c", "include/small/small_class.h"],
  [("small_class_calc_offset_by_size", "include/small/small_class.h"), ("small_class_create", "small/small_class.c")],
  ["small_class_calc_offset_by_size", "small_class_calc_size_by_offset", "actual_factor"])
M("C11", "small allocator: objects fit, are exclusive, aligned, and freed by their size",
  "An object from smalloc() has at least the requested size, is aligned to the granularity, overlaps no other live object, and keeps its "
  "contents until smfree() with the same size, which returns it to the pool it came from, even if the allocator has since switched the pools "
  "used for its size. Requests above the largest pooled size get their own slab. An allocation fails only if memory is refused.",
  ["inputs", "histories", "fault_sequences"], "all sizes up to the stated bound, all histories within the stated lengths, failures at any point",
  "test/small_alloc.c runs one random history; which pool serves a size depends on the accumulated waste, that is on the whole history.",
  ["small/small.c", "include/small/small.h", "small/small_class.c", "small/mempool.c"],
  [("small_mempool_search and pool groups", "small/small.c"), ("appropriate_pool_mask and waste", "small/small.c")],
  ["smalloc", "smfree", "small_alloc_info"])
M("C12", "small allocator: used, total and waste accounting is exact",
  "The allocator's used memory is the sum of the sizes of the objects given out (by pool object size, or by slab for large objects), its total "
  "is what its pools and large slabs hold, the waste of every pool is the sum over its objects of what its own pool would have saved, and "
  "freeing everything brings all of them back to zero. small_alloc_info() describes how the next object is placed.",
  ["inputs", "histories", "fault_sequences"], "all sizes up to the stated bound, all histories within the stated lengths, failures at any point",
  "test/small_alloc.c sums up statistics of one random history and never checks the waste after a pool was swept.",
  ["small/small.c", "include/small/small.h", "small/mempool.c"],
  [("small_mempool_waste accounting", "small/small.c"), ("small_stats", "small/small.c")],
  ["small_stats", "small_alloc_info", "slab_cache_used"])
M("C13", "region: allocations are contiguous, disjoint and survive until truncated",
  "Every region allocation of any size is either refused or gives that many contiguous, aligned as requested, bytes that overlap no other live "
  "allocation and keep their contents until truncated, reset or freed; allocating up to the reserved size returns exactly the reserved memory. "
  "region_join() returns the last bytes allocated, contiguous and in order. Truncating to an earlier usage mark keeps everything allocated before it.",
  ["inputs", "histories", "fault_sequences"], "all 64-bit sizes (placement), sizes around the block sizes (contents), all histories within the stated lengths, failures at any point",
  "test/region.c allocates a few sizes; block switching, truncation and join across blocks depend on sizes relative to what is left in the blocks.",
  ["small/region.c", "include/small/region.h", "small/slab_cache.c"],
  [("region_reserve_slow", "small/region.c"), ("region_truncate", "small/region.c"), ("region_join", "small/region.c")],
  ["region_alloc", "region_aligned_alloc", "region_reserve", "region_join", "region_truncate"])
M("C14", "region: usage is exact, truncate restores it, and memory is returned",
  "region_used() grows by the allocated size (and alignment padding), region_truncate() to a mark sets it to exactly that mark, reset and free set "
  "it to zero, and region_total() is what its blocks occupy. Blocks no longer used are returned to the slab cache, reset keeps no more than documented, "
  "free returns everything, and a refused allocation changes no account. Callbacks report each allocation and truncation.",
  ["inputs", "histories", "fault_sequences"], "all 64-bit sizes, all histories within the stated lengths, failures at any point",
  "test/region.c checks the usage after a few fixed steps.",
  ["small/region.c", "include/small/region.h", "small/slab_cache.c"],
  [("region_truncate", "small/region.c"), ("region_reset", "include/small/region.h"), ("stats.used", "include/small/region.h")],
  ["region_used", "region_total", "slab_cache_used"])
M("C15", "lsregion: chunks live exactly until their id is collected; memory is exact",
  "A chunk allocated from an lsregion is aligned as asked, overlaps no other chunk, and stays mapped and in place until lsregion_gc() with an id "
  "not less than the ids of all the chunks in its block. Used and total are exact, requests of any size are served or refused, never wrapped, and "
  "collecting returns the blocks to the arena, malloc and quota they came from, all but at most one cached arena slab; destroy returns everything.",
  ["inputs", "histories", "fault_sequences"], "all 64-bit sizes and ids, all histories within the stated lengths, arena, malloc and quota failures at any point",
  "test/lsregion.c allocates fixed sizes in scripted sequences without failures.",
  ["small/lsregion.c", "include/small/lsregion.h"],
  [("lsregion_aligned_reserve_slow", "small/lsregion.c"), ("lsregion_gc", "include/small/lsregion.h")],
  ["lsregion_alloc", "lsregion_aligned_alloc", "lsregion_reserve", "lsregion_gc", "lsregion_used", "lsregion_total", "quota_used"])
M("C16", "lsregion_to_iovec: every chunk is flushed exactly once, in order",
  "Successive lsregion_to_iovec() calls with one savepoint, mixed with allocations, reservations and collection of what was flushed or not, return "
  "every byte allocated since the savepoint that is still there exactly once and in order, no more vectors than asked for, and the id of the last "
  "chunk flushed; nothing is skipped while vectors are left.",
  ["inputs", "histories"], "all sizes up to the stated bound and ids, all histories within the stated lengths, one or many vectors a call",
  "test/lsregion.c flushes a few scripted sequences; a savepoint in a block that was collected and reused needs a specific history.",
  ["small/lsregion.c", "include/small/lsregion.h"],
  [("lsregion_to_iovec and slab ids", "small/lsregion.c"), ("reuse of the cached slab", "include/small/lsregion.h")],
  ["lsregion_to_iovec"])
M("C17", "matras: blocks and read views keep exactly their contents",
  "Every identifier below the number of allocated blocks translates to a distinct, aligned block, fresh identifiers being handed out in order, "
  "and each block holds what was last written to it after matras_touch() until it is freed. A read view shows every block "
  "exactly as it was when the view was created, whatever is allocated, freed or touched later and in whatever order views are destroyed. "
  "A call that runs out of memory fails and changes nothing.",
  ["inputs", "histories", "fault_sequences"], "all histories within the stated length over tiny extents, all contents, failure of any extent allocation, all extent and block sizes for the id translation",
  "test/matras.c runs scripted and random histories with few views; which extents are shared depends on the order of creation, touch, free and destruction.",
  ["small/matras.c", "include/small/matras.h"],
  [("matras_touch_no_check", "small/matras.c"), ("matras_dealloc", "small/matras.c"), ("matras_create_read_view, matras_destroy_read_view", "small/matras.c"), ("shifts and masks", "small/matras.c")],
  ["matras_alloc", "matras_alloc_range", "matras_get", "matras_view_get", "matras_touch"])
M("C18", "matras: extents are accounted exactly, freed exactly once and never leaked",
  "The number of extents reported (head and read views) equals the extents held from the allocator at every point of any history of allocation, freeing, touching and "
  "read views created and destroyed in any order, including when an extent allocation fails. Every extent is freed exactly once, and after all views and the matras are destroyed "
  "nothing is held. After matras_touch_reserve(n) succeeds, n touches succeed without calling the allocator.",
  ["inputs", "histories", "fault_sequences"], "all histories within the stated length over tiny extents, failure of any extent allocation",
  "test/matras.c checks the extent count at the end of its scripted histories.",
  ["small/matras.c", "include/small/matras.h"],
  [("matras_destroy_read_view", "small/matras.c"), ("matras_alloc_internal undo", "small/matras.c"), ("matras_touch_reserve", "small/matras.c")],
  ["matras_extent_count", "matras_allocator alloc/free calls", "matras_stats"])
M("C19", "ibuf: unread input is kept intact, in one piece, through any growth",
  "Bytes put into an ibuf and not yet consumed stay contiguous, in order and unchanged through any sequence of reserve, alloc, consume, discard, truncate, "
  "reset and shrink calls. A reservation of any size is refused, changing nothing, or gives at least that much writable room after the data, and allocating up to it "
  "does not move it. A shrink keeps the data and never enlarges the buffer; destroy returns all of its memory.",
  ["inputs", "histories", "fault_sequences"], "all 64-bit sizes (placement), sizes around what is left in the buffer (contents), all histories within the stated lengths, failures at any point",
  "test/ibuf.c makes a handful of calls; when the data is moved or reallocated depends on sizes relative to what was consumed.",
  ["small/ibuf.c", "include/small/ibuf.h"],
  [("ibuf_reserve_slow", "small/ibuf.c"), ("ibuf_shrink", "small/ibuf.c"), ("ibuf_alloc, ibuf_discard", "include/small/ibuf.h")],
  ["ibuf_reserve", "ibuf_alloc", "ibuf_used", "ibuf_capacity", "ibuf->rpos, wpos"])
M("C20", "obuf: the output vectors hold exactly what was written, in order",
  "The vectors of an obuf hold exactly the bytes allocated and duplicated into it, in order, through any sequence of calls, and obuf_size() is their number; memory once given out does not move. "
  "A reservation of any size is refused or gives at least that much room, and allocating up to it returns exactly it. "
  "Rolling back to a savepoint leaves exactly what was there at the savepoint, a failed call loses nothing, and destroy returns all memory.",
  ["inputs", "histories", "fault_sequences"], "all 64-bit sizes (placement), sizes around what is left in the block (contents), all histories within the stated lengths, failures at any point",
  "test/obuf.c compares random writes without failures, rollback over reused vectors and big sizes.",
  ["small/obuf.c", "include/small/obuf.h"],
  [("obuf_dup", "small/obuf.c"), ("obuf_reserve_slow", "small/obuf.c"), ("obuf_rollback_to_svp", "small/obuf.c")],
  ["obuf_alloc", "obuf_reserve", "obuf_dup", "obuf_size", "obuf->iov", "obuf_rollback_to_svp"])
M("C21", "static buffer: requests lie inside it, disjoint until it is recycled",
  "Every request to the static buffer, of any size and alignment, is refused (only if it cannot fit into the whole buffer) or returns aligned memory inside the calling thread's buffer. "
  "Allocations do not overlap until the buffer is recycled, which happens only when the rest of it is too small; allocating a reserved size returns the reserved memory. "
  "A refused request changes nothing, and threads do not share buffers.",
  ["inputs", "histories", "schedules"], "all 64-bit sizes and all alignments, from every position, all histories within the stated lengths; 2-3 threads, every interleaving",
  "test/static.c makes a few fixed allocations from one thread.",
  ["small/static.c", "include/small/static.h"],
  [("static_reserve, static_aligned_reserve", "include/small/static.h"), ("static_storage_buffer", "small/static.c")],
  ["static_alloc", "static_reserve", "static_aligned_alloc", "static_aligned_reserve"])
M("C22", "lists: every operation leaves exactly the sequences it should",
  "After any rlist operation (add, delete, shift, move, swap, splice, cut, at any position of any lists) every list, walked in either direction by any of the iteration macros, "
  "holds exactly the elements it should in the right order, and elements deleted or shifted are linked to themselves. The safe iteration macros reach every element even if elements are deleted on the way. "
  "A lifo returns elements in the reverse order of pushing.",
  ["inputs", "histories"], "all arrangements of elements within the stated number, all positions and elements; all histories by induction",
  "test/rlist.c runs fixed sequences over lists of a few elements.",
  ["include/small/rlist.h", "include/small/lifo.h"],
  [("rlist_cut_before, rlist_splice, rlist_swap", "include/small/rlist.h"), ("rlist_foreach_entry_safe", "include/small/rlist.h"), ("lifo_push, lifo_pop", "include/small/lifo.h")],
  ["rlist_foreach", "rlist_first, rlist_last", "rlist_empty", "lifo_pop"])
M("C23", "rb tree: order, balance and augmentation survive any insertion and removal",
  "After any history of insertions and removals the tree holds exactly the nodes inserted and not removed, in order of their keys; it is balanced (the root is black, no red node has "
  "a red child, all paths have as many black nodes), and every node's augmented value is that of its current subtree. It holds for plain and compact nodes "
  "and for comparison functions that take the tree.",
  ["inputs", "histories"], "all trees within the stated number of black levels, all keys, all nodes to remove; all histories within the stated length",
  "test/rb.c and test/rb_rand.cc run random histories; the rebalancing case depends on the colors along the path.",
  ["include/small/rb.h"],
  [("insert", "include/small/rb.h"), ("remove", "include/small/rb.h"), ("rbtn_augment", "include/small/rb.h")],
  ["insert", "remove", "first, last", "root and links of nodes"])
M("C24", "rb tree: searches, iterators and walks find exactly what they should",
  "In any tree and for any key, which may match any number of adjacent nodes or none: search finds a match if there is one, nsearch the last match or else the successor, psearch the first match or else the predecessor, "
  "and the iterator searches the closest node of the relation asked for. Iterators step through all nodes in both directions in order, iteration with a callback visits all nodes from the start up to where it is stopped, "
  "and a walk visits exactly the nodes allowed, in pre-order. Trees of any size that fits into memory can be iterated.",
  ["inputs", "histories"], "all trees within the stated number of nodes, all keys and ranges of matches, all sequences of steps within the stated length",
  "test/rb.c searches a few trees of fixed shape and one key per node; paths longer than 48 nodes need millions of nodes.",
  ["include/small/rb.h"],
  [("nsearch, psearch", "include/small/rb.h"), ("isearch_le, isearch_ge, isearch_lt, isearch_gt", "include/small/rb.h"), ("inext, iprev", "include/small/rb.h"), ("RB_MAX_TREE_HEIGHT", "include/small/rb.h"), ("walk_next", "include/small/rb.h")],
  ["search, nsearch, psearch", "isearch*", "inext, iprev, iterator_get", "iter, reverse_iter", "walk_next"])
M("C25", "Rounding and feature helpers are right for every value",
  "small_align() and small_align_down() give the nearest multiple of a power of two not less, and not greater, than the value; small_round() gives the nearest power of two not less than "
  "the size, and small_lb() the binary logarithm, for every value in their domain. small_getpagesize() is what the system tells, or 4096 if it tells nothing. "
  "small_test_feature() is true exactly for known features that the running system accepts, and leaves nothing mapped.",
  ["inputs", "fault_sequences"], "all 64-bit values, all powers of two, all page sizes and feature numbers, any failure of mmap and madvise",
  "test/util.c and test/features.c try a few values; the borders of the shifts need particular ones.",
  ["include/small/util.h", "small/small_features.c"],
  [("small_align, small_align_down, small_round, small_lb", "include/small/util.h"), ("small_test_feature", "small/small_features.c")],
  ["small_align", "small_align_down", "small_round", "small_lb", "small_getpagesize", "small_test_feature"])
M("C26", "ASAN build: objects are exact, surrounded by poison, and misuse is detected",
  "In the AddressSanitizer build every object is a block of its own, aligned exactly as promised (not more), wholly accessible, with everything around it poisoned or, where that is impossible, guarded so that "
  "a write is detected when it is freed. Freeing an object to another allocator or with another size, using a reservation otherwise than reserved, truncating to what is not a mark, joining more than is used "
  "are detected; correct use never is. Statistics and quota are exact, all memory is freed, and a request of any size is never granted with less memory.",
  ["inputs", "histories"], "all payload sizes and alignments in the stated range with any block address, all histories within the stated lengths, any 64-bit size for refusals",
  "the asan tests of test/util.c and of the allocators check a few sizes and one misuse each.",
  ["small/util.c", "include/small/util.h", "small/mempool_asan.c", "small/small_asan.c", "small/slab_cache_asan.c", "small/slab_arena_asan.c", "small/region_asan.c", "small/obuf_asan.c", "small/lsregion_asan.c"],
  [("small_asan_alloc, small_asan_free", "small/util.c"), ("mempool_free", "small/mempool_asan.c"), ("smfree", "small/small_asan.c"), ("region_aligned_alloc_reserved, region_truncate", "small/region_asan.c"), ("obuf_alloc", "small/obuf_asan.c")],
  ["small_asan_alloc", "__asan_address_is_poisoned", "small_on_assert_failure", "mempool_alloc", "smalloc", "slab_get", "region_alloc", "obuf_alloc"])

M("C27", "Allocators stacked on one arena and quota stay apart and conserve memory",
  "When a small allocator, a mempool, regions, an ibuf, an obuf and an lsregion share slab caches, one slab arena and one quota, no byte is ever "
  "given to two of them, and what each holds keeps its contents whatever the others do. After every operation, a refused one included, the "
  "quota usage is exactly what is taken from the system: the mapped slabs and the large blocks, each rounded up to the quota unit. An allocation is refused only "
  "when the system refuses memory or the limit would be exceeded. Destroying the components in either order returns every block, and "
  "destroying the arena unmaps every page.",
  ["inputs", "histories", "fault_sequences"], "all short histories over components of all kinds, all quota limits in the stated range, failures of mmap and malloc at any point, any contents",
  "The tests exercise each component alone on a private cache with ample memory; interference and conservation across components depend on the order of operations and on where memory runs out.",
  ["small/slab_arena.c", "small/slab_cache.c", "small/small.c", "small/mempool.c", "small/region.c", "small/lsregion.c", "small/ibuf.c", "small/obuf.c", "include/small/quota.h"],
  [("slab_map, slab_unmap", "small/slab_arena.c"), ("slab_get, slab_put", "small/slab_cache.c"), ("lsregion_gc", "include/small/lsregion.h")],
  ["smalloc", "smfree", "mempool_alloc", "mempool_free", "region_alloc", "region_truncate", "ibuf_alloc", "obuf_alloc", "lsregion_alloc", "lsregion_gc",
   "quota_used", "slab_cache_check", "slab_arena_destroy"])
M("C28", "Threads with slab caches of their own can share an arena and a quota",
  "Threads that each have their own slab cache, region and lsregion over one shared arena and one shared quota need no further locking: in every interleaving memory is "
  "given to one thread at a time, what a thread holds keeps its contents, the quota limit holds at every moment, requests fail only when memory or "
  "the limit is exhausted, and when all is destroyed nothing stays charged, allocated or mapped.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of the atomic accesses of the threads, all short histories, all quota limits in the stated range",
  "test/slab_arena.c and test/quota.cc run threads that rarely collide, each on one primitive; a lost update needs a particular interleaving of map, unmap and large blocks.",
  ["small/slab_arena.c", "small/slab_cache.c", "include/small/quota.h", "include/small/lf_lifo.h", "small/lsregion.c"],
  [("slab_map, slab_unmap", "small/slab_arena.c"), ("quota_use, quota_release", "include/small/quota.h"), ("slab_get_large, slab_put_large", "small/slab_cache.c")],
  ["region_alloc", "region_free", "lsregion_alloc", "lsregion_gc", "quota_used"])
