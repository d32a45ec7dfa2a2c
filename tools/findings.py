#!/usr/bin/env python3
"""Write known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C01", "19602b8", "quota_use of a size whose units overflow 32 bits was granted beyond the limit"),
 ("C01", "043fe85", "quota_release(QUOTA_MAX) hit an assertion although quota_use(QUOTA_MAX) is granted"),
 ("C03", "1a94671", "quota_lease skipped the exact size it needs when halving and refused a lease that fits"),
 ("C04", "9e75c3c", "lf_lifo_is_empty compared the tagged head with NULL: an emptied list was reported non-empty"),
 ("C07", "ca81b9b", "slab_cache_check failed on a consistent cache: it compared slab sizes with a size truncated to a byte"),
 ("C06", "352b93f", "slab_get and slab_get_large of a size near SIZE_MAX wrapped and returned a tiny slab"),
 ("C12", "a8c6d8d", "smalloc accounted the waste to the wrong pool when the pool was switched during the allocation"),
 ("C13", "5fb295d", "region_alloc and region_reserve of a size near SIZE_MAX wrapped and returned a tiny block"),
 ("C14", "4adb85e", "usage of a region block of 4 GiB and more was truncated to 32 bits"),
 ("C14", "f44e01c", "region_reset emptied the first block only: usage of the others remained accounted"),
 ("C13", "6cddd21", "region_reserve_cb read a block header out of the list head when an empty region could not get memory"),
 ("C15", "26c1b98", "lsregion_alloc and _reserve of a size near SIZE_MAX wrapped: the chunk lay outside any block"),
 ("C16", "df0d08f", "data in a reused cached slab was never flushed when a large slab was added after it had been cached"),
 ("C16", "f62c64a", "lsregion_to_iovec stopped at a reserved but unused slab and never flushed what followed"),
 ("C18", "29dc0d0", "matras_destroy_read_view leaked the extents of blocks that the previous read view does not have"),
 ("C17", "5ba1fc7", "matras shifted 32-bit identifiers by 32 and more with extents of 16 MB and larger"),
 ("C19", "f9eaf1d", "ibuf_alloc and ibuf_reserve of a size near SIZE_MAX wrapped: granted without room, or looped forever"),
 ("C20", "831c417", "obuf_alloc and obuf_reserve of a size near SIZE_MAX wrapped: granted without room, or looped forever"),
 ("C21", "bf0db7d", "static_alloc and static_aligned_alloc of a size near SIZE_MAX wrapped and returned memory outside the buffer"),
 ("C22", "992cc1d", "rlist_cut_before emptied the destination if its discarded old content began with the item to cut before"),
 ("C24", "e4dea11", "rb iterators and walks overflowed their path in trees higher than 48: 67 million insertions in decreasing order"),
 ("C26", "a14b5c3", "small_asan_alloc of a size near SIZE_MAX wrapped and gave an object outside a tiny block"),
 ("C26", "8f0fa60", "usage of the ASAN slab cache was never initialized"),
 ("C13", "8b49817", "ASAN region_join took the first bytes of a partly joined allocation instead of the last ones"),
 ("C16", "440c187", "ASAN lsregion_to_iovec never flushed allocations with an id equal to that of the last flushed one"),
 ("C20", "bd910a3", "ASAN obuf_alloc of a size near SIZE_MAX was granted without room, or looped forever, once vectors are shared"),
 ("C26", "7e70db2", "ASAN slab_get of a size near SIZE_MAX wrapped"),
 ("C13", "54860f8", "region_alloc_array truncated the size of the array to 31 bits"),
 ("C25", "d1e5fa5", "small_test_feature shifted by the feature number before checking it"),
]
KNOWN = [   # (property, identification, what)
 ("C17", dict(job="matras-dealloc-oom", kind="assert", msg="a read view keeps its extents when a block is freed and there is no memory to copy"),
  "matras_dealloc() ignores that matras_touch() failed: with a read view open and no memory for the copy it frees extents the read view still uses"),
]
d = [dict(property=p, status="fixed", commit=c, what=w, line="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in FIXED]
d += [dict(m, property=p, status="known", what=w, line="KNOWN-FINDING: property=%s %s" % (p, w)) for p, m, w in KNOWN]
json.dump(d, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
