LEVEL = "model_checking"
ASSUMPTIONS = []
PROPS = {}


def P(pid, *jobs, **kw):
    PROPS[pid] = dict(jobs=list(jobs), **kw)


def J(name, harness, srcs=(), bounds="", **kw):
    return dict(name=name, harness=harness, srcs=list(srcs), bounds=bounds, **kw)


P("C01",
  J("quota-seq", "h_quota.c", defs={"OPS": 2}, thorough={"OPS": 3},
    witnesses=["granted", "refused", "set", "notset", "released", "end"],
    bounds="any 64-bit limit and sizes; 2 operations (thorough 3), the first a use, so from any reachable usage"),
  )
P("C02",
  J("quota-mt2", "h_quota_mt.c", defs={"NT": 2, "OPS": 2}, threads=True, thorough={"OPS": 3},
    witnesses=["refused", "notset", "end"],
    bounds="2 threads x 2 operations (thorough 3), limit and sizes symbolic up to 63 units, every interleaving of atomic accesses"),
  J("quota-mt3", "h_quota_mt.c", defs={"NT": 3, "OPS": 1}, threads=True, thorough={"OPS": 2},
    witnesses=["refused", "notset", "end"],
    bounds="3 threads x 1 operation (thorough 2), limit and sizes symbolic up to 63 units"),
  )
P("C03",
  J("lessor-step", "h_quota_lessor.c", defs={"OPS": 4, "PREFIX": 1, "TOTALMAX": "(1ull<<22)", "MAXLEASE": "(1ull<<22)"},
    thorough={"TOTALMAX": "(1ull<<26)", "MAXLEASE": "(1ull<<25)"},
    witnesses=["leased", "refused", "returned", "end"], time=240, bounds="use by others, lease, return, then any operation: from any reachable lessor state; source limit and lease sizes up to 4 MB (thorough 64/32 MB)"),
  J("lessor-hist", "h_quota_lessor.c", defs={"OPS": 3, "TOTALMAX": "(1ull<<22)", "MAXLEASE": "(1ull<<22)"},
    thorough={"OPS": 4},
    witnesses=["leased", "refused", "returned", "end"], tier="thorough", time=300, bounds="thorough only: any 4 operations, limit and lease sizes up to 4 MB"),
  J("lessor-wide", "h_quota_lessor.c", defs={"OPS": 2, "MAXLEASE": "(1ull<<42)"},
    witnesses=["leased", "refused", "returned", "end"], time=200, bounds="any 2 operations, any source limit up to QUOTA_MAX, sizes up to 4 TB"))

P("C04",
  J("lifo-seq", "h_lifo.c", defs={"OPS": 7}, thorough={"OPS": 9},
    witnesses=["empty", "popped", "end"], bounds="any 7 operations (thorough 9) on 3 elements, any initial ABA counter"),
  J("lifo-empty", "h_lifo_empty.c", defs={"OPS": 8}, thorough={"OPS": 12}, bounds="8 operations (thorough 12)"),
  J("lifo-mt33", "h_lifo_mt.c", defs={"OPS0": 3, "OPS": 3}, threads=True, thorough={"OPS0": 5, "OPS": 5}, witnesses=["null", "end"], bounds="2 threads x 3 operations (thorough 5), 3 elements, every interleaving"),
  J("lifo-mt26", "h_lifo_mt.c", defs={"OPS0": 2, "OPS": 5, "NE": 4, "INIT": 3}, threads=True, bounds="threads of 2 and 5 operations, 4 elements, every interleaving"),
  J("lifo-aba", "h_lifo_aba.c", defs={"K": 100}, threads=True, thorough={"K": 1000}, witnesses=["popped", "interfered", "end"], bounds="a pop interrupted anywhere by up to 100 (thorough 1000) pushes and pops that put the same element back, ABA counter starting at 0 or about to wrap"),
  J("lifo-mt3", "h_lifo_mt.c", defs={"NT": 3, "OPS0": 2, "OPS": 2, "NE": 4}, threads=True, thorough={"OPS": 3}, bounds="3 threads x 2 operations, 4 elements, every interleaving"),
  )

MMAP = {"mmap": "env_mmap", "munmap": "env_munmap", "madvise": "env_madvise", "mprotect": "env_mprotect"}
ASAN = dict(cfg="asan")
MALLOC = {"malloc": "env_malloc", "free": "env_free"}
AO = ["small/util.c", "small/mempool_asan.c", "small/small_asan.c", "small/slab_cache_asan.c", "small/slab_arena_asan.c"]
def asan_objs(what, ops, thorough, bounds, w=()):
    return J("asan-" + what.lower(), "h_asan_objs.c", AO, defs=dict(MALLOC, WHAT=what, OPS=ops, LIMIT="(1u<<20)"), thorough={"OPS": thorough}, witnesses=["freed", "detected", "end"] + list(w), bounds=bounds, **ASAN)
ASAN_MEMPOOL = asan_objs("MEMPOOL", 4, 5, "any 4 operations (thorough 5) on 2 mempools of 24 x 48 object sizes")
ASAN_SMALL = asan_objs("SMALL", 4, 6, "any 4 operations (thorough 6) on 2 allocators with 5 sizes, quota 1 MB", ["refused"])
ASAN_SLAB = asan_objs("SLAB", 4, 6, "any 4 operations (thorough 6) on 2 slab caches with 4 sizes")
ASAN_ARENA = asan_objs("ARENA", 4, 6, "any 4 operations (thorough 6) on 2 arenas")
ASAN_REGION = J("region-asan", "h_region.c", ["small/region_asan.c", "small/slab_cache_asan.c", "small/slab_arena_asan.c", "small/util.c"], defs=dict(MALLOC, OPS=3), thorough={"OPS": 4}, **ASAN,
    witnesses=["reserved", "truncated", "joined", "end"], bounds="ASAN build: any 3 operations (thorough 4) with 6 sizes, any contents")
def asan_lsregion(flush):
    return J("lsregion-iovec-asan" if flush else "lsregion-asan", "h_asan_lsregion.c", ["small/lsregion_asan.c", "small/slab_cache_asan.c", "small/slab_arena_asan.c", "small/util.c"], defs=dict(MALLOC, OPS=4, **({"FLUSH": 1} if flush else {})), thorough={"OPS": 5}, **ASAN,
    witnesses=["allocated", "reserved", "collected", "detected", "end"] + (["flushed", "more"] if flush else []), bounds="ASAN build: any 4 operations (thorough 5) with 3 sizes, any ids, any contents")
ASAN_OBUF = [J("obuf-asan", "h_obuf.c", ["small/obuf_asan.c", "small/slab_cache_asan.c", "small/slab_arena_asan.c", "small/util.c"], defs=dict(MALLOC, START=40, OPS=3), thorough={"OPS": 4}, **ASAN,
    witnesses=["dup", "rollback", "reserved", "end"], bounds="ASAN build: any 3 operations (thorough 4) with 5 sizes, a savepoint, any contents, from an empty buffer or with all but one of the separate vectors used"),
  J("obuf-asan-huge", "h_asan_obuf_huge.c", ["small/obuf_asan.c", "small/slab_cache_asan.c", "small/slab_arena_asan.c", "small/util.c"], defs=dict(MALLOC, exit="env_exit"), **ASAN,
    witnesses=["allocated", "refused", "granted"], bounds="ASAN build: a request of any size, around the last separate vector")]
ASAN_IBUF = J("ibuf-asan", "h_ibuf.c", ["small/ibuf.c", "small/slab_cache_asan.c", "small/slab_arena_asan.c", "small/util.c"], defs=dict(MALLOC, START=40, OPS=4), thorough={"OPS": 5}, **ASAN,
    witnesses=["added", "shrunk", "poisoned", "end"], bounds="ASAN build: any 4 operations (thorough 5) with 6 sizes around what is left in the buffer, any contents")
ARENA = ["small/slab_arena.c"]
P("C05", ASAN_ARENA,
  J("arena-seq", "h_arena.c", ARENA, defs=dict(MMAP, OPS=6, MISALIGN=0, FAILS=2, KINDS=6), thorough={"OPS": 7},
    witnesses=["mmap-failed", "create-failed", "map-failed", "reused", "new", "end"], bounds="any 6 operations (thorough 7), private or shared (also by the old interface), left out of core dumps or not, any quota limit of 0-5 slabs and a part, 0-2 preallocated slabs, up to 2 mmap failures at any point, 64 KB slabs"),
  J("arena-adjacent", "h_arena.c", ARENA, defs=dict(MMAP, OPS=5, MISALIGN=0, FAILS=0, ENV_ADJACENT="(8ul<<18)"), thorough={"OPS": 7},
    witnesses=["below", "map-failed", "reused", "new", "end"], bounds="any 5 operations (thorough 7), any quota limit, 0-2 preallocated slabs, mappings directly before or after the earlier ones"),
  J("arena-misaligned", "h_arena.c", ARENA, defs=dict(MMAP, OPS=3, MISALIGN=1, FAILS=1), thorough={"OPS": 4},
    witnesses=["misaligned", "reused", "new", "end"], bounds="any 3 operations (thorough 4), mmap misaligned by 0, 1 or 15 pages at every call, 1 failure"),
  J("arena-create", "h_arena_create.c", ARENA, defs=dict(MMAP), bounds="any slab size up to 2 GB and any preallocation size"),
  J("arena-mt2", "h_arena_mt.c", ARENA, defs=dict(MMAP, OPS=4, FAILS=1, PREALLOC=1), thorough={"OPS": 5}, threads=True, bounds="2 threads x 4 operations (thorough 5), 1 mmap failure, every interleaving"),
  J("arena-mt3", "h_arena_mt.c", ARENA, defs=dict(MMAP, NT=3, OPS=1, FAILS=1, PREALLOC=1), thorough={"OPS": 2}, threads=True, bounds="3 threads x 1 operation (thorough 2), every interleaving"),
  )

SC = ["small/slab_cache.c", "small/util.c"]
SMALL_SC = dict(SLAB_MIN_ORDER0_SIZE=128, NORDERS=3)
LARGE = J("slab-large", "h_slab_large.c", SC, defs=dict(SMALL_SC, OPS=3, FAILS=1, LIMITMAX="(1ull<<34)", **MALLOC), thorough={"OPS": 4}, ndebug=True,
    witnesses=["refused", "large", "put", "malloc-failed", "end"],
    bounds="any 3 operations (thorough 4) with blocks of any 64-bit size, any quota limit up to 16 GB, 1 malloc failure at any point, release build")
P("C06", ASAN_SLAB,
  J("slab-blocks", "h_slab_cache.c", SC, defs=dict(SMALL_SC, MEM=1, OPS=7, ENV_FAILS=1), thorough={"OPS": 9},
    witnesses=["refused", "mapped", "reused", "put", "map-failed", "end"],
    bounds="any 7 operations (thorough 9) with any size, 2 arena slabs, 3 orders, 1 arena failure at any point"),
  J("slab-orders", "h_slab_orders.c", SC, witnesses=["large", "ordered", "end"],
    bounds="every arena slab size from 4 KB to 2 GB, every size up to 8 GB"),
  LARGE)
P("C07", ASAN_SLAB,
  J("slab-accounting", "h_slab_cache.c", SC, defs=dict(SMALL_SC, OPS=8, ENV_FAILS=1), thorough={"OPS": 10},
    witnesses=["refused", "mapped", "reused", "put", "map-failed", "end"],
    bounds="any 8 operations (thorough 10) with any size, 2 arena slabs, 3 orders, 1 arena failure at any point"),
  LARGE)

MP = ["small/mempool.c"] + SC
def mempool(mem):
    d = dict(SLAB_MIN_ORDER0_SIZE=256, ORDER=0, ENV_SZ=512, ENV_FAILS=1, **({"MEM": 1} if mem else {}))
    w = ["refused", "new-slab", "reused", "free", "map-failed", "end"]
    return [
        J("mempool-ops", "h_mempool.c", MP, defs=dict(d, OBJMIN=21, OBJMAX=64, OPS=9), thorough={"OPS": 11}, witnesses=w,
          bounds="any 9 allocations/frees (thorough 11), every object size from 21 to 64 bytes (2-6 objects a slab), 4 slabs, 1 arena failure"),
        J("mempool-burst", "h_mempool.c", MP, defs=dict(d, OBJMIN=8, OBJMAX=16, OPS=5, BURST=1), thorough={"OPS": 7}, witnesses=w,
          bounds="any 5 (thorough 7) bursts of allocations and frees, every object size from 8 to 16 bytes (8-16 objects a slab), 4 slabs, 1 arena failure"),
        J("mempool-cold", "h_mempool.c", MP, defs=dict(d, OBJMIN=8, OBJMAX=10, OPS=6, BURST=1, ENV_K=1), thorough={"OPS": 8}, witnesses=["refused", "new-slab", "reused", "free", "end"],
          bounds="the same with 2 slabs of at least 16 objects in all, so that slabs put aside are used again: any 6 (thorough 8) bursts"),
    ]
P("C08", *mempool(True), ASAN_MEMPOOL)
P("C09", *mempool(False), ASAN_MEMPOOL)

P("C10", J("small-class", "h_small_class.c", ["small/small_class.c"], defs=dict(NGRAN=7, MAXSIZE="(1u<<24)"), thorough=dict(MAXSIZE="(1u<<30)"),
    witnesses=["size", "first", "class", "end"],
    bounds="23 factors x 7 granularities, any minimal size from the granularity to 4 KB more, every size up to 16 MB (thorough 1 GB)"))

SM = ["small/small.c", "small/small_class.c"] + MP
def small(mem):
    d = dict(SLAB_MIN_ORDER0_SIZE=256, ENV_FAILS=1, LIMIT="(1u<<14)", **({"MEM": 1} if mem else {}))
    w = ["shared-pool", "free", "end"]
    return [
        J("small-waste", "h_small.c", SM, defs=dict(d, ENV_SZ=1024, ENV_K=2, OPS=4, MANY=8, MAXSIZE=56), thorough={"OPS": 5}, witnesses=w + ["own-pool", "refused"],
          bounds="any 4 operations (thorough 5): 1 or 8 allocations of any size up to 56, frees in any order; 2 arena slabs, 1 arena failure"),
        J("small-bursts", "h_small.c", SM, defs=dict(d, ENV_FAILS=0, ENV_SZ=1024, ENV_K=2, OPS=4, BURST=20, MAXO=120, FACTOR="2.0f"), thorough={"OPS": 5}, witnesses=w + ["own-pool", "refused"],
          bounds="any 4 operations (thorough 5): 20 allocations of any size up to the largest pool, or all objects of a size freed, so that the arena runs out and pools are activated, swept and used again; 2 arena slabs"),
        J("small-groups", "h_small.c", SM, defs=dict(d, ENV_SZ=65536, ENV_K=2, OPS=3, MAXSIZE="(1u<<15)", ENV_MALLOC=1, GRAN=16, FACTOR="2.0f", **MALLOC), thorough={"OPS": 4}, ndebug=True, 
          witnesses=w + ["large", "large-refused"],
          bounds="any 3 operations (thorough 4) with any size up to 32 KB, 3 groups of pools, large objects, 1 arena and 1 malloc failure, quota 16 KB, release build"),
    ]
SMALL_POOLS = J("small-pools", "h_small_pools.c", SM, defs=dict(SLAB_MIN_ORDER0_SIZE=256, ENV_SZ=8192, ENV_K=12, OBJMIN=16, GRAN=8, MANY=300, NDS=5), thorough=dict(NDS=8), witnesses=["activated", "short", "out-of-use", "end"],
    bounds="3 factors, 32-62 pools in groups of up to 32: any pool, or any two at 4 (thorough 7) distances, put into use by their waste, one of them emptied, then memory runs out; every size is served by the right pool at every stage; 12 arena slabs of 8 KB")
P("C11", *small(True), ASAN_SMALL, SMALL_POOLS,
  J("small-create", "h_small_create.c", SM, defs=dict(SLAB_MIN_ORDER0_SIZE=256, ENV_SZ=65536, ENV_K=2), witnesses=["large", "pool", "other-pool", "end"],
    bounds="9 factors x 7 granularities x 4 minimal sizes, every size up to 1 MB and an object of the next pool, 64 KB arena slabs"))
P("C12", *small(False), ASAN_SMALL, SMALL_POOLS)

RG = ["small/region.c"] + SC
def region(mem):
    m = {"MEM": 1} if mem else {}
    return [
        J("region-sizes", "h_region_sym.c", RG, defs=dict(SMALL_SC, OPS=3, ENV_SZ=256, ENV_FAILS=1, LIMIT="(1ull<<34)", **m, **MALLOC), thorough={"OPS": 4}, ndebug=True,
          witnesses=["allocated", "refused", "reserved", "truncated", "reset", "end"],
          bounds="any 3 operations (thorough 4), the last a release, with any 64-bit sizes, quota 16 GB, 1 arena and 1 malloc failure, release build"),
    ]
P("C13", *region(True), ASAN_REGION,
  J("region-array", "h_region_array.c", RG, defs=dict(SMALL_SC, ENV_SZ=256, ENV_FAILS=0, LIMIT="(1ull<<34)", **MALLOC), ndebug=True,
    witnesses=["refused", "array", "end"], bounds="arrays of 3 types of any number of elements, and objects, in an empty region or after an allocation; quota 16 GB, release build"),
  J("region-data", "h_region.c", RG, defs=dict(SMALL_SC, OPS=4, ENV_SZ=512, ENV_FAILS=1, ENV_K=3), thorough={"OPS": 5},
    witnesses=["refused", "reserved", "truncated", "joined", "contiguous", "join-failed", "end"], bounds="any 4 operations (thorough 5) with 6 sizes around the block sizes, any contents, 1 arena failure"))
P("C14", *region(False), ASAN_REGION)

LS = ["small/lsregion.c"] + SC
P("C15", asan_lsregion(False),
  J("lsregion-long", "h_lsregion.c", LS, defs=dict(SMALL_SC, OPS=5, ENV_SZ=256, ENV_FAILS=1, ENV_K=3, SIZES=1, LIMIT="(1ull<<34)", **MALLOC), thorough={"OPS": 6}, time=200,
    witnesses=["allocated", "reserved", "collected", "end"],
    bounds="any 5 operations (thorough 6) with 3 sizes (any of 8-56, 120-180 and 217-1000: a part of a slab, most of it, more than it), ids that grow by 0 or 1, collection up to any of them, 1 arena failure"),
  J("lsregion", "h_lsregion.c", LS, defs=dict(SMALL_SC, OPS=3, ENV_SZ=256, ENV_FAILS=1, ENV_K=3, LIMIT="(1ull<<34)", **MALLOC), thorough={"OPS": 4},
    witnesses=["allocated", "refused", "reserved", "collected", "end"],
    bounds="any 3 operations (thorough 4): plain or aligned allocation and reservation of any 64-bit size, collection; any ids, quota 16 GB, 256-byte arena slabs, 1 arena and 1 malloc failure"))
P("C16", asan_lsregion(True),
  J("lsregion-iovec-long", "h_lsregion.c", LS, defs=dict(SMALL_SC, FLUSH=1, OPS=5, ENV_SZ=256, ENV_FAILS=0, ENV_K=3, SIZES=1, LIMIT="(1ull<<34)", **MALLOC), thorough={"OPS": 6}, time=200,
    witnesses=["allocated", "reserved", "collected", "flushed", "more", "end"],
    bounds="any 5 operations (thorough 6) with 3 sizes (any of 8-56, 120-180 and 217-1000: a part of a slab, most of it, more than it), ids that grow by 0 or 1, collection up to any of them, a flush of 1 or all vectors after any of them"),
  J("lsregion-iovec", "h_lsregion.c", LS, defs=dict(SMALL_SC, FLUSH=1, OPS=4, ENV_SZ=256, ENV_FAILS=0, ENV_K=3, MAXSIZE=1024, LIMIT="(1ull<<34)", **MALLOC), thorough={"OPS": 5},
    witnesses=["allocated", "reserved", "collected", "flushed", "more", "end"],
    bounds="any 4 operations (thorough 5) with any sizes up to 1 KB, any ids, a flush of 1 or all vectors after any of them; 256-byte arena slabs"))

MT = ["small/matras.c"]
def matras(mem):
    m = {"MEM": 1} if mem else {}
    w = ["allocated", "refused", "deallocated", "touched", "touch-failed", "view", "view-destroyed", "no-memory", "end"]
    return [
        J("matras-small", "h_matras.c", MT, defs=dict(EXT=16, BLK=8, POOL=24, OPS=7, **m), thorough={"OPS": 9}, witnesses=w, bounds="any 7 operations (thorough 9) of 8 kinds: blocks and ranges allocated and freed, written (with or without reserving), 2 read views created and destroyed in any order; 16-byte extents of 2 blocks (8 blocks in all), any contents, 1 extent allocation failure at any point"),
        J("matras-4x2", "h_matras.c", MT, defs=dict(EXT=16, BLK=4, POOL=24, OPS=4, INIT="0,4,7,8,13", **m), thorough={"OPS": 5}, witnesses=w, bounds="the same with 4 blocks in an extent: any 4 operations (thorough 5) on 0, 4, 7, 8 or 13 blocks (16 in all)"),
        J("matras-1x4", "h_matras.c", MT, defs=dict(EXT=32, BLK=32, POOL=40, OPS=4, INIT="3,4,5,12", **m), thorough={"OPS": 5}, witnesses=w, bounds="the same with 1 block in an extent and 4 extents in an extent: any 4 operations (thorough 5) on 3, 4, 5 or 12 blocks (16 in all)"),
    ]
P("C17", *matras(True),
  J("matras-ids", "h_matras_geo.c", MT, defs={"MAXLOG": 24}, witnesses=["translated", "end"], bounds="every extent size from 16 bytes to 16 MB, every block size up to it, any identifier within the first 3 extents of blocks"),
  J("matras-dealloc-oom", "h_matras_oom.c", MT, witnesses=["deallocated"], bounds="1-8 blocks, a read view, perhaps one touched block, no memory at all for the free"))
P("C18", *matras(False))

IB = ["small/ibuf.c"] + SC
P("C19", ASAN_IBUF,
  J("ibuf-sizes", "h_ibuf_sym.c", IB, defs=dict(SMALL_SC, OPS=3, ENV_SZ=256, ENV_FAILS=1, LIMIT="(1ull<<34)", _FORTIFY_SOURCE=0, memcpy="env_memcpy", memmove="env_memmove", **MALLOC), thorough={"OPS": 4}, ndebug=True,
    witnesses=["refused", "reserved", "allocated", "defragmented", "grown", "shrunk", "end"],
    time=240, bounds="any 3 operations (thorough 4), the first an allocation, the last with any 64-bit size, the others at most twice (the first 4 times) the capacity, 3 start capacities, quota 16 GB, 1 arena and 1 malloc failure, release build"),
  J("ibuf-start", "h_ibuf_sym.c", IB, defs=dict(SMALL_SC, OPS=1, ENV_SZ=256, ENV_FAILS=1, LIMIT="(1ull<<34)", _FORTIFY_SOURCE=0, memcpy="env_memcpy", memmove="env_memmove", **MALLOC), ndebug=True,
    witnesses=["refused", "reserved", "allocated", "end"], bounds="an operation with any 64-bit size and any start capacity up to 16 GB"),
  J("ibuf-data", "h_ibuf.c", IB, defs=dict(SMALL_SC, START=40, OPS=5, ENV_SZ=512, ENV_FAILS=1, ENV_K=3), thorough={"OPS": 6},
    witnesses=["refused", "added", "shrunk", "end"], bounds="any 5 operations (thorough 6) with 6 sizes around what is left in the buffer, any contents, 1 arena failure"))

OB = ["small/obuf.c"] + SC
P("C20", *ASAN_OBUF,
  J("obuf-sizes", "h_obuf_sym.c", OB, defs=dict(SMALL_SC, OPS=3, ENV_SZ=256, ENV_FAILS=1, LIMIT="(1ull<<34)", **MALLOC), thorough={"OPS": 4}, ndebug=True,
    witnesses=["refused", "reserved", "allocated", "rollback", "end"],
    bounds="any 3 operations (thorough 4), the first an allocation, the last with any 64-bit size, the others at most twice the capacity, 3 start capacities, quota 16 GB, 1 arena and 1 malloc failure, release build"),
  J("obuf-start", "h_obuf_sym.c", OB, defs=dict(SMALL_SC, OPS=1, ENV_SZ=256, ENV_FAILS=1, LIMIT="(1ull<<34)", **MALLOC), ndebug=True,
    witnesses=["refused", "reserved", "allocated", "end"], bounds="an operation with any 64-bit size and any start capacity up to 16 GB"),
  J("obuf-limit", "h_obuf_limit.c", OB, defs=dict(SMALL_SC, ENV_SZ=256, ENV_K=8, **MALLOC), ndebug=True, witnesses=["full", "end"], bounds="all 31 vectors filled, then up to 8 more bytes"),
  J("obuf-data", "h_obuf.c", OB, defs=dict(SMALL_SC, START=40, OPS=4, ENV_SZ=512, ENV_FAILS=1, ENV_K=3), thorough={"OPS": 5},
    witnesses=["refused", "dup", "partial", "rollback", "reserved", "end"], bounds="any 4 operations (thorough 5) with 5 sizes around what is left in the block, a savepoint, any contents, 1 arena failure"))

P("C21",
  J("static", "h_static.c", ["small/static.c"], defs={"OPS": 3, "ALIGNS": "1,512,8192"}, thorough={"OPS": 4}, witnesses=["refused", "recycled", "reserved", "end"],
    bounds="from any position, any 3 operations (thorough 4) with any 64-bit sizes and 3 alignments"),
  J("static-align", "h_static.c", ["small/static.c"], defs={"OPS": 1}, witnesses=["refused", "recycled", "reserved", "end"],
    bounds="from any position, an operation with any 64-bit size and any alignment that is a power of two"),
  J("static-mt", "h_static_mt.c", ["small/static.c"], threads=True, bounds="2 threads and the main one, 2 allocations each, every interleaving"))

P("C22",
  J("rlist", "h_rlist.c", defs={"NH": 3, "NE": 4}, thorough={"NE": 5}, sym_write=True, witnesses=["inserted", "deleted", "shifted", "moved", "swapped", "spliced", "cut", "end"],
    bounds="from any arrangement of up to 4 elements (thorough 5) in 3 lists, any operation at any position: so the lists keep right through any history of that size"),
  J("lifo", "h_stack.c", defs={"NE": 4, "OPS": 8}, thorough={"OPS": 11}, sym_write=True, witnesses=["popped", "end"], bounds="any 8 operations (thorough 11) on 4 elements of any contents, in any order"))

RBV = {"compact": {"RB_COMPACT": 1}, "tree": {"TREE_ARG": 1}}
RBW = ["inserted", "removed", "end"]
P("C23",
  J("rb-step", "h_rb_step.c", defs={"BH": 3, "OPS": 1}, witnesses=RBW, bounds="any insertion (of any key) or removal in any tree of up to 3 black levels (26 nodes): by induction, any history of trees of that size"),
  J("rb-step4", "h_rb_step.c", defs={"BH": 4, "OPS": 1, "NMAX": 40, "MAX3": 2}, thorough={"MAX3": 3}, tier="thorough", witnesses=RBW, bounds="thorough only: the same for trees of 4 black levels with up to 3 red nodes"),
  J("rb-step-compact", "h_rb_step.c", defs=dict(RBV["compact"], BH=2, OPS=2), thorough={"BH": 3, "OPS": 1}, witnesses=RBW, bounds="compact nodes: any 2 operations on any tree of 2 black levels (thorough: one, 3 levels)"),
  J("rb-step-tree", "h_rb_step.c", defs=dict(RBV["tree"], BH=2, OPS=2), witnesses=RBW, bounds="comparison with the tree argument: any 2 operations on any tree of 2 black levels"),
  J("rb-hist", "h_rb_hist.c", defs={"OPS": 7, "NMAX": 8}, thorough={"OPS": 8}, witnesses=RBW, bounds="any 7 operations (thorough 8) from an empty tree, any 64-bit keys"),
  )
P("C24",
  J("rb-search", "h_rb_search.c", defs={"BH": 3, "NMAX": 13, "STEPS": 4}, thorough={"NMAX": 17}, witnesses=["searched", "iterated", "over", "end"],
    bounds="any tree of up to 13 nodes (thorough 17), a key matching any range of nodes, every search, then any 4 iterator steps; iteration with a callback from any node to any node"),
  J("rb-search-compact", "h_rb_search.c", defs=dict(RBV["compact"], BH=2, NMAX=8, STEPS=5), witnesses=["searched", "iterated", "over", "end"], bounds="compact nodes: the same for up to 8 nodes, 5 steps"),
  J("rb-search-tree", "h_rb_search.c", defs=dict(RBV["tree"], BH=2, NMAX=8, STEPS=3), witnesses=["searched", "iterated", "over", "end"], bounds="comparison with the tree argument: the same for up to 8 nodes, 3 steps"),
  J("rb-walk", "h_rb_walk.c", defs={"BH": 3, "NMAX": 13}, thorough={"NMAX": 16}, witnesses=["walked", "end"], bounds="any tree of up to 13 nodes (thorough 16), any directions at every node"),
  J("rb-height", "h_rb_height.c", defs=dict(RBV["compact"]), witnesses=["walked", "end"], bounds="paths as long as those of the largest tree that fits into 128 TB (only the path is built)"),
)

P("C25",
  J("util", "h_util.c", ["small/util.c", "small/small_features.c"], defs=dict(MMAP, sysconf="env_sysconf", __errno_location="env_errno_location", strerror_r="env_strerror_r"), witnesses=["probed", "feature", "end"], bounds="every 64-bit value, every alignment, every page size and feature number, any outcome of mmap and madvise"))

P("C26",
  J("asan-alloc", "h_asan_alloc.c", ["small/util.c"], defs=dict(MALLOC, KMAX=2, MAXLOG=5, MAXSIZE=20), witnesses=["overwritten", "end"], **ASAN,
    bounds="every payload of up to 20 bytes, alignment of up to 32, 10 header sizes, block addresses of both parities of 16"),
  J("asan-huge", "h_asan_huge.c", ["small/util.c", "small/slab_cache_asan.c", "small/slab_arena_asan.c"], defs=dict(MALLOC, exit="env_exit"), witnesses=["allocated", "refused"], **ASAN,
    bounds="any payload size, alignment of up to 4096"),
  ASAN_MEMPOOL,
  ASAN_SMALL,
  ASAN_SLAB,
  ASAN_ARENA,
  J("asan-misuse", "h_asan_misuse.c", ["small/region_asan.c", "small/obuf_asan.c", "small/slab_cache_asan.c", "small/slab_arena_asan.c", "small/util.c"], defs=MALLOC, witnesses=["detected", "end"], **ASAN,
    bounds="reserving twice, allocating any size after a reservation, truncating to any usage, joining any size, rolling back to a stale savepoint"),
  )

WHOLE = ["small/slab_arena.c", "small/region.c", "small/lsregion.c", "small/ibuf.c", "small/obuf.c"] + SM
P("C27",
  J("whole", "h_whole.c", WHOLE, defs=dict(MMAP, OPS=3, FAILS=0, LO=1000, HI=1100, **MALLOC), thorough={"OPS": 4}, witnesses=["freed", "truncated", "moved", "collected", "end"],
    bounds="any 3 operations (thorough 4) of 7 components of all kinds with 3 sizes, destroyed in two orders; 64 KB arena slabs, 2 slab caches, quota about 1 MB"),
  J("whole-quota", "h_whole.c", WHOLE, defs=dict(MMAP, OPS=3, FAILS=1, LO=60, HI=400, **MALLOC), thorough={"OPS": 4}, witnesses=["mmap-failed", "malloc-failed", "refused", "end"],
    bounds="the same with any quota limit of 60-400 KB and a failure of mmap and of malloc at any point"))
P("C28",
  J("whole-mt2", "h_whole_mt.c", WHOLE, defs=dict(MMAP, OPS=2, FAILS=1, **MALLOC), thorough={"OPS": 3}, threads=True, witnesses=["allocated", "freed", "refused", "end"],
    bounds="2 threads x 2 operations (thorough 3) on a region and an lsregion of their own, any quota limit up to 288 KB, 1 mmap failure, every interleaving"),
  J("whole-mt3", "h_whole_mt.c", WHOLE, defs=dict(MMAP, NT=3, OPS=1, FAILS=0, **MALLOC), thorough={"FAILS": 1}, threads=True, witnesses=["allocated", "refused", "end"],
    bounds="3 threads x 1 operation, any quota limit up to 216 KB, every interleaving"))
