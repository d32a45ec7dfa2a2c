#define TARANTOOL_SMALL_HAVE_MAP_ANONYMOUS 1
#define TARANTOOL_SMALL_HAVE_MADVISE 1
#define TARANTOOL_SMALL_HAVE_MADV_DONTDUMP 1
#define TARANTOOL_SMALL_USE_MADVISE 1
#define ENABLE_ASAN 1
