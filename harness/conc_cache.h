/* What one thread of conc_cache owns; the operations are compiled with instrumentation. */
#pragma once
#include <stddef.h>
#include <stdint.h>
struct obj { void *p; size_t n; struct slab *s; };
struct th {
	int kind, alive, n;
	int64_t id;
	struct slab_cache cache;
	struct region region;
	struct mempool pool;
	struct small_alloc small;
	struct lsregion ls;
	struct ibuf ibuf;
	struct obuf obuf;
	struct obj o[8];
};
enum { RAW, REGION, POOL, LSREGION, BIG, SMALL, IBUF, OBUF };
#ifdef __cplusplus
extern "C" {
#endif
void t_create(struct th *t, struct slab_arena *a);
void t_destroy(struct th *t);
/* A new object of the given class of sizes; NULL: refused. */
void *t_alloc(struct th *t, int big, size_t *n);
/* One object (RAW, POOL, BIG, SMALL) or all of them. */
void t_free(struct th *t, int i);
size_t t_used(struct th *t);
#ifdef __cplusplus
}
#endif
