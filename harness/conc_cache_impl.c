#include <string.h>
#include <sys/uio.h>
void *mc_malloc(size_t); void mc_free(void *);
#define malloc mc_malloc
#define free mc_free
#include "lsregion.h"
#undef malloc
#undef free
#include "slab_cache.h"
#include "region.h"
#include "mempool.h"
#include "small.h"
#include "ibuf.h"
#include "obuf.h"
#include "conc_cache.h"
void t_create(struct th *t, struct slab_arena *a)
{
	float f;
	slab_cache_create(&t->cache, a);
	switch (t->kind) {
	case REGION: region_create(&t->region, &t->cache); break;
	case POOL: mempool_create(&t->pool, &t->cache, 12000); break;
	case SMALL: small_alloc_create(&t->small, &t->cache, 1024, 512, 1.5f, &f); break;
	case LSREGION: lsregion_create(&t->ls, a); t->id = 1; break;
	case IBUF: ibuf_create(&t->ibuf, &t->cache, 10000); break;
	case OBUF: obuf_create(&t->obuf, &t->cache, 10000); break;
	}
	t->n = 0;
	t->alive = 1;
}
void t_destroy(struct th *t)
{
	t->n = 0;      /* given up from here on */
	switch (t->kind) {
	case RAW: case BIG: break;        /* left to the cache */
	case REGION: region_destroy(&t->region); break;
	case POOL: mempool_destroy(&t->pool); break;
	case SMALL: small_alloc_destroy(&t->small); break;
	case LSREGION: lsregion_destroy(&t->ls); break;
	case IBUF: ibuf_destroy(&t->ibuf); break;
	case OBUF: obuf_destroy(&t->obuf); break;
	}
	t->alive = 0;
	slab_cache_destroy(&t->cache);
}
void *t_alloc(struct th *t, int big, size_t *n)
{
	struct slab *s = NULL;
	void *p = NULL;
	switch (t->kind) {
	case RAW: *n = big ? 40000 : 100; s = slab_get(&t->cache, *n); if (s) p = slab_data(s); break;
	case BIG: *n = 70 * 1024; s = slab_get(&t->cache, *n); if (s) p = slab_data(s); break;
	case REGION: *n = big ? 40000 : 104; p = region_alloc(&t->region, *n); break;
	case POOL: *n = 12000; p = mempool_alloc(&t->pool); break;
	case SMALL: *n = big ? 3000 : 1000; p = smalloc(&t->small, *n); break;
	case LSREGION: *n = big ? 40000 : 104; p = lsregion_alloc(&t->ls, *n, t->id); if (p) t->id++; break;
	case IBUF: *n = big ? 40000 : 10000; p = ibuf_alloc(&t->ibuf, *n); break;
	case OBUF: *n = big ? 40000 : 10000; p = obuf_alloc(&t->obuf, *n); break;
	}
	if (p) { struct obj o = {p, *n, s}; t->o[t->n++] = o; }
	return p;
}
void t_free(struct th *t, int i)
{
	struct obj o = t->o[i];
	memmove(t->o + i, t->o + i + 1, sizeof o * (t->n - i - 1));
	t->n--;
	if (t->kind == REGION || t->kind == LSREGION || t->kind == IBUF || t->kind == OBUF) t->n = 0;
	switch (t->kind) {
	case RAW: case BIG: slab_put(&t->cache, o.s); break;
	case POOL: mempool_free(&t->pool, o.p); break;
	case SMALL: smfree(&t->small, o.p, o.n); break;
	case REGION: region_free(&t->region); break;
	case LSREGION: lsregion_gc(&t->ls, t->id - 1); break;
	case IBUF: ibuf_reinit(&t->ibuf); break;
	case OBUF: obuf_destroy(&t->obuf); obuf_create(&t->obuf, &t->cache, 10000); break;
	}
}
size_t t_used(struct th *t) { return slab_cache_used(&t->cache); }
