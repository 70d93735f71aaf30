#include <string.h>
#include "slab_cache.h"
#include "region.h"
#include "mempool.h"
#include "small.h"
#include "conc_asan.h"
/* compiled with instrumentation: what the threads execute */
void a_create(struct own *o, struct slab_arena *a)
{
	float f;
	slab_cache_create(&o->cache, a);
	mempool_create(&o->pool, &o->cache, 64);
	small_alloc_create(&o->small, &o->cache, 16, 8, 1.5f, &f);
	o->n = 0;
}
void a_destroy(struct own *o)
{
	mempool_destroy(&o->pool);
	small_alloc_destroy(&o->small);
	slab_cache_destroy(&o->cache);
	o->n = 0;
}
void *a_alloc(struct own *o, int kind)
{
	void *p = NULL;
	switch (kind) {
	case 0: p = mempool_alloc(&o->pool); break;
	case 1: p = smalloc(&o->small, 100); break;
	case 2: p = slab_get(&o->cache, 100); break;
	case 3: p = slab_map(o->arena); break;
	case 4: p = smalloc(&o->small, 700 * 1024); break;
	}
	return p;
}
void a_free(struct own *o, int kind, void *p)
{
	switch (kind) {
	case 0: mempool_free(&o->pool, p); break;
	case 1: smfree(&o->small, p, 100); break;
	case 2: slab_put(&o->cache, (struct slab *)p); break;
	case 3: slab_unmap(o->arena, p); break;
	case 4: smfree(&o->small, p, 700 * 1024); break;
	}
}
size_t a_used(struct own *o) { return slab_cache_used(&o->cache); }
