/* What one thread of conc_asan owns; the operations are compiled with instrumentation. */
#pragma once
#include <stddef.h>
struct own {
	struct slab_cache cache;
	struct mempool pool;
	struct small_alloc small;
	struct slab_arena *arena;
	int n;
	struct { int kind; void *p; } o[6];
};
#ifdef __cplusplus
extern "C" {
#endif
void a_create(struct own *o, struct slab_arena *a);
void a_destroy(struct own *o);
void *a_alloc(struct own *o, int kind);
void a_free(struct own *o, int kind, void *p);
size_t a_used(struct own *o);
#ifdef __cplusplus
}
#endif
