#include "slab_cache.h"
/* compiled with instrumentation: what a monitoring thread executes */
size_t w_used(struct slab_cache *c) { return slab_cache_used(c); }
