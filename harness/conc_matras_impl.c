#include "matras.h"
/* compiled with instrumentation: what a thread that reads a view executes */
void *w_view_get(const struct matras *m, const struct matras_view *v, matras_id_t id) { return matras_view_get(m, v, id); }
int w_created(struct matras_view *v) { return matras_is_read_view_created(v); }
int w_needs(struct matras *m, matras_id_t id) { return matras_needs_touch(m, id); }
void w_post(long *p, long v) { __atomic_store_n(p, v, __ATOMIC_RELEASE); }
long w_look(long *p) { return __atomic_load_n(p, __ATOMIC_ACQUIRE); }
