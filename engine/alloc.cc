#include "alloc.h"
#include <pthread.h>
Stack *the_stack;
extern "C" {
void *__real_slab_map(struct slab_arena *);
void __real_slab_unmap(struct slab_arena *, void *);
void *__wrap_slab_map(struct slab_arena *a)
{
	void *p = __real_slab_map(a);
	if (the_stack && a == &the_stack->arena) {
		the_stack->n_map++;
		LOG("  [arena] slab_map -> %p", p);
		if (p) {
			for (auto h : the_stack->held) CHECK(h != (uintptr_t)p, "the arena handed out %p twice", p);
			the_stack->held.push_back((uintptr_t)p);
		}
	}
	return p;
}
void __wrap_slab_unmap(struct slab_arena *a, void *p)
{
	if (the_stack && a == &the_stack->arena && p) {
		the_stack->n_unmap++;
		LOG("  [arena] slab_unmap %p", p);
		auto &h = the_stack->held;
		auto i = std::find(h.begin(), h.end(), (uintptr_t)p);
		CHECK(i != h.end(), "%p returned to the arena is not a slab taken from it", p);
		h.erase(i);
	}
	__real_slab_unmap(a, p);
}
}
void Stack::squeeze()
{
	squeezed = true;
	saved_total = quota_total(&q);
	if (quota_set(&q, quota_used(&q)) < 0) mc::fail("lowering the limit to the current consumption was refused");
	void *p;
	while ((p = __real_slab_map(&arena))) stolen.push_back(p);
}
void Stack::relax()
{
	if (!squeezed) return;
	squeezed = false;
	while (hogs.size()) { slab_put(&cache, (struct slab *)hogs.back()); hogs.pop_back(); }
	hog_bytes = 0;
	while (stolen.size()) { __real_slab_unmap(&arena, stolen.back()); stolen.pop_back(); }
	quota_set(&q, saved_total);
}
void Stack::hog()
{
	for (int o = 20; o >= 0; o--) {
		if (((size_t)slab_order_size(&cache, 0) << o) > ss) continue;
		struct slab *s;
		while ((s = slab_get_with_order(&cache, o))) { hogs.push_back(s); hog_bytes += slab_order_size(&cache, o); }
	}
}
