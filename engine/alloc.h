/* Shared parts of the allocator harnesses: the memory stack below an allocator and the live objects. */
#pragma once
#include <string.h>
#include <stdint.h>
#include <algorithm>
#include <vector>
#include "env.h"
extern "C" {
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
}

/* Objects handed out and not yet returned, with their expected contents. */
struct Live {
	struct O { uintptr_t a; size_t n; uint64_t tag; };
	std::vector<O> v;     /* sorted by address */
	static uint64_t word(uintptr_t a, uint64_t tag) { return (a * 0x9E3779B97F4A7C15ull) ^ (tag * 0xD6E8FEB86659FD93ull) ^ 0x5bd1e995; }
	static void fill1(uintptr_t a, size_t n, uint64_t tag)
	{
		size_t i = 0;
		for (; i + 8 <= n; i += 8) { uint64_t w = word(a + i, tag); memcpy((void *)(a + i), &w, 8); }
		uint64_t w = word(a + i, tag);
		memcpy((void *)(a + i), &w, n - i);
	}
	static bool same1(uintptr_t a, size_t n, uint64_t tag)
	{
		size_t i = 0;
		for (; i + 8 <= n; i += 8) { uint64_t w = word(a + i, tag); if (memcmp((void *)(a + i), &w, 8)) return false; }
		uint64_t w = word(a + i, tag);
		return memcmp((void *)(a + i), &w, n - i) == 0;
	}
	/* Big objects carry the pattern at both ends and around every address where bookkeeping could lie. */
	template <class F> static bool parts(uintptr_t a, size_t n, F f)
	{
		if (n <= 4096) return f(a, n);
		if (!f(a, 512)) return false;
		if (n > (1u << 27)) return f(a + n - 512, 512);
		uintptr_t step = n > 262144 ? 16384 : 1024, x = (a + 576 + step - 1) / step * step;
		for (; x + 640 < a + n; x += step) if (!f(x - 32, 128)) return false;
		return f(a + n - 512, 512);
	}
	static void fill(uintptr_t a, size_t n, uint64_t tag) { parts(a, n, [=](uintptr_t x, size_t m) { fill1(x, m, tag); return true; }); }
	static bool same(uintptr_t a, size_t n, uint64_t tag) { return parts(a, n, [=](uintptr_t x, size_t m) { return same1(x, m, tag); }); }
	/* A new object: inside memory the library owns, disjoint from all others. */
	void add(void *p, size_t n, uint64_t tag = 0, bool nofill = false)
	{
		uintptr_t a = (uintptr_t)p;
		CHECK(n == 0 || env::is_owned(p, n), "object [%p, +%zu) is outside the memory obtained from the system", p, n);
		size_t i = 0;
		for (; i < v.size(); i++) {
			CHECK(a + n <= v[i].a || v[i].a + v[i].n <= a, "object [%p, +%zu) overlaps the live object [%#lx, +%zu)", p, n, (long)v[i].a, v[i].n);
		}
		for (i = 0; i < v.size() && v[i].a < a; i++);
		v.insert(v.begin() + i, O{a, n, tag});
		if (!nofill) fill(a, n, tag);
	}
	int find(void *p) const { for (size_t i = 0; i < v.size(); i++) if (v[i].a == (uintptr_t)p) return i; return -1; }
	void check_one(const O &o) const { CHECK(same(o.a, o.n, o.tag), "contents of the live object [%#lx, +%zu) changed", (long)o.a, o.n); }
	/* Forget an object; its contents are made canonical. */
	void del(int i, bool scribble = true)
	{
		O o = v[i];
		check_one(o);
		if (scribble) parts(o.a, o.n, [](uintptr_t x, size_t m) { memset((void *)x, 0xEE, m); return true; });
		v.erase(v.begin() + i);
	}
	void verify() const { if (mc::fresh()) for (auto &o : v) check_one(o); }
	size_t bytes() const { size_t s = 0; for (auto &o : v) s += o.n; return s; }
	uint64_t key(uint64_t h) const
	{
		std::vector<env::Map> skip;
		for (auto &o : v) { if (o.n) skip.push_back(env::Map{o.a, o.n}); h = mc::mix(mc::mix(h, o.tag), o.a ^ (o.n << 48)); }
		return env::hash_skip(h, skip);
	}
};

/* Quota, arena and slab cache.  Calls from the library's cache to the arena are observed. */
struct Stack {
	struct quota q;
	struct slab_arena arena;
	struct slab_cache cache;
	unsigned char guard[512];          /* nothing of the cache lies beyond its end */
	size_t ss;
	std::vector<uintptr_t> held;       /* arena slabs not in the arena */
	std::vector<void *> stolen;        /* arena slabs taken by the harness while memory is refused */
	std::vector<void *> hogs; size_t hog_bytes;   /* free blocks of the slab cache taken by the harness */
	int n_map, n_unmap;
	bool squeezed; size_t saved_total;
	void create(size_t limit, size_t prealloc, size_t slab_size, int flags = MAP_PRIVATE)
	{
		env::reset();
		held.clear(); stolen.clear(); hogs.clear(); hog_bytes = 0; n_map = n_unmap = 0; squeezed = false;
		memset(&arena, 0xAB, sizeof arena); memset(&cache, 0xAB, sizeof cache);
		memset(&q, 0xAB, sizeof q);
		quota_init(&q, limit);
		env::place_align = slab_size;
		if (slab_arena_create(&arena, &q, prealloc, slab_size, flags)) mc::fail("internal: arena creation failed");
		ss = slab_size;
		memset(guard, 0xAB, sizeof guard);
		slab_cache_create(&cache, &arena);
		check_guard();
	}
	void check_guard() const { for (unsigned char c : guard) if (c != 0xAB) mc::fail("memory behind the slab cache was overwritten"); mc::n_checks++; }
	/* Refuse all further memory: nothing in the arena, no quota left. */
	void squeeze();
	void hog();       /* after squeeze(): take what the slab cache itself could still give */
	void relax();
	void destroy_cache() { slab_cache_destroy(&cache); }
	void destroy()
	{
		relax();
		check_guard();
		slab_cache_destroy(&cache);
		slab_arena_destroy(&arena);
	}
	uint64_t key(uint64_t h) const
	{
		h = mc::mix(h, q.value);
		h = mc::hash_mem(h, &arena, sizeof arena);
		h = mc::hash_mem(h, &cache, sizeof cache);
		for (auto p : hogs) h = mc::mix(h, (uintptr_t)p);
		for (auto p : stolen) h = mc::mix(h, (uintptr_t)p);
		return mc::mix(h, squeezed);
	}
};
extern Stack *the_stack;
