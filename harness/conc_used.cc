/* C34: the memory a slab cache uses is read by other threads while its owner works. */
#include <string.h>
#include <vector>
#include "mcsched.h"
#include "env.h"
extern "C" {
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
size_t w_used(struct slab_cache *);
}
static struct quota q;
static struct slab_arena arena;
static struct slab_cache cache;
static const size_t SS = 65536;
static std::vector<struct slab *> held;
static std::vector<size_t> vals;               /* the values the use went through */
static bool busy; static size_t next_val;      /* an operation under way and what it will lead to */
static bool seen_next;
static int nops, nreads;
static uint64_t key()
{
	uint64_t h = env::hash(1);
	h = mc::hash_mem(h, &arena, sizeof arena);
	h = mc::mix(h, q.value);
	h = mc::hash_mem(h, &cache, sizeof cache);
	for (auto s : held) h = mc::mix(h, (uintptr_t)s);
	for (size_t v : vals) h = mc::mix(h, v);
	return mc::mix(h, busy * 2 + seen_next + next_val * 8);
}
static bool in_cache(uintptr_t a) { return a - (uintptr_t)&cache < sizeof cache; }
static const uintptr_t P0 = 0x200000000000ull, P1 = 0x280000000000ull;
static bool tracked(uintptr_t a) { return in_cache(a) || (a >= P0 && a < P1 && (a & (SS - 1)) >= 8); }
static bool point_at(uintptr_t a) { return a - (uintptr_t)&cache.allocated.stats < sizeof cache.allocated.stats; }
static void finish(size_t v)
{
	busy = false;
	CHECK(!seen_next || v == next_val, "another thread read %zu bytes in use, which never was the case", next_val);
	vals.push_back(v);
	seen_next = false;
}
static void owner_op()
{
	static const size_t sz[] = {100, 5000, 40000, 71680};
	int nf = held.size(), n = nf < 4 ? 4 : 0;
	int o = sched::ask(n + nf, "op", false);
	size_t cur = vals.back();
	if (o < n) {
		next_val = cur + slab_real_size(&cache, sz[o]);
		busy = true;
		struct slab *s = slab_get(&cache, sz[o]);
		LOG("get %zu -> %p", sz[o], s);
		if (s) held.push_back(s);
		finish(s ? next_val : cur);
		mc::outcome(s ? o : 9);
	} else {
		struct slab *s = held[o - n];
		next_val = cur - s->size;
		busy = true;
		held.erase(held.begin() + (o - n));
		LOG("put %p (%zu)", s, (size_t)s->size);
		slab_put(&cache, s);
		finish(next_val);
	}
	bool was = sched::quiet;
	sched::quiet = true;
	CHECK(w_used(&cache) == vals.back(), "%zu bytes in use, expected %zu", w_used(&cache), vals.back());
	sched::quiet = was;
}
static void body(void *arg)
{
	int t = (long)arg;
	if (t == 0) {
		for (int i = 0; i < nops; i++) { sched::point("op"); owner_op(); sched::op_done(i); }
	} else {
		size_t from = vals.size() - 1;       /* reads never go back */
		for (int i = 0; i < nreads; i++) {
			sched::point("op");
			size_t lo = std::max(from, vals.size() - 1);
			size_t v = w_used(&cache);
			LOG("t%d reads %zu", t, v);
			size_t k = lo;
			while (k < vals.size() && vals[k] != v) k++;
			if (k == vals.size()) {
				CHECK(busy && v == next_val, "thread %d read %zu bytes in use, which was not the case at any moment of the call", t, v);
				seen_next = true;
			}
			from = k;
			mc::outcome(100 + k);
			sched::op_done(1000 + i * 50 + k);
		}
	}
	LOG("t%d finished", t);
}
static void exec()
{
	env::reset();
	sched::reset();
	nops = mc::opt("ops", 2); nreads = mc::opt("reads", 2);
	int nr = mc::opt("readers", 1), pre = mc::opt("pre", 1);
	env::place_align = SS;
	held.clear(); vals.clear(); busy = seen_next = false; next_val = 0;
	size_t limit = mc::opt("limit", 2) * SS + mc::opt("extra", 9000);
	quota_init(&q, limit);
	memset(&arena, 0xAB, sizeof arena); memset(&cache, 0xAB, sizeof cache);
	CHECK(slab_arena_create(&arena, &q, 0, SS, MAP_PRIVATE) == 0, "arena creation failed");
	slab_cache_create(&cache, &arena);
	CHECK(slab_cache_used(&cache) == 0, "a new cache has %zu bytes in use", slab_cache_used(&cache));
	vals.push_back(0);
	for (int i = 0; i < pre; i++) {
		if (mc::fresh()) mc::state(key(), pre - i);
		owner_op();
		vals.erase(vals.begin(), vals.end() - 1);
	}
	env::mmap_faults = env::malloc_faults = mc::opt("osfail", 0);
	env::on_call = [](const char *c, uintptr_t, size_t) { if (sched::in_thread()) sched::point(c); };
	sched::is_point = point_at;
	sched::race_checked = tracked;
	sched::preemptions = mc::opt("preempt", -1);
	sched::extra_key = key;
	for (long t = 0; t <= nr; t++) sched::spawn(body, (void *)t);
	sched::run();
	env::mmap_faults = env::malloc_faults = false;
	while (held.size()) { slab_put(&cache, held.back()); held.pop_back(); }
	CHECK(slab_cache_used(&cache) == 0, "%zu bytes in use with nothing allocated", slab_cache_used(&cache));
	slab_cache_check(&cache);
	slab_cache_destroy(&cache);
	slab_arena_destroy(&arena);
	CHECK(env::mapped_bytes() == 0 && env::malloced_blocks() == 0, "memory remains");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
