/* C07, C08: slab cache histories against exact geometry, accounting and refusal oracles. */
#include "alloc.h"
#include <limits.h>
static Stack S;
static size_t up(size_t n) { return (n + QUOTA_UNIT_SIZE - 1) / QUOTA_UNIT_SIZE * QUOTA_UNIT_SIZE; }
struct B { struct slab *s; size_t cls; bool large; };
static std::vector<B> blk;      /* sorted by address of the slab */
static Live live;
static size_t order0; static int omax;

static bool fits(size_t cls)
{
	/* Is there a free aligned place of this class in the slabs the cache holds? */
	for (auto h : S.held)
		for (uintptr_t a = h; a < h + S.ss; a += cls) {
			bool ok = true;
			for (auto &b : blk) if (!b.large && (uintptr_t)b.s < a + cls && a < (uintptr_t)b.s + b.cls) { ok = false; break; }
			if (ok) return true;
		}
	return false;
}
static size_t used_model() { size_t n = 0; for (auto &b : blk) n += b.cls; return n; }

static void exec()
{
	int depth = mc::opt("depth", 6), maxlive = mc::opt("maxlive", 4);
	size_t ss = mc::opt("ss", 65536), limit = ss * mc::opt("limit", 3) + mc::opt("large_room", 4) * 65536;
	bool squeeze = mc::opt("squeeze", 0), with_large = mc::opt("large", 0), huge = mc::opt("huge", 0), ordered = mc::opt("ordered", 0);
	the_stack = &S;
	S.create(limit, mc::opt("pre", 0) * ss, ss);
	bool giant = mc::opt("giant", 0);
	if (giant) { env::malloc_max = 1ull << 34; quota_set(&S.q, QUOTA_MAX); }
	env::mmap_faults = mc::opt("osfail", 0);
	env::malloc_faults = mc::opt("osfail", 0);
	blk.clear(); live.v.clear();
	const size_t H = slab_sizeof();
	order0 = slab_order_size(&S.cache, 0);
	omax = 0; while (order0 << omax < ss) omax++;
	S.check_guard();
	CHECK(order0 << omax == ss, "the order 0 size %zu does not divide the slab size", order0);
	intptr_t charged_large = 0;
	std::vector<size_t> sizes;
	int skip = mc::opt("skip", 0);       /* leave out the smallest orders to go deeper */
	for (int o = skip; o <= omax; o++) {
		sizes.push_back((order0 << o) - H);
		if (!mc::opt("lean", 0) && o < omax) sizes.push_back((order0 << o) - H + 1);
	}
	if (!mc::opt("lean", 0)) { sizes.push_back(0); sizes.push_back(1); }
	if (with_large) { sizes.push_back(ss - H + 1); sizes.push_back(ss); sizes.push_back(2 * ss); if (huge) sizes.push_back(limit); }
	if (giant) for (size_t x : {(size_t)UINT32_MAX - H, (size_t)UINT32_MAX + 1 - H, (size_t)UINT32_MAX + 1, (size_t)UINT32_MAX + 5000, 2 * ((size_t)UINT32_MAX + 1), (size_t)INT_MAX + 1}) sizes.push_back(x);
	if (huge) for (size_t x : {(size_t)UINT32_MAX, (size_t)UINT32_MAX + 1, (size_t)UINT32_MAX + 5000, (size_t)INT_MAX + 1, (size_t)QUOTA_MAX - H, (size_t)QUOTA_MAX, (size_t)SSIZE_MAX, SIZE_MAX - H - 1024, SIZE_MAX - H, SIZE_MAX - H + 1, SIZE_MAX - 1, SIZE_MAX}) sizes.push_back(x);
	for (int step = 0;; step++) {
		/* state of the world */
		size_t lg = 0;
		for (auto &b : blk) if (b.large) lg += up(b.cls);
		CHECK(slab_cache_used(&S.cache) == used_model(), "the cache reports %zu bytes used, live blocks have %zu", slab_cache_used(&S.cache), used_model());
		size_t inarena = env::mapped_bytes();
		if (!mc::opt("pre", 0)) CHECK(quota_used(&S.q) == inarena + lg, "quota consumption %zu, arena slabs %zu + large blocks %zu", quota_used(&S.q), inarena, lg);
		size_t nfree = 0;
		for (auto h : S.held) {
			bool any = false;
			for (auto &b : blk) if (!b.large && (uintptr_t)b.s >= h && (uintptr_t)b.s < h + ss) any = true;
			nfree += !any;
		}
		CHECK(nfree <= 1, "%zu completely free arena slabs stay in the cache", nfree);
		live.verify();
		if (mc::fresh()) slab_cache_check(&S.cache);
		if (mc::fresh() && ss <= 1 << 26 && !giant) mc::state(live.key(S.key(0)), depth - step);
		if (step == depth) break;
		int n = blk.size(), ns = sizes.size();
		int nget = n < maxlive ? ns : 0;
		int nord = ordered && n < maxlive ? omax + 1 : 0;
		int op = mc::choose(nget + nord + n + (squeeze ? 1 : 0), "op");
		env::Own o0 = env::own(); size_t q0 = quota_used(&S.q), u0 = slab_cache_used(&S.cache);
		size_t h0 = S.held.size(); int m0 = S.n_map, um0 = S.n_unmap;
		if (op < nget + nord) {
			size_t size; struct slab *s; size_t cls; bool large = false;
			if (op < nget) {
				size = sizes[op];
				size_t total; bool ovf = __builtin_add_overflow(size, H, &total);
				cls = order0;
				if (ovf || total > ss) { large = true; cls = ovf ? SIZE_MAX : total; }
				else while (cls < total) cls <<= 1;
				bool fit = !large && fits(cls);
				s = slab_get(&S.cache, size);
				LOG("slab_get(%zu) -> %p", size, s);
				if (large) {
					CHECK(S.n_map == m0 && S.n_unmap == um0, "a large block touched the arena");
					bool room = !ovf && cls <= QUOTA_MAX && quota_total(&S.q) >= q0 && up(cls) <= quota_total(&S.q) - q0;
					if (!room) CHECK(s == NULL, "a block of %zu bytes was granted over the quota", size);
					else if (mc::env_left() == mc::opt("faults", 0) || !mc::opt("osfail", 0)) { if (cls < (giant ? 10ull << 30 : 64u << 20) && env::malloced_bytes() < 10ull << 30) CHECK(s != NULL, "a large block of %zu bytes was refused with room in the quota", size); }
				} else if (fit) {
					CHECK(s != NULL, "slab_get(%zu) failed although a free block of %zu bytes is held", size, cls);
					CHECK(S.n_map == m0, "slab_get(%zu) took a new arena slab although a free block is held", size);
				} else {
					CHECK(S.n_map == m0 + 1, "slab_get(%zu) made %d arena requests", size, S.n_map - m0);
					CHECK((s != NULL) == (S.held.size() > h0), "slab_get(%zu) answered %p but the arena %s a slab", size, s, S.held.size() > h0 ? "gave" : "refused");
				}
			} else {
				int o = op - nget;
				size = (order0 << o) - H; cls = order0 << o;
				bool fit = fits(cls);
				s = slab_get_with_order(&S.cache, o);
				LOG("slab_get_with_order(%d) -> %p", o, s);
				CHECK(!fit || (s && S.n_map == m0), "slab_get_with_order(%d) ignored a free block", o);
				CHECK(slab_order(&S.cache, cls) == o && slab_order(&S.cache, cls / 2 + 1) == (o ? o : 0), "slab_order");
			}
			if (s == NULL) {
				CHECK(env::own() == o0 && quota_used(&S.q) == q0 && slab_cache_used(&S.cache) == u0, "a refused request changed the accounting");
				mc::outcome(1000 + large);
				continue;
			}
			CHECK(slab_capacity(s) >= size, "block of %zu usable bytes for a request of %zu", slab_capacity(s), size);
			if (!large) {
				CHECK((uintptr_t)s % cls == 0, "block %p is not aligned to its class %zu", s, cls);
				CHECK(slab_capacity(s) == cls - H, "block of capacity %zu for class %zu", slab_capacity(s), cls);
				for (size_t x : {H, H + 1, cls / 2, cls - 1}) CHECK(slab_from_ptr((char *)s + x, ~(intptr_t)(cls - 1)) == s, "address inside the block does not lead back");
				bool in = false;
				for (auto h : S.held) if ((uintptr_t)s >= h && (uintptr_t)s + cls <= h + ss) in = true;
				CHECK(in, "block %p is outside the slabs taken from the arena", s);
			} else CHECK(env::is_malloced(s, cls), "large block outside its heap block");
			CHECK(slab_from_data(slab_data(s)) == s, "slab_from_data");
			CHECK(size + H < size || slab_real_size(&S.cache, size) == (large ? size + H : cls), "slab_real_size(%zu) is %zu", size, slab_real_size(&S.cache, size));
			for (auto &b : blk) CHECK((uintptr_t)s + cls <= (uintptr_t)b.s || (uintptr_t)b.s + b.cls <= (uintptr_t)s, "block %p overlaps block %p", s, b.s);
			live.add(slab_data(s), slab_capacity(s));
			size_t i = 0; while (i < blk.size() && blk[i].s < s) i++;
			blk.insert(blk.begin() + i, B{s, cls, large});
			mc::outcome(mc::mix(cls, S.held.size()));
		} else if (op < nget + nord + n) {
			B b = blk[op - nget - nord];
			LOG("slab_put(%p) class %zu", b.s, b.cls);
			live.del(live.find(slab_data(b.s)));
			blk.erase(blk.begin() + (op - nget - nord));
			slab_put(&S.cache, b.s);
			if (b.large) CHECK(S.n_unmap == um0, "a large block touched the arena");
			else CHECK(env::own() == o0 && quota_used(&S.q) == q0, "returning a block changed the accounting");
		} else {
			if (S.squeezed) { LOG("memory available"); S.relax(); } else { LOG("memory refused"); S.squeeze(); }
		}
	}
	/* Release everything (or nothing: destruction must cope) and tear down. */
	int end = mc::choose(2, "end");
	if (end == 0) {
		for (auto &b : blk) { live.del(live.find(slab_data(b.s))); slab_put(&S.cache, b.s); live.verify(); }
		blk.clear();
		CHECK(slab_cache_used(&S.cache) == 0, "%zu bytes in use after everything was released", slab_cache_used(&S.cache));
		CHECK(S.held.size() <= 1, "%zu arena slabs stay in the cache", S.held.size());
		CHECK(env::malloced_blocks() == 0, "large blocks remain");
		slab_cache_check(&S.cache);
		if (S.held.size()) {     /* the cached slab can be handed out again whole */
			int m = S.n_map;
			struct slab *s = slab_get(&S.cache, ss - H);
			CHECK(s && S.n_map == m && (uintptr_t)s == S.held[0], "the cached arena slab cannot be handed out whole");
			slab_put(&S.cache, s);
		}
	}
	size_t arena_bytes = env::mapped_bytes();
	S.check_guard();
	slab_cache_destroy(&S.cache);
	CHECK(env::malloced_blocks() == 0, "destroying the cache left %zu large blocks", env::malloced_blocks());
	CHECK(S.held.size() == 0, "destroying the cache left %zu arena slabs out", S.held.size());
	if (!mc::opt("pre", 0)) CHECK(quota_used(&S.q) == arena_bytes, "destroying the cache left %zu bytes charged", quota_used(&S.q) - arena_bytes);
	S.relax();
	slab_arena_destroy(&S.arena);
	CHECK(env::mapped_bytes() == 0, "memory remains mapped");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
