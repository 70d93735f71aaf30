/* C14, C15, C16: region histories against a stream model. */
#include "alloc.h"
extern "C" {
#include "region.h"
}
struct Cb { bool alloc; size_t arg, used; };
static std::vector<Cb> cbs;
struct Chunk { uintptr_t p; size_t n, end; };      /* end: region_used() after it */
struct Slab { size_t size, used, base; };          /* base: used by all older slabs together */
struct Reg {
	struct region r;
	std::vector<Chunk> c;      /* in allocation order */
	std::vector<Slab> s;       /* oldest first */
	size_t used, resv; uintptr_t resp; size_t resal;
	int idx; bool cb;
};
static Stack S;
static Live live;
static Reg R[2];
static int NR;
static size_t ovh;                  /* bytes before the first object in a slab, all headers */
static void on_alloc(struct region *r, size_t size, void *arg) { CHECK(arg == (void *)r, "callback argument"); cbs.push_back(Cb{true, size, region_used(r)}); }
static void on_trunc(struct region *r, size_t used, void *arg) { CHECK(arg == (void *)r, "callback argument"); cbs.push_back(Cb{false, used, region_used(r)}); }

static size_t total(Reg &g) { size_t t = 0; for (auto &s : g.s) t += s.size; return t; }
static void verify()
{
	size_t all = S.hog_bytes;
	for (int i = 0; i < NR; i++) {
		Reg &g = R[i];
		CHECK(region_used(&g.r) == g.used, "region %d reports %zu bytes used, expected %zu", i, region_used(&g.r), g.used);
		CHECK(region_total(&g.r) == total(g), "region %d reports %zu bytes held, expected %zu", i, region_total(&g.r), total(g));
		all += total(g);
	}
	CHECK(slab_cache_used(&S.cache) == all, "the slab cache has %zu bytes in use, the regions hold %zu", slab_cache_used(&S.cache), all);
	live.verify();
}
static size_t room(Reg &g) { return g.s.empty() ? 0 : g.s.back().size - ovh - g.s.back().used; }
static int bud0;                     /* deviations left before the call */
static void refused(size_t need)
{
	if (mc::env_left() < bud0) { mc::outcome(78); return; }      /* the system refused */
	struct slab *s = slab_get(&S.cache, need);
	CHECK(s == NULL, "a request needing %zu bytes was refused although memory is available", need);
	mc::outcome(77);
}
/* The slab list after a request for `need` contiguous bytes that succeeded. */
static void grown(Reg &g, size_t need)
{
	size_t t = region_total(&g.r), m = total(g);
	if (t == m) { CHECK(room(g) >= need, "no slab was added though only %zu of %zu bytes are left", room(g), need); return; }
	CHECK(t > m && room(g) < need, "a slab was added though %zu bytes are left and %zu were asked", room(g), need);
	CHECK(t - m >= need + ovh, "the new slab of %zu bytes is too small for %zu", t - m, need);
	g.s.push_back(Slab{t - m, 0, g.used});
}
static bool alloc(Reg &g, size_t size, size_t align, int how = 0)
{
	cbs.clear(); bud0 = mc::env_left();
	size_t u0 = g.used, need = g.resv ? 0 : size + align - 1;
	void *p; size_t sz = size;
	struct O24 { long a[3]; }; struct alignas(64) O64 { char a[64]; };
	switch (how) {
	case 1: p = region_alloc_object(&g.r, O24, &sz); break;
	case 2: p = region_alloc_array(&g.r, short, size / 2, &sz); break;
	case 3: p = region_alloc_object(&g.r, O64, &sz); break;
	case 4: p = region_alloc_cb(&g.r, size); break;
	default: p = align == 1 ? region_alloc(&g.r, size) : region_aligned_alloc(&g.r, size, align);
	}
	LOG("region %d: alloc(%zu, align %zu)%s -> %p, used %zu", g.idx, size, align, how ? " (helper)" : "", p, region_used(&g.r));
	CHECK(sz == size, "the helper reports size %zu for %zu", sz, size);
	if (p == NULL) {
		CHECK(!g.resv, "an allocation of reserved bytes failed");
		CHECK(cbs.empty(), "callback for a failed allocation");
		verify();
		refused(need + ovh - slab_sizeof());
		return false;
	}
	CHECK(g.resv ? (uintptr_t)p == g.resp : true, "allocation at %p, reserved at %#lx", p, (long)g.resp);
	if (need) grown(g, need);
	else if (region_total(&g.r) != total(g)) mc::fail("allocating reserved bytes changed the memory held");
	size_t d = region_used(&g.r) - u0;
	CHECK((uintptr_t)p % align == 0, "%p is not aligned to %zu", p, align);
	CHECK(d >= size && d - size < align, "%zu bytes accounted for %zu aligned to %zu", d, size, align);
	if (g.cb) CHECK(cbs.size() == 1 && cbs[0].alloc && cbs[0].arg == d && cbs[0].used == u0, "allocation callback: %zu calls, size %zu (accounted %zu)", cbs.size(), cbs.empty() ? 0 : cbs[0].arg, d);
	g.used += d; g.s.back().used += d; g.resv = 0;
	CHECK(g.s.back().used + ovh <= g.s.back().size, "the slab is overfull");
	live.add(p, size, g.idx + 1);
	g.c.push_back(Chunk{(uintptr_t)p, size, g.used});
	mc::outcome(mc::mix(size, d) ^ g.s.size());
	verify();
	return true;
}
static bool reserve(Reg &g, size_t size, size_t align, bool cb)
{
	cbs.clear(); bud0 = mc::env_left();
	size_t sz = size, need = size + align - 1;
	void *p = cb ? region_reserve_cb(&g.r, &sz) : align == 1 ? region_reserve(&g.r, size) : region_aligned_reserve(&g.r, size, align);
	LOG("region %d: reserve(%zu, align %zu)%s -> %p (%zu)", g.idx, size, align, cb ? " cb" : "", p, sz);
	if (p == NULL) { CHECK(cbs.empty(), "callback for a failed reservation"); verify(); refused(need + ovh - slab_sizeof()); return false; }
	grown(g, need);
	CHECK((uintptr_t)p % align == 0, "%p is not aligned to %zu", p, align);
	CHECK(cbs.empty(), "callback for a reservation");
	CHECK(sz >= size, "reserved %zu, asked %zu", sz, size);
	if (cb) { size_t left = g.s.back().size - ovh - g.s.back().used; CHECK(sz == left, "%zu bytes announced, %zu are there", sz, left); }
	/* all of it may be written */
	live.add(p, sz, 99);
	verify();
	live.del(live.find(p));
	g.resv = size; g.resp = (uintptr_t)p; g.resal = align;
	return true;
}
static void forget(Reg &g, size_t keep)
{
	while (g.c.size() && g.c.back().end > keep) { live.del(live.find((void *)g.c.back().p)); g.c.pop_back(); }
}
static void truncate(Reg &g, size_t keep)
{
	cbs.clear();
	LOG("region %d: truncate(%zu) from %zu", g.idx, keep, g.used);
	forget(g, keep);
	std::vector<std::pair<uintptr_t, size_t>> held;
	region_truncate(&g.r, keep);
	g.resv = 0; g.used = keep;
	while (g.s.size() && g.s.back().base + 0 >= keep) g.s.pop_back();
	if (g.s.size()) g.s.back().used = keep - g.s.back().base;
	if (g.cb) CHECK(cbs.size() == 1 && !cbs[0].alloc && cbs[0].arg == keep && cbs[0].used == keep, "truncation callback: %zu calls, used %zu", cbs.size(), cbs.empty() ? 0 : cbs[0].arg);
	verify();
}
static void free_all(Reg &g)
{
	cbs.clear();
	LOG("region %d: free", g.idx);
	forget(g, 0);
	region_free(&g.r);
	g.resv = 0; g.used = 0; g.s.clear();
	if (g.cb) CHECK(cbs.size() == 1 && !cbs[0].alloc && cbs[0].arg == 0 && cbs[0].used == 0, "truncation callback: %zu calls", cbs.size());
	verify();
}
static void free_after(Reg &g, size_t after)
{
	cbs.clear();
	LOG("region %d: free_after(%zu), used %zu", g.idx, after, g.used);
	bool does = g.used > after;
	if (does) forget(g, 0);
	region_free_after(&g.r, after);
	if (does) { g.used = 0; g.s.clear(); g.resv = 0; if (g.cb) CHECK(cbs.size() == 1 && !cbs[0].alloc && cbs[0].arg == 0, "truncation callback: %zu calls", cbs.size()); }
	else CHECK(cbs.empty(), "callback though nothing was freed");
	verify();
}
static void reset(Reg &g)
{
	LOG("region %d: reset", g.idx);
	forget(g, 0);
	region_reset(&g.r);
	g.resv = 0; g.used = 0;
	for (auto &s : g.s) s.used = s.base = 0;
	verify();
}
static void join(Reg &g, size_t n)
{
	cbs.clear(); bud0 = mc::env_left();
	LOG("region %d: join(%zu of %zu)", g.idx, n, g.used);
	/* the last n bytes accounted, padding included, as they are now */
	std::string want;
	{
		size_t left = n;
		/* every slab's data: its last chunk tells where it lies */
		for (size_t i = g.s.size(); i-- > 0 && left;) {
			Slab &s = g.s[i];
			if (s.used == 0) continue;
			uintptr_t end = 0;
			for (auto &c : g.c) if (c.end == s.base + s.used) end = c.p + c.n;
			CHECK(end, "internal: no chunk at the end of a slab");
			size_t k = std::min(left, s.used);
			want.insert(0, std::string((char *)end - k, k));
			left -= k;
		}
		CHECK(left == 0, "internal: join model");
	}
	bool contig = g.s.back().used >= n;
	size_t u0 = g.used;
	env::Own o0 = env::own();
	void *p = region_join(&g.r, n);
	LOG("  -> %p", p);
	if (p == NULL) {
		CHECK(!contig, "joining bytes that are contiguous failed");
		CHECK(cbs.empty() && env::own() == o0, "a failed join had effects");
		verify();
		refused(n + ovh - slab_sizeof());
		return;
	}
	CHECK(memcmp(p, want.data(), n) == 0, "the joined bytes differ from the last %zu allocated", n);
	size_t d = region_used(&g.r) - u0;
	if (contig) {
		CHECK(d == 0 && cbs.empty(), "contiguous bytes were accounted again");
		Chunk &l = g.c.back();
		CHECK((uintptr_t)p == l.p + l.n - n, "contiguous bytes were moved");
	} else {
		grown(g, n);
		CHECK(d == n, "%zu bytes accounted for joining %zu", d, n);
		if (g.cb) CHECK(cbs.size() == 1 && cbs[0].alloc && cbs[0].arg == n && cbs[0].used == u0, "allocation callback on join");
		g.used += n; g.s.back().used += n;
		CHECK(g.s.back().used + ovh <= g.s.back().size, "the slab is overfull");
		live.verify();
		live.add(p, n, g.idx + 1);
		g.c.push_back(Chunk{(uintptr_t)p, n, g.used});
		mc::outcome(mc::mix(0x101, n));
	}
	verify();
}

static void exec()
{
	int depth = mc::opt("depth", 5), maxc = mc::opt("maxchunks", 6), sq = mc::opt("squeeze", 0), full = mc::opt("full", 0), fail = mc::opt("osfail", 0);
	bool joins = mc::opt("join", 0), resets = mc::opt("reset", 0), wantcb = mc::opt("cb", 1), res = mc::opt("reserve", 1), helpers = mc::opt("helpers", 0);
	the_stack = &S;
	S.create(mc::opt("limit", 8) * 65536, mc::opt("pre", 0) * 65536, mc::opt("ss", 65536));
	env::mmap_faults = env::malloc_faults = fail;
	bool giant = mc::opt("giant", 0);
	if (giant) { env::malloc_max = 1ull << 34; quota_set(&S.q, QUOTA_MAX); }
	live.v.clear(); cbs.clear(); ovh = 0;
	NR = mc::opt("regions", 1);
	size_t o0 = slab_order_size(&S.cache, 0);
	{       /* how much of a slab is left for data */
		struct region t;
		memset(&t, 0xAB, sizeof t);
		region_create(&t, &S.cache);
		int bud = mc::env_left(); bool mf = env::mmap_faults; env::mmap_faults = false;
		void *p = region_alloc(&t, 1);
		env::mmap_faults = mf;
		if (!p) mc::fail("internal: probe");
		ovh = (uintptr_t)p & (region_total(&t) - 1);
		CHECK(ovh < region_total(&t) && region_total(&t) == o0, "first slab has %zu bytes", region_total(&t));
		CHECK(region_used(&t) == 1, "one byte accounted as %zu", region_used(&t));
		region_destroy(&t);
		CHECK(slab_cache_used(&S.cache) == 0, "the destroyed region left %zu bytes in the slab cache", slab_cache_used(&S.cache));
	}
	for (int i = 0; i < NR; i++) {
		Reg &g = R[i];
		memset(&g.r, 0xAB, sizeof g.r);
		g.c.clear(); g.s.clear(); g.used = g.resv = 0; g.idx = i; g.resp = 0; g.resal = 1;
		region_create(&g.r, &S.cache);
		if ((g.cb = wantcb && i == 0)) region_set_callbacks(&g.r, on_alloc, on_trunc, &g.r);
	}
	verify();
	/* capacities of the first orders and of an arena slab */
	size_t c0 = o0 - ovh, c1 = 2 * o0 - ovh, cm = S.ss - ovh;
	for (int step = 0;; step++) {
		if (mc::fresh() && !giant) {
			uint64_t h = S.key(NR);
			for (int i = 0; i < NR; i++) {
				h = mc::hash_mem(h, &R[i].r, sizeof R[i].r);
				for (auto &c : R[i].c) h = mc::mix(h, mc::mix(c.end, c.p));
				for (auto &s : R[i].s) h = mc::mix(h, mc::mix(s.used, s.size));
				h = mc::mix(h, R[i].resv ^ R[i].resp);
			}
			mc::state(live.key(h), (depth - step) * 16 + mc::env_left());
		}
		if (step == depth) break;
		struct Op { int kind, r; size_t a, al; };
		std::vector<Op> ops;
		for (int r = 0; r < NR; r++) {
			Reg &g = R[r];
			size_t rm = room(g);
			bool can = (int)g.c.size() < maxc;
			if (g.resv) {
				if (can) for (size_t s : {(size_t)1, g.resv}) { ops.push_back(Op{0, r, s, g.resal}); if (g.resv == 1) break; }
			} else if (can) {
				std::vector<size_t> sizes = {1, 24, c0};
				if (full) sizes.insert(sizes.end(), {9, c0 - 1, c0 + 1, c1, c1 + 1, cm, cm + 1});
				else sizes.push_back(c1);
				if (mc::opt("large", 0)) sizes.push_back(cm + 1);
				if (rm && !full) { sizes.push_back(rm); if (full || !joins) sizes.push_back(rm + 1); }
				if (rm && full) { sizes.push_back(rm); sizes.push_back(rm + 1); if (rm > 1) sizes.push_back(rm - 1); }
				if (giant) { sizes = {24, 1ull << 32, (1ull << 32) - ovh, (5ull << 30) + 8}; if (rm) sizes.push_back(rm); }
				std::sort(sizes.begin(), sizes.end());
				sizes.erase(std::unique(sizes.begin(), sizes.end()), sizes.end());
				for (size_t s : sizes) ops.push_back(Op{0, r, s, 1});
				if (mc::opt("align", 1)) {
					ops.push_back(Op{0, r, 3, 64});
					if (giant) ops.push_back(Op{0, r, (1ull << 32) + 3, 64});
					if (rm > 64) { ops.push_back(Op{0, r, rm - 63, 64}); }
					if (rm > 16) ops.push_back(Op{0, r, rm - 14, 16});
					if (full) { ops.push_back(Op{0, r, 8, 8}); ops.push_back(Op{0, r, 1, 4096}); if (cm > 8192) ops.push_back(Op{0, r, c0, 256}); ops.push_back(Op{0, r, 2, 2}); }
				}
				if (res) {
					std::vector<size_t> rs = {5, c0};
					if (rm) { rs.push_back(rm); rs.push_back(rm + 1); }
					if (full) { rs.push_back(c1 + 1); rs.push_back(cm + 1); rs.push_back(1); }
					if (giant) rs = {(1ull << 32) + 24, rm};
					for (size_t s : rs) if (s) ops.push_back(Op{1, r, s, 1});
					ops.push_back(Op{1, r, 17, 32});
					if (full) ops.push_back(Op{1, r, c0, 8});
					ops.push_back(Op{2, r, c0 / 2, 1});
				}
				if (helpers) { ops.push_back(Op{8, r, 24, 8}); ops.push_back(Op{9, r, 10, 2}); ops.push_back(Op{10, r, 64, 64}); ops.push_back(Op{11, r, 33, 1}); ops.push_back(Op{12, r, 0, 0}); }
			}
			if (g.used || g.resv) {
				std::vector<size_t> marks;
				if (g.used) marks.push_back(0);
				for (auto &c : g.c) marks.push_back(c.end);
				if (!g.resv && marks.size() > 1 && g.c.back().end == g.used && !full) marks.pop_back();
				for (size_t m : marks) ops.push_back(Op{3, r, m, 0});
			}
			if (g.s.size()) {
				ops.push_back(Op{4, r, 0, 0});
				if (resets) ops.push_back(Op{5, r, 0, 0});
				if (resets && g.used) { ops.push_back(Op{6, r, g.used, 0}); ops.push_back(Op{6, r, g.used - 1, 0}); ops.push_back(Op{6, r, 0, 0}); }
			}
			if (joins && g.used && !g.resv && can) {
				std::vector<size_t> ns = {1, g.used};
				size_t acc = 0;
				for (size_t i = g.s.size(); i-- > 0;) { acc += g.s[i].used; ns.push_back(acc); if (acc < g.used) ns.push_back(acc + 1); if (acc > 1) ns.push_back(acc - 1); }
				for (auto &c : g.c) { ns.push_back(g.used - c.end + c.n); }
				std::sort(ns.begin(), ns.end());
				ns.erase(std::unique(ns.begin(), ns.end()), ns.end());
				for (size_t n : ns) if (n && n <= g.used) ops.push_back(Op{7, r, n, 0});
			}
		}
		if (sq) ops.push_back(Op{20, 0, 0, 0});
		if (ops.empty()) break;
		Op op = ops[mc::choose(ops.size(), "op")];
		Reg &g = R[op.r];
		switch (op.kind) {
		case 0: alloc(g, op.a, op.al); break;
		case 1: reserve(g, op.a, op.al, false); break;
		case 2: reserve(g, op.a, 1, true); break;
		case 3: truncate(g, op.a); break;
		case 4: free_all(g); break;
		case 5: reset(g); break;
		case 6: free_after(g, op.a); break;
		case 7: join(g, op.a); break;
		case 8: alloc(g, op.a, op.al, 1); break;
		case 9: alloc(g, op.a, op.al, 2); break;
		case 10: alloc(g, op.a, op.al, 3); break;
		case 11: alloc(g, op.a, op.al, 4); break;
		case 12: {      /* a guard restores the figure at its creation */
			size_t u = g.used;
			LOG("region %d: guard {", g.idx);
			{
				RegionGuard guard(&g.r);
				alloc(g, 40, 1); alloc(g, c0, 1);
				forget(g, u);
				cbs.clear();
			}
			LOG("}");
			g.used = u;
			while (g.s.size() && g.s.back().base >= u) g.s.pop_back();
			if (g.s.size()) g.s.back().used = u - g.s.back().base;
			verify();
			break;
		}
		case 20: if (S.squeezed) { LOG("memory available"); S.relax(); } else { LOG("memory refused"); S.squeeze(); S.hog(); } verify(); break;
		}
		slab_cache_check(&S.cache);
	}
	env::mmap_faults = env::malloc_faults = false;
	for (int i = 0; i < NR; i++) {
		forget(R[i], 0);
		if (i == 0) free_all(R[i]);
		region_destroy(&R[i].r);
		CHECK(region_used(&R[i].r) == 0 && region_total(&R[i].r) == 0, "a destroyed region reports %zu used, %zu held", region_used(&R[i].r), region_total(&R[i].r));
	}
	CHECK(live.v.empty(), "internal: live objects left");
	S.relax();
	CHECK(slab_cache_used(&S.cache) == 0, "the regions left %zu bytes in the slab cache", slab_cache_used(&S.cache));
	S.destroy();
	CHECK(env::mapped_bytes() == 0 && env::malloced_blocks() == 0, "memory remains");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
