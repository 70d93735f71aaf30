/* C21 C22 C23: indexed block array histories. */
#include "mc.h"
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <vector>
#include <set>
#include <algorithm>
extern "C" {
#include "matras.h"
}
typedef unsigned char u8;
static size_t E, B;                     /* extent and block size */
static const int SLOTS = 400;
static u8 *pool;
static bool live[SLOTS];
static int nlive, hi, refused;
static bool refuse_all, may_refuse;
static bool freed_safe, freed_any;                 /* references kept in freed extents lead to a dummy */
static struct matras_allocator al;
static struct matras m;
static struct matras_stats st;
static int slot_of(const void *p) { size_t d = (const u8 *)p - pool; return (const u8 *)p >= pool && d < SLOTS * E ? (int)(d / E) : -1; }
static void *ext_alloc(struct matras_allocator *a)
{
	CHECK(a == &al, "the allocator got a wrong argument");
	if (refuse_all || (may_refuse && mc::choose_env(2, "extent"))) { refused++; LOG("  extent refused"); return NULL; }
	int s = 0; while (live[s]) s++;
	if (s >= SLOTS - 1) mc::fail("internal: extent pool");
	for (size_t i = 0; s < hi && i < E && !freed_any; i++) CHECK(pool[s * E + i] == 0xDD, "a freed extent was written");
	if (s >= hi) hi = s + 1;
	live[s] = true; nlive++;
	memset(pool + s * E, 0xCC, E);
	return pool + s * E;
}
static void ext_free(struct matras_allocator *a, void *p)
{
	CHECK(a == &al, "the allocator got a wrong argument");
	int s = slot_of(p);
	CHECK(s >= 0 && p == pool + s * E, "%p was freed, which is no extent", p);
	CHECK(live[s], "an extent was freed twice");
	live[s] = false; nlive--;
	memset(p, 0xDD, E);
	if (freed_safe) freed_any = true;
	if (freed_safe) for (size_t i = 0; i < E / sizeof(void *); i++) ((void **)p)[i] = pool + SLOTS * E;
}
struct V { struct matras_view v; std::vector<int> c; std::vector<void *> at; };
static std::vector<V *> views;          /* in order of creation */
static V vbuf[4];
static std::vector<int> head;
static std::vector<void *> addr;
static bool reserved;
static int credit;
static u8 byte(int id, int val, size_t i) { return (u8)(id * 37 + val * 101 + i * 11 + 1); }
static void fill(void *p, int id, int val) { for (size_t i = 0; i < B; i++) ((u8 *)p)[i] = byte(id, val, i); }
static int differs(const void *p, int id, int val) { for (size_t i = 0; i < B; i++) if (((const u8 *)p)[i] != byte(id, val, i)) return (int)i; return -1; }
static bool inside(const void *p) { int s = slot_of(p); return s >= 0 && live[s] && ((const u8 *)p - pool) % B == 0 && (size_t)((const u8 *)p - (pool + s * E)) + B <= E; }
/* Extents an array of n blocks consists of. */
static size_t formula(size_t n)
{
	if (!n) return 0;
	size_t b = E / B, P = E / sizeof(void *), e = (n + b - 1) / b;
	return 1 + (e + P - 1) / P + e;
}
static size_t capacity() { size_t P = E / sizeof(void *); return P * P * (E / B); }
static int newval(int id)
{
	for (int v = 0;; v++) {
		bool used = id < (int)head.size() && head[id] == v;
		for (V *w : views) used |= id < (int)w->c.size() && w->c[id] == v;
		if (!used) return v;
	}
}
static void verify_views(const char *key)
{
	for (size_t j = 0; j < views.size(); j++) {
		V *w = views[j];
		CHECK(w->v.block_count == w->c.size(), "view %zu has %zu blocks, had %zu when created", j, w->v.block_count, w->c.size());
		CHECK(matras_is_read_view_created(&w->v), "view %zu is not marked as created", j);
		for (size_t i = 0; i < w->c.size(); i++) {
			void *p = matras_view_get(&m, &w->v, i);
			if (key) {
				if (!inside(p) || p != w->at[i] || differs(p, i, w->c[i]) >= 0) mc::finding(key, "a view lost its content after matras_dealloc was refused an extent");
				continue;
			}
			CHECK(p == w->at[i], "block %zu of view %zu moved", i, j);
			CHECK(inside(p), "block %zu of view %zu is not in an extent of the array", i, j);
			int d = differs(p, i, w->c[i]);
			CHECK(d < 0, "byte %d of block %zu of view %zu changed", d, i, j);
		}
	}
}
static void verify()
{
	CHECK(m.head.block_count == head.size(), "%zu blocks, expected %zu", m.head.block_count, head.size());
	static struct matras_view hv; static bool init;
	if (!init) { memset(&hv, 0xAB, sizeof hv); matras_head_read_view(&hv); init = true; }
	CHECK(!matras_is_read_view_created(&hv), "a head view is marked as created");
	for (size_t i = 0; i < head.size(); i++) {
		void *p = matras_get(&m, i);
		CHECK(inside(p), "block %zu is not in an extent of the array", i);
		CHECK(matras_view_get(&m, &hv, i) == p, "the head view gives another address for block %zu", i);
		int d = differs(p, i, head[i]);
		CHECK(d < 0, "byte %d of block %zu changed", d, i);
		/* blocks of an extent are contiguous */
		if (i % (E / B)) CHECK((u8 *)p == (u8 *)matras_get(&m, i - 1) + B, "block %zu does not follow block %zu", i, i - 1);
		else for (size_t k = 0; k < i; k += E / B) CHECK(p != matras_get(&m, k), "blocks %zu and %zu are at the same address", k, i);
		if (views.empty() && addr[i]) CHECK(p == addr[i], "block %zu moved from %p to %p though there is no view", i, addr[i], p);
		addr[i] = p;
	}
	verify_views(NULL);
	CHECK(matras_extent_count(&m) == st.extent_count, "%u extents, but %u in the statistics", matras_extent_count(&m), st.extent_count);
	if (!reserved) CHECK((int)matras_extent_count(&m) == nlive, "%u extents are reported, %d are held", matras_extent_count(&m), nlive);
	else CHECK((int)matras_extent_count(&m) <= nlive, "%u extents are reported, %d are held", matras_extent_count(&m), nlive);
	CHECK(matras_extent_count(&m) == formula(head.size()) + st.read_view_extent_count, "%u extents, %u of them for views, %zu for the array expected",
	      matras_extent_count(&m), st.read_view_extent_count, formula(head.size()));
	if (views.empty()) CHECK(st.read_view_extent_count == 0, "%u extents are kept for views, there are none", st.read_view_extent_count);
}
static void destroy_view(size_t j)
{
	V *w = views[j];
	matras_destroy_read_view(&m, &w->v);
	CHECK(!matras_is_read_view_created(&w->v), "a destroyed view is marked as created");
	views.erase(views.begin() + j);
	if (views.empty()) for (size_t i = 0; i < head.size(); i++) addr[i] = matras_get(&m, i);
	credit = 0;
}
static void grown(size_t from) { addr.resize(head.size(), NULL); for (size_t i = from; i < head.size(); i++) addr[i] = NULL; }
static void small_()
{
	int depth = mc::opt("depth", 6), nv = mc::opt("views", 2), maxn = mc::opt("blocks", 1 << 20), prefill = mc::opt("prefill", 0), deal = mc::opt("dealloc", 0), res = mc::opt("reserve", 0), wr = mc::opt("write", 1);
	static const size_t geo[][2] = {{16, 8}, {16, 16}, {16, 4}, {32, 16}, {32, 32}, {16, 1}, {64, 16}, {128, 32}};
	int g = mc::opt("geo", -1), ng = mc::opt("geos", 4);
	if (g < 0) g = mc::choose(ng, "geometry");
	E = geo[g][0]; B = geo[g][1];
	size_t cap = capacity();
	static u8 *block;
	if (!block) block = (u8 *)aligned_alloc(4096, (SLOTS + 1) * 128);
	pool = block;
	memset(live, 0, sizeof live); nlive = hi = refused = 0; refuse_all = may_refuse = freed_safe = freed_any = false;
	views.clear(); head.clear(); addr.clear(); reserved = false; credit = 0;
	memset(&m, 0xAB, sizeof m); memset(&al, 0xAB, sizeof al); memset(&st, 0xAB, sizeof st);
	for (V &v : vbuf) memset(&v.v, 0xAB, sizeof v.v);
	matras_allocator_create(&al, E, ext_alloc, ext_free);
	matras_stats_create(&st);
	matras_create(&m, B, &al, &st);
	LOG("extents of %zu, blocks of %zu, capacity %zu", E, B, cap);
	if (prefill) {
		std::set<size_t> ks = {0, 1, E / B, E / B + 1, E / B * (E / sizeof(void *)), E / B * (E / sizeof(void *)) + 1, cap - 1, cap};
		std::vector<size_t> k;
		for (size_t x : ks) if (x <= cap && x <= (size_t)maxn) k.push_back(x);
		size_t n = k[mc::choose(k.size(), "prefill")];
		LOG("%zu blocks", n);
		for (size_t i = 0; i < n; i++) { matras_id_t id; void *p = matras_alloc(&m, &id); CHECK(p && id == i, "block %zu was refused or got another id", i); head.push_back(0); fill(p, i, 0); }
		grown(0);
	}
	may_refuse = true;
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			verify();
			uint64_t k = mc::hash_mem(0, &m, sizeof m);
			k = mc::mix(k, credit * 2 + reserved);
			for (V *w : views) { k = mc::mix(k, w - vbuf); k = mc::hash_mem(k, &w->v, sizeof w->v); for (int c : w->c) k = mc::mix(k, c); }
			for (int c : head) k = mc::mix(k, c + 5);
			for (int s = 0; s < hi; s++) { k = mc::mix(k, live[s]); if (live[s]) k = mc::hash_mem(k, pool + s * E, E); }
			k = mc::hash_mem(k, &al, sizeof al);
			mc::outcome(mc::mix(head.size() * 64 + nlive, views.size()));
			mc::state(k, depth - step);
		}
		struct Op { int k, a; };
		std::vector<Op> ops;
		if (step < depth) {
			if ((int)head.size() < maxn) {
				ops.push_back(Op{0, 1});
				for (size_t r = 2; r <= E / B; r *= 2) if (head.size() % r == 0) ops.push_back(Op{1, (int)r});
			}
			if (!head.empty()) {
				ops.push_back(Op{2, 1});
				for (size_t r = 2; r <= E / B; r *= 2) if (head.size() % r == 0 && head.size() >= r) ops.push_back(Op{3, (int)r});
				for (size_t i = 0; i < head.size(); i++) {
					/* all blocks of small arrays, the ends of extents of larger ones */
					size_t per = E / B, l2 = per * (E / sizeof(void *));
					if (head.size() > 8 && i % per != 0 && i + 1 != head.size()) continue;
					if (head.size() > 20 && i != 0 && i % l2 != 0 && i % l2 / per != 1 && i + per + 1 < head.size()) continue;
					ops.push_back(Op{4, (int)i});
					if (wr > 1) ops.push_back(Op{5, (int)i});
				}
			}
			for (size_t j = 0; j < views.size(); j++) ops.push_back(Op{7, (int)j});
			if ((int)views.size() < nv) ops.push_back(Op{6, 0});
			if (res) { ops.push_back(Op{8, 1}); ops.push_back(Op{8, 2}); ops.push_back(Op{8, 0}); ops.push_back(Op{8, -1}); }
			ops.push_back(Op{9, 0});
		}
		for (int t = 0; t < (views.size() < 2 ? 2 : 4); t++) ops.push_back(Op{10, t});
		Op op = ops[mc::choose(ops.size(), "op")];
		int before = nlive, ref = refused;
		switch (op.k) {
		case 0: case 1: {
			matras_id_t id = 0xFFFFFFFF;
			size_t n = op.a;
			void *p = op.k == 0 ? matras_alloc(&m, &id) : matras_alloc_range(&m, &id, n);
			LOG("alloc %zu -> %d", n, p ? (int)id : -1);
			if (nlive != before || refused != ref || reserved) credit = 0;
			if (!p) {
				CHECK(refused > ref || head.size() + n > cap, "%zu blocks were refused, %zu of %zu are used", n, head.size(), cap);
				CHECK(reserved || nlive == before, "a refused allocation kept %d extents", nlive - before);
				mc::outcome(1);
				break;
			}
			CHECK(head.size() + n <= cap, "%zu blocks allocated, the capacity is %zu", head.size() + n, cap);
			CHECK(id == head.size(), "got id %u, expected %zu", id, head.size());
			for (size_t i = 0; i < n; i++) { int v = newval(id + i); head.push_back(v); fill((u8 *)p + i * B, id + i, v); }
			grown(id);
			CHECK(matras_get(&m, id) == p, "the block of id %u is not where it was allocated", id);
			break;
		}
		case 2: case 3: {
			size_t n = op.a;
			/* the copy for a view may be refused: see the known finding */
			bool sh = !views.empty() && deal && credit == 0;
			may_refuse = sh; refuse_all = false;
			if (sh) { freed_safe = true; for (size_t i = 0; i < E / sizeof(void *); i++) ((void **)(pool + SLOTS * E))[i] = pool + SLOTS * E; }
			if (op.k == 2) matras_dealloc(&m); else matras_dealloc_range(&m, n);
			may_refuse = true; freed_safe = false;
			LOG("dealloc %zu", n);
			head.resize(head.size() - n); addr.resize(head.size());
			if (credit) credit--;
			if (refused != ref) {
				/* the copy was refused: the views must not notice, now or when the blocks are used again */
				may_refuse = false;
				verify_views("matras-dealloc-refused");
				for (int i = 0; i < 2 && head.size() < cap; i++) {
					matras_id_t id; void *p = matras_alloc(&m, &id);
					if (!p || !inside(p)) mc::finding("matras-dealloc-refused", "a block allocated after a refused copy is outside the extents");
					int v = newval(id); head.push_back(v); fill(p, id, v);
					verify_views("matras-dealloc-refused");
				}
				mc::prune();
			}
			break;
		}
		case 4: case 5: {
			size_t i = op.a;
			bool need = matras_needs_touch(&m, i);
			void *old = matras_get(&m, i), *p;
			refuse_all = credit > 0;
			if (!need && op.k == 5) p = old;                          /* allowed to be used directly */
			else if (op.k == 5) p = matras_touch_no_check(&m, i);
			else p = matras_touch(&m, i);
			refuse_all = false;
			LOG("touch %zu%s -> %s", i, need ? "" : " (not needed)", p ? p == old ? "same" : "copied" : "refused");
			if (!p) {
				CHECK(credit == 0, "a touch failed though it was reserved");
				CHECK(refused > ref, "a touch failed though no extent was refused");
				CHECK(matras_get(&m, i) == old || differs(matras_get(&m, i), i, head[i]) < 0, "a refused touch changed block %zu", i);
				mc::outcome(2);
				break;
			}
			if (credit) credit--;
			CHECK(inside(p), "a touched block is not in an extent");
			CHECK(matras_get(&m, i) == p, "touch returned %p, the block is at %p", p, matras_get(&m, i));
			int d = differs(p, i, head[i]);
			CHECK(d < 0, "byte %d of the touched block differs", d);
			if (!views.empty()) CHECK(nlive - before <= 3, "a touch took %d extents", nlive - before);
			for (V *w : views) if (i < w->c.size()) CHECK(w->at[i] != p, "the touched block %zu is still part of a view", i);
			if (wr) { head[i] = newval(i); fill(p, i, head[i]); }
			break;
		}
		case 6: {
			int b = 0;
			for (bool used = true; used; ) { used = false; for (V *w : views) if (w == &vbuf[b]) used = true; if (used) b++; }
			LOG("create view %d", b);
			memset(&vbuf[b].v, 0xAB, sizeof vbuf[b].v);
			matras_create_read_view(&m, &vbuf[b].v);
			vbuf[b].c = head;
			vbuf[b].at.clear();
			for (size_t i = 0; i < head.size(); i++) vbuf[b].at.push_back(matras_get(&m, i));
			views.push_back(&vbuf[b]);
			CHECK(nlive == before, "creating a view took extents");
			credit = 0;
			break;
		}
		case 7: LOG("destroy view %d (number %d)", (int)(views[op.a] - vbuf), op.a); destroy_view(op.a); CHECK(nlive <= before, "destroying a view took extents"); break;
		case 8: {
			if (op.a < 0) {
				/* give the reserve back */
				LOG("drop the reserve");
				matras_allocator_destroy(&al);
				reserved = false; credit = 0;
				break;
			}
			int r = matras_touch_reserve(&m, op.a);
			LOG("reserve %d touches -> %d", op.a, r);
			CHECK(r == 0 || r == -1, "reserve returned %d", r);
			CHECK((r == 0) == (refused == ref), "reserve returned %d, %d extents were refused", r, refused - ref);
			CHECK(nlive - before <= 2 * op.a + 1, "a reserve of %d touches took %d extents", op.a, nlive - before);
			if (views.empty()) CHECK(nlive == before, "a reserve without views took extents");
			if (op.a == 0) { CHECK(r == 0 && nlive == before, "a reserve of nothing returned %d and took %d extents", r, nlive - before); break; }
			if (nlive != before) reserved = true;
			if (r == 0) { credit = std::max(credit, op.a); }
			else credit = 0;
			break;
		}
		case 9: {
			LOG("reset");
			matras_reset(&m);
			for (V *w : views) CHECK(!matras_is_read_view_created(&w->v), "a view is marked as created after a reset");
			views.clear();
			head.clear(); addr.clear(); credit = 0;
			CHECK(reserved || nlive == 0, "%d extents are held after a reset", nlive);
			CHECK(matras_extent_count(&m) == 0, "%u extents are reported after a reset", matras_extent_count(&m));
			break;
		}
		case 10: {
			LOG("teardown %d", op.a);
			may_refuse = false;
			if (op.a == 1) while (!views.empty()) { destroy_view(0); verify(); }
			if (op.a == 2) while (!views.empty()) { destroy_view(views.size() - 1); verify(); }
			if (op.a == 3) { while (views.size() > 1) { destroy_view(1); verify(); } }
			matras_destroy(&m);
			CHECK(reserved || nlive == 0, "%d extents are held after destruction", nlive);
			matras_allocator_destroy(&al);
			CHECK(nlive == 0, "%d extents are held after destruction of the allocator", nlive);
			CHECK(st.extent_count == 0 && st.read_view_extent_count == 0, "the statistics still count %u and %u extents", st.extent_count, st.read_view_extent_count);
			return;
		}
		}
	}
}

/* Full arrays of large geometries on sparse memory. */
static u8 *big, *bigtop; static size_t nbig;
static void *big_alloc(struct matras_allocator *a) { void *p = bigtop; bigtop += a->extent_size; nbig++; return p; }
static std::vector<void *> bfreed;
static void big_free(struct matras_allocator *, void *p) { CHECK((u8 *)p >= big && (u8 *)p < bigtop && ((u8 *)p - big) % E == 0, "%p was freed, which is no extent", p); nbig--; bfreed.push_back(p); }
static void large()
{
	static const int geo[][2] = {{16, 0}, {20, 3}, {17, 2}, {15, 0}, {12, 9}, {13, 4}, {18, 6}, {20, 8}, {14, 14}, {12, 12}, {19, 0}, {9, 3}};
	int g = mc::choose(sizeof geo / sizeof *geo, "geometry");
	int le = geo[g][0], lb = geo[g][1];
	E = (size_t)1 << le; B = (size_t)1 << lb;

	int lcap = std::min(32, 3 * le - 6 - lb);
	uint64_t cap = (uint64_t)1 << lcap, per = E / B;
	uint64_t ext = cap / per, bytes = (ext + ext / (E / 8) + 16) * E;
	LOG("extents of %zu, blocks of %zu, capacity %llu", E, B, (unsigned long long)cap);
	bytes += 16 * E;
	big = (u8 *)mmap(NULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (big == MAP_FAILED) mc::fail("internal: cannot map %llu bytes", (unsigned long long)bytes);
	u8 *raw = big;
	big = bigtop = (u8 *)(((uintptr_t)big + E - 1) / E * E); nbig = 0; bfreed.clear();
	memset(&m, 0xAB, sizeof m); memset(&al, 0xAB, sizeof al);
	matras_allocator_create(&al, E, big_alloc, big_free);
	matras_create(&m, B, &al, NULL);
	std::vector<void *> at;
	matras_id_t id; void *p;
	uint64_t n = 0;
	auto need = [&](uint64_t blocks) { uint64_t e = (blocks + per - 1) / per, P = E / 8; return 1 + (e + P - 1) / P + e; };
	/* when one second level extent could hold more than 2^31 blocks, two may be used */
	uint64_t spare = per * (E / 8) > ((uint64_t)1 << 31);
	auto fits = [&](uint64_t blocks) { return nbig >= need(blocks) && nbig <= need(blocks) + spare; };
	while (n < cap) {
		p = matras_alloc_range(&m, &id, (matras_id_t)per);
		CHECK(p && id == n, "range at %llu was refused or got id %u", (unsigned long long)n, id);
		at.push_back(p);
		n += per;
		if ((n / per & 1023) == 0) mc::count(0, 1024);
	}
	auto look = [&](const char *when) {
		CHECK(matras_extent_count(&m) == nbig, "%s: %u extents are reported, %zu are held", when, matras_extent_count(&m), nbig);
		for (uint64_t e = 0; e < at.size(); e++) {
			uint64_t f = e * per, l = std::min(n, f + per) - 1;
			if (f >= n) break;
			CHECK(matras_get(&m, (matras_id_t)f) == at[e], "%s: block %llu is at %p, expected %p", when, (unsigned long long)f, matras_get(&m, (matras_id_t)f), at[e]);
			CHECK(matras_get(&m, (matras_id_t)l) == (u8 *)at[e] + (l - f) * B, "%s: block %llu", when, (unsigned long long)l);
		}
	};
	std::vector<void *> s = at;
	std::sort(s.begin(), s.end());
	CHECK(std::unique(s.begin(), s.end()) == s.end(), "two ranges at the same address");
	CHECK(fits(cap), "a full array holds %zu extents, expected %llu", nbig, (unsigned long long)need(cap));
	look("full");
	CHECK(matras_alloc(&m, &id) == NULL && matras_alloc_range(&m, &id, (matras_id_t)per) == NULL, "a full array gives out one more block");
	look("after a refusal");
	mc::outcome(cap ^ E);
	/* the last block can be given back and taken again */
	matras_dealloc(&m); n--; look("one less");
	if (per > 1) CHECK(matras_alloc_range(&m, &id, 1) && id == cap - 1, "the last block was refused");
	else { p = matras_alloc(&m, &id); CHECK(p && id == cap - 1, "the last block was refused"); at.back() = p; }
	n++;
	look("full again");
	/* a view of a full array */
	struct matras_view v;
	memset(&v, 0xAB, sizeof v);
	matras_create_read_view(&m, &v);
	size_t h = nbig;
	uint64_t ids[] = {0, per, cap / 2, cap - 1};
	std::vector<void *> old = at;
	for (uint64_t i : ids) {
		CHECK(matras_needs_touch(&m, (matras_id_t)i), "block %llu needs no touch", (unsigned long long)i);
		*(u8 *)matras_get(&m, (matras_id_t)i) = 0x11;
		p = matras_touch(&m, (matras_id_t)i);
		CHECK(p && p == matras_get(&m, (matras_id_t)i) && *(u8 *)p == 0x11, "touch of block %llu", (unsigned long long)i);
		*(u8 *)p = 0x22;
		at[i / per] = (u8 *)p - (i % per) * B;
		CHECK(matras_view_get(&m, &v, (matras_id_t)i) == (u8 *)old[i / per] + (i % per) * B, "block %llu of the view moved", (unsigned long long)i);
		CHECK(*(u8 *)matras_view_get(&m, &v, (matras_id_t)i) == 0x11, "block %llu of the view changed", (unsigned long long)i);
	}
	look("touched");
	for (uint64_t e = 0; e < old.size(); e++) CHECK(matras_view_get(&m, &v, (matras_id_t)(e * per)) == old[e], "range %llu of the view moved", (unsigned long long)e);
	matras_destroy_read_view(&m, &v);
	CHECK(nbig == h, "%zu extents are held after the view, %zu before", nbig, h);
	look("view destroyed");
	/* shrink by ranges to half, then destroy */
	for (uint64_t k = 0; k < ext / 2; k++) { matras_dealloc_range(&m, (matras_id_t)per); n -= per; }
	CHECK(fits(n), "%zu extents are held after shrinking, expected %llu", nbig, (unsigned long long)need(n));
	look("half");
	int how = 0;
	if (how == 0) matras_destroy(&m);
	CHECK(nbig == 0, "%zu extents are held after destruction", nbig);
	std::sort(bfreed.begin(), bfreed.end());
	CHECK(std::unique(bfreed.begin(), bfreed.end()) == bfreed.end(), "an extent was freed twice");
	matras_allocator_destroy(&al);
	/* and destruction of a full one */
	bigtop = big; bfreed.clear();
	matras_allocator_create(&al, E, big_alloc, big_free);
	matras_create(&m, B, &al, NULL);
	for (n = 0; n < cap; n += per) CHECK(matras_alloc_range(&m, &id, (matras_id_t)per), "refused");
	matras_create_read_view(&m, &v);
	CHECK(matras_touch(&m, (matras_id_t)(cap - 1)), "touch refused");
	matras_destroy(&m);
	CHECK(nbig == 0, "%zu extents are held after destruction of a full array", nbig);
	std::sort(bfreed.begin(), bfreed.end());
	CHECK(std::unique(bfreed.begin(), bfreed.end()) == bfreed.end(), "an extent was freed twice");
	matras_allocator_destroy(&al);
	munmap(raw, bytes);
}
static void exec()
{
	if (mc::opt("large", 0)) large(); else small_();
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
