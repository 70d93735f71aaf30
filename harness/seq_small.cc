/* C11, C12: small allocator histories against a model of classes, pools and waste. */
#include "alloc.h"
extern "C" {
#include "small.h"
}
static Stack S;
static Live live;
static struct small_alloc A;
struct Obj { uintptr_t p; size_t size; int cls, pool; size_t charge; };     /* pool -1: large */
static std::vector<Obj> objs;          /* in allocation order */
static std::vector<size_t> psize;      /* object size of each class */
static size_t gran, objmax;
static std::vector<struct mempool_stats> st;
static int cb(const void *p, void *) { st.push_back(*(const struct mempool_stats *)p); return 0; }
static struct small_stats tot;
static void stats() { st.clear(); small_stats(&A, &tot, cb, NULL); }
static size_t stop_at;
static int cb_stop(const void *p, void *) { st.push_back(*(const struct mempool_stats *)p); return st.size() >= stop_at; }
static int cls_of(size_t size) { if (size > objmax) return -1; for (size_t i = 0; i < psize.size(); i++) if (psize[i] >= size) return i; return -1; }
static int cur_pool(int c) { struct small_alloc_info inf; small_alloc_info(&A, NULL, psize[c], &inf); for (size_t i = 0; i < psize.size(); i++) if (psize[i] == inf.real_size) return i; mc::fail("class %d is served by objects of %zu, not a class size", c, inf.real_size); }
/* The recorded waste is not visible through the public interface; it is compared while the fields keep their names. */
template <class T> static auto waste_of(const T &t, int) -> decltype((long)t.waste) { return t.waste; }
template <class T> static long waste_of(const T &, long) { return -1; }
template <class T> static auto waste_max_of(const T &t, int) -> decltype((long)t.group->waste_max) { return t.group->waste_max; }
template <class T> static long waste_max_of(const T &, long) { return -1; }
template <class T> static auto last_of(const T &t, const T *b, int) -> decltype((int)(t.group->last - b)) { return t.group->last - b; }
template <class T> static int last_of(const T &, const T *, long) { return -1; }
static long recorded_waste(int c) { return waste_of(A.small_mempool_cache[c], 0); }
static size_t up(size_t n) { return (n + QUOTA_UNIT_SIZE - 1) / QUOTA_UNIT_SIZE * QUOTA_UNIT_SIZE; }

static bool in_macro;
static void verify()
{
	if (!mc::fresh()) return;
	stats();
	std::vector<size_t> cnt(psize.size(), 0), waste(psize.size(), 0);
	size_t large = 0, nlarge = 0, used = 0;
	for (auto &o : objs) {
		if (o.pool < 0) { large += o.charge; nlarge++; continue; }
		cnt[o.pool]++;
		used += psize[o.pool];
		waste[o.cls] += psize[o.pool] - psize[o.cls];
	}
	size_t held = 0, sum = 0;
	CHECK(st.size() == psize.size(), "the number of classes changed");
	for (size_t i = 0; i < psize.size(); i++) {
		CHECK(st[i].objsize == psize[i], "object size of class %zu changed", i);
		CHECK((size_t)st[i].objcount == cnt[i], "class %zu (size %zu) reports %lu objects, %zu are live", i, psize[i], (long)st[i].objcount, cnt[i]);
		CHECK((size_t)st[i].totals.used == cnt[i] * psize[i], "class %zu reports %zu bytes used", i, (size_t)st[i].totals.used);
		long rw = recorded_waste(i);
		CHECK(rw < 0 || (size_t)rw == waste[i], "class %zu (size %zu) records waste %ld, its live objects waste %zu", i, psize[i], rw, waste[i]);
		held += (size_t)st[i].slabcount * st[i].slabsize;
		sum += st[i].totals.total;
		CHECK(st[i].totals.total >= st[i].totals.used && st[i].totals.total <= (size_t)st[i].slabcount * st[i].slabsize, "class %zu reports %zu bytes in total, it has %u slabs", i, (size_t)st[i].totals.total, st[i].slabcount);
		if (objs.empty() && cur_pool(i) != (int)i) CHECK(st[i].slabcount == 0, "the inactive class %zu (size %zu) holds %u slabs though no object is left", i, psize[i], st[i].slabcount);
	}
	CHECK(tot.total == sum, "reported bytes in total %zu, the classes have %zu", tot.total, sum);
	CHECK(tot.used == used, "reported bytes in use %zu, live objects take %zu", tot.used, used);
	CHECK(env::malloced_blocks() == nlarge, "%zu large blocks, expected %zu", env::malloced_blocks(), nlarge);
	CHECK(slab_cache_used(&S.cache) == held + large + S.hog_bytes, "the slab cache has %zu bytes in use, pools hold %zu, large objects %zu", slab_cache_used(&S.cache), held, large);
	if (!in_macro) live.verify();
}

static bool do_alloc(size_t size)
{
	stats();
	auto before = st;
	int c = cls_of(size);
	env::Own o0 = env::own(); size_t q0 = quota_used(&S.q), u0 = slab_cache_used(&S.cache);
	std::vector<long> w0;
	for (size_t i = 0; i < psize.size(); i++) w0.push_back(recorded_waste(i));
	struct small_alloc_info inf;
	small_alloc_info(&A, NULL, size, &inf);
	CHECK(inf.is_large == (c < 0) && inf.real_size >= size, "info of size %zu: large %d, real size %zu", size, inf.is_large, inf.real_size);
	int p0 = c < 0 ? -1 : cur_pool(c);
	char *p = (char *)smalloc(&A, size);
	stats();
	int pool = -1;
	for (size_t i = 0; i < psize.size(); i++) {
		if (st[i].objcount == before[i].objcount) continue;
		CHECK(pool < 0 && st[i].objcount == before[i].objcount + 1 && p, "smalloc(%zu) changed the object count of class %zu", size, i);
		pool = i;
	}
	LOG("smalloc(%zu) -> %p (class %d, pool %d)", size, p, c, pool);
	if (p == NULL) {
		CHECK(env::malloced_blocks() == objs.size() * 0 + o0.blocks && quota_used(&S.q) == q0 && env::mapped_bytes() == o0.mapped, "a failed request changed the accounting");
		CHECK(slab_cache_used(&S.cache) <= u0, "a failed request holds more memory");
		for (size_t i = 0; i < psize.size(); i++) CHECK(recorded_waste(i) == w0[i], "a failed request changed the waste of class %zu", i);
		if (c >= 0) {
			int q = cur_pool(c);
			/* classes without objects hold nothing, unless they are the last resort of their group or still needed */
			for (size_t i = 0; i < psize.size(); i++) {
				int last = last_of(A.small_mempool_cache[i], A.small_mempool_cache, 0);
				long wm = waste_max_of(A.small_mempool_cache[i], 0);
				if (last < 0 || wm < 0 || (int)i == last || st[i].objcount) continue;
				CHECK(st[i].slabcount == 0 || w0[i] >= wm / 4, "smalloc(%zu) failed although the idle class %zu holds %d slabs", size, i, (int)st[i].slabcount);
			}
			/* the serving pool is full and no slab of its size is to be had */
			size_t cap = st[q].slabcount ? (st[q].totals.total / st[q].slabcount) / psize[q] * st[q].slabcount : 0;
			CHECK(cap == (size_t)st[q].objcount, "smalloc(%zu) failed although pool %d has %zu free objects", size, q, cap - st[q].objcount);
			struct slab *s = slab_get_with_order(&S.cache, slab_order(&S.cache, st[q].slabsize));
			CHECK(s == NULL, "smalloc(%zu) failed although a slab for pool %d is available", size, q);
			void *r = smalloc(&A, size);
			CHECK(r == NULL, "the same request succeeds when repeated at once");
		}
		mc::outcome(0xFA11 + c);
		verify();
		return false;
	}
	size_t charge = 0;
	if (c < 0) {
		CHECK(pool < 0, "a large object was placed in pool %d", pool);
		charge = slab_cache_used(&S.cache) - u0;
		CHECK(charge >= size && quota_used(&S.q) == q0 + up(charge) && env::malloced_blocks() == o0.blocks + 1, "large object of %zu bytes charged %zu", size, charge);
		CHECK((uintptr_t)p % sizeof(void *) == 0, "large object %p is not aligned", p);
	} else {
		CHECK(pool >= 0, "smalloc(%zu) is in no pool", size);
		CHECK(psize[pool] >= size && pool >= c, "an object of %zu bytes was placed in pool %d of %zu", size, pool, psize[pool]);
		CHECK((uintptr_t)p % gran == 0, "object %p is not aligned to %zu", p, gran);
		/* placed in the pool serving the class before the call, or after the sweep */
		int p1 = cur_pool(c);
		bool activated = p1 == c;
		CHECK(pool == p0 || pool == p1 || activated, "class %d was served by pool %d, its pool is %d", c, pool, p1);
		CHECK(cur_pool(pool) == pool, "an object was placed in the inactive pool %d", pool);
		if (p1 != p0) mc::outcome(mc::mix(0xAC, mc::mix(p0, p1)));
	}
	live.add(p, size, c + 1);
	objs.push_back(Obj{(uintptr_t)p, size, c, pool, charge});
	mc::outcome(mc::mix(c + 1, pool + 1));
	verify();
	return true;
}
static void do_free(size_t i)
{
	Obj o = objs[i];
	LOG("smfree(%#lx, %zu) class %d pool %d", (long)o.p, o.size, o.cls, o.pool);
	live.del(live.find((void *)o.p));
	size_t q0 = quota_used(&S.q);
	objs.erase(objs.begin() + i);
	smfree(&A, (void *)o.p, o.size);
	if (o.pool < 0) CHECK(quota_used(&S.q) == q0 - up(o.charge), "freeing a large object refunded %zu of %zu", q0 - quota_used(&S.q), up(o.charge));
	verify();
}
static void free_all(int cls, int pool) { for (size_t i = objs.size(); i-- > 0;) if ((cls < 0 || objs[i].cls == cls) && (pool < 0 || objs[i].pool == pool)) do_free(i); }

template <class T> static auto groups_hash(const T &a, size_t n, uint64_t h, int) -> decltype(sizeof a.small_mempool_groups[0], uint64_t()) { return mc::hash_mem(h, a.small_mempool_groups, n * sizeof a.small_mempool_groups[0]); }
template <class T> static uint64_t groups_hash(const T &, size_t n, uint64_t h, long) { for (size_t i = 0; i < n; i++) h = mc::mix(h, cur_pool(i)); return h; }
static uint64_t key(uint64_t h)
{
	size_t n = psize.size();
	h = mc::hash_mem(h, A.small_mempool_cache, n * sizeof A.small_mempool_cache[0]);
	h = groups_hash(A, n, h, 0);
	return h;
}
static void exec()
{
	int depth = mc::opt("depth", 5), maxlive = mc::opt("maxlive", 400), macro = mc::opt("macro", 0), sq = mc::opt("squeeze", 0), maxn = mc::opt("maxn", 4);
	static const struct { unsigned min, gran; float f; } cfgs[] = {{8, 8, 1.3}, {16, 16, 1.5}, {12, 4, 2.0}, {64, 64, 1.1}, {32, 8, 1.05}, {1, 1, 1.2}, {100, 32, 1.03}, {2048, 2048, 1.2}, {24, 8, 1.3}, {1024, 1024, 2.0}};
	int ci = mc::opt("cfg", -1);
	if (ci < 0) ci = mc::choose(sizeof cfgs / sizeof *cfgs, "configuration");
	the_stack = &S;
	S.create(mc::opt("limit", 6) * 65536, 0, mc::opt("ss", 65536));
	live.v.clear(); objs.clear(); psize.clear();
	bool giant = mc::opt("giant", 0);
	if (giant) { env::malloc_max = 1ull << 34; quota_set(&S.q, QUOTA_MAX); }
	memset((void *)&A, 0xAB, sizeof A);
	float actual;
	gran = cfgs[ci].gran;
	small_alloc_create(&A, &S.cache, cfgs[ci].min, gran, cfgs[ci].f, &actual);
	stats();
	for (auto &s : st) psize.push_back(s.objsize);
	objmax = psize.back();
	for (size_t i = 0; i < psize.size(); i++) {
		CHECK(psize[i] % gran == 0, "class size %zu is not a multiple of the granularity %zu", psize[i], gran);
		CHECK(i == 0 || psize[i] > psize[i - 1], "class sizes do not increase");
	}
	CHECK(psize[0] == (cfgs[ci].min + gran - 1) / gran * gran, "first class has size %zu", psize[0]);
	/* the statistics stop when asked to */
	for (stop_at = 1; stop_at <= psize.size(); stop_at++) {
		st.clear(); small_stats(&A, &tot, cb_stop, NULL);
		CHECK(st.size() == stop_at, "%zu classes were reported after a stop was asked for at %zu", st.size(), stop_at);
		for (size_t i = 0; i < stop_at; i++) CHECK(st[i].objsize == psize[i], "class %zu is reported with size %zu", i, (size_t)st[i].objsize);
	}
	verify();
	/* groups of classes with the same slab size and the classes used in this run */
	std::vector<size_t> sizes;
	int n = psize.size(), ks = mc::opt("classes", 0);
	if (macro) {
		int g = 0; while (g + 1 < n && g < 31 && st[g + 1].slabsize == st[g].slabsize) g++;      /* first group: 0..g */
		sizes.push_back(psize[0]);
		sizes.push_back(psize[g / 2]);
		sizes.push_back(psize[g]);
		if (ks > 3 && g > 3) sizes.push_back(psize[g / 2 - 1] + 1 - (psize[g / 2 - 1] + 1 > psize[g / 2] ? 1 : 0));
		if (ks > 4) sizes.push_back(psize[std::min(g + 1, n - 1)]);
		if (ks > 5) sizes.push_back(psize[n - 2]);
		std::sort(sizes.begin(), sizes.end());
		sizes.erase(std::unique(sizes.begin(), sizes.end()), sizes.end());
	} else {
		sizes = {0, 1};
		int step = std::max(1, n / (int)mc::opt("spread", 6));
		for (int i = 0; i < n; i += step) { sizes.push_back(psize[i]); sizes.push_back(psize[i] + 1); }
		sizes.push_back(objmax); sizes.push_back(objmax + 1); sizes.push_back(70000);
		if (giant) sizes = {1, psize[n / 2], objmax, objmax + 1, (size_t)UINT32_MAX, (size_t)UINT32_MAX + 1, (5ull << 30) + 24, (1ull << 32) + psize[n / 2], (size_t)INT_MAX + 1};
	}
	for (int step = 0;; step++) {
		if (mc::fresh() && !giant) mc::state(key(live.key(S.key(ci))), depth - step);
		if (step == depth) break;
		struct Op { int kind; size_t arg; };
		std::vector<Op> ops;
		bool room = (int)objs.size() < maxlive;
		if (room) for (size_t s : sizes) ops.push_back(Op{0, s});
		if (macro) {
			if (room) for (size_t s : sizes) {
				int c = cls_of(s), p = cur_pool(c);
				if (p != c) { ops.push_back(Op{1, s}); ops.push_back(Op{2, s}); }
				ops.push_back(Op{3, s});
			}
			for (size_t s : sizes) {
				int c = cls_of(s), in = 0, first = -1;
				for (size_t i = 0; i < objs.size(); i++) if (objs[i].cls == c) { in++; if (first < 0) first = i; }
				if (in) ops.push_back(Op{5, (size_t)first});
				if (in > 1) { ops.push_back(Op{6, (size_t)c}); ops.push_back(Op{8, (size_t)c}); }
			}
			std::vector<bool> seen(n, false);
			for (auto &o : objs) if (o.pool >= 0 && o.pool != o.cls && !seen[o.pool]) { seen[o.pool] = true; ops.push_back(Op{7, (size_t)o.pool}); }
		} else for (size_t i = 0; i < objs.size(); i++) ops.push_back(Op{5, i});
		if (macro && objs.size() > 1) ops.push_back(Op{10, 0});
		if (sq) ops.push_back(Op{9, 0});
		if (long mask = mc::opt("kinds", 0)) ops.erase(std::remove_if(ops.begin(), ops.end(), [=](const Op &o) { return !(mask >> o.kind & 1); }), ops.end());
		if (ops.empty()) break;
		Op op = ops[mc::choose(ops.size(), "op")];
		in_macro = op.kind != 0 && op.kind != 5;
		switch (op.kind) {
		case 0: do_alloc(op.arg); break;
		case 1: case 2: {      /* until the class is about to get its own pool / got it */
			int c = cls_of(op.arg);
			LOG("-- fill class %d %s", c, op.kind == 1 ? "up to its waste limit" : "over its waste limit");
			for (int k = 0; k < maxn * 200; k++) {
				int p = cur_pool(c);
				if (p == c) break;
				long max = waste_max_of(A.small_mempool_cache[c], 0);
				if (op.kind == 1 && max >= 0 && recorded_waste(c) + (long)(psize[p] - psize[c]) >= max) break;
				if (!do_alloc(op.arg)) break;
			}
			CHECK(1, "");
			break;
		}
		case 3: {              /* a slab's worth */
			int p = cur_pool(cls_of(op.arg));
			int k = st[p].slabsize / psize[p];
			if (k > maxn * 100) k = maxn * 100;
			LOG("-- allocate %d of %zu", k, op.arg);
			while (k-- > 0 && do_alloc(op.arg));
			break;
		}
		case 5: do_free(op.arg); break;
		case 6: free_all(op.arg, -1); break;
		case 7: free_all(-1, op.arg); break;
		case 10: free_all(-1, -1); break;
		case 8: { bool odd = false; for (size_t i = objs.size(); i-- > 0;) if (objs[i].cls == (int)op.arg) { if (odd) do_free(i); odd = !odd; } break; }
		case 9: if (S.squeezed) { LOG("memory available"); S.relax(); } else { LOG("memory refused"); S.squeeze(); S.hog(); } verify(); break;
		}
		in_macro = false;
		live.verify();
	}
	in_macro = true;
	if (mc::choose(2, "end")) {
		free_all(-1, -1);
		stats();
		CHECK(tot.used == 0, "%zu bytes in use with no object left", tot.used);
		CHECK(env::malloced_blocks() == 0, "large blocks remain");
		size_t held = 0;
		for (auto &s : st) CHECK(s.slabcount <= 1, "an empty class holds %u slabs", s.slabcount);
	} else {      /* large objects belong to the slab cache, not to the allocator */
		for (size_t i = objs.size(); i-- > 0;) if (objs[i].pool < 0) do_free(i);
	}
	S.relax();
	small_alloc_destroy(&A);
	CHECK(slab_cache_used(&S.cache) == 0, "the destroyed allocator left %zu bytes in the slab cache", slab_cache_used(&S.cache));
	slab_cache_check(&S.cache);
	S.destroy();
	CHECK(env::mapped_bytes() == 0 && env::malloced_blocks() == 0, "memory remains");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
