/* C19, C20: log-structured region histories against a model of chunks, ids and blocks. */
#include "alloc.h"
#include <stdlib.h>
extern "C" {
void *mc_malloc(size_t); void mc_free(void *);
/* the header's inline functions use the controlled heap, like the library */
#define malloc mc_malloc
#define free mc_free
#include "lsregion.h"
#undef malloc
#undef free
}
static Stack S;
static Live live;
static struct lsregion L;
struct Chunk { uintptr_t p; size_t n; int64_t id; size_t end; bool flushed; };  /* end: bytes used in the block after it */
struct Block { uintptr_t a; size_t size, used; bool large; std::vector<Chunk> c; int64_t max; size_t flushed; };
static std::vector<Block> B;        /* oldest first */
static int cached;
static int64_t id;
static size_t ovh, resn, resal; static uintptr_t resp;
static struct lsregion_svp svp;
static int bud0;
static bool doflush, giant;

static size_t total() { size_t t = cached * S.ss; for (auto &b : B) t += b.size; return t; }
static size_t used() { size_t t = 0; for (auto &b : B) t += b.used; return t; }
static size_t room() { return B.empty() ? 0 : B.back().size - ovh - B.back().used; }
static size_t up(size_t n) { return (n + 1023) / 1024 * 1024; }
static size_t quota_other;
static void fresh_flush();
static void verify()
{
	CHECK(lsregion_used(&L) == used(), "%zu bytes reported used, expected %zu", lsregion_used(&L), used());
	CHECK(lsregion_total(&L) == total(), "%zu bytes reported held, expected %zu", lsregion_total(&L), total());
	size_t nb = cached, mal = 0, q = 0;
	for (auto &b : B) if (b.large) { mal += b.size; q += up(b.size); } else nb++;
	CHECK(S.held.size() == nb, "%zu slabs taken from the arena, %zu are in use", S.held.size(), nb);
	CHECK(env::malloced_bytes() >= mal && (mal || env::malloced_blocks() == 0), "%zu bytes of heap memory held for %zu", env::malloced_bytes(), mal);
	if (!S.squeezed) CHECK(quota_used(&S.q) == env::mapped_bytes() - 0 + q, "quota charged %zu, %zu mapped and %zu on the heap", quota_used(&S.q), env::mapped_bytes(), q);
	live.verify();
	if (doflush) fresh_flush();
}
static void refused(size_t size, size_t align)
{
	if (mc::env_left() < bud0) { mc::outcome(78); return; }
	if (size > 1ull << 40) return;
	size_t need = size + align - 1 + ovh;
	if (need <= S.ss) {
		CHECK(!cached, "a request was refused although a cached block could serve it");
		void *p = slab_map(&S.arena);
		CHECK(p == NULL, "a request was refused although the arena has a slab");
	} else CHECK(quota_use(&S.q, need) < 0, "a request was refused although the quota allows it");
	mc::outcome(77);
}
static bool fits(size_t size, size_t align)
{
	if (B.empty()) return false;
	uintptr_t pos = B.back().a + ovh + B.back().used;
	size_t pad = -pos & (align - 1);
	return pad <= room() && size <= room() - pad;
}
/* Memory for size bytes aligned was obtained at p; fit: the last block had room for it. */
static void placed(void *p, size_t size, size_t align, bool fit)
{
	uintptr_t x = (uintptr_t)p;
	size_t t = lsregion_total(&L), m = total();
	if (fit) {
		CHECK(t == m, "memory held changed from %zu to %zu though the block had room", m, t);
		CHECK(x >= B.back().a && x + size <= B.back().a + B.back().size, "%p is not in the last block though it had room", p);
		return;
	}
	if (env::is_mapped(p, 1)) {
		uintptr_t a = x & ~(uintptr_t)(S.ss - 1);
		for (auto &b : B) CHECK(b.large || b.a != a, "the block at %#lx is in use", (long)a);
		if (cached) { CHECK(t == m, "a block was taken though one is cached"); cached = 0; }
		else CHECK(t == m + S.ss, "memory held changed from %zu to %zu", m, t);
		B.push_back(Block{a, S.ss, 0, false, {}, -1, 0});
	} else {
		CHECK(env::is_malloced(p, 1), "%p lies outside the memory obtained", p);
		CHECK(t > m, "a large block is not accounted");
		CHECK(t - m >= size + ovh, "the large block of %zu bytes is too small for %zu", t - m, size);
		CHECK(size + align - 1 + ovh > S.ss, "%zu bytes were given a large block", size);
		/* the header lies before the first byte */
		B.push_back(Block{1, t - m, 0, true, {}, -1, 0});
	}
}
static void setbase(uintptr_t unaligned) { if (B.back().large && B.back().a == 1) B.back().a = unaligned - ovh; }
static bool alloc(size_t size, size_t align, int64_t nid, int how = 0)
{
	bud0 = mc::env_left();
	bool was = resn != 0, fit = fits(size, align);
	size_t u0 = lsregion_used(&L);
	struct O24 { long a[3]; }; struct alignas(64) O64 { char a[64]; };
	void *p;
	switch (how) {
	case 1: p = lsregion_alloc_object(&L, nid, O24); break;
	case 2: p = lsregion_alloc_object(&L, nid, O64); break;
	default: p = align == 1 ? lsregion_alloc(&L, size, nid) : lsregion_aligned_alloc(&L, size, align, nid);
	}
	LOG("alloc(%zu, align %zu, id %ld)%s -> %p, used %zu total %zu", size, align, (long)nid, how ? " (object)" : "", p, lsregion_used(&L), lsregion_total(&L));
	if (p == NULL) { CHECK(!was, "reserved bytes were refused"); verify(); refused(size, align); return false; }
	CHECK(size < 1ull << 48, "a request for %zu bytes succeeded", size);
	CHECK((uintptr_t)p % align == 0, "%p is not aligned to %zu", p, align);
	size_t d = lsregion_used(&L) - u0;
	CHECK(d >= size && d - size < align, "%zu bytes accounted for %zu aligned to %zu", d, size, align);
	if (was) { CHECK((uintptr_t)p == resp, "reserved at %#lx, got %p", (long)resp, p); CHECK(lsregion_total(&L) == total(), "allocating reserved bytes took memory"); }
	else placed(p, size, align, fit);
	setbase((uintptr_t)p - (d - size));
	resn = 0; id = nid;
	Block &b = B.back();
	CHECK((uintptr_t)p - (d - size) == b.a + ovh + b.used, "the object at %p does not follow the previous one", p);
	b.used += d; b.max = nid;
	CHECK(b.used + ovh <= b.size, "the block is overfull");
	live.add(p, size, 1 + (b.c.size() & 1));
	b.c.push_back(Chunk{(uintptr_t)p, size, nid, b.used, false});
	mc::outcome(mc::mix(size, d) ^ B.size() ^ cached << 8);
	verify();
	return true;
}
static void reserve(size_t size, size_t align)
{
	bud0 = mc::env_left();
	size_t u0 = lsregion_used(&L);
	bool fit = fits(size, align);
	void *un = NULL;
	void *p = align == 1 ? lsregion_reserve(&L, size) : lsregion_aligned_reserve(&L, size, align, &un);
	if (align == 1) un = p;
	LOG("reserve(%zu, align %zu) -> %p", size, align, p);
	if (p == NULL) { verify(); refused(size, align); return; }
	CHECK(size < 1ull << 48, "a request for %zu bytes succeeded", size);
	CHECK((uintptr_t)p % align == 0, "%p is not aligned to %zu", p, align);
	CHECK(lsregion_used(&L) == u0, "a reservation changed the bytes used");
	size_t pad = (char *)p - (char *)un;
	CHECK(pad < align, "%zu bytes of padding for alignment %zu", pad, align);
	placed(p, size, align, fit);
	setbase((uintptr_t)un);
	CHECK((uintptr_t)un == B.back().a + ovh + B.back().used, "the reservation at %p does not follow the previous object", p);
	live.add(p, size, 99);
	verify();
	live.del(live.find(p));
	resn = size; resp = (uintptr_t)p; resal = align;
}
static void gc(int64_t min)
{
	LOG("gc(%ld)", (long)min);
	size_t n = 0;
	while (n < B.size() && B[n].max <= min) n++;
	for (size_t i = 0; i < n; i++) {
		for (auto &c : B[i].c) live.del(live.find((void *)c.p));
		if (!B[i].large && !cached) cached = 1;
	}
	/* an unused block goes as well: it has no allocation above the id */
	if (resn) resn = 0;
	B.erase(B.begin(), B.begin() + n);
	lsregion_gc(&L, min);
	mc::outcome(mc::mix(0x9c, n) ^ B.size());
	verify();
}
/* One flush: returns the number of vectors. */
static int flush(struct lsregion_svp *s, int limit, bool all)
{
	struct iovec iov[40];
	memset(iov, 0xAB, sizeof iov);
	int cnt = limit;
	int64_t mid = lsregion_to_iovec(&L, iov, &cnt, s);
	if (!all) LOG("flush(limit %d) -> %d vectors, id %ld", limit, cnt, (long)mid);
	CHECK(cnt >= 0 && cnt <= limit, "%d vectors, limit %d", cnt, limit);
	CHECK((cnt == 0) == (mid == -1), "id %ld for %d vectors", (long)mid, cnt);
	int k = 0; int64_t last = -1;
	for (auto &b : B) {
		size_t f = all ? 0 : b.flushed;
		if (f == b.used) continue;
		if (k == cnt) { CHECK(cnt == limit, "the flush stopped after %d of at most %d vectors, data from %#lx on is missing", cnt, limit, (long)(b.a + ovh + f)); return cnt; }
		CHECK((uintptr_t)iov[k].iov_base == b.a + ovh + f && iov[k].iov_len == b.used - f, "vector %d is [%p, +%zu), the next bytes not flushed are [%#lx, +%zu)", k, iov[k].iov_base, iov[k].iov_len, (long)(b.a + ovh + f), b.used - f);
		if (!all) b.flushed = b.used;
		last = b.max; k++;
		if (k == cnt) CHECK(mid == last, "flushed up to id %ld, reported %ld", (long)last, (long)mid);
	}
	CHECK(k == cnt, "%d vectors, %d blocks have data", cnt, k);
	return cnt;
}
static void fresh_flush()
{
	struct lsregion_svp s;
	memset(&s, 0xAB, sizeof s);
	lsregion_svp_create(&s);
	flush(&s, 40, true);
	struct iovec iov[1]; int cnt = 1;
	CHECK(lsregion_to_iovec(&L, iov, &cnt, &s) == -1 && cnt == 0, "flushed bytes are flushed again");
}
static void exec()
{
	int depth = mc::opt("depth", 5), maxc = mc::opt("maxchunks", 6), sq = mc::opt("squeeze", 0), full = mc::opt("full", 0), aligns = mc::opt("align", 1), huge = mc::opt("huge", 0), res = mc::opt("reserve", 1);
	doflush = mc::opt("flush", 0);
	giant = mc::opt("giant", 0);
	the_stack = &S;
	S.create(mc::opt("limit", 8) * 65536, mc::opt("pre", 0) * 65536, 65536);
	if (giant) { env::malloc_max = 1ull << 34; quota_set(&S.q, QUOTA_MAX); }
	live.v.clear(); B.clear(); cached = 0; id = 0; resn = 0; resp = 0; resal = 1;
	lsregion_svp_create(&svp);
	env::mmap_faults = env::malloc_faults = false;
	memset(&L, 0xAB, sizeof L);
	lsregion_create(&L, &S.arena);
	CHECK(lsregion_used(&L) == 0 && lsregion_total(&L) == 0, "a new region is not empty");
	{
		/* bytes before the first object in a block */
		struct lsregion t;
		memset(&t, 0xAB, sizeof t);
		lsregion_create(&t, &S.arena);
		void *p = lsregion_alloc(&t, 1, 1);
		if (!p) mc::fail("internal: probe");
		ovh = (uintptr_t)p & (S.ss - 1);
		CHECK(lsregion_total(&t) == S.ss && ovh < S.ss && lsregion_used(&t) == 1, "first block: %zu held, %zu used", lsregion_total(&t), lsregion_used(&t));
		lsregion_destroy(&t);
		CHECK(S.held.empty(), "a destroyed region keeps a slab");
	}
	env::mmap_faults = env::malloc_faults = mc::opt("osfail", 0);
	verify();
	size_t cm = S.ss - ovh;
	int maxlim = mc::opt("limits", 2);
	if (mc::opt("ids", 0)) {
		/* ids at the edges of narrower integers and of their own */
		static const int64_t base[] = {0x7ffffffdll, 0xfffffffell, 0x7fffffff00000000ll, INT64_MAX - 2, INT64_MAX - 1};
		id = base[mc::choose(5, "first id")];
		LOG("ids from %ld", (long)id);
	}
	auto next = [](int n) { return id > INT64_MAX - n ? INT64_MAX : id + n; };
	for (int step = 0;; step++) {
		if (mc::fresh() && !giant) {
			uint64_t h = S.key(id);
			h = mc::hash_mem(h, &L, sizeof L);
			for (auto &b : B) { h = mc::mix(h, b.a ^ b.size); h = mc::mix(h, b.used); h = mc::mix(h, b.flushed); for (auto &c : b.c) h = mc::mix(h, c.p ^ c.id << 50); }
			h = mc::mix(h, resn ^ resp); h = mc::mix(h, cached);
			h = mc::hash_mem(h, &svp, sizeof svp);
			mc::state(live.key(h), (depth - step) * 16 + mc::env_left());
		}
		if (step == depth) break;
		struct Op { int kind; size_t a, al; int64_t id; };
		std::vector<Op> ops;
		size_t rm = room(), n = 0;
		for (auto &b : B) n += b.c.size();
		if ((int)n < maxc) {
			std::vector<int64_t> ids = {id};
			if (n) ids.push_back(next(1)); else ids[0] = next(1);
			if (full && n) ids.push_back(next(3));
			if (resn) {
				for (auto i : ids) { ops.push_back(Op{0, resn, resal, i}); if (resn > 1 && full) ops.push_back(Op{0, 1, resal, i}); }
			}
			if (!resn || mc::opt("rereserve", 0)) {
				std::vector<size_t> sz = {1, cm, cm + 1};
				if (rm) { sz.push_back(rm); sz.push_back(rm + 1); }
				if (full) { sz.insert(sz.end(), {24, 3 * S.ss, S.ss, S.ss + 1, cm / 2}); if (rm > 1) sz.push_back(rm - 1); }
				else sz.push_back(cm / 2 + 1);
				if (giant) { sz = {24, (1ull << 32) - ovh, (5ull << 30) + 8}; if (rm) sz.push_back(rm); if (total() > 12ull << 30) sz.resize(1); }
				std::sort(sz.begin(), sz.end());
				sz.erase(std::unique(sz.begin(), sz.end()), sz.end());
				for (size_t s : sz) { if (giant || s < 4 * S.ss) { if (!resn) for (auto i : ids) ops.push_back(Op{0, s, 1, i}); if (res) ops.push_back(Op{1, s, 1, 0}); } }
				if (giant && !resn && total() < 12ull << 30) { ops.push_back(Op{0, (1ull << 32) + 3, 64, next(1)}); if (res) ops.push_back(Op{1, (1ull << 32) + 7, 1ull << 16, 0}); }
				if (aligns && !resn && !giant) {
					ops.push_back(Op{0, 3, 64, next(1)});
					ops.push_back(Op{0, cm - 100, 128, next(1)});
					if (rm > 64) ops.push_back(Op{0, rm - 60, 64, next(1)});
					if (res) ops.push_back(Op{1, 17, 32, 0});
					if (full) { ops.push_back(Op{0, S.ss, 4096, next(1)}); ops.push_back(Op{0, 8, 8, id}); ops.push_back(Op{10, 24, 8, id}); ops.push_back(Op{11, 64, 64, next(1)}); }
					if (full && res) ops.push_back(Op{1, S.ss, 512, 0});
				}
				if (huge) for (size_t s : {SIZE_MAX, SIZE_MAX - ovh, SIZE_MAX - ovh + 1, SIZE_MAX - 1, SIZE_MAX - 4096, SIZE_MAX - (B.empty() ? 0 : B.back().a + ovh + B.back().used) + 1, SIZE_MAX / 2 + 1, (size_t)1 << 62, ((size_t)1 << 42) - 4096, ((size_t)1 << 42)})
					{ if (resn) continue; ops.push_back(Op{0, s, 1, next(1)}); ops.push_back(Op{1, s, 1, next(1)}); ops.push_back(Op{0, s, 64, next(1)}); ops.push_back(Op{1, s, 4096, next(1)}); }
			}
		}
		if (B.size()) {
			std::vector<int64_t> g;
			for (auto &b : B) if (b.max >= 0) { g.push_back(b.max); if (full) g.push_back(b.max - 1); }
			g.push_back(-1);
			g.push_back(full ? next(5) : id);
			std::sort(g.begin(), g.end());
			g.erase(std::unique(g.begin(), g.end()), g.end());
			for (auto i : g) if (i >= -1) ops.push_back(Op{2, 0, 0, i});
		}
		if (doflush && B.size()) {
			for (int l = 1; l < maxlim; l++) ops.push_back(Op{3, (size_t)l, 0, 0});
			ops.push_back(Op{3, 40, 0, 0});
		}
		if (sq) ops.push_back(Op{20, 0, 0, 0});
		if (ops.empty()) break;
		Op op = ops[mc::choose(ops.size(), "op")];
		switch (op.kind) {
		case 0: alloc(op.a, op.al, op.id); break;
		case 10: alloc(op.a, op.al, op.id, 1); break;
		case 11: alloc(op.a, op.al, op.id, 2); break;
		case 1: reserve(op.a, op.al); break;
		case 2: gc(op.id); break;
		case 3: flush(&svp, op.a, false); verify(); break;
		case 20: if (S.squeezed) { LOG("memory available"); S.relax(); } else { LOG("memory refused"); S.squeeze(); S.hog(); } verify(); break;
		}
	}
	env::mmap_faults = env::malloc_faults = false;
	S.relax();
	lsregion_destroy(&L);
	CHECK(S.held.empty() && env::malloced_blocks() == 0, "a destroyed region keeps memory");
	CHECK(quota_used(&S.q) == env::mapped_bytes(), "quota charged %zu, %zu mapped", quota_used(&S.q), env::mapped_bytes());
	S.destroy();
	CHECK(env::mapped_bytes() == 0 && env::malloced_blocks() == 0, "memory remains");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
