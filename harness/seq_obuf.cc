/* C18: output buffer histories against the byte stream. */
#include "alloc.h"
extern "C" {
#include "obuf.h"
}
static Stack S;
static struct obuf b;
struct Vec { char *p; size_t n; };
struct Svp { struct obuf_svp s; size_t used; std::vector<Vec> v; bool cur; Vec curv; bool resv; };
static std::vector<Vec> V;          /* the vectors as they must be exposed */
static bool has_cur; static Vec cur; /* where the next byte goes if it fits (may still be empty) */
static size_t used, resn; static char *resp;
static std::vector<Svp> svps;
static size_t SC;
static int bud0;
static bool giant;
static const size_t TN = 1 << 20;
static unsigned char *T[2];
static void tables()
{
	if (T[0]) return;
	for (int k = 0; k < 2; k++) {
		T[k] = new unsigned char[2 * TN];
		for (size_t i = 0; i < TN; i++) T[k][i] = T[k][i + TN] = (unsigned char)(((i + 1) * (k ? 0xD6E8FEB86659FD93ull : 0x9E3779B97F4A7C15ull)) >> 57) | (k << 7);
	}
}
static bool eq(const char *p, size_t n, int t, size_t off)
{
	if (n > TN) return eq(p, 512, t, off) && eq(p + n - 512, 512, t, off + n - 512);
	return n == 0 || memcmp(p, T[t] + off % TN, n) == 0;
}
static void put(char *p, size_t n, int t, size_t off)
{
	if (n > TN) { put(p, 512, t, off); put(p + n - 512, 512, t, off + n - 512); return; }
	if (n) memcpy(p, T[t] + off % TN, n);
}
static void junk(char *p, size_t n) { if (n > TN) { memset(p, 0xEE, 512); memset(p + n - 512, 0xEE, 512); } else if (n) memset(p, 0xEE, n); }
static size_t cap_of(char *base) { return slab_capacity(slab_from_data(base)); }
/* What the buffer exposes. */
static std::vector<Vec> exposed()
{
	std::vector<Vec> v;
	int n = obuf_iovcnt(&b);
	CHECK(n >= 0 && n <= SMALL_OBUF_IOV_MAX, "%d vectors", n);
	for (int i = 0; i < n; i++) v.push_back(Vec{(char *)b.iov[i].iov_base, b.iov[i].iov_len});
	return v;
}
/* All of the stream up to `used` is there, canonical, except the last `fresh` bytes, which carry table 1. */
static void verify(size_t fresh = 0)
{
	CHECK(obuf_size(&b) == used, "the buffer reports %zu bytes, %zu were appended", obuf_size(&b), used);
	std::vector<Vec> v = exposed();
	size_t off = 0;
	for (size_t i = 0; i < v.size(); i++) {
		CHECK(v[i].n > 0, "vector %zu is empty", i);
		size_t cap = cap_of(v[i].p);
		CHECK(env::is_owned(v[i].p, cap), "vector %zu lies outside the memory obtained", i);
		CHECK(v[i].n <= cap, "vector %zu holds %zu bytes, its capacity is %zu", i, v[i].n, cap);
		for (size_t j = 0; j < i; j++) CHECK(v[i].p + v[i].n <= v[j].p || v[j].p + v[j].n <= v[i].p, "vectors %zu and %zu overlap", i, j);
		off += v[i].n;
	}
	CHECK(off == used, "the vectors hold %zu bytes, the stream has %zu", off, used);
	/* older bytes stay where they were */
	for (size_t i = 0; i < V.size(); i++) {
		CHECK(i < v.size() && v[i].p == V[i].p, "vector %zu moved", i);
		CHECK(i + 1 < V.size() ? v[i].n == V[i].n : v[i].n >= V[i].n, "vector %zu has %zu bytes, had %zu", i, v[i].n, V[i].n);
	}
	off = 0;
	for (size_t i = 0; i < v.size(); i++) {
		size_t n = v[i].n, old = off + n <= used - fresh ? n : off >= used - fresh ? 0 : used - fresh - off;
		CHECK(eq(v[i].p, old, 0, off), "vector %zu: bytes %zu..%zu of the stream changed", i, off, off + old);
		CHECK(eq(v[i].p + old, n - old, 1, off + old), "vector %zu: bytes %zu..%zu of the stream are not those appended", i, off + old, off + n);
		put(v[i].p, n, 0, off);
		off += n;
	}
	V = v;
	if (!giant) slab_cache_check(&S.cache);
}
static size_t room() { return has_cur ? cap_of(cur.p) - cur.n : 0; }
static void refused(size_t size)
{
	if (V.size() == SMALL_OBUF_IOV_MAX) { mc::outcome(79); return; }
	if (mc::env_left() < bud0) { mc::outcome(78); return; }
	size_t w = std::max(2 * size, SC << (V.size() + 1));
	if (!V.empty()) w = std::max(w, 4 * cap_of(V.back().p));
	if (size > 1ull << 40) return;
	struct slab *s = slab_get(&S.cache, w);
	CHECK(s == NULL, "a request for %zu bytes was refused although %zu bytes are available", size, w);
	mc::outcome(77);
}
static void took(void *p, size_t size)
{
	used += size;
	if (has_cur && (char *)p == cur.p + cur.n) cur.n += size; else { cur = Vec{(char *)p, size}; has_cur = true; }
}
static void alloc(size_t size, bool cb)
{
	bud0 = mc::env_left();
	env::Own o = env::own(); size_t cu = slab_cache_used(&S.cache);
	size_t rm = room();
	void *p = cb ? obuf_alloc_cb(&b, size) : obuf_alloc(&b, size);
	LOG("alloc%s(%zu) -> %p, size %zu, %d vectors", cb ? "_cb" : "", size, p, obuf_size(&b), obuf_iovcnt(&b));
	if (p == NULL) {
		CHECK(size > rm, "%zu bytes refused, %zu are left in the vector", size, rm);
		CHECK(resn == 0, "reserved bytes were refused");
		CHECK(slab_cache_used(&S.cache) == cu, "a refused request changed the slab cache");
		verify();
		refused(size);
		return;
	}
	CHECK(size < (1ull << 48), "a request for %zu bytes succeeded", size);
	CHECK(env::is_owned(p, size), "memory outside that obtained");
	if (size <= rm) CHECK((char *)p == cur.p + cur.n && env::own() == o, "%zu bytes fit in the vector but were placed at %p", size, p);
	if (resn) {
		CHECK((char *)p == resp, "reserved at %p, got %p", resp, p);
		CHECK(eq((char *)p, size, 1, used), "bytes written to the reserved space changed");
		junk(resp + size, resn - size);
		resn = 0;
	} else put((char *)p, size, 1, used);
	took(p, size);
	mc::outcome(mc::mix(size, V.size()));
	verify(size);
	CHECK(size == 0 || V.size() && V.back().p + V.back().n == (char *)p + size, "the bytes at %p are not at the end of the stream", p);
}
static void reserve(size_t size, bool cb)
{
	bud0 = mc::env_left();
	size_t cu = slab_cache_used(&S.cache), rm = room(), sz = size;
	void *p = cb ? obuf_reserve_cb(&b, &sz) : obuf_reserve(&b, size);
	LOG("reserve%s(%zu) -> %p (%zu)", cb ? "_cb" : "", size, p, sz);
	if (p == NULL) {
		CHECK(size > rm, "%zu bytes refused, %zu are left in the vector", size, rm);
		CHECK(slab_cache_used(&S.cache) == cu, "a refused request changed the slab cache");
		verify();
		refused(size);
		return;
	}
	CHECK(size < (1ull << 48), "a request for %zu bytes succeeded", size);
	CHECK(sz >= size, "%zu bytes announced for %zu", sz, size);
	CHECK(!cb || sz == (size_t)(b.capacity[b.pos] - b.iov[b.pos].iov_len), "%zu bytes announced, the vector has %zu", sz, (size_t)(b.capacity[b.pos] - b.iov[b.pos].iov_len));
	CHECK(env::is_owned(p, sz), "memory outside that obtained");
	if (size <= rm) CHECK((char *)p == cur.p + cur.n, "%zu bytes fit in the vector but were placed at %p", size, p);
	if (!(has_cur && (char *)p == cur.p + cur.n)) { cur = Vec{(char *)p, 0}; has_cur = true; }
	CHECK((char *)p + sz <= cur.p + cap_of(cur.p), "more announced than there is");
	put((char *)p, sz, 1, used);
	resn = sz; resp = (char *)p;
	mc::outcome(mc::mix(size, 0x7e5) ^ V.size());
	verify();
}
static void dup(size_t size)
{
	bud0 = mc::env_left();
	size_t rm = room();
	size_t n = obuf_dup(&b, T[1] + used % TN, size);
	LOG("dup(%zu) -> %zu, size %zu, %d vectors", size, n, obuf_size(&b), obuf_iovcnt(&b));
	CHECK(n <= size, "%zu bytes of %zu appended", n, size);
	CHECK(n >= std::min(rm, size), "%zu bytes of %zu appended though %zu were left", n, size, rm);
	used += n;
	verify(n);
	if (n) { has_cur = true; cur = V.back(); }
	if (n < size) {
		CHECK(room() == 0, "a partial append of %zu of %zu bytes left room for %zu", n, size, room());
		refused(size - n);
	}
	mc::outcome(mc::mix(size, n) ^ V.size());
}
/* The memory beyond the first vectors given is about to be forgotten. */
static void forget(const std::vector<Vec> &keep)
{
	if (resn) { junk(resp, resn); resn = 0; }
	for (size_t i = 0; i < V.size(); i++) {
		size_t k = i < keep.size() ? keep[i].n : 0;
		junk(V[i].p + k, V[i].n - k);
	}
	V = keep;
}
static void exec()
{
	int depth = mc::opt("depth", 5), sq = mc::opt("squeeze", 0), full = mc::opt("full", 0), large = mc::opt("large", 0), maxs = mc::opt("svps", 2);
	int pre = mc::opt("fill", 0);
	size_t maxb = mc::opt("maxbytes", 140000);
	the_stack = &S;
	tables();
	S.create(mc::opt("limit", 24) * 65536, mc::opt("pre", 0) * 65536, 65536);
	giant = pre > 0;
	if (giant) { env::malloc_max = 1ull << 33; quota_set(&S.q, QUOTA_MAX); maxb = 1ull << 40; }
	const size_t SCS[] = {1, 208, 16336, 100, 1000};
	int nsc = mc::opt("starts", 5);
	SC = SCS[nsc > 1 && !giant ? mc::choose(nsc, "start capacity") : 0];
	LOG("start capacity %zu", SC);
	memset(&b, 0xAB, sizeof b);
	V.clear(); svps.clear(); has_cur = false; used = resn = 0;
	obuf_create(&b, &S.cache, SC);
	CHECK(obuf_is_initialized(&b) && obuf_size(&b) == 0 && obuf_iovcnt(&b) == 0, "a new buffer is not empty");
	env::mmap_faults = env::malloc_faults = mc::opt("osfail", 0);
	/* a prefix of many vectors, almost empty each (or full) */
	for (int i = 0; i < pre; i++) { alloc(room() + 1, false); CHECK(V.size() == (size_t)i + 1, "%zu vectors", V.size()); }
	if (pre && mc::opt("fillup", 0)) alloc(room(), false);
	for (int step = 0;; step++) {
		if (mc::fresh() && !giant) {
			uint64_t h = S.key(SC);
			/* savepoints: opaque to us */
			for (auto &s : svps) { h = mc::hash_mem(h, &s.s, sizeof s.s); h = mc::mix(h, s.resv); }
			h = mc::mix(h, resn + 1);
			int n = obuf_iovcnt(&b);
			h = mc::mix(h, n);
			h = mc::mix(h, has_cur ? (uintptr_t)cur.p : 0); h = mc::mix(h, cur.n * has_cur);
			h = mc::hash_mem(h, &b, offsetof(struct obuf, iov));
			std::vector<env::Map> skip;
			for (auto &v : V) { skip.push_back(env::Map{(uintptr_t)v.p, v.n}); h = mc::mix(h, (uintptr_t)v.p); h = mc::mix(h, v.n); }
			for (int i = n; i <= SMALL_OBUF_IOV_MAX; i++) { h = mc::mix(h, (uintptr_t)b.iov[i].iov_base); h = mc::mix(h, b.iov[i].iov_len); }
			std::sort(skip.begin(), skip.end(), [](const env::Map &a, const env::Map &b) { return a.a < b.a; });
			mc::state(env::hash_skip(h, skip), (depth - step) * 16 + mc::env_left());
		}
		if (step == depth) break;
		struct Op { int kind; size_t n; };
		std::vector<Op> ops;
		size_t rm = room(), cc = has_cur ? cap_of(cur.p) : SC;
		if (resn) {
			std::vector<size_t> g = {resn, 1};
			if (full && resn > 2) { g.push_back(resn - 1); g.push_back(0); }
			for (size_t n : g) { ops.push_back(Op{0, n}); if (g[1] == g[0]) break; }
		} else {
			std::vector<size_t> g = {1, rm, rm + 1, 2 * cc + rm + 1};
			if (full) g.insert(g.end(), {SC, cc, 2 * cc, rm > 1 ? rm - 1 : 1, 7 * cc, rm + 2 * cc});
			if (large) { g.push_back(65536 - slab_sizeof()); g.push_back(65536); }
			std::sort(g.begin(), g.end());
			g.erase(std::unique(g.begin(), g.end()), g.end());
			for (size_t n : g) if (n && used + n <= maxb) {
				ops.push_back(Op{0, n});
				ops.push_back(Op{1, n});
				if (n <= TN) ops.push_back(Op{2, n});
			}
			if (giant) { ops.push_back(Op{2, TN}); ops.push_back(Op{2, 2}); }
			if (full) { ops.push_back(Op{3, 3}); ops.push_back(Op{4, rm + 1}); ops.push_back(Op{4, 2}); ops.push_back(Op{2, 0}); if (has_cur) ops.push_back(Op{0, 0}); }
			if (mc::opt("huge", 0)) for (size_t n : {SIZE_MAX, SIZE_MAX - cur.n * has_cur, SIZE_MAX - cur.n * has_cur + 1, SIZE_MAX / 2 + 1, SIZE_MAX / 2 + 2, (size_t)1 << 62, (SIZE_MAX >> 1) + SC, SIZE_MAX - 64})
				if (n > 1ull << 50) { ops.push_back(Op{0, n}); ops.push_back(Op{1, n}); }
		}
		if ((int)svps.size() < maxs) ops.push_back(Op{5, 0});
		for (size_t i = 0; i < svps.size(); i++) ops.push_back(Op{6, i});
		if (full) ops.push_back(Op{10, 0});
		if (used || resn || full) { ops.push_back(Op{7, 0}); if (full) ops.push_back(Op{9, 0}); }
		if (sq) ops.push_back(Op{20, 0});
		Op op = ops[mc::choose(ops.size(), "op")];
		switch (op.kind) {
		case 0: alloc(op.n, false); break;
		case 1: reserve(op.n, false); break;
		case 2: dup(op.n); break;
		case 3: alloc(op.n, true); break;
		case 4: reserve(op.n, true); break;
		case 5: {
			LOG("savepoint %zu at %zu", svps.size(), used);
			Svp s; memset(&s.s, 0xAB, sizeof s.s);
			s.s = obuf_create_svp(&b); s.used = used; s.v = V; s.cur = has_cur; s.curv = cur; s.resv = resn != 0;
			svps.push_back(s);
			verify();
			break;
		}
		case 6: case 10: {
			Svp s;
			if (op.kind == 6) { s = svps[op.n]; svps.resize(op.n + 1); }
			else { memset(&s.s, 0xAB, sizeof s.s); obuf_svp_reset(&s.s); s.used = 0; s.cur = false; svps.clear(); }
			LOG("rollback to savepoint %zu at %zu from %zu", op.n, s.used, used);
			forget(s.v);
			obuf_rollback_to_svp(&b, &s.s);
			for (auto &t : svps) t.resv = false;      /* the reservation is void */
			used = s.used; has_cur = s.cur; cur = s.curv;
			if (op.kind == 10 || !has_cur) { has_cur = false; if (b.iov[0].iov_base) { has_cur = true; cur = Vec{(char *)b.iov[0].iov_base, 0}; } }
			if (has_cur && cur.n == 0 && V.size() < SMALL_OBUF_IOV_MAX && b.iov[V.size()].iov_base) cur.p = (char *)b.iov[V.size()].iov_base;   /* an empty vector may have been replaced */
			verify();
			break;
		}
		case 7:
			LOG("reset");
			forget({});
			obuf_reset(&b);
			svps.clear(); used = 0; has_cur = false;
			if (b.iov[0].iov_base) { has_cur = true; cur = Vec{(char *)b.iov[0].iov_base, 0}; }
			verify();
			break;
		case 9:
			LOG("destroy and create");
			forget({});
			obuf_destroy(&b);
			CHECK(!obuf_is_initialized(&b), "a destroyed buffer claims to be initialized");
			CHECK(slab_cache_used(&S.cache) == S.hog_bytes, "the buffer left %zu bytes in the slab cache", slab_cache_used(&S.cache) - S.hog_bytes);
			memset(&b, 0xAB, sizeof b);
			obuf_create(&b, &S.cache, SC);
			svps.clear(); used = 0; has_cur = false;
			verify();
			break;
		case 20: if (S.squeezed) { LOG("memory available"); S.relax(); } else { LOG("memory refused"); S.squeeze(); S.hog(); } verify(); break;
		}
		/* a savepoint taken with bytes reserved points at the bytes then allocated */
		for (auto &s : svps) if (s.resv && used > s.used) {
			size_t off = s.used; char *want = NULL;
			for (auto &v : V) { if (off < v.n) { want = v.p + off; break; } off -= v.n; }
			CHECK(obuf_svp_to_ptr(&b, &s.s) == want, "savepoint at %zu points to %p, its byte is at %p", s.used, obuf_svp_to_ptr(&b, &s.s), want);
		}
	}
	env::mmap_faults = env::malloc_faults = false;
	obuf_destroy(&b);
	S.relax();
	CHECK(slab_cache_used(&S.cache) == 0, "the buffer left %zu bytes in the slab cache", slab_cache_used(&S.cache));
	S.destroy();
	CHECK(env::mapped_bytes() == 0 && env::malloced_blocks() == 0, "memory remains");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
