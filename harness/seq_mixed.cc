/* C29: histories mixing allocators of every kind on one arena and quota, and tearing everything down at every point. */
#include "alloc.h"
#include <sys/uio.h>
extern "C" {
void *mc_malloc(size_t); void mc_free(void *);
#define malloc mc_malloc
#define free mc_free
#include "lsregion.h"
#undef malloc
#undef free
#include "region.h"
#include "mempool.h"
#include "small.h"
#include "ibuf.h"
#include "obuf.h"
}
static Stack S;
static struct slab_cache cache2;
static bool have2;
static size_t pre;
struct R { uintptr_t a; size_t n; uint64_t tag; };
/* The memory of one participant: what it was told it may use. */
struct Part {
	const char *name;
	bool alive;
	long attr;                 /* bytes of the slab cache(s) this participant has in use */
	virtual ~Part() {}
	virtual void create() = 0;
	virtual void destroy() = 0;
	virtual int nops() = 0;
	virtual bool op(int k) = 0;        /* true: succeeded */
	virtual void ranges(std::vector<R> &v) = 0;
	virtual void counters() {}
	virtual uint64_t key(uint64_t h) = 0;
	/* the amount the last failed call asked for; 0: unknown */
	size_t asked;
};
static uint64_t tags;
static size_t used_all() { return slab_cache_used(&S.cache) + (have2 ? slab_cache_used(&cache2) : 0); }
static const size_t SMALL = 100, MID = 20000, LARGE = 70 * 1024 - 8, RAWLARGE = 70 * 1024;

struct Chunked : Part {            /* a stack of chunks */
	std::vector<R> c;
	void put(void *p, size_t n) { c.push_back(R{(uintptr_t)p, n, c.size() + 1}); Live::fill((uintptr_t)p, n, c.size()); }
	void ranges(std::vector<R> &v) override { v.insert(v.end(), c.begin(), c.end()); }
	size_t bytes() { size_t s = 0; for (auto &x : c) s += x.n; return s; }
	void check_last() { for (auto &x : c) CHECK(Live::same(x.a, x.n, x.tag), "%s: contents changed", name); }
};
struct Region : Chunked {
	struct region r; struct slab_cache *k;
	Region(struct slab_cache *k_, const char *n) { k = k_; name = n; }
	void create() override { memset(&r, 0xAB, sizeof r); region_create(&r, k); c.clear(); }
	void destroy() override { region_destroy(&r); c.clear(); }
	int nops() override { return 3 + (c.empty() ? 0 : 2) + 1; }
	bool op(int o) override
	{
		static const size_t sz[] = {SMALL, 40000, LARGE};
		if (o < 3) {
			asked = sz[o];
			void *p = region_alloc(&r, sz[o]);
			LOG("%s: region_alloc(%zu) -> %p", name, sz[o], p);
			if (p) put(p, sz[o]);
			return p;
		}
		if (o == 3) { LOG("%s: region_reset", name); c.clear(); region_reset(&r); }
		else if (o == 4) { size_t n = bytes() - c.back().n; c.pop_back(); LOG("%s: region_truncate(%zu)", name, n); region_truncate(&r, n); }
		else { c.clear(); LOG("%s: region_free", name); region_free(&r); CHECK(region_total(&r) == 0, "%s holds %zu bytes after being freed", name, region_total(&r)); }
		return true;
	}
	void counters() override { CHECK(region_used(&r) == bytes(), "%s reports %zu bytes used, %zu are live", name, region_used(&r), bytes()); CHECK((long)region_total(&r) == attr, "%s reports %zu bytes held, it took %ld from the slab cache", name, region_total(&r), attr); }
	uint64_t key(uint64_t h) override { return mc::hash_mem(h, &r, sizeof r); }
};
struct Pool : Chunked {
	struct mempool p;
	Pool() { name = "mempool"; }
	static const size_t N = 12000;
	void create() override { memset((void *)&p, 0xAB, sizeof p); mempool_create(&p, &S.cache, N); c.clear(); tagc = 0; }
	void destroy() override { mempool_destroy(&p); c.clear(); }
	int tagc;
	int nops() override { return 1 + (c.size() > 0) + (c.size() > 1) + (c.size() > 1); }
	void drop(size_t i) { R x = c[i]; CHECK(Live::same(x.a, x.n, x.tag), "contents of a pool object changed"); c.erase(c.begin() + i); Live::parts(x.a, x.n, [](uintptr_t a, size_t m) { memset((void *)a, 0xEE, m); return true; }); LOG("mempool_free(%#lx)", (long)x.a); mempool_free(&p, (void *)x.a); }
	bool op(int o) override
	{
		if (o == 0) {        /* a slab's worth */
			size_t k = 5; bool ok = false;
			while (k-- > 0) {
				asked = N;
				void *q = mempool_alloc(&p);
				LOG("mempool_alloc -> %p", q);
				if (!q) return ok;
				ok = true;
				R x = {(uintptr_t)q, N, 7};
				c.push_back(x); Live::fill(x.a, x.n, x.tag);
			}
		} else if (o == 1) drop(0);
		else if (o == 2) drop(c.size() - 1);
		else while (c.size()) drop(0);
		return true;
	}
	void counters() override { CHECK(mempool_count(&p) == c.size(), "pool reports %zu objects, %zu are live", mempool_count(&p), c.size()); CHECK((long)mempool_total(&p) == attr, "pool reports %zu bytes held, it took %ld", mempool_total(&p), attr); }
	uint64_t key(uint64_t h) override { return mc::hash_mem(h, &p, sizeof p); }
};
static std::vector<struct mempool_stats> st;
static int cb(const void *p, void *) { st.push_back(*(const struct mempool_stats *)p); return 0; }
struct Small : Chunked {
	struct small_alloc A;
	Small() { name = "small"; }
	void create() override { memset((void *)&A, 0xAB, sizeof A); float f; small_alloc_create(&A, &S.cache, 24, 8, 1.3, &f); c.clear(); }
	void drop(size_t i) { R x = c[i]; CHECK(Live::same(x.a, x.n, x.tag), "contents of an object changed"); c.erase(c.begin() + i); Live::parts(x.a, x.n, [](uintptr_t a, size_t m) { memset((void *)a, 0xEE, m); return true; }); LOG("smfree(%#lx, %zu)", (long)x.a, x.n); smfree(&A, (void *)x.a, x.n); }
	/* large objects are blocks of the slab cache, not of the allocator */
	void destroy() override { for (size_t i = c.size(); i-- > 0;) if (c[i].n == LARGE) drop(i); small_alloc_destroy(&A); c.clear(); }
	int nops() override { return 3 + (c.size() > 0) + (c.size() > 1) + (c.size() > 0); }
	bool op(int o) override
	{
		static const size_t sz[] = {SMALL, 3000, LARGE};
		if (o < 3) {
			asked = sz[o];
			void *p = smalloc(&A, sz[o]);
			LOG("smalloc(%zu) -> %p", sz[o], p);
			if (p) { R x = {(uintptr_t)p, sz[o], 9}; c.push_back(x); Live::fill(x.a, x.n, x.tag); }
			return p;
		}
		if (o == 3) drop(0);
		else if (o == 4 && c.size() > 1) drop(c.size() - 1);
		else while (c.size()) drop(c.size() - 1);
		return true;
	}
	void counters() override
	{
		struct small_stats t; st.clear();
		small_stats(&A, &t, cb, NULL);
		size_t n = 0, l = 0, held = 0, large = 0;
		for (auto &s : st) { n += s.objcount; held += s.slabcount * (size_t)s.slabsize; }
		for (auto &x : c) { l += x.n != LARGE; large += x.n == LARGE; }
		CHECK(n == l, "the small allocator reports %zu objects, %zu are live", n, l);
		CHECK((long)held <= attr && attr - (long)held >= (long)(large * LARGE), "the small allocator's pools hold %zu bytes, it took %ld", held, attr);
	}
	uint64_t key(uint64_t h) override
	{
		h = mc::hash_mem(h, A.small_mempool_cache, st.size() * sizeof A.small_mempool_cache[0]);
		return groups_hash(A, h, 0);
	}
	template <class T> auto groups_hash(const T &a, uint64_t h, int) -> decltype(sizeof a.small_mempool_groups[0], uint64_t()) { return mc::hash_mem(h, a.small_mempool_groups, st.size() * sizeof a.small_mempool_groups[0]); }
	template <class T> uint64_t groups_hash(const T &a, uint64_t h, long)
	{
		struct small_alloc_info inf;
		for (auto &s : st) { small_alloc_info((struct small_alloc *)&a, NULL, s.objsize, &inf); h = mc::mix(h, inf.real_size); }
		return h;
	}
};
static unsigned char pat(size_t i) { return (unsigned char)(i * 7 + (i >> 8) * 13 + 1); }
static void wr(char *p, size_t from, size_t n) { for (size_t i = 0; i < n; i++) p[i] = pat(from + i); }
static bool eq(const char *p, size_t from, size_t n) { for (size_t i = 0; i < n; i++) if ((unsigned char)p[i] != pat(from + i)) return false; return true; }
struct Ibuf : Part {
	struct ibuf b; size_t n;       /* readable bytes: n, canonical */
	Ibuf() { name = "ibuf"; }
	void create() override { memset(&b, 0xAB, sizeof b); ibuf_create(&b, &S.cache, 3000); n = 0; }
	void destroy() override { ibuf_destroy(&b); }
	int nops() override { return 3 + (n > 0) * 2 + 2; }
	bool op(int o) override
	{
		static const size_t sz[] = {SMALL, MID, LARGE};
		bool ok = true;
		if (o < 3) {
			asked = 0;
			char *p = (char *)ibuf_alloc(&b, sz[o]);
			LOG("ibuf_alloc(%zu) -> %p", sz[o], p);
			ok = p;
			if (p) { wr(p, n, sz[o]); n += sz[o]; }
		} else if (n && o == 3) { size_t k = (n + 1) / 2; LOG("ibuf_consume(%zu)", k); ibuf_consume(&b, k); CHECK(eq(b.rpos, k, n - k), "ibuf: contents changed"); n -= k; wr(b.rpos, 0, n); }
		else if (n && o == 4) { LOG("ibuf_reset"); ibuf_reset(&b); n = 0; }
		else if (o - (n > 0) * 2 == 3) { LOG("ibuf_shrink"); ibuf_shrink(&b); }
		else { LOG("ibuf_reinit"); ibuf_reinit(&b); n = 0; CHECK(ibuf_capacity(&b) == 0, "a reinitialized buffer has capacity"); }
		return ok;
	}
	void ranges(std::vector<R> &v) override { if (n) v.push_back(R{(uintptr_t)b.rpos, n, 0}); }
	void counters() override { CHECK(ibuf_used(&b) == n, "ibuf reports %zu readable bytes, expected %zu", ibuf_used(&b), n); CHECK(eq(b.rpos, 0, n), "ibuf: contents changed"); CHECK((long)ibuf_capacity(&b) <= attr && (attr == 0) == (ibuf_capacity(&b) == 0), "ibuf has capacity %zu, it took %ld", ibuf_capacity(&b), attr); }
	uint64_t key(uint64_t h) override { return mc::hash_mem(h, &b, sizeof b); }
};
struct Obuf : Part {
	struct obuf b; size_t n, last; struct obuf_svp svp;
	Obuf() { name = "obuf"; }
	void create() override { memset(&b, 0xAB, sizeof b); obuf_create(&b, &S.cache, 3000); n = 0; svp = obuf_create_svp(&b); last = 0; }
	void destroy() override { obuf_destroy(&b); }
	int nops() override { return 4 + (n > 0) + 1; }
	bool op(int o) override
	{
		static const size_t sz[] = {SMALL, MID, LARGE};
		if (o < 3) {
			asked = 0;
			char *p = (char *)obuf_alloc(&b, sz[o]);
			LOG("obuf_alloc(%zu) -> %p", sz[o], p);
			if (p) { wr(p, n, sz[o]); n += sz[o]; }
			return p;
		}
		if (o == 3) {
			static char src[30000];
			wr(src, n, sizeof src);
			asked = 0;
			size_t k = obuf_dup(&b, src, sizeof src);
			LOG("obuf_dup(%zu) -> %zu", sizeof src, k);
			CHECK(k == sizeof src || k < sizeof src, "obuf_dup copied more than given");
			n += k;
			return k == sizeof src;
		}
		if (o == 4 && n) { LOG("obuf: savepoint or rollback"); if (last) { obuf_rollback_to_svp(&b, &svp); n = last - 1; last = 0; } else { svp = obuf_create_svp(&b); last = n + 1; } }
		else { LOG("obuf_reset"); obuf_reset(&b); n = 0; last = 0; svp = obuf_create_svp(&b); }
		return true;
	}
	void ranges(std::vector<R> &v) override { for (int i = 0; i < obuf_iovcnt(&b); i++) if (b.iov[i].iov_len) v.push_back(R{(uintptr_t)b.iov[i].iov_base, b.iov[i].iov_len, 0}); }
	void counters() override
	{
		CHECK(obuf_size(&b) == n, "obuf reports %zu bytes, expected %zu", obuf_size(&b), n);
		size_t at = 0;
		for (int i = 0; i < obuf_iovcnt(&b); i++) { CHECK(eq((char *)b.iov[i].iov_base, at, b.iov[i].iov_len), "obuf: contents changed"); at += b.iov[i].iov_len; }
		CHECK(at == n, "obuf vectors hold %zu bytes, expected %zu", at, n);
		CHECK((long)n <= attr, "obuf holds %zu bytes, it took %ld", n, attr);
	}
	uint64_t key(uint64_t h) override { return mc::mix(mc::hash_mem(mc::hash_mem(h, &b, sizeof b), &svp, last ? sizeof svp : 0), last); }
};
struct Ls : Chunked {
	struct lsregion r; int64_t id; std::vector<int64_t> ids;
	Ls() { name = "lsregion"; }
	void create() override { memset(&r, 0xAB, sizeof r); lsregion_create(&r, &S.arena); c.clear(); ids.clear(); id = 1; }
	void destroy() override { lsregion_destroy(&r); c.clear(); }
	int nops() override { return 3 + (c.size() > 0) + (c.size() > 1); }
	bool op(int o) override
	{
		static const size_t sz[] = {SMALL, 40000, LARGE};
		if (o < 3) {
			asked = sz[o];
			void *p = lsregion_alloc(&r, sz[o], id);
			LOG("lsregion_alloc(%zu, id %ld) -> %p", sz[o], (long)id, p);
			if (p) { R x = {(uintptr_t)p, sz[o], 11}; c.push_back(x); ids.push_back(id++); Live::fill(x.a, x.n, x.tag); }
			return p;
		}
		int64_t m = o == 3 ? ids.back() : ids[0];
		LOG("lsregion_gc(%ld)", (long)m);
		while (ids.size() && ids[0] <= m) { ids.erase(ids.begin()); c.erase(c.begin()); }
		lsregion_gc(&r, m);
		return true;
	}
	void counters() override { CHECK(attr == 0, "a log-structured region changed the slab cache's accounting"); CHECK(lsregion_used(&r) >= bytes() && lsregion_total(&r) >= lsregion_used(&r), "lsregion reports %zu used of %zu, %zu are live", lsregion_used(&r), lsregion_total(&r), bytes()); if (c.empty()) CHECK(lsregion_used(&r) == 0, "lsregion reports %zu bytes used with none live", lsregion_used(&r)); }
	uint64_t key(uint64_t h) override { return mc::mix(mc::hash_mem(h, &r, sizeof r), id); }
};
struct Raw : Part {
	struct Sl { struct slab *s; size_t n; };
	std::vector<Sl> v;
	Raw() { name = "slabs"; }
	void create() override { v.clear(); }
	void destroy() override { while (v.size()) put(0); }
	void put(size_t i) { Sl x = v[i]; v.erase(v.begin() + i); LOG("slab_put(%p, %zu)", x.s, x.n); slab_put(&S.cache, x.s); }
	int nops() override { return 4 + (v.size() > 0) + (v.size() > 1); }
	bool op(int o) override
	{
		size_t sz[] = {SMALL, 15000, S.ss - slab_sizeof(), RAWLARGE};   /* the header crosses into another quota unit */
		if (o < 4) {
			asked = sz[o];
			struct slab *s = slab_get(&S.cache, sz[o]);
			LOG("slab_get(%zu) -> %p", sz[o], s);
			if (s) { CHECK(slab_capacity(s) >= sz[o], "a slab of %zu bytes for %zu", slab_capacity(s), sz[o]); v.push_back(Sl{s, sz[o]}); Live::fill((uintptr_t)slab_data(s), sz[o], 5); }
			return s;
		}
		put(o == 4 ? v.size() - 1 : 0);
		return true;
	}
	void ranges(std::vector<R> &w) override { for (auto &x : v) w.push_back(R{(uintptr_t)slab_data(x.s), x.n, 5}); }
	void counters() override { size_t t = 0; for (auto &x : v) t += x.s->size; CHECK((long)t == attr, "slabs of %zu bytes, %ld accounted", t, attr); }
	uint64_t key(uint64_t h) override { for (auto &x : v) h = mc::mix(h, (uintptr_t)x.s); return h; }
};
static std::vector<Part *> all, P;

static size_t ups(size_t n) { return (n + QUOTA_UNIT_SIZE - 1) / QUOTA_UNIT_SIZE * QUOTA_UNIT_SIZE; }
static void limits()
{
	CHECK(quota_used(&S.q) <= quota_total(&S.q), "%zu bytes charged, the limit is %zu", quota_used(&S.q), quota_total(&S.q));
}
/* memory is charged before it is asked for, so that the limit holds for what is in use, too */
static void asking(const char *what, uintptr_t, size_t n)
{
	limits();
	if (pre) return;
	if (!strcmp(what, "mmap")) n = S.ss;
	else if (strcmp(what, "malloc")) return;
	CHECK(quota_used(&S.q) >= env::mapped_bytes() + env::malloced_bytes() + n, "%s of %zu bytes with %zu charged, %zu mapped and %zu on the heap", what, n, quota_used(&S.q), env::mapped_bytes(), env::malloced_bytes());
}
static void verify()
{
	limits();
	if (!mc::fresh()) return;
	/* what is charged is what was taken from the system */
	size_t q = quota_used(&S.q), m = env::mapped_bytes(), h = env::malloced_bytes(), nb = env::malloced_blocks();
	if (pre == 0) CHECK(q >= m + h && q <= m + h + nb * (QUOTA_UNIT_SIZE - 1), "quota charged %zu, %zu bytes are mapped and %zu in %zu heap blocks", q, m, h, nb);
	else CHECK(q <= m + ups(h) + nb * QUOTA_UNIT_SIZE && q >= h && (q - h) / S.ss >= S.held.size(), "quota charged %zu, %zu bytes are mapped and %zu on the heap, %zu slabs in use", q, m, h, S.held.size());
	std::vector<R> v;
	long at = 0;
	for (auto p : P) if (p->alive) { p->counters(); p->ranges(v); at += p->attr; }
	CHECK((long)used_all() == at, "the slab cache has %zu bytes in use, its users took %ld", used_all(), at);
	std::sort(v.begin(), v.end(), [](const R &a, const R &b) { return a.a < b.a; });
	for (size_t i = 0; i < v.size(); i++) {
		CHECK(env::is_owned((void *)v[i].a, v[i].n), "[%#lx, +%zu) is not memory obtained from the system", (long)v[i].a, v[i].n);
		if (i) CHECK(v[i - 1].a + v[i - 1].n <= v[i].a, "[%#lx, +%zu) overlaps [%#lx, +%zu)", (long)v[i - 1].a, v[i - 1].n, (long)v[i].a, v[i].n);
		if (v[i].tag) CHECK(Live::same(v[i].a, v[i].n, v[i].tag), "contents of [%#lx, +%zu) changed", (long)v[i].a, v[i].n);
	}
}
static uint64_t key()
{
	uint64_t h = S.key(1);
	if (have2) h = mc::hash_mem(h, &cache2, sizeof cache2);
	std::vector<R> v;
	for (auto p : P) { h = mc::mix(h, p->alive); if (p->alive) { h = p->key(h); p->ranges(v); } }
	std::sort(v.begin(), v.end(), [](const R &a, const R &b) { return a.a < b.a; });
	std::vector<env::Map> skip;
	for (auto &r : v) { skip.push_back(env::Map{r.a, r.n}); h = mc::mix(h, r.tag); }
	return env::hash_skip(h, skip);
}
static void call(Part *p, const char *what, void (*f)(Part *))
{
	size_t u0 = used_all();
	LOG("%s: %s", p->name, what);
	f(p);
	p->attr += (long)used_all() - (long)u0;
}
static void teardown()
{
	std::vector<Part *> left;
	for (auto p : P) if (p->alive) left.push_back(p);
	/* blocks taken from the slab cache itself may be left to its destruction */
	bool leave = false;
	for (size_t i = 0; i < left.size(); i++) {
		Raw *r = dynamic_cast<Raw *>(left[i]);
		if (!r || r->v.empty()) continue;
		leave = mc::choose(2, "blocks left to the cache");
		if (leave) left.erase(left.begin() + i--);
	}
	while (left.size()) {
		int i = mc::choose(left.size(), "destroyed next");
		Part *p = left[i];
		left.erase(left.begin() + i);
		call(p, "destroy", [](Part *x) { x->destroy(); });
		p->alive = false;
		CHECK(p->attr == 0, "the destroyed %s left %ld bytes of the slab cache in use", p->name, p->attr);
		verify();
	}
	size_t caches = 1 + have2;
	if (!leave) {
		CHECK(used_all() == 0, "%zu bytes of the slab cache in use after everything was destroyed", used_all());
		CHECK(env::malloced_blocks() == 0, "%zu heap blocks remain", env::malloced_blocks());
		CHECK(S.held.size() <= caches, "%zu slabs are kept by %zu empty caches", S.held.size(), caches);
	} else for (auto p : P) p->alive = false;
	slab_cache_check(&S.cache);
	int order = have2 ? mc::choose(2, "cache destroyed first") : 0;
	slab_cache_destroy(order ? &cache2 : &S.cache);
	if (have2) slab_cache_destroy(order ? &S.cache : &cache2);
	limits();
	CHECK(S.held.empty(), "%zu slabs were not returned to the arena", S.held.size());
	size_t q = quota_used(&S.q), slabs = quota_total(&S.q) / S.ss;
	if (pre == 0) CHECK(q == env::mapped_bytes(), "quota charged %zu, %zu bytes mapped", q, env::mapped_bytes());
	CHECK(env::malloced_blocks() == 0, "%zu heap blocks remain after the caches were destroyed", env::malloced_blocks());
	CHECK(q % S.ss == 0, "quota charged %zu, not a number of slabs", q);
	/* the whole arena is available again */
	env::mmap_faults = env::malloc_faults = false;
	std::vector<void *> got;
	void *s;
	while (got.size() <= slabs && (s = slab_map(&S.arena))) { got.push_back(s); memset(s, 0x11, 64); }
	CHECK(got.size() == slabs, "%zu of %zu slabs can be obtained after everything was released", got.size(), slabs);
	limits();
	for (void *g : got) slab_unmap(&S.arena, g);
	slab_arena_destroy(&S.arena);
	CHECK(env::mapped_bytes() == 0 && env::malloced_blocks() == 0, "%zu bytes mapped, %zu heap blocks after the arena was destroyed", env::mapped_bytes(), env::malloced_blocks());
	CHECK(quota_used(&S.q) <= slabs * S.ss, "quota charged %zu", quota_used(&S.q));
}
static void exec()
{
	int depth = mc::opt("depth", 5), k = mc::opt("parts", 2);
	long osf = mc::opt("osfail", 0);
	for (auto p : all) delete p;
	all = {new Region(&S.cache, "region"), new Pool, new Small, new Ibuf, new Obuf, new Ls, new Raw, new Region(&cache2, "region on a second cache")};
	P.clear();
	for (int i = 0, from = 0; i < k; i++) {
		int room = (int)all.size() - from - (k - i - 1);
		int c = from + mc::choose(room, "participant");
		P.push_back(all[c]);
		from = c + 1;
	}
	have2 = P.back() == all.back();
	the_stack = &S;
	pre = mc::opt("pre", 0);
	S.create(mc::opt("limit", 4) * 65536 + mc::opt("extra", 0), pre * 65536, 65536);
	if (have2) { memset(&cache2, 0xAB, sizeof cache2); slab_cache_create(&cache2, &S.arena); }
	env::on_call = asking;
	env::mmap_faults = env::malloc_faults = osf;
	for (auto p : P) { p->attr = 0; p->alive = true; call(p, "create", [](Part *x) { x->create(); }); }
	verify();
	for (int step = 0;; step++) {
		if (mc::fresh()) mc::state(key(), (depth - step) * 16 + mc::env_left());
		if (step == depth) break;
		int n = 1;
		for (auto p : P) n += (p->alive ? p->nops() : 0) + 1;
		int o = mc::choose(n, "op");
		if (o == 0) break;
		o--;
		Part *p = NULL;
		for (auto x : P) { int c = (x->alive ? x->nops() : 0) + 1; if (o < c) { p = x; break; } o -= c; }
		if (o == (p->alive ? p->nops() : 0)) {
			if (p->alive) {
				call(p, "destroy", [](Part *x) { x->destroy(); });
				p->alive = false;
				CHECK(p->attr == 0, "the destroyed %s left %ld bytes of the slab cache in use", p->name, p->attr);
			} else { call(p, "create", [](Part *x) { x->create(); }); p->alive = true; }
		} else {
			env::Own o0 = env::own(); size_t q0 = quota_used(&S.q), u0 = used_all();
			int b0 = mc::env_left();
			p->asked = 0;
			bool ok = p->op(o);
			p->attr += (long)used_all() - (long)u0;
			if (!ok && p->asked) {
				bool refused = mc::env_left() < b0;
				CHECK(env::malloced_bytes() == o0.malloced && env::malloced_blocks() == o0.blocks, "a failed call left %zu bytes on the heap", env::malloced_bytes() - o0.malloced);
				CHECK(env::mapped_bytes() - o0.mapped == quota_used(&S.q) - q0 && (pre || !quota_used(&S.q) || refused || quota_used(&S.q) == q0), "a failed call changed the quota from %zu to %zu", q0, quota_used(&S.q));
				size_t need = p->asked + 200 > S.ss ? p->asked : S.ss;
				CHECK(refused || quota_total(&S.q) - quota_used(&S.q) < need + QUOTA_UNIT_SIZE, "%s failed to allocate %zu bytes with %zu of quota left", p->name, p->asked, quota_total(&S.q) - quota_used(&S.q));
				mc::outcome(0xFA11 + (uintptr_t)refused);
			}
			mc::outcome(mc::mix(o, ok));
		}
		verify();
	}
	teardown();
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
