/* C28 C32: the sanitizer variants of the allocators. */
#include "env_asan.h"
#include <string.h>
#include <setjmp.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/wait.h>
#include <algorithm>
#include <string>
#include <vector>
#include <sys/uio.h>
#include <limits.h>
#include <sanitizer/asan_interface.h>
extern "C" {
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
#include "mempool.h"
#include "small.h"
#include "region.h"
#include "lsregion.h"
#include "obuf.h"
#include "ibuf.h"
}
#define NOSAN __attribute__((no_sanitize_address))
typedef unsigned char u8;
static struct quota q; static struct slab_arena arena; static struct slab_cache cache, cache2;

/* ---- misuse must be reported ---- */
static sigjmp_buf trap; static bool armed; static std::string said;
static void on_assert(const char *, int line, const char *, const char *expr)
{
	if (!armed) mc::fail("a correct operation was reported as misuse: %s (line %d)", expr, line);
	said = expr; siglongjmp(trap, 1);
}
static void bad_free(void *p)
{
	if (!armed) mc::fail("free of %p, which is no live heap block", p);
	said = "free"; siglongjmp(trap, 1);
}
template <class F> static void must_be_reported(const char *what, F f)
{
	LOG("misuse: %s", what);
	volatile bool ret = false;
	armed = true;
	if (sigsetjmp(trap, 0) == 0) { f(); ret = true; }
	armed = false;
	CHECK(!ret, "%s was not reported", what);
	mc::outcome(mc::mix(std::hash<std::string>()(what), std::hash<std::string>()(said)));
	env::drop_all();
	mc::prune();
}

/* Misuse the sanitizer itself reports, by ending the process. */
template <class F> static void must_be_fatal(const char *what, F f)
{
	LOG("misuse: %s", what);
	fflush(NULL);
	pid_t pid = fork();
	if (pid < 0) mc::fail("internal: fork");
	if (pid == 0) {
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 1); dup2(fd, 2);
		volatile bool ret = false;
		armed = true;
		if (sigsetjmp(trap, 0) == 0) { f(); ret = true; }
		_exit(ret ? 77 : 78);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
	CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 77), "%s was not reported", what);
	mc::outcome(mc::mix(std::hash<std::string>()(what), st));
	env::drop_all();
	mc::prune();
}

/* ---- memory handed out ---- */
struct O { char *p; size_t n, al; int tag; size_t was = 0; /* size of the reservation it came from */ };
static std::vector<O> live;
struct D { char *p; size_t n; };
static std::vector<D> dead;
static u8 pat(int tag, size_t i) { return (u8)(tag * 67 + i * 13 + (i >> 8) + 3); }
NOSAN static void fill(char *p, size_t n, int tag) { for (size_t i = 0; i < n; i++) ((volatile u8 *)p)[i] = pat(tag, i); }
NOSAN static bool same(const char *p, size_t n, int tag, size_t from = 0) { for (size_t i = 0; i < n; i++) if (((volatile u8 *)p)[i] != pat(tag, from + i)) return false; return true; }
static bool poisoned(const void *p) { return __asan_address_is_poisoned(p); }
static void accessible(const char *what, char *p, size_t n)
{
	if (!n) return;
	void *x = __asan_region_is_poisoned(p, n);
	CHECK(!x, "byte %td of %s of %zu bytes is flagged", (char *)x - p, what, n);
}
/* every byte of [p, p+n) up to the granularity at the end */
static void flagged(const char *what, const char *p, size_t n, bool precise_end)
{
	const char *e = p + n;
	if (!precise_end) e = (const char *)((uintptr_t)e & ~(uintptr_t)7);
	if ((uintptr_t)p % 8 && precise_end == false && e <= p) return;
	for (const char *x = p; x < e; x += (n > 512 && x - p > 64 && e - x > 80) ? 16 : 1) CHECK(poisoned(x), "byte %td of %s of %zu bytes is accessible", x - p, what, n);
}
/* the byte before a block: flagged, or guarded by the magic */
static bool guarded_before(const char *p) { return poisoned(p - 1); }
/* A byte that is flagged, or lies behind a heap block, which is the business of the sanitizer's own allocator. */
static bool off_limits(const char *end) { char *b; size_t s; return poisoned(end) || !env::block_of(end, 1, &b, &s); }
static void around(const O &o, size_t after = 1)
{
	accessible("a live object", o.p, o.n);
	CHECK((uintptr_t)o.p % o.al == 0, "the object at %p is not aligned to %zu", o.p, o.al);
	for (size_t i = 0; i < after; i++) CHECK(off_limits(o.p + o.n + i), "byte %zu behind an object of %zu bytes is accessible", i, o.n);
	/* to the end of the heap block */
	char *b; size_t s;
	CHECK(env::block_of(o.p, o.n, &b, &s), "the object at %p is in no heap block", o.p);
	for (char *x = o.p + o.n; after && x < b + s; x += x - o.p - o.n > 64 ? 61 : 1) CHECK(poisoned(x), "byte %td behind an object of %zu bytes is accessible", x - o.p - o.n, o.n);
	char *m = (char *)((uintptr_t)o.p & ~(uintptr_t)7);
	for (char *x = m - 1; x >= b; x -= m - x > 64 ? 61 : 1) CHECK(poisoned(x), "byte %td before an object of %zu bytes is accessible", o.p - x, o.n);
	if (m == o.p) CHECK(poisoned(o.p - 1), "the byte before an object is accessible");
}
static O make(void *p, size_t n, size_t al, int tag)
{
	CHECK(p != NULL, "an allocation of %zu bytes was refused", n);
	O o = O{(char *)p, n, al, tag};
	accessible("a new object", o.p, n);
	for (O &x : live) CHECK(o.p + n <= x.p || x.p + x.n <= o.p, "two live objects overlap");
	memset(o.p, 0, n);                 /* checked by the sanitizer */
	fill(o.p, n, tag);
	return o;
}
static void verify_live(bool neighbours = true)
{
	for (O &o : live) {
		if (neighbours) around(o); else accessible("a live object", o.p, o.n);
		CHECK(same(o.p, o.n, o.tag), "the contents of a live object of %zu bytes changed", o.n);
	}
}
static void died(char *p, size_t n) { flagged("a freed object", p, n, true); dead.push_back(D{p, n}); }
static void verify_dead() { for (D &d : dead) { char *b; size_t s; if (!env::block_of(d.p, 1, &b, &s)) flagged("a freed object", d.p, d.n, true); } }
static uint64_t key_live(uint64_t k) { for (O &o : live) k = mc::mix(mc::mix(k, o.was), o.n * 8192 + o.al); return k; }

static int depth;
static int lastk;     /* the last operation, as part of the state: it may leave marks the model does not have */
static void start()
{
	live.clear(); dead.clear(); armed = false; lastk = 0;
	env::drop_all();
	env::on_bad_free = bad_free;
	small_on_assert_failure = on_assert;
	depth = mc::opt("depth", 4);
	memset(&q, 0xAB, sizeof q); memset(&arena, 0xAB, sizeof arena); memset(&cache, 0xAB, sizeof cache); memset(&cache2, 0xAB, sizeof cache2);
	quota_init(&q, mc::opt("quota", 1 << 20));
	CHECK(slab_arena_create(&arena, &q, 0, 65536, MAP_PRIVATE) == 0, "arena");
	slab_cache_create(&cache, &arena);
	slab_cache_create(&cache2, &arena);
	CHECK(slab_cache_used(&cache) == 0, "a new cache uses %zu bytes", slab_cache_used(&cache));
}
static void stop()
{
	CHECK(slab_cache_used(&cache) == 0, "an empty cache uses %zu bytes", slab_cache_used(&cache));
	slab_cache_destroy(&cache);
	slab_cache_destroy(&cache2);
	slab_arena_destroy(&arena);
	CHECK(quota_used(&q) == 0, "%zu bytes of quota are used after destruction", quota_used(&q));
	CHECK(env::blocks() == 0, "%zu heap blocks are left after destruction", env::blocks());
	verify_dead();
}
struct Op { int k; size_t a, b; };

/* ---- small objects ---- */
static int stat_cb_n; static size_t stat_cb_obj;
static int stat_cb(const void *s, void *) { CHECK(((const struct mempool_stats *)s)->slabcount == 0 && ((const struct mempool_stats *)s)->slabsize == 0 && ((const struct mempool_stats *)s)->totals.used == 0, "statistics without a meaning are not zero"); stat_cb_n++; stat_cb_obj += ((const struct mempool_stats *)s)->objcount; return 0; }
static void k_small()
{
	static const size_t sizes_[] = {1, 2, 3, 5, 7, 8, 9, 16, 24, 63, 100, 1000, 4096, 70000, 300000};
	static const size_t bigs[] = {1, 1000, 1024, 300000, 1048576 - 1024, 1048575, 1048576, 1048577, QUOTA_MAX, (size_t)1 << 62, SSIZE_MAX, (size_t)SSIZE_MAX + 1, SIZE_MAX - 2000, SIZE_MAX - 1, SIZE_MAX};
	int ns = mc::opt("sizes", 13);
	const size_t *sz = sizes_;
	if (mc::opt("big", 0)) { sz = bigs; ns = mc::opt("nbig", 15); }
	size_t total = quota_total(&q);
	struct small_alloc a, a2; float f;
	memset(&a, 0xAB, sizeof a); memset(&a2, 0xAB, sizeof a2);
	small_alloc_create(&a, &cache, 24, 8, 1.3, &f);
	small_alloc_create(&a2, &cache, 24, 8, 1.3, &f);
	size_t used = 0; int tag = 0;
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			verify_live(); verify_dead();
			struct small_stats st; memset(&st, 0xAB, sizeof st);
			stat_cb_n = 0; stat_cb_obj = 0;
			small_stats(&a, &st, stat_cb, NULL);
			CHECK(st.used == used && st.total == used && stat_cb_obj == live.size(), "%zu objects of %zu bytes are reported, %zu of %zu live", stat_cb_obj, st.used, live.size(), used);
			CHECK(quota_used(&q) >= used && quota_used(&q) <= total, "%zu bytes of quota for %zu bytes", quota_used(&q), used);
			CHECK(env::blocks() == live.size(), "%zu heap blocks for %zu objects", env::blocks(), live.size());
			mc::state(mc::mix(key_live(1 + 16 * lastk), quota_used(&q) * 2 + step * 0), depth - step);
		}
		std::vector<Op> ops;
		if (step < depth) for (int i = 0; i < ns; i++) ops.push_back(Op{0, sz[i], 0});
		for (size_t i = 0; i < live.size(); i++) { if (step < depth) ops.push_back(Op{1, i, 0}); for (size_t m = 0; m < 6; m++) if (m != 3 || i + 1 == live.size()) ops.push_back(Op{2, i, m}); }
		if (!dead.empty()) ops.push_back(Op{3, dead.size() - 1, 0});
		ops.push_back(Op{9, 0, 0});
		Op o = ops[mc::choose(ops.size(), "op")];
		lastk = o.k;
		if (o.k == 0) {
			size_t b = env::blocks(), qu = quota_used(&q);
			void *p = smalloc(&a, o.a);
			LOG("smalloc %zu -> %s", o.a, p ? "ok" : "refused");
			if (!p) {
				CHECK(o.a > total || used + o.a + 1023 > total, "%zu bytes were refused, %zu of %zu are used", o.a, used, total);
				CHECK(env::blocks() == b && quota_used(&q) == qu, "a refused request had an effect");
				mc::outcome(7); continue;
			}
			O x = make(p, o.a, 4, ++tag);
			CHECK((uintptr_t)p % 8 != 0, "the object is aligned to more than the guaranteed 4 bytes");
			live.push_back(x); used += o.a;
			CHECK(used <= total, "%zu bytes were given out, the quota is %zu", used, total);
			struct small_alloc_info in; small_alloc_info(&a, p, o.a, &in);
			CHECK(in.real_size >= o.a, "an object of %zu bytes has %zu", o.a, in.real_size);
			small_alloc_check(&a);
		} else if (o.k == 1) {
			O x = live[o.a];
			LOG("smfree %zu", x.n);
			smfree(&a, x.p, x.n);
			live.erase(live.begin() + o.a); used -= x.n;
			died(x.p, x.n);
		} else if (o.k == 2) {
			O x = live[o.a];
			if (o.b == 0) must_be_reported("smfree of a smaller size", [&] { smfree(&a, x.p, x.n - 1); });
			if (o.b == 1) must_be_reported("smfree of a larger size", [&] { smfree(&a, x.p, x.n + 1); });
			if (o.b == 2) must_be_reported("smfree to another allocator", [&] { smfree(&a2, x.p, x.n); });
			if (o.b == 3) must_be_fatal("smfree twice", [&] { smfree(&a, x.p, x.n); smfree(&a, x.p, x.n); });
			/* what the sanitizer cannot flag is guarded by the magic */
			if (o.b == 4) { if (poisoned(x.p - 1)) mc::prune(); must_be_reported("a write before an object", [&] { x.p[-1] ^= 1; smfree(&a, x.p, x.n); }); }
			if (o.b == 5) { char *m = (char *)((uintptr_t)x.p & ~(uintptr_t)7); if (m == x.p || poisoned(m)) mc::prune(); must_be_reported("a write before an object", [&] { *m ^= 0x80; smfree(&a, x.p, x.n); }); }
		} else if (o.k == 3) {
			D d = dead[o.a];
			must_be_fatal("smfree of a freed object", [&] { smfree(&a, d.p, d.n); });
		} else {
			while (!live.empty()) { O x = live.back(); live.pop_back(); smfree(&a, x.p, x.n); died(x.p, x.n); }
			struct small_stats st; small_stats(&a, &st, stat_cb, NULL);
			CHECK(st.used == 0, "%zu bytes are used after everything was freed", st.used);
			small_alloc_destroy(&a); small_alloc_destroy(&a2);
			stop();
			return;
		}
	}
}
/* ---- pools ---- */
static void k_pool()
{
	static const size_t sz[] = {1, 2, 3, 8, 12, 24, 48, 64, 100, 512, 4096, 8192, 12288, 16384, 65536};
	size_t n0 = sz[mc::choose(sizeof sz / sizeof *sz, "size")], n1 = mc::choose(2, "second") ? 8 : n0;
	struct mempool pool[2];
	memset(pool, 0xAB, sizeof pool);
	mempool_create(&pool[0], &cache, n0); mempool_create(&pool[1], &cache, n1);
	size_t sizes[2] = {n0, n1}; int tag = 0;
	std::vector<int> owner;
	auto al = [](size_t n) { size_t x = n & -n; return x > 4096 ? 4096 : x; };
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			verify_live(); verify_dead();
			for (int i = 0; i < 2; i++) {
				size_t c = std::count(owner.begin(), owner.end(), i);
				CHECK(mempool_is_initialized(&pool[i]), "a pool is not initialized");
				CHECK(mempool_count(&pool[i]) == c, "pool %d counts %zu objects, %zu are live", i, mempool_count(&pool[i]), c);
				CHECK(mempool_used(&pool[i]) == c * sizes[i], "pool %d uses %zu bytes", i, mempool_used(&pool[i]));
				struct mempool_stats st; memset(&st, 0xAB, sizeof st); mempool_stats(&pool[i], &st);
				CHECK(st.objcount == c && st.objsize == sizes[i] && st.totals.used == c * sizes[i] && st.totals.total >= st.totals.used, "the statistics of pool %d are wrong", i);
			}
			CHECK(env::blocks() == live.size(), "%zu heap blocks for %zu objects", env::blocks(), live.size());
			uint64_t k = mc::mix(key_live(2), n0 * 3 + (n1 == n0)); for (int w : owner) k = mc::mix(k, w);
			mc::state(mc::mix(k, lastk), depth - step);
		}
		std::vector<Op> ops;
		if (step < depth) { ops.push_back(Op{0, 0, 0}); ops.push_back(Op{0, 1, 0}); }
		for (size_t i = 0; i < live.size(); i++) { if (step < depth) ops.push_back(Op{1, i, 0}); for (size_t m = 0; m < 3; m++) ops.push_back(Op{2, i, m}); }
		ops.push_back(Op{9, 0, 0});
		Op o = ops[mc::choose(ops.size(), "op")];
		lastk = o.k;
		if (o.k == 0) {
			size_t n = sizes[o.a];
			void *p = mempool_alloc(&pool[o.a]);
			LOG("alloc of %zu from pool %zu", n, o.a);
			live.push_back(make(p, n, al(n), ++tag)); owner.push_back(o.a);
			CHECK((uintptr_t)p % (2 * al(n)) != 0, "the object of %zu bytes is aligned to more than guaranteed", n);
		} else if (o.k == 1) {
			O x = live[o.a];
			LOG("free object %zu of pool %d", o.a, owner[o.a]);
			mempool_free(&pool[owner[o.a]], x.p);
			live.erase(live.begin() + o.a); owner.erase(owner.begin() + o.a);
			died(x.p, x.n);
		} else if (o.k == 2) {
			O x = live[o.a]; struct mempool *w = &pool[owner[o.a]], *v = &pool[!owner[o.a]];
			if (o.b == 0) must_be_reported("mempool_free to another pool", [&] { mempool_free(v, x.p); });
			if (o.b == 1) must_be_fatal("mempool_free twice", [&] { mempool_free(w, x.p); mempool_free(w, x.p); });
			if (o.b == 2) { if (poisoned(x.p - 1)) mc::prune(); must_be_reported("a write before an object", [&] { x.p[-1] ^= 1; mempool_free(w, x.p); }); }
		} else {
			while (!live.empty()) { O x = live.back(); mempool_free(&pool[owner.back()], x.p); live.pop_back(); owner.pop_back(); died(x.p, x.n); }
			mempool_destroy(&pool[0]); mempool_destroy(&pool[1]);
			CHECK(!mempool_is_initialized(&pool[0]), "a destroyed pool is initialized");
			stop();
			return;
		}
	}
}
/* ---- regions ---- */
static int ncb_a, ncb_t; static size_t cb_a, cb_t; static void *cb_arg;
static void on_alloc(struct region *, size_t n, void *arg) { ncb_a++; cb_a = n; cb_arg = arg; }
static void on_trunc(struct region *, size_t n, void *arg) { ncb_t++; cb_t = n; cb_arg = arg; }
static void k_region()
{
	static const size_t sz[] = {1, 5, 8, 127, 128, 129, 700, 5000};
	static const size_t als[] = {1, 2, 8, 64, 4096};
	int nsz = mc::opt("sizes", 6), nal = mc::opt("aligns", 4);
	struct region r; memset(&r, 0xAB, sizeof r);
	region_create(&r, &cache);
	bool cb = mc::choose(2, "callbacks");
	if (cb) region_set_callbacks(&r, on_alloc, on_trunc, &r);
	size_t used = 0; int tag = 0;
	size_t resn = 0, resal = 0; char *res = NULL;
	ncb_a = ncb_t = 0;
	int ea = 0, et = 0;
	auto trunc = [&](size_t to) {
		while (used > to) { O x = live.back(); live.pop_back(); used -= x.n; died(x.p, x.n); }
		CHECK(used == to, "internal");
		if (res) died(res, resn);
		res = NULL; resn = 0;
		if (cb) { et++; CHECK(ncb_t == et && cb_t == to && cb_arg == &r, "the truncation callback was called %d times, with %zu", ncb_t, cb_t); }
	};
	auto added = [&](void *p, size_t n, size_t al) {
		live.push_back(make(p, n, al, ++tag)); used += n;
		CHECK((uintptr_t)p % (2 * al) != 0, "an object is aligned to more than %zu bytes", al);
		if (cb) { ea++; CHECK(ncb_a == ea && cb_a == n && cb_arg == &r, "the allocation callback was called %d times, with %zu", ncb_a, cb_a); }
	};
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			verify_live(); verify_dead();
			CHECK(region_used(&r) == used, "%zu bytes are used, expected %zu", region_used(&r), used);
			CHECK(region_total(&r) >= used, "the region holds %zu bytes", region_total(&r));
			CHECK(env::blocks() == live.size() + (res ? 1 : 0), "%zu heap blocks for %zu objects", env::blocks(), live.size());
			CHECK(ncb_a == ea && ncb_t == et, "unexpected callbacks");
			if (res) { accessible("a reservation", res, resn); CHECK(off_limits(res + resn), "the byte behind a reservation is accessible"); }
			mc::state(mc::mix(key_live(3 + 16 * lastk), resn * 8192 + resal * 2 + cb), depth - step);
		}
		std::vector<Op> ops;
		if (step < depth) {
			if (!res) {
				for (int i = 0; i < nsz; i++) for (int j = 0; j < nal; j++) { ops.push_back(Op{0, sz[i], als[j]}); ops.push_back(Op{1, sz[i], als[j]}); }
				for (size_t d : {0, 1}) if (used > d) ops.push_back(Op{2, used - d, 0});
				if (!live.empty()) { ops.push_back(Op{2, live.back().n, 0}); if (used > live.back().n) ops.push_back(Op{2, live.back().n + 1, 0}); ops.push_back(Op{2, 1, 0}); }
			} else {
				for (int i = 0; i < nsz; i++) if (sz[i] <= resn) ops.push_back(Op{3, sz[i], 0});
				ops.push_back(Op{3, resn, 0});
			}
			size_t u = 0;
			ops.push_back(Op{4, 0, 0});
			for (O &o : live) ops.push_back(Op{4, u += o.n, 0});
			ops.push_back(Op{5, 0, 0}); ops.push_back(Op{5, 1, 0});
		}
		if (res) for (size_t m = 0; m < 5; m++) ops.push_back(Op{6, m, 0});
		ops.push_back(Op{6, 5, 0}); ops.push_back(Op{6, 6, 0}); ops.push_back(Op{6, 7, 0});
		ops.push_back(Op{9, 0, 0}); ops.push_back(Op{9, 1, 0});
		Op o = ops[mc::choose(ops.size(), "op")];
		lastk = o.k;
		switch (o.k) {
		case 0: {
			LOG("alloc %zu aligned to %zu", o.a, o.b);
			added(o.b > 1 ? region_aligned_alloc(&r, o.a, o.b) : step % 2 ? region_alloc_cb(&r, o.a) : region_alloc(&r, o.a), o.a, o.b);
			break;
		}
		case 1: {
			size_t got = o.a;
			LOG("reserve %zu aligned to %zu", o.a, o.b);
			if (o.b > 1) res = (char *)region_aligned_reserve(&r, o.a, o.b), got = std::max(got, (size_t)SMALL_REGION_MIN_RESERVE);
			else res = (char *)region_reserve_cb(&r, &got);
			CHECK(res && got >= o.a, "a reservation of %zu bytes gave %zu", o.a, got);
			CHECK((uintptr_t)res % o.b == 0, "a reservation is not aligned");
			resn = got; resal = o.b;
			accessible("a reservation", res, resn);
			memset(res, 0x77, resn);
			break;
		}
		case 2: {
			LOG("join %zu", o.a);
			char *p = (char *)region_join(&r, o.a);
			CHECK(p, "join was refused");
			/* the last o.a bytes, in order */
			size_t end = o.a;
			for (size_t i = live.size(); i-- && end; ) {
				size_t n = std::min(end, live[i].n);
				CHECK(same(p + end - n, n, live[i].tag, live[i].n - n), "joined bytes %zu..%zu are wrong", end - n, end);
				end -= n;
			}
			accessible("a joined object", p, o.a);
			size_t now = region_used(&r);
			CHECK(now == used + o.a || now == used, "%zu bytes are used after joining %zu, %zu before", now, o.a, used);
			if (now == used) mc::prune();
			added(p, o.a, 1);
			break;
		}
		case 3: {
			LOG("alloc %zu of the reservation", o.a);
			char *p = (char *)(resal > 1 ? region_aligned_alloc(&r, o.a, resal) : region_alloc(&r, o.a));
			CHECK(p == res, "an allocation of a reservation is elsewhere");
			size_t n = resn; res = NULL; resn = 0;
			added(p, o.a, resal); live.back().was = n;
			if (n > o.a) flagged("the rest of a reservation", p + o.a, n - o.a, true);
			break;
		}
		case 4: LOG("truncate to %zu", o.a); region_truncate(&r, o.a); trunc(o.a); break;
		case 5: LOG(o.a ? "reset" : "free"); if (o.a) region_reset(&r); else region_free(&r); trunc(0); break;
		case 6:
			switch (o.a) {
			case 0: must_be_reported("an allocation larger than the reservation", [&] { region_aligned_alloc(&r, resn + 1, resal); });
			case 1: must_be_reported("a second reservation", [&] { region_reserve(&r, 1); });
			case 2: must_be_reported("an allocation aligned differently than the reservation", [&] { region_aligned_alloc(&r, 1, resal * 2); });
			case 3: if (!used) mc::prune(); must_be_reported("a join during a reservation", [&] { region_join(&r, 1); });
			case 4: if (poisoned(res - 1)) mc::prune(); must_be_reported("a write before a reservation", [&] { res[-1] ^= 1; region_free(&r); });
			case 5: must_be_reported("truncation to more than is used", [&] { region_truncate(&r, used + 1); });
			case 6: must_be_reported("a join of more than is used", [&] { region_join(&r, used + 1); });
			case 7: if (live.empty() || poisoned(live.back().p - 1)) mc::prune(); must_be_reported("a write before an object", [&] { live.back().p[-1] ^= 1; region_free(&r); });
			}
			break;
		case 9:
			LOG("destroy");
			if (o.a) { region_free(&r); trunc(0); CHECK(env::blocks() == 0, "%zu heap blocks are left after freeing a region", env::blocks()); }
			region_destroy(&r);
			trunc(0);
			stop();
			return;
		}
	}
}
/* ---- log structured regions ---- */
static void k_ls()
{
	static const size_t sz[] = {1, 7, 8, 100, 5000};
	static const size_t als[] = {1, 2, 16, 1024};
	int nsz = mc::opt("sizes", 3), nal = mc::opt("aligns", 2);
	struct lsregion r; memset(&r, 0xAB, sizeof r);
	lsregion_create(&r, &arena);
	size_t used = 0; int tag = 0, resn = 0, resal = 0; char *res = NULL;
	int64_t id = mc::choose(2, "first id") ? 100 : 0;
	std::vector<int64_t> ids; std::vector<bool> sent;
	struct lsregion_svp svp; memset(&svp, 0xAB, sizeof svp); lsregion_svp_create(&svp);
	auto gone = [&] {
		while (!ids.empty() && 0 < 1) { O x = live.front(); live.erase(live.begin()); ids.erase(ids.begin()); sent.erase(sent.begin()); used -= x.n; died(x.p, x.n); break; }
	};
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			verify_live(); verify_dead();
			CHECK(lsregion_used(&r) == used, "%zu bytes are used, expected %zu", lsregion_used(&r), used);
			CHECK(lsregion_total(&r) >= used, "the region holds %zu bytes", lsregion_total(&r));
			if (res) { accessible("a reservation", res, resn); CHECK(off_limits(res + resn), "the byte behind a reservation is accessible"); }
			uint64_t k = mc::mix(key_live(4), resn * 8192 + resal);
			for (size_t i = 0; i < ids.size(); i++) k = mc::mix(k, (id - ids[i]) * 2 + sent[i]);
			mc::state(mc::mix(k, lastk), depth - step);
		}
		std::vector<Op> ops;
		if (step < depth) {
			if (!res) {
				for (int i = 0; i < nsz; i++) for (int j = 0; j < nal; j++) for (size_t d = 0; d < 2; d++) { ops.push_back(Op{0, sz[i], als[j] * 2 + d}); }
				for (int i = 0; i < nsz; i++) for (int j = 0; j < nal; j++) ops.push_back(Op{1, sz[i], als[j]});
				int64_t last = -7;
				for (int64_t x : ids) if (x != last) { ops.push_back(Op{4, (size_t)x, 0}); last = x; }
				ops.push_back(Op{4, (size_t)(id + 5), 0});
				ops.push_back(Op{5, 1, 0}); ops.push_back(Op{5, 2, 0}); ops.push_back(Op{5, 64, 0});
			} else {
				for (int i = 0; i < nsz; i++) if (sz[i] <= (size_t)resn) ops.push_back(Op{3, sz[i], 0});
				ops.push_back(Op{5, 1, 0}); ops.push_back(Op{5, 64, 0});
			}
		}
		if (res) for (size_t m = 0; m < 3; m++) ops.push_back(Op{6, m, 0});
		if (!live.empty()) ops.push_back(Op{6, 3, 0});
		ops.push_back(Op{9, 0, 0});
		Op o = ops[mc::choose(ops.size(), "op")];
		lastk = o.k;
		switch (o.k) {
		case 0: case 3: {
			size_t al = o.k == 3 ? resal : o.b / 2;
			if (o.k == 0 && o.b % 2 == 0) id++;
			if (o.k == 3) id++;
			LOG("alloc %zu aligned to %zu, id %lld%s", o.a, al, (long long)id, o.k == 3 ? " of the reservation" : "");
			char *p = (char *)(al > 1 ? lsregion_aligned_alloc(&r, o.a, al, id) : lsregion_alloc(&r, o.a, id));
			if (o.k == 3) {
				CHECK(p == res, "an allocation of a reservation is elsewhere");
				if (resn > (int)o.a) flagged("the rest of a reservation", p + o.a, resn - o.a, true);
			}
			CHECK((uintptr_t)p % (2 * al) != 0, "an object is aligned to more than %zu bytes", al);
			live.push_back(make(p, o.a, al, ++tag)); ids.push_back(id); sent.push_back(false); used += o.a;
			if (o.k == 3) { live.back().was = resn; res = NULL; resn = 0; resal = 0; }
			break;
		}
		case 1:
			LOG("reserve %zu aligned to %zu", o.a, o.b);
			res = (char *)(o.b > 1 ? lsregion_aligned_reserve(&r, o.a, o.b) : lsregion_reserve(&r, o.a));
			CHECK(res && (uintptr_t)res % o.b == 0, "a reservation was refused or is not aligned");
			resn = o.a; resal = o.b;
			memset(res, 0x77, resn);
			break;
		case 4: {
			LOG("gc %lld", (long long)o.a);
			lsregion_gc(&r, (int64_t)o.a);
			while (!ids.empty() && ids[0] <= (int64_t)o.a) gone();
			CHECK(env::blocks() == live.size(), "%zu heap blocks for %zu objects", env::blocks(), live.size());
			break;
		}
		case 5: {
			struct iovec iov[64]; int n = (int)o.a, max = n;
			int64_t got = lsregion_to_iovec(&r, iov, &n, &svp);
			LOG("flush up to %d vectors -> %d", max, n);
			CHECK(n >= 0 && n <= max, "%d vectors were used of %d", n, max);
			size_t j = 0; int64_t want = LSLAB_NOT_USED_ID;
			for (int i = 0; i < n; i++) {
				/* vectors may span several adjacent objects */
				char *p = (char *)iov[i].iov_base; size_t l = iov[i].iov_len;
				while (l) {
					while (j < live.size() && sent[j]) j++;
					CHECK(j < live.size() && p == live[j].p && l >= live[j].n, "vector %d is not the next unflushed object", i);
					sent[j] = true; want = std::max(want, ids[j]); p += live[j].n; l -= live[j].n;
				}
			}
			CHECK(got == want, "the flush returned id %lld, the last one flushed is %lld", (long long)got, (long long)want);
			size_t left = std::count(sent.begin(), sent.end(), false);
			CHECK(n == max || left == 0, "%zu objects were not flushed, %d of %d vectors are used", left, n, max);
			mc::outcome(mc::mix(n, left));
			break;
		}
		case 6:
			switch (o.a) {
			case 0: must_be_reported("an allocation larger than the reservation", [&] { lsregion_aligned_alloc(&r, resn + 1, resal, id + 1); });
			case 1: must_be_reported("a second reservation", [&] { lsregion_reserve(&r, 1); });
			case 2: must_be_reported("an allocation aligned differently than the reservation", [&] { lsregion_aligned_alloc(&r, 1, resal * 2, id + 1); });
			case 3: if (poisoned(live[0].p - 1)) mc::prune(); must_be_reported("a write before an object", [&] { live[0].p[-1] ^= 1; lsregion_gc(&r, id); });
			}
			break;
		case 9:
			LOG("destroy");
			lsregion_destroy(&r);
			while (!live.empty()) gone();
			if (res) died(res, resn);
			stop();
			return;
		}
	}
}
/* ---- output buffers ---- */
static void k_obuf()
{
	static const size_t sz[] = {1, 7, 8, 16, 127, 128, 129, 1000};
	int nsz = mc::opt("sizes", 4);
	struct obuf b; memset(&b, 0xAB, sizeof b);
	size_t sc = mc::opt("start", 32);
	obuf_create(&b, &cache, sc);
	CHECK(obuf_is_initialized(&b), "not initialized");
	/* chunks appended, in order; consecutive ones may share a vector */
	size_t used = 0; int tag = 0; size_t resn = 0; char *res = NULL;
	struct Svp { struct obuf_svp s; size_t n, used; };
	std::vector<Svp> svps;
	int pre[] = {0, 94, 96, 97};
	int pf = pre[mc::choose(mc::opt("prefill", 1), "prefill")];
	auto append = [&](void *p, size_t n) { live.push_back(make(p, n, 1, ++tag)); used += n; };
	for (int i = 0; i < pf; i++) append(obuf_alloc(&b, 1 + i % 3), 1 + i % 3);
	if (pf) LOG("%d vectors", pf);
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			verify_live(false); verify_dead();
			CHECK(obuf_size(&b) == used, "the buffer reports %zu bytes, %zu were appended", obuf_size(&b), used);
			int n = obuf_iovcnt(&b);
			CHECK(n >= 0 && n <= SMALL_OBUF_IOV_MAX, "%d vectors", n);
			size_t j = 0, sum = 0;
			for (int i = 0; i < n; i++) {
				char *p = (char *)b.iov[i].iov_base; size_t l = b.iov[i].iov_len;
				sum += l;
				while (l) {
					CHECK(j < live.size() && p == live[j].p && l >= live[j].n, "vector %d is not what was appended", i);
					p += live[j].n; l -= live[j].n; j++;
				}
				char *blk; size_t bs;
				CHECK(env::block_of(p, 0, &blk, &bs), "vector %d is in no heap block", i);
				/* everything behind the data is flagged, except a reservation */
				if (!(res && p == res)) for (char *x = p; x < blk + bs; x += x - p > 300 ? 61 : 1) CHECK(poisoned(x), "byte %td behind the data of vector %d is accessible", x - p, i);
				else {
					accessible("a reservation", res, resn);
					CHECK(poisoned(blk + bs - 1), "the byte behind a reservation is accessible");
				}
			}
			CHECK(j == live.size() && sum == used, "the vectors hold %zu bytes, expected %zu", sum, used);
			uint64_t k = mc::mix(key_live(5), resn * 4 + pf);
			for (Svp &s : svps) k = mc::mix(k, s.n * 1000 + s.s.pos * 100000 + s.s.iov_len);
			k = mc::mix(k, n * 100000 + b.pos); for (int i = 0; i < n; i++) k = mc::mix(k, b.iov[i].iov_len * 65536 + b.capacity[i]);
			mc::state(mc::mix(k, lastk), depth - step);
		}
		std::vector<Op> ops;
		if (step < depth) {
			for (int i = 0; i < nsz; i++) if (!res) { ops.push_back(Op{0, sz[i], 0}); ops.push_back(Op{1, sz[i], 0}); } else if (sz[i] <= resn) ops.push_back(Op{0, sz[i], 1});
			if (res && std::find(sz, sz + nsz, resn) == sz + nsz) ops.push_back(Op{0, resn, 1});
			/* vectors filled in steps: what fits exactly, almost and more than half of the room */
			if (!res && pf && b.pos >= SMALL_OBUF_IOV_CHECKED_MAX && b.pos < SMALL_OBUF_IOV_MAX) {
				size_t room = b.capacity[b.pos] - b.iov[b.pos].iov_len;
				for (size_t x : {room, room - 1, room / 2 + 1}) if (room > 2) { ops.push_back(Op{0, x, 0}); ops.push_back(Op{1, x, 0}); }
			}
			if (!res) { ops.push_back(Op{2, 3, 0}); ops.push_back(Op{2, 300, 0}); }
			if (svps.size() < 2) ops.push_back(Op{3, 0, 0});
			for (size_t i = 0; i < svps.size(); i++) ops.push_back(Op{4, i, 0});
			ops.push_back(Op{5, 0, 0});
		}
		if (res) { ops.push_back(Op{6, 0, 0}); ops.push_back(Op{6, 1, 0}); }
		ops.push_back(Op{6, 2, 0}); ops.push_back(Op{6, 3, 0});
		ops.push_back(Op{9, 0, 0});
		Op o = ops[mc::choose(ops.size(), "op")];
		lastk = o.k;
		auto back = [&](size_t n, size_t u) {
			while (live.size() > n) { O x = live.back(); live.pop_back(); died(x.p, x.n); used -= x.n; }
			CHECK(used == u, "internal");
			if (res) { /* a cancelled reservation is gone, too */ char *bb; size_t bs; if (!env::block_of(res, 1, &bb, &bs)) died(res, resn); else flagged("a cancelled reservation", res, resn, true); }
			res = NULL; resn = 0;
		};
		switch (o.k) {
		case 0: {
			LOG("alloc %zu", o.a);
			char *p = (char *)(step % 2 ? obuf_alloc_cb(&b, o.a) : obuf_alloc(&b, o.a));
			if (res) CHECK(p == res, "an allocation of a reservation is elsewhere");
			size_t n = resn; res = NULL; resn = 0;
			append(p, o.a); live.back().was = n;
			if (n > o.a) flagged("the rest of a reservation", p + o.a, n - o.a, true);
			break;
		}
		case 1: {
			size_t got = o.a;
			LOG("reserve %zu", o.a);
			if (step % 2) res = (char *)obuf_reserve_cb(&b, &got); else res = (char *)obuf_reserve(&b, o.a);
			CHECK(res && got >= o.a, "a reservation of %zu bytes gave %zu", o.a, got);
			resn = got;
			accessible("a reservation", res, resn);
			for (O &x : live) CHECK(res + resn <= x.p || x.p + x.n <= res, "a reservation overlaps earlier data");
			memset(res, 0x77, resn);
			break;
		}
		case 2: {
			LOG("dup %zu", o.a);
			std::vector<char> v(o.a); fill(v.data(), o.a, tag + 1);
			CHECK(obuf_dup(&b, v.data(), o.a) == o.a, "dup did not copy everything");
			tag++;
			int i = b.pos;
			CHECK(i >= 0 && b.iov[i].iov_len >= o.a, "dup is not at the end");
			O x = O{(char *)b.iov[i].iov_base + b.iov[i].iov_len - o.a, o.a, 1, tag};
			CHECK(same(x.p, x.n, tag), "dup did not copy the contents");
			live.push_back(x); used += o.a;
			break;
		}
		case 3: {
			LOG("savepoint");
			Svp s; memset(&s.s, 0xAB, sizeof s.s);
			s.s = obuf_create_svp(&b); s.n = live.size(); s.used = used;
			CHECK(s.s.used == used, "a savepoint of %zu bytes, expected %zu", s.s.used, used);
			svps.push_back(s);
			break;
		}
		case 4: {
			Svp s = svps[o.a];
			LOG("roll back to savepoint %zu (%zu bytes)", o.a, s.used);
			if (s.n < live.size() && s.n > 0) CHECK(obuf_svp_to_ptr(&b, &s.s) != NULL, "a savepoint has no address");
			obuf_rollback_to_svp(&b, &s.s);
			svps.resize(o.a + 1);
			back(s.n, s.used);
			break;
		}
		case 5: LOG("reset"); obuf_reset(&b); svps.clear(); back(0, 0); CHECK(obuf_iovcnt(&b) == 0, "%d vectors after a reset", obuf_iovcnt(&b)); break;
		case 6:
			switch (o.a) {
			case 0: must_be_reported("an allocation larger than the reservation", [&] { obuf_alloc(&b, 1000000); });
			case 1: must_be_reported("a second reservation", [&] { obuf_reserve(&b, 1); });
			case 2: { struct obuf_svp s = obuf_create_svp(&b); s.pos++; s.iov_len = 1; must_be_reported("a rollback to a later position", [&] { obuf_rollback_to_svp(&b, &s); }); }
			case 3: if (live.empty() || poisoned(live[0].p - 1)) mc::prune(); must_be_reported("a write before the data", [&] { live[0].p[-1] ^= 1; obuf_reset(&b); });
			}
			break;
		case 9:
			LOG("destroy");
			obuf_destroy(&b);
			svps.clear(); back(0, 0);
			CHECK(!obuf_is_initialized(&b), "a destroyed buffer is initialized");
			stop();
			return;
		}
	}
}
/* ---- input buffers ---- */
static void k_ibuf()
{
	static const size_t sz[] = {1, 7, 16, 60, 4000, 5000};
	int nsz = mc::opt("sizes", 6);
	struct ibuf b; memset(&b, 0xAB, sizeof b);
	size_t sc = mc::choose(2, "start") ? 16 : 4000;
	ibuf_create(&b, &cache, sc);
	size_t first = 0, len = 0;           /* stream positions of the data in the buffer */
	bool res = false;
	auto tagof = [&] { return 5; };
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			CHECK(ibuf_used(&b) == len, "%zu bytes are used, expected %zu", ibuf_used(&b), len);
			accessible("buffered data", b.rpos, len);
			CHECK(same(b.rpos, len, tagof(), first), "buffered data changed");
			verify_dead();
			if (b.buf) {
				char *blk; size_t bs;
				CHECK(env::block_of(b.buf, ibuf_capacity(&b), &blk, &bs), "the buffer is in no heap block");
				if (res) accessible("a reservation", b.wpos, ibuf_unused(&b));
				else if (b.wpos < b.end) flagged("the space behind the data", b.wpos, b.end - b.wpos, true);
				for (char *x = b.end; x < blk + bs; x++) CHECK(poisoned(x), "byte %td behind the buffer is accessible", x - b.end);
				if (b.rpos > b.buf) flagged("consumed data", b.buf, b.rpos - b.buf, false);
			} else CHECK(env::blocks() == 0, "%zu heap blocks without a buffer", env::blocks());
			CHECK(env::blocks() <= 1, "%zu heap blocks for one buffer", env::blocks());
			CHECK((env::blocks() == 0) == (slab_cache_used(&cache) == 0), "the cache uses %zu bytes", slab_cache_used(&cache));
			uint64_t k = mc::mix(mc::mix(6, sc), len * 2 + res);
			k = mc::mix(mc::mix(k, ibuf_pos(&b)), ibuf_capacity(&b));
			k = mc::mix(k, (uintptr_t)b.buf & 7);
			mc::state(mc::mix(k, lastk), depth - step);
		}
		std::vector<Op> ops;
		if (step < depth) {
			for (int i = 0; i < nsz; i++) { ops.push_back(Op{0, sz[i], 0}); ops.push_back(Op{1, sz[i], 0}); }
			if (ibuf_unused(&b)) ops.push_back(Op{0, ibuf_unused(&b), 0});
			for (size_t d : {(size_t)1, (size_t)5, len / 2, len}) if (d && d <= len) { ops.push_back(Op{2, d, 0}); ops.push_back(Op{3, d, 0}); ops.push_back(Op{4, d, 0}); ops.push_back(Op{5, d, 0}); }
			for (size_t i = 6; i < 9; i++) ops.push_back(Op{(int)i, 0, 0});
		}
		ops.push_back(Op{9, 0, 0});
		Op o = ops[mc::choose(ops.size(), "op")];
		lastk = o.k;
		char *old = b.buf; size_t cap = ibuf_capacity(&b);
		/* a buffer that was replaced must be flagged */
		auto replaced = [&] { if (old && b.buf != old) died(old, cap); };
		switch (o.k) {
		case 0: {
			LOG("alloc %zu", o.a);
			char *p = (char *)(step % 2 ? ibuf_alloc_cb(&b, o.a) : ibuf_alloc(&b, o.a));
			replaced();
			CHECK(p && p + o.a == b.wpos, "an allocation of %zu bytes failed or is not at the end", o.a);
			accessible("new data", p, o.a);
			memset(p, 0, o.a);
			for (size_t i = 0; i < o.a; i++) p[i] = pat(tagof(), first + len + i);
			len += o.a; res = false;
			break;
		}
		case 1: {
			LOG("reserve %zu", o.a);
			size_t got = o.a;
			char *p = (char *)(step % 2 ? ibuf_reserve_cb(&b, &got) : ibuf_reserve(&b, o.a));
			replaced();
			CHECK(p && p == b.wpos && got >= o.a && ibuf_unused(&b) >= o.a, "a reservation of %zu bytes failed", o.a);
			accessible("a reservation", p, ibuf_unused(&b));
			memset(p, 0x77, ibuf_unused(&b));
			res = true;
			break;
		}
		case 2: LOG("consume %zu", o.a); ibuf_consume(&b, o.a); first += o.a; len -= o.a; break;
		case 3: LOG("consume before %zu", o.a); ibuf_consume_before(&b, b.rpos + o.a); first += o.a; len -= o.a; break;
		case 4: LOG("discard %zu", o.a); ibuf_discard(&b, o.a); len -= o.a; res = false; break;
		case 5: LOG("truncate to %zu", len - o.a); ibuf_truncate(&b, len - o.a); len -= o.a; res = false; break;
		case 6: LOG("reset"); ibuf_reset(&b); first = len = 0; res = false; break;
		case 7: LOG("reinit"); ibuf_reinit(&b); CHECK(ibuf_capacity(&b) == 0, "capacity after reinit"); if (old) died(old, cap); first = len = 0; res = false; break;
		case 8: LOG("shrink"); ibuf_shrink(&b); replaced(); if (b.buf != old) res = false; CHECK(ibuf_capacity(&b) <= cap, "shrink grew the buffer"); break;
		case 9:
			LOG("destroy");
			ibuf_destroy(&b);
			if (old) died(old, cap);
			stop();
			return;
		}
	}
}
/* ---- slab caches ---- */
static void k_cache()
{
	static const size_t sz[] = {1, 100, 4096 - 16, 4096 - 8, 4096, 5000, 70000};
	size_t used = 0;
	struct S { struct slab *s; int tag; size_t n; };
	std::vector<S> v; int tag = 0;
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			CHECK(slab_cache_used(&cache) == used, "the cache uses %zu bytes, expected %zu", slab_cache_used(&cache), used);
			CHECK(env::blocks() == v.size(), "%zu heap blocks for %zu slabs", env::blocks(), v.size());
			slab_cache_check(&cache);
			uint64_t k = 7;
			for (S &s : v) {
				O o = O{(char *)s.s, s.s->size, 8, 0};
				around(o);
				CHECK((uintptr_t)s.s % sizeof(intptr_t) == 0 && slab_capacity(s.s) >= s.n, "a slab is smaller than %zu bytes", s.n);
				CHECK(same((char *)slab_data(s.s), slab_capacity(s.s), s.tag), "the contents of a slab changed");
				CHECK(slab_from_data(slab_data(s.s)) == s.s, "slab_from_data");
				k = mc::mix(k, s.n);
			}
			verify_dead();
			mc::state(mc::mix(k, lastk), depth - step);
		}
		std::vector<Op> ops;
		if (step < depth) for (size_t s : sz) ops.push_back(Op{0, s, 0});
		for (size_t i = 0; i < v.size(); i++) { if (step < depth) ops.push_back(Op{1, i, 0}); for (int m = 0; m < 3; m++) ops.push_back(Op{2, i, (size_t)m}); }
		ops.push_back(Op{9, 0, 0});
		Op o = ops[mc::choose(ops.size(), "op")];
		lastk = o.k;
		if (o.k == 0) {
			LOG("get %zu", o.a);
			struct slab *s = slab_get(&cache, o.a);
			CHECK(s, "a slab of %zu bytes was refused", o.a);
			CHECK(s->size == slab_real_size(&cache, o.a), "a slab of %zu bytes, announced as %zu", s->size, slab_real_size(&cache, o.a));
			accessible("a slab", (char *)s, s->size);
			CHECK(slab_capacity(s) >= o.a, "a slab of %zu bytes for %zu", slab_capacity(s), o.a);
			memset(slab_data(s), 0, slab_capacity(s));
			fill((char *)slab_data(s), slab_capacity(s), ++tag);
			used += s->size;
			v.push_back(S{s, tag, o.a});
		} else if (o.k == 1) {
			LOG("put %zu", o.a);
			struct slab *s = v[o.a].s; size_t n = s->size;
			slab_put(&cache, s);
			used -= n; v.erase(v.begin() + o.a);
			died((char *)s, n);
		} else if (o.k == 2) {
			struct slab *s = v[o.a].s;
			if (o.b == 0) must_be_reported("slab_put to another cache", [&] { slab_put(&cache2, s); });
			if (o.b == 1) must_be_fatal("slab_put twice", [&] { slab_put(&cache, s); slab_put(&cache, s); });
			if (o.b == 2) must_be_reported("slab_get by another thread", [&] { cache.thread_id++; slab_get(&cache, 1); });
		} else {
			while (!v.empty()) { slab_put(&cache, v.back().s); v.pop_back(); }
			stop();
			return;
		}
	}
}
/* ---- arenas ---- */
static void k_arena()
{
	struct slab_arena a2; memset(&a2, 0xAB, sizeof a2);
	CHECK(slab_arena_create(&a2, &q, 1 << 20, 1, MAP_PRIVATE) == 0, "arena");
	CHECK(a2.slab_size >= SLAB_MIN_SIZE && (a2.slab_size & (a2.slab_size - 1)) == 0, "slab size %u", a2.slab_size);
	struct slab_arena *A[2] = {&arena, &a2};
	std::vector<int> own; int tag = 0;
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			verify_live(); verify_dead();
			CHECK(env::blocks() == live.size(), "%zu heap blocks for %zu slabs", env::blocks(), live.size());
			uint64_t k = 8; for (int w : own) k = mc::mix(k, w);
			mc::state(mc::mix(k, lastk), depth - step);
		}
		std::vector<Op> ops;
		if (step < depth) { ops.push_back(Op{0, 0, 0}); ops.push_back(Op{0, 1, 0}); }
		for (size_t i = 0; i < live.size(); i++) { if (step < depth) ops.push_back(Op{1, i, 0}); ops.push_back(Op{2, i, 0}); ops.push_back(Op{2, i, 1}); }
		ops.push_back(Op{9, 0, 0});
		Op o = ops[mc::choose(ops.size(), "op")];
		lastk = o.k;
		if (o.k == 0) {
			LOG("map from arena %zu", o.a);
			live.push_back(make(slab_map(A[o.a]), A[o.a]->slab_size, 8, ++tag)); own.push_back(o.a);
		} else if (o.k == 1) {
			LOG("unmap slab %zu", o.a);
			O x = live[o.a]; slab_unmap(A[own[o.a]], x.p);
			live.erase(live.begin() + o.a); own.erase(own.begin() + o.a); died(x.p, x.n);
		} else if (o.k == 2) {
			O x = live[o.a]; int w = own[o.a];
			if (o.b == 0) must_be_reported("slab_unmap to another arena", [&] { slab_unmap(A[!w], x.p); });
			if (o.b == 1) must_be_fatal("slab_unmap twice", [&] { slab_unmap(A[w], x.p); slab_unmap(A[w], x.p); });
		} else {
			slab_unmap(&arena, NULL);
			while (!live.empty()) { slab_unmap(A[own.back()], live.back().p); died(live.back().p, live.back().n); live.pop_back(); own.pop_back(); }
			slab_arena_destroy(&a2);
			stop();
			return;
		}
	}
}
/* ---- owners created at every power-of-two distance ---- */
static void k_owners()
{
	int bits = mc::opt("bits", 17), what = mc::choose(4, "allocator");
	size_t dist = (size_t)1 << mc::choose(bits, "distance");
	LOG("allocator %d, %zu owners later", what, dist);
	float f;
	struct mempool p, p2; struct small_alloc a, a2; struct slab_cache c2; struct slab_arena ar2;
	auto many = [&](auto create) { for (size_t i = 1; i < dist; i++) create(); };
	switch (what) {
	case 0: {
		mempool_create(&p, &cache, 8); many([&] { mempool_create(&p2, &cache, 8); mempool_destroy(&p2); }); mempool_create(&p2, &cache, 8);
		void *x = mempool_alloc(&p);
		if (mc::choose(2, "owner")) must_be_reported("mempool_free to another pool", [&] { mempool_free(&p2, x); });
		mempool_free(&p, x);
		break;
	}
	case 1: {
		small_alloc_create(&a, &cache, 24, 8, 1.3, &f); many([&] { small_alloc_create(&a2, &cache, 24, 8, 1.3, &f); small_alloc_destroy(&a2); }); small_alloc_create(&a2, &cache, 24, 8, 1.3, &f);
		void *x = smalloc(&a, 8);
		if (mc::choose(2, "owner")) must_be_reported("smfree to another allocator", [&] { smfree(&a2, x, 8); });
		smfree(&a, x, 8);
		break;
	}
	case 2: {
		struct slab_cache c1; slab_cache_create(&c1, &arena);
		many([&] { slab_cache_create(&c2, &arena); slab_cache_destroy(&c2); }); slab_cache_create(&c2, &arena);
		struct slab *x = slab_get(&c1, 100);
		if (mc::choose(2, "owner")) must_be_reported("slab_put to another cache", [&] { slab_put(&c2, x); });
		slab_put(&c1, x);
		slab_cache_destroy(&c1); slab_cache_destroy(&c2);
		break;
	}
	case 3: {
		struct slab_arena ar1; slab_arena_create(&ar1, &q, 0, 65536, 0);
		many([&] { slab_arena_create(&ar2, &q, 0, 65536, 0); slab_arena_destroy(&ar2); }); slab_arena_create(&ar2, &q, 0, 65536, 0);
		void *x = slab_map(&ar1);
		if (mc::choose(2, "owner")) must_be_reported("slab_unmap to another arena", [&] { slab_unmap(&ar2, x); });
		slab_unmap(&ar1, x);
		slab_arena_destroy(&ar1); slab_arena_destroy(&ar2);
		break;
	}
	}
	mc::outcome(what);
	stop();
}
/* ---- every size and alignment ---- */
static void k_sizes()
{
	static const int what_n = 4;
	int what = mc::choose(what_n, "allocator"), maxal = mc::opt("maxalign", 14);
	size_t al = (size_t)1 << (what < 2 ? mc::choose(maxal + 1, "alignment") : 0);
	size_t base = (size_t)mc::choose(mc::opt("max", 512) / 64, "block") * 64;
	LOG("allocator %d alignment %zu sizes %zu..%zu", what, al, base + 1, base + 64);
	struct region r; region_create(&r, &cache);
	struct lsregion ls; lsregion_create(&ls, &arena);
	struct small_alloc a; float f; small_alloc_create(&a, &cache, 24, 8, 1.3, &f);
	for (size_t n = base + 1; n <= base + 64; n++) {
		struct mempool p; mempool_create(&p, &cache, n);
		void *x = what == 0 ? region_aligned_alloc(&r, n, al) : what == 1 ? lsregion_aligned_alloc(&ls, n, al, n) : what == 2 ? smalloc(&a, n) : mempool_alloc(&p);
		size_t want = what == 2 ? 4 : what == 3 ? std::min((size_t)4096, n & -n) : al;
		O o = make(x, n, want, n);
		CHECK((uintptr_t)x % (2 * want) != 0, "the object of %zu bytes is aligned to more than %zu", n, want);
		live.push_back(o);
		around(o);
		if (what == 3 || what == 2) {
			/* every byte before that is not flagged is guarded */
			char *m = (char *)((uintptr_t)o.p & ~(uintptr_t)7);
			int g = mc::choose(o.p - m + 1, "guard");
			if (g) {
				if (what == 3) must_be_reported("a write before an object", [&] { o.p[-g] ^= 0xff; mempool_free(&p, o.p); });
				else must_be_reported("a write before an object", [&] { o.p[-g] ^= 0xff; smfree(&a, o.p, n); });
			}
			verify_live();
			if (what == 3) mempool_free(&p, x); else smfree(&a, x, n);
			live.pop_back();
			died(o.p, n);
		} else if (n % 16 == 0) {
			verify_live();
			if (what == 0) region_free(&r); else lsregion_gc(&ls, n);
			for (O &y : live) died(y.p, y.n);
			live.clear();
		}
		mc::count(0, 1);
	}
	region_destroy(&r); lsregion_destroy(&ls);
	stop();
}
static void exec()
{
	start();
	switch (mc::opt("kind", 0)) {
	case 0: k_sizes(); break;
	case 1: k_small(); break;
	case 2: k_pool(); break;
	case 3: k_region(); break;
	case 4: k_ls(); break;
	case 5: k_obuf(); break;
	case 6: k_ibuf(); break;
	case 7: k_cache(); break;
	case 8: k_arena(); break;
	case 9: k_owners(); break;
	}
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
