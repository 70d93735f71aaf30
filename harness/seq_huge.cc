/* C30: requests no allocator can satisfy. */
#include "alloc.h"
#include <functional>
#include <stdlib.h>
extern "C" {
#include "small.h"
#include "region.h"
#include "ibuf.h"
#include "obuf.h"
#include "static.h"
#include "quota_lessor.h"
}
extern "C" { void *mc_malloc(size_t); void mc_free(void *); }
#define malloc mc_malloc
#define free mc_free
extern "C" {
#include "lsregion.h"
}
#undef malloc
#undef free
static Stack S;
static Live live;
static struct small_alloc sm; static struct region rg; static struct ibuf ib; static struct obuf ob; static struct lsregion ls; static struct quota_lessor ql;
static std::vector<size_t> marks;        /* numbers a computation could add to the size */

struct Entry { const char *name; std::function<void *(size_t)> f; size_t al; int own; };
enum { SLAB, SMALL, REGION, IBUF, OBUF, LS, STATIC, QUOTA, LESSOR };
struct Obs { size_t quota, cache, used, held; env::Own own; uintptr_t a, b, c; bool operator==(const Obs &o) const { return quota == o.quota && cache == o.cache && used == o.used && held == o.held && own == o.own && a == o.a && b == o.b && c == o.c; } };
static int nstat(const void *, void *) { return 0; }
static Obs observe(int k)
{
	Obs o{quota_used(&S.q), slab_cache_used(&S.cache), 0, S.held.size(), env::own(), 0, 0, 0};
	switch (k) {
	case SMALL: { struct small_stats st; small_stats(&sm, &st, nstat, NULL); o.used = st.used; o.a = st.total; break; }
	case REGION: o.used = region_used(&rg); o.a = region_total(&rg); break;
	case IBUF: o.used = ibuf_used(&ib); o.a = (uintptr_t)ib.rpos; o.b = (uintptr_t)ib.wpos; o.c = ibuf_capacity(&ib); break;
	case OBUF: o.used = obuf_size(&ob); o.a = obuf_iovcnt(&ob); o.c = o.a ? (uintptr_t)ob.iov[o.a - 1].iov_base + ob.iov[o.a - 1].iov_len : 0; break;
	case LS: o.used = lsregion_used(&ls); o.a = lsregion_total(&ls); break;
	case LESSOR: o.used = quota_leased(&ql); break;
	case STATIC: case QUOTA: case SLAB: break;
	}
	return o;
}
static void take(void *p, size_t n) { if (!p) mc::fail("internal: an ordinary request of %zu bytes was refused", n); live.add(p, n, n); marks.push_back((uintptr_t)p); marks.push_back((uintptr_t)p + n); marks.push_back(n); }

static void exec()
{
	the_stack = &S;
	int nent = 18;
	int e = mc::choose(nent, "entry"), prior = mc::choose(4, "prior"), unlimited = mc::choose(2, "quota"), part = mc::choose(52, "sizes");
	long W = mc::opt("window", 200);
	S.create(16 * 65536, 0, 65536);
	if (unlimited) quota_set(&S.q, QUOTA_MAX);
	env::malloc_max = 1u << 24;
	live.v.clear(); marks.clear();
	memset(&sm, 0xAB, sizeof sm); memset(&rg, 0xAB, sizeof rg); memset(&ib, 0xAB, sizeof ib); memset(&ob, 0xAB, sizeof ob); memset(&ls, 0xAB, sizeof ls);
	float f;
	small_alloc_create(&sm, &S.cache, 24, 8, 1.3, &f);
	region_create(&rg, &S.cache); ibuf_create(&ib, &S.cache, 4096); obuf_create(&ob, &S.cache, 4096); lsregion_create(&ls, &S.arena);
	static_reset();
	static struct quota lq; memset(&lq, 0xAB, sizeof lq); quota_init(&lq, unlimited ? QUOTA_MAX : 16 * 65536); quota_lessor_create(&ql, &lq);
	struct T6 { char a[6]; };
	static char *dst; dst = NULL;
	const Entry E[] = {
		{"slab_get", [](size_t n) -> void * { return slab_get(&S.cache, n); }, 1, SLAB},
		{"slab_get_large", [](size_t n) -> void * { return slab_get_large(&S.cache, n); }, 1, SLAB},
		{"smalloc", [](size_t n) { return smalloc(&sm, n); }, 1, SMALL},
		{"region_alloc", [](size_t n) { return region_alloc(&rg, n); }, 1, REGION},
		{"region_reserve", [](size_t n) { return region_reserve(&rg, n); }, 1, REGION},
		{"region_aligned_alloc", [](size_t n) { return region_aligned_alloc(&rg, n, 64); }, 64, REGION},
		{"region_aligned_reserve", [](size_t n) { return region_aligned_reserve(&rg, n, 4096); }, 4096, REGION},
		{"region_alloc_cb", [](size_t n) { return region_alloc_cb(&rg, n); }, 1, REGION},
		{"ibuf_alloc", [](size_t n) { return ibuf_alloc(&ib, n); }, 1, IBUF},
		{"ibuf_reserve", [](size_t n) { return ibuf_reserve(&ib, n); }, 1, IBUF},
		{"obuf_alloc", [](size_t n) { return obuf_alloc(&ob, n); }, 1, OBUF},
		{"obuf_reserve", [](size_t n) { return obuf_reserve(&ob, n); }, 1, OBUF},
		{"lsregion_alloc", [](size_t n) { return lsregion_alloc(&ls, n, 5); }, 1, LS},
		{"lsregion_reserve", [](size_t n) { return lsregion_reserve(&ls, n); }, 1, LS},
		{"lsregion_aligned_alloc", [](size_t n) { return lsregion_aligned_alloc(&ls, n, 4096, 5); }, 4096, LS},
		{"static_alloc", [](size_t n) -> void * { return static_alloc(n); }, 1, STATIC},
		{"static_aligned_reserve", [](size_t n) -> void * { return static_aligned_reserve(n, 64); }, 64, STATIC},
		{"quota_lease", [](size_t n) -> void * { return quota_lease(&ql, n) < 0 ? NULL : &ql; }, 1, LESSOR},
	};
	const Entry &x = E[e];
	/* what the allocator holds already */
	static const size_t pr[4][4] = {{0}, {1}, {100, 4000, 60000, 7}, {65000, 3, 200000, 65536}};
	if (x.own == STATIC) { static const size_t ps[4] = {0, 1, 6000, SMALL_STATIC_SIZE}; if (ps[prior]) { char *p = (char *)static_alloc(ps[prior]); if (!p) mc::fail("internal: static"); marks.push_back((uintptr_t)p); marks.push_back(SMALL_STATIC_SIZE - ps[prior]); } marks.push_back(ps[prior]); }
	else if (x.own == LESSOR) { static const size_t ps[4] = {0, 1, 1024, 70000}; if (ps[prior] && quota_lease(&ql, ps[prior]) < 0) mc::fail("internal: lease"); marks.push_back(ps[prior]); }
	else for (size_t n : pr[prior]) if (n) switch (x.own) {
	case SLAB: { struct slab *s = slab_get(&S.cache, n); if (!s) mc::fail("internal"); take(slab_data(s), slab_capacity(s)); break; }
	case SMALL: take(smalloc(&sm, n), n); break;
	case REGION: take(region_alloc(&rg, n), n); break;
	case IBUF: { void *p = ibuf_alloc(&ib, n); live.v.clear(); take(p, n); break; }     /* earlier data may move */
	case OBUF: take(obuf_alloc(&ob, n), n); break;
	case LS: take(lsregion_alloc(&ls, n, 1), n); break;
	}
	size_t limit = x.own == STATIC ? SMALL_STATIC_SIZE : x.own == LESSOR ? (unlimited ? QUOTA_MAX : quota_total(&lq)) : unlimited ? env::malloc_max : quota_total(&S.q);
	/* the sizes */
	std::vector<size_t> centres;
	if (part < 48) centres.push_back((size_t)1 << (part + 16));
	else if (part == 48) for (size_t k : {3, 5, 7, 255, 65535}) for (int s : {32, 40, 48, 62}) centres.push_back(k << s);
	else if (part == 49) centres.push_back(0);
	else if (part == 50) for (size_t m : marks) { centres.push_back((size_t)0 - m); centres.push_back((size_t)1 << 63 ^ ((size_t)0 - m)); }
	else for (size_t m : {slab_sizeof(), (size_t)65536, (size_t)4096, (size_t)8192, (size_t)QUOTA_UNIT_SIZE, (size_t)SMALL_STATIC_SIZE, (size_t)131072, (size_t)16384}) for (int d = 1; d <= 4; d++) { centres.push_back((size_t)0 - m * d); centres.push_back((size_t)QUOTA_MAX - m * d); }
	LOG("%s after %d, %s quota", x.name, prior, unlimited ? "unlimited" : "tight");
	Obs o0 = observe(x.own);
	size_t ql0 = quota_used(&lq);
	long n_ref = 0;
	auto probe = [&](size_t n) {
		if (n <= limit) return;
		void *p = x.f(n);
		if (p != NULL) mc::fail("%s(%zu) answered %p although at most %zu bytes exist", x.name, n, p, limit);
		mc::n_checks++; n_ref++;
		Obs o = observe(x.own);
		if (!(o == o0) || quota_used(&lq) != ql0)
			mc::fail("%s(%zu) was refused but left a mark: quota %zu -> %zu, cache %zu -> %zu, used %zu -> %zu, mapped %zu -> %zu, heap blocks %zu -> %zu%s", x.name, n, o0.quota, o.quota, o0.cache, o.cache, o0.used, o.used, o0.own.mapped, o.own.mapped, o0.own.blocks, o.own.blocks,
				 o.a != o0.a || o.b != o0.b || o.c != o0.c ? ", position or capacity changed" : "");
	};
	for (size_t c : centres) {
		for (long d = -W; d <= W; d++) probe(c + d);
		/* next to the alignment and page distances */
		for (long b : {1024L, 4096L, 8192L, 16384L, 65536L}) for (long d = -24; d <= 24; d++) { probe(c - b + d); probe(c + b + d); }
	}
	live.verify();
	mc::outcome(mc::mix(e * 8 + prior, n_ref > 0));
	mc::count(n_ref, n_ref);
	/* the allocator still works */
	static const size_t again[] = {1, 500};
	for (size_t n : again) switch (x.own) {
	case SLAB: { struct slab *s = slab_get(&S.cache, n); if (!s) mc::fail("the next slab_get(%zu) failed", n); take(slab_data(s), slab_capacity(s)); break; }
	case STATIC: { char *p = (char *)static_alloc(n); CHECK(p != NULL, "the next static_alloc(%zu) failed", n); memset(p, 1, n); break; }
	case LESSOR: CHECK(quota_lease(&ql, n) == (ssize_t)n, "the next quota_lease(%zu) failed", n); break;
	default: {
		void *p = x.own == SMALL ? smalloc(&sm, n) : x.own == REGION ? region_alloc(&rg, n) : x.own == IBUF ? ibuf_alloc(&ib, n) : x.own == OBUF ? obuf_alloc(&ob, n) : lsregion_alloc(&ls, n, 9);
		CHECK(p != NULL, "the next request of %zu bytes after %s was refused", n, x.name);
		if (x.own == IBUF) live.v.clear();
		live.add(p, n, n);
	}
	}
	live.verify();
	region_destroy(&rg); ibuf_destroy(&ib); obuf_destroy(&ob); lsregion_destroy(&ls); small_alloc_destroy(&sm);
	S.destroy();
	CHECK(env::mapped_bytes() == 0 && env::malloced_blocks() == 0, "memory remains after destruction");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
