/* C36: the sanitizer build's allocators of several threads over one arena and quota. */
#include <string.h>
#include <setjmp.h>
#include "mcsched.h"
#include "env.h"
extern "C" {
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
#include "region.h"
#include "mempool.h"
#include "small.h"
}
#include "conc_asan.h"
extern char __start_libdata[] __attribute__((weak));
extern char __stop_libdata[] __attribute__((weak));
static struct quota q;
static struct slab_arena arena, arena2;
static struct own T[3];
static int nthreads, nops;
static bool armed; static sigjmp_buf trap;
static void on_assert(const char *, int line, const char *, const char *expr)
{
	if (!armed) mc::fail("a correct operation was reported as misuse: %s (line %d)", expr, line);
	siglongjmp(trap, 1);
}
static void sample() { CHECK(quota_used(&q) <= quota_total(&q), "%zu bytes charged, the limit is %zu", quota_used(&q), quota_total(&q)); }
static uint64_t key()
{
	bool was = sched::quiet;
	sched::quiet = true;
	sample();
	sched::quiet = was;
	uint64_t h = env::hash(1);
	h = mc::mix(h, q.value);
	h = mc::hash_mem(h, T, sizeof T[0] * nthreads);
	if (__start_libdata) h = mc::hash_mem(h, __start_libdata, __stop_libdata - __start_libdata);
	return h;
}
static bool lib_var(uintptr_t a) { return a >= (uintptr_t)__start_libdata && a < (uintptr_t)__stop_libdata; }
static bool tracked(uintptr_t a) { return lib_var(a) || a - (uintptr_t)&q < sizeof q; }
/* the quota is read plainly by design, then confirmed by a compare-exchange */
static bool raced(uintptr_t a) { return lib_var(a) || a - (uintptr_t)&arena < sizeof arena || a - (uintptr_t)T < sizeof T; }
static const size_t need[] = {64, 100, 100, 65536, 700 * 1024};
static void fill(void *p, int kind, int t) { if (kind == 2) return; memset(p, t + 1, kind == 3 ? 64 : need[kind]); }
static void check_all(int t)
{
	for (int j = 0; j < T[t].n; j++) {
		unsigned char *p = (unsigned char *)T[t].o[j].p; int k = T[t].o[j].kind;
		if (k == 2) continue;
		size_t n = k == 3 ? 64 : need[k];
		CHECK(p[0] == t + 1 && p[n / 2] == t + 1 && p[n - 1] == t + 1, "the contents of thread %d's object %p changed", t, p);
	}
}
static void added(int t, int kind, void *p)
{
	CHECK(env::is_owned(p, need[kind]), "thread %d was given [%p, +%zu), which is not memory obtained from the system", t, p, need[kind]);
	for (int k = 0; k < nthreads; k++) for (int j = 0; j < T[k].n; j++) CHECK((char *)p + need[kind] <= (char *)T[k].o[j].p || (char *)T[k].o[j].p + need[T[k].o[j].kind] <= (char *)p, "thread %d was given memory thread %d uses", t, k);
	fill(p, kind, t);
	T[t].o[T[t].n].kind = kind; T[t].o[T[t].n++].p = p;
}
static void body(void *arg)
{
	int t = (long)arg;
	struct own *o = &T[t];
	long kinds = mc::opt("kinds", 0x1f);
	for (int i = 0; i < nops; i++) {
		sched::point("op");
		std::vector<int> v;
		if (o->n < 3) for (int k = 0; k < 5; k++) if (kinds >> k & 1) v.push_back(k);
		int peek = mc::opt("peek", 0);
		int a = sched::ask(v.size() + o->n + 1 + peek, "op", false);
		if (a < (int)v.size()) {
			size_t u0 = a_used(o);
			void *p = a_alloc(o, v[a]);
			LOG("t%d: alloc kind %d -> %p", t, v[a], p);
			if (p) added(t, v[a], p);
			else CHECK(v[a] == 1 || v[a] == 4, "thread %d was refused an object of kind %d", t, v[a]);
			CHECK(a_used(o) - u0 == (v[a] == 2 ? slab_real_size(&o->cache, 100) : 0), "the use of thread %d's cache went from %zu to %zu", t, u0, a_used(o));
			mc::outcome(v[a] * 2 + (p != NULL));
		} else if (a < (int)v.size() + o->n) {
			int j = a - v.size();
			LOG("t%d: free %p", t, o->o[j].p);
			int kind = o->o[j].kind; void *p = o->o[j].p;
			memmove((void *)(o->o + j), o->o + j + 1, sizeof o->o[0] * (--o->n - j));
			a_free(o, kind, p);
		} else if (a > (int)v.size() + o->n) {
			int u = (t + 1) % nthreads;
			size_t unit = slab_real_size(&T[u].cache, 100), n = a_used(&T[u]);
			LOG("t%d: thread %d's cache uses %zu bytes", t, u, n);
			CHECK(n % unit == 0 && n <= 3 * unit, "thread %d's cache uses %zu bytes, read by thread %d", u, n, t);
			mc::outcome(20 + n / unit);
		} else {
			LOG("t%d: destroy, create", t);
			if (mc::opt("peek", 0)) { LOG("nothing"); continue; }
			while (o->n) { o->n--; a_free(o, o->o[o->n].kind, o->o[o->n].p); }
			a_destroy(o);
			a_create(o, &arena);
		}
		check_all(t);
		sample();
		sched::op_done(i + 100);
	}
	LOG("t%d finished", t);
}
template <class F> static void must_be_reported(const char *what, int a, int b, F f)
{
	volatile bool ret = false;
	armed = true;
	if (sigsetjmp(trap, 0) == 0) { f(); ret = true; }
	armed = false;
	CHECK(!ret, "%s of thread %d given to thread %d's allocator was not reported", what, a, b);
}
static void exec()
{
	env::reset();
	sched::reset();
	nthreads = mc::opt("threads", 2); nops = mc::opt("ops", 2);
	memset((void *)T, 0, sizeof T);
	small_on_assert_failure = on_assert;
	quota_init(&q, mc::opt("limit", 4) << 20);
	memset(&arena, 0xAB, sizeof arena); memset(&arena2, 0xAB, sizeof arena2);
	CHECK(slab_arena_create(&arena, &q, 0, 65536, MAP_PRIVATE) == 0 && slab_arena_create(&arena2, &q, 0, 65536, MAP_PRIVATE) == 0, "arena creation failed");
	for (int t = 0; t < nthreads; t++) T[t].arena = &arena;
	/* a cache must exist before others read its use, and until they are done with it */
	bool late = mc::opt("peek", 0) ? false : mc::choose(2, "created by the threads");
	if (!late) for (int t = 0; t < nthreads; t++) a_create(&T[t], &arena);
	sched::is_point = tracked;
	sched::race_checked = raced;
	sched::preemptions = mc::opt("preempt", -1);
	sched::extra_key = key;
	for (long i = 0; i < nthreads; i++) sched::spawn(late ? [](void *a) { a_create(&T[(long)a], &arena); body(a); } : body, (void *)i);
	sched::run();
	sample();
	for (int t = 0; t < nthreads; t++) check_all(t);
	/* every object belongs to exactly one allocator */
	for (int t = 0; t < nthreads; t++) for (int k = 0; k < 3; k++) {
		void *p = a_alloc(&T[t], k);
		if (!p) continue;
		for (int u = 0; u < nthreads; u++) {
			if (u == t) continue;
			static const char *nm[] = {"a pool object", "a small object", "a slab"};
			must_be_reported(nm[k], t, u, [&] { a_free(&T[u], k, p); });
		}
		a_free(&T[t], k, p);
	}
	void *p = slab_map(&arena);
	must_be_reported("an arena slab", 0, 0, [&] { slab_unmap(&arena2, p); });
	slab_unmap(&arena, p);
	for (int t = 0; t < nthreads; t++) {
		while (T[t].n) { T[t].n--; a_free(&T[t], T[t].o[T[t].n].kind, T[t].o[T[t].n].p); }
		CHECK(a_used(&T[t]) == 0, "thread %d's cache has %zu bytes in use with nothing allocated", t, a_used(&T[t]));
		a_destroy(&T[t]);
	}
	CHECK(quota_used(&q) == 0, "%zu bytes remain charged", quota_used(&q));
	CHECK(env::malloced_blocks() == 0, "%zu heap blocks remain", env::malloced_blocks());
	slab_arena_destroy(&arena); slab_arena_destroy(&arena2);
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
