/* C31: threads with their own slab caches and allocators over one arena and quota. */
#include <string.h>
#include "mcsched.h"
#include "env.h"
extern "C" {
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
#include "region.h"
#include "mempool.h"
#include "small.h"
#include "lsregion.h"
#include "ibuf.h"
#include "obuf.h"
}
#include "conc_cache.h"
static struct quota q;
static struct slab_arena arena;
static struct th T[3];
static int nthreads, nops, maxobj;
static size_t SS, limit_bytes, pre;
static void sample() { CHECK(quota_used(&q) <= quota_total(&q), "%zu bytes charged, the limit is %zu", quota_used(&q), quota_total(&q)); }
static uint64_t key()
{
	bool was = sched::quiet;
	sched::quiet = true;
	sample();
	sched::quiet = was;
	uint64_t h = env::hash(1);
	h = mc::hash_mem(h, &arena, sizeof arena);
	h = mc::mix(h, q.value);
	h = mc::hash_mem(h, T, sizeof T[0] * nthreads);
	return h;
}
static const uintptr_t P0 = 0x200000000000ull, P1 = 0x280000000000ull;
static bool is_pt(uintptr_t a) { return a >= P0 && a < P1 && (a & (SS - 1)) < 8; }
/* The first word of a slab is also read by threads whose compare-and-swap then fails. */
static bool raced(uintptr_t a) { return a >= P0 && a < P1 && (a & (SS - 1)) >= 8; }
static void touch(struct obj *o, bool write, int t)
{
	size_t at[3] = {0, o->n / 2 / 8 * 8, o->n / 8 * 8 - 8};
	for (int i = 0; i < 3; i++) {
		long *w = (long *)((char *)o->p + at[i]), v = (long)(uintptr_t)w * 3 + t;
		sched::payload(w, write);
		if (write) *w = v;
		else CHECK(*w == v, "the contents of thread %d's object [%p, +%zu) changed at %zu", t, o->p, o->n, at[i]);
	}
}
static bool moves(int t) { return T[t].kind == IBUF; }
static void forget_heap(struct obj *o) { if ((uintptr_t)o->p < P0) sched::payload_forget(o->p, o->n); }
static void fresh_obj(int t)
{
	struct obj *o = &T[t].o[T[t].n - 1];
	CHECK(env::is_owned(o->p, o->n), "thread %d was given [%p, +%zu), which is not memory obtained from the system", t, o->p, o->n);
	for (int k = 0; k < nthreads; k++) for (int j = 0; j < T[k].n; j++) {
		struct obj *x = &T[k].o[j];
		if (x == o || (k == t && moves(t))) continue;
		CHECK((char *)o->p + o->n <= (char *)x->p || (char *)x->p + x->n <= (char *)o->p, "thread %d was given [%p, +%zu) while thread %d uses [%p, +%zu)", t, o->p, o->n, k, x->p, x->n);
	}
	touch(o, true, t);
}
/* an input buffer moves what it holds: the objects are the pieces of its readable part */
static void relocate(int t, bool check)
{
	if (!moves(t)) return;
	char *p = T[t].ibuf.rpos;
	for (int j = 0; j < T[t].n; j++) {
		struct obj *o = &T[t].o[j];
		if (check && o->p != p) {
			size_t at[3] = {0, o->n / 2 / 8 * 8, o->n / 8 * 8 - 8};
			for (int i = 0; i < 3; i++) {
				CHECK(*(long *)(p + at[i]) == (long)((uintptr_t)o->p + at[i]) * 3 + t, "the contents of thread %d's buffer changed", t);
			}
			o->p = p;
			touch(o, true, t);
		}
		o->p = p;
		p += o->n;
	}
}
static void body(void *arg)
{
	int t = (long)arg;
	struct th *h = &T[t];
	for (int i = 0; i < nops; i++) {
		sched::point("op");
		bool one = h->kind == RAW || h->kind == POOL || h->kind == BIG || h->kind == SMALL;
		bool two = h->kind != POOL && h->kind != BIG;
		int room = h->n < maxobj, na = room * (1 + two), nf = h->n == 0 ? 0 : one ? h->n : 1;
		int o = sched::ask(na + nf + 1, "op", false);
		if (o < na) {
			size_t n = 0;
			LOG("t%d kind %d: alloc %s", t, h->kind, o == 0 && two ? "small" : "big");
			int n0 = h->n;
			void *p = t_alloc(h, two ? o : 1, &n);
			LOG("t%d: alloc(%zu) -> %p", t, n, p);
			mc::outcome(t * 2 + (p != NULL) + 16 * h->kind);
			if (p) {
				h->n = n0; relocate(t, true); h->n = n0 + 1;
				fresh_obj(t);
			}
		} else if (o < na + nf) {
			int k = one ? o - na : 0;
			LOG("t%d kind %d: free %d", t, h->kind, k);
			for (int j = one ? k : 0; j < (one ? k + 1 : h->n); j++) { touch(&h->o[j], false, t); forget_heap(&h->o[j]); }
			t_free(h, k);
		} else {
			LOG("t%d kind %d: destroy, create", t, h->kind);
			for (int j = 0; j < h->n; j++) { touch(&h->o[j], false, t); forget_heap(&h->o[j]); }
			/* large objects belong to the slab cache */
			t_destroy(h);
			t_create(h, &arena);
		}
		for (int j = 0; j < h->n; j++) touch(&h->o[j], false, t);
		sample();
		sched::op_done(i + 100);
	}
	LOG("t%d finished", t);
}
static void exec()
{
	env::reset();
	sched::reset();
	nthreads = mc::opt("threads", 2); nops = mc::opt("ops", 2); maxobj = mc::opt("objs", 3);
	SS = 65536;
	limit_bytes = mc::opt("limit", 2) * SS + mc::opt("extra", 0);
	pre = mc::opt("pre", 0);
	env::place_align = SS;
	memset((void *)T, 0, sizeof T);
	quota_init(&q, limit_bytes);
	memset(&arena, 0xAB, sizeof arena);
	CHECK(slab_arena_create(&arena, &q, pre * SS, SS, MAP_PRIVATE) == 0, "arena creation failed");
	long kinds = mc::opt("kinds", 0xff), from = 0;
	for (int t = 0; t < nthreads; t++) {
		std::vector<int> v;
		for (int k = from; k < 8; k++) if (kinds >> k & 1) v.push_back(k);
		T[t].kind = v[mc::choose(v.size(), "kind")];
		from = T[t].kind;             /* threads are interchangeable */
		t_create(&T[t], &arena);
	}
	/* objects the threads own at the start, and slabs waiting in the arena */
	int init = mc::opt("init", 0);
	for (int t = 0; t < nthreads; t++) for (int i = 0; i < init; i++) {
		size_t n;
		bool grow = T[t].kind == IBUF || T[t].kind == OBUF;
		if (t_alloc(&T[t], !grow || i || init == 1, &n)) { int n0 = T[t].n; T[t].n--; relocate(t, true); T[t].n = n0; fresh_obj(t); }
	}
	std::vector<void *> w;
	for (int i = 0; i < mc::opt("cached", 0); i++) { void *p = slab_map(&arena); if (p) w.push_back(p); }
	for (void *p : w) slab_unmap(&arena, p);
	env::mmap_faults = env::malloc_faults = mc::opt("osfail", 0);
	env::on_call = [](const char *c, uintptr_t, size_t) { if (sched::in_thread()) sched::point(c); };
	sched::is_point = is_pt;
	sched::race_checked = raced;
	sched::preemptions = mc::opt("preempt", -1);
	sched::extra_key = key;
	for (long i = 0; i < nthreads; i++) sched::spawn(body, (void *)i);
	sched::run();
	env::mmap_faults = env::malloc_faults = false;
	sample();
	size_t caches = 0;
	int order = mc::choose(2, "destroyed first");
	for (int i = 0; i < nthreads; i++) {
		int t = order ? nthreads - 1 - i : i;
		for (int j = 0; j < T[t].n; j++) touch(&T[t].o[j], false, t);
		/* the allocator gives everything back to its cache */
		while (T[t].n) t_free(&T[t], 0);
		if (T[t].kind == RAW || T[t].kind == BIG || T[t].kind == REGION) CHECK(t_used(&T[t]) == 0, "thread %d's cache has %zu bytes in use with nothing allocated", t, t_used(&T[t]));
		slab_cache_check(&T[t].cache);
		t_destroy(&T[t]);
	}
	CHECK(env::malloced_blocks() == 0, "%zu heap blocks remain", env::malloced_blocks());
	size_t qu = quota_used(&q), slabs = limit_bytes / SS;
	CHECK(qu % SS == 0 && qu <= env::mapped_bytes() && (pre || qu == env::mapped_bytes()), "quota charged %zu with %zu bytes mapped and no user left", qu, env::mapped_bytes());
	std::vector<void *> got;
	void *s;
	while (got.size() <= slabs && (s = slab_map(&arena))) {
		for (void *g : got) CHECK(g != s, "slab %p handed out twice", s);
		got.push_back(s);
	}
	CHECK(got.size() == slabs, "%zu of %zu slabs can be obtained after everything was released", got.size(), slabs);
	for (void *g : got) slab_unmap(&arena, g);
	slab_arena_destroy(&arena);
	CHECK(env::mapped_bytes() == 0, "%zu bytes still mapped after destroying the arena", env::mapped_bytes());
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
