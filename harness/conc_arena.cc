/* C05: threads sharing an arena: exclusive, aligned, owned, ordered, within quota, justified refusals, reuse. */
#include <assert.h>
#include <string.h>
#include "mcsched.h"
#include "env.h"
#include "quota.h"
#include "slab_arena.h"
static struct quota q;
static struct slab_arena arena;
static int nthreads, nops;
static size_t SS, limit_slabs, pre_slabs;
struct Th { void *own[6]; int n; bool pend_map, pend_unmap; long minq; long maxlow; bool osfail; int opno; };
static Th th[4];
static std::vector<void *> freed;           /* returned to the arena, not handed out since */
static std::vector<void *> everpre;         /* preallocated slabs ever handed out */
static bool any_osfail;

static int owned() { int s = 0; for (int i = 0; i < nthreads; i++) s += th[i].n; return s; }
static void sample()
{
	long fr = (long)((q.value >> 32) - (uint32_t)q.value) * QUOTA_UNIT_SIZE;
	CHECK((uint32_t)q.value <= (q.value >> 32), "quota over-committed");
	CHECK(owned() <= (int)limit_slabs, "%d slabs in use, the quota allows %zu", owned(), limit_slabs);
	int pm = 0;
	for (int i = 0; i < nthreads; i++) pm += th[i].pend_map;
	for (int i = 0; i < nthreads; i++) if (th[i].pend_map) {
		if (fr < th[i].minq) th[i].minq = fr;
		long low = (long)freed.size() - (pm - 1);
		if (low < th[i].maxlow) th[i].maxlow = low;
	}
}
static uint64_t key()
{
	sample();
	uint64_t h = any_osfail;
	for (auto &m : env::maps()) {
		h = mc::mix(mc::mix(h, m.a), m.n);
		for (uintptr_t a = m.a; a + SS <= m.a + m.n; a += SS) {
			h = mc::mix(h, *(uint64_t *)a);
			h = mc::mix(h, *(uint64_t *)(a + SS / 2));
			h = mc::mix(h, *(uint64_t *)(a + SS - 8));
		}
	}
	for (int i = 0; i < nthreads; i++) {
		Th &t = th[i];
		h = mc::mix(h, t.n * 64 + t.pend_map * 4 + t.pend_unmap * 2 + t.osfail);
		if (t.pend_map) { h = mc::mix(h, t.minq < (long)SS); h = mc::mix(h, t.maxlow > 0); }
		for (int j = 0; j < t.n; j++) h = mc::mix(h, (uint64_t)t.own[j]);
	}
	for (void *p : freed) h = mc::mix(h, (uint64_t)p);
	for (void *p : everpre) h = mc::mix(h, (uint64_t)p);
	return h;
}
static bool is_pt(uintptr_t a)
{
	if (a < 0x200000000000ull || a >= 0x280000000000ull) return false;
	return (a & (SS - 1)) < 16;
}
static void osfail() { if (sched::self() >= 0) th[sched::self()].osfail = true; any_osfail = true; }
static void touch(void *p, long tag, bool write)
{
	static const size_t off[3] = {0, 0, 0};
	size_t o[3] = {0, SS / 2, SS - 8};
	for (int i = 0; i < 3; i++) {
		long *w = (long *)((char *)p + o[i]);
		sched::payload(w, write);
		if (write) *w = tag + i;
		else CHECK(*w == tag + i, "slab %p was overwritten while in use: word %d is %ld, expected %ld", p, i, *w, tag + i);
	}
	(void)off;
}
static void forget(std::vector<void *> &v, void *p) { for (size_t i = 0; i < v.size(); i++) if (v[i] == p) { v.erase(v.begin() + i); return; } }
static void body(void *arg)
{
	int t = (long)arg;
	Th &h = th[t];
	int n = t == 0 && mc::opt("ops0", 0) ? mc::opt("ops0", 0) : nops;
	for (int i = 0; i < n; i++) {
		sched::point("op");
		int o = sched::ask(1 + h.n, "op", false);
		if (o == 0) {
			h.pend_map = true; h.osfail = false; h.minq = 1l << 60; h.maxlow = 1000;
			sample();
			LOG("t%d slab_map", t);
			void *p = slab_map(&arena);
			sample();
			h.pend_map = false;
			LOG("t%d slab_map -> %p", t, p);
			mc::outcome(((uintptr_t)p >> 12) * 8 + t);
			if (p == NULL) {
				CHECK(h.maxlow <= 0, "thread %d: slab_map failed although a returned slab was available during the whole call", t);
				CHECK(h.minq < (long)SS || h.osfail, "thread %d: slab_map failed although the quota always had room and the system did not refuse", t);
				if (h.minq >= (long)SS) {
					int pm = 0;
					for (int k = 0; k < nthreads; k++) pm += th[k].pend_map;
					CHECK(everpre.size() + pm >= pre_slabs, "thread %d: slab_map failed with preallocated memory left", t);
				}
			} else {
				CHECK(((uintptr_t)p & (SS - 1)) == 0, "slab %p is not aligned to %zu", p, SS);
				CHECK(env::is_mapped(p, SS), "slab %p is not memory the arena obtained", p);
				for (int k = 0; k < nthreads; k++) for (int j = 0; j < th[k].n; j++)
					CHECK(th[k].own[j] != p, "slab %p handed to thread %d while thread %d uses it", p, t, k);
				forget(freed, p);
				if (arena.arena && (char *)p >= (char *)arena.arena && (char *)p < (char *)arena.arena + pre_slabs * SS) {
					forget(everpre, p);
					size_t x = 0;
					while (x < everpre.size() && everpre[x] < p) x++;
					everpre.insert(everpre.begin() + x, p);
				}
				h.own[h.n++] = p;
				touch(p, (long)(uintptr_t)p + 100 * t, true);
			}
		} else {
			void *p = h.own[o - 1];
			touch(p, (long)(uintptr_t)p + 100 * t, false);
			memmove(h.own + o - 1, h.own + o, sizeof(void *) * (h.n - o));
			h.n--;
			h.pend_unmap = true;
			LOG("t%d slab_unmap %p", t, p);
			slab_unmap(&arena, p);
			h.pend_unmap = false;
			/* it may have been taken again already */
			bool taken = false;
			for (int k = 0; k < nthreads; k++) for (int j = 0; j < th[k].n; j++) if (th[k].own[j] == p) taken = true;
			if (!taken) { size_t x = 0; while (x < freed.size() && freed[x] < p) x++; freed.insert(freed.begin() + x, p); }
			LOG("t%d slab_unmap done", t);
		}
		sched::op_done(i + 100);
	}
}
static void exec()
{
	env::reset();
	sched::reset();
	nthreads = mc::opt("threads", 2); nops = mc::opt("ops", 2);
	limit_slabs = mc::opt("limit", 2);
	int pre = mc::opt("pre", 1);
	SS = mc::opt("ss", 65536);
	env::place_align = SS; env::first_place = mc::opt("place", 0);
	memset(th, 0, sizeof th);
	freed.clear(); everpre.clear(); any_osfail = false;
	quota_init(&q, limit_slabs * SS + mc::opt("extra", 0));
	memset(&arena, 0xAB, sizeof arena);
	CHECK(slab_arena_create(&arena, &q, pre * SS, SS, MAP_PRIVATE) == 0, "arena creation failed");
	pre_slabs = pre < (int)limit_slabs ? pre : limit_slabs;
	/* slabs already in the cache at the start (LIFO order), or owned by thread 0 */
	int init = mc::opt("init", 0);
	int cached = 0;
	std::vector<void *> v;
	for (int i = 0; i < init; i++) { void *p = slab_map(&arena); CHECK(p, "initial slab_map failed"); v.push_back(p);
		if (arena.arena && (char *)p >= (char *)arena.arena && (char *)p < (char *)arena.arena + pre_slabs * SS) everpre.push_back(p); }
	for (void *p : v) {
		if (mc::choose(2, "initial slab cached/owned") == 0) { slab_unmap(&arena, p); freed.push_back(p); cached++; }
		else { th[0].own[th[0].n++] = p; for (int i = 0; i < 3; i++) *(long *)((char *)p + (i == 0 ? 0 : i == 1 ? SS / 2 : SS - 8)) = (long)(uintptr_t)p + i; }
	}
	env::mmap_faults = mc::opt("mmapfail", 0);
	env::on_mmap_fail = osfail;
	env::on_call = [](const char *w, uintptr_t, size_t) { if (sched::in_thread()) sched::point(w); };
	sched::shared(&arena, sizeof arena);
	sched::shared(&q, sizeof q);
	sched::is_point = is_pt;
	sched::spurious = mc::opt("spurious", 0);
	sched::preemptions = mc::opt("preempt", -1);
	sched::extra_key = key;
	for (long i = 0; i < nthreads; i++) sched::spawn(body, (void *)i);
	sched::run();
	env::mmap_faults = false;
	/* quiescent: no slab was lost; everything up to the limit is obtainable and distinct */
	std::vector<void *> got;
	for (int i = 0; i < nthreads; i++) for (int j = 0; j < th[i].n; j++) got.push_back(th[i].own[j]);
	size_t before = quota_used(&q);
	CHECK(before <= limit_slabs * SS + mc::opt("extra", 0) && before % SS == 0, "quota consumption is %zu", before);
	for (;;) {
		void *p = slab_map(&arena);
		if (!p) break;
		for (void *o : got) CHECK(o != p, "slab %p handed out twice", p);
		CHECK(env::is_mapped(p, SS) && ((uintptr_t)p & (SS - 1)) == 0, "bad slab %p", p);
		got.push_back(p);
		CHECK(got.size() <= limit_slabs, "more slabs than the quota allows");
	}
	CHECK(got.size() == limit_slabs, "only %zu of %zu slabs can be obtained after all threads finished", got.size(), limit_slabs);
	CHECK(quota_used(&q) == limit_slabs * SS, "quota consumption %zu with %zu slabs", quota_used(&q), limit_slabs);
	for (void *p : got) slab_unmap(&arena, p);
	slab_arena_destroy(&arena);
	CHECK(env::mapped_bytes() == 0, "%zu bytes still mapped after destroying the arena", env::mapped_bytes());
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
