/* C33: threads read views of an indexed block array while its owner goes on changing it. */
#include <string.h>
#include <vector>
#include "mcsched.h"
extern "C" {
#include "matras.h"
void *w_view_get(const struct matras *m, const struct matras_view *v, matras_id_t id);
int w_created(struct matras_view *v);
int w_needs(struct matras *m, matras_id_t id);
void w_post(long *p, long v);
long w_look(long *p);
}
typedef unsigned long W;
static const int SLOTS = 64, MAXE = 64, NV = 4;
static W pool[SLOTS * MAXE / 8] __attribute__((aligned(4096)));
static size_t E, B;
static bool live[SLOTS];
static int nlive, hi, refused;
static bool may_refuse;
static struct matras m;
static struct matras_allocator al;
static struct matras_stats st;
static char *ext(int s) { return (char *)pool + s * E; }
static int slot_of(const void *p) { size_t d = (const char *)p - (char *)pool; return (const char *)p >= (char *)pool && d < SLOTS * E ? (int)(d / E) : -1; }
static void *ext_alloc(struct matras_allocator *)
{
	if (may_refuse && sched::ask(2, "extent", true)) { refused++; LOG("  extent refused"); return NULL; }
	int s = 0; while (live[s]) s++;
	if (s >= SLOTS - 1) mc::fail("internal: extent pool");
	if (s >= hi) hi = s + 1;
	live[s] = true; nlive++;
	for (size_t i = 0; i < E; i += 8) { sched::payload(ext(s) + i, true); *(W *)(ext(s) + i) = 0xCCCCCCCCCCCCCCCCul; }
	return ext(s);
}
static void ext_free(struct matras_allocator *, void *p)
{
	int s = slot_of(p);
	CHECK(s >= 0 && p == ext(s) && live[s], "%p was freed, which is no live extent", p);
	live[s] = false; nlive--;
	LOG("  extent %d freed", s);
	for (size_t i = 0; i < E; i += 8) { sched::payload(ext(s) + i, true); *(W *)(ext(s) + i) = 0xDDDDDDDDDDDDDDDDul; }
}
struct V { struct matras_view v; std::vector<int> c; int used, reader; };      /* reader: thread that reads it, 0 none */
static V vb[NV];
static int nreaders, nreads;
static long done[4], posted;
static std::vector<int> head;
static std::vector<int> order;                  /* views, oldest first */
static W word(int id, int val, size_t i) { return (W)(id + 1) * 0x10001 + (W)val * 0x1000003 + i + 1; }
static void fill(void *p, int id, int val) { for (size_t i = 0; i < B; i += 8) { sched::payload((char *)p + i, true); *(W *)((char *)p + i) = word(id, val, i); } }
static void compare(void *p, int id, int val, const char *who)
{
	int s = slot_of(p);
	CHECK(s >= 0 && live[s] && ((char *)p - ext(s)) % B == 0, "%s: block %d is at %p, not in a live extent", who, id, p);
	for (size_t i = 0; i < B; i += 8) CHECK(*(W *)((char *)p + i) == word(id, val, i), "%s: block %d changed", who, id);
}
static int newval(int id)
{
	for (int v = 0;; v++) {
		bool u = id < (int)head.size() && head[id] == v;
		for (int j : order) u |= id < (int)vb[j].c.size() && vb[j].c[id] == v;
		if (!u) return v;
	}
}
static void check_all()
{
	CHECK(m.head.block_count == head.size(), "%zu blocks, expected %zu", m.head.block_count, head.size());
	for (size_t i = 0; i < head.size(); i++) compare(matras_get(&m, i), i, head[i], "array");
	for (int j : order) for (size_t i = 0; i < vb[j].c.size(); i++) compare(matras_view_get(&m, &vb[j].v, i), i, vb[j].c[i], "view");
	CHECK(matras_extent_count(&m) == st.extent_count && (int)st.extent_count <= nlive, "%u extents, %u in the statistics, %d held", matras_extent_count(&m), st.extent_count, nlive);
}
static bool finished(int t) { return t == 0 || w_look(&done[t]); }
/* One step of the array's owner. */
static void change(bool views_only_new)
{
	size_t per = E / B;
	struct Op { int k, a; };
	std::vector<Op> ops;
	if (head.size() < m.capacity) {
		ops.push_back(Op{0, 1});
		if (per >= 2 && head.size() % 2 == 0) ops.push_back(Op{0, 2});
	}
	if (!head.empty()) {
		ops.push_back(Op{1, 1});
		if (per >= 2 && head.size() % 2 == 0) ops.push_back(Op{1, 2});
		for (size_t i = 0; i < head.size(); i++) ops.push_back(Op{2, (int)i});
	}
	if ((int)order.size() < NV) ops.push_back(Op{3, 0});
	for (int j : order) if (finished(vb[j].reader)) ops.push_back(Op{4, j});
	if (nreaders > 1 && !views_only_new && !posted) for (int j : order) if (!vb[j].reader) ops.push_back(Op{5, j});
	if (mc::opt("reset", 0) && !views_only_new) { bool all = true; for (int j : order) all = all && finished(vb[j].reader); if (all) ops.push_back(Op{6, 0}); }
	Op op = ops[sched::ask(ops.size(), "op", false)];
	switch (op.k) {
	case 0: {
		matras_id_t id = -1;
		void *p = op.a == 1 ? matras_alloc(&m, &id) : matras_alloc_range(&m, &id, op.a);
		LOG("alloc %d -> %d", op.a, p ? (int)id : -1);
		if (!p) { CHECK(refused, "refused although no extent was"); break; }
		CHECK(id == head.size(), "id %u, expected %zu", id, head.size());
		for (int i = 0; i < op.a; i++) { int v = newval(id + i); head.push_back(v); fill((char *)p + i * B, id + i, v); }
		break;
	}
	case 1: {
		bool was = may_refuse;
		may_refuse = false;          /* see the known finding of C22 */
		LOG("dealloc %d", op.a);
		op.a == 1 ? matras_dealloc(&m) : matras_dealloc_range(&m, op.a);
		may_refuse = was;
		head.resize(head.size() - op.a);
		break;
	}
	case 2: {
		void *p = matras_touch(&m, op.a);
		LOG("touch %d -> %p", op.a, p);
		if (!p) { CHECK(refused, "refused although no extent was"); break; }
		compare(p, op.a, head[op.a], "touch");
		head[op.a] = newval(op.a);
		fill(p, op.a, head[op.a]);
		break;
	}
	case 3: {
		int j = 0; while (vb[j].used) j++;
		LOG("create view %d", j);
		memset((void *)&vb[j].v, 0xAB, sizeof vb[j].v);
		matras_create_read_view(&m, &vb[j].v);
		vb[j].used = 1; vb[j].reader = 0; vb[j].c = head;
		order.push_back(j);
		break;
	}
	case 4:
		LOG("destroy view %d", op.a);
		matras_destroy_read_view(&m, &vb[op.a].v);
		vb[op.a].used = 0; vb[op.a].reader = 0; vb[op.a].c.clear();
		for (size_t i = 0; i < order.size(); i++) if (order[i] == op.a) { order.erase(order.begin() + i); break; }
		break;
	case 5:
		LOG("give view %d to another thread", op.a);
		vb[op.a].reader = 2;
		w_post(&posted, op.a + 1);
		break;
	case 6:
		LOG("reset");
		matras_reset(&m);
		for (int j : order) { vb[j].used = vb[j].reader = 0; vb[j].c.clear(); }
		order.clear(); head.clear();
		break;
	}
	check_all();
}
static void reader(int t, int j)
{
	V *v = &vb[j];
	for (int r = 0; r < nreads && !v->c.empty(); r++) {
		sched::point("op");
		CHECK(w_created(&v->v), "a view being read is not marked as created");
		int i = sched::ask(v->c.size(), "block", false);
		void *p = w_view_get(&m, &v->v, i);
		LOG("t%d: block %d of view %d at %p", t, i, j, p);
		int s = slot_of(p);
		CHECK(s >= 0 && live[s], "thread %d: block %d of the view is at %p, not in a live extent", t, i, p);
		for (size_t k = 0; k < B; k += 8) { sched::point("block"); sched::payload((char *)p + k, false); CHECK(*(W *)((char *)p + k) == word(i, v->c[i], k), "thread %d: block %d of the view changed", t, i); }
		sched::op_done(r + 1000);
	}
	w_post(&done[t], 1);
}
static int nops;
static void body(void *arg)
{
	int t = (long)arg;
	if (t == 0) for (int i = 0; i < nops; i++) { sched::point("op"); change(false); sched::op_done(i); }
	else if (t == 1) { int j = 0; for (int k = 0; k < NV; k++) if (vb[k].reader == 1) j = k; reader(1, j); }
	else { int j = -1; for (int tries = 0; tries < 2 && j < 0; tries++) { sched::point("op"); j = w_look(&posted) - 1; sched::op_done(tries * 100 + 500 + j); } if (j >= 0) reader(2, j); else w_post(&done[2], 1); }
	LOG("t%d finished", t);
}
static uint64_t key()
{
	uint64_t k = mc::hash_mem(0, &m, sizeof m);
	for (int j : order) { k = mc::mix(k, j * 8 + vb[j].reader); k = mc::hash_mem(k, &vb[j].v, sizeof vb[j].v); for (int c : vb[j].c) k = mc::mix(k, c); k = mc::mix(k, 77); }
	for (int c : head) k = mc::mix(k, c + 5);
	for (int s = 0; s < hi; s++) { k = mc::mix(k, live[s]); if (live[s]) k = mc::hash_mem(k, ext(s), E); }
	k = mc::hash_mem(k, done, sizeof done);
	return mc::mix(k, posted * 2 + (refused > 0));
}
static bool tracked(uintptr_t a)
{
	return a - (uintptr_t)pool < sizeof pool || a - (uintptr_t)&m < sizeof m || a - (uintptr_t)vb < sizeof vb;
}
static bool in_pool(uintptr_t a) { return a - (uintptr_t)pool < sizeof pool; }
static void exec()
{
	sched::reset();
	static const size_t geo[][2] = {{16, 8}, {32, 16}, {16, 16}, {64, 16}};
	int g = mc::choose(mc::opt("geos", 2), "geometry");
	E = geo[g][0]; B = geo[g][1];
	nops = mc::opt("ops", 2); nreaders = mc::opt("readers", 1); nreads = mc::opt("reads", 1);
	memset(live, 0, sizeof live); nlive = hi = refused = 0; may_refuse = false;
	memset(pool, 0xEE, sizeof pool);
	memset(done, 0, sizeof done); posted = 0;
	head.clear(); order.clear();
	for (V &v : vb) { v.used = v.reader = 0; v.c.clear(); memset((void *)&v.v, 0xAB, sizeof v.v); }
	memset(&m, 0xAB, sizeof m); memset(&al, 0xAB, sizeof al);
	matras_allocator_create(&al, E, ext_alloc, ext_free);
	matras_stats_create(&st);
	matras_create(&m, B, &al, &st);
	/* the state in which the reader starts: any short history with at least one view */
	size_t l1 = E / B, l2 = l1 * (E / 8), nf[] = {1, l1, l1 + 1, l2, l2 + 1, m.capacity};
	size_t n = nf[mc::choose(6, "blocks")];
	if (n > (size_t)mc::opt("blocks", 9) || n > m.capacity) mc::prune();
	LOG("extents of %zu, blocks of %zu, %zu blocks", E, B, n);
	for (size_t i = 0; i < n; i++) { matras_id_t id; void *p = matras_alloc(&m, &id); CHECK(p && id == i, "refused"); head.push_back(0); fill(p, i, 0); }
	int pre = mc::opt("pre", 2);
	for (int i = 0; i < pre; i++) {
		if (mc::fresh()) mc::state(key(), pre - i);
		change(true);
	}
	if (order.empty()) mc::prune();
	vb[order[mc::choose(order.size(), "view to read")]].reader = 1;
	may_refuse = mc::opt("refuse", 0);
	sched::is_point = in_pool;
	sched::race_checked = tracked;
	sched::preemptions = mc::opt("preempt", -1);
	sched::extra_key = key;
	for (long t = 0; t <= nreaders; t++) sched::spawn(body, (void *)t);
	sched::run();
	may_refuse = false;
	check_all();
	mc::outcome(mc::mix(order.size() * 16 + head.size(), refused));
	int rev = mc::choose(3, "teardown");
	if (rev == 2) matras_destroy(&m);
	else {
		while (!order.empty()) {
			int j = rev ? order.back() : order.front();
			matras_destroy_read_view(&m, &vb[j].v);
			vb[j].used = 0;
			order.erase(rev ? order.end() - 1 : order.begin());
			check_all();
		}
		matras_destroy(&m);
	}
	CHECK(nlive == 0 && st.extent_count == 0 && st.read_view_extent_count == 0, "%d extents remain, %u and %u in the statistics", nlive, st.extent_count, st.read_view_extent_count);
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
