/* C01: linearizability of concurrent quota_use / quota_release / quota_set / reads. */
#include <assert.h>
#include <sys/types.h>
#include <string.h>
#include "mcsched.h"
#include "quota.h"
extern "C" {
ssize_t i_use(struct quota *q, size_t n);
ssize_t i_release(struct quota *q, size_t n);
ssize_t i_set(struct quota *q, size_t n);
void i_get(struct quota *q, size_t *t, size_t *u);
size_t i_used(struct quota *q);
size_t i_total(struct quota *q);
void i_init(struct quota *q, size_t n);
}
enum { USE, REL, SET, GET, USED, TOTAL };
struct St { long total, used; bool operator<(const St &o) const { return total != o.total ? total < o.total : used < o.used; } };
struct Op { int k; long a; };
struct Res { long r, x; bool operator<(const Res &o) const { return r != o.r ? r < o.r : x < o.x; } };
static const long U = QUOTA_UNIT_SIZE;
static Res step(St &s, const Op &o)
{
	long u = (o.a + U - 1) / U;
	switch (o.k) {
	case USE: if (s.used + u > s.total) return Res{-1, 0}; s.used += u; return Res{u * U, 0};
	case REL: s.used -= u; return Res{u * U, 0};
	case SET: if (u < s.used) return Res{-1, 0}; s.total = u; return Res{u * U, 0};
	case GET: return Res{s.total * U, s.used * U};
	case USED: return Res{s.used * U, 0};
	default: return Res{s.total * U, 0};
	}
}
static LinMon<St, Op, Res> mon;
static struct quota q;
static int nthreads, nops, alpha;
static long sz[2], lim[3];
struct Th { int id; int ops[4]; long held[4]; };
static Th th[4];
static const char *opname[] = {"use(s0)", "use(s1)", "release last", "set(l0)", "set(l1)", "set(l2)", "get both", "read used", "read total"};

static uint64_t key()
{
	uint64_t h = 5;
	for (auto &c : mon.cfgs) {
		h = mc::mix(h, c.s.total * 1000 + c.s.used);
		for (int i = 0; i < nthreads; i++) h = mc::mix(h, c.done[i] ? c.res[i].r * 7 + c.res[i].x + 1 : 0);
	}
	for (int i = 0; i < nthreads; i++) h = mc::mix(h, mon.pending[i] ? 1 + mon.ops[i].k * 100000 + mon.ops[i].a : 0);
	return h;
}
static void body(void *arg)
{
	Th *t = (Th *)arg;
	int nh = 0;
	for (int i = 0; i < nops; i++) {
		Op o;
		sched::point("op");
		/* the next operation is chosen lazily, so that states merge across programs */
		t->ops[i] = sched::ask(alpha, "operation", false);
		switch (t->ops[i]) {
		case 0: o = Op{USE, sz[0]}; break;
		case 1: o = Op{USE, sz[1]}; break;
		case 2: if (nh == 0) { sched::op_done(i * 10); continue; } o = Op{REL, t->held[--nh]}; break;
		case 3: o = Op{SET, lim[0]}; break;
		case 4: o = Op{SET, lim[1]}; break;
		case 5: o = Op{SET, lim[2]}; break;
		case 6: o = Op{GET, 0}; break;
		case 7: o = Op{USED, 0}; break;
		default: o = Op{TOTAL, 0}; break;
		}
		LOG("t%d calls %s", t->id, opname[t->ops[i]]);
		mon.begin(t->id, o);
		Res r = {0, 0};
		size_t a, b;
		switch (o.k) {
		case USE: r.r = i_use(&q, o.a); if (r.r > 0) t->held[nh++] = r.r; break;
		case REL: r.r = i_release(&q, o.a); break;
		case SET: r.r = i_set(&q, o.a); break;
		case GET: i_get(&q, &a, &b); r.r = a; r.x = b; break;
		case USED: r.r = i_used(&q); break;
		default: r.r = i_total(&q);
		}
		LOG("t%d: %s -> %ld %ld", t->id, opname[t->ops[i]], r.r, r.x);
		size_t tt = q.value >> 32, uu = (uint32_t)q.value;
		CHECK(uu <= tt, "consumption %zu units above the limit %zu", uu, tt);
		CHECK(mon.end(t->id, r), "thread %d: %s(%ld) returned %ld/%ld, which no sequential order of the calls explains",
		      t->id, opname[t->ops[i]], o.a, r.r, r.x);
		uint64_t h = i * 10;
		for (int j = 0; j < nh; j++) h = mc::mix(h, t->held[j]);
		mc::outcome(mc::mix(mc::mix(t->id * 100 + i, r.r), r.x));
		sched::op_done(h);
	}
	long sum = 0;
	for (int j = 0; j < nh; j++) sum += t->held[j];
	t->held[3] = sum;
}
static void exec()
{
	sched::reset();
	nthreads = mc::opt("threads", 2);
	nops = mc::opt("ops", 2);
	alpha = mc::opt("alpha", 9);
	long base = mc::opt("base", 0);           /* units already in use, limit near it */
	sz[0] = 1; sz[1] = 2 * U;
	i_init(&q, (base + 2) * U);
	long used0 = base;
	if (base) i_use(&q, base * U);
	lim[0] = (base + 1) * U; lim[1] = (base + 2) * U - 5; lim[2] = (base + 3) * U;
	memset(th, 0, sizeof th);
	for (int t = 0; t < nthreads; t++) th[t].id = t;
	mon.init(St{base + 2, used0}, step);
	sched::shared(&q, sizeof q);
	sched::spurious = mc::opt("faults", 0) > 0;
	sched::extra_key = key;
	for (int t = 0; t < nthreads; t++) sched::spawn(body, &th[t]);
	sched::run();
	/* quiescent: consumption equals what is held */
	long sum = base * U;
	for (int t = 0; t < nthreads; t++) sum += th[t].held[3];
	CHECK((long)i_used(&q) == sum, "after all threads finished consumption is %zu, granted minus released is %ld", i_used(&q), sum);
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
