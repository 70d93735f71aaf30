/* C04: linearizability, payload publication and element conservation of the lock-free stack. */
#include <assert.h>
#include <string.h>
#include <sys/mman.h>
#include "mcsched.h"
#include "lf_lifo.h"
extern "C" {
void s_init(struct lf_lifo *h); void s_push(struct lf_lifo *h, void *e);
void *s_pop(struct lf_lifo *h); int s_empty(struct lf_lifo *h);
}
enum { PUSH, POP, EMPTY };
struct St { int n; signed char e[6];
	bool operator<(const St &o) const { if (n != o.n) return n < o.n; for (int i = 0; i < n; i++) if (e[i] != o.e[i]) return e[i] < o.e[i]; return false; } };
struct Op { int k, a; };
static int step(St &s, const Op &o)
{
	switch (o.k) {
	case PUSH: s.e[s.n++] = o.a; return 0;
	case POP: return s.n ? s.e[--s.n] + 1 : 0;
	default: return s.n == 0;
	}
}
static LinMon<St, Op, int> mon;
static struct lf_lifo head;
static char *slab[6];
static int nthreads, nops, nelem;
static bool churned;
struct Th { int own[6], n; };
static Th th[4];
static void *cookie(int e) { return slab[e] + 16; }

static uint64_t key()
{
	uint64_t h = 5 + churned;
	for (auto &c : mon.cfgs) {
		h = mc::mix(h, c.s.n);
		for (int i = 0; i < c.s.n; i++) h = mc::mix(h, c.s.e[i]);
		for (int i = 0; i < nthreads; i++) h = mc::mix(h, c.done[i] ? c.res[i] + 1 : 0);
	}
	for (int i = 0; i < nthreads; i++) {
		h = mc::mix(h, mon.pending[i] ? 1 + mon.ops[i].k * 100 + mon.ops[i].a : 0);
		for (int j = 0; j < th[i].n; j++) h = mc::mix(h, th[i].own[j] + 50);
	}
	return h;
}
static void body(void *arg)
{
	int t = (long)arg;
	int n = t == 0 && mc::opt("ops0", 0) ? mc::opt("ops0", 0) : nops;
	int churn = mc::opt("churn", 0);
	for (int i = 0; i < n; i++) {
		sched::point("op");
		Th &h = th[t];
		int alts = 2 + h.n * (churn && !churned && t > 0 ? 2 : 1);
		int o = sched::ask(alts, "op", false);
		if (o == 0) {
			LOG("t%d pop", t);
			mon.begin(t, Op{POP, 0});
			void *p = s_pop(&head);
			int e = -1;
			for (int j = 0; j < nelem; j++) if (p == slab[j]) e = j;
			CHECK(p == NULL || e >= 0, "pop returned %p, which was never pushed", p);
			LOG("t%d pop -> element %d", t, e);
			CHECK(mon.end(t, e + 1), "thread %d: pop returned %d, which no sequential order of the calls explains (-1 = nothing)", t, e);
			mc::outcome(t * 100 + i * 10 + e);
			if (e >= 0) {
				/* what the pusher wrote must be visible and ordered */
				sched::payload(cookie(e), false);
				long v = *(long *)cookie(e);
				CHECK(v == 1000 + e, "element %d lost its contents: %ld", e, v);
				sched::payload(cookie(e), true);
				*(long *)cookie(e) = -1;
				/* the owner may use the whole element, the link word included */
				sched::payload(slab[e], true);
				*(void **)slab[e] = (void *)(uintptr_t)(slab[(e + 1) % nelem]);
				h.own[h.n++] = e;
			}
		} else if (o == 1) {
			mon.begin(t, Op{EMPTY, 0});
			int r = s_empty(&head);
			LOG("t%d is_empty -> %d", t, r);
			CHECK(mon.end(t, !!r), "thread %d: is_empty returned %d, which no sequential order of the calls explains", t, r);
		} else if (o >= 2 + h.n) {
			/* many undisturbed push/pop pairs of an owned element: moves the modification counter far */
			int e = h.own[o - 2 - h.n];
			churned = true;
			for (int k = 0; k < churn; k++) {
				lf_lifo_push(&head, slab[e]);       /* the uninstrumented copy */
				void *p = lf_lifo_pop(&head);
				if (p != slab[e]) CHECK(p == slab[e], "undisturbed push/pop pair %d returned %p", k, p);
			}
			LOG("t%d pushes and pops element %d %d times", t, e, churn);
		} else {
			int j = o - 2, e = h.own[j];
			memmove(h.own + j, h.own + j + 1, sizeof(int) * (h.n - j - 1));
			h.n--;
			sched::payload(cookie(e), true);
			*(long *)cookie(e) = 1000 + e;
			LOG("t%d push element %d", t, e);
			mon.begin(t, Op{PUSH, e});
			s_push(&head, slab[e]);
			LOG("t%d pushed", t);
			CHECK(mon.end(t, 0), "push not explained by any sequential order");
		}
		sched::op_done(i + 100);
	}
}
static void exec()
{
	sched::reset();
	nthreads = mc::opt("threads", 2); nops = mc::opt("ops", 3); nelem = mc::opt("elems", 2);
	int wrap = mc::opt("wrap", 0);
	if (!slab[0]) {
		char *m = (char *)mmap((void *)0x400000000000, 6 * 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
		for (int i = 0; i < 6; i++) slab[i] = m + i * 65536;
	}
	for (int i = 0; i < nelem; i++) { memset(slab[i], 0, 64); *(long *)cookie(i) = 1000 + i; }
	memset(th, 0, sizeof th);
	churned = false;
	s_init(&head);
	CHECK(s_empty(&head), "fresh stack is not empty");
	if (wrap) {
		/* start with the modification counter just below its wrap-around */
		for (int i = 0; i < 65536 - wrap; i++) { lf_lifo_push(&head, slab[0]); lf_lifo_pop(&head); }
		CHECK(s_empty(&head), "stack not empty after equal pushes and pops");
	}
	St s; memset(&s, 0, sizeof s);
	/* every initial distribution: in the stack (in order) or owned by a thread */
	for (int e = 0; e < nelem; e++) {
		int w = mc::choose(1 + nthreads, "initial place");
		if (w == 0) { s_push(&head, slab[e]); s.e[s.n++] = e; LOG("element %d in the stack", e); }
		else { th[w - 1].own[th[w - 1].n++] = e; LOG("element %d owned by t%d", e, w - 1); }
	}
	mon.init(s, step);
	sched::shared(&head, sizeof head);
	for (int e = 0; e < nelem; e++) sched::shared(slab[e], 64);
	sched::spurious = mc::opt("faults", 0) > 0;
	sched::preemptions = mc::opt("preempt", -1);
	sched::extra_key = key;
	for (long i = 0; i < nthreads; i++) sched::spawn(body, (void *)i);
	sched::run();
	/* conservation: every element is in the stack exactly once or owned */
	int left = 0, cnt[6] = {0};
	for (int t = 0; t < nthreads; t++) for (int j = 0; j < th[t].n; j++) cnt[th[t].own[j]]++;
	bool em = s_empty(&head);
	for (void *p; (p = s_pop(&head)) && left < 10; left++) for (int e = 0; e < nelem; e++) if (p == slab[e]) cnt[e]++;
	CHECK(em == (left == 0), "is_empty was %d with %d elements in the stack", em, left);
	for (int e = 0; e < nelem; e++) CHECK(cnt[e] == 1, "element %d exists %d times after the run", e, cnt[e]);
	CHECK(s_empty(&head) && s_pop(&head) == NULL, "drained stack is not empty");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
