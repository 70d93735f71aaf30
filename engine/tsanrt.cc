/* Our own runtime behind -fsanitize=thread instrumentation: a cooperative scheduler plus a
 * vector-clock monitor for payload accesses. */
#include "mcsched.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/mman.h>
#include <vector>
#include <map>

namespace mc { extern int (*redirect)(int n, const char *what, bool env); }

namespace sched {

typedef uint32_t VC[MAXT];
static const size_t STK = 256 * 1024;

struct Fiber {
	void *sp; char *stack; bool done; uint64_t lhash;
	void (*fn)(void *); void *arg;
	VC vc, relf, acqp; bool has_relf;
	std::vector<char> tls;
};
static std::vector<char> main_tls;
static Fiber F[MAXT]; static int nf;
static int cur = -1;                         /* running fiber, -1: scheduler */
static void *main_sp;
struct Range { uintptr_t a; size_t n; };
static std::vector<Range> ranges;
struct Sync { uintptr_t a; VC vc; };
static std::vector<Sync> syncs;
struct Pay { uintptr_t a; int wt; uint32_t wc; VC rd, ar, aw; bool at; };     /* plain write, plain reads, atomic reads and writes */
static std::vector<Pay> pays;
bool spurious; int preemptions = -1; uint64_t (*extra_key)(); bool accesses_are_points = true;
uint64_t n_points;
static int steps;
bool quiet;
bool (*is_point)(uintptr_t a);
bool (*race_checked)(uintptr_t a);
static int req_n; static const char *req_what; static bool req_env; static int req_ans;

extern "C" void mc_switch(void **save, void *load);
asm(".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

static void to_main()
{
	int me = cur;
	cur = -1;
	mc_switch(&F[me].sp, main_sp);
	cur = me;
}

static void entry()
{
	Fiber *f = &F[cur];
	f->fn(f->arg);
	F[cur].done = true;
	for (;;) to_main();
}

int self() { return cur; }
bool in_thread() { return cur >= 0; }

static int redirect_choice(int n, const char *what, bool env) { return ask(n, what, env); }

void reset()
{
	nf = 0; cur = -1; steps = 0;
	ranges.clear(); syncs.clear(); pays.clear();
	spurious = false; preemptions = -1; extra_key = NULL; quiet = false; is_point = NULL; race_checked = NULL; accesses_are_points = true;
	mc::redirect = NULL;
}
void shared(const void *p, size_t n) { ranges.push_back(Range{(uintptr_t)p, n}); }
void unshared(const void *p)
{
	for (size_t i = 0; i < ranges.size(); i++) if (ranges[i].a == (uintptr_t)p) { ranges.erase(ranges.begin() + i); return; }
}

void spawn(void (*fn)(void *), void *arg)
{
	Fiber &f = F[nf];
	if (!f.stack) {
		f.stack = (char *)mmap((void *)(0x300000000000ull + nf * 0x10000000ull), STK, PROT_READ | PROT_WRITE,
				       MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
		if (f.stack == MAP_FAILED) { perror("stack"); abort(); }
	}
	f.done = false; f.fn = fn; f.arg = arg; f.lhash = 0x51 + nf;
	memset(f.vc, 0, sizeof f.vc); memset(f.relf, 0, sizeof f.relf); memset(f.acqp, 0, sizeof f.acqp);
	f.has_relf = false;
	f.vc[nf] = 1;
	f.tls = mc::tls_image;
	void **s = (void **)(f.stack + STK - 64);
	*--s = 0;                       /* alignment: at entry rsp % 16 == 8 */
	*--s = (void *)entry;
	for (int i = 0; i < 6; i++) *--s = 0;
	f.sp = s;
	nf++;
}

int ask(int n, const char *what, bool env)
{
	if (cur < 0) return env ? mc::choose_env(n, what) : mc::choose(n, what);
	req_n = n; req_what = what; req_env = env;
	to_main();
	F[cur].lhash = mc::mix(F[cur].lhash, req_ans + 1000);
	return req_ans;
}

static uint64_t hb_hash(uint64_t h)
{
	for (auto &p : pays) {
		h = mc::mix(h, p.a);
		for (int t = 0; t < nf; t++) {
			uint64_t bits = 0;
			if (p.wt >= 0 && F[t].vc[p.wt] >= p.wc) bits |= 1;
			for (int u = 0; u < nf; u++) if (p.rd[u] && F[t].vc[u] >= p.rd[u]) bits |= 2 << u;
			for (int u = 0; u < nf; u++) if (p.rd[u]) bits |= 64 << u;
			h = mc::mix(h, bits * 8 + t);
		}
		uint64_t b2 = p.wt + 5;
		for (auto &s : syncs) {
			b2 = b2 * 2 + (p.wt >= 0 && s.vc[p.wt] >= p.wc);
			for (int u = 0; u < nf; u++) b2 = b2 * 2 + (p.rd[u] && s.vc[u] >= p.rd[u]);
			b2 = mc::mix(b2, s.a);
		}
		h = mc::mix(h, b2);
		if (p.at) {
			for (int u = 0; u < nf; u++) {
				uint64_t b3 = 1;
				for (int t = 0; t < nf; t++) b3 = b3 * 4 + (F[t].vc[u] >= p.ar[u]) * 2 + (F[t].vc[u] >= p.aw[u]);
				for (auto &s : syncs) b3 = mc::mix(b3, s.a * 4 + (s.vc[u] >= p.ar[u]) * 2 + (s.vc[u] >= p.aw[u]));
				h = mc::mix(h, b3 * 4 + (p.ar[u] != 0) * 2 + (p.aw[u] != 0));
			}
		}
	}
	return h;
}

void run()
{
	int last = -1, npre = 0;
	int tls_owner = -1;
	auto swap_tls = [&](int t) {
		if (mc::tls == NULL || t == tls_owner) return;
		memcpy(tls_owner < 0 ? main_tls.data() : F[tls_owner].tls.data(), mc::tls, mc::tls_size);
		memcpy(mc::tls, t < 0 ? main_tls.data() : F[t].tls.data(), mc::tls_size);
		tls_owner = t;
	};
	main_tls.resize(mc::tls_size);
	for (;;) {
		int en[MAXT], ne = 0;
		if (last >= 0 && !F[last].done) en[ne++] = last;
		for (int t = 0; t < nf; t++) if (!F[t].done && t != last) en[ne++] = t;
		if (ne == 0) { swap_tls(-1); break; }
		int c = 0;
		{
			uint64_t h = 0x77;
			for (auto &r : ranges) h = mc::hash_mem(mc::mix(h, r.a), (void *)r.a, r.n);
			for (int t = 0; t < nf; t++) h = mc::mix(h, F[t].done ? 3 : F[t].lhash);
			h = hb_hash(h);
			if (extra_key) h = mc::mix(h, extra_key());
			if (preemptions >= 0) h = mc::mix(h, (last + 1) * 100 + npre);
			if (mc::seen(h, 0)) mc::prune();
			bool running = last >= 0 && !F[last].done;
			if (ne == 1 || (preemptions >= 0 && running && npre >= preemptions)) c = 0;
			else {
				c = mc::choose(ne, "schedule");
				if (running && c) npre++;
			}
		}
		int t = en[c];
		swap_tls(t);
		if (mc::logging && t != last) mc::log_("-- thread %d runs", t);
		last = t;
		for (;;) {
			cur = t;
			req_n = 0;
			mc::redirect = redirect_choice;
			mc_switch(&main_sp, F[t].sp);
			mc::redirect = NULL;
			cur = -1;
			if (req_n == 0) break;
			int n = req_n;
			req_n = 0;
			req_ans = req_env ? mc::choose_env(n, req_what) : mc::choose(n, req_what);
		}
	}
	mc::redirect = NULL;
}

static inline bool on_stack(uintptr_t a);
static inline bool on_stack(uintptr_t a)
{
	return a >= 0x300000000000ull && a < 0x300000000000ull + MAXT * 0x10000000ull;
}
static inline bool is_shared(uintptr_t a)
{
	for (auto &r : ranges) if (a - r.a < r.n) return true;
	return false;
}

void point(const char *what)
{
	if (cur < 0 || quiet) return;
	if (++steps > 20000) mc::fail("no progress: more than 20000 steps in one execution at %s", what);
	n_points++;
	int others = 0;
	for (int t = 0; t < nf; t++) if (t != cur && !F[t].done) others = 1;
	F[cur].lhash = mc::mix(F[cur].lhash, 0x9999);
	if (others || what[0] == 'o') to_main();   /* "op...": always a state check */
}
void op_done(uint64_t local) { if (cur >= 0) F[cur].lhash = mc::mix(local, 0xABC); }
void op_mix(uint64_t v) { if (cur >= 0) F[cur].lhash = mc::mix(F[cur].lhash, v); }

static Pay *pay(uintptr_t a, bool create)
{
	size_t i = 0, e = pays.size();
	while (i < e) { size_t m = (i + e) / 2; if (pays[m].a < a) i = m + 1; else e = m; }
	if (i < pays.size() && pays[i].a == a) return &pays[i];
	if (!create) return NULL;
	Pay p; p.a = a; p.wt = -1; p.wc = 0; p.at = false; memset(p.rd, 0, sizeof p.rd); memset(p.ar, 0, sizeof p.ar); memset(p.aw, 0, sizeof p.aw);
	pays.insert(pays.begin() + i, p);
	return &pays[i];
}
static void pay_access(Pay *p, bool write, const char *who)
{
	Fiber &f = F[cur];
	if (p->wt >= 0 && p->wt != cur && f.vc[p->wt] < p->wc)
		mc::fail("data race: thread %d %s %#lx, not ordered after the write by thread %d", cur, who, (unsigned long)p->a, p->wt);
	if (p->at) for (int u = 0; u < nf; u++) {
		if (u != cur && p->aw[u] && f.vc[u] < p->aw[u])
			mc::fail("data race: thread %d %s %#lx, not ordered after the atomic write by thread %d", cur, who, (unsigned long)p->a, u);
		if (write && u != cur && p->ar[u] && f.vc[u] < p->ar[u])
			mc::fail("data race: thread %d %s %#lx, not ordered after the atomic read by thread %d", cur, who, (unsigned long)p->a, u);
	}
	if (write) {
		for (int u = 0; u < nf; u++) if (u != cur && p->rd[u] && f.vc[u] < p->rd[u])
			mc::fail("data race: thread %d %s %#lx, not ordered after the read by thread %d", cur, who, (unsigned long)p->a, u);
		p->wt = cur; p->wc = f.vc[cur];
		memset(p->rd, 0, sizeof p->rd);
		if (p->at) { p->at = false; memset(p->ar, 0, sizeof p->ar); memset(p->aw, 0, sizeof p->aw); }
	} else p->rd[cur] = f.vc[cur];
}
/* An atomic access to a word whose plain accesses are checked. */
static void pay_atomic(uintptr_t a, bool write)
{
	if (cur < 0 || quiet || !race_checked || on_stack(a) || !race_checked(a & ~7ull)) return;
	Pay *p = pay(a & ~7ull, true);
	Fiber &f = F[cur];
	if (p->wt >= 0 && p->wt != cur && f.vc[p->wt] < p->wc)
		mc::fail("data race: thread %d accesses %#lx atomically, not ordered after the plain write by thread %d", cur, (unsigned long)a, p->wt);
	if (write) for (int u = 0; u < nf; u++) if (u != cur && p->rd[u] && f.vc[u] < p->rd[u])
		mc::fail("data race: thread %d writes %#lx atomically, not ordered after the plain read by thread %d", cur, (unsigned long)a, u);
	p->at = true;
	(write ? p->aw : p->ar)[cur] = f.vc[cur];
}
void payload(const void *p, bool write)
{
	if (cur < 0) return;
	pay_access(pay((uintptr_t)p, true), write, write ? "writes" : "reads");
}
void payload_forget(const void *p, size_t n)
{
	for (size_t i = 0; i < pays.size();) {
		if (pays[i].a - (uintptr_t)p < n) pays.erase(pays.begin() + i);
		else i++;
	}
}

static void plain(void *ptr, int size, bool write)
{
	uintptr_t a = (uintptr_t)ptr;
	if (cur < 0 || quiet || on_stack(a)) return;
	bool sh = is_shared(a) || (is_point && is_point(a));
	if (sh && accesses_are_points) {
		if (mc::logging) mc::log_("   t%d %s %#lx", cur, write ? "store" : "load", (unsigned long)a);
		point("access");
	}
	if (!write) {
		uint64_t v = 0;
		memcpy(&v, ptr, size > 8 ? 8 : size);
		F[cur].lhash = mc::mix(F[cur].lhash, v + a);
	} else if (!race_checked && !pays.empty()) {
		Pay *p = pay(a & ~7ull, false);
		if (p) pay_access(p, true, "(library) writes");
	}
	if (race_checked) for (uintptr_t w = a & ~7ull; w < a + size; w += 8)
		if (race_checked(w)) pay_access(pay(w, true), write, write ? "(library) writes" : "(library) reads");
}

/* A block operation of the library: checked against the words already tracked. */
static void block(uintptr_t a, size_t n, bool write)
{
	if (cur < 0 || quiet || pays.empty() || on_stack(a)) return;
	size_t i = 0, e = pays.size();
	while (i < e) { size_t m = (i + e) / 2; if (pays[m].a < (a & ~7ull)) i = m + 1; else e = m; }
	for (; i < pays.size() && pays[i].a < a + n; i++) pay_access(&pays[i], write, write ? "(library) overwrites" : "(library) copies from");
}

static Sync *sync_of(uintptr_t a, bool create)
{
	for (auto &s : syncs) if (s.a == a) return &s;
	if (!create) return NULL;
	Sync s; s.a = a; memset(s.vc, 0, sizeof s.vc);
	syncs.push_back(s);
	return &syncs.back();
}
static void join(VC d, const VC s) { for (int i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }
/* memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst */
static void acq(uintptr_t a, int mo)
{
	Sync *s = sync_of(a, false);
	if (!s) return;
	if (mo == 1 || mo == 2 || mo == 4 || mo == 5) join(F[cur].vc, s->vc);
	else join(F[cur].acqp, s->vc);
}
static void rel(uintptr_t a, int mo, bool rmw)
{
	Sync *s = sync_of(a, true);
	Fiber &f = F[cur];
	if (!rmw) memset(s->vc, 0, sizeof s->vc);
	if (mo == 3 || mo == 4 || mo == 5) { join(s->vc, f.vc); f.vc[cur]++; }
	else if (f.has_relf) join(s->vc, f.relf);
}
static void before_atomic(uintptr_t a, const char *what)
{
	if (cur < 0 || on_stack(a)) return;
	if (mc::logging && !quiet) mc::log_("   t%d %s %#lx", cur, what, (unsigned long)a);
	point(what);
}

template <class T> static T a_load(volatile T *p, int mo)
{
	before_atomic((uintptr_t)p, "atomic load");
	T v = *p;
	if (cur >= 0) { acq((uintptr_t)p, mo); pay_atomic((uintptr_t)p, false); F[cur].lhash = mc::mix(F[cur].lhash, (uint64_t)v + (uintptr_t)p); }
	return v;
}
template <class T> static void a_store(volatile T *p, T v, int mo)
{
	before_atomic((uintptr_t)p, "atomic store");
	*p = v;
	if (cur >= 0) { pay_atomic((uintptr_t)p, true); rel((uintptr_t)p, mo, false); }
}
template <class T, class Fn> static T a_rmw(volatile T *p, int mo, Fn fn)
{
	before_atomic((uintptr_t)p, "atomic rmw");
	T v = *p;
	*p = fn(v);
	if (cur >= 0) {
		acq((uintptr_t)p, mo); pay_atomic((uintptr_t)p, true); rel((uintptr_t)p, mo, true);
		F[cur].lhash = mc::mix(F[cur].lhash, (uint64_t)v + (uintptr_t)p);
	}
	return v;
}
template <class T> static int a_cas(volatile T *p, T *e, T d, int mo, int fmo, bool weak)
{
	before_atomic((uintptr_t)p, "atomic cas");
	T v = *p;
	bool ok = v == *e;
	if (ok && weak && cur >= 0 && spurious && mc::env_left() > 0) {
		if (ask(2, "spurious compare-and-swap failure", true)) ok = false;
	}
	if (cur >= 0) F[cur].lhash = mc::mix(F[cur].lhash, (uint64_t)v * 2 + ok + (uintptr_t)p);
	if (ok) {
		*p = d;
		if (cur >= 0) { acq((uintptr_t)p, mo); pay_atomic((uintptr_t)p, true); rel((uintptr_t)p, mo, true); }
		return 1;
	}
	*e = v;
	if (cur >= 0) { acq((uintptr_t)p, fmo); pay_atomic((uintptr_t)p, false); }
	return 0;
}

} // namespace sched
using namespace sched;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void *p) { plain(p, n, false); } \
void __tsan_write##n(void *p) { plain(p, n, true); } \
void __tsan_unaligned_read##n(void *p) { plain(p, n, false); } \
void __tsan_unaligned_write##n(void *p) { plain(p, n, true); } \
void __tsan_volatile_read##n(void *p) { plain(p, n, false); } \
void __tsan_volatile_write##n(void *p) { plain(p, n, true); } \
void __tsan_read##n##_pc(void *p, void *) { plain(p, n, false); } \
void __tsan_write##n##_pc(void *p, void *) { plain(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { plain(p, n > 8 ? 8 : n, false); }
void __tsan_write_range(void *p, size_t n) { plain(p, n > 8 ? 8 : n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void *mc_memcpy(void *d, const void *s, size_t n) { block((uintptr_t)s, n, false); block((uintptr_t)d, n, true); return memcpy(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { block((uintptr_t)s, n, false); block((uintptr_t)d, n, true); return memmove(d, s, n); }
void *mc_memset(void *d, int c, size_t n) { block((uintptr_t)d, n, true); return memset(d, c, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void __tsan_atomic_thread_fence(int mo)
{
	if (cur < 0) return;
	Fiber &f = F[cur];
	if (mo == 2 || mo == 4 || mo == 5 || mo == 1) join(f.vc, f.acqp);
	if (mo == 3 || mo == 4 || mo == 5) { memcpy(f.relf, f.vc, sizeof f.relf); f.has_relf = true; f.vc[cur]++; }
}
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T *p, int mo) { return a_load((volatile T *)p, mo); } \
void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { a_store(p, v, mo); } \
T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) { return a_rmw(p, mo, [&](T) { return v; }); } \
T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o + v); }); } \
T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o - v); }); } \
T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o & v); }); } \
T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o | v); }); } \
T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o ^ v); }); } \
T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)~(o & v); }); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T d, int mo, int fmo) { return a_cas(p, e, d, mo, fmo, false); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T d, int mo, int fmo) { return a_cas(p, e, d, mo, fmo, true); } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T d, int mo, int fmo) { a_cas(p, &e, d, mo, fmo, false); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
