/* Deterministic scheduler for code compiled with -fsanitize=thread (own runtime). */
#pragma once
#include "mc.h"
#include <map>
#include <set>

namespace sched {

enum { MAXT = 4 };

void reset();                                  /* start of an execution */
void shared(const void *p, size_t n);          /* accesses here are scheduling points; contents in the state key */
void unshared(const void *p);
void spawn(void (*fn)(void *), void *arg);
extern bool spurious;                          /* weak compare-and-swap may fail spuriously (deviation) */
extern bool (*is_point)(uintptr_t a);           /* further addresses whose plain accesses are scheduling points */
extern bool (*race_checked)(uintptr_t a);       /* words in which every plain access of instrumented code is race-checked */
extern bool quiet;                             /* run library code without scheduling points */
extern int preemptions;                        /* preemption bound, <0 = unbounded */
extern uint64_t (*extra_key)();                /* monitor state */
extern bool accesses_are_points;               /* plain accesses to shared ranges are scheduling points */
/* Run all spawned threads to completion, exploring the schedules. */
void run();
int self();
bool in_thread();
void point(const char *what);                  /* explicit scheduling point */
void op_done(uint64_t local);                  /* thread-local state is now exactly `local` */
void op_mix(uint64_t v);                       /* add to the thread-local history */
void payload(const void *p, bool write);       /* race-checked access of 8 bytes by the harness */
void payload_forget(const void *p, size_t n);  /* memory went away */
void happens(int dummy);
int ask(int n, const char *what, bool env);    /* choice from inside a thread */
extern uint64_t n_points;

} // namespace sched

/* Online linearizability monitor.  S: model state (ordered, copyable).  Op: (kind, args).
 * step(S&, op) returns the result the sequential specification prescribes. */
template <class S, class Op, class R>
struct LinMon {
	struct Cfg {
		S s; int done[sched::MAXT]; R res[sched::MAXT];
		bool operator<(const Cfg &o) const {
			if (s < o.s) return true;
			if (o.s < s) return false;
			for (int i = 0; i < sched::MAXT; i++) {
				if (done[i] != o.done[i]) return done[i] < o.done[i];
				if (done[i]) { if (res[i] < o.res[i]) return true; if (o.res[i] < res[i]) return false; }
			}
			return false;
		}
	};
	std::set<Cfg> cfgs;
	bool pending[sched::MAXT]; Op ops[sched::MAXT];
	R (*step)(S &, const Op &);
	void init(const S &s, R (*f)(S &, const Op &)) {
		cfgs.clear();
		Cfg c; c.s = s;
		for (int i = 0; i < sched::MAXT; i++) { c.done[i] = 0; c.res[i] = R(); pending[i] = false; }
		cfgs.insert(c);
		step = f;
	}
	void close() {
		/* linearize pending operations in every possible way */
		std::vector<Cfg> work(cfgs.begin(), cfgs.end());
		while (!work.empty()) {
			Cfg c = work.back(); work.pop_back();
			for (int t = 0; t < sched::MAXT; t++) if (pending[t] && !c.done[t]) {
				Cfg d = c;
				d.res[t] = step(d.s, ops[t]);
				d.done[t] = 1;
				if (cfgs.insert(d).second) work.push_back(d);
			}
		}
	}
	void begin(int t, const Op &op) { pending[t] = true; ops[t] = op; close(); }
	/* false: no linearization explains the result */
	bool end(int t, const R &r) {
		std::set<Cfg> n;
		for (auto &c : cfgs) if (c.done[t] && !(c.res[t] < r) && !(r < c.res[t])) {
			Cfg d = c; d.done[t] = 0; d.res[t] = R();
			n.insert(d);
		}
		pending[t] = false;
		cfgs.swap(n);
		return !cfgs.empty();
	}
};
