/* C03 (schedules): lessors of different threads sharing one quota. */
#include <assert.h>
#include <sys/types.h>
#include <string.h>
#include "mcsched.h"
#include "quota.h"
#include "quota_lessor.h"
extern "C" {
size_t i_used(struct quota *q); size_t i_total(struct quota *q); void i_init(struct quota *q, size_t n);
ssize_t i_use(struct quota *q, size_t n); ssize_t i_release(struct quota *q, size_t n);
void l_create(struct quota_lessor *l, struct quota *q); void l_destroy(struct quota_lessor *l);
ssize_t l_lease(struct quota_lessor *l, size_t n); ssize_t l_end(struct quota_lessor *l, size_t n);
size_t l_leased(struct quota_lessor *l); size_t l_avail(struct quota_lessor *l);
}
static const long U = QUOTA_UNIT_SIZE, M = QUOTA_USE_MIN;
static struct quota q;
static struct quota_lessor L[3];
static int nthreads, nops;
static long minfree[4], leased[4];
static bool pend[4];
static uint64_t key()
{
	uint64_t h = 1;
	long f = (long)((q.value >> 32) - (uint32_t)q.value) * U;
	if ((uint32_t)q.value > (q.value >> 32)) mc::fail("consumption above the limit");
	for (int i = 0; i < nthreads; i++) {
		if (pend[i] && f < minfree[i]) minfree[i] = f;
		h = mc::mix(h, pend[i] ? minfree[i] : -1);
		h = mc::mix(mc::mix(h, leased[i]), l_avail(&L[i]));
	}
	return h;
}
static void body(void *arg)
{
	int t = (long)arg;
	static const long sizes[] = {M / 2, M, M + M / 2, 2 * M + 5 * U, 100};
	for (int i = 0; i < nops; i++) {
		sched::point("op");
		int o = sched::ask(8, "op", false);
		long a0 = quota_available(&L[t]);
		minfree[t] = (long)(quota_total(&q) - quota_used(&q));
		pend[t] = true;
		if (o < 5) {
			ssize_t r = l_lease(&L[t], sizes[o]);
			pend[t] = false;
			LOG("t%d lease %ld -> %zd", t, sizes[o], r);
			mc::outcome(r * 10 + o);
			if (r >= 0) {
				CHECK(r == sizes[o], "lease(%ld) returned %zd", sizes[o], r);
				leased[t] += sizes[o];
			} else {
				long f = (long)(quota_total(&q) - quota_used(&q));
				if (f < minfree[t]) minfree[t] = f;
				long need = (sizes[o] - a0 + U - 1) / U * U;
				CHECK(need > 0 && minfree[t] < need, "lease(%ld) refused although at least %ld were free in the source during the whole call (reserve %ld)",
				      sizes[o], minfree[t], a0);
			}
		} else if (o < 7) {
			long s = o == 5 ? leased[t] : leased[t] / 2;
			ssize_t r = l_end(&L[t], s);
			LOG("t%d end lease %ld -> %zd", t, s, r);
			leased[t] -= s;
			CHECK((long)l_avail(&L[t]) < 2 * M, "reserve is %zu", l_avail(&L[t]));
		} else {
			l_destroy(&L[t]);
			LOG("t%d destroy", t);
			leased[t] = 0;
			l_create(&L[t], &q);
		}
		pend[t] = false;
		CHECK((long)quota_leased(&L[t]) == leased[t], "leased figure is %zu, expected %ld", quota_leased(&L[t]), leased[t]);
		sched::op_done(i + 100);
	}
}
static void exec()
{
	sched::reset();
	nthreads = mc::opt("threads", 2); nops = mc::opt("ops", 2);
	static const long totals[] = {M + M / 2, 2 * M, 2 * M + U, 3 * M + 7 * U, 6 * M};
	long total = totals[mc::choose(5, "total")];
	i_init(&q, total);
	for (int i = 0; i < nthreads; i++) { l_create(&L[i], &q); leased[i] = 0; pend[i] = false; minfree[i] = 0; }
	sched::shared(&q, sizeof q);
	sched::spurious = mc::opt("faults", 0) > 0;
	sched::extra_key = key;
	for (long i = 0; i < nthreads; i++) sched::spawn(body, (void *)i);
	sched::run();
	long sum = 0;
	for (int i = 0; i < nthreads; i++) sum += leased[i] + quota_available(&L[i]);
	CHECK((long)quota_used(&q) == sum, "source consumption %zu, lessors account for %ld", quota_used(&q), sum);
	for (int i = 0; i < nthreads; i++) l_destroy(&L[i]);
	CHECK(quota_used(&q) == 0, "%zu consumed after destroying all lessors", quota_used(&q));
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
