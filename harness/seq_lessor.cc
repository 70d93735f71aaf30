/* C03: quota lessor histories against conservation and justified-refusal oracles. */
#include <assert.h>
#include <sys/types.h>
#include <string.h>
#include <limits.h>
#include "mc.h"
#include "quota.h"
#include "quota_lessor.h"
static const long U = QUOTA_UNIT_SIZE, M = QUOTA_USE_MIN;
static struct quota q;
static struct quota_lessor L[2];
static long up(long n) { return (n + U - 1) / U * U; }
static void exec()
{
	int depth = mc::opt("depth", 4), nl = mc::opt("lessors", 1);
	static const long totals[] = {M, M + U, M + M / 8, 2 * M - U, 2 * M, 2 * M + 3 * U, 3 * M + M / 2, 6 * M, (long)QUOTA_MAX};
	static const long sizes[] = {1, 100, 1023, U, U + 1, M / 8, M / 2 - 1, M / 2, M / 2 + 1, M - U, M - 1, M, M + 1, M + U, 2 * M - 1, 2 * M, 2 * M + U + 1, 5 * M, 0,
		(long)QUOTA_MAX - 1, (long)QUOTA_MAX, (long)QUOTA_MAX + 1, SSIZE_MAX / 2 + 5, SSIZE_MAX};
	static const int NS = mc::opt("sizes", sizeof sizes / sizeof *sizes);
	/* ending a lease: the whole, or a boundary part */
	long total = totals[mc::choose(sizeof totals / sizeof *totals, "total")];
	memset(&q, 0xAB, sizeof q); memset(L, 0xAB, sizeof L);
	quota_init(&q, total);
	long ext = 0, leased[2] = {0, 0};
	for (int i = 0; i < nl; i++) quota_lessor_create(&L[i], &q);
	LOG("total %ld", total);
	for (int step = 0;; step++) {
		long av = 0, le = 0;
		for (int i = 0; i < nl; i++) {
			CHECK((long)quota_leased(&L[i]) == leased[i], "leased figure %zu, expected %ld", quota_leased(&L[i]), leased[i]);
			av += quota_available(&L[i]); le += leased[i];
			CHECK((long)quota_available(&L[i]) >= 0, "negative reserve");
		}
		CHECK((long)quota_used(&q) == ext + le + av, "source consumption %zu, but other users %ld + leased %ld + reserve %ld", quota_used(&q), ext, le, av);
		CHECK((long)quota_total(&q) == up(total), "limit changed");
		if (step == depth) break;
		uint64_t k = mc::mix(total, ext);
		for (int i = 0; i < nl; i++) k = mc::mix(mc::mix(k, leased[i]), quota_available(&L[i]));
		mc::state(k, depth - step);
		int o = mc::choose(nl * 3 + 1, "op");
		long free_src = quota_total(&q) - quota_used(&q);
		if (o == nl * 3) {     /* another user of the source */
			long a = mc::choose(4, "other user");
			if (a == 3) { if (!ext) mc::prune(); quota_release(&q, ext); ext = 0; LOG("other user releases all"); continue; }
			long n = a == 0 ? U : a == 1 ? free_src : free_src - 3 * U;
			if (n <= 0 || n > free_src) mc::prune();
			ssize_t r = quota_use(&q, n);
			CHECK(r == up(n), "source refused %ld of %ld free", n, free_src);
			ext += r;
			LOG("other user takes %ld", n);
			continue;
		}
		int i = o / 3;
		quota_lessor *l = &L[i];
		long avail = quota_available(l);
		switch (o % 3) {
		case 0: {
			long s = sizes[mc::choose(NS, "size")];
			ssize_t r = quota_lease(l, s);
			LOG("lessor %d lease %ld -> %zd (reserve %ld, source free %ld)", i, s, r, avail, free_src);
			bool fits = s <= avail || (s - avail <= (long)QUOTA_MAX && up(s - avail) <= free_src);
			long took = free_src - (long)(quota_total(&q) - quota_used(&q));
			if (fits) {
				CHECK(r == s, "lease(%ld) returned %zd with reserve %ld and %ld free in the source", s, r, avail, free_src);
				leased[i] += s;
				if (s <= avail) CHECK(took == 0, "lease served by the reserve took %ld from the source", took);
				else CHECK(took <= (up(s - avail) > M ? up(s - avail) : M), "lease(%ld) with reserve %ld took %ld from the source", s, avail, took);
			} else {
				CHECK(r == -1, "lease(%ld) returned %zd with reserve %ld and %ld free in the source", s, r, avail, free_src);
				CHECK(took == 0 && (long)quota_available(l) == avail, "a failed lease changed the accounting");
			}
			mc::outcome(mc::mix(s, r));
			break;
		}
		case 1: {
			static const long parts[] = {1, 100, U, M - U, M, 2 * M - 1, 2 * M, 0};
			int p = mc::choose(9, "part");
			long s = p == 8 ? leased[i] : parts[p];
			if (s > leased[i]) mc::prune();
			ssize_t r = quota_end_lease(l, s);
			LOG("lessor %d end lease %ld -> %zd", i, s, r);
			CHECK(r == s, "end_lease(%ld) returned %zd", s, r);
			leased[i] -= s;
			CHECK((long)quota_available(l) < 2 * M, "reserve is %zu after ending a lease", quota_available(l));
			if (avail + s >= M) CHECK((long)quota_available(l) >= M, "reserve trimmed to %zu, below one chunk", quota_available(l));
			else CHECK((long)quota_available(l) == avail + s, "reserve is %zu, expected %ld", quota_available(l), avail + s);
			break;
		}
		default:
			quota_lessor_destroy(l);
			LOG("lessor %d destroyed", i);
			leased[i] = 0;
			CHECK(quota_available(l) == 0 && quota_leased(l) == 0, "destroyed lessor still holds quota");
			if (nl == 1) CHECK((long)quota_used(&q) == ext, "destroying the lessor left %zu consumed", quota_used(&q) - ext);
			quota_lessor_create(l, &q);
		}
	}
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
