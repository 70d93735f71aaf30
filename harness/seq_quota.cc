/* C02: quota arithmetic against an arbitrary-precision model, all histories over boundary sizes. */
#include <assert.h>
#include <sys/types.h>
#include <string.h>
#include <algorithm>
#include "mc.h"
#include "quota.h"
typedef unsigned __int128 u128;
static const size_t U = QUOTA_UNIT_SIZE;
static size_t units(size_t n) { return n / U + (n % U != 0); }
static std::vector<size_t> sizes, limits;
static void build_alphabet()
{
	if (!sizes.empty()) return;
	std::vector<size_t> s = {1, 1023, 1024, 1025, 2047, 2048, 2049, 3 * U, 1u << 20,
		(size_t)UINT32_MAX - 1023, UINT32_MAX, (size_t)UINT32_MAX + 1, ((size_t)1 << 32) + 1024,
		((size_t)1 << 41) - U, (size_t)1 << 41, ((size_t)1 << 41) + U, /* half of the unit range */
		((size_t)1 << 41) + 1,
		QUOTA_MAX - 3 * U, QUOTA_MAX - U - 1, QUOTA_MAX - U, QUOTA_MAX - U + 1, QUOTA_MAX - 1, QUOTA_MAX, QUOTA_MAX + 1,
		QUOTA_MAX + U - 1, QUOTA_MAX + U, QUOTA_MAX + U + 1, QUOTA_MAX + 2 * U, ((size_t)1 << 43), ((size_t)1 << 52),
		((size_t)1 << 62), SIZE_MAX / 2 - 1023, SIZE_MAX / 2, SIZE_MAX / 2 + 1,
		SIZE_MAX - 2048, SIZE_MAX - 1024, SIZE_MAX - 1023, SIZE_MAX - 1022, SIZE_MAX - 1, SIZE_MAX};
	std::sort(s.begin(), s.end());
	s.erase(std::unique(s.begin(), s.end()), s.end());
	int thin = mc::opt("thin", 0);
	for (size_t i = 0; i < s.size(); i++) if (!thin || s[i] <= 2049 || s[i] + 2 * U > QUOTA_MAX || i % thin == 0) sizes.push_back(s[i]);
	for (size_t x : sizes) if (x <= QUOTA_MAX) limits.push_back(x);
	limits.push_back(0);
}
static struct quota q;
static void exec()
{
	build_alphabet();
	int depth = mc::opt("depth", 3);
	size_t total = limits[mc::choose(limits.size(), "initial limit")];
	memset(&q, 0xAB, sizeof q);
	quota_init(&q, total);
	u128 T = units(total), Us = 0;
	LOG("init %zu", total);
	for (int i = 0;; i++) {
		size_t t, u;
		quota_get_total_and_used(&q, &t, &u);
		CHECK(t == (size_t)T * U, "limit is %zu, expected %zu", t, (size_t)T * U);
		CHECK(u == (size_t)Us * U, "consumption is %zu, expected %zu", u, (size_t)Us * U);
		CHECK(quota_total(&q) == t && quota_used(&q) == u, "separate reads disagree with the combined read");
		CHECK(Us <= T, "consumption above the limit");
		if (i == depth) break;
		uint64_t k = mc::mix(mc::mix(1, (uint64_t)T), (uint64_t)Us);
		mc::state(k, depth - i);
		/* operations: use each size, set each limit, release every amount covered by the consumption
		 * (an amount is returned in one piece or in several, in the granted or in the requested figure) */
		int nrel = 0;
		while (nrel < (int)sizes.size() && sizes[nrel] <= QUOTA_MAX && units(sizes[nrel]) <= Us) nrel++;
		int n = sizes.size() + limits.size() + nrel;
		int o = mc::choose(n, "op");
		if (o < (int)sizes.size()) {
			size_t s = sizes[o];
			ssize_t r = quota_use(&q, s);
			bool fits = s <= QUOTA_MAX && Us + units(s) <= T;
			LOG("use %zu -> %zd", s, r);
			if (fits) {
				CHECK(r == (ssize_t)(units(s) * U), "use(%zu) with %zu of %zu consumed returned %zd, should charge %zu", s, u, t, r, units(s) * U);
				Us += units(s);
			} else CHECK(r == -1, "use(%zu) with %zu of %zu consumed returned %zd although it does not fit", s, u, t, r);
			mc::outcome(mc::mix(s, r));
		} else if (o < (int)(sizes.size() + limits.size())) {
			size_t s = limits[o - sizes.size()];
			ssize_t r = quota_set(&q, s);
			LOG("set %zu -> %zd", s, r);
			if (units(s) >= Us) {
				CHECK(r == (ssize_t)(units(s) * U), "set(%zu) with %zu consumed returned %zd", s, u, r);
				T = units(s);
			} else CHECK(r == -1, "set(%zu) below the consumption %zu returned %zd", s, u, r);
		} else {
			int j = o - sizes.size() - limits.size();
			size_t h = sizes[j];
			ssize_t r = quota_release(&q, h);
			LOG("release %zu -> %zd", h, r);
			CHECK(r == (ssize_t)(units(h) * U), "release(%zu) returned %zd", h, r);
			Us -= units(h);
		}
	}
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
