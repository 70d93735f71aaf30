/* C06: slab arena lifetimes over every placement and failure of the operating system. */
#include <stdint.h>
#include <string.h>
#include <limits.h>
#include <vector>
#include <algorithm>
#include "env.h"
extern "C" {
#include "quota.h"
#include "slab_arena.h"
}
static struct quota Q;
static struct slab_arena A;
static size_t p2(size_t n) { size_t r = 1; while (r < n) r <<= 1; return r; }
static void exec()
{
	int depth = mc::opt("depth", 3);
	env::reset();
	static const uint32_t ssz[] = {1, 65535, 65536, 65537, 100000, 131072, 131073, 1 << 20, (1 << 20) + 1};
	/* giant: slabs of 1 and 2 GB, preallocations and totals over 4 GB */
	bool giant = mc::opt("giant", 0);
	static const uint32_t gsz[] = {1u << 30, 1u << 31, (1u << 30) + 1, (1u << 31) - 1};
	uint32_t req = giant ? gsz[mc::choose(4, "slab size")] : ssz[mc::choose(mc::opt("sizes", 9), "slab size")];
	size_t ss = p2(std::max<size_t>(req, SLAB_MIN_SIZE));
	/* preallocation and limit relative to the slab size */
	static const long pk[] = {0, 1, -1, 10, 11, 15, 20, 29, 30, 99};   /* tenths of a slab, special: 1 -> 1 byte, -1 -> slab-1, 11 -> slab+1, 29 -> 3 slabs - 1, 99 -> huge */
	long k = giant ? 0 : pk[mc::choose(10, "prealloc")];
	size_t pre = k == 1 ? 1 : k == -1 ? ss - 1 : k == 11 ? ss + 1 : k == 29 ? 3 * ss - 1 : k == 99 ? SIZE_MAX : ss * k / 10;
	static const long lk[] = {20, 0, 10, 15, 9, 30, 99};
	long l = giant ? 99 : lk[mc::choose(mc::opt("limits", 7), "limit")];
	size_t lim = l == 99 ? QUOTA_MAX : ss * l / 10;
	if (giant) {
		static const size_t gp[] = {0, 1ull << 30, 5ull << 30, (1ull << 32), (6ull << 30) + 1};
		pre = gp[mc::choose(5, "prealloc in GB")]; lim = mc::choose(2, "quota") ? 12ull << 30 : QUOTA_MAX;
		env::mmap_limit = 20ull << 30;
	}
	if (l == 9) lim = ss - QUOTA_UNIT_SIZE;
	quota_init(&Q, lim);
	lim = quota_total(&Q);
	size_t epre = std::min(std::min(pre, lim), SIZE_MAX - ss);
	epre = (epre + ss - 1) / ss * ss;
	static const int fl[] = {MAP_PRIVATE, MAP_SHARED, SLAB_ARENA_PRIVATE, SLAB_ARENA_SHARED,
		SLAB_ARENA_PRIVATE | SLAB_ARENA_DONTDUMP, SLAB_ARENA_SHARED | SLAB_ARENA_DONTDUMP};
	int f = mc::choose(mc::opt("flags", 6), "flags");
	bool priv = f == 0 || f == 2 || f == 4, dd = f >= 4;
	env::place_align = ss;
	env::place_choice = env::place_touch = true;
	env::mmap_faults = true;
	env::madvise_faults = mc::opt("advice", 1);      /* refused advice changes nothing else */
	static int os_failed; os_failed = 0;
	env::on_mmap_fail = []() { os_failed++; };
	LOG("slab size %u (%zu), prealloc %zu (%zu), limit %zu, flags %#x", req, ss, pre, epre, lim, fl[f]);
	memset(&A, 0xAB, sizeof A);
	int rc = slab_arena_create(&A, &Q, pre, req, fl[f]);
	CHECK(quota_used(&Q) == 0 && quota_total(&Q) == lim, "creating an arena changed the quota");
	if (rc != 0) {
		CHECK(os_failed, "creation failed although no mapping was refused");
		CHECK(env::mapped_bytes() == 0, "a failed creation left %zu bytes mapped", env::mapped_bytes());
		mc::outcome(1);
		return;
	}
	CHECK(!os_failed || epre == 0, "creation succeeded although preallocation was refused");
	CHECK(A.slab_size == ss, "slab size %u, expected %zu", (unsigned)A.slab_size, ss);
	CHECK(env::mapped_bytes() == epre, "%zu bytes mapped after creation, expected %zu", env::mapped_bytes(), epre);
	std::vector<char *> held, cached;
	size_t slabs = 0;       /* slabs ever taken */
	for (int step = 0; step < depth; step++) {
		uint64_t key = mc::mix(mc::mix(mc::mix(req, f), mc::mix(pre, lim)), env::layout_hash());
		for (char *h : held) key = mc::mix(key, (uintptr_t)h);
		for (char *h : cached) key = mc::mix(key, 1 + (uintptr_t)h);
		mc::state(key, depth - step);
		int n = held.size();
		if (giant && n > 2) n = 1;      /* return only the oldest of many */
		int op = mc::choose(n + 2, "op");
		env::Own o0 = env::own();
		size_t q0 = quota_used(&Q);
		os_failed = 0;
		if (op == 0) {
			char *p = (char *)slab_map(&A);
			LOG("slab_map -> %p", p);
			if (p == NULL) {
				CHECK(cached.empty(), "refused although a returned slab is available");
				CHECK(os_failed || lim - q0 < ss, "refused although the quota had %zu free and the system refused nothing", lim - q0);
				CHECK(slabs * ss >= epre || lim - q0 < ss, "refused although a preallocated slab is free");
				CHECK(env::own() == o0 && quota_used(&Q) == q0, "a failed request changed quota or mappings");
				mc::outcome(2);
				continue;
			}
			CHECK((uintptr_t)p % ss == 0, "slab %p is not aligned to %zu", p, ss);
			CHECK(env::is_mapped(p, ss), "slab %p is not inside memory the arena owns", p);
			for (char *h : held) CHECK(h != p, "slab %p is already in use", p);
			if (cached.size()) {
				auto i = std::find(cached.begin(), cached.end(), p);
				CHECK(i != cached.end(), "a new slab was taken although a returned one is available");
				cached.erase(i);
				CHECK(quota_used(&Q) == q0, "reuse charged the quota");
			} else {
				slabs++;
				CHECK(quota_used(&Q) == q0 + ss, "a new slab charged %zu", quota_used(&Q) - q0);
			}
			int mf = env::map_flags(p);
			CHECK((mf & MAP_ANONYMOUS) && !!(mf & MAP_PRIVATE) == priv && !!(mf & MAP_SHARED) == !priv, "slab mapped with flags %#x", mf);
			CHECK(!dd || env::advised(p, ss, MADV_DONTDUMP), "slab %p is not excluded from core dumps", p);
			CHECK(dd || !env::advised(p, 1, MADV_DONTDUMP), "slab %p is excluded from core dumps unasked", p);
			for (size_t i = 0; i < ss; i += ss / 4) p[i] = 1;
			p[ss - 1] = 1;
			held.push_back(p);
		} else if (op == n + 1) {
			env::mprotected = 0;
			slab_arena_mprotect(&A);
			CHECK(env::mprotected == epre, "%zu bytes protected, %zu preallocated", env::mprotected, epre);
			CHECK(epre == 0 || env::mprotect_prot == PROT_READ, "wrong protection");
		} else {
			char *p = held[op - 1];
			LOG("slab_unmap %p", p);
			slab_unmap(&A, p);
			held.erase(held.begin() + op - 1);
			cached.push_back(p);
			CHECK(env::own() == o0 && quota_used(&Q) == q0, "returning a slab changed quota or mappings");
		}
		size_t ex = epre + (slabs * ss > epre ? slabs * ss - epre : 0);
		CHECK(env::mapped_bytes() == ex, "%zu bytes mapped, expected %zu", env::mapped_bytes(), ex);
		CHECK(quota_used(&Q) <= lim, "quota overrun");
		CHECK(quota_used(&Q) == slabs * ss, "quota consumption %zu with %zu slabs", quota_used(&Q), slabs);
	}
	slab_unmap(&A, NULL);
	for (char *p : held) slab_unmap(&A, p);
	slab_arena_destroy(&A);
	CHECK(env::mapped_bytes() == 0, "%zu bytes remain mapped after destruction", env::mapped_bytes());
	mc::outcome(mc::mix(slabs, held.size()));
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
