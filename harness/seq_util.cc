/* C27: arithmetic helpers against definitions. */
#include "mc.h"
#include <algorithm>
extern "C" {
#include "util.h"
#include "small_class.h"
}
typedef unsigned __int128 u128;
static void pt(size_t v, int kinds)
{
	/* floor of the binary logarithm, next power of two */
	if (v) {
		int lb = 0; while (((u128)2 << lb) <= v) lb++;
		CHECK(small_lb(v) == (size_t)lb, "small_lb(%zu) = %zu, expected %d", v, small_lb(v), lb);
		if (v <= 0xFFFFFFFFull) CHECK(small_class_fls((unsigned)v) == (unsigned)lb, "small_class_fls(%zu) = %u, expected %d", v, small_class_fls((unsigned)v), lb);
	}
	if (v <= SIZE_MAX / 2 + 1) {
		size_t r = v; if (v > 1) { r = 1; while (r < v) r <<= 1; }
		CHECK(small_round(v) == r, "small_round(%zu) = %zu, expected %zu", v, small_round(v), r);
	}
	for (int b = 0; b < 64; b++) {
		size_t al = (size_t)1 << b;
		size_t dn = (size_t)((u128)v / al * al);
		CHECK(small_align_down(v, al) == dn, "small_align_down(%zu, %zu) = %zu, expected %zu", v, al, small_align_down(v, al), dn);
		if (v <= SIZE_MAX - al) {
			size_t up = (size_t)(((u128)v + al - 1) / al * al);
			CHECK(small_align(v, al) == up, "small_align(%zu, %zu) = %zu, expected %zu", v, al, small_align(v, al), up);
		}
	}
	mc::outcome(v ? small_lb(v) : 99);
}
static void exec()
{
	int k = mc::choose(65 + 64, "block");
	if (k < 65) {
		/* all values within the window around every power of two (and around zero / the largest value) */
		long w = mc::opt("window", 2048);
		u128 c = k == 64 ? (u128)1 << 64 : (u128)1 << k;
		for (long d = -w; d <= w; d++) { __int128 v = (__int128)c + d; if (v >= 0 && v <= (__int128)SIZE_MAX) { LOG("value %zu", (size_t)v); pt((size_t)v, 0); } }
	} else {
		/* all 16-bit values, also moved to the top of the word and mirrored */
		unsigned n = 65536 / 64;
		for (unsigned i = 0; i < n; i++) {
			size_t v = (size_t)(k - 65) * n + i;
			LOG("value %zu", v);
			pt(v, 0);
			if (mc::opt("full", 0)) { pt(v << 48, 0); pt(v << 16, 0); pt(v << 31, 0); pt(SIZE_MAX - v, 0); pt(v << 40 | v, 0); }
		}
	}
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
