/* C13: size classes, both lookup variants, against a reference sequence. */
#include "mc.h"
#include <math.h>
#include <float.h>
#include <algorithm>
extern "C" {
void ca_create(unsigned, float, unsigned, float *); unsigned ca_off(unsigned), ca_size(unsigned); unsigned long ca_scan(unsigned, unsigned long, unsigned);
void cb_create(unsigned, float, unsigned, float *); unsigned cb_off(unsigned), cb_size(unsigned); unsigned long cb_scan(unsigned, unsigned long, unsigned);
}
static void one(unsigned size, unsigned cls, const char *what)
{
	unsigned a = ca_off(size), b = cb_off(size);
	CHECK(a == cls, "size %u (%s) is given class %u, the smallest that fits is %u", size, what, a, cls);
	CHECK(b == cls, "size %u (%s) is given class %u by the branchless lookup, the smallest that fits is %u", size, what, b, cls);
}
static void exec()
{
	unsigned long dense = mc::opt("dense", 1 << 18);
	int maxn = mc::opt("maxbits", 10), dn = mc::opt("densebits", 6);
	unsigned g = 1u << mc::choose(mc::opt("grans", 13), "granularity");
	/* requested factors: a grid, and both sides of every switch between actual factors */
	std::vector<float> fs;
	int grid = mc::opt("grid", 64);
	for (int i = 1; i <= grid; i++) fs.push_back(1.0f + (float)i / grid);
	for (float f : {1.0001f, 1.001f, 1.003f, 1.005f, 1.01f, 1.02f, 1.03f, 1.04f, 1.05f, 1.06f, 1.08f, 1.09f, 1.2f, 1.3f}) fs.push_back(f);
	for (int n = 0; n < 12; n++) {
		double x = exp2(1.0 / exp2(n + .5));
		fs.push_back((float)(x * 1.0001)); fs.push_back((float)(1 + (x - 1) * .9999));
	}
	std::sort(fs.begin(), fs.end());
	float f = fs[mc::choose(fs.size(), "factor")];
	const unsigned ms[] = {1, 2, 3, 4, 5, 7, 8, 16, 100, 1000};
	std::vector<unsigned> mins;
	for (unsigned k : ms) mins.push_back(g * k);
	/* not a multiple of the granularity: all sizes are shifted */
	for (unsigned m : {g + 1, g + 7, 2 * g - 1, 3 * g + g / 2}) if (m >= g && std::find(mins.begin(), mins.end(), m) == mins.end()) mins.push_back(m);
	unsigned m = mins[mc::choose(mins.size(), "minimum")];
	float act = -1, act2 = -1;
	ca_create(g, f, m, &act);
	cb_create(g, f, m, &act2);
	LOG("granularity %u, factor %.6f, minimum %u: actual factor %.6f", g, f, m, act);
	CHECK(act == act2, "the variants report factors %f and %f", act, act2);
	double lo = pow(f, .5), hi = pow(f, 1.5);
	CHECK(act >= lo * (1 - 1e-5) && act <= hi * (1 + 1e-5), "factor %f was requested, %f given", f, act);
	/* the number of classes per doubling that gives the factor */
	double nd = log2(1.0 / log2((double)act));
	int n = (int)lround(nd);
	CHECK(fabs(nd - n) < 0.02, "factor %f does not double in a power of two of steps", act);
	CHECK(n >= 0 && n < 31, "factor %f", act);
	mc::outcome(mc::mix(n, m) ^ g);
	if (n > maxn) return;
	/* the reference: g, 2g, .. (2^n)g one by one, then every doubling in 2^n equal steps, all shifted so that class 0 is m */
	std::vector<unsigned long> ref;
	unsigned long shift = m - g, N = 1ul << n;
	for (unsigned long k = 1; k <= N; k++) ref.push_back(shift + k * g);
	for (unsigned long base = N * g; ; base *= 2) {
		unsigned long step = base / N;
		for (unsigned long k = 1; k <= N; k++) { unsigned long v = shift + base + k * step; if (v > 0xFFFFFFFFul) goto full; ref.push_back(v); }
	}
full:
	one(0, 0, "nothing");
	for (size_t c = 0; c < ref.size(); c++) {
		unsigned s = ref[c];
		CHECK((s - m) % g == 0, "internal: reference");
		CHECK(ca_size((unsigned)c) == s, "class %zu is reported as %u bytes, expected %u", c, ca_size((unsigned)c), s);
		CHECK(cb_size((unsigned)c) == s, "class %zu is reported as %u bytes by the branchless variant, expected %u", c, cb_size((unsigned)c), s);
		one(s, c, "class size");
		unsigned long from = c ? ref[c - 1] + 1 : 1;
		one(from, c, "first of the class");
		one(from + (s - from) / 2, c, "middle of the class");
		if (c + 1 < ref.size()) one(s + 1, c + 1, "one above the class");
		if (s <= dense && n <= dn) {
			unsigned long x = ca_scan(from, s, c), y = cb_scan(from, s, c);
			mc::n_checks += 2 * (s - from + 1);
			if (x <= s) one(x, c, "inside the class");
			if (y <= s) one(y, c, "inside the class");
		}
	}
	CHECK(ca_size(0) == m, "class 0 has %u bytes, the minimum is %u", ca_size(0), m);
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
