/* C35: the feature probe under every answer of the system. */
#include "env.h"
#include <limits.h>
extern "C" {
#include "small_config.h"
#include "small_features.h"
}
static void exec()
{
	env::reset();
	int depth = mc::opt("depth", 3);
	env::mmap_faults = env::madvise_faults = true;
	int sz = mc::choose(2, "memory limit");
	if (sz == 1) env::mmap_limit = 0;                    /* nothing can be mapped */
	static int os_failed; os_failed = 0;
	env::on_mmap_fail = []() { os_failed++; };
	unsigned w = mc::opt("window", 300);
	for (int i = 0; i < depth; i++) {
		/* every number near zero, every power of two and the largest one */
		static std::vector<unsigned> f;
		if (f.empty()) {
			for (unsigned k = 0; k <= w; k++) f.push_back(k);
			for (int b = 9; b < 32; b++) for (int d = -2; d <= 2; d++) f.push_back((1u << b) + d);
			for (unsigned k = 0; k <= w; k++) f.push_back(UINT_MAX - k);
			for (unsigned k = 0; k < 8; k++) f.push_back(((unsigned)(k + 1) << 8) | 64);
		}
		unsigned x = i == 0 ? f[mc::choose(f.size(), "feature")] : (unsigned)mc::choose(3, "feature");
		bool known = x == SMALL_FEATURE_DONTDUMP;
		env::advice_refused = false;
		env::advices = 0; env::complaints = 0; os_failed = 0;
		bool r = small_test_feature(x);
		LOG("feature %u -> %d", x, r);
		bool *b = &r;
		CHECK(*(unsigned char *)b <= 1, "the answer is no truth value");
		CHECK(env::mapped_bytes() == 0, "%zu bytes remain mapped after testing feature %u", env::mapped_bytes(), x);
		CHECK(env::malloced_bytes() == 0, "%zu heap bytes remain after testing feature %u", env::malloced_bytes(), x);
		if (!known) CHECK(!r, "unknown feature %u is reported as supported", x);
#ifdef TARANTOOL_SMALL_USE_MADVISE
		else if (os_failed || env::advice_refused || sz == 1) CHECK(!r, "the system refused it, yet the feature is reported as supported");
		else CHECK(r, "the system supports it, yet the feature is reported as missing");
		CHECK(!r || env::advices > 0, "supported without having tried");
#else
		else CHECK(!r, "a feature left out of the build is reported as supported");
#endif
		mc::outcome(r * 16 + os_failed * 8 + env::advice_refused * 4 + known);
	}
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
