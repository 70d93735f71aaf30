/* The sanitizer's own heap below the library, with a ledger. */
#include "env_asan.h"
#include <map>
#include <vector>
#include <sanitizer/asan_interface.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
extern "C" const char *__asan_default_options() { return "detect_leaks=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=256:allocator_may_return_null=1:abort_on_error=1:symbolize=0:detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=-1:malloc_context_size=2:max_malloc_fill_size=4096"; }
namespace env {
void (*on_bad_free)(void *p);
static std::map<char *, size_t> live;
static size_t total; static int ncalls;
size_t blocks() { return live.size(); }
size_t bytes() { return total; }
int calls() { return ncalls; }
bool block_of(const void *p, size_t n, char **begin, size_t *size)
{
	auto i = live.upper_bound((char *)p);
	if (i == live.begin()) return false;
	--i;
	if ((char *)p + n > i->first + i->second) return false;
	*begin = i->first; *size = i->second;
	return true;
}
/* Freed blocks stay flagged to the end of the execution: the sanitizer's own quarantine may reuse them at any time. */
static std::vector<char *> graves;
void drop_all()
{
	for (auto &b : live) free(b.first);
	for (char *p : graves) free(p);
	live.clear(); graves.clear(); total = 0;
}
static void *note(void *p, size_t n) { if (p) { live[(char *)p] = n; total += n; ncalls++; } return p; }
static bool forget(void *p)
{
	auto i = live.find((char *)p);
	if (i == live.end()) {
		if (on_bad_free) on_bad_free(p);
		mc::fail("free of %p, which is no live heap block", p);
	}
	__asan_poison_memory_region(i->first, i->second);
	graves.push_back(i->first);
	total -= i->second; live.erase(i); ncalls++;
	return true;
}
}
using namespace env;
extern "C" {
void *mc_malloc(size_t n) { return note(malloc(n), n); }
void mc_free(void *p) { if (p) forget(p); }
void *mc_calloc(size_t a, size_t b) { return note(calloc(a, b), a * b); }
void *mc_realloc(void *p, size_t n)
{
	void *r = note(malloc(n), n);
	if (p && r) {
		auto i = live.find((char *)p);
		memcpy(r, p, i == live.end() || i->second > n ? n : i->second);
		forget(p);
	}
	return r;
}
void *mc_aligned_alloc(size_t a, size_t n) { return note(aligned_alloc(a, n), n); }
int mc_posix_memalign(void **r, size_t a, size_t n) { int e = posix_memalign(r, a, n); if (!e) note(*r, n); return e; }
void *mc_mmap(void *a, size_t n, int p, int f, int d, off_t o) { return mmap(a, n, p, f, d, o); }
void *mc_mmap64(void *a, size_t n, int p, int f, int d, off_t o) { return mmap(a, n, p, f, d, o); }
int mc_munmap(void *a, size_t n) { return munmap(a, n); }
int mc_madvise(void *a, size_t n, int v) { return madvise(a, n, v); }
int mc_mprotect(void *a, size_t n, int v) { return mprotect(a, n, v); }
}
