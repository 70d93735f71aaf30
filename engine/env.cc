#include "env.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <stdio.h>
#include <stdarg.h>
#include <algorithm>

namespace env {

bool mmap_faults, malloc_faults, madvise_faults; int complaints, advices; bool advice_refused; bool place_choice, place_touch, strict, fill_malloc;
size_t place_align; int first_place; size_t mmap_limit, malloc_max;
void (*on_call)(const char *, uintptr_t, size_t);
void (*on_mmap_fail)();
size_t mprotected; uintptr_t mprotect_at; int mprotect_prot;

static const uintptr_t PBASE = 0x200000000000ull, MBASE = 0x100000000000ull;
static const size_t PSIZE = 1ull << 36, MSIZE = 1ull << 37, PAGE = 4096;
struct PM { uintptr_t a; size_t n; int flags; };
static std::vector<Map> live;              /* sorted, page granular, not coalesced across mmaps */
static std::vector<PM> pm;                 /* original mappings of this execution, for flags */
struct Adv { uintptr_t a; size_t n; int adv; };
static std::vector<Adv> advs;
struct Blk { uintptr_t a; size_t n; };
static std::vector<Blk> blks;              /* live malloc blocks, sorted */
static bool inited;
static int n_mmap;
static uintptr_t p_dirty, m_dirty;          /* high-water marks to clean */

static void init()
{
	if (inited) return;
	inited = true;
	void *p = ::mmap((void *)PBASE, PSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	void *m = ::mmap((void *)MBASE, MSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if (p == MAP_FAILED || m == MAP_FAILED) { perror("env mmap"); abort(); }
	p_dirty = PBASE; m_dirty = MBASE;
}

void reset()
{
	init();
	if (strict) ::mprotect((void *)PBASE, PSIZE, PROT_READ | PROT_WRITE);
	live.clear(); pm.clear(); advs.clear(); blks.clear();
	n_mmap = 0;
	madvise_faults = advice_refused = false; complaints = advices = 0;
	mmap_faults = malloc_faults = place_choice = place_touch = strict = false;
	fill_malloc = true;
	place_align = 0; first_place = 0; mmap_limit = 1ull << 30; malloc_max = 1ull << 26;
	on_call = NULL; on_mmap_fail = NULL; mprotected = 0; mprotect_at = 0; mprotect_prot = -1;
}

size_t mapped_bytes() { size_t s = 0; for (auto &m : live) s += m.n; return s; }
size_t malloced_bytes() { size_t s = 0; for (auto &b : blks) s += b.n; return s; }
size_t malloced_blocks() { return blks.size(); }
int mmap_calls() { return n_mmap; }
const std::vector<Map> &maps() { return live; }
Own own() { return Own{mapped_bytes(), malloced_bytes(), blks.size()}; }

bool is_mapped(const void *p, size_t n)
{
	uintptr_t a = (uintptr_t)p, e = a + n;
	if (e < a) return false;
	for (auto &m : live) {
		if (a >= m.a && a < m.a + m.n) {
			if (e <= m.a + m.n) return true;
			a = m.a + m.n;
		}
	}
	return a >= e;
}
bool is_malloced(const void *p, size_t n)
{
	uintptr_t a = (uintptr_t)p;
	for (auto &b : blks) if (a >= b.a && a - b.a <= b.n && n <= b.n - (a - b.a)) return true;
	return false;
}
bool is_owned(const void *p, size_t n) { return is_mapped(p, n) || is_malloced(p, n); }
int map_flags(const void *p)
{
	uintptr_t a = (uintptr_t)p;
	for (int i = (int)pm.size() - 1; i >= 0; i--) if (a >= pm[i].a && a < pm[i].a + pm[i].n) return pm[i].flags;
	return -1;
}
bool advised(const void *p, size_t n, int advice)
{
	uintptr_t a = (uintptr_t)p, e = a + n;
	bool progress = true;
	while (a < e && progress) {
		progress = false;
		for (auto &v : advs) if (v.adv == advice && a >= v.a && a < v.a + v.n) { a = v.a + v.n; progress = true; break; }
	}
	return a >= e;
}

uint64_t hash(uint64_t h)
{
	for (auto &m : live) { h = mc::mix(mc::mix(h, m.a), m.n); h = mc::hash_mem(h, (void *)m.a, m.n); }
	for (auto &b : blks) { h = mc::mix(mc::mix(h, b.a), b.n); h = mc::hash_mem(h, (void *)b.a, b.n); }
	return h;
}

static uint64_t hash_range(uint64_t h, uintptr_t a, uintptr_t e, const std::vector<Map> &skip)
{
	for (auto &s : skip) {
		if (s.a + s.n <= a) continue;
		if (s.a >= e) break;
		if (s.a > a) h = mc::hash_mem(h, (void *)a, s.a - a);
		h = mc::mix(h, 0x5151);
		a = s.a + s.n;
		if (a >= e) return h;
	}
	return mc::hash_mem(h, (void *)a, e - a);
}
uint64_t hash_skip(uint64_t h, const std::vector<Map> &skip)
{
	for (auto &s : skip) h = mc::mix(mc::mix(h, s.a), s.n);
	for (auto &m : live) { h = mc::mix(mc::mix(h, m.a), m.n); h = hash_range(h, m.a, m.a + m.n, skip); }
	for (auto &b : blks) { h = mc::mix(mc::mix(h, b.a), b.n); h = hash_range(h, b.a, b.a + b.n, skip); }
	return h;
}
uint64_t layout_hash()
{
	uint64_t h = 1;
	for (auto &m : live) h = mc::mix(mc::mix(h, m.a), m.n);
	for (auto &b : blks) h = mc::mix(mc::mix(h, b.a), b.n);
	return h;
}

static bool free_range(uintptr_t a, size_t n)
{
	if (a < PBASE || a + n > PBASE + PSIZE) return false;
	for (auto &m : live) if (a < m.a + m.n && m.a < a + n) return false;
	return true;
}

/* Lowest free placement of n bytes congruent to off modulo align; one guard page is kept before it. */
static uintptr_t place(size_t n, size_t align, size_t off)
{
	uintptr_t a = PBASE + align + off;
	for (;;) {
		if (a + n > PBASE + PSIZE) return 0;
		bool moved = false;
		for (auto &m : live) {
			if (a < m.a + m.n + PAGE && m.a < a + n + PAGE) {
				uintptr_t e = m.a + m.n + PAGE;
				uintptr_t x = (e - off + align - 1) / align * align + off;
				a = x > a ? x : a + align;
				moved = true;
				break;
			}
		}
		if (!moved) return a;
	}
}

} // namespace env
using namespace env;

extern "C" {

void *mc_mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off)
{
	(void)addr; (void)prot; (void)fd; (void)off;
	if (on_call) on_call("mmap", 0, n);
	n_mmap++;
	n = (n + PAGE - 1) / PAGE * PAGE;
	if (n == 0) { errno = EINVAL; return MAP_FAILED; }
	if (n > mmap_limit || mapped_bytes() + n > mmap_limit) { LOG("  [os] mmap(%zu) refused: over the limit", n); errno = ENOMEM; if (on_mmap_fail) on_mmap_fail(); return MAP_FAILED; }
	if (mmap_faults && mc::choose_env(2, "mmap fails")) { errno = ENOMEM; if (on_mmap_fail) on_mmap_fail(); return MAP_FAILED; }
	size_t align = place_align ? place_align : PAGE;
	int k = first_place;
	/* Touching a mapping: right behind, right before. */
	uintptr_t touch[2] = {0, 0};
	if (place_touch) {
		for (auto &m : live) if (!touch[0] && free_range(m.a + m.n, n)) touch[0] = m.a + m.n;
		for (auto &m : live) if (!touch[1] && m.a >= PBASE + n && free_range(m.a - n, n)) touch[1] = m.a - n;
	}
	int nt = !!touch[0] + !!touch[1];
	if (place_choice && align > PAGE) k = mc::choose(4 + nt, "mmap placement");
	size_t o = 0;
	if (align > PAGE) o = k == 0 ? 0 : k == 1 ? PAGE : k == 2 ? align / 2 : align - PAGE;
	uintptr_t a = k >= 4 ? touch[k == 4 && touch[0] ? 0 : 1] : place(n, align, o);
	if (a == 0 || !free_range(a, n)) { errno = ENOMEM; if (on_mmap_fail) on_mmap_fail(); return MAP_FAILED; }
	if (strict) ::mprotect((void *)a, n, PROT_READ | PROT_WRITE);
	if (n > 64ul << 20) ::madvise((void *)a, n, MADV_DONTNEED); else memset((void *)a, 0, n);
	Map m = {a, n};
	live.insert(std::lower_bound(live.begin(), live.end(), m, [](const Map &x, const Map &y) { return x.a < y.a; }), m);
	pm.push_back(PM{a, n, flags});
	LOG("  [os] mmap(%zu) -> %#lx", n, (unsigned long)a);
	return (void *)a;
}

void *mc_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return mc_mmap(a, n, p, f, fd, o); }

int mc_munmap(void *addr, size_t n)
{
	uintptr_t a = (uintptr_t)addr;
	if (on_call) on_call("munmap", a, n);
	LOG("  [os] munmap(%#lx, %zu)", (unsigned long)a, n);
	if (n == 0 || a % PAGE) { errno = EINVAL; return -1; }
	n = (n + PAGE - 1) / PAGE * PAGE;
	if (!is_mapped(addr, n))
		mc::fail("munmap(%#lx, %zu) covers memory the library does not own", (unsigned long)a, n);
	std::vector<Map> out;
	for (auto &m : live) {
		if (a >= m.a + m.n || m.a >= a + n) { out.push_back(m); continue; }
		if (m.a < a) out.push_back(Map{m.a, a - m.a});
		if (m.a + m.n > a + n) out.push_back(Map{a + n, m.a + m.n - (a + n)});
	}
	live.swap(out);
	std::vector<Adv> av;
	for (auto &v : advs) {
		if (a >= v.a + v.n || v.a >= a + n) { av.push_back(v); continue; }
		if (v.a < a) av.push_back(Adv{v.a, a - v.a, v.adv});
		if (v.a + v.n > a + n) av.push_back(Adv{a + n, v.a + v.n - (a + n), v.adv});
	}
	advs.swap(av);
	if (strict) ::mprotect((void *)a, n, PROT_NONE);
	else memset((void *)a, 0xA5, n > 65536 ? 4096 : n);
	return 0;
}

int mc_mprotect(void *addr, size_t n, int prot)
{
	LOG("  [os] mprotect(%p, %zu, %d)", addr, n, prot);
	if (n && !is_mapped(addr, n)) mc::fail("mprotect(%p, %zu) covers memory the library does not own", addr, n);
	mprotected += n; mprotect_at = (uintptr_t)addr; mprotect_prot = prot;
	return 0;
}

int mc_madvise(void *addr, size_t n, int advice)
{
	LOG("  [os] madvise(%p, %zu, %d)", addr, n, advice);
	if ((uintptr_t)addr % PAGE) { errno = EINVAL; return -1; }
	if (n && !is_mapped(addr, n)) { errno = ENOMEM; return -1; }
	advices++;
	/* A refused advice is remembered too: it was given. */
	if (madvise_faults && mc::choose_env(2, "madvise fails")) {
		static const int e[] = {EINVAL, ENOSYS, EPERM, EAGAIN, ENOMEM};
		errno = e[mc::opt("errno", 0) % 5];
		advice_refused = true;
		LOG("  [os] refused");
		if (n) advs.push_back(Adv{(uintptr_t)addr, n, advice});
		return -1;
	}
	if (n) advs.push_back(Adv{(uintptr_t)addr, n, advice});
	return 0;
}

/* Diagnostics of the library. */
static int complain(FILE *f, const char *fmt, va_list a)
{
	if (f != stderr) return vfprintf(f, fmt, a);
	char b[512];
	int n = vsnprintf(b, sizeof b, fmt, a);
	complaints++;
	LOG("  [stderr] %s", b);
	return n;
}
int mc_fprintf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = complain(f, fmt, a); va_end(a); return n; }
int mc___fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = complain(f, fmt, a); va_end(a); return n; }

static void *blk_alloc(size_t n, size_t align)
{
	if (on_call) on_call("malloc", 0, n);
	if (n > malloc_max) { LOG("  [os] malloc(%zu) refused", n); errno = ENOMEM; return NULL; }
	if (malloc_faults && mc::choose_env(2, "malloc fails")) { errno = ENOMEM; return NULL; }
	if (align < 16) align = 16;
	uintptr_t a = (MBASE + align - 1) / align * align;
	size_t i = 0;
	for (; i < blks.size(); i++) {
		if (a + n + 16 <= blks[i].a) break;
		uintptr_t e = blks[i].a + blks[i].n + 16;
		uintptr_t x = (e + align - 1) / align * align;
		if (x > a) a = x;
	}
	if (a + n > MBASE + MSIZE) { errno = ENOMEM; return NULL; }
	blks.insert(blks.begin() + i, Blk{a, n});
	if (fill_malloc) memset((void *)a, 0xCD, n > 65536 ? 65536 : n);
	LOG("  [os] malloc(%zu) -> %#lx", n, (unsigned long)a);
	return (void *)a;
}

void *mc_malloc(size_t n) { return blk_alloc(n, 16); }
void *mc_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) return NULL;
	void *p = blk_alloc(n, 16);
	if (p) memset(p, 0, n);
	return p;
}
void *mc_aligned_alloc(size_t al, size_t n) { return blk_alloc(n, al); }
int mc_posix_memalign(void **out, size_t al, size_t n)
{
	void *p = blk_alloc(n, al);
	if (!p) return ENOMEM;
	*out = p;
	return 0;
}
void mc_free(void *p)
{
	if (p == NULL) return;
	if (on_call) on_call("free", (uintptr_t)p, 0);
	LOG("  [os] free(%p)", p);
	for (size_t i = 0; i < blks.size(); i++) {
		if (blks[i].a == (uintptr_t)p) {
			memset(p, 0xDD, blks[i].n > 65536 ? 65536 : blks[i].n);
			blks.erase(blks.begin() + i);
			return;
		}
	}
	mc::fail("free(%p) of memory that is not a live heap block", p);
}
void *mc_realloc(void *p, size_t n)
{
	if (p == NULL) return mc_malloc(n);
	size_t old = 0;
	for (auto &b : blks) if (b.a == (uintptr_t)p) old = b.n;
	void *q = mc_malloc(n);
	if (q == NULL) return NULL;
	memcpy(q, p, old < n ? old : n);
	mc_free(p);
	return q;
}

} // extern "C"
