/* C17, C18: buffers over 4 GB.  Copies of more than 128 MB move only the bytes whose contents are
 * checked, so that the memory stays mostly untouched. */
#include "alloc.h"
#include <sys/mman.h>
extern "C" {
#include "ibuf.h"
#include "obuf.h"
}
static Stack S;
struct Win { size_t off, n; };               /* stream bytes whose contents are checked */
static std::vector<Win> W;
struct Hot { uintptr_t a; size_t n; };
static std::vector<Hot> H;
static char *SRC; static const size_t SRCN = 1ull << 34;
static const char *copy_error;
static bool hooked;
static void small_copy(void *d, const void *s, size_t n)
{
	if ((uintptr_t)d - (uintptr_t)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
	else {
		char *e = (char *)d + n - 1; const char *f = (const char *)s + n - 1;
		asm volatile("std; rep movsb; cld" : "+D"(e), "+S"(f), "+c"(n) : : "memory");
	}
}
static void big_copy(void *d, const void *s, size_t n)
{
	if (!env::is_owned(d, n)) copy_error = "copied to memory that was not obtained";
	bool src = (uintptr_t)s >= (uintptr_t)SRC && (uintptr_t)s + n <= (uintptr_t)SRC + SRCN;
	if (!src && !env::is_owned(s, n)) copy_error = "copied from memory that was not obtained";
	if (copy_error) return;
	static char tmp[64][256]; size_t k = 0;
	struct { uintptr_t to; size_t n; } t[64];
	for (auto &h : H) {
		uintptr_t a = std::max(h.a, (uintptr_t)s), e = std::min(h.a + h.n, (uintptr_t)s + n);
		if (a >= e || k == 64) continue;
		small_copy(tmp[k], (void *)a, e - a);
		t[k].to = (uintptr_t)d + (a - (uintptr_t)s); t[k].n = e - a; k++;
	}
	for (size_t i = 0; i < k; i++) small_copy((void *)t[i].to, tmp[i], t[i].n);
}
extern "C" void *memcpy(void *d, const void *s, size_t n) { if (hooked && n > 1ull << 27) big_copy(d, s, n); else small_copy(d, s, n); return d; }
extern "C" void *memmove(void *d, const void *s, size_t n) { if (hooked && n > 1ull << 27) big_copy(d, s, n); else small_copy(d, s, n); return d; }

static unsigned char f(size_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; return (unsigned char)((x * 0xD6E8FEB86659FD93ull) >> 56); }
static void put(char *p, size_t off, size_t n) { for (size_t i = 0; i < n; i++) p[i] = f(off + i); }
static void mark(size_t off, size_t n) { W.push_back(Win{off, n}); }
/* Both ends of the bytes [off, off+n) and the places given are looked at. */
static void marks(size_t off, size_t n, std::vector<size_t> at = {})
{
	at.push_back(0); at.push_back(n);
	for (size_t x : at) { size_t b = x > 24 ? x - 24 : 0, e = std::min(n, x + 24); if (b < e && x <= n) mark(off + b, e - b); }
}
static bool ok(const char *p, size_t off, size_t n) { for (size_t i = 0; i < n; i++) if ((unsigned char)p[i] != f(off + i)) return false; return true; }
/* Pieces of memory which hold the stream from offset `off` on. */
struct Piece { char *p; size_t off, n; };
template <class F> static void over(const std::vector<Piece> &v, F fn)
{
	for (auto &w : W) for (auto &x : v) {
		size_t b = std::max(w.off, x.off), e = std::min(w.off + w.n, x.off + x.n);
		if (b < e) fn(x.p + (b - x.off), b, e - b);
	}
}
static void write(const std::vector<Piece> &v) { over(v, [](char *p, size_t off, size_t n) { put(p, off, n); }); }
static void heat(const std::vector<Piece> &v) { H.clear(); over(v, [](char *p, size_t off, size_t n) { H.push_back(Hot{(uintptr_t)p, n}); }); }
static void check(const std::vector<Piece> &v) { over(v, [](char *p, size_t off, size_t n) { CHECK(ok(p, off, n), "bytes %zu..%zu of the stream changed", off, off + n); }); }
static void clip(size_t total) { for (size_t i = W.size(); i-- > 0;) { if (W[i].off >= total) W.erase(W.begin() + i); else W[i].n = std::min(W[i].n, total - W[i].off); } }
static const size_t G = 1ull << 32;

static void ibuf()
{
	struct ibuf b; memset(&b, 0xAB, sizeof b);
	static const size_t scs[] = {1, 4096, 5ull << 30};
	size_t sc = scs[mc::choose(3, "start capacity")];
	ibuf_create(&b, &S.cache, sc);
	size_t head = 0, tail = 0;          /* stream offsets of the first readable byte and the end */
	auto pieces = [&] { return std::vector<Piece>{Piece{b.rpos, head, tail - head}}; };
	auto verify = [&] {
		CHECK(copy_error == NULL, "%s", copy_error);
		size_t cap = ibuf_capacity(&b);
		CHECK(ibuf_used(&b) == tail - head, "%zu bytes used, expected %zu", ibuf_used(&b), tail - head);
		CHECK(ibuf_pos(&b) + ibuf_used(&b) + ibuf_unused(&b) == cap, "position %zu, used %zu, unused %zu, capacity %zu", ibuf_pos(&b), ibuf_used(&b), ibuf_unused(&b), cap);
		CHECK(cap == 0 || env::is_owned(b.rpos - ibuf_pos(&b), cap), "the buffer lies outside the memory obtained");
		CHECK(slab_cache_used(&S.cache) == (cap ? cap + slab_sizeof() : 0), "the slab cache has %zu bytes in use", slab_cache_used(&S.cache));
		check(pieces());
	};
	int depth = mc::opt("depth", 4);
	for (int step = 0; step < depth; step++) {
		struct Op { int kind; size_t n; };
		std::vector<Op> ops;
		size_t un = ibuf_unused(&b), used = tail - head, pos = ibuf_pos(&b);
		std::vector<size_t> g = {3, G + 5, G - 2, un, un + 1, un + pos};
		std::sort(g.begin(), g.end()); g.erase(std::unique(g.begin(), g.end()), g.end());
		if (used < 3 * G / 2) for (size_t n : g) if (n && n < 2 * G) { ops.push_back(Op{0, n}); ops.push_back(Op{1, n}); if (n == G + 5) { ops.push_back(Op{6, n}); ops.push_back(Op{7, n}); } }
		if (used) {
			std::vector<size_t> c = {1, used, used - 5};
			if (used > G) { c.push_back(G); c.push_back(used - G); }
			std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
			for (size_t n : c) if (n && n <= used) { ops.push_back(Op{2, n}); ops.push_back(Op{3, n}); }
		}
		ops.push_back(Op{4, 0});
		if (ibuf_capacity(&b)) ops.push_back(Op{5, 0});
		Op op = ops[mc::choose(ops.size(), "op")];
		heat(pieces());
		hooked = true;
		switch (op.kind) {
		case 0: case 1: case 6: case 7: {
			size_t sz = op.n;
			char *p = (char *)(op.kind == 1 ? ibuf_reserve(&b, op.n) : op.kind == 0 ? ibuf_alloc(&b, op.n) : op.kind == 6 ? ibuf_alloc_cb(&b, op.n) : ibuf_reserve_cb(&b, &sz));
			op.kind &= 1;
			hooked = false;
			LOG("%s(%zu) -> %p, used %zu capacity %zu", op.kind ? "reserve" : "alloc", op.n, p, ibuf_used(&b), ibuf_capacity(&b));
			CHECK(p != NULL, "%zu bytes refused though the system has memory", op.n);
			CHECK(p + op.n <= b.wpos + (op.kind ? ibuf_unused(&b) : 0) && p == b.rpos + used, "%zu bytes at %p are not behind the %zu readable ones", op.n, p, used);
			CHECK(sz == op.n || sz == ibuf_unused(&b), "%zu bytes announced, %zu are there", sz, ibuf_unused(&b));
			if (!op.kind) { marks(tail, op.n); tail += op.n; clip(tail); write({Piece{p, tail - op.n, op.n}}); }
			break;
		}
		case 2: ibuf_consume(&b, op.n); hooked = false; LOG("consume(%zu)", op.n); head += op.n; break;
		case 3: ibuf_truncate(&b, used - op.n); hooked = false; LOG("truncate(%zu)", used - op.n); tail -= op.n; clip(tail); break;
		case 4: {
			size_t cap = ibuf_capacity(&b);
			ibuf_shrink(&b); hooked = false;
			LOG("shrink: %zu -> %zu, used %zu", cap, ibuf_capacity(&b), used);
			CHECK(ibuf_capacity(&b) <= cap, "shrinking grew the buffer");
			if (used == 0) CHECK(ibuf_capacity(&b) == 0, "an empty buffer keeps %zu bytes", ibuf_capacity(&b));
			else CHECK(ibuf_capacity(&b) + slab_sizeof() == slab_real_size(&S.cache, std::max(sc, used)), "capacity %zu after shrinking, %zu are used", ibuf_capacity(&b), used);
			break;
		}
		case 5: ibuf_reset(&b); hooked = false; LOG("reset"); head = tail = 0; W.clear(); break;
		}
		hooked = false;
		mc::outcome(mc::mix(ibuf_capacity(&b), tail - head));
		verify();
	}
	ibuf_destroy(&b);
}

static void obuf()
{
	struct obuf b; memset(&b, 0xAB, sizeof b);
	size_t sc = mc::choose(2, "start capacity") ? 4096 : 1;
	obuf_create(&b, &S.cache, sc);
	size_t used = 0;
	struct Sv { struct obuf_svp s; size_t used; };
	std::vector<Sv> svps;
	struct V { char *p; size_t n; };
	auto vecs = [&] { std::vector<V> v; for (int i = 0; i < obuf_iovcnt(&b); i++) v.push_back(V{(char *)b.iov[i].iov_base, b.iov[i].iov_len}); return v; };
	auto pieces = [&] { std::vector<Piece> r; size_t off = 0; for (auto &x : vecs()) { r.push_back(Piece{x.p, off, x.n}); off += x.n; } return r; };
	auto verify = [&] {
		CHECK(copy_error == NULL, "%s", copy_error);
		CHECK(obuf_size(&b) == used, "%zu bytes reported, %zu were appended", obuf_size(&b), used);
		size_t off = 0;
		for (auto &x : vecs()) { CHECK(x.n > 0 && env::is_owned(x.p, x.n), "vector [%p, +%zu)", x.p, x.n); CHECK(x.n <= slab_capacity(slab_from_data(x.p)), "a vector of %zu bytes exceeds its capacity", x.n); off += x.n; }
		CHECK(off == used, "the vectors hold %zu bytes, the stream has %zu", off, used);
		check(pieces());
	};
	int depth = mc::opt("depth", 4);
	bool res = false; size_t resn = 0;
	for (int step = 0; step < depth; step++) {
		struct Op { int kind; size_t n; };
		std::vector<Op> ops;
		std::vector<V> v = vecs();
		size_t rm = v.empty() ? 0 : slab_capacity(slab_from_data(v.back().p)) - v.back().n;
		std::vector<size_t> g = {3, G + 5, G - 2, rm, rm + 1};
		if (used < G + G / 2 && !res) g.push_back(rm + G + 1);
		std::sort(g.begin(), g.end()); g.erase(std::unique(g.begin(), g.end()), g.end());
		if (res) { ops.push_back(Op{0, resn}); ops.push_back(Op{0, 1}); if (resn > 5) ops.push_back(Op{0, resn - 5}); }
		else if (used < 3 * G / 2) for (size_t n : g) if (n && n < 5 * G / 2) { ops.push_back(Op{0, n}); ops.push_back(Op{1, n}); ops.push_back(Op{2, n}); if (n == G + 5) { ops.push_back(Op{6, n}); ops.push_back(Op{7, n}); } }
		if (svps.empty() && !res) ops.push_back(Op{3, 0});
		for (size_t i = 0; i < svps.size(); i++) ops.push_back(Op{4, i});
		if (used) ops.push_back(Op{5, 0});
		Op op = ops[mc::choose(ops.size(), "op")];
		heat(pieces());
		hooked = true;
		switch (op.kind) {
		case 0: case 6: {
			char *p = (char *)(op.kind ? obuf_alloc_cb(&b, op.n) : obuf_alloc(&b, op.n));
			hooked = false;
			LOG("alloc(%zu) -> %p, size %zu", op.n, p, obuf_size(&b));
			CHECK(p != NULL, "%zu bytes refused though the system has memory", op.n);
			marks(used, op.n); used += op.n; res = false;
			write({Piece{p, used - op.n, op.n}});
			break;
		}
		case 1: case 7: {
			size_t sz = op.n;
			char *p = (char *)(op.kind == 7 ? obuf_reserve_cb(&b, &sz) : obuf_reserve(&b, op.n));
			CHECK(sz >= op.n, "%zu bytes announced for %zu", sz, op.n);
			hooked = false;
			LOG("reserve(%zu) -> %p", op.n, p);
			CHECK(p != NULL, "%zu bytes refused though the system has memory", op.n);
			CHECK(env::is_owned(p, op.n), "memory outside that obtained");
			res = true; resn = op.n;
			break;
		}
		case 2: {
			hooked = false;
			std::vector<size_t> at = {rm};
			if (op.n > G) at.push_back(G);
			marks(used, op.n, at);
			std::vector<Piece> s = {Piece{SRC, used, op.n}};
			write(s);
			over(s, [](char *p, size_t, size_t n) { H.push_back(Hot{(uintptr_t)p, n}); });
			hooked = true;
			size_t n = obuf_dup(&b, SRC, op.n);
			hooked = false;
			LOG("dup(%zu) -> %zu, size %zu", op.n, n, obuf_size(&b));
			CHECK(n == op.n, "%zu bytes of %zu appended though the system has memory", n, op.n);
			used += n;
			madvise(SRC, SRCN, MADV_DONTNEED);
			break;
		}
		case 3: { Sv s; memset(&s.s, 0xAB, sizeof s.s); s.s = obuf_create_svp(&b); s.used = used; hooked = false; LOG("savepoint at %zu", used); svps.push_back(s); break; }
		case 4: { Sv s = svps[op.n]; obuf_rollback_to_svp(&b, &s.s); hooked = false; LOG("rollback to %zu", s.used); used = s.used; clip(used); res = false; break; }
		case 5: obuf_reset(&b); hooked = false; LOG("reset"); used = 0; W.clear(); svps.clear(); res = false; break;
		}
		hooked = false;
		mc::outcome(mc::mix(used, obuf_iovcnt(&b)));
		verify();
	}
	obuf_destroy(&b);
}

static void exec()
{
	the_stack = &S;
	hooked = false; copy_error = NULL; W.clear(); H.clear();
	if (!SRC) SRC = (char *)mmap(NULL, SRCN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (SRC == MAP_FAILED) mc::fail("internal: no address space");
	S.create(16 * 65536, 0, 65536);
	quota_set(&S.q, QUOTA_MAX);
	env::malloc_max = 1ull << 36;
	if (mc::opt("what", 0)) obuf(); else ibuf();
	CHECK(slab_cache_used(&S.cache) == 0, "the buffer left %zu bytes in the slab cache", slab_cache_used(&S.cache));
	S.destroy();
	CHECK(env::mapped_bytes() == 0 && env::malloced_blocks() == 0, "memory remains");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
