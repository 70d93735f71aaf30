/* C17: input buffer histories against a byte queue. */
#include "alloc.h"
extern "C" {
#include "ibuf.h"
}
static Stack S;
struct Buf { struct ibuf b; size_t used; uintptr_t resp; size_t resn; bool resw; int idx; };
static Buf B[2];
static int NB;
static size_t SC;
static int bud0;
static unsigned char f0(int b, size_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull + b * 0x1234567; return (unsigned char)(x >> 56) & 0x7f; }
static const size_t TN = 1 << 20;
static unsigned char *T[2];
static unsigned char f(int b, size_t i) { return T[b][i]; }
static void tables()
{
	if (T[0]) return;
	for (int b = 0; b < 2; b++) { unsigned char *t = new unsigned char[TN]; for (size_t i = 0; i < TN; i++) t[i] = f0(b, i); T[b] = t; }
}
static char *start(Buf &x) { return x.b.rpos - ibuf_pos(&x.b); }
/* The readable bytes are f(0..used); `base` more were consumed since the last canonicalisation. */
static void expect(Buf &x, size_t base, size_t n)
{
	const unsigned char *p = (const unsigned char *)x.b.rpos;
	if (n && memcmp(p, T[x.idx] + base, n)) for (size_t i = 0; i < n; i++) if (p[i] != f(x.idx, base + i)) mc::fail("buffer %d: readable byte %zu of %zu changed", x.idx, i, n);
	mc::n_checks++;
}
static void canon(Buf &x)
{
	size_t cap = ibuf_capacity(&x.b);
	if (!cap) return;
	size_t pos = ibuf_pos(&x.b);
	memset(start(x), 0xEE, pos);
	memcpy(x.b.rpos, T[x.idx], x.used);
	size_t keep = x.resw ? x.resn : 0;
	memset(x.b.wpos + keep, 0xDD, ibuf_unused(&x.b) - keep);
	if (x.resw) memcpy(x.b.wpos, T[x.idx] + x.used, x.resn);
}
static void verify()
{
	size_t all = S.hog_bytes;
	for (int i = 0; i < NB; i++) {
		Buf &x = B[i];
		size_t cap = ibuf_capacity(&x.b);
		CHECK(ibuf_used(&x.b) == x.used, "buffer %d reports %zu bytes used, expected %zu", i, ibuf_used(&x.b), x.used);
		CHECK(ibuf_pos(&x.b) + ibuf_used(&x.b) + ibuf_unused(&x.b) == cap, "buffer %d: position %zu + used %zu + unused %zu != capacity %zu", i, ibuf_pos(&x.b), x.used, ibuf_unused(&x.b), cap);
		CHECK(cap == 0 || env::is_owned(start(x), cap), "buffer %d lies outside the memory obtained", i);
		if (cap) all += cap + slab_sizeof();
		if (i) { Buf &y = B[0]; size_t c0 = ibuf_capacity(&y.b); if (cap && c0) CHECK(start(x) + cap <= start(y) || start(y) + c0 <= start(x), "the buffers overlap"); }
	}
	CHECK(slab_cache_used(&S.cache) == all, "the slab cache has %zu bytes in use, the buffers hold %zu", slab_cache_used(&S.cache), all);
	for (int i = 0; i < NB; i++) { expect(B[i], 0, B[i].used); canon(B[i]); }
	slab_cache_check(&S.cache);
	for (int i = 0; i < NB; i++) if (B[i].used) { expect(B[i], 0, 1); expect(B[i], 0, B[i].used); }
}
struct Snap { size_t pos, used, unused, cap; char *p; env::Own o; };
static Snap snap(Buf &x) { return Snap{ibuf_pos(&x.b), ibuf_used(&x.b), ibuf_unused(&x.b), ibuf_capacity(&x.b), x.b.rpos, env::own()}; }
static void same(Buf &x, const Snap &s, const char *what)
{
	CHECK(ibuf_pos(&x.b) == s.pos && ibuf_used(&x.b) == s.used && ibuf_unused(&x.b) == s.unused && ibuf_capacity(&x.b) == s.cap && x.b.rpos == s.p,
	      "%s changed the buffer: pos %zu used %zu unused %zu capacity %zu, were %zu %zu %zu %zu", what, ibuf_pos(&x.b), ibuf_used(&x.b), ibuf_unused(&x.b), ibuf_capacity(&x.b), s.pos, s.used, s.unused, s.cap);
}
static void refused(size_t need)
{
	if (mc::env_left() < bud0) { mc::outcome(78); return; }
	struct slab *s = slab_get(&S.cache, need);
	CHECK(s == NULL, "a request was refused although %zu bytes are available", need);
	mc::outcome(77);
}
static size_t worst(Buf &x, size_t size)
{
	if (size > (1ull << 40)) return 1ull << 40;
	size_t w = std::max(std::max(ibuf_capacity(&x.b), x.used + size), SC);
	return w < x.used || w > (1ull << 40) ? (1ull << 40) : 2 * w;
}
static bool grow(Buf &x, size_t size, int how)
{
	static const char *N[] = {"reserve", "alloc", "reserve_cb", "alloc_cb"};
	bud0 = mc::env_left();
	Snap s = snap(x);
	size_t sz = size;
	void *p;
	switch (how) {
	case 0: p = ibuf_reserve(&x.b, size); break;
	case 1: p = ibuf_alloc(&x.b, size); break;
	case 2: p = ibuf_reserve_cb(&x.b, &sz); break;
	default: p = ibuf_alloc_cb(&x.b, size);
	}
	LOG("buffer %d: %s(%zu) -> %p; pos %zu used %zu unused %zu", x.idx, N[how], size, p, ibuf_pos(&x.b), ibuf_used(&x.b), ibuf_unused(&x.b));
	if (p == NULL) {
		same(x, s, "a failed request");
		if (how != 2 || size) CHECK(size > s.cap || x.used > s.cap - size, "%zu bytes were refused though %zu of the capacity %zu are free", size, s.cap - x.used, s.cap);
		CHECK(x.resn < size || how == 2, "reserved space was refused");
		x.resn = 0; x.resw = false;
		verify();
		size_t w = worst(x, size);
		refused(w);
		return false;
	}
	CHECK(size < (1ull << 48), "a request for %zu bytes succeeded", size);
	bool alloc = how & 1;
	size_t want = how == 2 && size == 0 ? SC : size;
	CHECK((char *)p == x.b.wpos - (alloc ? size : 0), "%s returned %p, the write position is %p", N[how], p, x.b.wpos);
	if (!alloc) CHECK(ibuf_unused(&x.b) >= want, "%zu bytes reserved, only %zu are there", want, ibuf_unused(&x.b));
	if (how == 2) CHECK(sz == ibuf_unused(&x.b), "%zu bytes announced, %zu are there", sz, ibuf_unused(&x.b));
	CHECK(ibuf_used(&x.b) == x.used + (alloc ? size : 0), "%zu bytes used after %s(%zu), were %zu", ibuf_used(&x.b), N[how], size, x.used);
	CHECK(x.used + ibuf_unused(&x.b) + size < TN, "internal: table");
	CHECK((char *)p + size <= start(x) + ibuf_capacity(&x.b) && (char *)p >= x.b.rpos, "memory outside the buffer");
	CHECK(env::is_owned(start(x), ibuf_capacity(&x.b)), "buffer outside the memory obtained");
	if (x.resn >= want && x.resn) {
		CHECK((uintptr_t)p == x.resp, "reserved at %#lx, got %p", (long)x.resp, p);
		if (alloc && x.resw) for (size_t i = 0; i < size; i++) CHECK(((unsigned char *)p)[i] == f(x.idx, x.used + i), "byte %zu written to the reserved space changed", i);
	}
	expect(x, 0, x.used);
	mc::outcome(mc::mix(size, how) ^ (p == s.p + s.used) ^ ibuf_pos(&x.b));
	if (alloc) {
		memcpy(p, T[x.idx] + x.used, size);
		x.used += size;
		if (x.resn > size) { x.resn -= size; x.resp += size; } else { x.resn = 0; x.resw = false; }
	} else {
		x.resn = ibuf_unused(&x.b); x.resp = (uintptr_t)p; x.resw = true;
	}
	verify();
	return true;
}
static void consume(Buf &x, size_t n, bool before)
{
	LOG("buffer %d: consume%s(%zu of %zu)", x.idx, before ? "_before" : "", n, x.used);
	if (before) ibuf_consume_before(&x.b, x.b.rpos + n); else ibuf_consume(&x.b, n);
	CHECK(ibuf_used(&x.b) == x.used - n, "%zu bytes left of %zu after consuming %zu", ibuf_used(&x.b), x.used, n);
	expect(x, n, x.used - n);
	x.used -= n;
	if (x.resw) memcpy(x.b.wpos, T[x.idx] + x.used, x.resn);
	canon(x);
	verify();
}
static void cut(Buf &x, size_t n, bool trunc)
{
	LOG("buffer %d: %s(%zu of %zu)", x.idx, trunc ? "truncate to" : "discard", trunc ? x.used - n : n, x.used);
	if (trunc) ibuf_truncate(&x.b, x.used - n); else ibuf_discard(&x.b, n);
	x.used -= n; x.resn = 0; x.resw = false;
	verify();
}
static void shrink(Buf &x)
{
	bud0 = mc::env_left();
	Snap s = snap(x);
	LOG("buffer %d: shrink, used %zu capacity %zu", x.idx, x.used, s.cap);
	ibuf_shrink(&x.b);
	x.resn = 0; x.resw = false;
	CHECK(ibuf_used(&x.b) == s.used, "shrinking left %zu bytes of %zu", ibuf_used(&x.b), s.used);
	size_t cap = ibuf_capacity(&x.b);
	CHECK(cap <= s.cap, "shrinking grew the buffer from %zu to %zu", s.cap, cap);
	if (x.used == 0) { CHECK(cap == 0, "an empty buffer holds %zu bytes after shrinking", cap); }
	else {
		size_t need = std::max(SC, x.used), least = slab_real_size(&S.cache, need);
		if (cap + slab_sizeof() != least) {
			same(x, s, "a refused shrink");
			CHECK(cap + slab_sizeof() > least, "capacity %zu is below the least %zu", cap, least);
			verify();
			refused(need);
			return;
		}
	}
	mc::outcome(mc::mix(cap, 0x51));
	verify();
}
static void exec()
{
	int depth = mc::opt("depth", 5), sq = mc::opt("squeeze", 0), full = mc::opt("full", 0), large = mc::opt("large", 0);
	size_t maxb = mc::opt("maxbytes", 140000);
	the_stack = &S;
	tables();
	S.create(mc::opt("limit", 16) * 65536, mc::opt("pre", 0) * 65536, 65536);
	NB = mc::opt("bufs", 1);
	int nsc = mc::opt("starts", 5);
	const size_t SCS[] = {1, 232, 16320, 100, 1000};
	SC = SCS[nsc > 1 ? mc::choose(nsc, "start capacity") : 0];
	if (mc::opt("sc", 0)) SC = mc::opt("sc", 0);
	LOG("start capacity %zu", SC);
	for (int i = 0; i < NB; i++) {
		memset(&B[i].b, 0xAB, sizeof B[i].b);
		B[i].used = B[i].resn = 0; B[i].resw = false; B[i].resp = 0; B[i].idx = i;
		ibuf_create(&B[i].b, &S.cache, SC);
		CHECK(ibuf_capacity(&B[i].b) == 0 && ibuf_used(&B[i].b) == 0, "a new buffer is not empty");
	}
	env::mmap_faults = env::malloc_faults = mc::opt("osfail", 0);
	verify();
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			uint64_t h = S.key(SC);
			std::vector<env::Map> skip;
			for (int i = 0; i < NB; i++) {
				h = mc::hash_mem(h, &B[i].b, sizeof B[i].b);
				h = mc::mix(h, B[i].resn * 2 + B[i].resw);
				if (ibuf_capacity(&B[i].b)) skip.push_back(env::Map{(uintptr_t)start(B[i]), ibuf_capacity(&B[i].b)});
			}
			std::sort(skip.begin(), skip.end(), [](const env::Map &a, const env::Map &b) { return a.a < b.a; });
			mc::state(env::hash_skip(h, skip), (depth - step) * 16 + mc::env_left());
		}
		if (step == depth) break;
		struct Op { int kind, b; size_t n; };
		std::vector<Op> ops;
		for (int b = 0; b < NB; b++) {
			Buf &x = B[b];
			size_t un = ibuf_unused(&x.b), cap = ibuf_capacity(&x.b), pos = ibuf_pos(&x.b);
			std::vector<size_t> g = {1, un, un + 1, un + pos, un + pos + 1};
			if (full) g.insert(g.end(), {SC, cap, 2 * cap - x.used, 2 * cap - x.used + 1, 3 * cap, un > 0 ? un - 1 : 1, x.resn, x.resn / 2});
			else { g.push_back(x.resn); g.push_back(3 * cap + 5); }
			if (large) { g.push_back(65536); g.push_back(65536 - slab_sizeof() + 1); }
			std::sort(g.begin(), g.end());
			g.erase(std::unique(g.begin(), g.end()), g.end());
			for (size_t n : g) if (n && x.used + n <= maxb) {
				ops.push_back(Op{1, b, n});
				if (n != x.resn) ops.push_back(Op{0, b, n});
			}
			if (full) { ops.push_back(Op{2, b, 0}); ops.push_back(Op{2, b, un + 1}); ops.push_back(Op{3, b, 3}); if (cap) { ops.push_back(Op{0, b, 0}); ops.push_back(Op{1, b, 0}); } }
			if (mc::opt("huge", 0)) for (size_t n : {SIZE_MAX, SIZE_MAX - x.used, SIZE_MAX - x.used + 1, SIZE_MAX - (uintptr_t)x.b.wpos + 1, (size_t)0 - cap, SIZE_MAX / 2 + 1, SIZE_MAX / 2 - x.used + 1, (size_t)1 << 62, SIZE_MAX - 64, SIZE_MAX / 2 + 2 - x.used})
				if (n > 1ull << 50)
				{ ops.push_back(Op{0, b, n}); ops.push_back(Op{1, b, n}); }
			if (x.used) {
				std::vector<size_t> c = {1, x.used};
				if (x.used > 2) c.push_back(x.used / 2);
				if (x.used > 1 && full) c.push_back(x.used - 1);
				std::sort(c.begin(), c.end());
				c.erase(std::unique(c.begin(), c.end()), c.end());
				for (size_t n : c) { ops.push_back(Op{4, b, n}); ops.push_back(Op{6, b, n}); if (full) { ops.push_back(Op{5, b, n}); ops.push_back(Op{7, b, n}); } }
				if (full) { ops.push_back(Op{4, b, 0}); ops.push_back(Op{6, b, 0}); }
			}
			if (cap || full) { ops.push_back(Op{8, b, 0}); if (cap && (x.used || pos)) ops.push_back(Op{9, b, 0}); ops.push_back(Op{10, b, 0}); }
		}
		if (sq) ops.push_back(Op{20, 0, 0});
		Op op = ops[mc::choose(ops.size(), "op")];
		Buf &x = B[op.b];
		switch (op.kind) {
		case 0: case 1: case 2: case 3: grow(x, op.n, op.kind); break;
		case 4: case 5: consume(x, op.n, op.kind == 5); break;
		case 6: case 7: cut(x, op.n, op.kind == 7); break;
		case 8: shrink(x); break;
		case 9: {
			LOG("buffer %d: reset", x.idx);
			size_t cap = ibuf_capacity(&x.b);
			ibuf_reset(&x.b);
			x.used = x.resn = 0; x.resw = false;
			CHECK(ibuf_capacity(&x.b) == cap && ibuf_pos(&x.b) == 0, "reset: capacity %zu, was %zu; position %zu", ibuf_capacity(&x.b), cap, ibuf_pos(&x.b));
			verify();
			break;
		}
		case 10:
			LOG("buffer %d: reinit", x.idx);
			ibuf_reinit(&x.b);
			x.used = x.resn = 0; x.resw = false;
			CHECK(ibuf_capacity(&x.b) == 0, "capacity %zu after reinit", ibuf_capacity(&x.b));
			verify();
			break;
		case 20: if (S.squeezed) { LOG("memory available"); S.relax(); } else { LOG("memory refused"); S.squeeze(); S.hog(); } verify(); break;
		}
	}
	env::mmap_faults = env::malloc_faults = false;
	for (int i = 0; i < NB; i++) ibuf_destroy(&B[i].b);
	S.relax();
	CHECK(slab_cache_used(&S.cache) == 0, "the buffers left %zu bytes in the slab cache", slab_cache_used(&S.cache));
	S.destroy();
	CHECK(env::mapped_bytes() == 0 && env::malloced_blocks() == 0, "memory remains");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
