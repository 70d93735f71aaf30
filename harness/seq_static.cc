/* C24: static buffer histories. */
#include "mc.h"
#include <string.h>
#include <thread>
#include <vector>
#include <algorithm>
extern "C" {
#include "static.h"
}
static const size_t SZ = SMALL_STATIC_SIZE;
struct A { size_t off, n, v; };          /* v: virtual position, skipped space included */
static std::vector<A> as;
static size_t pos, V;
static char *base;
static bool res; static size_t resn, resal; static char *resp;
static unsigned char pat(size_t v) { return (unsigned char)((v * 0x9E3779B97F4A7C15ull) >> 56); }
static void recent()
{
	for (auto &a : as) if (a.v + SZ >= V) for (size_t i = 0; i < a.n; i++) if ((unsigned char)base[a.off + i] != pat(a.v + i)) mc::fail("byte %zu of the recent allocation at +%zu of %zu bytes changed", i, a.off, a.n);
	mc::n_checks++;
}
/* Where the next bytes may go. */
static char *place(size_t size, size_t align, char *p, const char *what)
{
	uintptr_t cur = (uintptr_t)base + pos;
	size_t pad = -cur & (align - 1), pad0 = -(uintptr_t)base & (align - 1);
	CHECK((uintptr_t)p % align == 0, "%p is not aligned to %zu", p, align);
	CHECK(p >= base && p + size <= base + SZ, "[%p, +%zu) is not inside the buffer", p, size);
	bool must = pos + pad + size > SZ, may = pos + size + align - 1 > SZ;
	if (p == base + pos + pad && !must) {
		/* The start of the buffer may give the same address: a reservation of nothing tells. */
		if (may && pad + pos == pad0 && (char *)static_reserve(0) == base) { V += SZ - pos; pos = 0; }
		return p;
	}
	CHECK(may, "%s wrapped at %zu though %zu bytes are left for %zu", what, pos, SZ - pos, size);
	CHECK(p == base + pad0, "%s at +%zu, the buffer is at +%zu", what, (size_t)(p - base), pos);
	V += SZ - pos; pos = 0;       /* the rest is skipped */
	return p;
}
static void exec()
{
	int depth = mc::opt("depth", 4), huge = mc::opt("huge", 0), full = mc::opt("full", 0), thr = mc::opt("threads", 0);
	static_reset();
	base = (char *)static_reserve(SZ);
	CHECK(base, "the whole buffer cannot be reserved");
	memset(base, 0xEE, SZ);
	as.clear(); pos = V = 0; res = false;
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			uint64_t h = mc::mix(pos, res ? resn + 1 : 0);
			h = mc::mix(h, res ? resal : 0);
			h = mc::mix(h, (size_t)static_reserve(0));
			for (auto &a : as) if (a.v + SZ >= V) { h = mc::mix(h, a.off); h = mc::mix(h, V - a.v); h = mc::mix(h, a.n); }
			mc::state(h, depth - step);
		}
		if (step == depth) break;
		struct Op { int kind; size_t n, al; };
		std::vector<Op> ops;
		size_t rm = SZ - pos;
		if (res) {
			ops.push_back(Op{0, resn, resal});
			if (resn > 1) ops.push_back(Op{0, 1, resal});
		}
		if (!res || full) {
			std::vector<size_t> g = {1, 13, 4096, SZ, SZ + 1, rm, rm + 1, SZ / 2 + 1};
			if (full) g.insert(g.end(), {SZ - 1, 100, 5000, rm - 1, 3, 64});
			std::sort(g.begin(), g.end());
			g.erase(std::unique(g.begin(), g.end()), g.end());
			for (size_t n : g) if (n && n <= SZ + 1) { if (!res) ops.push_back(Op{0, n, 1}); ops.push_back(Op{1, n, 1}); }
			for (size_t al : full ? std::vector<size_t>{2, 8, 64, 4096} : std::vector<size_t>{8, 64})
				for (size_t n : {(size_t)1, (size_t)13, rm, rm > al ? rm - al : (size_t)1, rm > al ? rm - al + 1 : (size_t)1, (size_t)4096, SZ + 1 - al, SZ + 1})
					if (n && n <= SZ + 1) { if (!res) ops.push_back(Op{0, n, al}); ops.push_back(Op{1, n, al}); }
			/* Large alignments: the start of the buffer is less aligned than the position. */
			if (mc::opt("aligned", 0)) for (size_t al : {128, 256, 512, 1024, 2048, 4096}) {
				size_t pad = -((uintptr_t)base + pos) & (al - 1), pad0 = -(uintptr_t)base & (al - 1);
				std::vector<size_t> g = {1, al, 2 * al, SZ - pad0, SZ - pad0 + 1, SZ - al + 1, SZ - al + 2, SZ};
				if (rm > pad) g.insert(g.end(), {rm - pad, rm - pad + 1});
				std::sort(g.begin(), g.end());
				g.erase(std::unique(g.begin(), g.end()), g.end());
				for (size_t n : g) if (n && n <= SZ) { if (!res) ops.push_back(Op{0, n, al}); ops.push_back(Op{1, n, al}); }
			}
			if (huge) for (size_t n : {SIZE_MAX, SIZE_MAX - pos, SIZE_MAX - pos + 1, SIZE_MAX - pos + 2, SIZE_MAX - 6, SIZE_MAX - 62, SIZE_MAX - 63, SIZE_MAX - 100, SIZE_MAX / 2 + 1, (size_t)1 << 32, ((size_t)1 << 32) - pos})
				if (n > SZ) for (size_t al : {1, 8, 64}) { ops.push_back(Op{0, n, al}); ops.push_back(Op{1, n, al}); }
		}
		ops.push_back(Op{2, 0, 0});
		if (full) for (size_t n : {(size_t)1, SZ, SZ + 1, rm, rm + 1}) if (n && n <= SZ + 1) { ops.push_back(Op{4, n, 1}); ops.push_back(Op{5, n, 1}); }
		if (thr) { ops.push_back(Op{3, 100, 1}); ops.push_back(Op{3, SZ, 1}); }
		Op op = ops[mc::choose(ops.size(), "op")];
		bool al1 = op.kind >= 4;          /* the aligned functions without an alignment */
		if (al1) op.kind -= 4;
		switch (op.kind) {
		case 0: {
			char *p = (char *)(op.al == 1 && !al1 ? static_alloc(op.n) : static_aligned_alloc(op.n, op.al));
			LOG("alloc(%zu, align %zu) at +%zu -> +%zd", op.n, op.al, pos, p ? (ssize_t)(p - base) : -1);
			if (p == NULL) {
				CHECK(op.n > SZ || op.n + op.al - 1 > SZ, "a request for %zu bytes aligned to %zu was refused", op.n, op.al);
				mc::outcome(1);
				break;
			}
			CHECK(op.n <= SZ, "a request for %zu bytes succeeded", op.n);
			place(op.n, op.al, p, "allocation");
			if (res && op.n <= resn && op.al == resal) CHECK(p == resp, "reserved at %p, allocated at %p", resp, p);
			res = false;
			size_t pad = p - base - pos;
			V += pad; pos += pad;
			as.push_back(A{pos, op.n, V});
			/* not over anything recent */
			for (size_t i = 0; i + 1 < as.size(); i++) {
				A &a = as[i];
				if (a.v + SZ < V + op.n) continue;
				CHECK(a.off + a.n <= pos || pos + op.n <= a.off, "[+%zu, +%zu) overlaps the recent allocation [+%zu, +%zu)", pos, pos + op.n, a.off, a.off + a.n);
			}
			for (size_t i = 0; i < op.n; i++) p[i] = pat(V + i);
			V += op.n; pos += op.n;
			mc::outcome(mc::mix(op.n, pos));
			recent();
			break;
		}
		case 1: {
			char *p = (char *)(op.al == 1 && !al1 ? static_reserve(op.n) : static_aligned_reserve(op.n, op.al));
			LOG("reserve(%zu, align %zu) at +%zu -> +%zd", op.n, op.al, pos, p ? (ssize_t)(p - base) : -1);
			if (p == NULL) { CHECK(op.n > SZ || op.n + op.al - 1 > SZ, "a request for %zu bytes aligned to %zu was refused", op.n, op.al); break; }
			CHECK(op.n <= SZ, "a request for %zu bytes succeeded", op.n);
			place(op.n, op.al, p, "reservation");
			res = true; resn = op.n; resal = op.al; resp = p;
			recent();
			break;
		}
		case 2: LOG("reset"); static_reset(); as.clear(); pos = V = 0; res = false; break;
		case 3: {
			LOG("another thread: alloc(%zu)", op.n);
			std::thread t([&] {
				char *p = (char *)static_alloc(op.n);
				CHECK(p, "another thread was refused %zu bytes", op.n);
				CHECK(p + op.n <= base || p >= base + SZ, "another thread got memory of this thread's buffer");
				memset(p, 0x77, op.n);
				static_reset();
			});
			t.join();
			recent();
			break;
		}
		}
	}
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
