/* C09, C10: fixed-size pool histories against a reference model. */
#include "alloc.h"
extern "C" {
#include "mempool.h"
}
static Stack S;
static Live live;
struct Slab { uintptr_t a; std::vector<uintptr_t> objs; bool active; };    /* objs: live objects, sorted */
struct Pool {
	struct mempool p;
	size_t objsize, slabsize, count;
	std::vector<Slab> slabs;      /* slabs with live objects or free and kept, sorted by address */
	uintptr_t spare;
	size_t nlive() const { size_t n = 0; for (auto &s : slabs) n += s.objs.size(); return n; }
};
static Pool P[2];
static int NP;

static void verify()
{
	if (!mc::fresh()) return;
	size_t total = S.hog_bytes;
	for (int k = 0; k < NP; k++) {
		Pool &o = P[k];
		struct mempool_stats st;
		mempool_stats(&o.p, &st);
		size_t n = o.nlive();
		CHECK(mempool_count(&o.p) == n, "pool reports %zu objects, %zu are live", mempool_count(&o.p), n);
		CHECK(mempool_used(&o.p) == n * o.objsize, "pool reports %zu bytes used, live objects have %zu", mempool_used(&o.p), n * o.objsize);
		CHECK(mempool_total(&o.p) == o.slabs.size() * o.slabsize, "pool holds %zu bytes in slabs, expected %zu slabs of %zu", mempool_total(&o.p), o.slabs.size(), o.slabsize);
		CHECK(st.objcount == n && st.objsize == o.objsize && st.slabsize == o.slabsize && st.slabcount == o.slabs.size(), "statistics: %u slabs, %lu objects", st.slabcount, (long)st.objcount);
		CHECK(st.totals.used == n * o.objsize, "statistics: totals");
		/* the memory for objects: as many as fit, the headers left out */
		CHECK(st.totals.total >= o.slabs.size() * o.count * o.objsize && (o.slabs.empty() ? st.totals.total == 0 : st.totals.total < o.slabs.size() * (o.count + 1) * o.objsize), "statistics: %zu bytes in total, %zu slabs of %zu objects", (size_t)st.totals.total, o.slabs.size(), (size_t)o.count);
		size_t idle = 0;
		for (auto &s : o.slabs) idle += s.objs.empty();
		CHECK(idle <= 1, "%zu fully free slabs are kept", idle);
		total += o.slabs.size() * o.slabsize;
	}
	CHECK(slab_cache_used(&S.cache) == total, "the slab cache has %zu bytes in use, the pools hold %zu", slab_cache_used(&S.cache), total);
	live.verify();
}

static bool do_alloc(int k)
{
	Pool &o = P[k];
	env::Own o0 = env::own(); size_t q0 = quota_used(&S.q);
	Slab *act = NULL; bool cold = false;
	for (auto &s : o.slabs) {
		if (s.active && s.objs.size() < o.count && !act) act = &s;
		if (!s.active && s.objs.size() && s.objs.size() < o.count) cold = true;
	}
	char *p = (char *)mempool_alloc(&o.p);
	LOG("mempool_alloc(pool %d) -> %p", k, p);
	if (p == NULL) {
		CHECK(!act && !cold && !o.spare, "allocation failed although a slab of the pool has a free object");
		CHECK(env::own() == o0 && quota_used(&S.q) == q0, "a failed allocation changed the accounting");
		struct slab *s = slab_get_with_order(&S.cache, slab_order(&S.cache, o.slabsize));
		CHECK(s == NULL, "allocation failed although the slab cache can give a slab");
		mc::outcome(99);
		return false;
	}
	uintptr_t sa = (uintptr_t)p & ~(o.slabsize - 1);
	CHECK((uintptr_t)p + o.objsize <= sa + o.slabsize, "object %p crosses the end of its slab", p);
	size_t al = o.objsize & -o.objsize;
	CHECK((uintptr_t)p % al == 0, "object %p of size %zu is not aligned", p, o.objsize);
	Slab *mine = NULL;
	for (auto &s : o.slabs) if (s.a == sa) mine = &s;
	if (act) CHECK(mine == act, "allocated in slab %#lx, the lowest active slab with room is %#lx", (long)sa, (long)act->a);
	else if (o.spare) CHECK(mine && sa == o.spare, "allocated in slab %#lx, not in the spare %#lx", (long)sa, (long)o.spare);
	else if (mine) CHECK(mine->objs.size() && mine->objs.size() < o.count, "allocated in a full slab");
	if (!mine) {
		for (int j = 0; j < NP; j++) for (auto &s : P[j].slabs) CHECK(sa + o.slabsize <= s.a || s.a + P[j].slabsize <= sa, "object %p lies in a slab of another pool", p);
		size_t i = 0; while (i < o.slabs.size() && o.slabs[i].a < sa) i++;
		o.slabs.insert(o.slabs.begin() + i, Slab{sa, {}, true});
		mine = &o.slabs[i];
	}
	if (sa == o.spare) o.spare = 0;
	mine->active = true;
	mine->objs.insert(std::lower_bound(mine->objs.begin(), mine->objs.end(), (uintptr_t)p), (uintptr_t)p);
	CHECK(mine->objs.size() <= o.count, "more objects in a slab than fit");
	if (mine->objs.size() == o.count) mine->active = false;
	live.add(p, o.objsize, k);
	mc::outcome(mc::mix(mine->objs.size(), mc::mix(o.slabs.size(), mine - &o.slabs[0])));
	verify();
	return true;
}

static void do_free(int k, uintptr_t p)
{
	Pool &o = P[k];
	uintptr_t sa = p & ~(o.slabsize - 1);
	size_t i = 0; while (o.slabs[i].a != sa) i++;
	Slab &s = o.slabs[i];
	LOG("mempool_free(pool %d, %#lx)", k, (long)p);
	live.del(live.find((void *)p));
	mempool_free(&o.p, (void *)p);
	s.objs.erase(std::find(s.objs.begin(), s.objs.end(), p));
	if (s.objs.empty()) {
		s.active = false;
		if (!o.spare) o.spare = sa;
		else {
			uintptr_t gone = std::max(o.spare, sa);
			o.spare = std::min(o.spare, sa);
			for (size_t j = 0; j < o.slabs.size(); j++) if (o.slabs[j].a == gone) { o.slabs.erase(o.slabs.begin() + j); break; }
		}
	} else if (!s.active && o.count - s.objs.size() >= o.count / 8) s.active = true;
	verify();
}

static void exec()
{
	int depth = mc::opt("depth", 6), maxslabs = mc::opt("maxslabs", 3), macro = mc::opt("macro", 0), sq = mc::opt("squeeze", 1);
	int mode = mc::opt("order", -1);      /* -1: mempool_create picks the slab size */
	NP = mc::opt("pools", 1);
	the_stack = &S;
	S.create(mc::opt("limit", 4) * 65536, 0, 65536);
	live.v.clear();
	static const int S1[] = {8, 9, 13, 16, 24, 40, 64};
	for (int k = 0; k < NP; k++) {
		Pool &o = P[k];
		size_t sz = k == 0 ? mc::opt("objsize", 16) : mc::opt("objsize1", 24);
		o.slabs.clear(); o.spare = 0; o.objsize = sz;
		memset(&o.p, 0, sizeof o.p);
		CHECK(!mempool_is_initialized(&o.p), "initialized before creation");
		memset(&o.p, 0xAB, sizeof o.p);
		if (mode >= 0) mempool_create_with_order(&o.p, &S.cache, sz, mode + k); else mempool_create(&o.p, &S.cache, sz);
		CHECK(mempool_is_initialized(&o.p), "not initialized after creation");
		struct mempool_stats st;
		mempool_stats(&o.p, &st);
		o.slabsize = st.slabsize;
		o.count = (o.slabsize - mslab_sizeof()) / sz;
		CHECK(o.count >= 1, "a slab of %zu bytes holds no object of %zu", o.slabsize, sz);
	}
	verify();
	/* starting points: full slabs */
	int pre = mc::choose(mc::opt("pre", 0) + 1, "slabs filled at the start");
	for (size_t i = 0; i < pre * P[0].count; i++) do_alloc(0);
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			uint64_t h = live.key(S.key(0));
			for (int k = 0; k < NP; k++) h = mc::hash_mem(h, &P[k].p, sizeof P[k].p);
			mc::state(h, depth - step);
		}
		if (step == depth) break;
		/* enumerate the operations enabled here */
		struct Op { int kind, pool; uintptr_t a; };
		std::vector<Op> ops;
		for (int k = 0; k < NP; k++) {
			Pool &o = P[k];
			bool room = (int)o.slabs.size() < maxslabs || o.nlive() < maxslabs * o.count;
			if (room) ops.push_back(Op{0, k, 0});
			if (room && macro) ops.push_back(Op{1, k, 0});
			for (auto &s : o.slabs) {
				if (s.objs.empty()) continue;
				ops.push_back(Op{2, k, s.objs[0]});
				if (s.objs.size() > 1) ops.push_back(Op{2, k, s.objs.back()});
				if (!macro && mc::opt("every", 0)) for (size_t i = 1; i + 1 < s.objs.size(); i++) ops.push_back(Op{2, k, s.objs[i]});
				if (macro && s.objs.size() > 2) { ops.push_back(Op{3, k, s.a}); ops.push_back(Op{4, k, s.a}); }
				if (macro && s.objs.size() > 1) ops.push_back(Op{5, k, s.a});
			}
		}
		if (sq) ops.push_back(Op{6, 0, 0});
		Op op = ops[mc::choose(ops.size(), "op")];
		Pool &o = P[op.pool];
		auto slab = [&](uintptr_t a) -> Slab * { for (auto &s : o.slabs) if (s.a == a) return &s; return NULL; };
		switch (op.kind) {
		case 0: do_alloc(op.pool); break;
		case 1: for (size_t i = 0; i < o.count; i++) if (!do_alloc(op.pool)) break; break;    /* one slab's worth */
		case 2: do_free(op.pool, op.a); break;
		case 3: while (slab(op.a) && slab(op.a)->objs.size() > 1) do_free(op.pool, slab(op.a)->objs[0]); break;   /* all but one */
		case 4: while (slab(op.a) && o.count - slab(op.a)->objs.size() + 1 < o.count / 8) do_free(op.pool, slab(op.a)->objs.back()); if (slab(op.a)) do_free(op.pool, slab(op.a)->objs.back()); break;  /* to the activation threshold */
		case 5: while (slab(op.a) && slab(op.a)->objs.size()) do_free(op.pool, slab(op.a)->objs[0]); break;
		case 6: if (S.squeezed) { LOG("memory available"); S.relax(); } else { LOG("memory refused"); S.squeeze(); S.hog(); } break;
		}
	}
	/* freed objects stay usable: the pool serves its whole capacity again without new slabs */
	if (mc::opt("endfree", 1) && mc::choose(2, "end")) {
		for (int k = 0; k < NP; k++)
			while (P[k].nlive()) for (auto &s : P[k].slabs) if (s.objs.size()) { do_free(k, s.objs[0]); break; }
		for (int k = 0; k < NP; k++) CHECK(P[k].slabs.size() <= 1, "%zu slabs kept by an empty pool", P[k].slabs.size());
	} else {
		if (!S.squeezed) S.squeeze();
		S.hog();
		for (int k = 0; k < NP; k++) {
			size_t held = P[k].slabs.size(), n = 0;
			while (n < 100000 && do_alloc(k)) n++;
			CHECK(P[k].slabs.size() == held, "the pool got %zu slabs while no memory was available", P[k].slabs.size() - held);
			CHECK(P[k].slabs.size() >= held && P[k].nlive() == P[k].slabs.size() * P[k].count, "objects of the pool are lost: %zu live in %zu slabs", P[k].nlive(), P[k].slabs.size());
		}
	}
	for (int k = 0; k < NP; k++) {
		mempool_destroy(&P[k].p);
		CHECK(!mempool_is_initialized(&P[k].p), "initialized after destruction");
	}
	S.relax();
	CHECK(slab_cache_used(&S.cache) == 0, "destroyed pools left %zu bytes in the slab cache", slab_cache_used(&S.cache));
	slab_cache_check(&S.cache);
	S.destroy();
	CHECK(env::mapped_bytes() == 0, "memory remains mapped");
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
