/* C26: every reachable shape of the red-black tree with up to N nodes.
 * Explicit-state search over the real code: a state is a tree (shape and colours; keys are renumbered in order, which no
 * comparison can notice), a transition inserts a node at any position or removes any node. */
#include "mc.h"
#include <string.h>
#include <math.h>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include "rb_ops.h"
static const rb_ops *T;
static int N, DUP;
static char *mem, *nodes, *tree;          /* one block: tree, then the nodes */
static size_t memsz;
static char *slot(int i) { return nodes + i * T->node_size; }
static int id(void *p) { return p ? (int)(((char *)p - nodes) / T->node_size) : -1; }
static std::vector<int> order;            /* nodes of the current tree in key order */
static std::vector<int> Lc, Rc;           /* children by slot, as the walk reports them */
static int root;
struct State { std::vector<char> img; std::vector<int> order; int parent; int op, arg; };
static std::deque<State> all;
static int cur = -1;
static void dump()
{
	if (!mc::logging) return;
	std::vector<int> p;
	for (int s = cur; s > 0; s = all[s].parent) p.push_back(s);
	mc::log_("history from the empty tree (positions in key order):");
	for (size_t i = p.size(); i-- > 0;) mc::log_("%s position %d", all[p[i]].op ? "remove" : "insert at", all[p[i]].arg);
}
static int opk = -1, oparg;
#define CK(c, ...) do { mc::n_checks++; if (__builtin_expect(!(c), 0)) { dump(); if (opk >= 0 && mc::logging) mc::log_("%s position %d", opk ? "remove" : "insert at", oparg); mc::fail(__VA_ARGS__); } } while (0)
static int mkey(int pos) { return T->ext_key ? 2 * (pos / DUP) + 1 : 2 * pos + 1; }
static void renumber()
{
	for (size_t i = 0; i < order.size(); i++) { *T->key(slot(order[i])) = 2 * i + 1; *T->group(slot(order[i])) = 2 * (i / DUP) + 1; }
}
/* Reads the shape through the traversal interface. */
static std::vector<int> pre;
static void shape()
{
	std::vector<uint64_t> wk(T->walk_size / 8 + 8, 0xABABABABABABABABull);
	T->walk_init(wk.data(), tree);
	Lc.assign(N + 1, -2); Rc.assign(N + 1, -2); pre.clear(); root = -1;
	for (;;) {
		void *l = (void *)8, *r = (void *)8;
		void *n = T->walk_next(wk.data(), 3, &l, &r);
		if (!n) break;
		int i = id(n);
		CK(i >= 0 && i <= N && n == slot(i), "the traversal returns %p, which is no node", n);
		if (root < 0) root = i;
		CK(Lc[i] == -2, "the traversal visits a node twice");
		Lc[i] = id(l); Rc[i] = id(r); pre.push_back(i);
		CK(pre.size() <= order.size(), "the traversal visits more than the %zu nodes of the tree", order.size());
	}
	CK(pre.size() == order.size(), "the traversal visits %zu of %zu nodes", pre.size(), order.size());
}
static size_t prepos; static std::vector<int> inord;
static long sz_, sum_;
/* Checks a subtree, returns its black height; key gets its canonical form. */
static int sub(int n, int depth, bool red_parent, uint64_t &key, int &height, long &size, long &sum)
{
	if (n < 0) { key = mc::mix(key, 3); height = 0; size = sum = 0; return 0; }
	CK(prepos < pre.size() && pre[prepos] == n, "the traversal is not in pre-order");
	prepos++;
	bool red = T->red(slot(n));
	key = mc::mix(key, 1 + red);
	CK(!(red && red_parent), "a red node has a red parent");
	int hl, hr; long sl, sr, ul, ur;
	int bl = sub(Lc[n], depth + 1, red, key, hl, sl, ul);
	inord.push_back(n);
	int br = sub(Rc[n], depth + 1, red, key, hr, sr, ur);
	CK(bl == br, "black heights %d and %d", bl, br);
	height = 1 + std::max(hl, hr); size = 1 + sl + sr; sum = *T->weight(slot(n)) + ul + ur;
	if (T->aug) CK(*T->size(slot(n)) == size && *T->sum(slot(n)) == sum, "the aggregate of a node is (%ld, %ld), its subtree has (%ld, %ld)", *T->size(slot(n)), *T->sum(slot(n)), size, sum);
	return bl + !red;
}
static uint64_t valid()
{
	CK(T->empty(tree) == order.empty(), "a tree of %zu nodes is %sempty", order.size(), T->empty(tree) ? "" : "not ");
	shape();
	prepos = 0; inord.clear();
	uint64_t key = 0; int h; long a, b;
	sub(root, 0, true, key, h, a, b);
	CK(inord == order, "in-order traversal does not give the inserted set in order");
	CK(h <= 2 * log2(order.size() + 1) + 1e-9, "height %d with %zu nodes", h, order.size());
	return key;
}
struct Cb { std::vector<int> got; int stop; };
static void *cb(void *n, void *a) { Cb *c = (Cb *)a; c->got.push_back(id(n)); if (c->got.size() > order.size() + 1) mc::fail("endless iteration"); return (int)c->got.size() == c->stop ? n : NULL; }
static void deep()
{
	int n = order.size();
	auto at = [&](int i) { return i < 0 || i >= n ? -1 : order[i]; };
	std::vector<uint64_t> ib(T->iter_size / 8 + 8), ib2;
	void *it = ib.data();
	CK(id(T->first(tree)) == at(0) && id(T->last(tree)) == at(n - 1), "first or last");
	for (int i = 0; i < n; i++) {
		CK(id(T->next(tree, slot(order[i]))) == at(i + 1), "successor of position %d of %d", i, n);
		CK(id(T->prev(tree, slot(order[i]))) == at(i - 1), "predecessor of position %d of %d", i, n);
	}
	/* iterators: whole runs from a position, both ways, and a change of direction after every prefix */
	auto seq = [&](int from, const char *what) {
		CK(id(T->it_get(it)) == at(from), "%s points to the wrong node", what);
		ib2 = ib;
		for (int i = from; from >= 0; i++) {
			CK(id(T->it_get(it)) == at(i), "%s, then forward to position %d of %d", what, i, n);
			CK(id(T->inext(it)) == at(i), "%s, then forward: step to position %d of %d", what, i, n);
			if (i >= n) { CK(T->inext(it) == NULL && T->it_get(it) == NULL, "the iterator leaves the end"); break; }
			if (i + 1 < n) {
				std::vector<uint64_t> s = ib;
				CK(id(T->iprev(it)) == at(i + 1) && id(T->it_get(it)) == at(i), "turning back at position %d of %d", i + 1, n);
				CK(id(T->iprev(it)) == at(i) && id(T->it_get(it)) == at(i - 1), "two steps back from position %d of %d", i + 1, n);
				std::copy(s.begin(), s.end(), ib.begin());
			}
		}
		std::copy(ib2.begin(), ib2.end(), ib.begin());
		for (int i = from; from >= 0; i--) {
			CK(id(T->it_get(it)) == at(i), "%s, then backward to position %d of %d", what, i, n);
			CK(id(T->iprev(it)) == at(i), "%s, then backward: step to position %d of %d", what, i, n);
			if (i < 0) { CK(T->iprev(it) == NULL && T->it_get(it) == NULL, "the iterator leaves the end"); break; }
			if (i > 0) {
				std::vector<uint64_t> s = ib;
				CK(id(T->inext(it)) == at(i - 1) && id(T->it_get(it)) == at(i), "turning forward at position %d of %d", i - 1, n);
				std::copy(s.begin(), s.end(), ib.begin());
			}
		}
	};
	auto dirty = [&] { std::fill(ib.begin(), ib.end(), 0xABABABABABABABABull); };
	dirty(); T->ifirst(tree, it); seq(n ? 0 : -1, "an iterator at the first");
	dirty(); T->ilast(tree, it); seq(n - 1, "an iterator at the last");
	for (int i = 0; i < n; i++) { dirty(); CK(T->icreate(tree, slot(order[i]), it), "no iterator for a node of the tree"); seq(i, "an iterator at a node"); }
	{
		/* a node that is not in the tree, before, between and behind */
		char *x = slot(N);
		for (int q = 0; q <= 2 * n + 1; q += 2) { *T->key(x) = q; dirty(); CK(!T->icreate(tree, x, it), "an iterator for a node not in the tree"); CK(T->it_get(it) == NULL && T->inext(it) == NULL && T->iprev(it) == NULL, "a failed iterator points somewhere"); }
	}
	/* searches */
	int top = n ? mkey(n - 1) + 1 : 2;
	for (int q = 0; q <= top; q++) {
		int lo = 0, hi = 0;
		while (lo < n && mkey(lo) < q) lo++;
		hi = lo; while (hi < n && mkey(hi) == q) hi++;
		/* [lo, hi) match */
		int s = id(T->search(tree, q));
		bool in = false; for (int i = lo; i < hi; i++) in |= order[i] == s;
		CK(lo == hi ? s == -1 : in, "search of key %d", q);
		int ns = id(T->nsearch(tree, q)), ps = id(T->psearch(tree, q));
		CK(ns == (lo == hi ? at(hi) : at(hi - 1)), "next-or-equal search of key %d", q);
		CK(ps == (lo == hi ? at(lo - 1) : at(lo)), "previous-or-equal search of key %d", q);
		dirty(); bool f = T->isearch(tree, q, it);
		CK(f == (lo != hi), "iterator search of key %d", q);
		int g = id(T->it_get(it)), gp = -1;
		for (int i = lo; i < hi; i++) if (order[i] == g) gp = i;
		CK(f ? gp >= 0 : g == -1, "iterator search of key %d points to the wrong node", q);
		if (f) seq(gp, "an exact search");
		dirty(); T->ile(tree, q, it); seq(hi - 1, "a less-or-equal search");
		dirty(); T->ige(tree, q, it); seq(lo < n ? lo : -1, "a greater-or-equal search");
		dirty(); T->ilt(tree, q, it); seq(lo - 1, "a less-than search");
		dirty(); T->igt(tree, q, it); seq(hi < n ? hi : -1, "a greater-than search");
	}
	/* bounded iteration with a callback: every start, every stop */
	for (int st = -1; st < n; st++) for (int stop = 0; stop <= n; stop++) {
		Cb c; c.stop = stop;
		void *r = T->iter(tree, st < 0 ? NULL : slot(order[st]), cb, &c);
		std::vector<int> want(order.begin() + std::max(st, 0), order.end());
		bool stopped = stop && stop <= (int)want.size();
		if (stopped) want.resize(stop);
		CK(c.got == want, "iteration from %d stopping after %d", st, stop);
		CK(id(r) == (stopped ? want.back() : -1), "result of the iteration from %d stopping after %d", st, stop);
		c.got.clear();
		r = T->riter(tree, st < 0 ? NULL : slot(order[st]), cb, &c);
		want.assign(order.rbegin() + (st < 0 ? 0 : n - 1 - st), order.rend());
		stopped = stop && stop <= (int)want.size();
		if (stopped) want.resize(stop);
		CK(c.got == want, "reverse iteration from %d stopping after %d", st, stop);
		CK(id(r) == (stopped ? want.back() : -1), "result of the reverse iteration from %d stopping after %d", st, stop);
	}
	/* walks: a direction for every node; all combinations for small trees, up to two nodes off the common one otherwise */
	std::vector<uint64_t> wk(T->walk_size / 8 + 8);
	auto walk = [&](const std::vector<int> &dir) {
		std::vector<int> want, stack;
		if (root >= 0) stack.push_back(root);
		while (!stack.empty()) {
			int x = stack.back(); stack.pop_back();
			want.push_back(x);
			if ((dir[x] & 2) && Rc[x] >= 0) stack.push_back(Rc[x]);
			if ((dir[x] & 1) && Lc[x] >= 0) stack.push_back(Lc[x]);
		}
		std::fill(wk.begin(), wk.end(), 0xABABABABABABABABull);
		T->walk_init(wk.data(), tree);
		int d = 3;
		for (size_t i = 0; ; i++) {
			void *l = (void *)8, *r = (void *)8;
			void *x = T->walk_next(wk.data(), d, &l, &r);
			CK(id(x) == (i < want.size() ? want[i] : -1), "step %zu of a restricted traversal", i);
			if (!x) break;
			CK(id(l) == Lc[id(x)] && id(r) == Rc[id(x)], "children reported at step %zu of a restricted traversal", i);
			d = dir[id(x)];
		}
	};
	if (n <= 5) {
		for (int m = 0; m < 1 << (2 * n); m++) { std::vector<int> dir(N + 1, 3); for (int i = 0; i < n; i++) dir[order[i]] = m >> (2 * i) & 3; walk(dir); }
	} else for (int base = 0; base < 4; base++) {
		std::vector<int> dir(N + 1, base);
		walk(dir);
		for (int i = 0; i < n; i++) for (int d = 0; d < 4; d++) if (d != base) {
			dir[order[i]] = d; walk(dir);
			for (int j = i + 1; j < n; j++) for (int e = 0; e < 4; e++) if (e != base) { dir[order[j]] = e; walk(dir); dir[order[j]] = base; }
			dir[order[i]] = base;
		}
	}
}
/* Tall trees: long regular histories, invariants and whole traversals at every quarter. */
static void tall(int n)
{
	int io = mc::choose(4, "insertion order"), ro = mc::choose(4, "removal order"), lb = 0;
	while ((1 << lb) < n) lb++;
	N = n; DUP = 1;
	auto pos = [&](int kind, int i) {
		switch (kind) {
		case 0: return i;
		case 1: return n - 1 - i;
		case 2: return i & 1 ? n - 1 - i / 2 : i / 2;
		default: return (int)((uint64_t)i * 40503 % n);          /* n is a power of two: a permutation */
		}
	};
	LOG("instance %s, %d nodes, insertion order %d, removal order %d", T->name, n, io, ro);
	memsz = (T->tree_size + 15) / 16 * 16 + (size_t)(n + 1) * T->node_size;
	mem = (char *)aligned_alloc(64, (memsz + 63) / 64 * 64);
	tree = mem; nodes = mem + (T->tree_size + 15) / 16 * 16;
	memset(mem, 0xAB, memsz);
	T->create(tree);
	std::vector<char> in(n, 0);
	std::vector<uint64_t> ib(T->iter_size / 8 + 8, 0xABABABABABABABABull);
	void *it = ib.data();
	auto look = [&] {
		order.clear();
		for (int i = 0; i < n; i++) if (in[i]) order.push_back(i);
		mc::outcome(mc::mix(valid(), order.size()));
		T->ifirst(tree, it);
		for (int x : order) CK(id(T->inext(it)) == x, "forward iteration over %zu nodes", order.size());
		CK(T->inext(it) == NULL, "forward iteration does not end");
		T->ilast(tree, it);
		for (size_t i = order.size(); i-- > 0;) CK(id(T->iprev(it)) == order[i], "backward iteration over %zu nodes", order.size());
		CK(T->iprev(it) == NULL, "backward iteration does not end");
		for (size_t i = 0; i < order.size(); i++) {
			int nx = i + 1 < order.size() ? order[i + 1] : -1, pv = i ? order[i - 1] : -1, k = 2 * order[i] + 1;
			char *x = slot(order[i]);
			CK(id(T->next(tree, x)) == nx && id(T->prev(tree, x)) == pv, "neighbours of a node");
			CK(T->icreate(tree, x, it) && T->it_get(it) == x, "iterator at a node");
			CK(T->isearch(tree, k, it) && T->it_get(it) == x, "iterator search");
			CK(T->search(tree, k) == x && T->nsearch(tree, k) == x && T->psearch(tree, k) == x, "search");
			CK(T->search(tree, k + 1) == NULL, "search of a missing key");
			T->ile(tree, k, it); CK(T->it_get(it) == x, "less-or-equal search");
			T->ige(tree, k, it); CK(T->it_get(it) == x, "greater-or-equal search");
			T->ilt(tree, k, it); CK(id(T->it_get(it)) == pv, "less-than search");
			T->igt(tree, k, it); CK(id(T->it_get(it)) == nx, "greater-than search");
		}
		mc::count(1, 0);
	};
	auto put = [&](int i) {
		char *x = slot(i);
		memset(x, 0xAB, T->node_size);
		*T->key(x) = *T->group(x) = 2 * i + 1; *T->weight(x) = 1000 + i;
		T->insert(tree, x); in[i] = 1; mc::count(0, 1);
	};
	for (int i = 0; i < n; i++) { put(pos(io, i)); if (i == n / 2) look(); }
	look();
	for (int i = 0; i < n; i++) {
		int p = pos(ro, i);
		T->remove(tree, slot(p)); in[p] = 0; mc::count(0, 1);
		memset(slot(p), 0xCD, T->node_size);
		if (i && i % (n / 4) == 0) look();
		if (i == n / 2) { for (int j = 0; j < n / 4; j++) put(pos(ro, n / 2 - j)); look(); for (int j = 0; j < n / 4; j++) { int p2 = pos(ro, n / 2 - j); T->remove(tree, slot(p2)); in[p2] = 0; } look(); }
	}
	look();
	CK(T->empty(tree), "an emptied tree is not empty");
	free(mem);
}
static void exec()
{
	opk = -1; cur = -1;
	static const rb_ops *const inst[] = {&rb_a, &rb_b, &rb_c, &rb_d};
	N = mc::opt("n", 12); DUP = mc::opt("dup", 3);
	int parts = mc::opt("parts", 16);
	T = inst[mc::choose(4, "instance")];
	if (mc::opt("tall", 0)) return tall(1 << mc::opt("tall", 0));
	int part = mc::choose(parts, "part");
	memsz = (T->tree_size + 15) / 16 * 16 + (N + 1) * T->node_size;
	static char *block; block = (char *)aligned_alloc(64, 1 << 16);
	mem = block; tree = mem; nodes = mem + (T->tree_size + 15) / 16 * 16;
	memset(mem, 0xAB, memsz);
	T->create(tree);
	all.clear(); order.clear();
	std::unordered_set<uint64_t> seen;
	cur = 0; opk = -1;
	seen.insert(valid());
	all.push_back(State{std::vector<char>(mem, mem + memsz), order, -1, 0, 0});
	int maxh = 0;
	for (size_t q = 0; q < all.size(); q++) {
		cur = q;
		auto load = [&] { std::copy(all[q].img.begin(), all[q].img.end(), mem); order = all[q].order; };
		load();
		if (q) LOG("tree %zu = tree %d + %s position %d (%zu nodes)", q, all[q].parent, all[q].op ? "remove" : "insert at", all[q].arg, order.size());
		opk = -1;
		if ((int)(q % parts) == part) {
			mc::count(1, 0);
			valid(); deep();
			CK(std::equal(order.begin(), order.end(), all[q].order.begin()), "internal");
			mc::outcome(mc::mix(q, T - inst[0]));
		}
		int n = order.size();
		for (int op = 0; op < 2; op++) for (int p = 0; p < n + 1 - op; p++) {
			if (op == 0 && n == N) continue;
			load();
			opk = op; oparg = p;
			LOG("  tree %zu: %s position %d", q, op ? "remove" : "insert at", p);
			if (op == 0) {
				std::vector<char> used(N, 0);
				for (int x : order) used[x] = 1;
				int s = 0; while (used[s]) s++;
				memset(slot(s), 0xAB, T->node_size);
				*T->weight(slot(s)) = 1000 + 17 * s;
				*T->key(slot(s)) = 2 * p; *T->group(slot(s)) = -1;
				T->insert(tree, slot(s));
				order.insert(order.begin() + p, s);
			} else {
				int s = order[p];
				order.erase(order.begin() + p);
				T->remove(tree, slot(s));
				memset(slot(s), 0xCD, T->node_size);
			}
			if ((int)(q % parts) == part) mc::count(0, 1);
			uint64_t k = valid();
			if (seen.insert(k).second) { renumber(); all.push_back(State{std::vector<char>(mem, mem + memsz), order, (int)q, op, p}); }
		}
	}
	free(block);
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
