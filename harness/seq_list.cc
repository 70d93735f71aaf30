/* C25: intrusive lists, the intrusive stack and slab lists against plain sequences. */
#include "mc.h"
#include <string.h>
#include <stdlib.h>
#include <vector>
#include <algorithm>
extern "C" {
#include "rlist.h"
#include "lifo.h"
#include "slab_list.h"
}
struct E { long before; struct rlist link; long after; };
static struct { struct rlist h[3]; struct E e[5]; } M;
static int H, N;
enum { CREATED = -1, DIRTY = -2 };
static std::vector<int> L[3];
static bool dirty[3];
static int where[5];        /* list, CREATED or DIRTY */
static void put(int l, size_t pos, int e) { L[l].insert(L[l].begin() + pos, e); where[e] = l; }
static size_t idx(int e) { return std::find(L[where[e]].begin(), L[where[e]].end(), e) - L[where[e]].begin(); }
static void take(int e) { L[where[e]].erase(L[where[e]].begin() + idx(e)); where[e] = CREATED; }
static int id(struct E *e) { return e - M.e; }
static int id(struct rlist *n) { return n ? id(rlist_entry(n, struct E, link)) : -1; }
static std::string show(const std::vector<int> &v) { std::string s; for (int i : v) s += (char)('a' + i); return s; }
static void same(const char *what, int l, const std::vector<int> &got, const std::vector<int> &want)
{
	CHECK(got == want, "%s of list %d gives '%s', expected '%s'", what, l, show(got).c_str(), show(want).c_str());
}
/* a broken list may be endless */
#define STEP(v, l, what) CHECK(v.size() <= (size_t)N, "%s of list %d does not end", what, l)
static void check()
{
	struct rlist *n; struct E *e, *tmp;
	for (int l = 0; l < H; l++) {
		if (dirty[l]) continue;
		struct rlist *h = &M.h[l];
		std::vector<int> f, r, rev(L[l].rbegin(), L[l].rend());
		rlist_foreach(n, h) { f.push_back(id(n)); STEP(f, l, "iteration"); }
		same("iteration", l, f, L[l]);
		rlist_foreach_reverse(n, h) { r.push_back(id(n)); STEP(r, l, "reverse iteration"); }
		same("reverse iteration", l, r, rev);
		f.clear(); rlist_foreach_entry(e, h, link) { f.push_back(id(e)); STEP(f, l, "entry iteration"); } same("entry iteration", l, f, L[l]);
		f.clear(); rlist_foreach_entry_reverse(e, h, link) { f.push_back(id(e)); STEP(f, l, "reverse entry iteration"); } same("reverse entry iteration", l, f, rev);
		f.clear(); rlist_foreach_entry_safe(e, h, link, tmp) { f.push_back(id(e)); STEP(f, l, "safe iteration"); } same("safe iteration", l, f, L[l]);
		f.clear(); rlist_foreach_entry_safe_reverse(e, h, link, tmp) { f.push_back(id(e)); STEP(f, l, "safe reverse iteration"); } same("safe reverse iteration", l, f, rev);
		CHECK(!!rlist_empty(h) == L[l].empty(), "list %d of %zu elements is %sempty", l, L[l].size(), rlist_empty(h) ? "" : "not ");
		if (L[l].empty()) continue;
		CHECK(id(rlist_first(h)) == L[l].front() && id(rlist_first_entry(h, struct E, link)) == L[l].front(), "first of list %d", l);
		CHECK(id(rlist_last(h)) == L[l].back() && id(rlist_last_entry(h, struct E, link)) == L[l].back(), "last of list %d", l);
		for (size_t i = 0; i < L[l].size(); i++) {
			e = &M.e[L[l][i]];
			CHECK(!rlist_entry_is_head(e, h, link), "an element is taken for the head");
			if (i + 1 < L[l].size()) {
				CHECK(id(rlist_next(&e->link)) == L[l][i + 1] && id(rlist_next_entry(e, link)) == L[l][i + 1], "next of '%c'", 'a' + L[l][i]);
			} else CHECK(rlist_next(&e->link) == h && rlist_entry_is_head(rlist_next_entry(e, link), h, link), "the last element is not followed by the head");
			if (i) {
				CHECK(id(rlist_prev(&e->link)) == L[l][i - 1] && id(rlist_prev_entry(e, link)) == L[l][i - 1], "previous of '%c'", 'a' + L[l][i]);
				CHECK(id(rlist_prev_entry_safe(e, h, link)) == L[l][i - 1], "safe previous of '%c'", 'a' + L[l][i]);
			} else {
				CHECK(rlist_prev(&e->link) == h, "the first element does not follow the head");
				CHECK(rlist_prev_entry_safe(e, h, link) == NULL, "there is an element before the first");
			}
		}
	}
	for (int i = 0; i < N; i++) {
		if (where[i] == CREATED) CHECK(rlist_empty(&M.e[i].link), "'%c' is in no list but not empty", 'a' + i);
		CHECK(M.e[i].before == i && M.e[i].after == ~i, "the payload of '%c' changed", 'a' + i);
	}
}
static void lists()
{
	int depth = mc::opt("depth", 5), full = mc::opt("full", 1);
	H = mc::opt("heads", 2); N = mc::opt("n", 4);
	memset(&M, 0xAB, sizeof M);
	for (int i = 0; i < N; i++) { M.e[i].before = i; M.e[i].after = ~i; where[i] = DIRTY; }
	static RLIST_HEAD(st);
	CHECK(rlist_empty(&st), "a list with a static initialiser is not empty");
	for (int l = 0; l < H; l++) { L[l].clear(); dirty[l] = true; }
	/* head 0 is a list, the others hold garbage */
	rlist_create(&M.h[0]); dirty[0] = false;
	for (int l = 1; l < H; l++) {
		static const char *g[] = {"poison", "itself", "head 0", "element a"};
		int k = mc::choose(4, "garbage");
		struct rlist *p = k == 1 ? &M.h[l] : k == 2 ? &M.h[0] : &M.e[0].link;
		if (k) M.h[l].next = M.h[l].prev = p;
		LOG("head %d holds %s", l, g[k]);
	}
	for (int step = 0;; step++) {
		if (mc::fresh()) {
			check();
			uint64_t k = mc::hash_mem(0, M.h, sizeof M.h);
			for (int i = 0; i < N; i++) k = mc::mix(mc::hash_mem(k, &M.e[i].link, sizeof(struct rlist)), where[i] + 7);
			for (int l = 0; l < H; l++) k = mc::mix(k, dirty[l]);
			uint64_t o = 0;
			for (int l = 0; l < H; l++) { o = mc::mix(o, dirty[l] ? 99 : 98); for (int i : L[l]) o = mc::mix(o, i); }
			mc::outcome(o);
			mc::state(k, depth - step);
		}
		if (step == depth) break;
		struct Op { int k, a, b; };
		std::vector<Op> ops;
		for (int l = 0; l < H; l++) {
			if (dirty[l]) { ops.push_back(Op{0, l, 0}); continue; }
			for (int e = 0; e < N; e++) {
				if (where[e] < 0) { ops.push_back(Op{1, l, e}); ops.push_back(Op{2, l, e}); }
				if (where[e] != DIRTY) { ops.push_back(Op{3, l, e}); ops.push_back(Op{4, l, e}); }
			}
			if (!L[l].empty()) {
				ops.push_back(Op{5, l, 0}); ops.push_back(Op{6, l, 0});
				ops.push_back(Op{7, l, 0});      /* abandon */
				if (full) for (int m = 1; m < 1 << L[l].size(); m++) { ops.push_back(Op{8, l, m}); ops.push_back(Op{9, l, m}); }
			}
			for (int m = 0; m < H; m++) if (m != l) {
				if (!dirty[m] && l < m) ops.push_back(Op{10, l, m});
				if (!dirty[m]) { ops.push_back(Op{11, l, m}); ops.push_back(Op{12, l, m}); }
			}
		}
		for (int l = 0; l < H; l++) for (int m = 0; m < H; m++) if (m != l && !dirty[m])
			for (int i = 0; i <= (int)L[m].size(); i++) ops.push_back(Op{13, l, m * 16 + i});
		for (int e = 0; e < N; e++) if (where[e] != DIRTY) {
			ops.push_back(Op{14, e, 0});
			if (where[e] >= 0) for (int f = 0; f < N; f++) if (f != e) {
				if (where[f] < 0) { ops.push_back(Op{15, e, f}); ops.push_back(Op{16, e, f}); }
				if (where[f] != DIRTY) { ops.push_back(Op{17, e, f}); ops.push_back(Op{18, e, f}); }
			}
		}
		Op op = ops[mc::choose(ops.size(), "op")];
		int l = op.a, e = op.b;
		switch (op.k) {
		case 0: LOG("create %d", l); rlist_create(&M.h[l]); dirty[l] = false; L[l].clear(); break;
		case 1: LOG("add %d %c", l, 'a' + e); if (step & 1) rlist_add(&M.h[l], &M.e[e].link); else rlist_add_entry(&M.h[l], &M.e[e], link); put(l, 0, e); break;
		case 2: LOG("add_tail %d %c", l, 'a' + e); if (step & 1) rlist_add_tail(&M.h[l], &M.e[e].link); else rlist_add_tail_entry(&M.h[l], &M.e[e], link); put(l, L[l].size(), e); break;
		case 3: LOG("move %d %c", l, 'a' + e); if (step & 1) rlist_move(&M.h[l], &M.e[e].link); else rlist_move_entry(&M.h[l], &M.e[e], link); if (where[e] >= 0) take(e); put(l, 0, e); break;
		case 4: LOG("move_tail %d %c", l, 'a' + e); if (step & 1) rlist_move_tail(&M.h[l], &M.e[e].link); else rlist_move_tail_entry(&M.h[l], &M.e[e], link); if (where[e] >= 0) take(e); put(l, L[l].size(), e); break;
		case 5: {
			LOG("shift %d", l);
			int g = step & 1 ? id(rlist_shift(&M.h[l])) : id(rlist_shift_entry(&M.h[l], struct E, link));
			CHECK(g == L[l].front(), "shift returned '%c', expected '%c'", 'a' + g, 'a' + L[l].front());
			take(g); break;
		}
		case 6: {
			LOG("shift_tail %d", l);
			int g = step & 1 ? id(rlist_shift_tail(&M.h[l])) : id(rlist_shift_tail_entry(&M.h[l], struct E, link));
			CHECK(g == L[l].back(), "shift_tail returned '%c', expected '%c'", 'a' + g, 'a' + L[l].back());
			take(g); break;
		}
		case 7: LOG("forget the content of %d", l); for (int x : L[l]) where[x] = DIRTY; L[l].clear(); dirty[l] = true; break;
		case 8: case 9: {
			LOG("delete elements of %d while iterating %s, mask %x", l, op.k == 8 ? "forward" : "backward", op.b);
			std::vector<int> was = L[l], f; struct E *i, *tmp;
			if (op.k == 8) { rlist_foreach_entry_safe(i, &M.h[l], link, tmp) { f.push_back(id(i)); STEP(f, l, "safe iteration"); if (op.b >> (f.size() - 1) & 1) rlist_del_entry(i, link); } }
			else { rlist_foreach_entry_safe_reverse(i, &M.h[l], link, tmp) { f.push_back(id(i)); STEP(f, l, "safe reverse iteration"); if (op.b >> (f.size() - 1) & 1) rlist_del_entry(i, link); } std::reverse(was.begin(), was.end()); }
			same("iteration with removal", l, f, was);
			for (size_t j = 0; j < was.size(); j++) if (op.b >> j & 1) take(was[j]);
			break;
		}
		case 10: LOG("swap %d %d", l, e); if (step & 1) rlist_swap(&M.h[l], &M.h[e]); else rlist_swap(&M.h[e], &M.h[l]); L[l].swap(L[e]); for (int x : L[l]) where[x] = l; for (int x : L[e]) where[x] = e; break;
		case 11: LOG("splice %d %d", l, e); rlist_splice(&M.h[l], &M.h[e]); L[l].insert(L[l].begin(), L[e].begin(), L[e].end()); L[e].clear(); for (int x : L[l]) where[x] = l; break;
		case 12: LOG("splice_tail %d %d", l, e); rlist_splice_tail(&M.h[l], &M.h[e]); L[l].insert(L[l].end(), L[e].begin(), L[e].end()); L[e].clear(); for (int x : L[l]) where[x] = l; break;
		case 13: {
			int m = op.b / 16, i = op.b % 16;
			struct rlist *item = i == (int)L[m].size() ? &M.h[m] : &M.e[L[m][i]].link;
			LOG("cut_before to %d from %d at %d", l, m, i);
			rlist_cut_before(&M.h[l], &M.h[m], item);
			if (!dirty[l]) for (int x : L[l]) where[x] = DIRTY;
			dirty[l] = false;
			L[l].assign(L[m].begin(), L[m].begin() + i); L[m].erase(L[m].begin(), L[m].begin() + i);
			for (int x : L[l]) where[x] = l;
			break;
		}
		case 14: LOG("del %c", 'a' + l); if (step & 1) rlist_del(&M.e[l].link); else rlist_del_entry(&M.e[l], link); if (where[l] >= 0) take(l); break;
		case 15: LOG("add %c after %c", 'a' + e, 'a' + l); rlist_add(&M.e[l].link, &M.e[e].link); put(where[l], idx(l) + 1, e); break;
		case 16: LOG("add %c before %c", 'a' + e, 'a' + l); rlist_add_tail(&M.e[l].link, &M.e[e].link); put(where[l], idx(l), e); break;
		case 17: LOG("move %c after %c", 'a' + e, 'a' + l); rlist_move(&M.e[l].link, &M.e[e].link); if (where[e] >= 0) take(e); put(where[l], idx(l) + 1, e); break;
		case 18: LOG("move %c before %c", 'a' + e, 'a' + l); rlist_move_tail(&M.e[l].link, &M.e[e].link); if (where[e] >= 0) take(e); put(where[l], idx(l), e); break;
		}
	}
}
static void stack()
{
	int depth = mc::opt("depth", 8), n = mc::opt("n", 4);
	static struct S { struct lifo l; long v; } s[6];
	static struct lifo head[2];
	memset(s, 0xAB, sizeof s); memset(head, 0xAB, sizeof head);
	std::vector<int> st[2];
	bool in[6] = {};
	lifo_init(&head[0]); lifo_init(&head[1]);
	for (int i = 0; i < n; i++) s[i].v = i;
	for (int step = 0;; step++) {
		uint64_t k = 0;
		for (int h = 0; h < 2; h++) {
			CHECK(lifo_is_empty(&head[h]) == st[h].empty(), "a stack of %zu is %sempty", st[h].size(), lifo_is_empty(&head[h]) ? "" : "not ");
			CHECK(lifo_peek(&head[h]) == (st[h].empty() ? NULL : (void *)&s[st[h].back()]), "the top is wrong");
			k = mc::mix(k, 77); for (int i : st[h]) k = mc::mix(k, i);
		}
		for (int i = 0; i < n; i++) CHECK(s[i].v == i, "payload changed");
		mc::outcome(k);
		k = mc::hash_mem(k, s, sizeof s);
		mc::state(k, depth - step);
		if (step == depth) break;
		int c = mc::choose(2 * (n + 2), "op"), h = c / (n + 2); c %= n + 2;
		if (c < n) {
			if (in[c]) mc::prune();
			LOG("push %d on %d", c, h);
			lifo_push(&head[h], &s[c]); st[h].push_back(c); in[c] = true;
		} else if (c == n) {
			struct S *p = (struct S *)lifo_pop(&head[h]);
			LOG("pop from %d -> %ld", h, p ? (long)(p - s) : -1);
			CHECK(p == (st[h].empty() ? NULL : &s[st[h].back()]), "popped element %ld, expected %d", p ? (long)(p - s) : -1, st[h].empty() ? -1 : st[h].back());
			if (p) { in[st[h].back()] = false; st[h].pop_back(); }
		} else { LOG("init %d", h); lifo_init(&head[h]); for (int i : st[h]) in[i] = false; st[h].clear(); }
	}
}
static void slabs()
{
	int depth = mc::opt("depth", 6);
	static struct S { long v; size_t size; struct rlist link; } s[4];
	static struct slab_list sl[2];
	static const size_t sz[] = {1, 65536, (size_t)1 << 32, SIZE_MAX / 2};
	memset(s, 0xAB, sizeof s); memset(sl, 0xAB, sizeof sl);
	std::vector<int> m[2];
	size_t used[2] = {0, 0};
	int in[4] = {-1, -1, -1, -1};
	for (int i = 0; i < 4; i++) s[i].size = sz[i];
	for (int h = 0; h < 2; h++) slab_list_create(&sl[h]);
	for (int step = 0;; step++) {
		uint64_t k = 0;
		for (int h = 0; h < 2; h++) {
			std::vector<int> f; size_t tot = 0; struct S *i;
			rlist_foreach_entry(i, &sl[h].slabs, link) { f.push_back(i - s); CHECK(f.size() < 5, "endless slab list"); }
			CHECK(f == m[h], "the slab list is in a wrong order");
			for (int x : m[h]) { tot += sz[x]; k = mc::mix(k, x); }
			CHECK(sl[h].stats.total == tot, "total of the slab list is %zu, expected %zu", sl[h].stats.total, tot);
			CHECK(sl[h].stats.used == used[h], "used of the slab list is %zu, expected %zu", sl[h].stats.used, used[h]);
			k = mc::mix(k, 77 + used[h]);
		}
		mc::outcome(k);
		mc::state(mc::hash_mem(k, s, sizeof s), depth - step);
		if (step == depth) break;
		int c = mc::choose(2 * 8, "op"), h = c / 8; c %= 8;
		if (c < 4) {
			if (in[c] >= 0) mc::prune();
			LOG("add %d to %d", c, h);
			slab_list_add(&sl[h], &s[c], link); m[h].insert(m[h].begin(), c); in[c] = h;
		} else if (c < 6) {
			if (m[h].empty()) mc::prune();
			int i = c == 4 ? m[h].front() : m[h].back();
			LOG("del %d from %d", i, h);
			slab_list_del(&sl[h], &s[i], link); m[h].erase(std::find(m[h].begin(), m[h].end(), i)); in[i] = -1;
		} else if (c == 6) { if (used[h]) mc::prune(); LOG("account in %d", h); sl[h].stats.used += 10; used[h] += 10; }
		else {
			LOG("create %d", h);
			slab_list_create(&sl[h]); for (int i : m[h]) in[i] = -1; m[h].clear(); used[h] = 0;
		}
	}
}
static void exec()
{
	switch (mc::opt("kind", 0)) { case 0: lists(); break; case 1: stack(); break; default: slabs(); }
}
int main(int argc, char **argv) { return mc::main(argc, argv, exec); }
