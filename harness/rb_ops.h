#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* One instance of the generated red-black tree behind a table; trees and nodes are opaque. */
struct rb_ops {
	const char *name;
	bool ext_key, aug;
	size_t node_size, tree_size, iter_size, walk_size;
	void (*create)(void *t);
	bool (*empty)(void *t);
	void *(*first)(void *t), *(*last)(void *t), *(*next)(void *t, void *n), *(*prev)(void *t, void *n);
	void *(*search)(void *t, int key), *(*nsearch)(void *t, int key), *(*psearch)(void *t, int key);
	void (*insert)(void *t, void *n), (*remove)(void *t, void *n);
	void *(*it_get)(void *it);
	bool (*icreate)(void *t, void *n, void *it);
	void (*ifirst)(void *t, void *it), (*ilast)(void *t, void *it);
	void *(*inext)(void *it), *(*iprev)(void *it);
	bool (*isearch)(void *t, int key, void *it);
	void (*ile)(void *t, int key, void *it), (*ige)(void *t, int key, void *it), (*ilt)(void *t, int key, void *it), (*igt)(void *t, int key, void *it);
	void *(*iter)(void *t, void *start, void *(*cb)(void *n, void *arg), void *arg);
	void *(*riter)(void *t, void *start, void *(*cb)(void *n, void *arg), void *arg);
	void (*walk_init)(void *w, void *t);
	void *(*walk_next)(void *w, int dir, void **l, void **r);
	bool (*red)(void *n);
	int *(*key)(void *n), *(*group)(void *n);
	long *(*weight)(void *n), *(*size)(void *n), *(*sum)(void *n);
};
extern const struct rb_ops rb_a, rb_b, rb_c, rb_d;
#ifdef __cplusplus
}
#endif
