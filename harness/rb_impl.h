/* Instantiates the tree: X is the table's name. */
#include <assert.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include "rb_ops.h"
#ifdef TREEARG
#define RB_CMP_TREE_ARG
#endif
#include "rb.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
typedef struct node { long weight, size, sum; rb_node(struct node) link; int k, g; } node_t;
typedef rb_tree(node_t, int magic;) tree_t;
#ifdef TREEARG
#define TA tree_t *tree_arg,
#define TCHK if (tree_arg == NULL || tree_arg->magic != 4711) abort();
#else
#define TA
#define TCHK
#endif
static int cmp_(TA const node_t *a, const node_t *b) { TCHK return (a->k > b->k) - (a->k < b->k); }
#ifdef AUG
static void aug_(node_t *n, const node_t *l, const node_t *r)
{
	n->size = 1 + (l ? l->size : 0) + (r ? r->size : 0);
	n->sum = n->weight + (l ? l->sum : 0) + (r ? r->sum : 0);
}
#endif
#ifdef EXTKEY
static int kcmp_(TA int key, const node_t *b) { TCHK return (key > b->g) - (key < b->g); }
#define KEY(k) (k)
#ifdef AUG
rb_gen_ext_key_aug(static __attribute__((unused)), t_, tree_t, node_t, link, cmp_, int, kcmp_, aug_)
#else
rb_gen_ext_key(static __attribute__((unused)), t_, tree_t, node_t, link, cmp_, int, kcmp_)
#endif
#else
static const node_t *mk(node_t *n, int k) { memset(n, 0xAB, sizeof *n); n->k = k; return n; }
#define KEY(k) mk(&(node_t){0}, k)
#ifdef AUG
rb_gen_aug(static __attribute__((unused)), t_, tree_t, node_t, link, cmp_, aug_)
#else
rb_gen(static __attribute__((unused)), t_, tree_t, node_t, link, cmp_)
#endif
#endif
static void x_create(void *t) { t_new((tree_t *)t); ((tree_t *)t)->magic = 4711; }
static bool x_empty(void *t) { return t_empty((tree_t *)t); }
static void *x_first(void *t) { return t_first((tree_t *)t); }
static void *x_last(void *t) { return t_last((tree_t *)t); }
static void *x_next(void *t, void *n) { return t_next((tree_t *)t, (node_t *)n); }
static void *x_prev(void *t, void *n) { return t_prev((tree_t *)t, (node_t *)n); }
static void *x_search(void *t, int k) { return t_search((tree_t *)t, KEY(k)); }
static void *x_nsearch(void *t, int k) { return t_nsearch((tree_t *)t, KEY(k)); }
static void *x_psearch(void *t, int k) { return t_psearch((tree_t *)t, KEY(k)); }
static void x_insert(void *t, void *n) { t_insert((tree_t *)t, (node_t *)n); }
static void x_remove(void *t, void *n) { t_remove((tree_t *)t, (node_t *)n); }
static void *x_get(void *it) { return t_iterator_get((struct t_iterator *)it); }
static bool x_icreate(void *t, void *n, void *it) { return t_icreate((tree_t *)t, (node_t *)n, (struct t_iterator *)it); }
static void x_ifirst(void *t, void *it) { t_ifirst((tree_t *)t, (struct t_iterator *)it); }
static void x_ilast(void *t, void *it) { t_ilast((tree_t *)t, (struct t_iterator *)it); }
static void *x_inext(void *it) { return t_inext((struct t_iterator *)it); }
static void *x_iprev(void *it) { return t_iprev((struct t_iterator *)it); }
static bool x_isearch(void *t, int k, void *it) { return t_isearch((tree_t *)t, KEY(k), (struct t_iterator *)it); }
static void x_ile(void *t, int k, void *it) { t_isearch_le((tree_t *)t, KEY(k), (struct t_iterator *)it); }
static void x_ige(void *t, int k, void *it) { t_isearch_ge((tree_t *)t, KEY(k), (struct t_iterator *)it); }
static void x_ilt(void *t, int k, void *it) { t_isearch_lt((tree_t *)t, KEY(k), (struct t_iterator *)it); }
static void x_igt(void *t, int k, void *it) { t_isearch_gt((tree_t *)t, KEY(k), (struct t_iterator *)it); }
struct cbarg { void *(*cb)(void *, void *); void *arg; };
static node_t *x_cb(tree_t *t, node_t *n, void *a) { struct cbarg *c = (struct cbarg *)a; (void)t; return (node_t *)c->cb(n, c->arg); }
static void *x_iter(void *t, void *s, void *(*cb)(void *, void *), void *arg) { struct cbarg c = {cb, arg}; return t_iter((tree_t *)t, (node_t *)s, x_cb, &c); }
static void *x_riter(void *t, void *s, void *(*cb)(void *, void *), void *arg) { struct cbarg c = {cb, arg}; return t_reverse_iter((tree_t *)t, (node_t *)s, x_cb, &c); }
static void x_walk_init(void *w, void *t) { t_walk_init((struct t_walk *)w, (tree_t *)t); }
static void *x_walk_next(void *w, int dir, void **l, void **r)
{
	node_t *a = (node_t *)*l, *b = (node_t *)*r;
	node_t *n = t_walk_next((struct t_walk *)w, dir, &a, &b);
	*l = a; *r = b;
	return n;
}
static bool x_red(void *n) { return rbtn_red_get(node_t, link, (node_t *)n); }
static int *x_key(void *n) { return &((node_t *)n)->k; }
static int *x_group(void *n) { return &((node_t *)n)->g; }
static long *x_weight(void *n) { return &((node_t *)n)->weight; }
static long *x_size(void *n) { return &((node_t *)n)->size; }
static long *x_sum(void *n) { return &((node_t *)n)->sum; }
#ifdef EXTKEY
#define EK true
#else
#define EK false
#endif
#ifdef AUG
#define AU true
#else
#define AU false
#endif
const struct rb_ops X = { STR(X), EK, AU, sizeof(node_t), sizeof(tree_t), sizeof(struct t_iterator), sizeof(struct t_walk),
	x_create, x_empty, x_first, x_last, x_next, x_prev, x_search, x_nsearch, x_psearch, x_insert, x_remove, x_get, x_icreate, x_ifirst, x_ilast,
	x_inext, x_iprev, x_isearch, x_ile, x_ige, x_ilt, x_igt, x_iter, x_riter, x_walk_init, x_walk_next, x_red, x_key, x_group, x_weight, x_size, x_sum };
