/* Instrumented: the lock-free stack under test. */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <assert.h>
#include "lf_lifo.h"
void s_init(struct lf_lifo *h) { lf_lifo_init(h); }
void s_push(struct lf_lifo *h, void *e) { lf_lifo_push(h, e); }
void *s_pop(struct lf_lifo *h) { return lf_lifo_pop(h); }
int s_empty(struct lf_lifo *h) { return lf_lifo_is_empty(h); }
