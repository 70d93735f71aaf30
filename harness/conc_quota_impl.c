/* Instrumented: the quota code under test. */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <assert.h>
#include <sys/types.h>
#include "quota.h"
#include "quota_lessor.h"
ssize_t i_use(struct quota *q, size_t n) { return quota_use(q, n); }
ssize_t i_release(struct quota *q, size_t n) { return quota_release(q, n); }
ssize_t i_set(struct quota *q, size_t n) { return quota_set(q, n); }
void i_get(struct quota *q, size_t *t, size_t *u) { quota_get_total_and_used(q, t, u); }
size_t i_used(struct quota *q) { return quota_used(q); }
size_t i_total(struct quota *q) { return quota_total(q); }
void i_init(struct quota *q, size_t n) { quota_init(q, n); }
void l_create(struct quota_lessor *l, struct quota *q) { quota_lessor_create(l, q); }
void l_destroy(struct quota_lessor *l) { quota_lessor_destroy(l); }
ssize_t l_lease(struct quota_lessor *l, size_t n) { return quota_lease(l, n); }
ssize_t l_end(struct quota_lessor *l, size_t n) { return quota_end_lease(l, n); }
size_t l_leased(struct quota_lessor *l) { return quota_leased(l); }
size_t l_avail(struct quota_lessor *l) { return quota_available(l); }
