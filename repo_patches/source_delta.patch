From 8bb8aa9ae0781f8144a3addb2371bea428d370b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 01/29] fix: do not overflow in quota_use when the limit is
 close to the maximum

The sum of used and requested units was computed in 32 bits before it was
compared with the limit, so a request that does not fit could wrap around:
an assertion failure in debug builds, and in release builds a success
that resets the accounting.
---
 include/small/quota.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 238d15e..2871423 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -140,12 +140,12 @@ quota_use(struct quota *quota, size_t size)
 		uint32_t total_in_units = value >> 32;
 		uint32_t used_in_units = value & UINT32_MAX;
 
+		if (size_in_units > total_in_units - used_in_units)
+			return -1;
+
 		uint32_t new_used_in_units = used_in_units + size_in_units;
 		assert(new_used_in_units > used_in_units);
 
-		if (new_used_in_units > total_in_units)
-			return -1;
-
 		uint64_t new_value =
 			((uint64_t) total_in_units << 32) | new_used_in_units;
 
-- 
2.43.0


From ace6105bd7e7a475e67efdaee1140e04b63b226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 02/29] fix: allow releasing a quota consumption of QUOTA_MAX

quota_use() grants up to QUOTA_MAX bytes, but returning such an amount
with quota_release() failed an assertion.
---
 include/small/quota.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 2871423..4739407 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -159,7 +159,7 @@ quota_use(struct quota *quota, size_t size)
 static inline ssize_t
 quota_release(struct quota *quota, size_t size)
 {
-	assert(size < QUOTA_MAX);
+	assert(size <= QUOTA_MAX);
 	uint32_t size_in_units = (size + (QUOTA_UNIT_SIZE - 1))
 				  / QUOTA_UNIT_SIZE;
 	assert(size_in_units);
-- 
2.43.0


From 2d47316ce87ac4cd5e6d879fadc34816cd0e9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 03/29] fix: quota_lease must try exactly the required amount
 before failing

The halving loop stopped as soon as half of the last attempt was less
than required, so a lease could fail although the source quota had
enough memory for it.
---
 include/small/quota_lessor.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/small/quota_lessor.h b/include/small/quota_lessor.h
index cdd15f7..a643f27 100644
--- a/include/small/quota_lessor.h
+++ b/include/small/quota_lessor.h
@@ -127,16 +127,18 @@ quota_lease(struct quota_lessor *lessor, ssize_t size)
 	size_t required = size + lessor->leased - lessor->used;
 	size_t use = required > QUOTA_USE_MIN ? required : QUOTA_USE_MIN;
 
-	for (; use >= required; use = use/2) {
-
+	while (1) {
 		ssize_t used = quota_use(lessor->source, use);
 		if (used >= 0) {
 			lessor->used += used;
 			lessor->leased += size;
 			return size;
 		}
+		if (use == required)
+			return -1;
+		/* Take less, but do not give up before trying the minimum. */
+		use = use / 2 > required ? use / 2 : required;
 	}
-	return -1;
 }
 
 /*
-- 
2.43.0


From be85f1d231c3c8a84797e4453000e2f128b575a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 04/29] fix: lf_lifo_is_empty must ignore the ABA counter

After a push and a pop the head keeps a non-zero modification counter in
its low bits, and an empty list was reported as non-empty.
---
 include/small/lf_lifo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/lf_lifo.h b/include/small/lf_lifo.h
index 8181fef..bb876a7 100644
--- a/include/small/lf_lifo.h
+++ b/include/small/lf_lifo.h
@@ -114,7 +114,7 @@ lf_lifo_pop(struct lf_lifo *head)
 static inline bool
 lf_lifo_is_empty(struct lf_lifo *head)
 {
-	return head->next == NULL;
+	return lf_lifo(head->next) == NULL;
 }
 
 #if defined(__cplusplus)
-- 
2.43.0


From 8a4e8fd8f974d0b682a92e6d347cc48791018183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 05/29] fix: refuse slab sizes that overflow when the header is
 added

---
 small/slab_cache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/small/slab_cache.c b/small/slab_cache.c
index 5ac33ad..0b73005 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -270,6 +270,8 @@ slab_get_with_order(struct slab_cache *cache, uint8_t order)
 struct slab *
 slab_get_large(struct slab_cache *cache, size_t size)
 {
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	size += slab_sizeof();
 	if (quota_use(cache->arena->quota, size) < 0)
 		return NULL;
@@ -317,6 +319,8 @@ struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
 	struct slab *slab;
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	uint8_t order = slab_order(cache, size + slab_sizeof());
 	if (order == cache->order_max + 1)
 		slab = slab_get_large(cache, size);
-- 
2.43.0


From 4a5a9d892cd4d08ee5605a1176028bb0549acb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 06/29] fix: return fully free mempool slabs that hold a single
 object

---
 small/mempool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/small/mempool.c b/small/mempool.c
index 72a9719..d82c9b6 100644
--- a/small/mempool.c
+++ b/small/mempool.c
@@ -131,7 +131,9 @@ mslab_free(struct mempool *pool, struct mslab *slab, void *ptr)
 		}
 	} else if (slab->nfree == 1) {
 		rlist_add_entry(&pool->cold_slabs, slab, next_in_cold);
-	} else if (slab->nfree == pool->objcount) {
+	}
+	/* Sic: a slab holding a single object gets here right away. */
+	if (slab->nfree == pool->objcount) {
 		/** Free the slab. */
 		if (slab == pool->first_hot_slab) {
 			pool->first_hot_slab =
-- 
2.43.0


From de46d47a9427fd8fb5bd37abac8dd5cbb3daf3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 07/29] fix: retry smalloc with the pool in use after the sweep

---
 small/small.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/small.c b/small/small.c
index 666cb58..c865ca1 100644
--- a/small/small.c
+++ b/small/small.c
@@ -346,6 +346,8 @@ smalloc(struct small_alloc *alloc, size_t size)
 		 * pools and release their sparse slabs. It might not help tho.
 		 */
 		small_mempool_group_sweep_sparse(alloc);
+		/* The pool in use might have been deactivated. */
+		pool = &small_mempool->used_pool->pool;
 		ptr = mempool_alloc(pool);
 	}
 
-- 
2.43.0


From c01c967a6a38872217fe08bc5532530351c2d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 08/29] fix: region_reset must empty every slab of the region

---
 include/small/region.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 27d142f..0bb2a05 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -307,13 +307,10 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 static inline void
 region_reset(struct region *region)
 {
-	if (! rlist_empty(&region->slabs.slabs)) {
-		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
-						       struct rslab,
-						       slab.next_in_list);
-		region->slabs.stats.used -= slab->used;
+	struct rslab *slab;
+	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list)
 		slab->used = 0;
-	}
+	region->slabs.stats.used = 0;
 #ifndef NDEBUG
 	region->reserved = false;
 #endif
-- 
2.43.0


From 2a57074b98ce8c55188e87a4555e7c9f8e48f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 09/29] fix: do not truncate region sizes to 32 bits

---
 include/small/region.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 0bb2a05..974334a 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -180,7 +180,7 @@ struct rslab
 	 * extra members.
 	 */
 	struct slab slab;
-	uint32_t used;
+	size_t used;
 };
 
 static inline uint32_t
@@ -202,7 +202,7 @@ rslab_data_end(struct rslab *slab)
 }
 
 /** How much memory is available in a given block? */
-static inline uint32_t
+static inline size_t
 rslab_unused(struct rslab *slab)
 {
 	return slab->slab.size - rslab_sizeof() - slab->used;
@@ -284,8 +284,8 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 		 * account for optional padding before the allocated
 		 * block (alignment)
 		 */
-		uint32_t effective_size = (uint32_t)(
-			(char *)ptr - (char *)rslab_data_end(slab) + size);
+		size_t effective_size =
+			(char *)ptr - (char *)rslab_data_end(slab) + size;
 
 		assert(effective_size <= rslab_unused(slab));
 
@@ -395,7 +395,7 @@ struct RegionGuard {
 })
 
 #define region_alloc_array(region, T, count, size) ({				\
-	int _tmp_ = sizeof(T) * (count);					\
+	size_t _tmp_ = sizeof(T) * (count);					\
 	*(size) = _tmp_;							\
 	(T *)region_aligned_alloc((region), _tmp_, alignof(T));			\
 })
-- 
2.43.0


From b9d676b80ead829d218ed6daff15da0b3d6d662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 10/29] fix: refuse region sizes that overflow when headers or
 padding are added

---
 include/small/region.h | 2 ++
 small/region.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 974334a..fad6882 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -261,6 +261,8 @@ region_alloc(struct region *region, size_t size)
 static inline void *
 region_aligned_reserve(struct region *region, size_t size, size_t alignment)
 {
+	if (size > SIZE_MAX - (alignment - 1))
+		return NULL;
 	/* reserve extra to allow for alignment */
 	void *ptr = region_reserve(region, size + alignment - 1);
 	/* assuming NULL==0, aligned NULL still a NULL */
diff --git a/small/region.c b/small/region.c
index 32ab981..c3b0af5 100644
--- a/small/region.c
+++ b/small/region.c
@@ -36,6 +36,8 @@
 void *
 region_reserve_slow(struct region *region, size_t size)
 {
+	if (size > SIZE_MAX - rslab_sizeof())
+		return NULL;
 	/* The new slab must have at least this many bytes available. */
 	size_t slab_min_size = size + rslab_sizeof() - slab_sizeof();
 
-- 
2.43.0


From 58af35479a2d9829a2b35e105a429e00b1fd34b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:48 +0000
Subject: [PATCH 11/29] fix: refuse ibuf sizes that overflow the buffer pointer
 or capacity

---
 include/small/ibuf.h | 4 ++--
 small/ibuf.c         | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/small/ibuf.h b/include/small/ibuf.h
index b67dc9a..aff8016 100644
--- a/include/small/ibuf.h
+++ b/include/small/ibuf.h
@@ -151,7 +151,7 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size);
 static inline void *
 ibuf_reserve(struct ibuf *ibuf, size_t size)
 {
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		ibuf_unpoison_unallocated(ibuf);
 		return ibuf->wpos;
 	}
@@ -162,7 +162,7 @@ static inline void *
 ibuf_alloc(struct ibuf *ibuf, size_t size)
 {
 	void *ptr;
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		/*
 		 * In case of using same buffer we need to unpoison newly
 		 * allocated memory after previous ibuf_alloc or poison after
diff --git a/small/ibuf.c b/small/ibuf.c
index 03370da..6182523 100644
--- a/small/ibuf.c
+++ b/small/ibuf.c
@@ -69,9 +69,12 @@ ibuf_reinit(struct ibuf *ibuf)
 void *
 ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 {
-	assert(ibuf->wpos + size > ibuf->end);
+	assert(size > ibuf_unused(ibuf));
 	size_t used = ibuf_used(ibuf);
 	size_t capacity = ibuf_capacity(ibuf);
+	/* No buffer can be that big, avoid overflows below. */
+	if (size > SIZE_MAX / 2 - used)
+		return NULL;
 	/*
 	 * Check if we have enough space in the
 	 * current buffer. In this case de-fragment it
-- 
2.43.0


From a7aa60ff82d04d9ec9dc7328eb824c2a327ea070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:05 +0000
Subject: [PATCH 12/29] fix: refuse obuf sizes that overflow the vector length
 or capacity

---
 include/small/obuf.h | 4 ++--
 small/obuf.c         | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/small/obuf.h b/include/small/obuf.h
index 898bc27..192fe76 100644
--- a/include/small/obuf.h
+++ b/include/small/obuf.h
@@ -175,7 +175,7 @@ obuf_reserve(struct obuf *buf, size_t size)
 {
 	void *ptr = NULL;
 	assert(!buf->reserved);
-	if (buf->iov[buf->pos].iov_len + size > buf->capacity[buf->pos]) {
+	if (size > buf->capacity[buf->pos] - buf->iov[buf->pos].iov_len) {
 		ptr = obuf_reserve_slow(buf, size);
 	} else {
 		struct iovec *iov = &buf->iov[buf->pos];
@@ -199,7 +199,7 @@ obuf_alloc(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	void *ptr;
-	if (iov->iov_len + size <= buf->capacity[buf->pos]) {
+	if (size <= buf->capacity[buf->pos] - iov->iov_len) {
 		ptr = (char *) iov->iov_base + iov->iov_len;
 	} else {
 		ptr = obuf_reserve_slow(buf, size);
diff --git a/small/obuf.c b/small/obuf.c
index dd0b030..6405c59 100644
--- a/small/obuf.c
+++ b/small/obuf.c
@@ -175,6 +175,9 @@ obuf_reserve_slow(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	size_t capacity = buf->capacity[buf->pos];
+	/* No buffer can be that big, avoid overflows below. */
+	if (size > SIZE_MAX / 2)
+		return NULL;
 	if (iov->iov_len > 0) {
 		/* Move to the next buffer. */
 		if (buf->pos + 1 >= SMALL_OBUF_IOV_MAX)
-- 
2.43.0


From 693ad39d3dcf18bea92f61ce40a9b9bba7e89cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:05 +0000
Subject: [PATCH 13/29] fix: do not leave the current vector when an obuf
 reservation fails

---
 small/obuf.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/small/obuf.c b/small/obuf.c
index 6405c59..e308c94 100644
--- a/small/obuf.c
+++ b/small/obuf.c
@@ -175,6 +175,7 @@ obuf_reserve_slow(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	size_t capacity = buf->capacity[buf->pos];
+	int old_pos = buf->pos;
 	/* No buffer can be that big, avoid overflows below. */
 	if (size > SIZE_MAX / 2)
 		return NULL;
@@ -195,18 +196,22 @@ obuf_reserve_slow(struct obuf *buf, size_t size)
 				capacity = capacity * 2;
 			struct slab *slab = slab_get(buf->slabc, capacity);
 			if (slab == NULL)
-				return NULL;
+				goto fail;
 			struct slab *old =
 				slab_from_data(buf->iov[buf->pos].iov_base);
 			slab_put(buf->slabc, old);
 			buf->iov[buf->pos].iov_base = slab_data(slab);
 			buf->capacity[buf->pos] = slab_capacity(slab);
 		} else if (obuf_alloc_pos(buf, size) == NULL) {
-			return NULL;
+			goto fail;
 		}
 	}
 	assert(buf->iov[buf->pos].iov_len + size <= buf->capacity[buf->pos]);
 	return (char*) buf->iov[buf->pos].iov_base + buf->iov[buf->pos].iov_len;
+fail:
+	/* Keep the room left in the current buffer usable. */
+	buf->pos = old_pos;
+	return NULL;
 }
 
 /** Forget about data in the output buffer beyond the savepoint. */
-- 
2.43.0


From d25d365c34d5820c85127f91a18aff569ed84a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 14/29] fix: assign a new id to the cached lsregion slab when
 it is reused

---
 small/lsregion.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/lsregion.c b/small/lsregion.c
index 4b3446c..b8e585d 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -75,6 +75,8 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		/* If there is the cached slab then use it. */
 		slab = lsregion->cached;
 		lsregion->cached = NULL;
+		/* Slab ids must grow along the list. */
+		slab->slab_id = ++lsregion->slab_id;
 		rlist_add_tail_entry(&lsregion->slabs.slabs, slab,
 				     next_in_list);
 	} else {
-- 
2.43.0


From 0f125db7d1960f8ac1b1b0814c86e2bc844c5468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 15/29] fix: do not stop an lsregion flush at an unused slab

---
 small/lsregion.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/small/lsregion.c b/small/lsregion.c
index b8e585d..fe4d90d 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -105,9 +105,12 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 	int max_iovcnt = *iovcnt;
 	int cnt = 0;
 	rlist_foreach_entry(lslab, &lsregion->slabs.slabs, next_in_list) {
-		/* There might be an unused slab at the end of the list. */
+		/*
+		 * There might be unused slabs, also in the middle of
+		 * the list if reservations grew.
+		 */
 		if (lslab->max_id == LSLAB_NOT_USED_ID)
-			break;
+			continue;
 		/* An already seen slab with no new allocations. */
 		if (lslab->slab_id < prev_id ||
 		    (lslab->slab_id == prev_id &&
-- 
2.43.0


From 5e32ff33b72a77f9f130ba64215bd6fb563739e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 16/29] fix: refuse lsregion sizes that overflow when headers
 or padding are added

---
 include/small/lsregion.h | 13 ++++++++++++-
 small/lsregion.c         |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/small/lsregion.h b/include/small/lsregion.h
index bec534e..4c67487 100644
--- a/include/small/lsregion.h
+++ b/include/small/lsregion.h
@@ -191,6 +191,17 @@ lslab_pos(struct lslab *slab)
 	return (char *) slab + slab->slab_used;
 }
 
+/**
+ * Whether @a size bytes fit into the slab starting from @a pos,
+ * which may be beyond the end of the slab.
+ */
+static inline bool
+lslab_fits(const struct lslab *slab, const void *pos, size_t size)
+{
+	size_t offset = (const char *)pos - (const char *)slab;
+	return offset <= slab->slab_size && size <= slab->slab_size - offset;
+}
+
 /** Pointer to the end of the slab memory. */
 static inline void *
 lslab_end(struct lslab *slab)
@@ -247,7 +258,7 @@ lsregion_aligned_reserve(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		void *pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if (lslab_fits(slab, pos, size))
 			return pos;
 	}
 	return lsregion_aligned_reserve_slow(lsregion, size, alignment,
diff --git a/small/lsregion.c b/small/lsregion.c
index fe4d90d..a7ec085 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -47,9 +47,12 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if (lslab_fits(slab, pos, size))
 			return pos;
 	}
+	/* Too big for any slab, avoid overflows below. */
+	if (size > SIZE_MAX - lslab_sizeof() - alignment)
+		return NULL;
 	/*
 	 * Need to allocate more, since it can happen, that the
 	 * new slab won't be aligned by the needed alignment, and
-- 
2.43.0


From 23c0e95bf2bc76d801bf18bbe3abe54cf66286a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 17/29] fix: refuse static buffer sizes that overflow the
 position or the padding

---
 include/small/static.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/small/static.h b/include/small/static.h
index ab28cb4..76db892 100644
--- a/include/small/static.h
+++ b/include/small/static.h
@@ -73,7 +73,7 @@ static_reset(void)
 static inline void *
 static_reserve(size_t size)
 {
-	if (static_storage_pos + size > SMALL_STATIC_SIZE) {
+	if (size > SMALL_STATIC_SIZE - static_storage_pos) {
 		if (size > SMALL_STATIC_SIZE)
 			return NULL;
 		static_storage_pos = 0;
@@ -105,6 +105,9 @@ static_alloc(size_t size)
 static inline void *
 static_aligned_reserve(size_t size, size_t alignment)
 {
+	/* The sum below must not overflow. */
+	if (size > SMALL_STATIC_SIZE)
+		return NULL;
 	void *unaligned = static_reserve(size + alignment - 1);
 	if (unaligned == NULL)
 		return NULL;
-- 
2.43.0


From f44627507548728cbb7fff1aeb38a4ffb0c53ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 18/29] fix: rlist_cut_before must not look at the old content
 of the destination

---
 include/small/rlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/rlist.h b/include/small/rlist.h
index ae27127..5cd1400 100644
--- a/include/small/rlist.h
+++ b/include/small/rlist.h
@@ -244,7 +244,7 @@ rlist_splice_tail(struct rlist *head1, struct rlist *head2)
 static SMALL_ALWAYS_INLINE void
 rlist_cut_before(struct rlist *head1, struct rlist *head2, struct rlist *item)
 {
-	if (head1->next == item) {
+	if (head2->next == item) {
 		rlist_create(head1);
 		return;
 	}
-- 
2.43.0


From e67b0288fb87597e2f8d757d5daeaef85652aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:50 +0000
Subject: [PATCH 19/29] fix: do not wrap around when destroying a full matras

The loops over the extents counted blocks in 32 bits, so with close to
2^32 blocks the counter wrapped around and the loop went on beyond the
last extent, freeing garbage.
---
 small/matras.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 991eeac..e76f7c3 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -146,9 +146,11 @@ matras_destroy(struct matras *m)
 	if (m->head.block_count == 0)
 		return;
 
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	/* Wide enough not to wrap around when all 2^32 blocks are used. */
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	size_t j1 = 0, j2;
+	matras_id_t i1 = 0, i2;
 	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
@@ -413,9 +415,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	void **extent1p = 0;
 	if (prev_view)
 		extent1p = (void **) prev_view->root;
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	/* Wide enough not to wrap around when all 2^32 blocks are used. */
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	size_t j1 = 0, j2;
+	matras_id_t i1 = 0, i2;
 	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
-- 
2.43.0


From 33e160fad55a43be95a22cea11c468d3e0022b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:50 +0000
Subject: [PATCH 20/29] fix: do not shift matras ids by more than their width

With extents that are large compared to blocks (1 MB and 8 bytes, say)
the first level shift was 32 or more, so all masks and indexes were
undefined.
---
 small/matras.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index e76f7c3..5729832 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -78,6 +78,12 @@ matras_create(struct matras *m, matras_id_t block_size,
 		log2_capacity = 32;
 	m->capacity = (size_t)1 << log2_capacity;
 	m->shift1 = log1 * 2 - log2 - log3;
+	/*
+	 * A second level extent may be able to address more blocks than
+	 * there are ids. Shifting a 32-bit id by 32 or more is undefined.
+	 */
+	if (m->shift1 > 31)
+		m->shift1 = 31;
 	m->shift2 = log1 - log2;
 	m->mask1 = (((matras_id_t)1) << m->shift1) - ((matras_id_t)1);
 	m->mask2 = (((matras_id_t)1) << m->shift2) - ((matras_id_t)1);
@@ -151,13 +157,12 @@ matras_destroy(struct matras *m)
 	size_t step2 = (size_t)m->mask2 + 1;
 	size_t j1 = 0, j2;
 	matras_id_t i1 = 0, i2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			matras_free_extent(m, extent3);
@@ -420,7 +425,6 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	size_t step2 = (size_t)m->mask2 + 1;
 	size_t j1 = 0, j2;
 	matras_id_t i1 = 0, i2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
@@ -436,7 +440,7 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			extent2p = (void **) extent1p[i1];
 		}
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			if (next_view->block_count > j1 + j2) {
-- 
2.43.0


From 411e9f1534b6f43ef32dc103e292e20481f209b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:19 +0000
Subject: [PATCH 21/29] fix: do not leak matras extents shared with a smaller
 read view

A read view that shared an extent with an older view of fewer blocks
left all extents below it alone when it was destroyed. Nobody freed
those beyond the last block of the older view.
---
 small/matras.c | 60 ++++++++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 5729832..6287544 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -411,51 +411,49 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 
 	if (v->block_count == 0)
 		return;
-	if (v->root == next_view->root && next_view->block_count)
+	/*
+	 * An extent shared with a neighbour must stay. If the neighbour has
+	 * fewer blocks, it knows nothing about the rest of the extents below
+	 * the shared one, so they still have to be looked through.
+	 */
+	size_t next_count = next_view->block_count;
+	size_t prev_count = prev_view ? prev_view->block_count : 0;
+	void **extent1 = (void **)v->root;
+	void **extent1n = next_count > 0 ? (void **)next_view->root : 0;
+	void **extent1p = prev_count > 0 ? (void **)prev_view->root : 0;
+	if (extent1 == extent1n && next_count >= v->block_count)
 		return;
-	if (prev_view && v->root == prev_view->root && prev_view->block_count)
+	if (extent1 == extent1p && prev_count >= v->block_count)
 		return;
-	void **extent1 = (void **)v->root;
-	void **extent1n = (void **) next_view->root;
-	void **extent1p = 0;
-	if (prev_view)
-		extent1p = (void **) prev_view->root;
 	/* Wide enough not to wrap around when all 2^32 blocks are used. */
 	size_t step1 = (size_t)m->mask1 + 1;
 	size_t step2 = (size_t)m->mask2 + 1;
 	size_t j1 = 0, j2;
 	matras_id_t i1 = 0, i2;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
+		size_t end = j1 + step1;
+		if (end > v->block_count)
+			end = v->block_count;
 		void **extent2 = (void **)extent1[i1];
-		void **extent2n = 0;
-		void **extent2p = 0;
-		if (next_view->block_count > j1) {
-			if (extent1[i1] == extent1n[i1])
+		void **extent2n = next_count > j1 ? (void **)extent1n[i1] : 0;
+		void **extent2p = prev_count > j1 ? (void **)extent1p[i1] : 0;
+		if (extent2 == extent2n && next_count >= end)
+			continue;
+		if (extent2 == extent2p && prev_count >= end)
+			continue;
+		for (i2 = 0, j2 = j1; j2 < end; i2++, j2 += step2) {
+			void *extent3 = extent2[i2];
+			if (next_count > j2 && extent3 == extent2n[i2])
 				continue;
-			extent2n = (void **) extent1n[i1];
-		}
-		if (prev_view && prev_view->block_count > j1) {
-			if (extent1[i1] == extent1p[i1])
+			if (prev_count > j2 && extent3 == extent2p[i2])
 				continue;
-			extent2p = (void **) extent1p[i1];
-		}
-		for (i2 = j2 = 0;
-		     j2 < step1 && j1 + j2 < v->block_count;
-		     i2++, j2 += step2) {
-			void **extent3 = (void **)extent2[i2];
-			if (next_view->block_count > j1 + j2) {
-				if (extent2[i2] == extent2n[i2])
-					continue;
-			}
-			if (prev_view && prev_view->block_count > j1 + j2) {
-				if (extent2[i2] == extent2p[i2])
-					continue;
-			}
 			matras_free_read_view_extent(m, extent3);
 		}
-		matras_free_read_view_extent(m, extent2);
+		if (extent2 != extent2n && extent2 != extent2p)
+			matras_free_read_view_extent(m, extent2);
 	}
-	matras_free_read_view_extent(m, extent1);
+	if (extent1 != extent1n && extent1 != extent1p)
+		matras_free_read_view_extent(m, extent1);
 }
 
 /*
-- 
2.43.0


From fede730b4123d6ccca35da74f78d26d3037f8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 22/29] fix: initialize used size of the slab cache in
 sanitizer builds

---
 small/slab_cache_asan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index af89995..72ea5f6 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -35,6 +35,7 @@ void
 slab_cache_create(struct slab_cache *cache, struct slab_arena *arena)
 {
 	quota_lessor_create(&cache->quota, arena->quota);
+	cache->used = 0;
 	cache->id = small_asan_reserve_id();
 	slab_cache_set_thread(cache);
 }
-- 
2.43.0


From 6edd75d71605e6f39b493112f2e1cedfea3eb9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 23/29] fix: join the end of a partially joined region block in
 sanitizer builds

---
 small/region_asan.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/small/region_asan.c b/small/region_asan.c
index ea61e8c..79872aa 100644
--- a/small/region_asan.c
+++ b/small/region_asan.c
@@ -144,8 +144,9 @@ region_join(struct region *region, size_t size)
 		size_t copy_size = alloc->used;
 		if (offset < copy_size)
 			copy_size = offset;
-		memcpy(ret + offset - copy_size,
-		       small_asan_payload_from_header(alloc), copy_size);
+		char *end = (char *)small_asan_payload_from_header(alloc) +
+			    alloc->used;
+		memcpy(ret + offset - copy_size, end - copy_size, copy_size);
 
 		offset -= copy_size;
 		alloc = rlist_next_entry(alloc, link);
-- 
2.43.0


From 93a6678398e5d931fbdafb1ad9618f41bb7bcf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 24/29] fix: flush every lsregion allocation once in sanitizer
 builds

---
 include/small/lsregion_asan.h |  8 ++++++++
 small/lsregion_asan.c         | 10 +++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/small/lsregion_asan.h b/include/small/lsregion_asan.h
index 5876dca..0c68e30 100644
--- a/include/small/lsregion_asan.h
+++ b/include/small/lsregion_asan.h
@@ -55,6 +55,8 @@ struct lsregion {
 	struct rlist allocations;
 	/** Total size of allocated memory. */
 	size_t used;
+	/** Id of the last allocation considered as a slab of its own. */
+	int64_t slab_id;
 };
 
 /** Extra data associated with each lsregion allocation. */
@@ -70,6 +72,11 @@ struct lsregion_allocation {
 	size_t used;
 	/** Allocation id. */
 	int64_t id;
+	/**
+	 * Unique and growing id. Every allocation is a slab of its own here,
+	 * so this is the id a flush position refers to.
+	 */
+	int64_t slab_id;
 	/** Allocation alignment. */
 	size_t alignment;
 };
@@ -79,6 +86,7 @@ lsregion_create(struct lsregion *lsregion, struct slab_arena *arena)
 {
 	(void)arena;
 	lsregion->used = 0;
+	lsregion->slab_id = 0;
 	rlist_create(&lsregion->allocations);
 }
 
diff --git a/small/lsregion_asan.c b/small/lsregion_asan.c
index c153407..4c951aa 100644
--- a/small/lsregion_asan.c
+++ b/small/lsregion_asan.c
@@ -51,6 +51,7 @@ lsregion_prepare_buf(struct lsregion *lsregion, size_t size, size_t alignment)
 	alloc->size = size;
 	alloc->used = 0;
 	alloc->id = LSLAB_NOT_USED_ID;
+	alloc->slab_id = ++lsregion->slab_id;
 	alloc->alignment = alignment;
 	rlist_add_tail_entry(&lsregion->allocations, alloc, link);
 	return alloc;
@@ -104,19 +105,22 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 		  int *iovcnt, struct lsregion_svp *svp)
 {
 	struct lsregion_allocation *alloc;
-	int64_t prev_id = svp->slab_id;
+	int64_t prev_slab_id = svp->slab_id;
 	int max_iovcnt = *iovcnt;
 	int64_t max_alloc_id = LSLAB_NOT_USED_ID;
 	int cnt = 0;
 	rlist_foreach_entry(alloc, &lsregion->allocations, link) {
 		/* An already seen allocation. */
-		if (alloc->id <= prev_id)
+		if (alloc->slab_id <= prev_slab_id)
 			continue;
+		/* A reservation without an allocation. */
+		if (alloc->id == LSLAB_NOT_USED_ID)
+			break;
 		if (cnt >= max_iovcnt)
 			break;
 		iov->iov_base = small_asan_payload_from_header(alloc);
 		iov->iov_len = alloc->used;
-		svp->slab_id = alloc->id;
+		svp->slab_id = alloc->slab_id;
 		/*
 		 * This isn't correct but will do for tests which span one slab
 		 * in a normal lsregion implementation. pos isn't used to
-- 
2.43.0


From 486bacaaaad3e33e6490a1779075c0d69cf7fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 25/29] fix: poison rolled back obuf memory in sanitizer builds

---
 small/obuf_asan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/small/obuf_asan.c b/small/obuf_asan.c
index f885a35..1cd6bcc 100644
--- a/small/obuf_asan.c
+++ b/small/obuf_asan.c
@@ -156,6 +156,9 @@ obuf_rollback_to_svp(struct obuf *buf, struct obuf_svp *svp)
 	buf->used = svp->used;
 	buf->iov[buf->pos].iov_len = svp->iov_len;
 	buf->reserved = false;
+	/* The vector may stay with rolled back or reserved memory behind. */
+	ASAN_POISON_MEMORY_REGION(obuf_unallocated_ptr(buf),
+				  obuf_unallocated_size(buf));
 }
 
 void
-- 
2.43.0


From 250e1a2214bdde65627fbd9ce283140595e9f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 26/29] fix: refuse to lease a quota of an unrepresentable size

---
 include/small/quota_lessor.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/small/quota_lessor.h b/include/small/quota_lessor.h
index a643f27..c74761f 100644
--- a/include/small/quota_lessor.h
+++ b/include/small/quota_lessor.h
@@ -118,6 +118,9 @@ quota_lessor_destroy(struct quota_lessor *lessor)
 static inline ssize_t
 quota_lease(struct quota_lessor *lessor, ssize_t size)
 {
+	/* The size was not representable. */
+	if (size < 0)
+		return -1;
 	/* Fast way, there is enough unused quota. */
 	if (lessor->leased + size <= lessor->used) {
 		lessor->leased += size;
-- 
2.43.0


From 07c3c976a2fcbe9fbb20d7d0b4be6ea7c5b2dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:35 +0000
Subject: [PATCH 27/29] fix: let matras read views be read while neighbour
 views come and go

Creation and destruction of a read view changed the next_view link of the
previous read view with a plain store, while matras_view_get() in a thread
using that view reads the link: a data race.
---
 include/small/matras.h | 17 +++++++++++++++--
 small/matras.c         | 14 ++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/small/matras.h b/include/small/matras.h
index 85d436c..e57c180 100644
--- a/include/small/matras.h
+++ b/include/small/matras.h
@@ -119,6 +119,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <stdbool.h>
+#include <pmatomic.h>
 
 #if defined(__cplusplus)
 extern "C" {
@@ -408,13 +409,24 @@ matras_head_read_view(struct matras_view *v)
 	v->next_view = 0;
 }
 
+/**
+ * Get the next view of the given one. The link of a read view may be changed
+ * by creation and destruction of other read views while the read view is used
+ * in a concurrent thread.
+ */
+static inline struct matras_view *
+matras_view_next(const struct matras_view *v)
+{
+	return pm_atomic_load_explicit(&v->next_view, pm_memory_order_relaxed);
+}
+
 /*
  * matras_is_read_view_created implementation.
  */
 static inline int
 matras_is_read_view_created(struct matras_view *v)
 {
-	return v->next_view ? 1 : 0;
+	return matras_view_next(v) ? 1 : 0;
 }
 
 /**
@@ -442,7 +454,8 @@ static inline void *
 matras_view_get(const struct matras *m, const struct matras_view *v,
 		matras_id_t id)
 {
-	return matras_view_get_no_check(m, v->next_view ? v : &m->head, id);
+	return matras_view_get_no_check(m, matras_view_next(v) ? v : &m->head,
+					id);
 }
 
 /**
diff --git a/small/matras.c b/small/matras.c
index 6287544..a74dc33 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -389,8 +389,11 @@ matras_create_read_view(struct matras *m, struct matras_view *v)
 	*v = m->head;
 	v->next_view = &m->head;
 	m->head.prev_view = v;
-	if (v->prev_view)
-		v->prev_view->next_view = v;
+	if (v->prev_view) {
+		/* The previous view may be in use in a concurrent thread. */
+		pm_atomic_store_explicit(&v->prev_view->next_view, v,
+					 pm_memory_order_relaxed);
+	}
 }
 
 /*
@@ -405,8 +408,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	struct matras_view *next_view = v->next_view;
 	struct matras_view *prev_view = v->prev_view;
 	next_view->prev_view = prev_view;
-	if (prev_view)
-		prev_view->next_view = next_view;
+	if (prev_view) {
+		/* The previous view may be in use in a concurrent thread. */
+		pm_atomic_store_explicit(&prev_view->next_view, next_view,
+					 pm_memory_order_relaxed);
+	}
 	v->next_view = 0;
 
 	if (v->block_count == 0)
-- 
2.43.0


From 94d8fa557121dc03c27f892854f75697e779e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:20 +0000
Subject: [PATCH 28/29] fix: make slab_cache_used() thread-safe as documented

The counter was changed with plain stores by the thread owning the cache and
read with a plain load by any other thread: a data race.
---
 include/small/slab_cache.h |  4 +++-
 small/slab_cache.c         | 19 +++++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/small/slab_cache.h b/include/small/slab_cache.h
index 011f7e7..89e2a9c 100644
--- a/include/small/slab_cache.h
+++ b/include/small/slab_cache.h
@@ -32,6 +32,7 @@
  */
 #include "slab_arena.h"
 #include <pthread.h>
+#include <pmatomic.h>
 
 #include "small_config.h"
 
@@ -193,7 +194,8 @@ slab_put(struct slab_cache *cache, struct slab *slab);
 static inline size_t
 slab_cache_used(struct slab_cache *slabc)
 {
-	return slabc->allocated.stats.used;
+	return pm_atomic_load_explicit(&slabc->allocated.stats.used,
+				       pm_memory_order_relaxed);
 }
 
 /**
diff --git a/small/slab_cache.c b/small/slab_cache.c
index 0b73005..d32defd 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -76,12 +76,23 @@ slab_assert(struct slab_cache *cache, struct slab *slab)
 	}
 }
 
+/**
+ * Set the number of bytes used by the slab cache. It is only changed by the
+ * thread owning the cache, but slab_cache_used() may be called by any thread.
+ */
+static inline void
+slab_cache_set_used(struct slab_cache *cache, size_t used)
+{
+	pm_atomic_store_explicit(&cache->allocated.stats.used, used,
+				 pm_memory_order_relaxed);
+}
+
 /** Mark a slab as free. */
 static inline void
 slab_set_free(struct slab_cache *cache, struct slab *slab)
 {
 	assert(slab->in_use == slab->order + 1);		/* Sanity. */
-	cache->allocated.stats.used -= slab->size;
+	slab_cache_set_used(cache, cache->allocated.stats.used - slab->size);
 	cache->orders[slab->order].stats.used -= slab->size;
 	slab->in_use = 0;
 	VALGRIND_MEMPOOL_FREE(cache, slab_data(slab));
@@ -90,7 +101,7 @@ slab_set_free(struct slab_cache *cache, struct slab *slab)
 static inline void
 slab_set_used(struct slab_cache *cache, struct slab *slab)
 {
-	cache->allocated.stats.used += slab->size;
+	slab_cache_set_used(cache, cache->allocated.stats.used + slab->size);
 	cache->orders[slab->order].stats.used += slab->size;
 	/* Not a boolean to have an extra assert. */
 	slab->in_use = 1 + slab->order;
@@ -283,7 +294,7 @@ slab_get_large(struct slab_cache *cache, size_t size)
 
 	slab_create(slab, cache->order_max + 1, size);
 	slab_list_add(&cache->allocated, slab, next_in_cache);
-	cache->allocated.stats.used += size;
+	slab_cache_set_used(cache, cache->allocated.stats.used + size);
 	VALGRIND_MEMPOOL_ALLOC(cache, slab_data(slab),
 			       slab_capacity(slab));
 	return slab;
@@ -300,7 +311,7 @@ slab_put_large(struct slab_cache *cache, struct slab *slab)
 	 */
 	size_t slab_size = slab->size;
 	slab_list_del(&cache->allocated, slab, next_in_cache);
-	cache->allocated.stats.used -= slab_size;
+	slab_cache_set_used(cache, cache->allocated.stats.used - slab_size);
 	quota_release(cache->arena->quota, slab_size);
 	slab_poison(slab);
 	VALGRIND_MEMPOOL_FREE(cache, slab_data(slab));
-- 
2.43.0


From 0666886a1edbd9e3e147b3cb5b6d774740bf842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:20 +0000
Subject: [PATCH 29/29] fix: make slab_cache_used() thread-safe in sanitizer
 builds

The counter was changed with plain stores by the thread owning the cache and
read with a plain load by any other thread: a data race.
---
 include/small/slab_cache_asan.h |  3 ++-
 small/slab_cache_asan.c         | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/small/slab_cache_asan.h b/include/small/slab_cache_asan.h
index 956239e..1666b6a 100644
--- a/include/small/slab_cache_asan.h
+++ b/include/small/slab_cache_asan.h
@@ -31,6 +31,7 @@
 #include "quota_lessor.h"
 #include "util.h"
 
+#include <pmatomic.h>
 #include <stddef.h>
 #include <stdint.h>
 
@@ -102,7 +103,7 @@ slab_put(struct slab_cache *cache, struct slab *slab);
 static inline size_t
 slab_cache_used(struct slab_cache *cache)
 {
-	return cache->used;
+	return pm_atomic_load_explicit(&cache->used, pm_memory_order_relaxed);
 }
 
 static inline void
diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index 72ea5f6..64b9f00 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -40,6 +40,16 @@ slab_cache_create(struct slab_cache *cache, struct slab_arena *arena)
 	slab_cache_set_thread(cache);
 }
 
+/**
+ * Set the number of bytes used by the slab cache. It is only changed by the
+ * thread owning the cache, but slab_cache_used() may be called by any thread.
+ */
+static inline void
+slab_cache_set_used(struct slab_cache *cache, size_t used)
+{
+	pm_atomic_store_explicit(&cache->used, used, pm_memory_order_relaxed);
+}
+
 SMALL_NO_SANITIZE_ADDRESS struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
@@ -52,7 +62,7 @@ slab_get(struct slab_cache *cache, size_t size)
 	obj->cache_id = cache->id;
 	struct slab *slab = small_asan_payload_from_header(obj);
 	slab->size = size;
-	cache->used += size;
+	slab_cache_set_used(cache, cache->used + size);
 	return slab;
 }
 
@@ -63,6 +73,6 @@ slab_put(struct slab_cache *cache, struct slab *slab)
 	struct slab_cache_object *obj = small_asan_header_from_payload(slab);
 	small_asan_assert(obj->cache_id == cache->id &&
 			  "object and cache id mismatch");
-	cache->used -= slab->size;
+	slab_cache_set_used(cache, cache->used - slab->size);
 	small_asan_free(obj);
 }
-- 
2.43.0

