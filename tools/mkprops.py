#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are authored here, one P() per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
rows = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    rows.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

P('C01', 'Concurrent quota use, release and limit changes are atomic',
  '''However several threads interleave consuming, releasing and re-limiting one memory quota, every call takes effect
  atomically: the outcome is that of some sequential order of the calls, consumption never exceeds the limit, a new limit
  below current consumption is refused, and a combined read of limit and consumption returns a pair that existed at one
  instant. A request is refused only when it really did not fit (or the limit was really too low) at some moment during the
  call, and after all threads finish consumption equals what was granted minus what was released.''',
  ['schedules'], '''all interleavings (every atomic access a scheduling point, spurious weak compare-and-swap failures included)
  of 2-3 threads x 1-3 operations over colliding limits and sizes''',
  '''test/quota.cc runs ten free threads with random sizes and final totals only: it samples a few schedules, never checks
  that a refusal was justified, and cannot force a retry at a chosen point.''',
  ['include/small/quota.h'],
  [('CAS retry loop over one packed 64-bit word', 'include/small/quota.h: quota_use, quota_release, quota_set')],
  [('quota.value', 'limit and used units packed in one word', 'include/small/quota.h: struct quota')],
  ['return values of the calls', 'quota_total/quota_used/quota_get_total_and_used'])

P('C02', 'Quota arithmetic is exact for every size and limit',
  '''For every limit and every request size, a quota rounds consumption up to whole units and limits up as documented,
  grants a request exactly when the rounded consumption stays within the limit, reports the same amount it charged,
  and gives the same amount back on release. No size, however close to the largest representable value, may wrap around,
  abort the process, or be granted beyond the limit; a refused call changes nothing.''',
  ['inputs', 'histories'], '''all sequences up to the depth bound of set/use/release with sizes and limits taken from every boundary of the
  unit, of the maximum quota and of the integer ranges involved''',
  '''The tests use random mid-range sizes on a limit that is never near the maximum, so wrap-around of the packed
  arithmetic is never reached.''',
  ['include/small/quota.h'],
  [('unit rounding and packed arithmetic', 'include/small/quota.h: quota_use/quota_set/quota_init')],
  [('quota.value', 'limit and used units', 'include/small/quota.h')],
  ['return values', 'quota_total', 'quota_used'])

P('C03', 'A quota lessor never creates or loses quota',
  '''At every moment the source quota's consumption contributed by a lessor equals what the lessor has handed out plus what
  it holds in reserve; a lease succeeds whenever the requested amount is available from the reserve plus the source quota,
  and a failed lease changes nothing. After leases end the reserve is trimmed to the documented bound, and destroying
  a lessor returns everything, also when several lessors on different threads share the source quota.''',
  ['histories', 'schedules'], '''all lease/end-lease/destroy sequences up to the depth bound over boundary sizes and source limits, plus all
  interleavings of two lessors sharing one quota''',
  '''test/quota_lessor.c walks three fixed scenarios with a nearly unlimited source.''',
  ['include/small/quota_lessor.h', 'include/small/quota.h'],
  [('lease in chunks with halving, return above threshold', 'include/small/quota_lessor.h: quota_lease, quota_end_lease')],
  [('used/leased', 'bytes taken from the source and bytes handed out', 'include/small/quota_lessor.h')],
  ['quota_used(source)', 'quota_leased', 'quota_available'])

P('C04', 'The lock-free stack loses, duplicates and invents nothing',
  '''For every interleaving of concurrent pushes and pops, including elements that are popped and pushed again while another
  thread is in the middle of a pop, the stack behaves like an atomic last-in first-out stack: each pushed element is
  popped exactly once, a pop returns nothing only if the stack was empty at some moment of the call, and everything
  written to an element before pushing is visible to whoever pops it. The emptiness test is true exactly when a pop
  would return nothing.''',
  ['schedules'], '''all interleavings of 2-3 threads with 1-3 push/pop operations each over 1-3 elements and every initial
  content, counter wrap-around included, with spurious compare-and-swap failures''',
  '''test/lf_lifo.c is single threaded, so no compare-and-swap ever fails and reuse during a pop never happens.''',
  ['include/small/lf_lifo.h'],
  [('ABA counter in the low bits of the head pointer', 'include/small/lf_lifo.h: lf_lifo_push, lf_lifo_pop')],
  [('head->next', 'top element and modification counter', 'include/small/lf_lifo.h')],
  ['lf_lifo_pop results', 'lf_lifo_is_empty'])

P('C05', 'Threads sharing an arena never get the same memory',
  '''However several threads interleave taking slabs from and returning slabs to a shared arena, every slab handed out is
  aligned to the slab size, lies in memory the arena obtained, is disjoint from every other slab in use and ordered after
  the previous owner's last access. Slabs in use never exceed the quota limit, a request fails only if quota, preallocation
  and the operating system were all unable to serve it, and a returned slab is available for reuse.''',
  ['schedules', 'fault_sequences'], '''all interleavings of 2-3 threads x 1-3 map/unmap operations on arenas with 0-2 preallocated slabs and tight
  quotas, with every success/failure answer of the system allocator''',
  '''test/arena_mt.c runs one free-threaded stress with ample memory and never sees quota exhaustion or mmap failure.''',
  ['small/slab_arena.c', 'include/small/slab_arena.h', 'include/small/lf_lifo.h', 'include/small/quota.h'],
  [('lock-free cache of free slabs, then preallocated area by fetch-and-add, then quota+mmap', 'small/slab_arena.c: slab_map, slab_unmap')],
  [('cache, used, arena, prealloc', 'free list, bump pointer, preallocated area', 'include/small/slab_arena.h: struct slab_arena')],
  ['slab_map/slab_unmap results', 'quota_used', 'mmap/munmap calls'])

P('C06', 'The arena gives back exactly the address space it took',
  '''For every placement and every failure the operating system answers with, an arena only hands out slabs of the rounded,
  power-of-two slab size aligned to that size inside memory it currently owns, unmaps exactly what it mapped in excess,
  and after destruction no memory it mapped remains mapped and nothing else was unmapped. A failed creation or a failed
  slab request leaves the quota and the mappings as they were, and the requested mapping and core-dump flags are applied
  to all memory handed out.''',
  ['inputs', 'fault_sequences', 'histories'], '''all creation parameters from the boundary set x all system placements modulo the slab size x all failure
  positions x all map/unmap sequences to the depth bound''',
  '''test/slab_arena.c creates a few arenas with whatever addresses the kernel returns and never sees a failing or
  misaligned mmap.''',
  ['small/slab_arena.c', 'include/small/slab_arena.h'],
  [('over-map and trim to get alignment', 'small/slab_arena.c: mmap_checked'), ('rounding of sizes', 'small/slab_arena.c: slab_arena_create')],
  [('slab_size, prealloc, arena', 'rounded sizes and the preallocated area', 'include/small/slab_arena.h')],
  ['mmap/munmap/madvise calls', 'slab_map results', 'quota_used'])

P('C07', 'Slab cache blocks are disjoint, aligned and fully coalesced',
  '''For every sequence of allocations and releases of any size, every block a slab cache returns is at least as large as
  requested, aligned to its size class, disjoint from all other live blocks and from the cache's own bookkeeping, and an
  object address inside it leads back to the block. Freed neighbours are merged so that once everything is released
  at most one arena slab stays cached and it can be handed out again whole; usage statistics always equal the sum of
  the live blocks.''',
  ['histories', 'configurations'], '''all get/put sequences up to the depth bound over all size orders, for several slab geometries''',
  '''test/slab_cache.c runs one random sequence with sizes up to 5 MB and checks only the built-in self-check and the final total.''',
  ['small/slab_cache.c', 'include/small/slab_cache.h', 'include/small/slab_list.h'],
  [('buddy split and merge', 'small/slab_cache.c: slab_split, slab_merge, slab_get_order, slab_put_order')],
  [('orders, allocated', 'free lists per order and global statistics', 'include/small/slab_cache.h: struct slab_cache')],
  ['slab_get/slab_put', 'slab_from_ptr/slab_from_data', 'slab_cache_used', 'slab_cache_check'])

P('C08', 'Failed or oversized slab requests never leak quota or memory',
  '''Blocks larger than an arena slab are charged to the quota in full while alive and refunded in full when released.
  Whenever the quota, the arena or the system allocator refuses a request, the call reports failure and quota consumption,
  arena use, cache statistics and every other block stay exactly as they were, so that the same request succeeds once memory
  is available; destroying a cache returns every byte.''',
  ['histories', 'fault_sequences', 'inputs'], '''all get/put/destroy sequences to the depth bound with ordered and large sizes, with every combination of up
  to two refusals by malloc, mmap or quota''',
  '''The existing test has an unlimited quota and never injects a failure.''',
  ['small/slab_cache.c', 'include/small/slab_cache.h', 'include/small/quota.h'],
  [('quota charge before malloc and refund on failure', 'small/slab_cache.c: slab_get_large, slab_put_large')],
  [('allocated.stats, quota', 'bytes accounted', 'include/small/slab_cache.h')],
  ['quota_used', 'slab_cache_used', 'malloc/free/mmap calls'])

P('C09', 'Pool objects are distinct, stable and exactly counted',
  '''For every sequence of allocations and frees from a fixed-size pool, every live object is disjoint from all other live
  objects and from the pool's bookkeeping, properly aligned, keeps its contents until freed, and is found again as
  belonging to that pool. Reported counts and bytes in use always equal the live objects, fully freed slabs are
  returned to the slab cache except for at most one spare, and destroying the pool returns all of them.''',
  ['histories', 'configurations'], '''all alloc/free sequences to the depth bound, for object sizes from pointer size to the largest that fits,
  with 1..n objects per slab''',
  '''test/mempool.c runs random sequences at random object sizes with large slabs; a slab holding very few objects,
  a full slab becoming partial and a spare being reused are reached only by luck and without a reference model.''',
  ['small/mempool.c', 'include/small/mempool.h'],
  [('per-slab free list plus untouched tail', 'small/mempool.c: mslab_alloc, mslab_free'), ('hot tree, cold list, spare', 'small/mempool.c')],
  [('mslab.nfree/free_offset/free_list', 'free objects of a slab', 'include/small/mempool.h: struct mslab')],
  ['mempool_alloc/mempool_free', 'mempool_count', 'mempool_stats', 'slab_cache_used'])

P('C10', 'A pool serves every request memory allows and prefers low addresses',
  '''A fixed-size pool fails an allocation only when none of its slabs has a free object and no new slab can be obtained;
  a failed allocation changes nothing and the pool keeps working when memory returns. Whatever the order of
  frees, including frees of objects from full slabs and frees while memory is exhausted, every freed object is usable again, and
  allocation takes a partially used slab with the lowest address among those it tracks as active.''',
  ['histories', 'fault_sequences'], '''all alloc/free sequences to the depth bound under every pattern of slab refusals up to two''',
  '''The mempool test has unlimited memory, so the path serving from rarely used slabs after a refusal is never taken.''',
  ['small/mempool.c', 'include/small/mempool.h', 'include/small/rb.h'],
  [('hot slab tree ordered by address, cold slab list and threshold', 'small/mempool.c: mempool_alloc, mslab_free')],
  [('hot_slabs, cold_slabs, first_hot_slab, spare', 'slab classification', 'include/small/mempool.h: struct mempool')],
  ['mempool_alloc/mempool_free', 'slab_cache_used'])

P('C11', 'Small allocator objects never overlap and have the promised alignment',
  '''For every sequence of allocations and frees of any mix of sizes, each object of the small allocator has at least the
  requested size, is disjoint from every other live object, and keeps its contents until freed, whichever size class
  or fallback pool serves it and whether it comes from a pool or is a large allocation; objects served by pools are
  aligned to the configured granularity. Freeing with the original size always returns it to the place it came from, and the reported bytes
  in use equal the objects alive.''',
  ['histories', 'inputs', 'configurations'], '''all alloc/free sequences to the depth bound over sizes at both sides of every class boundary of small configurations (granularity, growth
  factor, minimum size)''',
  '''test/small_alloc.c does random allocations at fixed slab sizes and checks only a magic number in the first bytes.''',
  ['small/small.c', 'include/small/small.h', 'small/mempool.c'],
  [('size to pool mapping with activation of pools by waste', 'small/small.c: smalloc, smfree, small_mempool_search')],
  [('small_mempool_cache, groups', 'pools with used_pool redirections', 'include/small/small.h')],
  ['smalloc/smfree', 'small_stats'])

P('C12', 'Small allocator keeps exact waste and drains fallback pools',
  '''At all times the recorded waste of each size class equals the slack of the live objects that a bigger pool holds in
  its place, so accumulated waste never drifts after frees, memory refusals or pool activation. When memory is
  refused the allocator makes idle classes give up what they hold and retries with the pool that then serves the size
  before failing; a failed request leaves all objects, counts and waste figures as they were. An object is always
  placed in a pool that is active for its size, and once all objects are freed no slab stays held by an inactive
  class.''',
  ['histories', 'fault_sequences'], '''all alloc/free sequences to the depth bound with small waste thresholds and every pattern of up to two slab refusals''',
  '''test/small_alloc.c looks at activation in one scenario and never combines it with failing slab allocation.''',
  ['small/small.c', 'include/small/small.h'],
  [('waste counters, activation and sparse sweep', 'small/small.c: small_mempool_activate, small_mempool_group_sweep_sparse, smalloc')],
  [('waste, used_pool, active_pool_mask', 'per class waste and the group active mask', 'include/small/small.h')],
  ['smalloc/smfree results', 'waste fields', 'slab_cache_used'])

P('C13', 'Size-class lookup is the exact best fit for every size and factor',
  '''For every supported granularity, growth factor, minimum size and request, the class chosen for a size is the smallest
  class able to hold it, the size reported for a class is the largest size mapped to it, class sizes strictly increase, by multiples of the
  granularity, and class zero is the configured minimum. The actual growth factor reported matches the class sequence and
  both compile-time variants of the lookup agree.''',
  ['inputs', 'configurations'], '''every request size up to the bound x every granularity x a dense grid of factors and minimum sizes''',
  '''test/small_class.c checks a few factors against its own formula over a limited range.''',
  ['include/small/small_class.h', 'small/small_class.c'],
  [('exponent/mantissa split by leading-bit search', 'include/small/small_class.h: small_class_calc_offset_by_size, small_class_calc_size_by_offset')],
  [('eff_bits, size_shift, shift', 'derived class geometry', 'include/small/small_class.h: struct small_class')],
  ['small_class_calc_offset_by_size', 'small_class_calc_size_by_offset', 'actual_factor'])

P('C14', 'Region allocations stay disjoint and truncation is exact',
  '''For every sequence of plain, aligned and two-step reserve/allocate requests of any size, all memory handed out by a region
  since the last truncation is disjoint, aligned as requested and keeps its contents; the used-bytes figure grows by exactly
  what was allocated. Truncating to a previously recorded figure frees exactly what was allocated since and leaves
  everything older intact, and freeing or destroying the region returns every slab.''',
  ['histories', 'inputs', 'fault_sequences'], '''all operation sequences to the depth bound over sizes at slab boundaries and alignments, with up to two slab refusals''',
  '''test/region.c uses fixed scenarios mostly inside one slab and no failures.''',
  ['include/small/region.h', 'small/region.c', 'include/small/slab_list.h'],
  [('bump allocation in the newest slab, slab list in age order', 'include/small/region.h: region_reserve/region_alloc/region_aligned_*'), ('truncate', 'small/region.c: region_truncate')],
  [('slabs, rslab.used', 'slab list and fill level', 'include/small/region.h')],
  ['returned pointers', 'region_used', 'region_total', 'slab_cache_used'])

P('C15', 'Joining a region suffix yields exactly its bytes in order',
  '''For every history of allocations across any number of slabs, joining the most recent N bytes returns one contiguous block
  holding exactly the last N allocated bytes in allocation order, accounted as one more allocation of at most N bytes
  (or none if already contiguous), with all older data intact. If memory is refused the join fails and the region is unchanged.''',
  ['histories', 'inputs', 'fault_sequences'], '''all allocation histories to the depth bound followed by every join length, with every refusal''',
  '''test/region.c joins a few fixed patterns.''',
  ['small/region.c', 'include/small/region.h'],
  [('copy from newest to oldest slab backwards', 'small/region.c: region_join')],
  [('rslab.used', 'fill of each slab', 'include/small/region.h')],
  ['region_join result bytes', 'region_used'])

P('C16', 'Region reset, bulk free and callbacks match what happened',
  '''Resetting a region makes it empty for every number of slabs held, keeps its memory for reuse, and later allocations behave as on a fresh region;
  freeing above a limit
  releases everything if and only if more than the limit is used. The allocation callback is called exactly once for each successful allocation or copying join, with the bytes
  it accounts including padding, and never for failures or reservations; the truncation callback once for each truncation and free, with the amount kept,
  in the order they happen.''',
  ['histories'], '''all sequences of allocate, truncate, reset, free and free-after to the depth bound with callbacks installed''',
  '''test/region.c resets a region holding one slab only and checks callbacks in one scenario.''',
  ['include/small/region.h', 'small/region.c'],
  [('reset of slab fill levels', 'include/small/region.h: region_reset'), ('callbacks', 'include/small/region.h, small/region.c')],
  [('slabs, on_alloc_cb, on_truncate_cb', 'slab list and callbacks', 'include/small/region.h: struct region')],
  ['region_used', 'callback arguments', 'region_total'])

P('C17', 'The input buffer is a lossless byte queue',
  '''For every sequence of reserve, append, consume from either end, truncate, shrink, discard and reset, the readable part of an
  input buffer equals the bytes appended and not yet consumed, in order, even when the buffer moves or is compacted. Capacity
  and unused space reported are really writable, a request that fits the capacity is never refused, a failed growth changes nothing, and the buffer's slab returns to the cache
  whenever it is replaced or released.''',
  ['histories', 'inputs', 'fault_sequences'], '''all operation sequences to the depth bound over sizes around capacity boundaries, with up to two slab refusals''',
  '''test/ibuf.c checks fixed scenarios of each call with a fixed start capacity.''',
  ['include/small/ibuf.h', 'small/ibuf.c'],
  [('in-place compaction or doubling copy', 'small/ibuf.c: ibuf_reserve_slow, ibuf_shrink')],
  [('buf,rpos,wpos,epos', 'buffer window', 'include/small/ibuf.h')],
  ['bytes between read and write position', 'ibuf_capacity/used/unused/pos', 'slab_cache_used'])

P('C18', 'The output buffer preserves the byte stream and rolls back exactly',
  '''For every sequence of duplicate, reserve/allocate, savepoint, rollback and reset, the vectors exposed by an output buffer contain
  exactly the bytes appended and not rolled back, in order, no vector exceeds its capacity, and memory reserved is contiguous
  and stays at its address until reset. Reported size always equals the stream length, a refused reservation changes nothing
  observable, a duplication that runs out of memory reports exactly the bytes it appended, and destruction returns every slab.''',
  ['histories', 'inputs', 'fault_sequences'], '''all operation sequences to the depth bound over sizes around capacity doublings up to the vector limit, with
  up to two slab refusals''',
  '''test/obuf.c does random appends with one random rollback and never sees a failed allocation.''',
  ['include/small/obuf.h', 'small/obuf.c'],
  [('iovec array with doubling capacities', 'small/obuf.c: obuf_alloc_pos, obuf_reserve_slow, obuf_dup, obuf_rollback_to_svp')],
  [('pos, iov, capacity, used', 'current vector, vectors, capacities, total', 'include/small/obuf.h')],
  ['iov contents', 'obuf_size', 'obuf_capacity', 'slab_cache_used'])

P('C19', 'Log-structured region frees exactly the collected past',
  '''For every sequence of allocations with non-decreasing ids and garbage collections, memory allocated with an id above the collected id
  keeps its contents and stays disjoint from later allocations, and a block is released as soon as every allocation in it has
  an id not above the collected one, except one cached block. Bytes used, slab counts and arena consumption always
  equal what is really held, and destroying the region returns all of it.''',
  ['histories', 'inputs', 'fault_sequences'], '''all alloc/reserve/aligned/gc sequences to the depth bound over sizes at the slab boundary and larger-than-slab, with every refusal''',
  '''test/lsregion.c uses fixed scenarios with fixed sizes and no failures.''',
  ['include/small/lsregion.h', 'small/lsregion.c'],
  [('slab list with max id per slab', 'include/small/lsregion.h: lsregion_alloc, lsregion_gc'), ('slab acquisition', 'small/lsregion.c: lsregion_reserve_slow')],
  [('slabs, cached, stats', 'slab list, cached slab and totals', 'include/small/lsregion.h')],
  ['allocated contents', 'lsregion_used/total/slab_count', 'lsregion_arena used', 'quota_used'])

P('C20', 'Flushing a log-structured region yields every byte exactly once',
  '''However allocations, aligned allocations, unused reservations, large blocks and garbage collections are interleaved with flushes, successive flushes
  yield each allocated byte still held exactly once, in allocation order, and each flush reports the highest id among the bytes it yields.
  A flush limited in vectors yields a prefix and the next one continues where it stopped.''',
  ['histories', 'inputs'], '''all alloc/reserve/gc/flush sequences to the depth bound, each flush position and every vector limit''',
  '''test/lsregion.c flushes one linear history without gc of cached blocks or skipped reservations in between.''',
  ['include/small/lsregion.h', 'small/lsregion.c'],
  [('flush position as (slab id, offset)', 'small/lsregion.c: lsregion_to_iovec')],
  [('svp, slab ids, max ids', 'flush position and block order', 'include/small/lsregion.h')],
  ['vectors returned by lsregion_to_iovec'])

P('C21', 'Block ids and addresses stay in exact correspondence',
  '''For every geometry and every sequence of single, range and de-allocation, an indexed block array gives out consecutive ids,
  maps every live id to one address that never changes while unversioned, keeps blocks disjoint and contents intact, and
  allocates ranges contiguously at their id. Capacity limits derived from the geometry are exactly honoured: the last
  id is usable and one more is refused without damage.''',
  ['histories', 'configurations', 'fault_sequences'], '''all alloc/range/dealloc/touch sequences to the depth bound over several extent/block geometries, with every extent
  refusal up to two; full-capacity fill of tiny geometries''',
  '''test/matras.cc checks specific block counts for one small geometry and a random version test.''',
  ['small/matras.c', 'include/small/matras.h'],
  [('three-level extent tree with masks and shifts', 'include/small/matras.h: matras_get, small/matras.c: matras_alloc, matras_alloc_range')],
  [('head.root, block_count, shifts, masks', 'geometry and tree', 'include/small/matras.h')],
  ['matras_get', 'matras_alloc/matras_alloc_range/matras_dealloc', 'extent alloc/free callbacks'])

P('C22', 'Read views of an indexed block array are immutable snapshots',
  '''Every read view keeps showing the block contents and block count of the moment it was created until it is destroyed,
  whatever later allocations, touches, writes, deallocations, range operations or view creations and destructions (in any order) happen to the main array
  or to other views. A touch makes the main copy writable with unchanged contents, and reading through the main array
  always yields the latest writes.''',
  ['histories', 'configurations', 'fault_sequences'], '''all sequences to the depth bound of alloc/dealloc/touch+write/create view/destroy any view with 0-3 concurrent views, over geometries that cross extent boundaries,
  with extent refusals''',
  '''test/matras.cc runs a random walk with one geometry; view destruction orders and mixed growth and shrink around views are sampled.''',
  ['small/matras.c', 'include/small/matras.h'],
  [('copy on write of extents shared between versions', 'small/matras.c: matras_touch_no_check, matras_destroy_read_view, matras_dealloc')],
  [('head and views linked list', 'versions', 'include/small/matras.h: struct matras_view')],
  ['matras_view_get contents', 'matras_get contents'])

P('C23', 'Block array extents are conserved and failures are clean',
  '''Each extent an indexed block array obtains is given back exactly once, after the last version using it is gone; the reported extent count equals
  extents held, and destroying all views and the array returns every extent. When an extent is refused the failing
  operation leaves the contents of array and views unchanged and leaks nothing (copies a refused touch did obtain stay counted and are used by the next one), and after a successful reservation of touches that many touches cannot fail.''',
  ['histories', 'fault_sequences', 'configurations'], '''all sequences to the depth bound of array and view operations with every pattern of up to two extent
  refusals''',
  '''test/matras.cc counts extents only in linear scenarios and injects one kind of failure.''',
  ['small/matras.c', 'include/small/matras.h'],
  [('allocation with rollback, reserve list', 'small/matras.c: matras_alloc, matras_touch_reserve, matras_allocator_reserve'), ('view destruction', 'small/matras.c: matras_destroy_read_view')],
  [('extent_count, reserve lists', 'extents held', 'include/small/matras.h')],
  ['extent alloc/free callback calls', 'matras_extent_count', 'matras_stats'])

P('C24', 'Recent static buffer memory is never handed out twice',
  '''For every sequence of requests, memory returned from the static buffer lies inside the buffer, is aligned as asked, and is
  disjoint from every allocation among the most recent ones that, together with the padding and the space skipped at the end of the
  buffer, still fit in the buffer. A request larger than the buffer, whatever its
  size, is refused without effect, a reservation does not consume space, and each thread has its own buffer.''',
  ['histories', 'inputs'], '''all sequences to the depth bound of alloc/reserve/aligned/reset over boundary sizes, alignments and start offsets''',
  '''test/static.c checks one or two wrap-arounds with fixed sizes.''',
  ['include/small/static.h', 'small/static.c'],
  [('bump pointer with wrap to start', 'include/small/static.h: static_reserve, static_alloc, static_aligned_reserve')],
  [('static_storage_pos, static_storage_buffer', 'position and thread-local buffer', 'small/static.c')],
  ['returned pointers'])

P('C25', 'Intrusive lists behave as the sequence of operations dictates',
  '''For every sequence of insertions, deletions, moves, swaps, splices, splits and cuts on any lists, forward and backward traversal
  of each list yields exactly the elements, in the order, that the operations prescribe on a plain sequence, all iteration forms agree, and
  emptiness, first, last, next and previous answers follow. Results never depend on what uninitialised or overwritten list heads contained
  before, and the intrusive stack and slab list give the same guarantee.''',
  ['histories'], '''all operation sequences to the depth bound over 2-3 list heads and 3-5 elements, with dirty destination heads''',
  '''test/rlist.c performs a fixed script.''',
  ['include/small/rlist.h', 'include/small/lifo.h', 'include/small/slab_list.h'],
  [('circular doubly linked list primitives', 'include/small/rlist.h'), ('lifo', 'include/small/lifo.h')],
  [('prev/next links', 'list order', 'include/small/rlist.h: struct rlist')],
  ['traversal order'])

P('C26', 'The red-black tree is an exact ordered set at every step',
  '''For every sequence of insertions and removals, in-order traversal of the tree equals the sorted set of inserted keys; exact, next-or-equal and previous-or-equal searches, first,
  last, successor, predecessor, bounded iteration and pre-order walks agree with it, from any starting element. The tree stays balanced (red-black rules and logarithmic
  height) and per-node aggregates maintained by the user hook are correct after every operation.''',
  ['histories', 'inputs'], '''all reachable tree shapes for up to N keys, every insert/remove/search key on each (all histories up to isomorphic trees)''',
  '''test/rb.c and rb_rand.cc run random workloads of one shape.''',
  ['include/small/rb.h'],
  [('left-leaning style insertion/removal with a path array', 'include/small/rb.h: rb_gen insert/remove'), ('iterators', 'include/small/rb.h')],
  [('left, right_red', 'links and colours', 'include/small/rb.h')],
  ['search, traversal, walk results', 'aggregates'])

P('C27', 'Alignment, rounding and bit helpers are exact on all inputs',
  '''The bit, rounding and alignment helpers return the mathematically exact result for every input in their documented domain: up and
  down alignment, power-of-two rounding, floor of the binary logarithm, and aligned-size computations, including values next to word
  size limits.''',
  ['inputs'], '''all 16-bit values and all boundary neighbourhoods of every bit position, for every power-of-two alignment''',
  '''test/util.c checks a handful of values.''',
  ['include/small/util.h', 'small/util.c'],
  [('bit tricks', 'include/small/util.h')], (), ['return values'])

P('C28', 'Sanitizer builds detect any access outside live objects',
  '''In the sanitizer build every byte a caller may use of a live allocation from any allocator is accessible, and the bytes next to it, as well as
  every byte of memory that has been freed, truncated, collected or rolled back, are flagged as inaccessible at once (within the sanitizer's
  8-byte granularity; corrupted bytes in front of a block are reported at the latest when it is freed), for every size and every
  alignment up to 16384. A double free, freeing with a wrong size or to the wrong owner is reported and not silently accepted.''',
  ['inputs', 'histories', 'configurations'], '''all operation sequences to the depth bound for each allocator over boundary sizes and all supported alignments''',
  '''The asan tests probe one or two sizes per allocator.''',
  ['small/util.c', 'small/small_asan.c', 'small/mempool_asan.c', 'small/region_asan.c', 'small/lsregion_asan.c', 'small/obuf_asan.c', 'small/slab_cache_asan.c', 'small/slab_arena_asan.c', 'include/small/util.h'],
  [('redzones and manual poisoning', 'small/util.c: small_asan_alloc/small_asan_free')],
  [('small_asan header', 'magic, alignment offset', 'include/small/util.h')],
  ['__asan_address_is_poisoned', 'assert failure handler'])

P('C29', 'Tearing down the whole stack returns every byte',
  '''Whatever mix of regions, buffers, pools, small allocators and log-structured regions used one slab cache and arena, in any order and with
  any failures on the way, memory is charged before it is obtained and total memory charged never exceeds the quota limit at any time. Once every
  allocator has been destroyed the cache accounts zero bytes in use and the quota is charged only for whole slabs; once the caches are destroyed every slab is
  back in the arena, which can hand out as many slabs as the quota allows, and destroying the arena leaves no mapping and no heap block.''',
  ['histories', 'fault_sequences'], '''all sequences to the depth bound mixing one or two operations of each allocator on a shared cache under a tight quota, with up to two refusals''',
  '''Each test exercises one allocator with ample quota and does not look at the mappings.''',
  ['small/slab_arena.c', 'small/slab_cache.c', 'small/region.c', 'small/mempool.c', 'small/small.c', 'small/ibuf.c', 'small/obuf.c', 'small/lsregion.c'],
  [('each allocator returns its slabs to the cache', 'destroy functions'), ('cache returns slabs to the arena', 'small/slab_cache.c: slab_cache_destroy')],
  [('quota.value, arena.used, cache.allocated', 'accounting at each level', 'include/small/*.h')],
  ['quota_used', 'slab_cache_used', 'mmap/munmap/malloc/free balance'])

P('C30', 'Impossible sizes are refused cleanly by every allocator',
  '''A request of any size too large to be satisfied, up to the largest representable one and including sizes whose rounding or header would wrap around, is
  refused by every allocator and buffer with its documented failure result, in bounded time, without aborting and without any side effect on memory,
  accounting or earlier data. No such request is ever answered with a smaller block.''',
  ['inputs'], '''all sizes around every power of two from the slab size to the word size limit and around the word limit itself, for every allocating entry point and
  several prior states''',
  '''No test asks for a size above a few megabytes.''',
  ['small/slab_cache.c', 'small/small.c', 'include/small/region.h', 'small/region.c', 'small/ibuf.c', 'small/obuf.c', 'small/lsregion.c', 'include/small/lsregion.h', 'include/small/static.h', 'include/small/quota.h'],
  [('size plus header computation', 'small/slab_cache.c: slab_get, slab_get_large'), ('capacity doubling', 'small/ibuf.c, small/obuf.c')],
  (), ['return values', 'accounting before and after'])

P('C31', 'Threads with their own caches on one arena do not interfere',
  '''When several threads each run their own slab cache, with pools or regions on it, over one shared arena and quota, then for every interleaving each
  thread sees only its own memory, contents it wrote stay intact, and no data race occurs on memory passed from one thread to
  another through the arena. After all threads release everything, shared consumption equals only what caches and arena keep and destroying the caches leaves
  the full arena reusable.''',
  ['schedules', 'fault_sequences'], '''all interleavings of 2-3 threads x 1-3 allocator operations with slabs migrating between threads under a tight quota''',
  '''test/arena_mt.c only drives the arena directly; no test runs caches on several threads.''',
  ['small/slab_cache.c', 'small/slab_arena.c', 'small/mempool.c', 'small/region.c', 'include/small/quota.h', 'include/small/lf_lifo.h'],
  [('thread-local cache over a lock-free shared arena', 'small/slab_cache.c, small/slab_arena.c')],
  [('arena.cache, arena.used, quota.value', 'shared state', 'include/small/slab_arena.h')],
  ['slab_get/slab_put', 'quota_used'])

P('C32', 'The sanitizer build keeps the functional contract',
  '''The sanitizer variants of the allocators follow the same observable contract as the regular ones: distinct live memory with stable
  contents and requested alignment, exact used-bytes, truncation, rollback, garbage-collection and flush semantics (flush positions are opaque; every allocation counts as a slab
  of its own), exact callbacks, and nothing left allocated after destruction, for every history.''',
  ['histories', 'configurations'], '''all operation sequences to the depth bound of the regular allocators' alphabets, run on the sanitizer implementations''',
  '''The asan test configuration runs the same fixed scenarios, several of them disabled for it.''',
  ['small/small_asan.c', 'small/mempool_asan.c', 'small/region_asan.c', 'small/lsregion_asan.c', 'small/obuf_asan.c', 'small/slab_cache_asan.c', 'small/slab_arena_asan.c'],
  [('one heap object per allocation in lists', 'small/*_asan.c')], (), ['return values and accounting of every allocator'])

P('C33', 'Read views can be read by other threads while the array changes',
  '''A thread that was handed a created read view sees, for every interleaving with the owner of the array (allocating, freeing, touching and
  overwriting blocks, creating and destroying other views, resetting once no reader is left), exactly the block contents of the moment the view was created,
  at addresses that stay valid until the view is destroyed, and no access of the owner to memory the reader uses is a data race.''',
  ['schedules', 'histories'], '''all interleavings of 1-3 owner calls with 1-2 readers from every state reachable by short histories, with allocation refusals''',
  '''test/matras.cc uses views in one thread only.''',
  ['include/small/matras.h', 'small/matras.c'],
  [('copy-on-write of shared extents; read view links', 'small/matras.c: matras_touch_no_check, matras_create_read_view, matras_destroy_read_view'), ('view access', 'include/small/matras.h: matras_view_get')],
  [('matras_view', 'shared between owner and readers', 'include/small/matras.h')], ['block addresses and contents read through a view'])

P('C34', 'The use of a slab cache can be read from any thread',
  '''slab_cache_used() called by any thread, at any moment of any operation of the thread owning the cache, returns the number of bytes that were in use at some
  moment during the call (never a transient value, never going back in time, failed requests never visible), and reading it is no data race.''',
  ['schedules', 'histories', 'fault_sequences'], '''all interleavings of 2-3 owner calls (blocks of every kind, refusals) with 1-2 readers''',
  '''No test reads it from another thread.''',
  ['include/small/slab_cache.h', 'small/slab_cache.c'],
  [('accounting of used bytes', 'small/slab_cache.c: slab_set_used, slab_set_free, slab_get_large, slab_put_large')],
  [('slab_cache.allocated.stats.used', 'read by other threads', 'include/small/slab_cache.h')], ['slab_cache_used'])

P('C35', 'The feature probe tells the truth and leaves nothing behind',
  '''small_test_feature() answers true exactly for features that are compiled in and that the system, asked at that moment, accepts on real memory; every other number is
  answered false. Whatever the system answers, no memory stays mapped and later answers are not affected.''',
  ['inputs', 'fault_sequences'], '''all feature numbers near zero, powers of two and the largest; every combination of refusals of mmap and madvise over several queries; with and without madvise compiled in''',
  '''No test calls it with a refusing system or an unknown number.''',
  ['small/small_features.c', 'include/small/small_features.h'],
  [('runtime probe', 'small/small_features.c: test_dontdump, small_test_feature')], (), ['return value', 'mappings'])

P('C36', 'The sanitizer build keeps the objects of several threads apart',
  '''In builds with ENABLE_ASAN, allocators created and used by several threads over one arena and quota behave as if each thread was alone: identities of arenas, caches,
  pools and small allocators are unique whatever the interleaving of their creation, no object is given twice or outside memory of its own, quota charges never exceed the
  limit and return to zero, another thread may read slab_cache_used() at any moment, no correct release is reported as misuse, and every release through an allocator or
  arena that does not own the object is reported. No access to shared state is a data race.''',
  ['schedules', 'histories', 'fault_sequences'], '''all interleavings of 1-3 calls on 2-3 threads, every wrong owner of every object at the end of each''',
  '''The sanitizer build is tested in one thread, with one allocator at a time.''',
  ['small/util.c', 'small/slab_arena_asan.c', 'small/slab_cache_asan.c', 'small/mempool_asan.c', 'small/small_asan.c'],
  [('unique ids', 'small/util.c: small_asan_reserve_id'), ('owner checks', 'small/slab_cache_asan.c: slab_put; small/mempool_asan.c: mempool_free; small/small_asan.c: smfree; small/slab_arena_asan.c: slab_unmap')],
  [('small_asan_id_next', 'shared by all threads', 'small/util.c'), ('quota', 'shared by all threads', 'include/small/quota.h')], ['returned memory', 'misuse reports', 'slab_cache_used, quota_used'])

with open(OUT, 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
print(len(rows), 'properties')
