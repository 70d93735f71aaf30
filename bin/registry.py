"""What each check builds and explores."""
CHECKS = {}

def run(build, label, args, workers=1):
    return dict(build=build, label=label, args=args, workers=workers)

CONC_ASSUME = ['scheduling points at every atomic operation and every plain access to the shared words; sequentially consistent values',
               'weak compare-and-swap may fail spuriously at most --faults times per execution',
               'state cache keyed by 58-bit hashes']
SEQ_ASSUME = ['single-threaded use; the environment (mmap, malloc) is replaced by a deterministic one that explores its answers',
              'state cache (where used) keyed by 58-bit hashes']

CQ = dict(name='conc_quota', mode='tsan', opt='-O0', extra_src=['conc_quota_impl.c'])
CHECKS['C01'] = dict(
    technique='exhaustive interleaving exploration of the real code with an online linearizability monitor',
    note='All interleavings of the stated thread/operation counts; sequentially consistent memory model.',
    bounds='2 threads x 3 ops over 9 operations, 3 threads x 1 op over 9 operations, 1 spurious CAS failure; 3 threads x 2 ops over 4 operations',
    assumptions=CONC_ASSUME,
    builds={'q': CQ},
    quick=[run('q', '2x3', '--threads=2 --ops=3 --faults=1 --table=22', 8),
           run('q', '3x1', '--threads=3 --ops=1 --faults=2 --table=20', 4),
           run('q', '2x2 near the maximum limit', '--threads=2 --ops=2 --faults=1 --table=20 --base=4294967292', 4),
           run('q', '3x2 core ops', '--threads=3 --ops=2 --alpha=4 --faults=0 --table=23', 8)],
    thorough=[run('q', '2x3', '--threads=2 --ops=3 --faults=2 --table=24', 8),
              run('q', '2x4', '--threads=2 --ops=4 --faults=1 --table=27', 8),
              run('q', '3x1', '--threads=3 --ops=1 --faults=3 --table=22', 8),
              run('q', '2x3 near the maximum limit', '--threads=2 --ops=3 --faults=1 --table=24 --base=4294967292', 8),
              run('q', '3x2 core ops', '--threads=3 --ops=2 --alpha=6 --faults=0 --table=28', 8)])

CHECKS['C02'] = dict(
    technique='exhaustive exploration of operation histories over boundary values against an exact model',
    note='Every history up to the depth over the boundary alphabet; values between the boundaries are not enumerated.',
    bounds='histories of 4 (quick) / 6 (thorough) calls, 40 boundary sizes, 25 boundary limits, also with assertions compiled out',
    assumptions=SEQ_ASSUME,
    builds={'q': dict(name='seq_quota'), 'n': dict(name='seq_quota', ndebug=True)},
    quick=[run('q', 'depth 4', '--depth=4 --table=22', 4), run('n', 'depth 4, NDEBUG', '--depth=4 --table=22', 4)],
    thorough=[run('q', 'depth 6', '--depth=6 --table=27', 8), run('n', 'depth 5, NDEBUG', '--depth=5 --table=27', 8)])

CHECKS['C03'] = dict(
    technique='exhaustive exploration of lessor histories plus all interleavings of lessors sharing a quota',
    note='Bounded histories over boundary sizes; all schedules of two (three) threads for the concurrent part.',
    bounds='sequential: histories of 4/6 calls over 24 sizes, 9 limits and a competing user; concurrent: 2 threads x 3 calls, 3 threads x 2 calls',
    assumptions=SEQ_ASSUME + CONC_ASSUME[:2],
    builds={'s': dict(name='seq_lessor'), 'c': dict(name='conc_lessor', mode='tsan', opt='-O0', extra_src=['conc_quota_impl.c']),
            'n': dict(name='seq_lessor', ndebug=True)},
    quick=[run('s', 'one lessor', '--depth=4 --table=22', 4), run('s', 'two lessors', '--depth=3 --lessors=2 --table=22', 4),
           run('n', 'one lessor, NDEBUG', '--depth=3 --table=22', 2),
           run('c', '2 threads', '--threads=2 --ops=3 --faults=0 --table=24', 8),
           run('c', '2 threads, spurious CAS failures', '--threads=2 --ops=2 --faults=1 --table=24', 4)],
    thorough=[run('s', 'one lessor', '--depth=6 --table=26', 8), run('s', 'two lessors', '--depth=5 --lessors=2 --table=26', 8),
              run('c', '2 threads', '--threads=2 --ops=4 --faults=1 --table=27', 8),
              run('c', '3 threads', '--threads=3 --ops=2 --faults=0 --table=27', 8)])

CHECKS['C04'] = dict(
    technique='exhaustive interleaving exploration of the real code with linearizability monitor and vector-clock publication check',
    note='All interleavings within the stated threads/operations/elements; every atomic and plain access to the head and the links is a scheduling point.',
    bounds='2 threads x 4 ops x 2-3 elements, 3 threads x 2 ops, every initial distribution, counter wrap-around, spurious CAS failures',
    assumptions=CONC_ASSUME,
    builds={'q': dict(name='conc_lifo', mode='tsan', opt='-O0', extra_src=['conc_lifo_impl.c'])},
    quick=[run('q', '2x3, 3 elements', '--threads=2 --ops=3 --elems=3 --table=23', 8),
           run('q', '2x4, 2 elements', '--threads=2 --ops=4 --elems=2 --table=24', 8),
           run('q', '2x3, spurious', '--threads=2 --ops=3 --elems=2 --faults=1 --table=22', 4),
           run('q', '2x2, counter wraps', '--threads=2 --ops=2 --elems=2 --wrap=1 --table=22', 4),
           run('q', '1+4 ops, 32767 reuses in between', '--threads=2 --ops0=1 --ops=4 --elems=2 --churn=32767 --table=22', 8),
           run('q', '3x2, 2 elements', '--threads=3 --ops=2 --elems=2 --table=24', 8)],
    thorough=[run('q', '2x4, 3 elements', '--threads=2 --ops=4 --elems=3 --table=27', 8),
              run('q', '2x5, 2 elements', '--threads=2 --ops=5 --elems=2 --table=27', 8),
              run('q', '2x4, spurious', '--threads=2 --ops=4 --elems=2 --faults=2 --table=26', 8),
              run('q', '1+5 ops, 32767 reuses in between', '--threads=2 --ops0=1 --ops=5 --elems=3 --churn=32767 --table=24', 8),
              run('q', 'counter wraps', '--threads=2 --ops=3 --elems=2 --wrap=2 --table=24', 8),
              run('q', '3x2, 3 elements', '--threads=3 --ops=2 --elems=3 --table=27', 8),
              run('q', '3x3, 2 elements, 3 preemptions', '--threads=3 --ops=3 --elems=2 --preempt=3 --table=27', 8)])

CA = dict(name='conc_arena', mode='tsan', opt='-O0')
CHECKS['C05'] = dict(
    technique='exhaustive interleaving exploration of the real arena code with ownership, happens-before and refusal-justification monitors',
    note='All interleavings and system refusals within the stated bounds.',
    bounds='2 threads x 3 map/unmap calls, 3 threads x 2 calls (preemption bound in quick), 0-2 preallocated slabs, limits of 1-3 slabs, one mmap refusal, initial cached/owned slabs',
    assumptions=CONC_ASSUME,
    builds={'a': CA},
    quick=[run('a', '2x4 pre0 limit1', '--threads=2 --ops=4 --pre=0 --limit=1 --table=22', 4),
           run('a', '2x4 pre1 limit2 mmap failure', '--threads=2 --ops=4 --pre=1 --limit=2 --mmapfail=1 --faults=1 --table=24', 8),
           run('a', '2x4 pre2 limit2 reuse', '--threads=2 --ops=4 --pre=2 --limit=2 --init=2 --table=23', 8),
           run('a', '2x3 pre2 limit3', '--threads=2 --ops=3 --pre=2 --limit=3 --mmapfail=1 --faults=1 --table=23', 8),
           run('a', '2x2 pre0 limit3 unaligned placement', '--threads=2 --ops=2 --pre=0 --limit=3 --place=2 --mmapfail=1 --faults=1 --extra=4096 --table=22', 4),
           run('a', '2x3 spurious', '--threads=2 --ops=3 --pre=1 --limit=2 --spurious=1 --faults=1 --init=1 --table=22', 4),
           run('a', '2x2 128K slabs', '--threads=2 --ops=2 --pre=1 --limit=2 --ss=131072 --table=22', 2),
           run('a', '3x2 pre1 limit2', '--threads=3 --ops=2 --pre=1 --limit=2 --preempt=3 --table=24', 8)],
    thorough=[run('a', '2x4 pre1 limit2', '--threads=2 --ops=4 --pre=1 --limit=2 --mmapfail=1 --faults=1 --table=27', 8),
              run('a', '2x4 pre2 limit3 reuse', '--threads=2 --ops=4 --pre=2 --limit=3 --init=2 --table=27', 8),
              run('a', '2x3 pre0 limit3 unaligned', '--threads=2 --ops=3 --pre=0 --limit=3 --place=2 --mmapfail=1 --faults=2 --table=26', 8),
              run('a', '2x3 spurious', '--threads=2 --ops=3 --pre=1 --limit=2 --spurious=1 --faults=1 --init=1 --table=26', 8),
              run('a', '3x2 pre1 limit2', '--threads=3 --ops=2 --pre=1 --limit=2 --table=28 --time=600', 8)])

CHECKS['C06'] = dict(
    technique='exhaustive exploration of arena lifetimes over every mapping placement and refusal against an exact model',
    note='Every history within the bounds on the real code; the operating system is replaced by one whose answers are enumerated.',
    bounds='9 slab sizes x 10 preallocations x 7 limits x 6 flag sets, up to 6 placements per mapping, histories of 4-8 (quick) / 6-12 (thorough) calls, 1/2 refusals of mmap or madvise; 1 and 2 GB slabs with preallocations and totals over 4 GB',
    assumptions=SEQ_ASSUME,
    builds={'a': dict(name='seq_arena')},
    quick=[run('a', 'all parameters', '--depth=4 --faults=1 --table=24 --sizes=7', 8),
           run('a', 'deeper', '--depth=8 --faults=2 --table=22 --sizes=2 --flags=1 --limits=6', 8),
           run('a', 'over 4 GB', '--depth=6 --giant=1 --faults=1 --flags=1 --table=22', 8),
           run('a', 'over 4 GB, all flags', '--depth=4 --giant=1 --faults=1 --table=22', 8)],
    thorough=[run('a', 'all parameters', '--depth=6 --faults=2 --table=27', 8),
              run('a', 'deeper', '--depth=12 --faults=3 --table=26 --sizes=3 --flags=2 --limits=7', 8)])

SC = dict(name='seq_slabcache', alloc=True)
SC16 = dict(name='seq_slabcache', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=16384'])
SC8 = dict(name='seq_slabcache', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=8192'])
SC256 = dict(name='seq_slabcache', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=256'])
CHECKS['C07'] = dict(
    technique='exhaustive exploration of slab cache histories against exact buddy geometry and accounting',
    note='Every history of get/put calls within the bounds, all states of the real code distinguished by a hash of its memory.',
    bounds='order 0 sizes of 256..16384 bytes in 64K/128K slabs, all size classes and their boundaries, histories of 5-8 (quick) / 7-12 (thorough) calls, 4-8 live blocks; blocks of up to 8 GB',
    assumptions=SEQ_ASSUME,
    builds={'s': SC, 's16': SC16, 'n': dict(SC16, ndebug=True), 's8': SC8, 's256': SC256},
    quick=[run('s16', '3 orders', '--depth=9 --maxlive=7 --lean=1 --table=24', 8),
           run('s8', '4 orders', '--depth=7 --maxlive=5 --lean=1 --large=1 --table=24', 8),
           run('s', '5 orders, boundaries', '--depth=4 --maxlive=4 --large=1 --ordered=1 --table=24', 8),
           run('s256', '9 orders', '--depth=5 --maxlive=4 --lean=1 --ss=65536 --table=24', 8),
           run('s256', 'order cap', '--depth=2 --maxlive=3 --lean=1 --ss=33554432 --table=22', 8),
           run('s16', 'squeezed quota, preallocated', '--depth=6 --maxlive=4 --lean=1 --large=1 --squeeze=1 --pre=1 --limit=2 --table=24', 8),
           run('s16', 'system refusals', '--depth=5 --maxlive=4 --lean=1 --large=1 --osfail=1 --faults=1 --limit=3 --table=24', 8),
           run('n', 'squeezed quota, NDEBUG', '--depth=6 --maxlive=4 --lean=1 --large=1 --squeeze=1 --limit=2 --table=24', 8),
           run('n', 'over 4 GB, NDEBUG', '--depth=4 --giant=1 --lean=1 --large=1 --limit=3', 4)],
    thorough=[run('s16', '3 orders', '--depth=14 --maxlive=9 --lean=1 --limit=4 --table=26', 8),
              run('s8', '4 orders', '--depth=9 --maxlive=7 --lean=1 --large=1 --table=27 --time=280', 8),
              run('s', '5 orders, boundaries', '--depth=6 --maxlive=4 --large=1 --ordered=1 --table=27 --time=280', 8),
              run('s256', '9 orders', '--depth=7 --maxlive=5 --lean=1 --ss=65536 --table=27 --time=280', 8),
              run('s256', 'order cap', '--depth=3 --maxlive=3 --lean=1 --ss=16777216 --table=22 --time=200', 8)])
CHECKS['C08'] = dict(
    technique='exhaustive exploration of slab cache histories with every refusal point of quota, arena, mmap and malloc',
    note='Every history of calls and refusals within the bounds on the real code.',
    bounds='histories of 5-7 (quick) / 7-9 (thorough) calls over arena-sized, larger and wrap-around sizes; quota squeezed to the current consumption at any point, 1-2 system refusals at any call',
    assumptions=SEQ_ASSUME,
    builds={'s16': SC16, 's': SC, 'n': dict(name='seq_slabcache', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=16384'], ndebug=True)},
    quick=[run('s16', 'squeezed quota', '--depth=7 --maxlive=4 --lean=1 --large=1 --squeeze=1 --limit=2 --large_room=3 --table=24', 8),
           run('s16', 'system refusals', '--depth=6 --maxlive=4 --lean=1 --large=1 --osfail=1 --faults=2 --limit=3 --table=24', 8),
           run('s', 'wrap-around sizes', '--depth=3 --maxlive=3 --large=1 --huge=1 --squeeze=1 --table=22', 4),
           run('n', 'wrap-around sizes, NDEBUG', '--depth=3 --maxlive=3 --lean=1 --large=1 --huge=1 --squeeze=1 --table=22', 4),
           run('s16', 'preallocated', '--depth=6 --maxlive=4 --lean=1 --large=1 --squeeze=1 --pre=2 --limit=3 --table=24', 8)],
    thorough=[run('s16', 'squeezed quota', '--depth=10 --maxlive=5 --lean=1 --large=1 --squeeze=1 --limit=2 --large_room=3 --table=27 --time=280', 8),
           run('s16', 'system refusals', '--depth=8 --maxlive=5 --lean=1 --large=1 --osfail=1 --faults=3 --limit=3 --table=27 --time=280', 8),
           run('s', 'wrap-around sizes', '--depth=4 --maxlive=3 --large=1 --huge=1 --squeeze=1 --table=24', 8),
           run('s16', 'preallocated', '--depth=9 --maxlive=5 --lean=1 --large=1 --squeeze=1 --pre=2 --limit=3 --table=26 --time=280', 8)])

MP = dict(name='seq_mempool', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=256'])
MP32 = dict(name='seq_mempool', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=32768'])
def mp(label, args, w=4, b='m'):
    return run(b, label, args + ' --table=23', w)
CHECKS['C09'] = dict(
    technique='exhaustive exploration of pool histories against a reference model of slabs and objects',
    note='Every history within the bounds on the real code, states distinguished by a hash of all memory.',
    bounds='object sizes giving 1, 2, 3, 4, 9, 18 and more objects per slab, up to 4 slabs, one and two pools, histories of 6-9 (quick) / 9-14 (thorough) calls incl. whole-slab macro steps',
    assumptions=SEQ_ASSUME,
    builds={'m': MP, 'n': dict(MP, ndebug=True), 'd': dict(name='seq_mempool', alloc=True)},
    quick=[mp('1 per slab', '--order=0 --objsize=136 --depth=14 --maxslabs=5'),
           mp('2 per slab', '--order=0 --objsize=72 --depth=12 --maxslabs=4'),
           mp('4 per slab, every object', '--order=0 --objsize=36 --depth=12 --maxslabs=3 --every=1 --squeeze=0'),
           mp('18 per slab', '--order=0 --objsize=8 --depth=5 --maxslabs=3 --macro=1 --pre=3', 8),
           mp('9 per slab, unaligned', '--order=0 --objsize=15 --depth=6 --maxslabs=3 --macro=1 --pre=2'),
           mp('two pools', '--order=0 --objsize=72 --objsize1=130 --depth=10 --pools=2 --maxslabs=3 --squeeze=0'),
           mp('default slab size', '--objsize=1016 --depth=4 --macro=1 --maxslabs=2', 4, 'd'),
           mp('16-byte objects', '--order=1 --objsize=16 --depth=4 --macro=1 --maxslabs=2', 4),
           mp('64-byte objects', '--order=2 --objsize=64 --depth=5 --macro=1 --maxslabs=2', 4),
           mp('smallest objects, default slab size', '--objsize=8 --depth=2 --macro=1 --maxslabs=2', 2, 'd'),
           run('n', '2 per slab, NDEBUG', '--order=0 --objsize=72 --depth=10 --maxslabs=4 --table=23', 8)],
    thorough=[mp('1 per slab', '--order=0 --objsize=136 --depth=20 --maxslabs=6', 8),
           mp('2 per slab', '--order=0 --objsize=72 --depth=18 --maxslabs=5', 8),
           mp('3 per slab', '--order=0 --objsize=45 --depth=18 --maxslabs=4 --every=1', 8),
           mp('4 per slab, every object', '--order=0 --objsize=36 --depth=16 --maxslabs=3 --every=1 --squeeze=0', 8),
           mp('18 per slab', '--order=0 --objsize=8 --depth=7 --maxslabs=3 --macro=1 --pre=3 --time=250', 8),
           mp('9 per slab, unaligned', '--order=0 --objsize=15 --depth=8 --maxslabs=3 --macro=1 --pre=2 --time=200', 8),
           mp('two pools', '--order=0 --objsize=72 --objsize1=130 --depth=14 --pools=2 --maxslabs=3 --time=200', 8),
           mp('default slab size', '--objsize=1016 --depth=5 --macro=1 --maxslabs=2', 8, 'd')])
CHECKS['C10'] = dict(
    technique='exhaustive exploration of pool histories with memory refused at any point, against a reference model',
    note='Every history within the bounds on the real code, states distinguished by a hash of all memory.',
    bounds='2 to 49 objects per slab, up to 4 slabs, memory refused and returned at any point, histories of 5-12 (quick) / 7-16 (thorough) calls incl. whole-slab macro steps; every leaf re-allocates the full capacity',
    assumptions=SEQ_ASSUME,
    builds={'m': MP, 'd': dict(name='seq_mempool', alloc=True), 'n': dict(name='seq_mempool', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=256'], ndebug=True)},
    quick=[mp('2 per slab', '--order=0 --objsize=72 --depth=12 --maxslabs=4 --every=1'),
           mp('3 per slab, every object', '--order=0 --objsize=45 --depth=12 --maxslabs=3 --every=1'),
           mp('16 per slab, cold slabs', '--order=0 --objsize=8 --depth=6 --maxslabs=3 --macro=1 --pre=3', 8),
           mp('24 per slab, cold slabs', '--order=1 --objsize=16 --depth=5 --maxslabs=3 --macro=1 --pre=2', 8),
           mp('two pools', '--order=0 --objsize=72 --objsize1=130 --depth=8 --pools=2 --maxslabs=3'),
           mp('NDEBUG', '--order=0 --objsize=72 --depth=10 --maxslabs=3', 4, 'n')],
    thorough=[mp('2 per slab', '--order=0 --objsize=72 --depth=18 --maxslabs=5 --every=1', 8),
           mp('3 per slab, every object', '--order=0 --objsize=45 --depth=16 --maxslabs=4 --every=1', 8),
           mp('16 per slab, cold slabs', '--order=0 --objsize=8 --depth=7 --maxslabs=3 --macro=1 --pre=3 --time=250', 8),
           mp('24 per slab, cold slabs', '--order=1 --objsize=16 --depth=7 --maxslabs=3 --macro=1 --pre=3 --time=250', 8),
           mp('two pools', '--order=0 --objsize=72 --objsize1=130 --depth=13 --pools=2 --maxslabs=3 --time=200', 8)])

SM = dict(name='seq_small', alloc=True)
CHECKS['C11'] = dict(
    technique='exhaustive exploration of allocator histories over class-boundary sizes against a reference model',
    note='Every history within the bounds on the real code, states distinguished by a hash of all memory.',
    bounds='9 configurations of minimum size, granularity and growth factor; sizes at both sides of class boundaries, class 0 and the largest, large objects; histories of 3 (quick) / 4 (thorough) calls; histories of 5-6 / 6-8 macro steps (fill to the waste limit, a slab worth, free all/half of a class or pool, memory refused/returned) over a group of 3 classes; objects of up to 5 GB',
    assumptions=SEQ_ASSUME,
    builds={'s': SM, 'n': dict(name='seq_small', alloc=True, ndebug=True)},
    quick=[run('s', 'all configurations', '--depth=3 --table=23', 8),
           run('n', 'fallback pools, NDEBUG', '--cfg=9 --depth=5 --macro=1 --squeeze=1 --table=23', 8),
           run('n', 'fallback pools, fewer steps, NDEBUG', '--cfg=9 --depth=6 --macro=1 --squeeze=1 --kinds=611 --table=23', 8),
           run('s', 'several groups', '--cfg=1 --depth=3 --classes=6 --macro=1 --squeeze=1 --table=23', 8),
           run('n', 'over 4 GB, NDEBUG', '--depth=4 --giant=1 --cfg=0', 4)],
    thorough=[run('s', 'all configurations', '--depth=4 --spread=12 --table=25', 8),
           run('n', 'fallback pools, NDEBUG', '--cfg=9 --depth=6 --macro=1 --squeeze=1 --table=25 --time=200', 8),
           run('n', 'fallback pools, fewer steps, NDEBUG', '--cfg=9 --depth=8 --macro=1 --squeeze=1 --kinds=611 --table=25 --time=200', 8),
           run('s', 'several groups', '--cfg=1 --depth=4 --classes=6 --macro=1 --squeeze=1 --table=25 --time=150', 8)])
CHECKS['C12'] = dict(
    technique='exhaustive exploration of allocator histories with activation and memory refusal macro steps against an exact waste model',
    note='Every history of the stated steps on the real code, states distinguished by a hash of all memory.',
    bounds='three configurations, 3-6 classes in one or two groups; steps: single allocation and free, fill to/over the waste limit, a slab worth, free all/half of a class or of a fallback pool, memory refused/returned; histories of 4-5 steps of all kinds and 7 of the core kinds (quick) / up to 7 and 9 (thorough)',
    assumptions=SEQ_ASSUME,
    builds={'s': SM, 'n': dict(name='seq_small', alloc=True, ndebug=True)},
    quick=[run('s', 'group of 3 classes', '--cfg=9 --depth=5 --macro=1 --squeeze=1 --table=23', 8),
           run('s', 'group of 3 classes, fewer steps', '--cfg=9 --depth=7 --macro=1 --squeeze=1 --kinds=611 --table=23', 8),
           run('s', 'group of many classes', '--cfg=0 --depth=4 --macro=1 --squeeze=1 --table=23', 8),
           run('s', 'several groups', '--cfg=1 --depth=3 --classes=6 --macro=1 --squeeze=1 --table=23', 8),
           run('n', 'group of 3 classes, NDEBUG', '--cfg=9 --depth=5 --macro=1 --squeeze=1 --table=23', 8)],
    thorough=[run('s', 'group of 3 classes', '--cfg=9 --depth=7 --macro=1 --squeeze=1 --table=26 --time=250', 8),
           run('s', 'group of 3 classes, fewer steps', '--cfg=9 --depth=9 --macro=1 --squeeze=1 --kinds=611 --table=26 --time=200', 8),
           run('s', 'group of many classes', '--cfg=0 --depth=6 --macro=1 --squeeze=1 --table=25 --time=180', 8),
           run('s', 'several groups', '--cfg=1 --depth=5 --classes=6 --macro=1 --squeeze=1 --table=25 --time=180', 8)])

RG = dict(name='seq_region', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=256'], defs=['SLAB_MIN_ORDER0_SIZE=256'])
RG_D = dict(name='seq_region', alloc=True)
RG_N = dict(RG, ndebug=True)
REGION_T = 'exhaustive exploration of region histories against a model of the allocated byte stream and its slabs'
REGION_N = 'Every history within the bounds on the real code, states distinguished by a hash of all memory.'
CHECKS['C14'] = dict(
    technique=REGION_T, note=REGION_N,
    bounds='histories of 4-6 (quick) / 5-8 (thorough) calls of alloc, aligned alloc, reserve(+alloc), truncate to any recorded figure, free, reset; sizes around the room left, slab capacities, arena slab and beyond, sizes over 4 GB; memory refused at any point or up to two system refusals; one and two regions',
    assumptions=SEQ_ASSUME,
    builds={'r': RG, 'd': RG_D, 'n': RG_N},
    quick=[run('r', 'core', '--depth=6 --reset=1 --table=22', 8),
           run('r', 'all sizes', '--depth=4 --full=1 --table=22', 8),
           run('r', 'memory refused', '--depth=5 --squeeze=1 --table=22', 4),
           run('r', 'system refusals', '--depth=5 --osfail=1 --faults=2 --large=1 --table=22', 4),
           run('r', 'two regions', '--depth=5 --regions=2 --maxchunks=3 --table=22', 8),
           run('d', 'default slab size', '--depth=4 --full=1 --table=22', 8),
           run('n', 'over 4 GB, NDEBUG', '--depth=4 --giant=1', 2),
           run('n', 'NDEBUG', '--depth=5 --reset=1 --table=22', 4),
           run('r', 'joins and helpers', '--depth=5 --join=1 --helpers=1 --reset=1 --table=22', 8)],
    thorough=[run('r', 'core', '--depth=8 --reset=1 --table=26 --time=250', 8),
           run('r', 'all sizes', '--depth=5 --full=1 --table=25 --time=200', 8),
           run('r', 'memory refused', '--depth=7 --squeeze=1 --table=25 --time=150', 8),
           run('r', 'system refusals', '--depth=6 --osfail=1 --faults=3 --large=1 --table=25 --time=100', 8),
           run('r', 'two regions', '--depth=7 --regions=2 --maxchunks=3 --table=25 --time=150', 8),
           run('n', 'over 4 GB, NDEBUG', '--depth=5 --giant=1', 4)])
CHECKS['C15'] = dict(
    technique=REGION_T, note=REGION_N,
    bounds='histories of 4-6 (quick) / 5-7 (thorough) calls with a join of every length at and next to each allocation and slab boundary; memory refused at any point',
    assumptions=SEQ_ASSUME,
    builds={'r': RG, 'd': RG_D, 'n': RG_N},
    quick=[run('r', 'memory refused', '--depth=6 --join=1 --reserve=0 --squeeze=1 --table=23', 8),
           run('r', 'all sizes', '--depth=4 --join=1 --full=1 --table=22', 8),
           run('r', 'reservations and resets', '--depth=5 --join=1 --reset=1 --helpers=1 --table=22', 8),
           run('r', 'system refusals', '--depth=5 --join=1 --osfail=1 --faults=1 --large=1 --reserve=0 --table=22', 4),
           run('d', 'default slab size', '--depth=4 --join=1 --full=1 --reserve=0 --table=22', 8),
           run('n', 'NDEBUG', '--depth=5 --join=1 --table=22', 4)],
    thorough=[run('r', 'memory refused', '--depth=7 --join=1 --reserve=0 --squeeze=1 --table=26 --time=300', 8),
           run('r', 'all sizes', '--depth=5 --join=1 --full=1 --table=26 --time=250', 8),
           run('r', 'reservations and resets', '--depth=6 --join=1 --reset=1 --helpers=1 --table=25 --time=200', 8)])
CHECKS['C16'] = dict(
    technique=REGION_T, note=REGION_N,
    bounds='histories of 5-6 (quick) / 6-8 (thorough) calls including reset, free, free-after, truncate, guard scopes and typed helpers, with callbacks set; memory refused at any point; allocations over 4 GB',
    assumptions=SEQ_ASSUME,
    builds={'r': RG, 'd': RG_D, 'n': RG_N},
    quick=[run('r', 'core', '--depth=6 --reset=1 --align=0 --table=22', 8),
           run('r', 'everything', '--depth=5 --reset=1 --helpers=1 --join=1 --squeeze=1 --table=22', 8),
           run('r', 'no callbacks', '--depth=5 --reset=1 --cb=0 --table=22', 4),
           run('d', 'default slab size', '--depth=4 --reset=1 --full=1 --helpers=1 --table=22', 8),
           run('r', 'two regions', '--depth=5 --regions=2 --reset=1 --reserve=0 --maxchunks=3 --table=22', 8),
           run('n', 'NDEBUG', '--depth=5 --reset=1 --helpers=1 --table=22', 4),
           run('r', 'system refusals', '--depth=5 --reset=1 --osfail=1 --faults=1 --large=1 --table=22', 8),
           run('n', 'over 4 GB, NDEBUG', '--depth=5 --giant=1 --reset=1', 4)],
    thorough=[run('r', 'core', '--depth=8 --reset=1 --align=0 --table=26 --time=300', 8),
           run('r', 'everything', '--depth=6 --reset=1 --helpers=1 --join=1 --squeeze=1 --table=25 --time=250', 8),
           run('r', 'two regions', '--depth=6 --regions=2 --reset=1 --reserve=0 --maxchunks=3 --table=25 --time=200', 8)])

IB = dict(name='seq_ibuf', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=256'], defs=['SLAB_MIN_ORDER0_SIZE=256'])
GI = dict(name='seq_giant', alloc=True, ndebug=True)
CHECKS['C17'] = dict(
    technique='exhaustive exploration of buffer histories against a byte queue model',
    note='Every history within the bounds on the real code, states distinguished by a hash of all memory; readable bytes are made canonical after each verified step.',
    bounds='5 start capacities; histories of 3-6 (quick) / 5-8 (thorough) calls with sizes at and next to the room behind and before the data, the capacity and its doublings, the arena slab; memory refused at any point, up to two system refusals; sizes that wrap around; one and two buffers; buffers of up to about 8 GB (4-6 calls)',
    assumptions=SEQ_ASSUME,
    builds={'g': GI, 'i': IB, 'd': dict(name='seq_ibuf', alloc=True), 'n': dict(IB, ndebug=True)},
    quick=[run('i', 'core', '--depth=6 --table=22', 8),
           run('i', 'all sizes', '--depth=4 --full=1 --table=22', 8),
           run('i', 'memory refused', '--depth=6 --squeeze=1 --table=22', 8),
           run('i', 'system refusals', '--depth=4 --osfail=1 --faults=2 --large=1 --table=22', 8),
           run('i', 'two buffers', '--depth=5 --bufs=2 --starts=2 --table=22', 4),
           run('i', 'wrap-around sizes', '--depth=3 --huge=1 --squeeze=1 --table=22', 2),
           run('d', 'default slab size', '--depth=4 --full=1 --squeeze=1 --maxbytes=300000 --table=22', 8),
           run('n', 'NDEBUG', '--depth=5 --table=22', 4),
           run('n', 'wrap-around sizes, NDEBUG', '--depth=3 --huge=1 --table=22', 2),
           run('g', 'over 4 GB, NDEBUG', '--depth=5 --what=0 --time=150', 8)],
    thorough=[run('i', 'core', '--depth=9 --table=26 --time=200', 8),
           run('i', 'all sizes', '--depth=6 --full=1 --table=26 --time=200', 8),
           run('i', 'memory refused', '--depth=8 --squeeze=1 --table=25 --time=150', 8),
           run('i', 'system refusals', '--depth=6 --osfail=1 --faults=2 --large=1 --table=25 --time=150', 8),
           run('i', 'two buffers', '--depth=6 --bufs=2 --starts=3 --squeeze=1 --table=25 --time=120', 8),
           run('g', 'over 4 GB, NDEBUG', '--depth=6 --what=0 --time=200', 4)])

OB = dict(name='seq_obuf', alloc=True, lib_defs=['SLAB_MIN_ORDER0_SIZE=256'], defs=['SLAB_MIN_ORDER0_SIZE=256'])
CHECKS['C18'] = dict(
    technique='exhaustive exploration of buffer histories against a byte stream model with savepoints',
    note='Every history within the bounds on the real code, states distinguished by a hash of all memory; runs at the vector limit start from a fixed prefix of calls.',
    bounds='5 start capacities; histories of 3-6 (quick) / 5-8 (thorough) calls with up to 2 savepoints, sizes at and next to the room left, the capacities and their doublings, the arena slab; memory refused at any point, up to two system refusals; wrap-around sizes; all histories of 3-4 calls from 29, 30 and 31 vectors; streams of up to about 8 GB (4-5 calls)',
    assumptions=SEQ_ASSUME,
    builds={'g': GI, 'o': OB, 'd': dict(name='seq_obuf', alloc=True), 'n': dict(OB, ndebug=True)},
    quick=[run('o', 'core', '--depth=6 --table=22', 8),
           run('o', 'all sizes', '--depth=4 --full=1 --table=22', 8),
           run('o', 'memory refused', '--depth=6 --squeeze=1 --table=22', 8),
           run('o', 'system refusals', '--depth=5 --osfail=1 --faults=2 --large=1 --table=22', 8),
           run('o', 'wrap-around sizes', '--depth=3 --huge=1 --squeeze=1 --table=22', 2),
           run('o', '30 vectors', '--depth=3 --fill=30', 4),
           run('o', '31 vectors', '--depth=3 --fill=31', 4),
           run('o', '31 full vectors', '--depth=3 --fill=31 --fillup=1', 4),
           run('d', 'default slab size', '--depth=3 --full=1 --squeeze=1 --large=1 --maxbytes=300000 --table=22', 8),
           run('n', 'NDEBUG', '--depth=5 --table=22', 4),
           run('n', '30 vectors, NDEBUG', '--depth=3 --fill=30', 4),
           run('n', 'wrap-around sizes, NDEBUG', '--depth=3 --huge=1 --table=22', 2),
           run('g', 'over 4 GB, NDEBUG', '--depth=4 --what=1 --time=150', 4)],
    thorough=[run('o', 'core', '--depth=8 --table=27 --time=200', 8),
           run('o', 'all sizes', '--depth=5 --full=1 --table=26 --time=150', 8),
           run('o', 'memory refused', '--depth=8 --squeeze=1 --table=27 --time=150', 8),
           run('o', 'system refusals', '--depth=6 --osfail=1 --faults=2 --large=1 --table=26 --time=120', 8),
           run('o', '29 vectors', '--depth=4 --fill=29', 8),
           run('o', '30 vectors', '--depth=4 --fill=30', 8),
           run('g', 'over 4 GB, NDEBUG', '--depth=5 --what=1 --time=200', 4)])

LS = dict(name='seq_lsregion', alloc=True)
LSREGION_T = 'exhaustive exploration of log-structured region histories against a model of chunks, ids and blocks'
LSREGION_N = 'Every history within the bounds on the real code, states distinguished by a hash of all memory.'
CHECKS['C19'] = dict(
    technique=LSREGION_T, note=LSREGION_N,
    bounds='histories of 3-6 (quick) / 4-7 (thorough) calls of alloc, aligned alloc, reserve(+alloc) and gc; ids equal or growing; sizes at and next to the room left, slab capacity and beyond; gc at and below every id; memory refused at any point, up to two system refusals; wrap-around sizes; ids at the edges of 32 and 64 bits; blocks over 4 GB',
    assumptions=SEQ_ASSUME,
    builds={'l': LS, 'n': dict(LS, ndebug=True)},
    quick=[run('l', 'core', '--depth=5 --table=22', 8),
           run('l', 'memory refused', '--depth=5 --reserve=0 --squeeze=1 --table=22', 8),
           run('l', 'all sizes', '--depth=3 --full=1 --table=22', 4),
           run('l', 'system refusals', '--depth=4 --osfail=1 --faults=2 --limit=3 --table=22', 4),
           run('l', 'wrap-around sizes', '--depth=2 --huge=1', 2),
           run('n', 'wrap-around sizes, NDEBUG', '--depth=2 --huge=1', 2),
           run('n', 'NDEBUG', '--depth=4 --table=22', 4),
           run('l', 'grown reservations', '--depth=4 --rereserve=1 --table=22', 8),
           run('l', 'large ids', '--depth=4 --ids=1 --reserve=0 --table=22', 8),
           run('n', 'over 4 GB, NDEBUG', '--depth=5 --giant=1', 4)],
    thorough=[run('l', 'core', '--depth=6 --table=27 --time=200', 8),
           run('l', 'memory refused', '--depth=7 --reserve=0 --align=0 --squeeze=1 --table=27 --time=200', 8),
           run('l', 'all sizes', '--depth=4 --full=1 --table=25', 8),
           run('l', 'system refusals', '--depth=5 --osfail=1 --faults=3 --limit=3 --table=25 --time=200', 8)])
CHECKS['C20'] = dict(
    technique=LSREGION_T, note=LSREGION_N,
    bounds='histories of 3-6 (quick) / 4-7 (thorough) calls mixing allocations, reservations, gc and flushes limited to 1-3 vectors or unlimited, plus a complete flush from the start after every call; ids at the edges of 32 and 64 bits; blocks over 4 GB',
    assumptions=SEQ_ASSUME,
    builds={'l': LS, 'n': dict(LS, ndebug=True)},
    quick=[run('l', 'allocations and gc', '--depth=6 --flush=1 --reserve=0 --align=0 --table=23', 8),
           run('l', 'reservations and alignments', '--depth=4 --flush=1 --rereserve=1 --limits=3 --table=22', 8),
           run('l', 'all sizes', '--depth=3 --full=1 --flush=1 --limits=4 --table=22', 4),
           run('l', 'system refusals', '--depth=4 --osfail=1 --faults=2 --flush=1 --limit=3 --table=22', 4),
           run('n', 'NDEBUG', '--depth=4 --flush=1 --rereserve=1 --table=22', 8),
           run('l', 'large ids', '--depth=4 --ids=1 --flush=1 --reserve=0 --table=22', 8),
           run('l', 'memory refused', '--depth=5 --flush=1 --reserve=0 --align=0 --squeeze=1 --table=22', 8),
           run('n', 'over 4 GB, NDEBUG', '--depth=4 --giant=1 --flush=1', 4)],
    thorough=[run('l', 'allocations and gc', '--depth=7 --flush=1 --reserve=0 --align=0 --table=27 --time=300', 8),
           run('l', 'reservations and alignments', '--depth=5 --flush=1 --rereserve=1 --limits=3 --table=26 --time=200', 8),
           run('l', 'all sizes', '--depth=4 --full=1 --flush=1 --limits=4 --table=26 --time=200', 8)])

CHECKS['C13'] = dict(
    technique='exhaustive enumeration of configurations and sizes against a reference class sequence',
    note='Every size up to the dense bound for every configuration of the grid; beyond it both sides and the middle of every class up to 4 GB.',
    bounds='granularities 1..4096, about 100 (quick) / 550 (thorough) requested factors incl. both sides of every switch of the actual factor, 10 minimum sizes that are multiples of the granularity and up to 4 that are not; all sizes to 64 KB (quick) / 1 MB (thorough) for up to 64 classes per doubling, class boundaries up to 1024 (4096) classes per doubling',
    assumptions=['the minimum size is at least the granularity'],
    builds={'c': dict(name='seq_class', extra_src=['class_a.c', 'class_b.c'])},
    quick=[run('c', 'grid', '--dense=65536 --maxbits=8 --densebits=5', 8)],
    thorough=[run('c', 'grid', '--dense=1048576 --maxbits=12 --densebits=7 --grid=512', 8)])
CHECKS['C24'] = dict(
    technique='exhaustive exploration of static buffer histories against a cyclic buffer model',
    note='Every history within the bounds on the real code.',
    bounds='histories of 4-5 (quick) / 6-7 (thorough) calls over sizes at and next to the room left and the buffer size, alignments 1..4096, wrap-around sizes, a second thread at any point',
    assumptions=['allocations older than one buffer length, space skipped at the end included, may be overwritten'],
    builds={'s': dict(name='seq_static'), 'n': dict(name='seq_static', ndebug=True)},
    quick=[run('s', 'core', '--depth=5 --table=22', 8),
           run('s', 'all sizes', '--depth=3 --full=1 --table=22', 4),
           run('s', 'large alignments', '--depth=3 --aligned=1 --table=22', 8),
           run('s', 'two threads', '--depth=3 --threads=1 --table=22', 4),
           run('s', 'wrap-around sizes', '--depth=3 --huge=1 --table=22', 4),
           run('n', 'wrap-around sizes, NDEBUG', '--depth=3 --huge=1 --table=22', 4),
           run('n', 'all sizes, NDEBUG', '--depth=3 --full=1 --table=22', 8)],
    thorough=[run('s', 'core', '--depth=7 --table=26 --time=300', 8),
           run('s', 'all sizes', '--depth=4 --full=1 --table=26 --time=200', 8),
           run('s', 'large alignments', '--depth=4 --aligned=1 --table=24 --time=150', 8),
           run('s', 'two threads', '--depth=4 --threads=1 --table=24 --time=100', 8),
           run('s', 'wrap-around sizes', '--depth=4 --huge=1 --table=24 --time=100', 8)])
CHECKS['C27'] = dict(
    technique='exhaustive enumeration of all values in the stated ranges against the arithmetic definitions',
    note='Every value of the stated ranges with every power-of-two alignment.',
    bounds='all 16-bit values (thorough: at five positions in the word) and all values within 2048 (quick) / 65536 (thorough) of every power of two and of the largest value, all 64 alignments',
    assumptions=['documented domains: power-of-two alignments, no overflow of the aligned value, logarithm of positive values'],
    builds={'u': dict(name='seq_util'), 'n': dict(name='seq_util', ndebug=True)},
    quick=[run('u', 'values', '--window=2048', 8), run('n', 'values, NDEBUG', '--window=1024 --full=1', 8)],
    thorough=[run('u', 'values', '--window=65536 --full=1', 8)])
CHECKS['C25'] = dict(
    technique='exhaustive exploration of list operation histories against plain sequences',
    note='Every history within the bounds on the real headers; raw link memory is part of the state.',
    bounds='lists: 2-3 heads (all but one start as garbage), 3-5 elements, histories of 7 (quick) / 8-10 (thorough) operations; stack: 2 heads, 4-5 elements, 9-11 operations; slab lists: 2 lists, 4 slabs, 6-8 operations',
    assumptions=['swap, splice and cut are called on two different list heads'],
    builds={'l': dict(name='seq_list')},
    quick=[run('l', '2 lists 4 elements', '--heads=2 --n=4 --depth=7 --table=24', 8),
           run('l', '3 lists 3 elements', '--heads=3 --n=3 --depth=7 --table=24', 8),
           run('l', 'stack', '--kind=1 --n=4 --depth=9 --table=20', 4),
           run('l', 'slab lists', '--kind=2 --depth=6 --table=22', 4)],
    thorough=[run('l', '2 lists 4 elements', '--heads=2 --n=4 --depth=10 --table=27 --time=300', 8),
           run('l', '2 lists 5 elements', '--heads=2 --n=5 --depth=8 --table=27 --time=200', 8),
           run('l', '3 lists 3 elements', '--heads=3 --n=3 --depth=10 --table=27 --time=200', 8),
           run('l', 'stack', '--kind=1 --n=5 --depth=11 --table=24 --time=60', 8),
           run('l', 'slab lists', '--kind=2 --depth=9 --table=24 --time=60', 8)])
RB_SRC = ['rb_a.c', 'rb_b.c', 'rb_c.c', 'rb_d.c']
CHECKS['C26'] = dict(
    technique='explicit-state search over every reachable tree shape of the real code, compared with a sorted sequence',
    note='Breadth-first closure under insertion at every position and removal of every node; keys are renumbered in order, which no comparison can observe.',
    bounds='all trees of up to 16 (quick) / 22 (thorough) nodes, and regular histories of 2^13 / 2^18 nodes, in four instances of the generator (compact/plain links, external key, augmentation, comparison with tree argument)',
    assumptions=['tree states keyed by a 64-bit hash of shape and colours'],
    builds={'r': dict(name='seq_rb', extra_src=RB_SRC)},
    quick=[run('r', 'trees to 16 nodes', '--n=16', 8),
           run('r', 'tall trees', '--tall=13', 8)],
    thorough=[run('r', 'trees to 22 nodes', '--n=22', 8),
           run('r', 'tall trees', '--tall=18', 8)])
MT = dict(name='seq_matras')
MTN = dict(name='seq_matras', ndebug=True)
MTG = 'extents of 16-64 bytes with blocks of 1-32 bytes (capacities 4-256)'
CHECKS['C21'] = dict(
    technique='exhaustive exploration of block array histories against a plain array',
    note='Every history within the bounds on the real code; raw structures and extent memory are the state.',
    bounds=MTG + '; from empty and from every boundary fill: histories of 6 (quick) / 8 (thorough) operations, 12 / 14 for arrays of up to 12 blocks, up to 2 refused extents; complete fill, shrink, view and destruction of 12 large geometries with up to 2^32 blocks (every extent inspected)',
    assumptions=['block and extent sizes are powers of two, ranges divide the blocks of an extent and the current count (documented)'],
    builds={'m': MT, 'n': MTN},
    quick=[run('m', 'histories from boundary fills', '--views=0 --depth=6 --geos=6 --prefill=1 --faults=2 --table=23', 8),
           run('m', 'histories from empty', '--views=0 --depth=12 --geos=4 --blocks=12 --faults=1 --table=22', 8),
           run('n', 'larger geometry, NDEBUG', '--views=0 --depth=4 --geo=6 --prefill=1 --faults=1 --table=22', 8),
           run('n', 'with a view', '--views=1 --depth=6 --geos=2 --prefill=1 --table=22', 8),
           run('m', 'full arrays', '--large=1', 8)],
    thorough=[run('m', 'histories from boundary fills', '--views=0 --depth=8 --geos=6 --prefill=1 --faults=2 --table=26 --time=300', 8),
           run('m', 'histories from empty', '--views=0 --depth=14 --geos=4 --blocks=14 --faults=2 --table=26 --time=200', 8),
           run('m', 'larger geometry', '--views=0 --depth=5 --geo=6 --prefill=1 --faults=2 --table=26 --time=100', 8),
           run('m', 'largest geometry', '--views=0 --depth=4 --geo=7 --prefill=1 --faults=1 --table=26 --time=150', 8),
           run('m', 'with a view', '--views=1 --depth=7 --geos=6 --prefill=1 --faults=1 --table=26 --time=150', 8),
           run('m', 'full arrays', '--large=1', 8)])
CHECKS['C22'] = dict(
    technique='exhaustive exploration of block array and view histories against copies of a plain array',
    note='Every history within the bounds on the real code; every view is compared in full after every operation; at every point of a history the views are also destroyed in several orders.',
    bounds=MTG + '; 2 views: histories of 8 (quick) / 10 (thorough) operations from empty, 5 / 6 from every boundary fill; 3 views: 8 / 10; up to 2 refused extents; refused copies in matras_dealloc are a known finding',
    assumptions=['a block is written only after a successful touch, and not touched when an earlier touch was not needed (documented)'],
    builds={'m': MT, 'n': MTN},
    quick=[run('m', 'two views', '--views=2 --depth=8 --geos=2 --blocks=5 --write=2 --faults=1 --table=23', 8),
           run('m', 'three views', '--views=3 --depth=8 --geos=2 --blocks=5 --table=23', 8),
           run('m', 'two views from boundary fills', '--views=2 --depth=5 --geos=6 --prefill=1 --table=24', 8),
           run('n', 'two views, NDEBUG', '--views=2 --depth=7 --geos=1 --blocks=9 --prefill=1 --table=23', 8),
           run('m', 'refused copy in dealloc', '--views=2 --depth=6 --geos=2 --blocks=5 --faults=1 --dealloc=1 --table=22', 4),
           run('m', 'reserved touches', '--views=2 --depth=7 --geos=2 --blocks=5 --write=2 --reserve=1 --faults=1 --table=23', 8),
           run('m', 'three views from boundary fills', '--views=3 --depth=4 --geos=4 --prefill=1 --table=23', 8)],
    thorough=[run('m', 'two views', '--views=2 --depth=10 --geos=2 --blocks=6 --write=2 --faults=1 --table=27 --time=200', 8),
           run('m', 'three views', '--views=3 --depth=10 --geos=2 --blocks=6 --table=27 --time=200', 8),
           run('m', 'four views', '--views=4 --depth=9 --geos=1 --blocks=5 --table=26 --time=100', 8),
           run('m', 'two views from boundary fills', '--views=2 --depth=6 --geos=6 --prefill=1 --faults=1 --table=27 --time=250', 8),
           run('m', 'larger geometry', '--views=2 --depth=4 --geo=6 --prefill=1 --table=26 --time=100', 8),
           run('m', 'refused copy in dealloc', '--views=2 --depth=7 --geos=2 --blocks=9 --prefill=1 --faults=1 --dealloc=1 --table=26 --time=60', 8)])
CHECKS['C23'] = dict(
    technique='exhaustive exploration of block array and view histories under every pattern of refused extents, with an extent ledger',
    note='Every history and every refusal pattern within the bounds on the real code; from every state the array is also destroyed, with the views destroyed before in several orders.',
    bounds=MTG + '; 2 views: histories of 7 (quick) / 9 (thorough) operations with up to 2 refusals; touch reservations of 1 and 2 with 7 / 8 operations and one refusal; 3 views: 7 / 9',
    assumptions=['no extent is refused to matras_dealloc (known finding of C22)', 'reservations are used before new views are created'],
    builds={'m': MT, 'n': MTN},
    quick=[run('m', 'two views, two refusals', '--views=2 --depth=7 --geos=2 --blocks=6 --faults=2 --table=23', 8),
           run('m', 'reserved touches', '--views=2 --depth=7 --geos=2 --blocks=5 --reserve=1 --faults=1 --table=23', 8),
           run('m', 'three views', '--views=3 --depth=7 --geos=3 --blocks=5 --faults=1 --table=23', 8),
           run('n', 'boundary fills, NDEBUG', '--views=2 --depth=5 --geos=4 --blocks=40 --prefill=1 --faults=1 --table=24', 8),
           run('n', 'reserved touches at boundaries', '--views=1 --depth=4 --geos=4 --prefill=1 --reserve=1 --faults=1 --table=23', 8),
           run('m', 'full arrays', '--large=1', 8)],
    thorough=[run('m', 'two views, two refusals', '--views=2 --depth=9 --geos=2 --blocks=6 --faults=2 --table=27 --time=200', 8),
           run('m', 'reserved touches', '--views=2 --depth=8 --geos=2 --blocks=5 --reserve=1 --faults=1 --table=27 --time=200', 8),
           run('m', 'three views', '--views=3 --depth=9 --geos=3 --blocks=5 --faults=1 --table=27 --time=200', 8),
           run('m', 'boundary fills', '--views=2 --depth=6 --geos=4 --blocks=40 --prefill=1 --faults=1 --table=27 --time=200', 8),
           run('m', 'reserved touches at boundaries', '--views=2 --depth=5 --geos=4 --prefill=1 --reserve=1 --faults=1 --table=26 --time=100', 8)])

AS = dict(name='seq_asan', mode='asan')
ASN = dict(AS, ndebug=True)
AS_T = 'exhaustive exploration of histories of the sanitizer implementations with every byte of every live and dead object checked for accessibility after every call'
AS_ASSUME = ['single-threaded use', 'the accessibility of a byte is what __asan_address_is_poisoned() tells; misuse is caught where the library calls its assertion handler, or, for a double free, by the death of a forked child',
             'memory exists up to the quota only']
CHECKS['C28'] = dict(
    technique=AS_T,
    note='Every history within the bounds on the real *_asan.c code compiled with AddressSanitizer.',
    bounds='every size to 1024 (quick) / 8192 (thorough) with every supported alignment up to 16384 (alignment of the object allocator, regions, log regions); histories of 3-5 (quick) / 4-7 (thorough) calls per allocator over boundary sizes, including wrong-size, wrong-owner and double frees at every point',
    assumptions=AS_ASSUME,
    builds={'a': AS, 'n': ASN},
    quick=[run('a', 'all sizes and alignments', '--kind=0 --max=1024', 8),
           run('a', 'small objects', '--kind=1 --depth=3', 8),
           run('a', 'pools', '--kind=2 --depth=4', 8),
           run('a', 'regions', '--kind=3 --depth=4 --sizes=3 --aligns=2', 8),
           run('a', 'log-structured regions', '--kind=4 --depth=4', 8),
           run('a', 'output buffers', '--kind=5 --depth=5', 8),
           run('a', 'full output buffers', '--kind=5 --depth=3 --prefill=4 --sizes=3', 8),
           run('a', 'input buffers', '--kind=6 --depth=4', 8),
           run('a', 'slab caches', '--kind=7 --depth=3', 8),
           run('a', 'arenas', '--kind=8 --depth=6', 8),
           run('a', 'owners', '--kind=9', 8),
           run('n', 'all sizes and alignments, NDEBUG', '--kind=0 --max=512', 8),
           run('n', 'regions, NDEBUG', '--kind=3 --depth=3', 8)],
    thorough=[run('a', 'all sizes and alignments', '--kind=0 --max=8192', 8),
           run('a', 'small objects', '--kind=1 --depth=4', 8),
           run('a', 'small objects at the quota limit', '--kind=1 --depth=5 --big=1 --time=150', 8),
           run('a', 'pools', '--kind=2 --depth=5', 8),
           run('a', 'regions', '--kind=3 --depth=5 --sizes=3 --aligns=2 --table=26 --time=100', 8),
           run('a', 'log-structured regions', '--kind=4 --depth=6 --table=26 --time=100', 8),
           run('a', 'output buffers', '--kind=5 --depth=6 --prefill=4 --table=26 --time=100', 8),
           run('a', 'input buffers', '--kind=6 --depth=5 --time=100', 8),
           run('a', 'slab caches', '--kind=7 --depth=4', 8),
           run('a', 'arenas', '--kind=8 --depth=8', 8),
           run('a', 'owners', '--kind=9 --bits=21', 8)])
CHECKS['C32'] = dict(
    technique='exhaustive exploration of histories of the sanitizer implementations against the models of the regular allocators',
    note='Every history within the bounds on the real *_asan.c code compiled with AddressSanitizer.',
    bounds='histories of 3-5 (quick) / 4-7 (thorough) calls per allocator over boundary sizes and alignments, callbacks, limits and the quota boundary included',
    assumptions=AS_ASSUME,
    builds={'a': AS, 'n': ASN},
    quick=[run('a', 'small objects', '--kind=1 --depth=3', 8),
           run('a', 'small objects at the quota limit', '--kind=1 --depth=4 --big=1', 8),
           run('a', 'pools', '--kind=2 --depth=4', 8),
           run('a', 'regions', '--kind=3 --depth=6 --sizes=2 --aligns=1', 8),
           run('a', 'regions, alignments', '--kind=3 --depth=4 --sizes=3 --aligns=2', 8),
           run('a', 'log-structured regions', '--kind=4 --depth=6 --aligns=1', 8),
           run('a', 'output buffers', '--kind=5 --depth=6 --sizes=2', 8),
           run('a', 'full output buffers', '--kind=5 --depth=3 --prefill=4', 8),
           run('a', 'input buffers', '--kind=6 --depth=4', 8),
           run('a', 'slab caches', '--kind=7 --depth=3', 8),
           run('n', 'regions, NDEBUG', '--kind=3 --depth=4 --sizes=3 --aligns=2', 8),
           run('n', 'log-structured regions, NDEBUG', '--kind=4 --depth=4', 8),
           run('n', 'output buffers, NDEBUG', '--kind=5 --depth=4', 8)],
    thorough=[run('a', 'small objects', '--kind=1 --depth=4', 8),
           run('a', 'small objects at the quota limit', '--kind=1 --depth=5 --big=1 --time=150', 8),
           run('a', 'pools', '--kind=2 --depth=5', 8),
           run('a', 'regions', '--kind=3 --depth=6 --sizes=2 --aligns=1 --table=26 --time=100', 8),
           run('a', 'regions, alignments', '--kind=3 --depth=5 --sizes=3 --aligns=2 --table=26 --time=100', 8),
           run('a', 'log-structured regions', '--kind=4 --depth=6 --table=26 --time=100', 8),
           run('a', 'output buffers', '--kind=5 --depth=7 --sizes=2 --table=26 --time=100', 8),
           run('a', 'full output buffers', '--kind=5 --depth=5 --prefill=4 --table=26 --time=100', 8),
           run('a', 'input buffers', '--kind=6 --depth=5 --time=100', 8),
           run('a', 'slab caches', '--kind=7 --depth=4', 8)])

HG = dict(name='seq_huge', alloc=True)
CHECKS['C30'] = dict(
    technique='exhaustive enumeration of sizes, entry points and prior states on the real code',
    note='Every size of the stated windows, for every entry point and prior state; a second set of histories mixes such requests with ordinary calls.',
    bounds='18 entry points, 4 prior states, tight and unlimited quota; all sizes within 200 (quick) / 70000 (thorough) of every power of two from 64 KB up, of the largest size, and of every address, length and header distance below it; histories of 2-4 calls with wrap-around sizes',
    assumptions=['a size is impossible if it exceeds the quota, or with unlimited quota the largest block the system gives (16 MB)', 'the data of obuf_dup exists'],
    builds={'h': HG, 'n': dict(HG, ndebug=True), 's': dict(name='seq_slabcache', alloc=True), 'i': dict(name='seq_ibuf', alloc=True), 'o': dict(name='seq_obuf', alloc=True), 'l': dict(name='seq_lsregion', alloc=True), 't': dict(name='seq_static')},
    quick=[run('h', 'all entry points', '--window=200', 8), run('n', 'all entry points, NDEBUG', '--window=4200', 8),
           run('s', 'slab histories', '--depth=4 --large=1 --huge=1 --lean=1 --table=22', 8),
           run('i', 'input buffer histories', '--depth=4 --huge=1 --table=22', 8),
           run('o', 'output buffer histories', '--depth=4 --huge=1 --table=22', 8),
           run('l', 'log region histories', '--depth=3 --huge=1 --table=22', 8),
           run('t', 'static buffer histories', '--depth=3 --huge=1 --table=22', 8)],
    thorough=[run('h', 'all entry points', '--window=70000', 8), run('n', 'all entry points, NDEBUG', '--window=70000', 8),
           run('s', 'slab histories', '--depth=4 --large=1 --huge=1 --table=25', 8),
           run('i', 'input buffer histories', '--depth=5 --huge=1 --table=25 --time=100', 8),
           run('o', 'output buffer histories', '--depth=5 --huge=1 --table=25 --time=100', 8),
           run('l', 'log region histories', '--depth=5 --huge=1 --table=25 --time=100', 8),
           run('t', 'static buffer histories', '--depth=5 --huge=1 --table=25 --time=100', 8)])

MX = dict(name='seq_mixed', alloc=True)
CHECKS['C29'] = dict(
    technique='exhaustive exploration of histories mixing every combination of allocators on one arena, with every order of tearing down at every state',
    note='Every combination of participants and every history within the bounds on the real code, states distinguished by a hash of all memory; every state is torn down in every order.',
    bounds='all pairs (histories of 4-5 calls; thorough 5-6), triples (3; 4) and quadruples (2; 3) of region, pool, small allocator, input buffer, output buffer, log region, raw slabs and a region on a second cache; quota of 1-4 slabs, up to two system refusals, up to two preallocated slabs',
    assumptions=SEQ_ASSUME,
    builds={'m': MX, 's': dict(MX, lib_defs=['SLAB_MIN_ORDER0_SIZE=256'], defs=['SLAB_MIN_ORDER0_SIZE=256']), 'n': dict(MX, ndebug=True)},
    quick=[run('m', 'pairs', '--parts=2 --depth=4 --table=22', 8),
           run('m', 'pairs, system refusals', '--parts=2 --depth=3 --osfail=1 --faults=2 --table=22', 8),
           run('m', 'pairs, preallocated', '--parts=2 --depth=3 --pre=2 --osfail=1 --faults=1 --table=22', 8),
           run('m', 'pairs, quota of two slabs', '--parts=2 --depth=4 --limit=2 --table=22', 8),
           run('m', 'pairs, quota of one slab', '--parts=2 --depth=4 --limit=1 --extra=1000 --table=22', 8),
           run('s', 'triples, small blocks', '--parts=3 --depth=3 --limit=3 --table=22', 8),
           run('m', 'quadruples', '--parts=4 --depth=2 --limit=3 --table=22', 8),
           run('n', 'pairs, NDEBUG', '--parts=2 --depth=3 --table=22', 8)],
    thorough=[run('m', 'pairs', '--parts=2 --depth=6 --table=26 --time=150', 8),
           run('m', 'pairs, system refusals', '--parts=2 --depth=5 --osfail=1 --faults=2 --table=26 --time=120', 8),
           run('m', 'pairs, preallocated', '--parts=2 --depth=5 --pre=2 --table=25 --time=100', 8),
           run('s', 'triples', '--parts=3 --depth=4 --limit=3 --table=26 --time=150', 8),
           run('m', 'quadruples', '--parts=4 --depth=3 --limit=3 --table=26 --time=150', 8)])
CC = dict(name='conc_cache', mode='tsan', opt='-O0', extra_src=['conc_cache_impl.c'])
CHECKS['C31'] = dict(
    technique='exhaustive interleaving exploration of real slab caches and allocators on several threads over one arena, with happens-before, ownership, content and accounting monitors',
    note='All interleavings within the stated preemption bounds; every plain access of the library to slab memory is checked for races, except the first word of a slab, which the lock-free stack reads speculatively.',
    bounds='2 threads x 2-3 calls (preemption bounds 1-2 or none), 3 threads x 1 call; every pair of raw slabs, region, pool, log region, large blocks, small allocator, input and output buffer; calls: allocate small/large, free, destroy and recreate the cache; quota of 1-3 slabs, initial objects and cached slabs, one system refusal',
    assumptions=CONC_ASSUME,
    builds={'c': CC},
    quick=[run('c', 'all kinds, quota of one slab', '--ops=2 --limit=1 --table=22', 8),
           run('c', 'all kinds, quota of two slabs', '--ops=2 --limit=2 --init=1 --preempt=1 --table=22', 8),
           run('c', 'all kinds, system refusal', '--ops=2 --limit=1 --osfail=1 --faults=1 --preempt=2 --table=22', 8),
           run('c', 'large blocks', '--ops=2 --limit=2 --extra=9000 --kinds=17 --preempt=2 --table=22', 8),
           run('c', 'slabs and log regions, all interleavings', '--ops=2 --limit=2 --init=2 --kinds=9 --table=22', 8),
           run('c', 'cached slabs', '--ops=2 --limit=2 --cached=2 --kinds=11 --preempt=1 --table=22', 8),
           run('c', 'buffers and log regions', '--ops=2 --limit=6 --init=2 --kinds=200 --preempt=1 --table=22', 8),
           run('c', 'three threads', '--ops=1 --limit=2 --threads=3 --preempt=1 --kinds=11 --table=22', 8)],
    thorough=[run('c', 'all kinds, quota of two slabs', '--ops=2 --limit=2 --init=1 --table=26 --time=120', 8),
           run('c', 'all kinds, fresh', '--ops=2 --limit=2 --preempt=3 --table=26 --time=120', 8),
           run('c', 'three calls', '--ops=3 --limit=1 --table=26 --time=120', 8),
           run('c', 'preallocated, system refusals', '--ops=2 --limit=3 --pre=2 --init=1 --osfail=1 --faults=2 --preempt=2 --table=26 --time=120', 8),
           run('c', 'three threads', '--ops=2 --limit=2 --threads=3 --preempt=1 --kinds=11 --table=26 --time=120', 8),
           run('c', 'slabs and log regions, three calls', '--ops=3 --limit=2 --init=1 --kinds=11 --table=26 --time=100', 8)])

CM = dict(name='conc_matras', mode='tsan', opt='-O0', extra_src=['conc_matras_impl.c'])
CHECKS['C33'] = dict(
    technique='exhaustive interleaving exploration of the array owner and threads reading views on the real code, with happens-before, content and ownership monitors',
    note='All interleavings of the stated calls (within the stated preemption bound, if any) from every state a short history reaches; every access of the library to extents is a scheduling point, every access to array, views and extents is race-checked.',
    bounds='owner: 1-3 calls (allocate one block or two, free, touch and write, create, destroy and hand over views, reset) after a history of 1-2 calls on arrays of 1-9 blocks; one reader with 1-2 block reads or two readers, the second on a view created meanwhile; up to one refused extent',
    assumptions=CONC_ASSUME + ['a view is handed to another thread, and the end of its use is announced, with release and acquire'],
    builds={'c': CM},
    quick=[run('c', 'one reader, all interleavings', '--ops=2 --pre=1 --table=22', 8),
           run('c', 'two calls before', '--ops=1 --pre=2 --preempt=2 --table=23', 8),
           run('c', 'three calls', '--ops=3 --pre=1 --preempt=1 --blocks=5 --table=22', 8),
           run('c', 'two readers', '--ops=2 --pre=1 --readers=2 --preempt=2 --blocks=2 --table=22', 8),
           run('c', 'two readers, view handed over', '--ops=3 --pre=1 --readers=2 --preempt=1 --blocks=2 --table=22', 8),
           run('c', 'refused extents', '--ops=2 --pre=1 --refuse=1 --faults=1 --preempt=1 --table=22', 8),
           run('c', 'two reads', '--ops=2 --pre=1 --reads=2 --preempt=2 --blocks=3 --table=22', 8),
           run('c', 'reset', '--ops=2 --pre=1 --reset=1 --blocks=4 --table=22', 8)],
    thorough=[run('c', 'two calls before', '--ops=2 --pre=2 --preempt=2 --table=26 --time=140', 8),
           run('c', 'four calls', '--ops=4 --pre=1 --preempt=1 --blocks=5 --table=26 --time=140', 8),
           run('c', 'two readers', '--ops=3 --pre=2 --readers=2 --preempt=2 --blocks=3 --table=26 --time=140', 8),
           run('c', 'refused extents', '--ops=2 --pre=2 --refuse=1 --faults=2 --preempt=2 --table=26 --time=120', 8),
           run('c', 'all geometries', '--ops=3 --pre=1 --geos=4 --reads=2 --table=26 --time=140', 8)])
CU = dict(name='conc_used', mode='tsan', opt='-O0', extra_src=['conc_used_impl.c'])
CHECKS['C34'] = dict(
    technique='exhaustive interleaving exploration of a slab cache and threads reading its use, with an online linearizability monitor and a happens-before monitor',
    note='All interleavings of the stated calls; every access to the counters is a scheduling point, every access to the cache and its slabs is race-checked.',
    bounds='owner: 2-3 (thorough 4-5) calls of slab_get/slab_put over four sizes (three orders and a large block) after histories of 1-3 calls, quota of 1-3 slabs, refusals by the system; 1-2 readers with 1-3 reads',
    assumptions=CONC_ASSUME,
    builds={'c': CU},
    quick=[run('c', 'one reader', '--ops=3 --reads=2 --pre=2 --table=22', 8),
           run('c', 'two readers', '--ops=2 --reads=2 --readers=2 --pre=1 --table=22', 8),
           run('c', 'system refusals', '--ops=2 --reads=2 --pre=1 --osfail=1 --faults=1 --table=22', 8),
           run('c', 'quota of one slab', '--ops=3 --reads=2 --pre=1 --limit=1 --extra=0 --table=22', 8)],
    thorough=[run('c', 'one reader', '--ops=4 --reads=3 --pre=3 --table=25 --time=150', 8),
           run('c', 'two readers', '--ops=3 --reads=2 --readers=2 --pre=2 --table=25 --time=150', 8),
           run('c', 'system refusals', '--ops=4 --reads=2 --pre=2 --osfail=1 --faults=2 --table=25 --time=150', 8)])
FE = dict(name='seq_features')
CHECKS['C35'] = dict(
    technique='exhaustive enumeration of feature numbers and answers of the system on the real code',
    note='Every feature number of the stated windows and every combination of refusals.',
    bounds='feature numbers 0-300, around every power of two and the 300 largest, each followed by up to two (thorough four) more queries; mmap refused or not, madvise refused or not with five error codes; with and without madvise compiled in',
    assumptions=['Linux; a mapping that was obtained can be removed'],
    builds={'f': FE, 'n': dict(FE, ndebug=True), 'x': dict(FE, config_off=['TARANTOOL_SMALL_HAVE_MADVISE'])},
    quick=[run('f', 'all numbers', '--depth=3 --faults=3', 4), run('f', 'other error', '--depth=2 --faults=2 --errno=1', 1), run('f', 'no memory error', '--depth=2 --faults=2 --errno=4', 1),
           run('n', 'all numbers, NDEBUG', '--depth=2 --faults=2', 1), run('x', 'without madvise', '--depth=2 --faults=2', 1)],
    thorough=[run('f', 'all numbers', '--depth=5 --faults=5 --window=5000', 8)] + [run('f', 'error %d' % e, '--depth=3 --faults=3 --errno=%d' % e, 2) for e in range(5)] +
             [run('x', 'without madvise', '--depth=3 --faults=3', 1)])

CY = dict(name='conc_asan', mode='tsan', opt='-O0', extra_src=['conc_asan_impl.c'], sanlib=True)
CHECKS['C36'] = dict(
    technique='exhaustive interleaving exploration of the sanitizer implementations on several threads, with ownership, content, accounting, misuse and happens-before monitors',
    note='Every access to the library\'s own variables and the quota is a scheduling point; accesses to the library\'s variables, the arena and the allocators are race-checked.  At the end of each schedule every kind of object is given to every wrong owner.',
    bounds='2 threads x 1 call: all interleavings; 2 threads x 2 calls up to 2 (thorough 3-4) preemptions, 3 threads x 1 call up to 1 (2), thorough also 2 threads x 3 calls with 1; calls: pool, small, large small, slab, arena slab allocation, free, destroy and recreate everything; allocators created before or by the threads; quota of 1-4 MB',
    assumptions=CONC_ASSUME,
    builds={'c': CY},
    quick=[run('c', 'two threads, one call', '--ops=1 --table=22', 8),
           run('c', 'two threads, two calls', '--ops=2 --preempt=2 --table=22', 8),
           run('c', 'short quota', '--ops=2 --limit=2 --kinds=18 --preempt=2 --table=22', 8),
           run('c', 'use read by others', '--ops=2 --kinds=4 --peek=1 --table=22', 8),
           run('c', 'three threads', '--ops=1 --threads=3 --preempt=1 --table=22', 8)],
    thorough=[run('c', 'use read by others', '--ops=3 --kinds=4 --peek=1 --table=24 --time=100', 8),
           run('c', 'two threads', '--ops=2 --preempt=3 --table=25 --time=200', 8),
           run('c', 'two threads, three calls', '--ops=3 --preempt=1 --table=25 --time=250', 8),
           run('c', 'short quota', '--ops=2 --limit=2 --kinds=18 --preempt=4 --table=25 --time=150', 8),
           run('c', 'three threads', '--ops=1 --threads=3 --preempt=2 --table=25 --time=100', 8)])
