"""Builds a harness against /repo's current working tree."""
import os, subprocess, hashlib, glob, shutil, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
ENG = os.path.join(VERIF, 'engine')
HAR = os.path.join(VERIF, 'harness')

REDEF = ['malloc', 'free', 'calloc', 'realloc', 'aligned_alloc', 'posix_memalign', 'mmap', 'munmap', 'madvise', 'mmap64', 'mprotect']

PLAIN = ['slab_cache', 'region', 'mempool', 'slab_arena', 'small', 'small_class', 'lsregion', 'obuf',
         'ibuf', 'matras', 'static', 'util', 'small_features']

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])
    return p.stdout

def config_h(dirname, asan, off=()):
    """Generate small_config.h from the repository's template as cmake would on Linux."""
    os.makedirs(dirname, exist_ok=True)
    src = open(os.path.join(REPO, 'small', 'small_config.h.cmake')).read()
    out = []
    for line in src.splitlines():
        s = line.strip()
        if s.startswith('#cmakedefine'):
            parts = s.split()
            name = parts[1]
            on = not (name == 'ENABLE_ASAN' and not asan) and not name.endswith('MADV_NOSYNC') \
                and not name.endswith('MADV_NOCORE')
            if name == 'ENABLE_ASAN':
                on = asan
            if name in off:
                on = False
            if parts[0] == '#cmakedefine01':
                out.append('#define %s %d' % (name, 1 if on else 0))
            elif on:
                out.append('#define ' + ' '.join(parts[1:]) + ('' if len(parts) > 2 else ' 1'))
            else:
                out.append('/* #undef %s */' % name)
        else:
            out.append(line)
    with open(os.path.join(dirname, 'small_config.h'), 'w') as f:
        f.write('\n'.join(out) + '\n')

def source_list(asan):
    """Library sources, taken from the repository's own CMakeLists.txt when it can be read."""
    out = []
    for n in PLAIN:
        f = os.path.join(REPO, 'small', n + '.c')
        if asan and os.path.exists(os.path.join(REPO, 'small', n + '_asan.c')):
            f = os.path.join(REPO, 'small', n + '_asan.c')
        out.append(f)
    known = set(os.path.basename(x) for x in glob.glob(os.path.join(REPO, 'small', '*.c')))
    named = set(n + '.c' for n in PLAIN) | set(n + '_asan.c' for n in PLAIN)
    for extra in sorted(known - named):    # a source file added later
        if extra.endswith('_asan.c') != asan and extra.endswith('_asan.c'):
            continue
        out.append(os.path.join(REPO, 'small', extra))
    return out

def build(name, outdir, mode='plain', defs=(), opt='-O2', extra_src=(), lib_defs=(), ndebug=False, alloc=False, config_off=(), sanlib=False):
    """mode: plain | asan | tsan (own runtime, concurrency engine).  sanlib: the sanitizer build's sources, without the sanitizer."""
    asan = mode == 'asan'
    tag = hashlib.sha1(repr((name, mode, sorted(defs), sorted(lib_defs), opt, ndebug, alloc, sorted(config_off)) + (('sanlib',) if sanlib else ())).encode()).hexdigest()[:10]
    d = os.path.join(outdir, '%s-%s-%s' % (name, mode, tag))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    config_h(os.path.join(d, 'cfg'), asan or sanlib, config_off)
    inc = ['-I' + os.path.join(d, 'cfg'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'include', 'small'),
           '-I' + os.path.join(REPO, 'third_party'), '-I' + os.path.join(REPO, 'small'), '-I' + ENG]
    base = [opt, '-g', '-w', '-D_GNU_SOURCE', '-DNVALGRIND=1', '-fno-omit-frame-pointer', '-fno-pie']
    if asan:
        base += ['-DENABLE_ASAN=1'] if False else []
        base += ['-fsanitize=address']
    if ndebug:
        base += ['-DNDEBUG']
    tsan = ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0'] if mode == 'tsan' else []
    jobs = []
    objs = []
    lib = []
    for s in source_list(asan or sanlib):
        o = os.path.join(d, 'lib_' + os.path.basename(s)[:-2] + '.o')
        jobs.append(['gcc', '-std=gnu99', '-c', s, '-o', o, '-fno-zero-initialized-in-bss', '-fno-common'] + base + tsan + inc +
                    ['-D' + x for x in defs] + ['-D' + x for x in lib_defs])
        lib.append(o)
    hs = os.path.join(HAR, name + '.cc')
    ho = os.path.join(d, name + '.o')
    jobs.append(['g++', '-std=gnu++17', '-c', hs, '-o', ho] + ['-O1' if x == opt else x for x in base] + inc + ['-fpermissive'] + ['-D' + x for x in defs])
    objs.append(ho)
    for s in extra_src:          # harness parts that inline the library's headers, instrumented like the library
        o = os.path.join(d, os.path.basename(s).replace('.', '_') + '.o')
        cc = ['gcc', '-std=gnu99'] if s.endswith('.c') else ['g++', '-std=gnu++17', '-fpermissive']
        jobs.append(cc + ['-c', os.path.join(HAR, s), '-o', o] + base + tsan + inc + ['-D' + x for x in defs])
        objs.append(o)
    for e in ['mc', 'env_asan' if asan else 'env'] + (['tsanrt'] if mode == 'tsan' else []) + (['alloc'] if alloc else []):
        o = os.path.join(d, 'eng_' + e + '.o')
        jobs.append(['g++', '-std=gnu++17', '-w', '-fpermissive', '-c', os.path.join(ENG, e + '.cc'), '-o', o, '-O2', '-g', '-fno-pie'] + inc +
                    (['-DNDEBUG'] if ndebug else []) + ['-D' + x for x in defs])
        objs.append(o)
    errs = []
    sem = threading.Semaphore(8)
    def work(c):
        with sem:
            try:
                run(c)
            except BuildError as ex:
                errs.append(str(ex))
    ts = [threading.Thread(target=work, args=(c,)) for c in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise BuildError(errs[0])
    for o in lib:
        cmd = ['objcopy'] + ([] if asan else ['--rename-section', '.data=libdata', '--rename-section', '.bss=libdata,alloc,load,data,contents'])
        for s in REDEF + ([] if asan else ['fprintf', '__fprintf_chk']) + (['memcpy', 'memmove', 'memset'] if mode == 'tsan' else []):
            cmd += ['--redefine-sym', '%s=mc_%s' % (s, s)]
        run(cmd + [o])
    exe = os.path.join(d, 'run')
    link = ['g++', '-o', exe, '-no-pie'] + objs + lib + ['-lpthread', '-lm']
    if alloc and not asan:
        link += ['-Wl,--wrap=slab_map', '-Wl,--wrap=slab_unmap']
    if asan:
        link += ['-fsanitize=address']
    run(link)
    return exe
