#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] : decides one property on /repo's working tree."""
import os, sys, json, time, subprocess, threading, tempfile, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from registry import CHECKS

NCPU = max(1, min(8, os.cpu_count() or 1))

def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                # "KNOWN-FINDING: property=Cxx key=<key> <text>"
                rest = l.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                out.append((key.replace('key=', ''), text))
    return out

class Cores:
    def __init__(self, n):
        self.n = n
        self.cv = threading.Condition()
    def take(self, k):
        with self.cv:
            while self.n < k:
                self.cv.wait()
            self.n -= k
    def give(self, k):
        with self.cv:
            self.n += k
            self.cv.notify_all()

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = a[a.index('--only') + 1] if '--only' in a else None
    t0 = time.time()
    c = CHECKS[prop]
    known = load_known(prop)
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, 'build'))
    try:
        return work_main(prop, tier, seed, only, t0, c, known, work, a)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def work_main(prop, tier, seed, only, t0, c, known, work, a):
    runs = c[tier] if tier in c else c['quick']
    if '--replay' in a:
        rp = json.load(open(a[a.index('--replay') + 1]))
        exe = B.build(outdir=work, **c['builds'][rp['build']])
        p = subprocess.run([exe] + rp['args'].split() + (['--workers=%d' % NCPU] if rp.get('whole_run') else ['--replay=' + rp['path']]))
        return p.returncode
    if only:
        runs = [r for r in runs if only in r['label']]
    need = sorted(set(r['build'] for r in runs))
    exes = {}
    errs = []
    def bld(k):
        try:
            exes[k] = B.build(outdir=work, **c['builds'][k])
        except B.BuildError as e:
            errs.append(str(e))
    ts = [threading.Thread(target=bld, args=(k,)) for k in need]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        print('BUILD ERROR\n' + errs[0][:3000])
        return 2
    t_build = time.time() - t0
    cores = Cores(NCPU)
    results = {}
    stop = []
    env = dict(os.environ)
    env['MC_KNOWN'] = ','.join(k for k, _ in known)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:symbolize=0:allocator_may_return_null=1:abort_on_error=0:exitcode=86:detect_stack_use_after_return=0:max_malloc_fill_size=0:quarantine_size_mb=1'
    env['LC_ALL'] = 'C'
    def once(r, w):
        cmd = [exes[r['build']]] + r['args'].split() + ['--workers=%d' % w]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        try:
            j = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            j = {'error': 'no result (exit %d): %s %s' % (p.returncode, p.stdout[-500:], p.stderr[-500:])}
        j['label'] = r['label']
        return j
    def one(r):
        w = min(NCPU, r.get('workers', 1))
        cores.take(w)
        try:
            if stop:
                return
            j = once(r, w)
            results[r['label']] = (r, j)
            if 'violation' in j:
                stop.append(1)
        finally:
            cores.give(w)
    # A failure that its own replay does not show: the whole run decides, alone this time.
    def settle(r, j):
        k = once(r, min(NCPU, r.get('workers', 1)))
        if 'error' in k and 'violation' not in k:
            a, b = (x['error'].startswith(('not reproducible', 'unstable replay')) for x in (j, k))
            if a and b:
                k['violation'] = 'the run fails each time, though not the replay of its last execution alone: ' + k.pop('error')
                k.setdefault('path', '')
                k['whole_run'] = True
        results[r['label']] = (r, k)
    # big jobs first; each thread blocks on the core tokens
    order = sorted(runs, key=lambda r: -r.get('workers', 1))
    ts = [threading.Thread(target=one, args=(r,)) for r in order]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for r in runs:
        if not stop and r['label'] in results and 'error' in results[r['label']][1]:
            settle(*results[r['label']])
    tot = dict(states=0, transitions=0, executions=0, checks=0, outcomes=0, pruned=0)
    samples, detail, vio, err, knownhits, capped, over = [], [], [], [], [], False, 0
    for r in runs:
        if r['label'] not in results:
            continue
        _, j = results[r['label']]
        if 'error' in j:
            err.append((r, j))
        if 'violation' in j:
            vio.append((r, j))
        for k in tot:
            tot[k] += j.get(k, 0)
        over += j.get('table_overflow', 0)
        capped = capped or j.get('capped', False)
        for s in j.get('samples', [])[:1]:
            if len(samples) < 6:
                samples.append({'run': r['label'], 'args': r['args'], 'execution': s[:1500]})
        for k in j.get('known', []):
            k = k.split(' ', 1)[0].replace('key=', '')
            if k not in knownhits:
                knownhits.append(k)
        detail.append({k: j.get(k) for k in ('label', 'executions', 'states', 'transitions', 'pruned', 'outcomes', 'checks', 'max_choices', 'capped', 'table_overflow', 'wall_s')} | {'args': r['args']})
    for k in knownhits:
        print('KNOWN-FINDING: property=%s key=%s %s' % (prop, k, dict(known).get(k, '')))
    wall = time.time() - t0
    # A stateless enumeration has no state cache: its states are the nodes of the choice tree.
    states = tot['states'] if tot['states'] else tot['transitions']
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=states, transitions=tot['transitions'] + tot['executions'],
                            traces_validated_against_impl=tot['executions'],
                            executions=tot['executions'], pruned_by_state_cache=tot['pruned'],
                            oracle_evaluations=tot['checks'], distinct_outcomes=tot['outcomes'],
                            samples=samples or ['(violation before any complete sample)'],
                            exhaustive=bool(not capped and not vio and not err),
                            bounds=c.get('bounds', ''), runs=detail,
                            conformance='every explored execution is an execution of the code compiled from /repo; the reference model is compared at each step'),
              assumptions=c.get('assumptions', []), wall_s=round(wall, 2), violations=len(vio))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d runs, %d executions, %d states, %d transitions, %d oracle checks, %d outcomes, %.1fs (build %.1fs)%s' %
          (prop, tier, len(results), tot['executions'], states, tot['transitions'] + tot['executions'], tot['checks'], tot['outcomes'], wall, t_build,
           ' CAPPED' if capped else ''))
    if '-v' in a:
        for d in detail:
            print('  ', d)
    if vio:
        r, j = vio[0]
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        h = hashlib.sha1((r['label'] + j['path']).encode()).hexdigest()[:8]
        rp = os.path.join(VERIF, 'out', '%s-%s.json' % (prop, h))
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, build=r['build'], label=r['label'], args=r['args'], path=j['path'],
                           violation=j['violation'], whole_run=j.get('whole_run', False), log=j.get('log', '').splitlines(),
                           replay_cmd='python3 bin/check.py %s --replay %s' % (prop, rp)), f, indent=1)
        print('[%s] %s' % (r['label'], j['violation']))
        print('\n'.join(j.get('log', '').splitlines()[-40:]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if err:
        for r, j in err:
            sys.stdout.flush(); print('ERROR [%s] %s' % (r['label'], j['error']))
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
