#!/usr/bin/env python3
"""plant.py <id> [check...] : confirms a seeded change (applies, builds, passes the stable tests, demo fails/passes) and runs the property's check on it.
plant.py <id> --new file <<< 'old\n=====\nnew' creates patch.diff first."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i = sys.argv[1]
d = os.path.join(V, 'seeded', i)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
if '--new' in sys.argv:
    files = sys.argv[sys.argv.index('--new') + 1].split(',')
    for f, blk in zip(files, sys.stdin.read().split('\n#####\n')):
        for pair in blk.split('\n-----\n'):
            old, new = pair.strip('\n').split('\n=====\n') if '\n=====\n' in pair else (pair.strip('\n').split('\n=====')[0], '')
            p = '/repo/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print('old text found %d times in %s:\n%s' % (s.count(old), f, old)); sh('git -C /repo checkout -- .'); sys.exit(1)
            open(p, 'w').write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    if '--only-patch' in sys.argv: sys.exit(0)
m = json.load(open(d + '/meta.json'))
ok = True
r = sh('git -C /repo apply %s/patch.diff' % d)
if r.returncode: print('does not apply', r.stdout); sys.exit(1)
try:
    t = sh('bash /opt/vp/test.sh /tmp/plant.json')
    o = json.load(open('/tmp/plant.json')); b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    miss = sorted(b - set(o['passed']))
    print('tests:', 'all pass' if not miss else 'FAIL %s' % miss[:5]); ok &= not miss
    if miss: print(t.stdout[-1500:])
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
    print('demo with patch: exit', r.returncode, r.stdout[-300:]); ok &= r.returncode != 0
    for p in [m['property']] + [x for x in sys.argv[2:] if x.startswith('C') and len(x) == 3]:
        r = sh('timeout 900 python3 bin/check.py %s' % p, cwd=V)
        print(p, 'check exit', r.returncode, '\n'.join(l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'quick:' in l or l.startswith('[')or 'ERROR' in l)[-600:])
finally:
    sh('git -C /repo checkout -- .')
sh('bash /opt/vp/build.sh')
r = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
print('demo unchanged: exit', r.returncode, r.stdout[-300:]); ok &= r.returncode == 0
print('COUNTS' if ok else 'DOES NOT COUNT')
