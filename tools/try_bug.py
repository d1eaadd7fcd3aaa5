#!/usr/bin/env python3
"""try_bug.py [--no-tests] [--no-demo] ID [check...]   tries planted bugs in a private copy of /repo (never in /repo itself)

Development only: the registered checks never read seeded/.  Prints whether the change builds, passes the stable tests,
what the demonstration says with and without it, and which checks (default: that of the property) report it."""
import sys, os, subprocess, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/bugtry'
R = W + '/repo'
args = [a for a in sys.argv[1:] if not a.startswith('--')]
flags = [a for a in sys.argv[1:] if a.startswith('--')]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
os.makedirs(W, exist_ok=True)
head = sh('git -C /repo rev-parse HEAD').stdout.strip()
if not os.path.exists(R): print(sh('git clone -q /repo %s' % R).stdout, end='')
sh('git -C %s fetch -q origin; git -C %s checkout -q -f %s; git -C %s clean -fdq' % (R, R, head, R))
for f in ('build.sh', 'test.sh', 'run_gtest.py', 'results.py', 'BASELINE.json'):
    t = open('/opt/vp/' + f).read().replace('/repo', R).replace('/opt/vp', W)
    p = W + '/' + f
    if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
bug = args[0]
d = V + '/seeded/' + bug
meta = json.load(open(d + '/meta.json'))
demo_dir = W + '/demo'
shutil.rmtree(demo_dir, ignore_errors=True)
shutil.copytree(d, demo_dir, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
def build(): 
    r = sh('bash %s/build.sh' % W)
    if r.returncode: print(r.stdout[-3000:])
    return r.returncode == 0
def demo():
    r = sh('timeout 300 bash %s/demo.sh' % demo_dir, cwd=R)
    return r.returncode, r.stdout[-600:]
if '--no-demo' not in flags:
    assert build()
    rc, out = demo()
    print('demo clean: %d %s' % (rc, '' if rc == 0 else 'BAD ' + out))
r = sh('git -C %s apply %s/patch.diff' % (R, d))
if r.returncode: print('patch does not apply: ' + r.stdout); sys.exit(1)
if '--no-demo' not in flags or '--no-tests' not in flags:
    if not build(): print('does not build'); sys.exit(1)
if '--no-demo' not in flags:
    rc, out = demo()
    print('demo patched: %d %s' % (rc, out.strip()[-300:] if rc else 'BAD (passes) ' + out))
if '--no-tests' not in flags:
    o = W + '/t.json'
    sh('bash %s/test.sh %s' % (W, o))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base if isinstance(base, list) else base.get('stable') or base.get('tests')
    passed = set(json.load(open(o))['passed'])
    missing = [t for t in stable if t not in passed]
    print('tests: %d stable, %d fail %s' % (len(stable), len(missing), missing[:5]))
for c in args[1:] or [meta['property']]:
    e = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=W + '/vb', VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=W + '/evidence')
    r = sh('python3 %s/check.py %s quick' % (V, c), env=e)
    print('check %s: rc=%d %s' % (c, r.returncode, ' | '.join([l for l in r.stdout.split('\n') if 'VIOLATION' in l][:3])[:400]))
    if r.returncode not in (0, 1): print(r.stdout[-1500:])
sh('git -C %s checkout -q -f %s' % (R, head))
