#!/usr/bin/env python3
"""seed.py ID PROP : reads /tmp/w/seed/ID.py with variables FILES=[(file,old,new)...], DEMO (C++ or None), SH (shell body or None),
LIBS, NEEDS, BREAKS; creates seeded/ID, and verifies patch+demo on /tmp/w/repo and the tests on /repo."""
import sys, os, subprocess, json, shutil
ID, PROP = sys.argv[1], sys.argv[2]
src = sys.argv[3] if len(sys.argv) > 3 else f'/tmp/w/seed/{ID}.py'
ns = {'LIBS': '', 'DEMO': None, 'SH': None, 'EXTRA': {}}
exec(open(src).read(), ns)
D = f'/verif/seeded/{ID}'
os.makedirs(D, exist_ok=True)
R = '/tmp/w/repo'
SRC = os.environ.get('SEED_SRC', '/tmp/w/dev')
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
sh(f'git -C {R} fetch -q {SRC} HEAD && git -C {R} checkout -q -f FETCH_HEAD')
sh(f'git -C {R} checkout -q -- .')
for f, o, n in ns['FILES']:
    s = open(f'{R}/{f}').read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(f'{R}/{f}', 'w').write(s.replace(o, n))
diff = sh(f'git -C {R} diff').stdout
open(f'{D}/patch.diff', 'w').write(diff)
json.dump({'property': PROP, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(f'{D}/meta.json', 'w'), indent=1)
for n, c in ns['EXTRA'].items():
    open(f'{D}/{n}', 'w').write(c)
if ns.get('CORO'):
    shutil.copytree('/verif/shim/coro', f'{D}/coro', dirs_exist_ok=True)
if ns['DEMO']:
    open(f'{D}/demo.cpp', 'w').write(ns['DEMO'])
    body = f'''#!/bin/bash
# builds the demonstration against the tree in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++20 -O1 -g1 -w -DNDEBUG -fopenmp -mavx2 -mfma -DFMT_SHARED -DSPDLOG_FMT_EXTERNAL -DALAYA_LASER_USE_LIBAIO=1 -I include -I python/include -I "$D" \\
  -isystem /usr/include/concurrentqueue -isystem /usr/include/concurrentqueue/moodycamel -isystem /usr/include/eigen3 \\
  "$D/demo.cpp" -o "$T/demo" {ns['LIBS']} -lfmt -lspdlog -lpthread || exit 2
cd "$T" && timeout 120 ./demo "$T"
'''
else:
    body = ns['SH']
open(f'{D}/demo.sh', 'w').write(body)
os.chmod(f'{D}/demo.sh', 0o755)
r2 = sh(f'bash {D}/demo.sh', cwd=R)
sh(f'git -C {R} checkout -q -- .')
r1 = sh(f'bash {D}/demo.sh', cwd=R)
print('unpatched demo', r1.returncode, r1.stdout[-300:]); print('patched demo', r2.returncode, r2.stdout[-300:])
ok = r1.returncode == 0 and r2.returncode not in (0, 2)
if ok and '--no-tests' not in sys.argv:
    # build and test in a copy of /repo that is bind-mounted over it in a private mount namespace
    C = '/tmp/w/rcopy'
    os.path.exists('/tmp/w/ts.json') and os.remove('/tmp/w/ts.json')
    sh(f'git -C {C} fetch -q {SRC} HEAD && git -C {C} checkout -q -f FETCH_HEAD && git -C {C} apply {D}/patch.diff')
    try:
        t = sh(f"unshare -Urm sh -c 'mount --bind {C} /repo && bash /opt/vp/build.sh > /tmp/w/sb.log 2>&1 && bash /opt/vp/test.sh /tmp/w/ts.json'")
        p = set(json.load(open('/tmp/w/ts.json'))['passed']); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        print('build+test', t.returncode, 'missing tests', len(st - p), list(st - p)[:4]); ok = not st - p
    finally:
        sh(f'git -C {C} checkout -q -- .')
print('SEED', ID, 'OK' if ok else 'BAD')
if not ok and '--keep' not in sys.argv: shutil.rmtree(D)
if ok:
    env = dict(os.environ, VP_REPO=R, VP_BUILD='/tmp/w/build')
    sh(f'git -C {R} apply {D}/patch.diff')
    c = sh(f'python3 /verif/run.py {PROP}', env=env)
    sh(f'git -C {R} checkout -q -- .')
    print('CHECK', c.returncode, [l[:200] for l in c.stdout.splitlines() if l.startswith('violation') or 'exit' in l][:3])
