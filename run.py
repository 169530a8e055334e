#!/usr/bin/env python3
"""run.py PROP [--thorough] [--replay FILE] [--build-only]

Builds every harness checks/PROP*.cpp from the current tree of /repo, runs it and merges the evidence.
Harness header directives (first 40 lines of the .cpp):
  // mc-src: a.cpp b.cpp      further sources (relative to /verif, or /repo/...)
  // mc-flags: ...            extra compile flags
  // mc-libs: ...             extra link flags
  // mc-cxx: clang++          compiler (default g++)
  // mc-sched                 compile for the controlled scheduler
  // mc-omp                   ... with OpenMP regions run by its threads (lib/gomp_sched.cpp)
  // mc-fsx                   link the file-system interposer
Python harnesses (checks/PROP*.py) are executed with the interpreter that has numpy.
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, glob, shutil, time, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
BASE_FLAGS = ['-std=gnu++20', '-fopenmp', '-mavx2', '-mfma', '-w', '-g1', '-DALAYA_LASER_USE_LIBAIO=1', '-DFMT_SHARED', '-DSPDLOG_FMT_EXTERNAL']
INCS = ['-I' + VERIF, '-I' + VERIF + '/shim', '-I' + REPO + '/include', '-I' + REPO + '/python/include',
        '-isystem', '/usr/include/concurrentqueue', '-isystem', '/usr/include/eigen3',
        '-isystem', '/usr/include/concurrentqueue/moodycamel']
LIBS = ['-fopenmp', '-lfmt', '-lspdlog', '-lpthread', '-ldl']
OPT = ['-O1', '-DNDEBUG', '-ffast-math', '-fno-finite-math-only']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fhash(p, _c={}):
    if p not in _c:
        try:
            with open(p, 'rb') as f:
                _c[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _c[p] = 'missing'
    return _c[p]


def compile_one(src, flags, cxx):
    key = hashlib.sha1((src + '|' + cxx + '|' + ' '.join(flags)).encode()).hexdigest()[:16]
    obj = os.path.join(BUILD, os.path.basename(src) + '.' + key + '.o')
    meta = obj + '.json'
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and all(fhash(p) == h for p, h in m.items()):
            return obj, None
    except (OSError, ValueError):
        pass
    tag = '.%d.%d' % (os.getpid(), threading.get_ident())
    dep, tmp = obj + tag + '.d', obj + tag + '.tmp'
    r = sh([cxx] + flags + ['-MMD', '-MF', dep, '-c', src, '-o', tmp])
    if r.returncode != 0:
        return None, r.stdout[-6000:]
    txt = open(dep).read().replace('\\\n', ' ')
    deps = [d for d in txt.split(':', 1)[1].split() if d.startswith(REPO + '/') or d.startswith(VERIF + '/')]
    deps = list(dict.fromkeys([src] + deps))
    os.replace(tmp, obj)
    with open(meta + tag, 'w') as f:
        json.dump({p: fhash(p) for p in deps}, f)
    os.replace(meta + tag, meta)
    os.unlink(dep)
    return obj, None


def directives(path):
    d = {'src': [], 'flags': [], 'libs': [], 'cxx': 'g++', 'sched': False, 'fsx': False, 'omp': False, 'opt': None}
    for line in open(path).read().splitlines()[:40]:
        m = re.match(r'//\s*mc-([a-z]+):?\s*(.*)$', line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).split()
        if k in ('src', 'flags', 'libs'):
            d[k] += v
        elif k == 'cxx':
            d['cxx'] = v[0]
        elif k == 'opt':
            d['opt'] = v
        elif k in ('sched', 'fsx', 'omp'):
            d[k] = True
    return d


SCHED_FLAGS = ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0', '-mmemcpy-strategy=libcall:-1:noalign', '-mmemset-strategy=libcall:-1:noalign', '-include', VERIF + '/lib/sched_pre.hpp']


def plan(path):
    d = directives(path)
    flags = (d['opt'] if d['opt'] is not None else OPT) + BASE_FLAGS + d['flags'] + INCS
    flags = [f.replace('$REPO', REPO).replace('$VERIF', VERIF) for f in flags]
    if d['sched']:
        # no OpenMP inside scheduled code; the runtime hooks come from lib/sched.cpp
        sf = [f for f in flags if f != '-fopenmp' or d['omp']] + SCHED_FLAGS
    tus = [(path, sf if d['sched'] else flags, d['cxx'])]
    for s in d['src']:
        s = s.replace('$REPO', REPO)
        p = s if s.startswith('/') else os.path.join(VERIF, s)
        tus.append((p, sf if d['sched'] and not p.startswith(VERIF + '/lib') else flags, d['cxx']))
    lib = ['-std=gnu++20', '-O2', '-fno-threadsafe-statics', '-g1', '-w', '-I' + VERIF]
    tus.append((VERIF + '/lib/mc.cpp', lib, 'g++'))
    if d['fsx']:
        tus.append((VERIF + '/lib/fsx.cpp', lib, 'g++'))
    if d['sched']:
        tus.append((VERIF + '/lib/sched.cpp', lib, 'g++'))
        tus.append((VERIF + ('/lib/gomp_sched.cpp' if d['omp'] else '/lib/omp_stub.cpp'), lib, 'g++'))
    return d, tus


def build(path):
    d, tus = plan(path)
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda t: compile_one(*t), tus))
    for (o, e), t in zip(rs, tus):
        if o is None:
            return None, t[0] + '\n' + e
    exe = os.path.join(BUILD, os.path.basename(path)[:-4])
    libs = [l for l in LIBS if not (d['sched'] and l == '-fopenmp')]
    r = sh([d['cxx'], '-rdynamic', '-o', exe] + [o for o, _ in rs] + d['libs'] + libs)
    if r.returncode != 0:
        return None, 'link ' + path + '\n' + r.stdout[-6000:]
    return exe, None


def build_ext():
    """the Python extension (with lib/pyfactory.cpp as its index factory) and the package of the current tree"""
    fl = OPT + [f.replace('$REPO', REPO) for f in BASE_FLAGS] + ['-DALAYA_ENABLE_LASER=1', '-fPIC', '-fvisibility=hidden', '-I/usr/include/python3.12'] + INCS
    src = [VERIF + '/lib/pyfactory.cpp', REPO + '/python/src/pybind.cpp', REPO + '/python/src/diskann_bindings.cpp']
    with cf.ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(lambda p: compile_one(p, fl, 'g++'), src))
    for (o, e), p in zip(rs, src):
        if o is None:
            return None, p + '\n' + e
    d = BUILD + '/pyext'
    os.makedirs(d, exist_ok=True)
    pkg = d + '/alayalite'
    if os.path.islink(pkg) or os.path.exists(pkg):
        shutil.rmtree(pkg)
    shutil.copytree(REPO + '/python/src/alayalite', pkg, ignore=shutil.ignore_patterns('__pycache__', '*.so'))
    r = sh(['g++', '-shared', '-o', pkg + '/_alayalitepy.so'] + [o for o, _ in rs] + ['-lrocksdb', '-laio', '-luring'] + LIBS)
    if r.returncode != 0:
        return None, 'link extension\n' + r.stdout[-6000:]
    r = sh(['gcc', '-shared', '-fPIC', '-O2', '-w', '-o', d + '/killer.so', VERIF + '/lib/killer.c', '-ldl'])
    if r.returncode != 0:
        return None, 'killer\n' + r.stdout[-2000:]
    return d, None


def merge(prop, evs):
    out = None
    for ev in evs:
        if out is None:
            out = ev
            continue
        c, d = out['coverage'], ev['coverage']
        for k in ('evaluations', 'distinct_nontrivial', 'states', 'transitions', 'traces_validated_against_impl', 'executions', 'pruned', 'unconfirmed'):
            if k in c or k in d:
                c[k] = c.get(k, 0) + d.get(k, 0)
        c['exhaustive'] = c.get('exhaustive', True) and d.get('exhaustive', True)
        c['scenarios'] = c.get('scenarios', []) + d.get('scenarios', [])
        c['samples'] = (c.get('samples', []) + d.get('samples', []))[:24]
        if d.get('rule') and d['rule'] not in c.get('rule', ''):
            c['rule'] = c.get('rule', '') + ' | ' + d['rule']
        out['violations'] += ev['violations']
        out['wall_s'] += ev['wall_s']
        out['assumptions'] = list(dict.fromkeys(out['assumptions'] + ev['assumptions']))
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    thorough = '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in args
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    os.makedirs(VERIF + '/out', exist_ok=True)
    t0 = time.time()
    srcs = sorted(glob.glob(f'{VERIF}/checks/{prop}*.cpp')) + sorted(glob.glob(f'{VERIF}/checks/{prop}*.py'))
    cpu = set(re.findall(r'\w+', next((l for l in open('/proc/cpuinfo') if l.startswith('flags')), '')))
    for s in list(srcs):  # harnesses for instruction sets this processor lacks
        need = re.search(r'// mc-cpu: (.*)', open(s).read(2000))
        if need and not set(need.group(1).split()) <= cpu:
            print('skipped (processor)', s)
            srcs.remove(s)
    if not srcs:
        print('no harness for', prop)
        return 3
    exes = []
    ext = None
    if any(s.endswith('.py') for s in srcs):
        ext, err = build_ext()
        if ext is None:
            print('BUILD FAILED', err)
            return 3
    with cf.ThreadPoolExecutor(4) as ex:
        futs = [(s, ex.submit(build, s) if s.endswith('.cpp') else None) for s in srcs]
        for s, f in futs:
            if f is None:
                exes.append([os.environ.get('VP_PY', '/opt/vp/venv/bin/python'), s])
                continue
            exe, err = f.result()
            if exe is None:
                print('BUILD FAILED', err)
                return 3
            exes.append([exe])
    print(f'built {prop} in {time.time() - t0:.1f}s', flush=True)
    if '--build-only' in args:
        return 0
    env = dict(os.environ, VERIF_DIR=VERIF, VERIF_TIER='thorough' if thorough else 'quick', VP_REPO=REPO, OMP_NUM_THREADS=os.environ.get('OMP_NUM_THREADS', '1'))
    if ext:
        env['VP_EXT'] = ext
        env['PYTHONPATH'] = ext + ':' + VERIF + '/lib'
        env['PYTHONDONTWRITEBYTECODE'] = '1'
    if '--replay' in args:
        rf = args[args.index('--replay') + 1]
        rc = 0
        for e in exes:
            r = subprocess.run(e + ['--replay', rf], env=env)
            if r.returncode == 1:
                rc = 1
        return rc
    evs, rc = [], 0
    evp = f'{VERIF}/evidence/{prop}.json'
    try:
        os.unlink(evp)
    except OSError:
        pass
    only = args[args.index('--bin') + 1] if '--bin' in args else None
    passthru = []
    if '--only' in args:
        passthru = ['--only', args[args.index('--only') + 1]]
    budget = 690.0 if thorough else 480.0
    t1 = time.time()
    for i, e in enumerate(exes):
        if only and only not in e[-1]:
            continue
        if 'MC_DEADLINE' in os.environ:
            env['MC_DEADLINE'] = os.environ['MC_DEADLINE']
        else:
            env['MC_DEADLINE'] = str(max(20.0, (budget - (time.time() - t1)) / (len(exes) - i)))
        r = subprocess.run(e + passthru, env=env)
        if os.path.exists(evp):
            evs.append(json.load(open(evp)))
            os.unlink(evp)
        if r.returncode != 0 and (rc == 0 or r.returncode == 1):
            rc = r.returncode
        if r.returncode == 1:
            break
    m = merge(prop, evs)
    if m:
        json.dump(m, open(evp, 'w'), indent=1)
    print(f'{prop}: exit {rc} total {time.time() - t0:.1f}s')
    return rc


sys.exit(main())
