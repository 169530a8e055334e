"""P34: building a LASER index again in the same directory. Every sequence of fits that differ in seed, degree, projected
dimension, number of rows, entry points or reuse, and every point at which one of them is killed, followed by a fit that
completes: the index it hands back, and the one a later process loads, answer as the index built in an empty directory does."""
import ctypes, inspect, os, pickle, select, sys, time, types
if 'killer.so' not in os.environ.get('LD_PRELOAD', ''):
    os.environ['LD_PRELOAD'] = os.environ['VP_EXT'] + '/killer.so'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import numpy as np
from pymc import *

KILLER = ctypes.CDLL(os.environ['VP_EXT'] + '/killer.so')

# stand-ins for the optional packages the build steps use; what matters here is that they are deterministic
class IncrementalPCA:
    def __init__(self, n_components, batch_size):
        self.n_components_ = n_components
        self.rows = []
    def partial_fit(self, x):
        self.rows.append(np.array(x, dtype=np.float64))
        a = np.concatenate(self.rows)
        self.mean_ = a.mean(axis=0)
        self.components_ = np.linalg.svd(a - self.mean_, full_matrices=True)[2][:self.n_components_]
    def transform(self, x):
        return (np.asarray(x, dtype=np.float64) - self.mean_) @ self.components_.T

class Ivf:
    """picks evenly spaced rows as centroids"""
    def __init__(self, n):
        self.nlist, self.nprobe, self.verbose = n, 1, False
        self.cp = types.SimpleNamespace(seed=0)
        self.quantizer = types.SimpleNamespace(reconstruct_n=lambda a, n: self.c)
    def train(self, x):
        self.c = np.asarray(x[np.linspace((self.cp.seed * 7) % 3, len(x) - 1, self.nlist).astype(int)])
    def add(self, x):
        self.x = np.asarray(x)
    def search(self, q, k):
        d = ((q[:, None, :] - self.x[None]) ** 2).sum(-1)
        return None, np.argsort(d, axis=1, kind='stable')[:, :k]

def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m
dec = module('sklearn.decomposition', IncrementalPCA=IncrementalPCA)
module('sklearn', decomposition=dec)
module('tqdm', tqdm=lambda it, **kw: it)
module('faiss', index_factory=lambda d, s: Ivf(int(s.split(',')[0][3:])), omp_set_num_threads=lambda n: None)

from alayalite import laser
from alayalite.laser import _pca
_whole = getattr(_pca, 'pca_transform_and_save', None)
if _whole is not None and _whole.__defaults__:  # several chunks already at this size
    _opt = [p.name for p in inspect.signature(_whole).parameters.values() if p.default is not p.empty]
    _whole.__defaults__ = tuple(40 if k == 'chunk_size' else v for k, v in zip(_opt, _whole.__defaults__))

DIM = 128
ROWS = (np.random.default_rng(5).integers(-1000, 1000, (200, DIM)) / 100).astype(np.float32)
ROWS *= (1 + np.arange(DIM) % 7).astype(np.float32)
BASE = dict(seed=1, R=32, main=128, n=150, medoid=True, skip=True)
def cfg(**kw):
    return {**BASE, **kw}
CFGS = [cfg(), cfg(seed=2), cfg(R=64), cfg(main=64), cfg(n=140), cfg(n=160), cfg(medoid=False), cfg(skip=False), cfg(main=64, seed=2), cfg(R=64, seed=2)]

def name(c):
    return ' '.join(f'{k}={v}' for k, v in c.items() if v != BASE[k]) or 'base'

def in_child(fn, *a, limit=90):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        n = os.open('/dev/null', os.O_WRONLY)
        os.dup2(n, 1), os.dup2(n, 2)
        st = 99
        try:
            out, st = ('value', fn(*a)), 0
        except BaseException as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            out, st = ('raised', f'{type(e).__name__}: {e} ({tb[-1].name}:{tb[-1].lineno})'), 4
        try:
            d = pickle.dumps(out)
            while d:
                d = d[os.write(w, d):]
        finally:
            os._exit(st)
    os.close(w)
    buf, end = b'', time.time() + limit
    while True:
        if not select.select([r], [], [], max(0, end - time.time()))[0]:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            fail('hang', f'no end within {limit} s')
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), pickle.loads(buf) if buf else None

def answers(ix, n):
    """thorough searches, then ones so narrow that their answers depend on the graph"""
    q, out = np.stack([*ROWS[:n:9], ROWS[3] + 5, ROWS[7] * 0.5]), []
    for ef, beam in ((120, 4), (6, 1)):
        ix.set_params(ef_search=ef, num_threads=1, beam_width=beam)
        out += np.asarray(ix.batch_search(q, 5)).astype(np.int64).tolist()
    return out

def build(d, c, load=True):
    return laser.Index.fit(np.ascontiguousarray(ROWS[:c['n']]), d, seed=c['seed'], num_threads=1, skip_existing=c['skip'], auto_load=load,
                           build_params=laser.BuildParams(main_dim=c['main'], R=c['R'], L=70, ef_indexing=80, ep_num=4, disable_medoid=not c['medoid']))

def fit(d, c):
    return answers(build(d, c), c['n'])

def loaded(d, c):
    return answers(laser.Index.from_prefix(d + '/laser'), c['n'])

def dying(d, c, at, mode):
    KILLER.killer_arm(d.encode(), ctypes.c_long(at), ctypes.c_long(mode))
    build(d, c, False)
    n = KILLER.killer_count()
    KILLER.killer_arm(b'', ctypes.c_long(-1), ctypes.c_long(0))
    return n

def ask(what, fn, *a):
    st, out = in_child(fn, *a)
    require(st >= 0 and out is not None, 'died', lambda: f'{what} ended with status {st}')
    require(out[0] == 'value', 'raised', lambda: f'{what} raised {out[1]}')
    return out[1]

FRESH = {}
def fresh(c):
    k = name({**c, 'skip': True})
    if k not in FRESH:
        d = fresh_dir()
        FRESH[k] = ask('the first fit', fit, d, c)
        n = c['n']
        for q, r in zip(range(0, n, 9), FRESH[k]):
            require(len(set(r)) == len(r) and all(0 <= i < n for i in r), 'bogus', lambda: f'{name(c)}: row {q} finds {r}')
            require(r[0] == q, 'self', lambda: f'{name(c)}: row {q} finds {r}')
        again = ask('loading', loaded, d, c)
        require(again == FRESH[k], 'load-differs', lambda: f'{name(c)}: loading gives other answers than the fit')
    return FRESH[k]

def judge(d, c, prev):
    evaluated()
    want = fresh(c)
    got = ask('fit', fit, d, c)
    bad = [(i, g, w) for i, (g, w) in enumerate(zip(got, want)) if g != w]
    require(not bad, 'other-index', lambda: f'fit with {name(c)} after {prev}: query {bad[0][0]} finds {bad[0][1]}, an index built in an empty directory {bad[0][2]} ({len(bad)} differ)')
    if len([f for f in os.listdir(d) if f.startswith('laser_R') and f.endswith('.index')]) == 1:
        again = ask('loading', loaded, d, c)
        require(again == want, 'load-differs', lambda: f'loading after {prev}, then {name(c)}, gives other answers than the fit')
    nontrivial()

def clean(depth, cfgs=CFGS):
    def go():
        d = fresh_dir()
        prev = []
        for i in range(depth):
            c = cfgs[choose(len(cfgs), 'fit')]
            note(f'fit {name(c)}')
            step()
            if i + 1 < depth:
                ask('fit', fit, d, c)
            else:
                judge(d, c, prev)
            prev.append(name(c))
    return go

BLOCK = 12
def crash(before, cfgs, modes, after):
    def go():
        c = cfgs[choose(len(cfgs), 'killed fit')]
        z = after(c)[choose(len(after(c)), 'next fit')]
        note(f'{[name(b) for b in before]}, then {name(c)} is killed, then {name(z)}')
        def prepared():
            d = fresh_dir()
            for b in before:
                ask('fit', fit, d, b)
            return d
        n = ask('fit', dying, prepared(), c, -1, 0)
        note(f'{n} file-system changes')
        part = choose(1 + (n - 1) // BLOCK if n else 1, 'part')
        base = prepared()
        import shutil
        for at in range(part * BLOCK, min(n, (part + 1) * BLOCK)):
            for mode in modes:
                d = fresh_dir()
                shutil.rmtree(d)
                shutil.copytree(base, d)
                st, _ = in_child(dying, d, c, at, mode)
                note(f'killed at {at} mode {mode}: {st}')
                step()
                judge(d, z, f'{[name(b) for b in before]} and {name(c)} killed at change {at} of {n}{" half way" if mode else ""}')
                shutil.rmtree(d)
    return go

ex = Explorer('P34', 'fault_enumeration', 'every sequence of fits and every kill point inside one; a check compares the completed index with one built in an empty directory',
              ['stand-ins for scikit-learn and faiss that are deterministic', 'one build thread', 'process death, not power loss', 'the same rows whenever the number of rows is the same, as reuse is documented to go by size and seed'])
same = lambda c: [c]
both = lambda c: [c] + ([BASE] if c != BASE else [])
ex.scenario('clean-1', clean(1))
ex.scenario('clean-2', clean(2))
ex.scenario('clean-3', clean(3, [CFGS[0], CFGS[3], CFGS[4], CFGS[1], CFGS[9]]))
ex.scenario('clean-3-all', clean(3), thorough=True)
ex.scenario('kill-first', crash([], [CFGS[0], CFGS[3]], (0, 1), same))
ex.scenario('kill-second', crash([BASE], [CFGS[7], CFGS[2], CFGS[3], CFGS[4]], (0,), same))
ex.scenario('kill-second-all', crash([BASE], CFGS[1:], (0, 1), both), thorough=True)
sys.exit(ex.main())
