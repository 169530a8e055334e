"""Stateless explorer for Python-level harnesses: every choice trail of a scenario is executed exactly once, spread over
worker processes; a worker that dies (crash of the native code) is a violation with the trail it was running."""
import hashlib, json, os, shutil, signal, sys, time, multiprocessing as mp
from multiprocessing.connection import wait

class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig, self.msg = sig, msg

class Prune(Exception):
    pass

class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.ndir = 0
    def reset(self, prefix):
        self.prefix, self.trail, self.notes = list(prefix), [], []
        self.steps = self.evals = 0
        self.nontriv = False
        self.states = set()

C = None

def choose(n, what=''):
    i = len(C.trail)
    v = C.prefix[i] if i < len(C.prefix) else 0
    assert 0 <= v < n, (what, v, n)
    C.trail.append((v, n))
    return v

def pick(seq, what=''):
    v = seq[choose(len(seq), what)]
    note(f'{what}: {v!r}'[:200])
    return v

def note(s):
    C.notes.append(str(s))

def fail(sig, msg):
    raise Violation(sig, msg)

def require(c, sig, msg=''):
    if not c:
        raise Violation(sig, msg() if callable(msg) else msg)

def assume(c):
    if not c:
        raise Prune()

def step(n=1):
    C.steps += n

def evaluated(n=1):
    C.evals += n

def state(x):
    C.states.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

def nontrivial():
    C.nontriv = True

def fresh_dir():
    C.ndir += 1
    d = f'{C.scratch}/d{C.ndir}'
    os.makedirs(d)
    return d

def _clean():
    for f in os.listdir(C.scratch):
        shutil.rmtree(os.path.join(C.scratch, f), ignore_errors=True)

def _run(fn, prefix):
    C.reset(prefix)
    out = None
    try:
        fn()
    except Prune:
        return ('prune',)
    except Violation as v:
        out = (v.sig, v.msg)
    except Exception as e:  # an exception the harness did not expect
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        here = [f for f in tb if '/checks/' in f.filename]
        out = ('unexpected-' + type(e).__name__, f'{e} (at {", ".join(f"{f.name}:{f.lineno}" for f in (here or tb)[-3:])})')
    finally:
        _clean()
    return ('ok' if out is None else 'fail', out)

def _worker(conn, fn, scratch):
    global C
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    C = Ctx(scratch)
    while True:
        try:
            m = conn.recv()
        except EOFError:
            os._exit(0)
        if m is None:
            os._exit(0)
        r = _run(fn, m)
        trail = [v for v, _ in C.trail]
        more = []
        for i in range(len(m), len(C.trail)):
            for v in range(1, C.trail[i][1]):
                more.append(trail[:i] + [v])
        conn.send((r, trail, more, C.steps, C.evals, C.nontriv, C.states, C.notes[-60:]))

class Explorer:
    def __init__(self, prop, level, rule, assumptions=()):
        self.prop, self.level, self.rule, self.assumptions = prop, level, rule, list(assumptions)
        self.sc = []
    def scenario(self, name, fn, thorough=False):
        self.sc.append((name, fn, thorough))
    def _known(self):
        s = set()
        try:
            for l in open(os.environ['VERIF_DIR'] + '/known-findings.txt'):
                k = f'property={self.prop} sig='
                if l.startswith(k):
                    s.add(l[len(k):].split()[0])
        except OSError:
            pass
        return s
    def main(self):
        global C
        av = sys.argv[1:]
        tier = os.environ.get('VERIF_TIER', 'quick')
        verif = os.environ['VERIF_DIR']
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        root = f'{base}/vppy.{os.getpid()}'
        os.makedirs(root)
        os.environ['ALAYALITE_ROCKSDB_DIR'] = root + '/rdb'
        os.chdir(root)
        try:
            if '--replay' in av:
                return self.replay(json.load(open(av[av.index('--replay') + 1])), root)
            return self.explore(av, tier, verif, root)
        finally:
            os.chdir('/')
            shutil.rmtree(root, ignore_errors=True)
    def replay(self, r, root):
        global C
        for name, fn, _ in self.sc:
            if name != r['scenario']:
                continue
            os.makedirs(root + '/r')
            C = Ctx(root + '/r')
            res = _run(fn, r['trail'])
            print('\n'.join(C.notes))
            print(res)
            if res[0] == 'fail':
                print(f'VIOLATION property={self.prop} replay={sys.argv[-1]}')
                return 1
            return 0
        return 0  # not this harness's scenario
    def explore(self, av, tier, verif, root):
        deadline = time.time() + float(os.environ.get('MC_DEADLINE', '480'))
        only = av[av.index('--only') + 1] if '--only' in av else None
        known = self._known()
        tot = dict(ex=0, steps=0, evals=0, nt=0, pruned=0)
        states, samples, scs, hits = set(), [], [], {}
        exhaustive, viol = True, None
        t0 = time.time()
        nw = int(os.environ.get('VP_JOBS', '8'))
        for name, fn, th in self.sc:
            if only and name != only or th and tier != 'thorough' and not only:
                continue
            ts, ex0, st0 = time.time(), tot['ex'], tot['steps']
            work, idle, busy = [[]], [], {}
            def spawn(i):
                a, b = mp.Pipe()
                d = f'{root}/{name}-w{i}-{time.time_ns()}'
                os.makedirs(d)
                p = mp.get_context('fork').Process(target=_worker, args=(b, fn, d), daemon=True)
                p.start()
                b.close()
                return (a, p, d)
            ws = [spawn(i) for i in range(nw)]
            idle = list(ws)
            while (work or busy) and not viol:
                if time.time() > deadline:
                    exhaustive = False
                    break
                while work and idle:
                    w = idle.pop()
                    t = work.pop()
                    w[0].send(t)
                    busy[w[0]] = (w, t, time.time())
                for c in wait(list(busy), timeout=1.0):
                    w, t, _ = busy.pop(c)
                    try:
                        r, trail, more, steps, evals, nt, st, notes = c.recv()
                    except (EOFError, OSError):
                        w[1].join()
                        viol = ('crash', f'the code under test ended the process (exit {w[1].exitcode})', t, [])
                        break
                    idle.append(w)
                    work += more
                    if r[0] == 'prune':
                        tot['pruned'] += 1
                        continue
                    tot['ex'] += 1
                    tot['steps'] += steps
                    tot['evals'] += max(1, evals)
                    tot['nt'] += bool(nt)
                    states |= st
                    if len(samples) < 12 and tot['ex'] % 37 == 1:
                        samples.append(f'{name} trail={trail}: ' + '; '.join(notes)[:300])
                    if r[0] == 'fail':
                        sig, msg = r[1]
                        if sig in known:
                            hits.setdefault(sig, [0, msg])[0] += 1
                        else:
                            viol = (sig, msg, trail, notes)
                            break
                now = time.time()
                for c, (w, t, b) in list(busy.items()):
                    if now - b > 120 and not viol:
                        viol = ('hang', 'no answer within 120 s', t, [])
            for a, p, d in ws:
                p.kill()
                p.join()
                a.close()
                shutil.rmtree(d, ignore_errors=True)
            scs.append({'scenario': name, 'executions': tot['ex'] - ex0, 'transitions': tot['steps'] - st0, 'wall_s': round(time.time() - ts, 1)})
            print(f'scenario {name:<40} executions={tot["ex"] - ex0} transitions={tot["steps"] - st0} {time.time() - ts:.1f}s', flush=True)
            if viol:
                break
        for s, (n, m) in hits.items():
            print(f'KNOWN-FINDING: property={self.prop} {s} ({n} executions): {m}')
        rc = 0
        if viol:
            rp = f'{verif}/out/replay-{self.prop}-{name}.json'
            os.makedirs(verif + '/out', exist_ok=True)
            json.dump({'scenario': name, 'trail': viol[2], 'sig': viol[0], 'message': viol[1], 'notes': viol[3]}, open(rp, 'w'), indent=1)
            print(f'\nviolation: scenario={name} sig={viol[0]}\n  {viol[1]}\n  trace: ' + '\n         '.join(viol[3][-40:]))
            print(f'VIOLATION property={self.prop} replay={rp}', flush=True)
            rc = 1
        ev = {'property': self.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': self.level,
              'coverage': {'evaluations': tot['evals'], 'distinct_nontrivial': tot['nt'], 'rule': self.rule, 'states': len(states),
                           'transitions': tot['steps'], 'traces_validated_against_impl': tot['ex'], 'executions': tot['ex'],
                           'pruned': tot['pruned'], 'exhaustive': exhaustive and not viol, 'scenarios': scs, 'samples': samples or ['(none)']},
              'violations': int(bool(viol)), 'assumptions': self.assumptions, 'wall_s': round(time.time() - t0, 2)}
        os.makedirs(verif + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{verif}/evidence/{self.prop}.json', 'w'), indent=1)
        return rc
