"""P18: what a collection acknowledged survives. Each operation sequence runs in a process of its own that is killed right
before (or half way through the write of) each single file-system change its main thread makes; two further processes then
open the client directory again and compare ids, documents, metadata and vectors with what was acknowledged, use the
collection, and open it once more."""
import ctypes, os, pickle, select, shutil, sys, time
if 'killer.so' not in os.environ.get('LD_PRELOAD', ''):
    os.environ['LD_PRELOAD'] = os.environ['VP_EXT'] + '/killer.so'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import logging
logging.disable(logging.CRITICAL)
import numpy as np
from pymc import *
import pymc
import alayalite
from alayalite import Client

KILLER = ctypes.CDLL(os.environ['VP_EXT'] + '/killer.so')
VECS = [(0, 0, 0, 1), (3, 0, 0, 1), (0, 7, 0, 2), (1, 1, 9, 4), (12, 5, 0, 3), (2, 2, 2, 8)]

def rec(i, v):
    return (i, f'doc {i} {v}', np.array(VECS[v], dtype=np.float32), {'v': v, 's': f'{i}{v}', 'f': v / 2})

def in_child(fn, *a, limit=60):
    """runs fn(report, ...) in a process of its own; returns (exit status, reports)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        st = 99
        try:
            fn(lambda x: os.write(w, pickle.dumps(x) + b'--END--'), *a)
            st = 0
        except Violation as v:
            os.write(w, pickle.dumps(('violation', v.sig, v.msg)) + b'--END--')
            st = 3
        except BaseException as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            os.write(w, pickle.dumps(('raised', f'{type(e).__name__}: {e} ({tb[-1].name}:{tb[-1].lineno})')) + b'--END--')
            st = 4
        finally:
            os._exit(st)
    os.close(w)
    buf, end = b'', time.time() + limit
    while True:
        if not select.select([r], [], [], max(0, end - time.time()))[0]:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            fail('hang', f'no end within {limit} s')
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return (os.waitstatus_to_exitcode(st), [pickle.loads(x) for x in buf.split(b'--END--') if x])

METRIC = None
def contents(c):
    """everything a collection holds: id -> (document, metadata, vector index)"""
    if c is None or c.get_index() is None:
        return None
    r = c.filter_query({}, limit=1000)
    out = {}
    for i, d, m in zip(r['id'], r['document'], r['metadata']):
        require(i not in out, 'twice', lambda: f'{i} is in the collection twice')
        g = c.get_by_id([i])
        require(g['id'] == [i] and g['document'] == [d] and g['metadata'] == [m], 'get-differs', lambda: f'{i}: get {g}, filter {d!r} {m}')
        out[i] = (d, m)
    for i, (d, m) in out.items():
        # the stored vector: a query with it finds the record at distance 0
        if METRIC == 'cosine':
            continue
        q = c.batch_query([list(map(float, VECS[m['v']]))], max(1, len(out)), ef_search=50)
        row = dict(zip(q['id'][0], q['distance'][0]))
        require(i in row and abs(row[i]) < 1e-4, 'vector', lambda: f'{i} with metadata {m}: query with its vector gives {row}')
        require(set(k for k in row if k) == set(out), 'query-set', lambda: f'query returns {sorted(row)}, the collection holds {sorted(out)}')
    return out

def model_of(m):
    return {i: (f'doc {i} {v}', {'v': v, 's': f'{i}{v}', 'f': v / 2}) for i, v in m.items()}

# op: name, function on the collection/client, function on the model giving the states it may pass through
def ins(*p):
    def mod(m):
        st = [dict(m)]
        for i, v in p:
            st.append({**st[-1], i: v})
        return st
    return (f'insert {p}', lambda cl, c: c.insert([rec(i, v) for i, v in p]), mod)
def ups(*p):
    o = ins(*p)
    return (f'upsert {p}', lambda cl, c: c.upsert([rec(i, v) for i, v in p]), o[2])
def dele(*ids):
    def mod(m):
        st = [dict(m)]
        for i in ids:
            st.append({k: v for k, v in st[-1].items() if k != i})
        return st
    return (f'delete {ids}', lambda cl, c: c.delete_by_id(list(ids)), mod)
SAVE = ('save', lambda cl, c: cl.save_collection('c'), lambda m: [dict(m)])
REINDEX = ('reindex', lambda cl, c: c.reindex(ef_construction=20), lambda m: [dict(m)])
FIRST = (('a', 0), ('b', 1))

def creation(**kw):
    return ('create', lambda cl, c: cl.create_collection('c', **kw).insert([rec(i, v) for i, v in FIRST]), lambda m: [dict(m), dict(FIRST)])
CREATE = creation()
KINDS = [creation(quantization_type='sq8', indexed_fields=['s', 'v']), creation(metric='cosine', quantization_type='sq8'), creation(indexed_fields=['f'], max_nbrs=8)]
def refuse(name, fn):
    def attempt(cl, c):
        try:
            fn(c)
        except Exception:
            return
        raise AssertionError(f'{name} was accepted')
    return (name, attempt, lambda m: [dict(m)])
# refused operations leave nothing behind, neither at once nor in what a later process recovers
REFUSED = [
    refuse('insert of the wrong dimension', lambda c: c.insert([('x', 'd', np.zeros(3, dtype=np.float32), {})])),
    refuse('upsert of the wrong dimension', lambda c: c.upsert([('b', 'd', np.zeros(3, dtype=np.float32), {})])),
    refuse('insert of a live id', lambda c: c.insert([('b', 'other', np.array(VECS[5], dtype=np.float32), {'v': 5})])),
]
REOPEN = ('reopen', None, lambda m: [dict(m)])
OPS = [ins(('c', 2)), ins(('c', 2), ('d', 3)), ups(('a', 4)), ups(('d', 3)), dele('a'), dele('a', 'b'), SAVE, REINDEX, REOPEN]

def play(report, url, ops, at, mode, kill_in):
    cl = Client(url)
    for k, o in enumerate(ops):
        if k == kill_in:
            KILLER.killer_arm((url + '/').encode(), ctypes.c_long(at), ctypes.c_long(mode))
        if o is REOPEN:
            cl.reset()
            cl = Client(url)
        else:
            o[1](cl, cl.get_collection('c'))
        report(('ack', k))
    report(('count', KILLER.killer_count()))
    KILLER.killer_arm(b'', ctypes.c_long(-1), ctypes.c_long(0))
    os._exit(0)  # without closing anything: the process simply ends

def look(report, url):
    cl = Client(url)
    names = cl.list_collections()
    report(('names', names))
    report(('contents', contents(cl.get_collection('c'))))
    cl.reset()

def use(report, url, first):
    """the collection (or the name, where it does not exist) can still be used"""
    cl = Client(url)
    c = cl.get_or_create_collection('c')
    if first:
        c.insert([rec('a', 0), rec('b', 1)])
    c.insert([rec('new', 5)])
    c.upsert([rec('new', 2)])
    report(('contents', contents(c)))
    cl.reset()

def ask(what, fn, *a):
    st, out = in_child(fn, *a)
    for o in out:
        if o[0] == 'violation':
            fail(o[1], f'{what}: {o[2]}')
        if o[0] == 'raised':
            fail(what + '-raised', f'{what} raised {o[1]}')
    require(st == 0, what + '-died', lambda: f'{what} ended with status {st}')
    return dict(o for o in out)

def verify(url, may):
    evaluated()
    d = ask('reopen', look, url)
    got = d['contents']
    require(got in may or (got is None and {} in may), 'contents', lambda: f'after reopening the collection holds {got}, allowed: {may}')
    d2 = ask('second-reopen', look, url)
    require(d2['contents'] == got, 'reopen-differs', lambda: f'first {got}, then {d2["contents"]}')
    u = ask('use', use, url, got is None)
    want = {**(model_of(dict(FIRST)) if got is None else got), 'new': ('doc new 2', {'v': 2, 's': 'new2', 'f': 1.0})}
    require(u['contents'] == want, 'use-contents', lambda: f'after further use {u["contents"]}, expected {want}')
    d3 = ask('third-reopen', look, url)
    require(d3['contents'] == want, 'use-lost', lambda: f'after further use and reopening {d3["contents"]}, expected {want}')
    state(sorted(got.items()) if got else None)
    if got:
        nontrivial()

def run(ops, kill_in, modes):
    note(' / '.join(o[0] for o in ops))
    m, st = {}, [{}]
    for k, o in enumerate(ops):
        st = o[2](m)
        m = st[-1]
    # one undisturbed run tells how many changes the last operation makes
    url = fresh_dir() + '/cl'
    code, out = in_child(play, url, ops, -1, 0, kill_in)
    raised = [o for o in out if o[0] == 'raised']
    require(not raised and code == 0, 'operation-raised', lambda: f'{raised} status {code}')
    n = dict(out)['count']
    note(f'changes of the last operation: {n}')
    k = choose(2 + n // BLOCK, 'part')  # part 0: no kill; else BLOCK consecutive kill points
    step()
    if k == 0:
        verify(url, [model_of(m)])
        return
    for at in range((k - 1) * BLOCK, min(k * BLOCK, n)):
        for mode in modes:
            url = fresh_dir() + '/cl'
            code, out = in_child(play, url, ops, at, mode, kill_in)
            step()
            acks = [o[1] for o in out if o[0] == 'ack']
            require(code in (0, 77), 'operation-died', lambda: f'killed run ended with {code} {out}')
            note(f'killed before change {at} mode {mode}: exit {code} acks {acks}')
            done = len(ops) - 1 in acks
            pymc.C.notes = pymc.C.notes[:2] + pymc.C.notes[-1:]
            verify(url, [model_of(m)] if done else [model_of(x) for x in st])
            pymc._clean()
BLOCK = 6

def crash(depth, modes=(0,), ops=OPS, first=True, kinds=(CREATE,)):
    def f():
        global METRIC
        kind = choose(len(kinds), 'kind')
        METRIC = 'cosine' if len(kinds) > 1 and kind == 1 else None
        seq = [kinds[kind]] if depth or first else []
        for d in range(depth):
            seq.append(ops[choose(len(ops), 'op')])
        run(seq, len(seq) - 1, modes)
    return f

def full(depth):
    """a collection of four slots: what does not fit is refused and leaves nothing behind; no crash but the end of the process"""
    def f():
        m, used, seq = {}, 0, [creation(capacity=4)]
        m, used = dict(FIRST), 2
        for d in range(depth):
            op = choose(7, 'op')
            if op in (5, 6):
                seq.append((SAVE, REOPEN)[op - 5])
                continue
            i, v = [('c', 2), ('d', 3), ('a', 4), ('a', None), (None, None)][op]
            if i is None:
                seq.append(REINDEX)
                used = len(m) or used  # an empty collection is left as it is
            elif v is None:
                seq.append(dele(i))
                m.pop(i, None)
            else:
                assume(op == 2 or i not in m)
                o = (ups if op == 2 else ins)((i, v))
                if used < 4:
                    used, m[i] = used + 1, v
                else:
                    o = refuse('over capacity: ' + o[0], lambda c, o=o: o[1](None, c))
                seq.append(o)
        note(' / '.join(o[0] for o in seq))
        url = fresh_dir() + '/cl'
        code, out = in_child(play, url, seq, -1, 0, -1)
        step(len(seq))
        evaluated()
        raised = [o for o in out if o[0] == 'raised']
        require(not raised and code == 0, 'operation-raised', lambda: f'{raised} status {code}')
        for what in ('reopen', 'second-reopen'):
            got = ask(what, look, url)['contents']
            require(got == model_of(m), 'contents', lambda: f'after {what} the collection holds {got}, expected {model_of(m)}')
        state((sorted(m), used))
        nontrivial()
    return f

def clean(depth, ops=OPS, kinds=(CREATE,)):
    """no crash: the process just ends after the sequence"""
    def f():
        kind = choose(len(kinds), 'kind')
        global METRIC
        METRIC = 'cosine' if len(kinds) > 1 and kind == 1 else None
        seq = [kinds[kind]] + [ops[choose(len(ops), 'op')] for d in range(depth)]
        note(' / '.join(o[0] for o in seq))
        m = {}
        for o in seq:
            m = o[2](m)[-1]
        url = fresh_dir() + '/cl'
        code, out = in_child(play, url, seq, -1, 0, -1)
        raised = [o for o in out if o[0] == 'raised']
        dup = any('Duplicate' in str(r) for r in raised)
        assume(not dup)
        step(len(seq))
        require(not raised and code == 0, 'operation-raised', lambda: f'{raised} status {code}')
        verify(url, [model_of(m)])
    return f

ex = Explorer('P18', 'fault_enumeration', 'kill points x operation sequences over the real Client', [])
ex.scenario('clean-2', clean(2))
ex.scenario('clean-2-kinds', clean(2, kinds=KINDS))
ex.scenario('clean-3-refused', clean(3, [ins(('c', 2)), SAVE, REOPEN] + REFUSED))
ex.scenario('full-3', full(3))
ex.scenario('full-4', full(4), thorough=True)
ex.scenario('kill-create', crash(0, (0, 1)))
ex.scenario('kill-one', crash(1, (0, 1)))
ex.scenario('kill-one-kinds', crash(1, (0,), OPS[:1] + OPS[2:3] + OPS[4:5] + OPS[6:], kinds=KINDS), thorough=True)
ex.scenario('kill-two', crash(2, (0,), OPS[:1] + OPS[2:3] + OPS[4:5] + OPS[6:]), thorough=True)
ex.scenario('clean-3', clean(3), thorough=True)
if __name__ == '__main__':
    sys.exit(ex.main())
