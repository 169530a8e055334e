"""P35: the standalone service. Every sequence of requests up to a depth, with restarts, over the real request handlers,
client, collections and native index: status codes, bodies and query answers against a dictionary of collections; a refused
request changes nothing and no request ends in an unhandled error. fastapi and pydantic are not installed here; stand-ins
route the requests, check the bodies against the declared types and turn the answers into JSON as they do."""
import asyncio, json, logging, math, os, sys, types, typing
from pymc import *
logging.disable(logging.CRITICAL)

def module(name, **kw):
    m = types.ModuleType(name); m.__dict__.update(kw); sys.modules[name] = m
    return m
class ValidationError(Exception): pass
def coerce(t, v):
    o, a = typing.get_origin(t), typing.get_args(t)
    if t is typing.Any or t is object: return v
    if o in (list,):
        if not isinstance(v, list): raise ValidationError
        return [coerce(a[0], x) for x in v]
    if o in (tuple,):
        if not isinstance(v, list) or len(v) != len(a): raise ValidationError
        return tuple(coerce(x, y) for x, y in zip(a, v))
    if o in (dict,):
        if not isinstance(v, dict): raise ValidationError
        return {coerce(a[0], x): coerce(a[1], y) for x, y in v.items()}
    if o is typing.Union:
        for x in a:
            try: return coerce(x, v)
            except ValidationError: pass
        raise ValidationError
    if t is type(None):
        if v is not None: raise ValidationError
        return None
    if t is bool and isinstance(v, bool): return v
    if t is int and isinstance(v, int) and not isinstance(v, bool): return v
    if t is float and isinstance(v, (int, float)) and not isinstance(v, bool): return float(v)
    if t is str and isinstance(v, str): return v
    raise ValidationError
class BaseModel:
    def __init__(self, **kw):
        for n, t in typing.get_type_hints(type(self)).items():
            if n in kw: setattr(self, n, coerce(t, kw[n]))
            elif not hasattr(type(self), n): raise ValidationError
class JSONResponse:
    def __init__(self, content=None, status_code=200, **k):
        self.status_code, self.content = status_code, content
class APIRouter:
    def __init__(self, *a, **k): self.routes = {}
    def post(self, path, **k):
        def deco(f): self.routes[path] = f; return f
        return deco
class HTTPException(Exception):
    def __init__(self, status_code, detail=None, **k): self.status_code, self.detail = status_code, detail
class FastAPI:
    def __init__(self, **k): self.routes = {}
    def include_router(self, r, prefix=''): self.routes.update({prefix + p: f for p, f in r.routes.items()})
    def get(self, path, **k): return lambda f: f
class _Status:
    def __getattr__(self, n):
        return int(n.split('_')[1])
fa = module('fastapi', APIRouter=APIRouter, FastAPI=FastAPI, HTTPException=HTTPException, status=_Status())
fa.responses = module('fastapi.responses', JSONResponse=JSONResponse)
module('pydantic', BaseModel=BaseModel)
    
def post(app, path, body):
    f = app.routes['/api/v1/collection/' + path]
    hints = [t for n, t in typing.get_type_hints(f).items() if n != 'return' and isinstance(t, type) and issubclass(t, BaseModel)]
    try:
        args = [t(**json.loads(json.dumps(body))) for t in hints]
    except ValidationError:
        return 422, None
    try:
        r = f(*args)
        if asyncio.iscoroutine(r):
            r = asyncio.run(r)
        st, c = (r.status_code, r.content) if isinstance(r, JSONResponse) else (200, r)
        return st, json.loads(json.dumps(c, allow_nan=False))
    except HTTPException as e:
        return e.status_code, e.detail
    except Exception as e:
        fail('unhandled', f'{path} {body} ended in {type(e).__name__}: {e}')

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True

VECS = {1: [1.0, 0.0, 0.5], 2: [0.0, 2.0, 1.0], 3: [3.0, 3.0, 0.0], 4: [-1.0, 0.25, 4.0]}
META = [{'category': 'A', 'n': 1}, {'category': 'B'}, {'category': 'A', 'f': 0.5, 'b': True}, {}]

def rec(i, v):
    return (i, f'document {i} version {v}', VECS[1 + (i + v) % 4], META[(i + v) % 4])

class World:
    def __init__(self):
        self.base = fresh_dir()
        os.environ['ALAYALITE_DATA_DIR'] = self.base + '/data'
        os.environ['ALAYALITE_ROCKSDB_DIR'] = self.base + '/rocksdb'
        self.m = {}  # name -> [metric, {id: (doc, vec, meta)}, in use]
        self.start()

    def start(self):
        for k in [k for k in sys.modules if k == 'app' or k.startswith('app.')]:
            del sys.modules[k]
        from app.main import app
        for k, mod in sys.modules.items():
            if k.startswith('app.'):
                mod.print = lambda *a, **k: None
        self.app = app

    def ask(self, path, **body):
        step()
        note(f'{path} {json.dumps(body)}')
        r = post(self.app, path, body)
        note(f'   {str(r)[:160]}')
        return r

    def want(self, code, path, **body):
        st, c = self.ask(path, **body)
        ok = st == code if code != 400 else 400 <= st < 500
        require(ok, 'status', lambda: f'{path} {body} answered {st} {c}, expected {code}')
        return c

    def dist(self, metric, q, v):
        if metric == 'cosine':
            a, b = math.sqrt(sum(x * x for x in q)), math.sqrt(sum(x * x for x in v))
            return -sum(x * y for x, y in zip(q, v)) / (a * b)
        if metric == 'ip':
            return -sum(x * y for x, y in zip(q, v))
        return sum((x - y) ** 2 for x, y in zip(q, v))

    def check(self):
        evaluated()
        state(sorted((n, c[0], c[2], sorted((i, r[0]) for i, r in c[1].items())) for n, c in self.m.items()))
        st, names = post(self.app, 'list', {})
        require(st == 200 and sorted(names) == sorted(self.m), 'listing', lambda: f'lists {names}, expected {sorted(self.m)}')
        qs = [[1.0, 0.25, 0.5], [-2.0, 1.0, 3.0]]
        for n in 'ab':
            for limit in (1, 3):
                st, r = post(self.app, 'query', dict(collection_name=n, query_vector=qs, limit=limit))
                if n not in self.m:
                    require(st == 404, 'status', lambda: f'query of {n}, which does not exist, answered {st} {r}')
                    continue
                metric, items, used = self.m[n]
                if not used:
                    require(400 <= st < 500, 'status', lambda: f'query of {n}, which is empty, answered {st} {r}')
                    continue
                require(st == 200, 'status', lambda: f'query of {n} answered {st} {r}')
                for k, q in enumerate(qs):
                    ids = [int(x) for x in r['id'][k] if str(x) != '']
                    order = sorted(items, key=lambda i: self.dist(metric, q, items[i][1]))[:limit]
                    require(len(set(ids)) == len(ids) and len(ids) == len(order) and set(ids) <= set(items), 'found', lambda: f'{n} {q} limit {limit}: {r["id"][k]}, expected {order}')
                    for j, (i, w) in enumerate(zip(ids, order)):
                        d = self.dist(metric, q, items[i][1])
                        require(abs(d - self.dist(metric, q, items[w][1])) < 1e-4, 'order', lambda: f'{n} {q} limit {limit}: {ids}, expected {order}')
                        require(abs(d - r['distance'][k][j]) < 1e-4, 'distance', lambda: f'{n} {q}: distance of {i} given as {r["distance"][k][j]}, is {d}')
                        require(r['document'][k][j] == items[i][0] and r['metadata'][k][j] == items[i][2], 'value', lambda: f'{n}: {i} came with {r["document"][k][j]!r} {r["metadata"][k][j]}, expected {items[i]}')
                    if ids:
                        nontrivial()

    # ---- requests
    def create(self, n):
        self.want(409 if n in self.m else 200, 'create', collection_name=n)
        self.m.setdefault(n, ['l2', {}, False])

    def insert(self, n, rows):
        c = self.m.get(n)
        dup = c is not None and any(r[0] in c[1] for r in rows)
        self.want(404 if c is None else 400 if dup else 200, 'insert', collection_name=n, items=rows)
        for r in rows if c is not None else []:  # record by record, up to the refused one
            if r[0] in c[1]:
                break
            c[1][r[0]] = r[1:]
            c[2] = True

    def upsert(self, n, rows):
        c = self.m.get(n)
        self.want(404 if c is None else 200, 'upsert', collection_name=n, items=rows)
        if c is not None:
            c[1].update({r[0]: r[1:] for r in rows})
            c[2] = True

    def wrong(self, n, what):
        """requests that must be refused whatever the state; those about a missing collection are 404"""
        bad = lambda code: 404 if n not in self.m else code
        if what == 'malformed':
            self.want(422, 'insert', collection_name=n, items=[[1, 'x', [1.0, 2.0, 3.0]]])
            self.want(422, 'query', collection_name=n, query_vector=[1.0, 2.0, 3.0])
            self.want(422, 'upsert', items=[])
        elif what == 'ragged':
            self.want(bad(400), 'insert', collection_name=n, items=[[7, 'x', [1.0, 2.0, 3.0], {}], [8, 'x', [1.0, 2.0], {}]] if n in self.m and not self.m[n][2] else [[8, 'x', [1.0, 2.0], {}]])
        elif what == 'dimension':
            if n in self.m and self.m[n][2]:
                self.want(400, 'upsert', collection_name=n, items=[[1, 'x', [1.0, 2.0], {}]])
                self.want(400, 'query', collection_name=n, query_vector=[[1.0, 2.0]])
        elif what == 'effort':
            self.want(bad(400), 'query', collection_name=n, query_vector=[[1.0, 2.0, 3.0]], limit=11, ef_search=10)
            self.want(bad(400), 'query', collection_name=n, query_vector=[[1.0, 2.0, 3.0]], num_threads=0)
        elif what == 'filter':
            self.want(bad(400), 'delete_by_filter', collection_name=n, filter={'category': {'$unknown': 'A'}})
        elif what == 'name':
            self.want(400, 'create', collection_name='../x')
            self.want(404, 'delete', collection_name='zz', delete_on_disk=True)

    def remove(self, n, ids):
        c = self.m.get(n)
        self.want(404 if c is None else 200, 'delete_by_id', collection_name=n, ids=ids)
        for i in ids:
            c is not None and c[1].pop(i, None)

    def remove_where(self, n, f, hit):
        c = self.m.get(n)
        r = self.want(404 if c is None else 200 if c[2] else 400, 'delete_by_filter', collection_name=n, filter=f)
        if c is not None and c[2]:
            gone = [i for i, x in c[1].items() if hit(x[2])]
            for i in gone:
                del c[1][i]
            said = [int(w) for w in str(r).split() if w.isdigit()]
            require(not said or said[0] == len(gone), 'count', lambda: f'delete_by_filter removed {len(gone)} and says {r!r}')

    def metric(self, n, k):
        c = self.m.get(n)
        self.want(404 if c is None else 400 if c[2] else 200, 'set_metric', collection_name=n, metric=k)
        if c is not None and not c[2]:
            c[0] = k

    def save(self, n):
        c = self.m.get(n)
        self.want(404 if c is None else 200 if c[2] else 400, 'save', collection_name=n)

    def drop(self, n):
        self.want(404 if n not in self.m else 200, 'delete', collection_name=n, delete_on_disk=True)
        self.m.pop(n, None)

    def reset(self):
        self.want(200, 'reset', delete_on_disk=True)
        self.m = {}

    def restart(self):
        """an orderly end without saving: what was acknowledged is back, collections never filled are not"""
        self.want(200, 'reset', delete_on_disk=False)
        note('restart')
        self.m = {n: c for n, c in self.m.items() if c[2]}
        self.start()

isA = lambda m: m.get('category') == 'A'
OPS = [
    ('create a', lambda w: w.create('a')),
    ('create b', lambda w: w.create('b')),
    ('insert a 1 2', lambda w: w.insert('a', [rec(1, 0), rec(2, 0)])),
    ('insert a 3', lambda w: w.insert('a', [rec(3, 0)])),
    ('insert b 1', lambda w: w.insert('b', [rec(1, 3)])),
    ('insert a nothing', lambda w: (w.want(404 if 'a' not in w.m else 200, 'insert', collection_name='a', items=[]))),
    ('upsert a 1 4', lambda w: w.upsert('a', [rec(1, 1), rec(4, 0)])),
    ('upsert a 2 2', lambda w: w.upsert('a', [rec(2, 2), rec(2, 3)]) if 'a' not in w.m or w.m['a'][2] else None),
    ('remove a 1', lambda w: w.remove('a', [1])),
    ('remove a 2 9', lambda w: w.remove('a', [2, 9])),
    ('remove a where A', lambda w: w.remove_where('a', {'category': 'A'}, isA)),
    ('remove a where n B', lambda w: w.remove_where('a', {'$or': [{'n': {'$ge': 1}}, {'category': 'B'}]}, lambda m: m.get('n', 0) >= 1 or m.get('category') == 'B')),
    ('remove a all', lambda w: w.remove_where('a', {}, lambda m: True)),
    ('metric a cosine', lambda w: w.metric('a', 'cosine')),
    ('metric a ip', lambda w: w.metric('a', 'ip')),
    ('save a', lambda w: w.save('a')),
    ('delete a', lambda w: w.drop('a')),
    ('reset', lambda w: w.reset()),
    ('restart', lambda w: w.restart()),
] + [(k, lambda w, k=k: w.wrong('a', k)) for k in ('malformed', 'ragged', 'dimension', 'effort', 'filter', 'name')]
BY = dict(OPS)

def seqs(prefix, depth):
    def go():
        w = World()
        for p in prefix:
            BY[p](w)
        w.check()
        for _ in range(depth):
            what, op = OPS[choose(len(OPS), 'request')]
            note('* ' + what)
            op(w)
            w.check()
        post(w.app, 'reset', {})
    return go

ex = Explorer('P35', 'model_checking', 'every sequence of requests up to the depth; a check compares the listing and the answers of every collection with a dictionary',
              ['stand-ins for fastapi and pydantic', 'one request at a time, as the handlers never yield'])
for tag, prefix, depth in (('empty', [], 2), ('filled', ['create a', 'insert a 1 2'], 2), ('cosine', ['create a', 'metric a cosine', 'insert a 1 2'], 2),
                           ('saved', ['create a', 'insert a 1 2', 'save a', 'upsert a 1 4'], 2), ('back', ['create a', 'insert a 1 2', 'restart'], 2),
                           ('pair', ['create b', 'create a', 'insert b 1', 'insert a 3'], 2), ('emptied', ['create a', 'insert a 1 2', 'remove a all'], 2)):
    ex.scenario(f'{tag}-{depth}', seqs(prefix, depth))
    ex.scenario(f'{tag}-{depth + 1}', seqs(prefix, depth + 1), thorough=True)
sys.exit(ex.main())
