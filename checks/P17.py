"""P17: a collection is a dictionary of documents. Every operation sequence up to a depth over the real Collection (Python
layer, pybind layer, native index, RocksDB), compared after every operation with a plain dictionary: gets, filtered
queries, vector queries, hybrid queries, and what an operation that raises leaves behind."""
import sys
import numpy as np
from pymc import *
import alayalite
from alayalite import Collection
from alayalite.schema import IndexParams

IDS = ['a', 'b', 'c', 'd \u00fc\n/']
VECS = {0: (0, 0, 0, 1), 1: (3, 0, 0, 1), 2: (0, 7, 0, 2), 3: (1, 1, 9, 4), 4: (12, 5, 0, 3), 5: (2, 2, 2, 8)}
DOCS = ['', 'one', 'two\nlines', 'drei ü', 'four', 'five']
METAS = [{'g': 'x', 'n': 1}, {'g': 'y', 'n': 2, 'f': 0.5}, {'g': 'x', 'n': 3, 'b': True}, {'n': -4}, {}, {'g': 'y', 'n': 2 ** 40, 'f': -1.5}]
QUERIES = [(0, 0, 0, 0), (4, 4, 1, 1), (0, 8, 0, 0)]

def rec(i, v):
    return (IDS[i], DOCS[v], np.array(VECS[v], dtype=np.float32), dict(METAS[v]))

def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)

FILTERS = [
    ({}, lambda m: True),
    ({'g': 'x'}, lambda m: m.get('g') == 'x'),
    ({'n': {'$gt': 1}}, lambda m: 'n' in m and m['n'] > 1),
    ({'n': {'$ge': 1, '$le': 3}}, lambda m: 'n' in m and 1 <= m['n'] <= 3),
    ({'$and': [{'g': 'y'}, {'n': {'$lt': 5}}]}, lambda m: m.get('g') == 'y' and m['n'] < 5),
    ({'$or': [{'g': 'x'}, {'n': {'$lt': 0}}]}, lambda m: m.get('g') == 'x' or m.get('n', 0) < 0),
    ({'n': {'$in': [2, -4]}}, lambda m: m.get('n') in (2, -4)),
    ({'b': True}, lambda m: m.get('b') is True),
    ({'f': {'$lt': 0.0}}, lambda m: 'f' in m and m['f'] < 0),
    ({'zz': 1}, lambda m: False),
    ({'g': 'x', '$or': [{'n': 1}, {'b': True}, {'g': 'y'}]}, lambda m: m.get('g') == 'x' and (m.get('n') == 1 or m.get('b') is True)),
    ({'$or': [{'n': 1}, {'n': 2}], '$and': [{'g': 'y'}]}, lambda m: m.get('g') == 'y' and m.get('n') in (1, 2)),
    ({'$or': [{'g': 'y', 'n': {'$lt': 5}}, {'$and': [{'g': 'x'}, {'n': {'$ge': 3}}]}]}, lambda m: (m.get('g') == 'y' and m['n'] < 5) or (m.get('g') == 'x' and m['n'] >= 3)),
]

class World:
    def __init__(self, metric='l2', quant='none', capacity=None, idx=None, build_threads=None):
        p = IndexParams()
        p.metric = {'l2': 'l2', 'ip': 'ip', 'cos': 'cosine'}[metric]
        p.quantization_type = quant
        if capacity:
            p.capacity = capacity
        if idx:
            p.indexed_fields = list(idx)
        p.rocksdb_path = fresh_dir() + '/rocksdb'
        self.metric, self.capacity = metric, capacity
        self.c = Collection('c', p)
        self.m = {}
        self.started, self.used = False, 0

    def dist(self, q, v):
        q, v = np.array(q, dtype=np.float64), np.array(v, dtype=np.float64)
        if self.metric == 'l2':
            return float(((q - v) ** 2).sum())
        if self.metric == 'cos':
            n = np.linalg.norm(q)
            q = q / n if n else q
            v = v / np.linalg.norm(v)
        return -float((q * v).sum())

    def check(self, full=True):
        c, m = self.c, self.m
        evaluated()
        state((sorted((k, v[0]) for k, v in m.items()), self.started))
        for i in IDS + ['ghost']:
            r = c.get_by_id([i])
            if i not in m:
                require(r['id'] == [], 'get-absent', lambda: f'get_by_id({i!r}) gave {r} though it is not in the collection')
            else:
                v = m[i][0]
                require(r['id'] == [i] and r['document'] == [DOCS[v]], 'get-value', lambda: f'get_by_id({i!r}) gave {r}, expected document {DOCS[v]!r}')
                require(len(r['metadata']) == 1 and self.same(r['metadata'][0], METAS[v]), 'get-metadata', lambda: f'get_by_id({i!r}) metadata {r["metadata"]}, expected {METAS[v]}')
        if not self.started:
            return
        r = c.get_by_id(IDS)
        require(r['id'] == [i for i in IDS if i in m], 'get-many', lambda: f'get_by_id(all) gave {r["id"]}, contents {sorted(m)}')
        for f, ok in FILTERS if full else FILTERS[:3]:
            want = sorted(i for i in m if ok(METAS[m[i][0]]))
            r = c.filter_query(f, limit=100)
            require(sorted(r['id']) == want, 'filter-query', lambda: f'filter_query({f}) gave {r["id"]}, expected {want}')
            for i, d, md in zip(r['id'], r['document'], r['metadata']):
                require(d == DOCS[m[i][0]] and self.same(md, METAS[m[i][0]]), 'filter-query-value', lambda: f'filter_query({f}) returned {i}: {d!r} {md}')
            if len(want) > 1:
                r = c.filter_query(f, limit=len(want) - 1)
                require(len(r['id']) == len(want) - 1 and len(set(r['id'])) == len(r['id']) and set(r['id']) <= set(want), 'filter-limit',
                        lambda: f'filter_query({f}, limit={len(want) - 1}) gave {r["id"]}, matching {want}')
            if want:
                nontrivial()
        for q in QUERIES:
            if self.metric == 'cos' and not any(q):
                continue
            order = sorted(m, key=lambda i: self.dist(q, VECS[m[i][0]]))
            for limit in (1, len(m) + 1):
                r = c.batch_query([list(map(float, q))], limit, ef_search=max(20, limit))
                ids, ds = r['id'][0], r['distance'][0]
                live = [i for i in ids if i]
                require(ids[len(live):] == [''] * (len(ids) - len(live)), 'query-padding', lambda: f'query {q} limit {limit} mixes padding and results: {ids}')
                want = order[:limit]
                wd = [self.dist(q, VECS[m[i][0]]) for i in want]
                require(set(live) <= set(m), 'query-dead', lambda: f'query {q} limit {limit} returned {live}; the collection holds {sorted(m)}')
                require(len(set(live)) == len(live), 'query-duplicate', lambda: f'query {q} limit {limit} returned {live}')
                require(len(live) == len(want), 'query-missing', lambda: f'query {q} limit {limit} returned {live}, expected {want}')
                tol = self.tol()
                for k, i in enumerate(live):
                    t = self.dist(q, VECS[m[i][0]])
                    require(abs(t - wd[k]) <= tol, 'query-order', lambda: f'query {q} limit {limit} returned {live} {ds}, expected {want} {wd}')
                    require(abs(ds[k] - t) <= tol, 'query-distance', lambda: f'query {q}: distance of {i} given as {ds[k]}, is {t}')
                    require(r['document'][0][k] == DOCS[m[i][0]] and self.same(r['metadata'][0][k], METAS[m[i][0]]), 'query-value',
                            lambda: f'query {q}: {i} came with {r["document"][0][k]!r} {r["metadata"][0][k]}')
            for f, ok in FILTERS if full else FILTERS[:2]:
                match = [i for i in order if ok(METAS[m[i][0]])]
                limit = 2
                r = c.hybrid_query([list(map(float, q))], limit, metadata_filter=f, ef_search=20)
                ids = r['id'][0]
                live = [i for i in ids if i]
                require(len(set(live)) == len(live) and set(live) <= set(match) and len(live) == min(limit, len(match)) and
                        all(abs(self.dist(q, VECS[m[i][0]]) - self.dist(q, VECS[m[j][0]])) <= self.tol() for i, j in zip(live, match)),
                        'hybrid-query', lambda: f'hybrid_query {q} {f} limit {limit} gave {ids}, expected {match[:limit]}')

    def tol(self):
        return 1e-4

    @staticmethod
    def same(a, b):
        return a.keys() == b.keys() and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)

    def attempt(self, what, fn):
        """runs fn; returns the exception, or None"""
        note(what)
        step()
        try:
            fn()
        except Violation:
            raise
        except Exception as e:
            note(f'   raised {type(e).__name__}: {e}'[:150])
            return e
        return None

    def insert(self, recs):
        """a batch is inserted record by record: a refused record leaves no trace and ends the batch"""
        first = not self.started
        good, dup = [], False
        for r, v in recs:
            if r[0] in self.m or any(r[0] == g[0][0] for g in good):
                dup = True
                break
            good.append((r, v))
        if first and dup:
            good = []
        e = self.attempt(f'insert {[(r[0], v) for r, v in recs]}', lambda: self.c.insert([r for r, _ in recs]))
        if dup:
            require(e is not None, 'duplicate-accepted', lambda: f'insert of {[r[0] for r, _ in recs]} into {sorted(self.m)} raised nothing')
        elif e is not None:
            # only a full collection may refuse; it then has taken the first records of the batch
            require(self.capacity and self.used + len(good) > self.capacity, 'insert-refused', lambda: f'insert of {[r[0] for r, _ in recs]} into {sorted(self.m)} raised {e}')
            good = good[:max(0, self.capacity - self.used)]
        for r, v in good:
            self.m[r[0]] = (v,)
        self.used += len(good)
        self.started = self.started or bool(good)

    def upsert(self, recs):
        e = self.attempt(f'upsert {[(r[0], v) for r, v in recs]}', lambda: self.c.upsert([r for r, _ in recs]))
        for r, v in recs:
            if e is None:
                self.m[r[0]] = (v,)
                self.used += 1  # at most: replacing a vector may take a slot
                continue
            require(self.capacity and self.used + len(recs) > self.capacity, 'upsert-refused', lambda: f'upsert raised {e}')
        self.started = True

    def delete(self, ids):
        e = self.attempt(f'delete_by_id {ids}', lambda: self.c.delete_by_id(ids))
        require(e is None, 'delete-raised', lambda: f'delete_by_id({ids}) raised {e}')
        for i in ids:
            self.m.pop(i, None)

    def delete_filter(self, k, batch):
        f, ok = FILTERS[k]
        out = []
        e = self.attempt(f'delete_by_filter {f} batch {batch}', lambda: out.append(self.c.delete_by_filter(f, batch_size=batch)))
        gone = [i for i in self.m if ok(METAS[self.m[i][0]])]
        require(e is None, 'delete-raised', lambda: f'delete_by_filter({f}) raised {e}')
        require(out == [len(gone)], 'delete-count', lambda: f'delete_by_filter({f}) reports {out}, {len(gone)} records matched')
        for i in gone:
            self.m.pop(i)

    def reindex(self):
        e = self.attempt('reindex', lambda: self.c.reindex(ef_construction=50))
        require(e is None, 'reindex-raised', lambda: f'reindex raised {e}')

    def finish(self):
        self.c.close()

def ops(w, alphabet):
    op = choose(len(alphabet), 'op')
    a = alphabet[op]
    a(w)

ALPHA = [
    lambda w: w.insert([(rec(2, 2), 2)]),
    lambda w: w.insert([(rec(0, 4), 4)]),
    lambda w: w.upsert([(rec(0, 3), 3)]),
    lambda w: w.upsert([(rec(1, 5), 5)]),
    lambda w: w.delete(['a']),
    lambda w: w.delete(['b', 'ghost', 'c']),
    lambda w: w.delete_filter(1, 1000),
    lambda w: w.reindex(),
]
MORE = [
    lambda w: w.insert([(rec(2, 2), 2), (rec(3, 3), 3)]),
    lambda w: w.upsert([(rec(0, 1), 1), (rec(0, 2), 2)]),
    lambda w: w.delete(['a', 'a']),
    lambda w: w.delete_filter(0, 1),
    lambda w: w.delete_filter(3, 2),
    lambda w: w.insert([(rec(3, 0), 0)]),
    lambda w: w.upsert([(rec(1, 0), 0), ((IDS[2], DOCS[4], list(VECS[4]), None), 4)]),
]
STARTS = [[(0, 0)], [(0, 0), (1, 1)], [(0, 0), (1, 1), (3, 3)]]

def run(w, alphabet, depth, full, starts=STARTS):
    s = starts[choose(len(starts), 'first batch')]
    w.check(full)
    w.insert([(rec(i, v), v) for i, v in s])
    w.check(full)
    for d in range(depth):
        ops(w, alphabet)
        w.check(full)
    w.finish()

def seqs(depth, alphabet=ALPHA, full=True, starts=STARTS, **k):
    return lambda: run(World(**k), alphabet, depth, full, starts)

def first_duplicates():
    """the first batch already holds an id twice"""
    w = World()
    n = choose(3, 'form')
    recs = [[(0, 0), (0, 1)], [(0, 0), (1, 1), (0, 2)], [(1, 1), (1, 1)]][n]
    w.insert([(rec(i, v), v) for i, v in recs])
    w.check()
    w.insert([(rec(2, 2), 2)])
    w.check()
    w.finish()

def partial_insert():
    """a batch that must be refused because of its j-th record leaves the collection as it was"""
    w = World()
    w.insert([(rec(0, 0), 0), (rec(1, 1), 1)])
    j = choose(3, 'bad position')
    kind = choose(3, 'kind')
    recs = [(rec(2, 2), 2), (rec(3, 3), 3)]
    bad = [rec(0, 4), ('e', 'x', np.zeros(3, dtype=np.float32), {}), ('e', 'x', np.zeros(4, dtype=np.float32), 'not a dict')][kind]
    up = choose(2, 'upsert') if kind else 0
    e = w.attempt(f'{"upsert" if up else "insert"} with a bad record at {j}', lambda: (w.c.upsert if up else w.c.insert)([r for r, _ in recs[:j]] + [bad] + [r for r, _ in recs[j:]]))
    require(e is not None, 'bad-accepted', 'the batch was accepted')
    for r, v in recs[:j]:
        w.m[r[0]] = (v,)
    w.check()
    w.insert([(('e', DOCS[5], np.array(VECS[5], dtype=np.float32), dict(METAS[5])), 5)])
    require(w.c.get_by_id(['e'])['document'] == [DOCS[5]], 'refused-trace', 'the refused id cannot be inserted afterwards')
    w.m.pop('e')
    w.delete(['e'])
    w.check()
    w.finish()

def small_capacity():
    """inserts beyond the capacity are refused and change nothing"""
    w = World(capacity=3)
    w.insert([(rec(0, 0), 0), (rec(1, 1), 1)])
    for d in range(4):
        k = choose(4, 'op')
        if k == 0:
            w.insert([(rec(2, 2), 2)])
        elif k == 1:
            w.insert([(rec(3, 3), 3)])
        elif k == 2:
            w.upsert([(rec(0, 4), 4)])
        else:
            w.delete(['b'])
        w.check()
    w.finish()

ex = Explorer('P17', 'model_checking', 'operation sequences over the real Collection, dictionary oracle', [])
ex.scenario('sequences-2', seqs(2, ALPHA + MORE))
ex.scenario('sequences-3', seqs(3, full=False))
ex.scenario('first-duplicates', first_duplicates)
ex.scenario('partial-insert', partial_insert)
ex.scenario('small-capacity', small_capacity)
for m in ('ip', 'cos'):
    ex.scenario(f'sequences-2-{m}', seqs(2, metric=m, starts=STARTS[1:]))
ex.scenario('sequences-2-sq8', seqs(2, quant='sq8', starts=STARTS[1:]))
ex.scenario('sequences-2-indexed', seqs(2, ALPHA + MORE, idx=['g', 'n'], starts=STARTS[2:]))
ex.scenario('sequences-4', seqs(4, full=False, starts=STARTS[1:2]), thorough=True)
ex.scenario('sequences-3-more', seqs(3, ALPHA + MORE), thorough=True)
if __name__ == '__main__':
    sys.exit(ex.main())
