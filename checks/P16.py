"""P16: filtered vector search. Every combination in the bound of record set, changes made after building, filter, k,
search width, execution hint and index configuration, compared with the records that satisfy the filter, nearest first."""
import logging, sys
logging.disable(logging.CRITICAL)
import numpy as np
from pymc import *
from alayalite import Collection
from alayalite.schema import IndexParams

DIM = 8

def vec(i):
    x = (i * 2654435761 + 12345) & 0xffffffff
    v = []
    for k in range(DIM):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        v.append(((x >> 12) % 41 - 20) / 2 + (0.25 if k == i % DIM else 0))
    return np.array(v, dtype=np.float32)

def meta(i):
    m = {'n': i, 'g': 'xyz'[i % 3], 'half': i / 2, 'even': i % 2 == 0}
    if i % 4 == 3:
        m['rare'] = 'r' if i % 8 == 3 else 's'
    if i % 5 == 0:
        del m['n']
    return m

FILTERS = [
    ({}, lambda m: True),
    ({'g': 'x'}, lambda m: m['g'] == 'x'),
    ({'g': 'q'}, lambda m: False),
    ({'rare': 'r'}, lambda m: m.get('rare') == 'r'),
    ({'n': 7}, lambda m: m.get('n') == 7),
    ({'n': {'$gt': 2}}, lambda m: m.get('n', -1) > 2),
    ({'n': {'$le': 1}}, lambda m: 'n' in m and m['n'] <= 1),
    ({'n': {'$ge': 3, '$lt': 9}}, lambda m: 'n' in m and 3 <= m['n'] < 9),
    ({'n': {'$gt': 5, '$lt': 4}}, lambda m: False),
    ({'half': {'$gt': 1.25}}, lambda m: m['half'] > 1.25),
    ({'even': True}, lambda m: m['even']),
    ({'g': {'$in': ['x', 'z', 'q']}}, lambda m: m['g'] in 'xz'),
    ({'n': {'$in': [1, 2, 3, 11]}, 'g': 'y'}, lambda m: m.get('n') in (1, 2, 3, 11) and m['g'] == 'y'),
    ({'$or': [{'g': 'x'}, {'rare': 's'}]}, lambda m: m['g'] == 'x' or m.get('rare') == 's'),
    ({'$and': [{'n': {'$ge': 1}}, {'$or': [{'g': 'y'}, {'g': 'z'}]}]}, lambda m: m.get('n', 0) >= 1 and m['g'] in 'yz'),
    ({'$or': [{'g': 'x', 'n': {'$lt': 4}}, {'g': 'y', 'n': {'$ge': 4}}]}, lambda m: 'n' in m and ((m['g'] == 'x' and m['n'] < 4) or (m['g'] == 'y' and m['n'] >= 4))),
]
HINTS = [None, 'disable', 'bitset_prefilter', 'iterative_filter']
FIELDS = [[], ['g'], ['g', 'n', 'rare', 'half', 'even'], ['n']]

def line(i):
    return np.array([i, i % 7 * 0.125, i % 5 * 0.125, 0, 0, 0, 0, 1], dtype=np.float32)

LINE_FILTERS = [
    ({'n': {'$ge': 1020}}, lambda m: m['n'] >= 1020),
    ({'n': {'$lt': 90}}, lambda m: m['n'] < 90),
    ({'n': {'$ge': 980, '$lt': 1068}}, lambda m: 980 <= m['n'] < 1068),
    ({'$or': [{'n': {'$lt': 45}}, {'n': {'$ge': 1055}}]}, lambda m: m['n'] < 45 or m['n'] >= 1055),
]

class Line:
    """1100 records on a line, more than one batch of the filter scan; the matching ones lie at chosen places, so that the
    number of matches within the width of a search varies with where on the line the query lies."""
    def __init__(self, quant, fields, n=1100):
        p = IndexParams()
        p.quantization_type, p.indexed_fields, p.capacity = quant, list(fields), 2048
        p.rocksdb_path = fresh_dir() + '/rocksdb'
        self.c = Collection('c', p)
        self.c.insert([(f'i{i}', '', line(i), {'n': i}) for i in range(n)])
        self.m = {f'i{i}': i for i in range(n)}
    def run(self, f, ok, hint, every, ks=(10,)):
        match = np.array([i for i in self.m.values() if ok({'n': i})])
        vs = np.array([line(i) for i in match]).astype(np.float64)
        at = list(range(3, 1100, every))
        for k, ef, at in [(k, k, at) for k in ks] + [(10, 1102, [1024, 1060]), (50, 1102, [1024, 1060])]:
            qs = [line(a) for a in at]
            r = self.c.hybrid_query([list(map(float, q)) for q in qs], k, metadata_filter=f, ef_search=ef, filter_execution_hint=hint, num_threads=1)['id']
            for q, a, ids in zip(qs, at, r):
                step(); evaluated(); state((a, k, str(f)))
                live = [i for i in ids if i]
                what = lambda: f'1100 records on a line, query at {a}, filter {f} k={k} hint={hint}: got {ids}'
                require(len(set(live)) == len(live) and len(ids) <= k, 'duplicate', what)
                require(all(ok({'n': self.m[i]}) for i in live), 'not-matching', what)
                d = [((line(self.m[i]).astype(np.float64) - q) ** 2).sum() for i in live]
                require(all(x <= y + 1e-3 for x, y in zip(d, d[1:])), 'order', what)
                if hint != 'iterative_filter':
                    require(len(live) == k, 'underfilled', what)
                if ef > 1100:
                    best = sorted(((vs - q) ** 2).sum(axis=1))[:k]
                    require(len(d) == len(best) and all(abs(x - y) <= 1e-3 for x, y in zip(d, best)), 'nearest', what)
                if live:
                    nontrivial()

class World:
    def __init__(self, n, quant, metric, fields, capacity=64):
        p = IndexParams()
        p.metric, p.quantization_type, p.indexed_fields, p.capacity = metric, quant, list(fields), capacity
        p.rocksdb_path = fresh_dir() + '/rocksdb'
        self.metric, self.quant = metric, quant
        self.c = Collection('c', p)
        self.m = {}
        self.total = self.fresh = 0
        self.put(range(n), self.c.insert)
    def put(self, idx, f, src=lambda i: i):
        f([(f'i{i}', '', vec(src(i)), meta(src(i))) for i in idx])
        for i in idx:
            self.m[f'i{i}'] = src(i)
            self.total += 1
            self.fresh = max(self.fresh, i + 1)
    def drop(self, idx):
        self.c.delete_by_id([f'i{i}' for i in idx])
        for i in idx:
            self.m.pop(f'i{i}', None)
    def dist(self, q, i):
        q, v = q.astype(np.float64), vec(i).astype(np.float64)
        if self.metric == 'l2':
            return ((q - v) ** 2).sum()
        if self.metric == 'cosine':
            q, v = q / np.linalg.norm(q), v / np.linalg.norm(v)
        return -(q * v).sum()
    def query(self, qs, f, ok, k, ef, hint, threads):
        match = [i for i, s in self.m.items() if ok(meta(s))]
        r = self.c.hybrid_query([list(map(float, q)) for q in qs], k, metadata_filter=f, ef_search=ef, filter_execution_hint=hint, num_threads=threads)['id']
        step()
        require(len(r) == len(qs), 'rows', lambda: f'{len(r)} rows for {len(qs)} queries')
        for q, ids in zip(qs, r):
            live = [i for i in ids if i]
            want = sorted(match, key=lambda i: self.dist(q, self.m[i]))[:k]
            what = lambda: f'filter {f} k={k} ef={ef} hint={hint}: got {ids}, expected {want}, holding {sorted(self.m, key=lambda x: int(x[1:]))}'
            require(ids[len(live):] == [''] * (len(ids) - len(live)), 'padding', what)
            require(len(ids) <= k and len(set(live)) == len(live), 'duplicate', what)
            require(set(live) <= set(match), 'not-matching', what)
            d = [self.dist(q, self.m[i]) for i in live]
            require(all(a <= b + 1e-3 for a, b in zip(d, d[1:])), 'order', what)
            if ef >= self.total:  # the search width covers the index (slots of removed records included)
                require(len(live) == len(want), 'missing', what)
                require(all(abs(a - self.dist(q, self.m[i])) <= 1e-3 for a, i in zip(d, want)), 'nearest', what)
            elif f and hint != 'iterative_filter':  # too few found: the exact scan takes over
                require(len(live) == len(want), 'underfilled', what)
            if live and len(match) < len(self.m):
                nontrivial()
    def check(self):
        evaluated()
        state(sorted(self.m.items()))
        n = len(self.m)
        qs = [vec(1000), vec(1001)]
        for f, ok in FILTERS:
            for hint in HINTS:
                for k in sorted({1, 2, 5, max(1, n), n + 2}):
                    self.query(qs[:1], f, ok, k, max(k, self.total + 2), hint, 1)
                    self.query(qs, f, ok, k, k, hint, 1)
                self.query(qs, f, ok, 3, self.total + 3, hint, 2)

CHANGES = [
    ('nothing', lambda w, n: None),
    ('insert two', lambda w, n: w.put([w.fresh, w.fresh + 1], w.c.insert)),
    ('delete first and last', lambda w, n: w.drop([0, n - 1])),
    ('delete every third', lambda w, n: w.drop(range(0, n, 3))),
    ('delete all', lambda w, n: w.drop(range(n))),
    ('delete all but one', lambda w, n: w.drop(range(1, n))),
    ('upsert other metadata', lambda w, n: w.put([0, n - 1], w.c.upsert, lambda i: i + 1)),
    ('delete and insert again', lambda w, n: (w.drop([0, 1]), w.put([0], w.c.upsert, lambda i: i + 5))),
    ('reindex', lambda w, n: (w.drop([1]), w.c.reindex(ef_construction=50), setattr(w, 'total', len(w.m)))),
]

def scen(quants, metrics, sizes, fields, changes=CHANGES, second=False):
    def f():
        n = pick(sizes, 'records')
        q = pick(quants, 'quantization')
        m = pick(metrics, 'metric')
        fl = pick(fields, 'indexed')
        w = World(n, q, m, fl)
        for _ in range(2 if second else 1):
            name, fn = changes[choose(len(changes), 'change')]
            note(name)
            fn(w, n)
        w.check()
        w.c.close()
    return f

def line_scen(every):
    def f():
        w = Line(pick(['none', 'sq8'], 'quantization'), pick([[], ['n']], 'indexed'))
        for flt, ok in LINE_FILTERS:
            for hint in HINTS:
                w.run(flt, ok, hint, every if hint != 'iterative_filter' else 37)
        w.c.close()
    return f

ex = Explorer('P16', 'model_checking', 'record sets x changes x filters x k x widths x hints over the real collection', [])
ex.scenario('plain', scen(['none'], ['l2'], [2, 9, 24], FIELDS))
ex.scenario('metrics', scen(['none'], ['ip', 'cosine'], [9], FIELDS[1:3], CHANGES[:4]))
ex.scenario('sq8', scen(['sq8'], ['l2'], [9, 24], FIELDS[:3]))
ex.scenario('line', line_scen(9))
ex.scenario('line-fine', line_scen(2), thorough=True)
ex.scenario('two-changes', scen(['none', 'sq8'], ['l2'], [9, 24], FIELDS, second=True), thorough=True)
ex.scenario('large', scen(['none', 'sq8'], ['l2'], [40, 60], FIELDS), thorough=True)
if __name__ == '__main__':
    sys.exit(ex.main())
