"""P19: the client's namespace. Every sequence of create / fill / save / delete / reset / reopen up to a depth over the real
Client, against a model with the objects in memory and the objects on disk; path-like names against the rule that nothing
outside the client's directory, and nothing of another name, is touched. shutil.rmtree is replaced by a stand-in that
only acts strictly inside the scratch client directory and records every other target."""
import logging, os, shutil, sys
import numpy as np
from pymc import *
import alayalite
from alayalite import Client
import alayalite.client, alayalite.collection, alayalite.index

logging.disable(logging.CRITICAL)
_rmtree = shutil.rmtree
GUARD = {'root': None, 'bad': []}

def guarded(path, *a, **k):
    root = os.path.realpath(GUARD['root']) if GUARD['root'] else None
    p = os.path.realpath(path)
    if root is None or not p.startswith(root + os.sep):
        GUARD['bad'].append(path)
        return
    return _rmtree(path, *a, **k)

class _Shutil:
    def __getattr__(self, n):
        return guarded if n == 'rmtree' else getattr(shutil, n)

for mod in (alayalite.client, alayalite.collection, alayalite.index):
    mod.shutil = _Shutil()

def vec(k):
    return np.array([k, k * k % 7, 1, 0], dtype=np.float32)

class World:
    def __init__(self):
        base = fresh_dir()
        self.url = base + '/up/client'
        os.makedirs(base + '/up/other')
        open(base + '/up/other/keep', 'w').write('keep')
        self.base = base
        GUARD['root'], GUARD['bad'] = self.url, []
        os.environ['ALAYALITE_ROCKSDB_DIR'] = base + '/rdb'
        assert alayalite.collection._default_rocksdb_path('q').startswith(base)
        self.mem, self.disk = {}, {}  # name -> (kind, contents or None before the first batch)
        self.n = 0
        self.c = Client(self.url)

    def outside(self):
        out = []
        for d, ds, fs in os.walk(self.base):
            if d in (self.url, self.base + '/rdb'):
                ds[:] = []
                continue
            out += [os.path.relpath(os.path.join(d, f), self.base) for f in fs + [x for x in ds if os.path.join(d, x) not in (self.url, self.base + '/rdb')]]
        return sorted(out)

    def contents(self, name, kind):
        if kind == 'c':
            o = self.c.get_collection(name)
            if o.get_index() is None:
                return None
            r = o.filter_query({}, limit=1000)
            return {i: d for i, d in zip(r['id'], r['document'])}
        o = self.c.get_index(name)
        if o.get_dim() is None:
            return None
        ids, ds = o.batch_search_with_distance(np.array([vec(0)]), 20, 50, 1)
        return {int(i) for i, d in zip(ids[0], ds[0]) if d < 1e30}

    def check(self):
        evaluated()
        state((sorted((k, v[0], str(v[1])) for k, v in self.mem.items()), sorted((k, v[0]) for k, v in self.disk.items())))
        lc, li = self.c.list_collections(), self.c.list_indices()
        wc, wi = sorted(k for k, v in self.mem.items() if v[0] == 'c'), sorted(k for k, v in self.mem.items() if v[0] == 'i')
        require(sorted(lc) == wc and sorted(li) == wi, 'listing', lambda: f'lists {lc} {li}, expected {wc} {wi}')
        for n in set('ab') | set(self.mem):
            k = self.mem.get(n, (None,))[0]
            require((self.c.get_collection(n) is not None) == (k == 'c') and (self.c.get_index(n) is not None) == (k == 'i'), 'lookup', lambda: f'{n} is {k}')
            if k:
                got = self.contents(n, k)
                require(got == self.mem[n][1], 'contents', lambda: f'{n} ({k}) holds {got}, expected {self.mem[n][1]}')
                if got:
                    nontrivial()
        require(not GUARD['bad'], 'deletes-outside', lambda: f'asked to delete {GUARD["bad"]}')
        out = self.outside()
        require(out == ['up', 'up/other', 'up/other/keep'], 'touches-outside', lambda: f'files beside the client directory: {out}')

    def call(self, what, ok, fn):
        """an operation that must be refused is checked and ends this sequence (it changed nothing)"""
        note(what)
        step()
        try:
            r = fn()
        except Violation:
            raise
        except Exception as e:
            note(f'   raised {type(e).__name__}: {e}'[:150])
            require(not ok, 'refused', lambda: f'{what} raised {type(e).__name__}: {e}')
            self.check()
            return False
        require(ok, 'accepted', lambda: f'{what} was accepted')
        return True

    def create(self, n, k):
        f = self.c.create_collection if k == 'c' else self.c.create_index
        if not self.call(f'create {k} {n}', n not in self.mem, lambda: f(n)):
            return False
        self.mem[n] = (k, None)
        return True

    def get_or_create(self, n, k):
        f = self.c.get_or_create_collection if k == 'c' else self.c.get_or_create_index
        cur = self.mem.get(n)
        if not self.call(f'get_or_create {k} {n}', cur is None or cur[0] == k, lambda: f(n)):
            return False
        self.mem.setdefault(n, (k, None))
        return True

    def fill(self, n):
        if n not in self.mem:
            return False
        k, old = self.mem[n]
        self.n += 1
        if k == 'c':
            i = f'{n}{self.n}'
            # a new collection cannot start over on a name whose data is still on disk: refused, nothing lost
            if not self.call(f'insert {i} into {n}', old is not None or self.disk.get(n, 'i')[0] != 'c', lambda: self.c.get_collection(n).insert([('same', f'doc{self.n}', vec(self.n), {})] if old is None else [(i, i, vec(self.n), {})])):
                return False
            new = {'same': f'doc{self.n}'} if old is None else {**old, i: i}
            self.mem[n] = (k, new)
            self.disk[n] = (k, new)  # a collection of a client with a directory is durable from its first batch on
        else:
            o = self.c.get_index(n)
            if old is None:
                if not self.call(f'fit {n}', True, lambda: o.fit(np.array([vec(0), vec(self.n + 1)]))):
                    return False
                self.mem[n] = (k, {0, 1})
            else:
                if not self.call(f'insert into index {n}', True, lambda: o.insert(vec(self.n))):
                    return False
                self.mem[n] = (k, old | {len(old)})
        return True

    def save(self, n, k):
        f = self.c.save_collection if k == 'c' else self.c.save_index
        ok = self.mem.get(n, (None, None))[0] == k and self.mem[n][1] is not None
        if not self.call(f'save {k} {n}', ok, lambda: f(n)):
            return False
        self.disk[n] = self.mem[n]
        return True

    def delete(self, n, k, on_disk):
        f = self.c.delete_collection if k == 'c' else self.c.delete_index
        if not self.call(f'delete {k} {n} disk={on_disk}', self.mem.get(n, (None,))[0] == k, lambda: f(n, delete_on_disk=on_disk)):
            return False
        del self.mem[n]
        if on_disk:
            self.disk.pop(n, None)
            require(not os.path.exists(f'{self.url}/{n}'), 'left-on-disk', lambda: f'{n} was deleted but {os.listdir(self.url + "/" + n)} remains')
        return True

    def reset(self, on_disk):
        if not self.call(f'reset disk={on_disk}', True, lambda: self.c.reset(delete_on_disk=on_disk)):
            return False
        if on_disk:
            for n in self.mem:
                self.disk.pop(n, None)
        self.mem = {}
        return True

    def reopen(self):
        note('reopen')
        step()
        self.c.reset()
        try:
            self.c = Client(self.url)
        except Exception as e:
            fail('reopen', f'reopening raised {type(e).__name__}: {e}; on disk: {sorted(self.disk)}')
        self.mem = dict(self.disk)
        return True

def sequences(depth, names, start):
    def f():
        w = World()
        for s in start:
            s(w)
        w.check()
        for d in range(depth):
            acts = [lambda: w.reopen(), lambda: w.reset(False), lambda: w.reset(True)]
            for n in names:
                acts += [lambda n=n: w.create(n, 'c'), lambda n=n: w.create(n, 'i'), lambda n=n: w.fill(n), lambda n=n: w.save(n, 'c'), lambda n=n: w.save(n, 'i'),
                         lambda n=n: w.delete(n, 'c', False), lambda n=n: w.delete(n, 'c', True), lambda n=n: w.delete(n, 'i', False), lambda n=n: w.delete(n, 'i', True)]
            if not acts[choose(len(acts), 'op')]():
                return
            w.check()
        if choose(2, 'finally reopen') == 1:
            w.reopen()
            w.check()
        w.c.reset()
    return f

def get_or_create():
    w = World()
    for d in range(3):
        n, k = 'ab'[choose(2, 'name')], 'ci'[choose(2, 'kind')]
        op = choose(3, 'op')
        if not (w.get_or_create(n, k) if op == 0 else w.fill(n) if op == 1 else w.delete(n, k, True)):
            return
        w.check()
    w.c.reset()

def no_directory():
    """a client without a directory never writes anywhere it was not told to and refuses the disk operations"""
    w = World()
    w.c = Client()
    op = choose(6, 'op')
    w.create('a', 'c')
    if choose(2, 'filled'):
        w.c.get_collection('a').insert([('x', 'x', vec(1), {})])
        w.mem['a'] = ('c', {'x': 'x'})
    w.create('b', 'i')
    f = [lambda: w.c.save_collection('a'), lambda: w.c.save_index('b'), lambda: w.c.delete_collection('a', delete_on_disk=True),
         lambda: w.c.delete_index('b', delete_on_disk=True), lambda: w.c.reset(delete_on_disk=True), lambda: w.c.delete_index('a')][op]
    w.call('disk operation without a directory', False, f)
    w.c.reset()

NAMES = ['', '.', '..', '../other', '../up2', 'a/b', 'a/../b', '/abs', 'a/', './a', '../client/a', 'a\x00b', 'rocksdb', 'schema.json', ' ', 'x' * 200]

def hostile():
    """a name is either refused or behaves like a name: it is listed, reloads, and its deletion removes only itself"""
    w = World()
    w.create('a', 'c'); w.fill('a')
    w.create('b', 'i'); w.fill('b'); w.save('b', 'i')
    w.check()
    n = pick(NAMES, 'name')
    if n == '/abs':
        n = w.base + '/up/abs'
    k = 'ci'[choose(2, 'kind')]
    use = choose(3, 'use')
    w.n = 10
    try:
        (w.c.create_collection if k == 'c' else w.c.create_index)(n)
    except Exception as e:
        note(f'refused: {e}'[:100])
        w.check()
        return
    w.mem[n] = (k, None)
    w.check()
    step()
    if use:
        if not w.fill(n):
            return
        if k == 'i' and not w.save(n, k):
            return
        w.check()
    if use == 2:
        w.reopen()
        w.check()
    w.delete(n, k, True)
    w.check()
    w.reopen()
    w.check()
    w.c.reset()

def foreign():
    """directories the client did not make are left alone and do not keep it from opening"""
    w = World()
    w.create('a', 'c'); w.fill('a')
    d = w.url + '/' + ['other', 'b'][choose(2, 'name')]
    os.makedirs(d)
    form = choose(5, 'form')
    if form:
        open(d + '/' + ('schema.json' if form > 1 else 'data.bin'), 'w').write(['', 'xx', '{"type": "something"}', '{}', '[]'][form])
    w.reopen()
    w.check()
    w.reset(choose(2, 'on disk') == 1)
    w.check()
    require(os.path.isdir(d), 'foreign-removed', f'{d} is gone')
    w.reopen()
    w.check()
    w.c.reset()

C1 = [lambda w: w.create('a', 'c'), lambda w: w.fill('a')]
I1 = [lambda w: w.create('a', 'i'), lambda w: w.fill('a'), lambda w: w.save('a', 'i')]
ex = Explorer('P19', 'model_checking', 'namespace operation sequences over the real Client', [])
ex.scenario('get-or-create', get_or_create)
ex.scenario('no-directory', no_directory)
ex.scenario('hostile-names', hostile)
ex.scenario('foreign-directories', foreign)
ex.scenario('one-name-4', sequences(4, 'a', []))
ex.scenario('collection-then-3', sequences(3, 'a', C1))
ex.scenario('index-then-3', sequences(3, 'a', I1))
ex.scenario('two-names-2', sequences(2, 'ab', C1 + [lambda w: w.create('b', 'i'), lambda w: w.fill('b'), lambda w: w.save('b', 'i')]))
ex.scenario('collection-then-4', sequences(4, 'a', C1), thorough=True)
ex.scenario('index-then-4', sequences(4, 'a', I1), thorough=True)
ex.scenario('two-names-3', sequences(3, 'ab', C1), thorough=True)
if __name__ == '__main__':
    sys.exit(ex.main())
