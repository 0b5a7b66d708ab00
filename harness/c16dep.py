"""Lazy collections whose functions use the collection itself: other elements, its text, its length, edits of it."""
from machines2 import *
from pcollections import unlazy, holdlazy
from pcollections._lazy import LazyError


class Broken(Exception):
    pass


class Node:
    """The function of one lazy position: reads the positions it depends on from the collection it is in."""
    __slots__ = ('w', 'i', 'deps', 'how', 'fails', 'starts', 'runs', 'side')

    def __init__(self, w, i, deps, how, fails, side):
        self.w, self.i, self.deps, self.how, self.fails, self.side = w, i, deps, how, fails, side
        self.starts = self.runs = 0

    def __call__(self):
        w = self.w
        self.starts += 1
        if self.side & 1:
            w.look(w.coll, self.side)
        got = tuple(w.read(w.coll, j, self.how + n) for n, j in enumerate(self.deps))
        if self.fails:
            self.fails -= 1
            raise Broken(self.i)
        self.runs += 1
        if self.runs > 1:
            fail(f'the lazy value at {self.i} was computed {self.runs} times')
        return ('v', self.i, got)


class World:
    def __init__(self, fam, h, rec):
        self.fam, self.rec = fam, rec
        n = 2 + h[0] % 9
        self.n = n
        self.seq = fam.kind == 'seq'
        self.keys = list(range(n)) if self.seq else [('k', i) if i & 1 else D.Key(i, i % 3) for i in range(n)]
        self.nodes, raw = {}, []
        # position i may depend on those that come earlier in a permutation
        step = (1, n - 1)[h[1] & 1]
        order = [(i * step + h[1]) % n for i in range(n)]
        rank = {p: r for r, p in enumerate(order)}
        for i in range(n):
            b = (h[2] * (2 * i + 1) + h[3] * (i + 3) + (h[2] >> 3)) & 255
            if b % 4 == 0:
                raw.append(('p', i))
                continue
            deps = [p for p in order[:rank[i]] if (b >> (rank[p] % 5)) & 1][-3:]
            nd = Node(self, i, deps, b >> 2, (b >> 6 == 3) + (b == 255) if h[4] & 1 else 0, (b >> 3) if h[4] & 2 else 0)
            self.nodes[i] = nd
            raw.append(lazy(nd))
        self.raw = raw
        self.coll = fam.cls(raw if self.seq else list(zip(self.keys, raw)))
        self.known = {}                 # positions whose value has been computed

    def value(self, i):
        nd = self.nodes.get(i)
        return ('p', i) if nd is None else ('v', i, tuple(self.value(j) for j in nd.deps))

    def closure(self, i, acc):
        nd = self.nodes.get(i)
        if nd is not None and i not in acc:
            acc.add(i)
            for j in nd.deps:
                self.closure(j, acc)
        return acc

    def read(self, x, i, how):
        """The value at position i of x, asked for in one of several ways."""
        k = self.keys[i]
        how %= 6
        if self.seq:
            return (lambda: x[k], lambda: x[k - len(x)] if len(x) == self.n else x[k], lambda: unlazy(x.getlazy(k)),
                    lambda: x[k:k + 1][0], lambda: next(iter(x[k:])), lambda: x[k])[how]()
        return (lambda: x[k], lambda: x.get(k), lambda: unlazy(x.getlazy(k)), lambda: x.get(k, 3),
                lambda: type(x)([(k, x.getlazy(k))])[k], lambda: x[k])[how]()

    def look(self, x, b):
        """What evaluates nothing."""
        b >>= 1
        (lambda: len(x), lambda: str(x) if self.fam.persistent else None, lambda: x.transient() if self.fam.persistent else x.persistent(), lambda: x.copy(),
         lambda: [x.getlazy(k) for k in self.keys], lambda: list(x) if not self.seq else bool(x))[b % 6]()

    def attempt(self, what, f, wanted, exact=True):
        """f() needs exactly the values at the wanted positions; it is retried as long as functions fail."""
        need = set()
        for i in wanted:
            self.closure(i, need)
        for tries in range(40):
            before = {i: nd.runs for i, nd in self.nodes.items()}
            left = sum(nd.fails for nd in self.nodes.values())
            r = attempt(f)
            for i, nd in self.nodes.items():
                if nd.runs > before[i] and i not in need:
                    fail(f'{what}: computed the value at {i}, which it does not need')
            now = sum(nd.fails for nd in self.nodes.values())
            if r[0] == 'err':
                if not isinstance(r[1], LazyError):
                    fail(f'{what}: {r[1]!r}')
                if now >= left:
                    fail(f'{what}: LazyError though no function failed')
                e, depth = r[1], 0
                while isinstance(e, LazyError) and depth <= self.n:
                    e, depth = e.__context__, depth + 1
                if not isinstance(e, Broken):
                    fail(f'{what}: the contexts of the LazyError end with {e!r}')
                self.rec.label('a function failed')
                if depth > 1:
                    self.rec.label('failed in a function that another one called')
                continue
            if now < left:
                fail(f'{what}: a function failed, but the operation did not')
            for i in need:
                if exact and self.nodes[i].runs != 1:
                    fail(f'{what}: the value at {i} was computed {self.nodes[i].runs} times')
            return r[1]
        fail(f'{what}: fails for ever')


def run_dep(case, rec):
    h = case['head']
    fam = FAM[('llist', 'ldict', 'tllist', 'tldict')[h[7] & 3]]
    w = World(fam, h, rec)
    n = w.n
    pool = [(fam, w.coll)]
    every = range(n)
    vals = [w.value(i) for i in every]
    model = vals if w.seq else dict(zip(w.keys, vals))
    done = 0
    for op in case['ops'][:12]:
        a = op[1:]
        f, x = pool[a[0] % len(pool)]
        i = a[1] % n
        k, v = w.keys[i], vals[i]
        what = f'{f.name} of {n} with functions that use it: '
        nm = op[0]
        if nm == 'read':
            got = w.attempt(f'{what}reading {k!r}', lambda: w.read(x, i, a[2]), [i])
            if got != v:
                fail(f'{what}{k!r} gives {got!r}, expected {v!r}')
        elif nm == 'all':
            g = a[2] % 6
            if w.seq:
                fn = (lambda: list(x), lambda: list(reversed(x))[::-1], lambda: [x[j] for j in range(-n, 0)], lambda: list(x[:]),
                      lambda: sorted(x, key=lambda t: t[1]), lambda: [y for y in x])[g]
            else:
                fn = (lambda: dict(x), lambda: {y: x[y] for y in x}, lambda: dict(x.items()), lambda: dict(zip(x, x.values())),
                      lambda: dict(reversed(list(x.items()))), lambda: {**x})[g]
            got = w.attempt(f'{what}reading all', fn, every)
            if got != model:
                fail(f'{what}reading all ({g}) gives {D.short(got)}, expected {D.short(model)}')
        elif nm == 'eq':
            for g in (w.attempt(f'{what}==', lambda: x == model, every), w.attempt(f'{what}reflected ==', lambda: model == x, every)):
                if g is not True:
                    fail(f'{what}not equal to the computed values')
            if f.persistent:
                e = (plist if w.seq else pdict)(model)
                if w.attempt(f'{what}hash', lambda: hash(x), every) != hash(e):
                    fail(f'{what}hash differs from that of the computed values')
        elif nm == 'has':
            got = w.attempt(f'{what}in', (lambda: v in x) if w.seq else (lambda: v in x.values()), every, exact=False)
            if got is not True:
                fail(f'{what}{v!r} is not found')
        elif nm == 'ready':
            if f.name == 'tllist':
                continue
            got = w.attempt(f'{what}ready_all()', lambda: x.ready_all(), every)
            if got is not x or not all(x.is_ready(y) for y in w.keys):
                fail(f'{what}not ready after ready_all()')
        elif nm == 'pop':
            y = f.make(x) if not f.persistent else x
            got = w.attempt(f'{what}pop({k!r})', lambda: y.pop(k), [i])
            if f.persistent:
                got, y = got
            if got != v or len(y) != n - 1:
                fail(f'{what}pop({k!r}) gives {got!r}, leaves {len(y)}')
            if not w.seq and k in y:
                fail(f'{what}pop({k!r}) leaves the key')
        elif nm == 'derive':
            f2 = FAM[f.trans or f.pers]
            y = (lambda: f2.make(x), lambda: x.transient() if f.persistent else x.persistent(), lambda: x.copy())[a[2] % 3]()
            f2 = f if a[2] % 3 == 2 else f2
            if type(y) is not f2.cls:
                fail(f'{what}{type(y).__name__} instead of {f2.name}')
            if len(pool) < 5:
                pool.append((f2, y))
        elif nm == 'hold':
            if f.name == 'tllist':
                continue
            y = holdlazy(x)
            got = list(y) if w.seq else list(y.values())
            if not all(p is q for p, q in zip(got, w.raw)) or len(got) != n:
                fail(f'{what}holdlazy changes the values')
        done += 1
        rec.label(nm)
    for f, x in pool:
        if (list(x) if w.seq else dict(x)) != model if all(nd.fails == 0 for nd in w.nodes.values()) else False:
            fail(f'{f.name} of {n} with functions that use it: at the end {D.short(x)}')
    if done >= 3 and any(nd.deps for nd in w.nodes.values()):
        rec.nontrivial()


DEP = dict(read=(None, 30), all=(None, 12), eq=(None, 8), has=(None, 8), ready=(None, 8), pop=(None, 14), derive=(None, 20), hold=(None, 6))
