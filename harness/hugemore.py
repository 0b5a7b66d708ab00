"""Iteration, laziness and release in collections of thousands of elements."""
import gc, weakref
from hugepair import *
from pcollections import lazy


# ------------------------------------------------------------------ C22

def iter_case(c, a):
    """A dict of thousands is changed (or not) while it is iterated; an iterator over any other value goes on."""
    kind = ('map', 'map', 'seq', 'set')[a[0] >> 5 & 3]
    m = big(c, kind, a)
    lazies = a[5] & 1
    if kind == 'map':
        fam = FAM[('tdict', 'tdict', 'tldict', 'pdict')[a[5] >> 1 & 3]]
    else:
        fam = FAM[dict(seq=('plist', 'llist'), set=('pset', 'pset'))[kind][lazies]]
    x = big_build(c, fam, m, (a[6] & 7, a[4], a[2]))
    how = a[3] & 3 if kind == 'map' else 0
    back = a[3] & 4 and kind != 'set'
    src = x if how == 3 or kind != 'map' else (x.keys, x.items, x.values)[how]()
    it = reversed(src) if back else iter(src)
    want = list(m.values() if how == 2 and kind == 'map' else m.items() if how == 1 and kind == 'map' else m)
    if kind == 'set':
        want = list(x)
    if back:
        want.reverse()
    n = len(want)
    k = max(1, place(n, a[1]))
    what = f'{fam.name} of {n}, {"reversed " if back else ""}iteration {how}'
    got = [next(it) for _ in range(k)]
    change = a[4] >> 4
    ks = list(m)
    expect = False
    if fam.persistent:
        t = x.transient()
        if kind == 'map':
            del t[ks[0]]
            t['new one'] = 1
        elif kind == 'set':
            t.discard(ks[-1])
            t.add('new one')
        else:
            t.pop()
            t[0] = 'new one'
            t.prepend(1)
    else:
        p = ks[place(n, a[4])]
        expect = change < 9
        if change < 3:
            x['new one'] = 1
        elif change < 6:
            del x[p]
        elif change == 6:
            x.pop(p)
        elif change == 7:
            x.update([('new one', 1), (p, 3)])
        elif change == 8:
            x.clear()
        elif change == 9:
            x.setdefault(p, 3)
        elif change == 10:
            x.pop('new one', None)
        elif change == 11:
            x.persistent(), x.copy()
        else:                                   # (the value is another object, but an equal one)
            x[p] = m[p]
    try:
        if expect:
            got = next(it, 'the end')
            fail(f'{what}: {D.short(got)} after step {k} although keys were added or removed')
        got += it
    except RuntimeError as e:
        if not expect:
            fail(f'{what}: {e!r} after step {k} although no key was added or removed')
        c.rec.label('huge change detected')
        got = None
    if not expect and (len(got) != n or not all(g is w or g == w for g, w in zip(got, want))):
        fail(f'{what}: {len(got)} items, or others than expected')
    c.rec.label('huge iteration of a ' + fam.name)
    c.rec.nontrivial()


# ------------------------------------------------------------------ C17

class Count:
    __slots__ = ('v', 'n')

    def __init__(self, v):
        self.v, self.n = v, 0

    def __call__(self):
        self.n += 1
        return self.v


def lazy_case(c, a):
    """Structural operations on thousands of elements evaluate none of the lazy ones; reading evaluates what is read."""
    n = SIZES[a[0] & 15]
    step = (1, 3, 37, 500)[a[1] & 3]
    fs = {i: Count(i) for i in range(a[2] % step, n, step)}
    raws = [lazy(fs[i]) if i in fs else i for i in range(n)]
    runs = lambda: [i for i, f in fs.items() if f.n]
    i, j = sorted((place(n, a[3]), place(n, a[4])))
    if a[5] & 1:
        fam = FAM[('llist', 'tllist')[a[5] >> 1 & 1]]
        x = fam.make(raws)
        if a[5] & 4:
            x = FAM[fam.trans or fam.pers].make(x)
        tr = isinstance(x, tlist)
        y = (x.copy() if tr else x)
        nm, f, m = [('slice', lambda: y[i:j + 1], raws[i:j + 1]),
                    ('reverse slice', lambda: y[::-1], raws[::-1]),
                    ('insert', lambda: y.insert(i, 7), raws[:i] + [7] + raws[i:]), ('delete', lambda: y.__delitem__(i) if tr else y.delete(i), raws[:i] + raws[i + 1:]),
                    ('set', lambda: y.__setitem__(i, 7) if tr else y.set(i, 7), raws[:i] + [7] + raws[i + 1:]), ('prepend', lambda: y.prepend(7), [7] + raws),
                    ('append', lambda: y.append(7), raws + [7]), ('clear', lambda: y.clear(), []), ('copy', lambda: y.copy(), raws),
                    ('transient', lambda: y.persistent() if tr else y.transient(), raws)][a[6] % 10]
        r = f()
        r = y if r is None else r
        raw = [r.getlazy(q) for q in range(len(r))]
        wanted, read = i, lambda: x[i]
    else:
        fam = FAM[('ldict', 'tldict')[a[5] >> 1 & 1]]
        x = fam.make(enumerate(raws))
        if a[5] & 4:
            x = FAM[fam.trans or fam.pers].make(x)
        tr = isinstance(x, tdict)
        y = x.copy() if tr else x
        d = dict(enumerate(raws))
        gone = list(range(i, j + 1))

        def drop():
            z = y
            for q in gone:
                if tr:
                    del z[q]
                else:
                    z = z.drop(q)
            return z
        nm, f, m = [('drop', drop, {q: v for q, v in d.items() if not i <= q <= j}), ('clear', lambda: y.clear(), {}), ('copy', lambda: y.copy(), d),
                    ('transient', lambda: y.persistent() if tr else y.transient(), d), ('keys', lambda: (list(y.keys()), -1 in y, list(reversed(y)), None)[3], d),
                    ('set', lambda: y.__setitem__(i, 7) if tr else y.set(i, 7), {**d, i: 7})][a[6] % 6]
        r = f()
        r = y if r is None else r
        raw, m = [r.getlazy(q) for q in r], list(m.values())
        wanted, read = i, lambda: x[i]
    what = f'{type(x).__name__} of {n}, {nm}'
    if runs():
        fail(f'{what}: evaluated {D.short(runs())}')
    if len(raw) != len(m) or not all(p is q for p, q in zip(raw, m)):
        fail(f'{what}: other elements than expected')
    if read() != wanted or runs() != [wanted] * (wanted in fs):
        fail(f'{what}, then reading {wanted}: evaluated {D.short(runs())}')
    c.rec.label('huge lazy ' + nm)
    c.rec.nontrivial()


# ------------------------------------------------------------------ C25

class Item:
    __slots__ = ('i', '__weakref__')

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f'I{self.i}'


def release_case(c, a):
    """Of thousands of elements, those that the only collection left does not contain are gone."""
    n = SIZES[a[0] & 15] % 5200 + 100
    kind = kind_of(a[1] >> 4)
    fam = FAM[KIND_FAMS[kind][a[5] % len(KIND_FAMS[kind])]]
    items = [Item(i) for i in range(n)]
    refs = [weakref.ref(x) for x in items]
    i, j = sorted((place(n, a[3]), place(n, a[4])))
    tr = not fam.persistent
    src = list(enumerate(items)) if kind == 'map' and a[6] & 8 else [(x, k) for k, x in enumerate(items)] if kind == 'map' else items
    keys = [k for k, _ in src] if kind == 'map' else items
    x = fam.make(src)
    if a[1] & 1:
        x = FAM[fam.trans or fam.pers].make(x)
        tr = not tr
    if a[2] & 1:
        attempt(hash, x)
    how = a[6] & 3
    keep = set(range(n))
    if kind == 'seq':
        if how == 0:
            x, keep = x[i:j + 1], set(range(i, j + 1))
        elif how == 1:
            for _ in range(60):
                if tr:
                    x.pop()
                    del x[0]
                else:
                    x = x.delete().delete(0)
            keep = set(range(60, n - 60))
        elif how == 2:
            x = [x.__setitem__(i, 0), x][1] if tr else x.set(i, 0)
            keep.discard(i)
        else:
            x = [x.__delitem__(i), x][1] if tr else x.delete(i)
            keep.discard(i)
    else:
        gone = list(range(i, j + 1)) if how else [i]
        keep -= set(gone)
        if kind == 'set' and how == 1:
            x = x - set(items[k] for k in gone)
        elif kind == 'set' and how == 2:
            x = x & set(items[k] for k in keep)
        elif how == 3 and not tr:
            x = x.discardall([items[k] for k in gone]) if kind == 'set' else x.dropall([keys[k] for k in gone])
        else:
            for k in gone:
                if kind == 'set':
                    x = [x.discard(items[k]), x][1] if tr else x.discard(items[k])
                else:
                    x = [x.__delitem__(keys[k]), x][1] if tr else x.drop(keys[k])
    if a[2] & 2:
        x = x.persistent() if tr else x.transient()
        if a[2] & 4:                            # ... which is changed once, so that it is on its own
            if isinstance(x, tlist):
                x.append(0)
            elif isinstance(x, tset):
                x.add(0)
            elif isinstance(x, tdict):
                x['z'] = 0
    del items, src, keys
    c.thunks.clear()
    k = y = None
    gc.collect()
    alive = {k for k, r in enumerate(refs) if r() is not None}
    what = f'{fam.name} of {n} {kind} {how}, {i} to {j}'
    if alive != keep:
        fail(f'{what}: still alive but not contained {D.short(sorted(alive - keep))}; missing {D.short(sorted(keep - alive))}')
    x = None
    gc.collect()
    if any(r() is not None for r in refs):
        fail(f'{what}: elements are alive after the collection')
    c.rec.label('huge release ' + fam.name)
    c.rec.nontrivial()
