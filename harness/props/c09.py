from machines2 import *
import types
from pcollections import holdlazy, unlazy

TABS = {k: table(t) for k, t in EDITS.items()}
FAMS = [FAM[n] for n in ('plist', 'pset', 'pdict', 'llist', 'ldict', 'tlist', 'tset', 'tdict', 'tllist', 'tldict')]


def state(c):
    return c.__dict__.setdefault('st', types.SimpleNamespace(hashes={}, iters=[]))


def o_edit(c, s, a):
    k = (s.fam.kind, s.fam.persistent)
    nm = TABS[k][a[0] % 255]
    EDITS[k][nm][0](c, s, a[1:] + (a[0],))
    if s.fam.persistent:
        c.rec.label('persistent edit')
    else:
        c.rec.label('transient edit')


def o_new(c, s, a):
    f = FAMS[a[0] % len(FAMS)]
    NEW[f.kind](c, f, (a[1] % 160, a[2] & 254 if a[2] & 8 else a[2]) + a[3:] + (a[0],))


def copy_model(m):
    return type(m)(m)


def seen_as(t, f, m):
    """The model of an object of family f once it has become one of family t."""
    if t.lazy and not f.lazy and t.kind != 'set':       # raw lazy objects of a held form come alive again
        return [unlazy(x) for x in m] if t.kind == 'seq' else {k: unlazy(v) for k, v in m.items()}
    return copy_model(m)


def o_link(c, s, a):
    """A linked object: transient of a persistent, persistent of a transient, a copy, a converted one."""
    f, r, m = s.fam, s.real, s.model
    how = a[0] % 4
    if how == 0:
        if f.persistent:
            c.add(FAM[f.trans], r.transient(), copy_model(m), f'{f.name}.transient()')
        else:
            c.add(FAM[f.pers], r.persistent(), copy_model(m), f'{f.name}.persistent()')
    elif how == 1:
        t = FAM[f.trans or f.pers]
        c.add(t, t.make(r), seen_as(t, f, m), f'{t.name}({f.name})')
    elif how == 2:
        x = r.copy()
        if f.persistent and x is not r:
            fail(f'{f.name}.copy() made a new object')
        c.add(f, x, copy_model(m), f'{f.name}.copy()')
    else:
        # another type of the same kind
        c2 = [g for g in FAMS if g.kind == f.kind]
        t = c2[a[1] % len(c2)]
        if f.kind == 'map' and a[2] & 1:
            # ... with keywords, for keys that are there or not
            names = [k for k in m if type(k) is str] + ['kw']
            kw = {names[(a[3] + i) % len(names)]: SENT if a[4] & 1 else i for i in range(a[2] >> 1 & 1, 2)}
            c.add(t, t.make(r, **kw), {**seen_as(t, f, m), **kw}, f'{t.name}({f.name}, **{kw})')
            c.rec.label('linked with keywords')
        else:
            c.add(t, t.make(r), seen_as(t, f, m), f'{t.name}({f.name})')
    c.rec.label('linked objects')


def o_held(c, s, a):
    """The held forms of lazy collections: independent objects with the raw elements."""
    f, r = s.fam, s.real
    if not f.lazy or f.name == 'tllist':
        return
    h = holdlazy(r) if a[0] & 1 else (r.as_plist() if f.kind == 'seq' else r.as_pdict() if f.persistent else r.as_tdict())
    g = FAM[{'llist': 'plist', 'ldict': 'pdict', 'tldict': 'tdict'}[f.name]]
    c.add(g, h, list(h) if g.kind == 'seq' else dict(h.items()), f'held {f.name}')
    c.rec.label('held')


def o_attack(c, s, a):
    """Assignment and deletion of attributes and items of a persistent object raise TypeError."""
    if not s.fam.persistent:
        return
    r = s.real
    names = ['foo', 'empty', 'transient', '__dict__']
    for k in type(r).__mro__:
        sl = k.__dict__.get('__slots__', ())
        names += [sl] if isinstance(sl, str) else list(sl)
    nm = names[a[0] % len(names)]
    key = 0 if s.fam.kind != 'map' else (next(iter(s.model)) if s.model else 0)
    def _set():
        r[key] = 1
    def _del():
        del r[key]
    for what, f in ((f'.{nm} = 0', lambda: setattr(r, nm, 0)), (f'del .{nm}', lambda: delattr(r, nm)), ('[k] = 1', _set), ('del [k]', _del)):
        g = attempt(f)
        if g[0] == 'ok' or not isinstance(g[1], TypeError):
            fail(f'{s.fam.name} {what}: {g[1]!r}, expected TypeError')
    c.rec.label('immutability attacked')


def o_spoil(c, s, a):
    """Changes native containers that were passed to the library."""
    for (o, k) in c.args:
        if isinstance(o, list):
            o.append(SENT) if a[0] & 1 else o.clear()
        elif isinstance(o, dict):
            o[SENT] = 1
        c.rec.label('native argument changed afterwards')
    c.args = []


def o_hash(c, s, a):
    if s.fam.persistent:
        h = attempt(hash, s.real)
        st = state(c).hashes
        if id(s) in st:
            if st[id(s)][1] != h[1] and h[0] == 'ok':
                fail(f'hash of a {s.fam.name} changed')
        elif h[0] == 'ok':
            st[id(s)] = (s.real, h[1], s)       # (s is kept so that its id stays taken)


def o_iter(c, s, a):
    """Starts iterators over a persistent object; they are finished at the end."""
    if not s.fam.persistent or len(state(c).iters) > 8:
        return
    f, r = s.fam, s.real
    its = [(iter(r), list(r), D.eqv)]
    if f.kind == 'seq':
        its.append((reversed(r), list(s.model)[::-1], D.same))
    if f.kind == 'map':
        its.append((iter(r.values()), list(s.model.values()), D.same))
        its.append((iter(r.keys()), list(s.model), D.eqv))
    for (it, want, eq) in its:
        k = a[0] % (len(want) + 1)
        got = [next(it) for _ in range(k)]
        state(c).iters.append((it, got, want, eq, f.name))


def observed(f, r, m):
    return type(m)(r.items() if f.kind == 'map' else r)


MIX = {('seq', 1): (lambda r, x: r.extend(x), lambda r, x: r + x, lambda r, x: x + r),
       ('seq', 0): (lambda r, x: r.extend(x), lambda r, x: r.__iadd__(x), lambda r, x: r.__setitem__(slice(1, 1), x), lambda r, x: r + x),
       ('set', 1): (lambda r, x: r.addall(x), lambda r, x: r.union(x), lambda r, x: r | x, lambda r, x: x | r, lambda r, x: r & x,
                    lambda r, x: r - x, lambda r, x: r ^ x, lambda r, x: r.difference(x), lambda r, x: r.symmetric_difference(x)),
       ('set', 0): (lambda r, x: r.addall(x), lambda r, x: r.update(x), lambda r, x: r.__ior__(x), lambda r, x: x | r, lambda r, x: r & x,
                    lambda r, x: r.__isub__(x), lambda r, x: r.__ixor__(x), lambda r, x: r.difference(x), lambda r, x: r.union(x)),
       ('map', 1): (lambda r, x: r.update(x), lambda r, x: r.update(x, kw=1), lambda r, x: x | r),
       ('map', 0): (lambda r, x: r.update(x), lambda r, x: x | r)}


def o_mix(c, s, a):
    """An operation between two objects of the pool: only the receiver of a mutation may change.  (What the operation gives
    is the concern of other properties: the result enters the pool as it is.)"""
    q = c.pool[a[0] % len(c.pool)]
    if q is s:
        return
    f, g, r, x = s.fam, q.fam, s.real, q.real
    if a[1] & 3 == 0:
        # with an empty object of the type of s, for which an operation may take over its argument
        r = f.cls()
        s = c.add(f, r, type(s.model)(), 'an empty object')
    ops = MIX[f.kind, int(f.persistent)]
    y = x.items() if g.kind == 'map' and a[2] & 8 else x
    res = attempt(ops[a[2] % 8 % len(ops)], r, y)
    c.edits += 1
    if not f.persistent:
        s.model = observed(f, r, s.model)
    if res[0] == 'ok':
        v = res[1]
        for h in FAMS:
            if type(v) is h.cls and all(v is not o.real for o in c.pool):
                c.add(h, v, observed(h, v, {'seq': [], 'set': set(), 'map': {}}[h.kind]), f'an operation of {f.name} and {g.name}')
        c.rec.label('an object of the pool as the argument')


OPS9 = dict(edit=(o_edit, 60), new=(o_new, 5), link=(o_link, 24), held=(o_held, 6), attack=(o_attack, 3), spoil=(o_spoil, 5),
            hash=(o_hash, 6), iter=(o_iter, 4), mix=(o_mix, 14), goto=(goto, 22))
TAB = table(OPS9)
HTAB = table(dict(edit=(o_edit, 50), bulk=(h_bulk, 20), link=(o_link, 50), held=(o_held, 10), spoil=(o_spoil, 3), hash=(o_hash, 4), mix=(o_mix, 24), goto=(goto, 20)))


def run(case, rec, new=None):
    h = case['head']
    c = Ctx(h[0], rec, maxpool=6 if new else 14)
    f = FAMS[h[7] % len(FAMS)]
    if new:
        new(c, f, h[1:])
    else:
        NEW[f.kind](c, f, (h[1] % 160,) + h[2:])
    for op in case['ops']:
        s = c.slot()
        OPS9.get(op[0], (h_bulk,))[0](c, s, op[1:])
        for i, x in enumerate(c.pool):
            check_slot(x, f'object {i} ({x.fam.name}) after {op[0]} on a {s.fam.name}')
        c.check_args(f'{op[0]} on a {s.fam.name}')
    for (x, h0, _) in state(c).hashes.values():
        if hash(x) != h0:
            fail(f'hash of a {type(x).__name__} changed')
    for (it, got, want, eq, nm) in state(c).iters:
        got += list(it)
        if len(got) != len(want) or not all(eq(x, y) for x, y in zip(got, want)):
            fail(f'an iterator over a {nm} yielded {D.short(got)}, expected {D.short(want)}')
    for q in getattr(c, 'keep', ()):
        check_slot(q, 'a persistent value taken earlier, at the end')
    if c.edits >= 2 and len(c.pool) >= 3 and rec.labels & {'linked objects', 'held'}:
        rec.nontrivial()


PROP = core.Prop('C09', [core.Part('pool', lambda d: program(d, TAB), run, quick=2600, sizes=((2, 10), (8, 24), (20, 50))),
                         core.Part('huge pool', lambda d: program(d, HTAB), lambda case, rec: run(case, rec, huge_new), quick=50,
                                   sizes=((4, 8), (6, 12)))],
                 rule='A case is a pool of up to 14 objects of the ten types, linked by construction, transient(), persistent(), '
                      'copies and held forms, and a program of operations on them; after each operation every object of the '
                      'pool is compared with its model; non-trivial: at least two edits in a pool of three objects with a link.  huge pool: the same from a collection of 2,047 to 33,000 elements.',
                 assumptions=['collections of up to about 100,000 elements, most far smaller'])
