from machines2 import *
from pcollections import holdlazy, unlazy
import domain as D
import hugemore

SIZES = (0, 1, 2, 3, 4, 5, 7, 3, 9, 2, 17, 33, 40, 4, 6, 8)


class World:
    def __init__(self, h, rec):
        self.u = h & 3
        self.rec = rec
        self.thunks = []        # (Thunk, lazy)
        self.of = {}            # id(lazy) -> Thunk
        self.pool = []          # [fam name, object, model of raw elements]
        self.cur = 0
        self.allowed = ()
        self.reads = 0

    def raw(self, b):
        """A raw element: a new lazy object, a lazy object used elsewhere, or a plain value."""
        k = b & 7
        if k == 0:
            return D.val(self.u, b >> 3)
        if k == 1 and self.thunks:
            return self.thunks[(b >> 3) % len(self.thunks)][1]
        th = Thunk(D.val(2, (b * 7) & 255))
        z = lazy(th)
        self.thunks.append((th, z))
        self.of[id(z)] = th
        return z

    def raws(self, b, n):
        return [self.raw((b + 37 * i) & 255) for i in range(n)]

    def pairs(self, b, n):
        return [(D.hval(self.u, (b * 3 + 5 * i) & 255), r) for i, r in enumerate(self.raws(b, n))]

    def thunk(self, raw):
        return self.of.get(id(raw))

    def allow(self, *raws):
        self.allowed = [self.thunk(r) for r in raws if self.thunk(r)]

    def add(self, name, obj, model, what):
        if type(obj) is not FAM[name].cls:
            fail(f'{what}: result is a {type(obj).__name__}')
        e = [name, obj, model]
        self.structure(e, what)
        if len(self.pool) < 14:
            self.pool.append(e)
            self.cur = len(self.pool) - 1
        else:
            self.pool[self.cur] = e

    def structure(self, e, what):
        """Size and raw elements, looked at without evaluating anything."""
        name, obj, model = e
        n = len(model)
        if len(obj) != n:
            fail(f'{what}: length {len(obj)}, expected {n}')
        if isinstance(obj, (llist, tllist)):
            got = [obj.getlazy(i) for i in range(n)]
        elif isinstance(obj, (ldict, tldict)):
            ks = list(obj)
            if len(ks) != n or not all(a is b or a == b for a, b in zip(ks, model)):
                fail(f'{what}: keys {D.short(ks)}, expected {D.short(list(model))}')
            got = [obj.getlazy(k) for k in model]
        elif isinstance(obj, (plist, tlist)):
            got = list(obj)
        else:
            got = [obj[k] for k in model]
        want = list(model.values()) if isinstance(model, dict) else model
        if not all(a is b for a, b in zip(got, want)):
            fail(f'{what}: raw elements {D.short(got)}, expected {D.short(want)}')

    def value(self, got, raw, what):
        th = self.thunk(raw)
        want = th.value if th else raw
        self.reads += 1
        if got is not want:
            fail(f'{what}: {D.short(got)}, expected {D.short(want)}')


def idx(a, n):
    return D.index(n, a[0], a[1])


# ---- operations: each may set w.allowed; anything else that runs is a violation

SEQ_CONV = {'llist': (('transient', 'tllist', lambda x: x.transient()), ('tllist()', 'tllist', tllist), ('llist()', 'llist', llist),
                      ('as_plist', 'plist', lambda x: x.as_plist()), ('holdlazy', 'plist', holdlazy),
                      ('copy', 'llist', lambda x: x.copy())),
            'tllist': (('persistent', 'llist', lambda x: x.persistent()), ('llist()', 'llist', llist), ('tllist()', 'tllist', tllist),
                       ('copy', 'tllist', lambda x: x.copy())),
            'plist': (('llist()', 'llist', llist), ('tllist()', 'tllist', tllist), ('transient', 'tlist', lambda x: x.transient())),
            'tlist': (('llist()', 'llist', llist), ('tllist()', 'tllist', tllist), ('persistent', 'plist', lambda x: x.persistent()))}
MAP_CONV = {'ldict': (('transient', 'tldict', lambda x: x.transient()), ('tldict()', 'tldict', tldict), ('ldict()', 'ldict', ldict),
                      ('as_pdict', 'pdict', lambda x: x.as_pdict()), ('holdlazy', 'pdict', holdlazy),
                      ('copy', 'ldict', lambda x: x.copy())),
            'tldict': (('persistent', 'ldict', lambda x: x.persistent()), ('ldict()', 'ldict', ldict), ('tldict()', 'tldict', tldict),
                       ('as_tdict', 'tdict', lambda x: x.as_tdict()), ('holdlazy', 'tdict', holdlazy),
                       ('copy', 'tldict', lambda x: x.copy())),
            'pdict': (('ldict()', 'ldict', ldict), ('tldict()', 'tldict', tldict), ('transient', 'tdict', lambda x: x.transient())),
            'tdict': (('ldict()', 'ldict', ldict), ('tldict()', 'tldict', tldict), ('persistent', 'pdict', lambda x: x.persistent()))}


def q_conv(w, e, a):
    cs = (SEQ_CONV if FAM[e[0]].kind == 'seq' else MAP_CONV)[e[0]]
    nm, to, f = cs[a[0] % len(cs)]
    kw = {}
    if nm in ('ldict()', 'tldict()') and a[1] & 3 == 3:
        kw = {KW[(a[2] + i) % len(KW)]: w.raw(a[3] + i) for i in range(1 + a[2] % 2)}
    m = type(e[2])(e[2])
    if kw:
        m.update(kw)
    w.rec.label('conversion')
    w.add(to, f(e[1], **kw) if kw else f(e[1]), m, f'{nm} of a {e[0]}' + (' with keywords' if kw else ''))


def q_new(w, e, a):
    n = SIZES[a[1] & 15]
    nm = ('llist', 'tllist', 'ldict', 'tldict')[a[0] & 3]
    form = a[2] % 6
    if a[0] & 2:
        ps = w.pairs(a[3], n)
        m = dict(ps)
        arg = (dict(ps), ps, iter(ps), pdict(ps), D.ReIter(ps), tdict(ps))[form]
    else:
        m = w.raws(a[3], n)
        arg = (list(m), tuple(m), iter(m), plist(m), D.ReIter(m), tlist(m))[form]
    w.add(nm, FAM[nm].cls(arg), m, f'{nm}({type(arg).__name__} of {n})')


def q_look(w, e, a):
    """Measuring, printing, asking."""
    name, x, m = e
    k = a[0] % 8
    if k == 0:
        str(x), repr(x)
        w.rec.label('printed')
    elif k == 1:
        bool(x), len(x)
        if hasattr(x, 'keys'):
            len(x.items()), len(x.values()), len(x.keys()), bool(x.items())
    elif k == 2 and hasattr(x, 'is_lazy'):
        keys = list(m) if isinstance(m, dict) else [i for i in range(-len(m), len(m))]
        for i in keys:
            r = m[i]
            th = w.thunk(r)
            if x.is_lazy(i) is not isinstance(r, lazy):
                fail(f'{name}.is_lazy({D.short(i)}) is {x.is_lazy(i)}')
            if x.is_ready(i) is not (th is None or th.runs > 0):
                fail(f'{name}.is_ready({D.short(i)}) is {x.is_ready(i)}')
    elif k == 3 and isinstance(m, dict):
        list(x), list(x.keys()), list(reversed(x)), list(reversed(x.keys()))
        w.rec.label('key iteration')
        for b in range(0, 256, 31):
            if (D.hval(w.u, b) in x) is not (D.hval(w.u, b) in m) or (D.hval(w.u, b) in x.keys()) is not (D.hval(w.u, b) in m):
                fail(f'{D.short(D.hval(w.u, b))} in {name} is wrong')
    elif k == 4 and isinstance(m, dict):
        x.keys() & {1}, x.keys() == set(m), x.keys().isdisjoint([5])
        if x.get(SENT, SENT) is not SENT:
            fail('get of an absent key')
    elif k == 5:
        if isinstance(m, dict):
            for k in m:
                x.getlazy(k) if hasattr(x, 'getlazy') else x[k]
        elif hasattr(x, 'getlazy'):
            for i in range(len(m)):
                if x.getlazy(i - len(m)) is not m[i]:
                    fail(f'{name}.getlazy({i - len(m)}) is wrong')
    elif k == 6:
        if FAM[name].lazy:
            iter(x)
            if isinstance(m, dict):
                iter(x.items()), iter(x.values()), x.items(), x.values()
            else:
                reversed(x)
    else:
        for th, z in w.thunks:
            if z.is_ready() is not (th.runs > 0):
                fail(f'is_ready() is {z.is_ready()}, {th.runs} runs')
            repr(z), str(z)


def q_read(w, e, a):
    """Reads one element: at most that one is evaluated."""
    name, x, m = e
    if not FAM[name].lazy or not m:
        return
    w.rec.label('read')
    if isinstance(m, dict):
        ks = list(m)
        k = ks[a[0] % len(ks)]
        w.allow(m[k])
        g = x[k] if a[1] & 1 else x.get(k) if a[1] & 2 else x.get(k, 5)
        w.value(g, m[k], f'{name}[{D.short(k)}]')
    else:
        i = idx(a, len(m))
        if -len(m) <= i < len(m):
            w.allow(m[i])
            w.value(x[i], m[i], f'{name}[{i}]')


def q_steps(w, e, a):
    """Iterates over a few elements: at most those are evaluated."""
    name, x, m = e
    if not FAM[name].lazy or not m:
        return
    n = 1 + a[0] % min(len(m), 4)
    w.rec.label('partial iteration')
    if isinstance(m, dict):
        its = list(m.items())
        if a[1] & 1:
            it = iter(x.items())
        else:
            it = iter(x.values())
        w.allow(*[v for k, v in its[:n]])
        for i in range(n):
            g = next(it)
            if a[1] & 1:
                g = g[1]
            w.value(g, its[i][1], f'value {i} of {name} {"items()" if a[1] & 1 else "values()"}')
    else:
        rev = a[1] & 1
        mm = m[::-1] if rev else m
        it = reversed(x) if rev else iter(x)
        w.allow(*mm[:n])
        for i in range(n):
            w.value(next(it), mm[i], f'element {i} of {"reversed " * rev}{name}')


def q_readyall(w, e, a):
    name, x, m = e
    if not hasattr(x, 'ready_all'):
        return
    rs = list(m.values()) if isinstance(m, dict) else m
    w.allow(*rs)
    if x.ready_all() is not x:
        fail(f'{name}.ready_all() returned another object')
    w.rec.label('ready_all')
    for r in rs:
        th = w.thunk(r)
        if th and th.runs != 1:
            fail(f'a lazy element of the {name} has run {th.runs} times after ready_all()')


def q_edit_seq(w, e, a):
    name, x, m = e
    n = len(m)
    p = FAM[name].persistent
    k = a[2] % 9
    i = idx(a, n)
    m2 = list(m)
    r = w.raw(a[3])
    if k == 0:                                          # set
        if not -n <= i < n:
            return
        m2[i] = r
        what, f = f'set({i})', (lambda: x.set(i, r)) if p else (lambda: x.__setitem__(i, r))
    elif k == 1:
        m2.append(r)
        what, f = 'append', lambda: x.append(r)
    elif k == 2:
        m2.insert(0, r)
        what, f = 'prepend', lambda: x.prepend(r)
    elif k in (3, 4):
        m2.insert(i, r)
        what, f = f'insert({i})', lambda: x.insert(i, r)
    elif k == 5:                                        # delete
        if not -n <= i < n:
            return
        del m2[i]
        what, f = f'delete({i})', (lambda: x.delete(i)) if p else (lambda: x.__delitem__(i))
    elif k == 6:
        if p:
            if -n <= i < n:
                del m2[i]
            what, f = f'drop({i})', lambda: x.drop(i)
        else:
            rs = w.raws(a[4], several(a[4]))
            m2 += rs
            what, f = 'extend(list)', lambda: x.extend(rs)
    elif k == 7 and p:
        rs = w.raws(a[4], several(a[4]))
        if a[5] & 1:
            m2 += rs
            what, f = '+ list', (lambda: x + rs) if a[5] & 2 else (lambda: x.extend(rs))
        else:
            m2[:0] = rs
            what, f = 'list +', lambda: rs + x
    else:
        if a[5] & 7:
            return
        m2 = []
        what, f = 'clear', x.clear
    got = f()
    w.rec.label('edit')
    w.edits = getattr(w, 'edits', 0) + 1
    if p:
        w.add(name, got, m2, f'{name} {what}')
    else:
        m[:] = m2
        w.structure(e, f'{name} {what}')


def q_pop_seq(w, e, a):
    name, x, m = e
    n = len(m)
    if not n:
        return
    i = idx(a, n)
    args = (i,)
    if a[2] & 3 == 0 or not -n <= i < n:
        args, i = (), -1
    w.allow(m[i])
    w.rec.label('pop')
    m2 = list(m)
    r = m2.pop(i)
    got = x.pop(*args)
    if FAM[name].persistent:
        w.value(got[0] if FAM[name].lazy else unlazy(got[0]), r, f'{name}.pop({i})')
        w.add(name, got[1], m2, f'{name}.pop({i})')
    else:
        w.value(got if FAM[name].lazy else unlazy(got), r, f'{name}.pop({i})')
        m[:] = m2
        w.structure(e, f'{name}.pop({i})')


def q_slice(w, e, a):
    name, x, m = e
    n = len(m)
    sl = slice(D.bound(n, a[0], a[1]), D.bound(n, a[2], a[3]), D.step(a[4]))
    w.rec.label('slice')
    w.add(name, x[sl], m[sl], f'{name}[{sl}]')


def several(b):
    return 1 + b % 3 if b < 224 else (4, 5, 8, 9, 10, 16, 17, 33)[b & 7]


def q_edit_map(w, e, a):
    name, x, m = e
    p = FAM[name].persistent
    ks = list(m)
    key = ks[a[1] % len(ks)] if a[0] & 1 and ks else D.hval(w.u, a[1])
    m2 = dict(m)
    r = w.raw(a[3])
    k = a[2] % 9
    if k in (0, 1):
        m2[key] = r
        what, f = 'set', (lambda: x.set(key, r)) if p else (lambda: x.__setitem__(key, r))
    elif k == 2:
        if key not in m:
            return
        del m2[key]
        what, f = 'delete', (lambda: x.delete(key)) if p else (lambda: x.__delitem__(key))
    elif k == 3:
        if p:
            m2.pop(key, None)
            what, f = 'drop', lambda: x.drop(key)
        else:
            return
    elif k == 4:
        ps = w.pairs(a[4], several(a[4]))
        m2.update(ps)
        arg = (dict(ps), ps, pdict(ps), iter(ps))[a[5] & 3]
        what, f = 'update', lambda: x.update(arg)
    elif k == 5 and p:
        ps = w.pairs(a[4], several(a[4]))
        m2.update(ps)
        what, f = 'setall', lambda: x.setall([k for k, v in ps], [v for k, v in ps])
    elif k == 6 and p:
        dk = ks[: 1 + a[4] % len(ks)] if ks else []
        for d in dk:
            del m2[d]
        what, f = ('dropall', lambda: x.dropall(dk)) if a[5] & 1 else ('deleteall', lambda: x.deleteall(dk))
    elif k == 7 and p:
        if key in m:
            w.allow(m[key])
        m2.setdefault(key, r)
        what, f = 'setdefault', lambda: x.setdefault(key, r)
    else:
        if a[5] & 7:
            return
        m2 = {}
        what, f = 'clear', x.clear
    got = f()
    w.rec.label('edit')
    w.edits = getattr(w, 'edits', 0) + 1
    if p:
        w.add(name, got, m2, f'{name} {what}')
    else:
        m.clear()
        m.update(m2)
        w.structure(e, f'{name} {what}')


def q_pop_map(w, e, a):
    name, x, m = e
    p = FAM[name].persistent
    ks = list(m)
    w.rec.label('pop')
    if a[0] & 3 == 0 and ks and FAM[name].lazy:
        # popitem: at most the removed pair is evaluated
        before = {k: (w.thunk(v).runs if w.thunk(v) else 0) for k, v in m.items()}
        w.allow(*m.values())
        got = x.popitem()
        kv = got[0] if p else got
        if kv[0] not in m:
            fail(f'{name}.popitem() returned {D.short(got)}')
        w.value(kv[1], m[kv[0]], f'{name}.popitem()')
        w.allow(m[kv[0]])
        m2 = dict(m)
        del m2[kv[0]]
    else:
        key = ks[a[1] % len(ks)] if a[0] & 7 != 5 and ks else D.hval(w.u, a[1])
        d = SENT if a[2] & 1 or key not in m else None
        args = () if d is None else (d,)
        m2 = dict(m)
        r = m2.pop(key, SENT)
        if r is not SENT:
            w.allow(r)
        got = x.pop(key, *args)
        v = got[0] if p else got
        w.value(v if FAM[name].lazy else unlazy(v), r, f'{name}.pop({D.short(key)})')
    if p:
        w.add(name, got[1], m2, f'{name} pop')
    else:
        m.clear()
        m.update(m2)
        w.structure(e, f'{name} pop')


def q_goto(w, e, a):
    w.cur = a[0] % len(w.pool)


SEQ = dict(conv=(q_conv, 34), new=(q_new, 6), look=(q_look, 34), read=(q_read, 22), steps=(q_steps, 12), readyall=(q_readyall, 6),
           edit=(q_edit_seq, 50), pop=(q_pop_seq, 20), slice=(q_slice, 14), goto=(q_goto, 30))
MAP = dict(conv=(q_conv, 34), new=(q_new, 6), look=(q_look, 34), read=(q_read, 22), steps=(q_steps, 12), readyall=(q_readyall, 6),
           edit=(q_edit_map, 50), pop=(q_pop_map, 24), goto=(q_goto, 30))
TABLE = {'seq': (SEQ, table(SEQ)), 'map': (MAP, table(MAP))}


def run(case, rec):
    h, ops = case['head'], case['ops']
    w = World(h[0], rec)
    runs = []

    def settle(what):
        for i, (th, z) in enumerate(w.thunks):
            old = runs[i] if i < len(runs) else 0
            if th.runs > 1:
                fail(f'{what}: a lazy function ran {th.runs} times')
            if th.runs != old and not any(th is t for t in w.allowed):
                fail(f'{what}: evaluated a lazy value that was not requested')
            if z.is_ready() is not (th.runs > 0):
                fail(f'{what}: is_ready() is {z.is_ready()} after {th.runs} runs')
        runs[:] = [th.runs for th, z in w.thunks]
        w.allowed = ()
    q_new(w, None, h[1:])
    settle('construction')
    for r in ops:
        e = w.pool[w.cur]
        t, tab = TABLE[FAM[e[0]].kind]
        nm = tab[r[0] - 1]
        t[nm][0](w, e, r[1:])
        settle(f'{nm} ({r[1:]}) on a {e[0]}')
    for i, e in enumerate(w.pool):
        w.structure(e, f'at the end, object {i} ({e[0]})')
    settle('at the end')
    if len(w.thunks) >= 2 and len(ops) >= 3 and any(th.runs == 0 for th, z in w.thunks):
        rec.nontrivial()
    # every collection now returns the shared results, evaluating each at most once
    for name, x, m in w.pool:
        w.allow(*(m.values() if isinstance(m, dict) else m))
        if FAM[name].lazy:
            for k in (m if isinstance(m, dict) else range(len(m))):
                w.value(x[k], m[k], f'at the end, {name}[{D.short(k)}]')
        settle('reading everything at the end')


def decode(d):
    head, recs = core.records(d)
    return dict(head=tuple(head), ops=[tuple(r) for r in recs])


PROP = core.Prop('C17', [core.Part('laziness', decode, run, quick=3500),
                         hugemore.huge_part('laziness', hugemore.lazy_case, 30)],
                 rule='A case is a pool of lazy lists and dicts (persistent and transient, and their held plist/pdict forms) sharing '
                      'lazy objects whose runs are counted, and a program of constructions, conversions, edits, slices, prints, '
                      'queries, single reads, pops, partial iterations and ready_all; after every operation only the runs it may '
                      'cause have happened; non-trivial: two lazy objects, three operations and some lazy left unevaluated.  huge laziness: one structural operation on 1,025 to 12,289 elements, some lazy.',
                 assumptions=['copying means the copy() method (copy.copy and pickle evaluate)',
                              'operations that look at all values (comparisons, hashing, sort, reverse, value searches, +, * and '
                              'update with a lazy operand) are not listed and may evaluate'])
