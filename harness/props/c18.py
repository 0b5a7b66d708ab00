from machines2 import *
from pcollections import holdlazy
from pcollections._lazy import LazyError
import domain as D
from fractions import Fraction


class F(D.Fault):
    pass


class FKey(D.Fault, KeyError):
    pass


class FIndex(D.Fault, IndexError):
    pass


class FValue(D.Fault, ValueError):
    pass


class FType(D.Fault, TypeError):
    pass


class FAttr(D.Fault, AttributeError):
    pass


class FRun(D.Fault, RuntimeError):
    pass


class FBase(KeyboardInterrupt):
    """What a signal may raise anywhere."""


FAULTS = (F, FKey, FIndex, FValue, FType, FAttr, FRun, F, FBase, FKey)


class Injector:
    """Raises a fault at the n-th callback."""
    def __init__(self):
        self.n = -1
        self.count = 0
        self.fault = None
        self.kind = None
        self.cls = F

    def arm(self, n, cls):
        self.n, self.count, self.fault, self.kind, self.cls = n, 0, None, None, cls
        D.Key.hook = self.hook

    def off(self):
        D.Key.hook = None

    def hook(self, kind):
        k = self.count
        self.count = k + 1
        if k == self.n:
            self.fault, self.kind = self.cls(f'{kind} callback {k}'), kind
            raise self.fault


def call(kind):
    if D.Key.hook is not None:
        D.Key.hook(kind)


class FIter:
    """An iterator whose steps are callbacks."""
    def __init__(self, xs):
        self.it = iter(xs)

    def __iter__(self):
        return self

    def __next__(self):
        call('next')
        return next(self.it)


class FReIter:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        call('iter')
        return FIter(self.xs)


class FThunk:
    __slots__ = ('value', 'runs')

    def __init__(self, value):
        self.value = value
        self.runs = 0

    def __call__(self):
        call('lazy')
        self.runs += 1
        return self.value


def fkey(v):
    call('key')
    return v.id if type(v) is D.Key else repr(v)


class W:
    def __init__(self, h, rec):
        self.rec = rec
        self.inj = Injector()
        self.of = {}
        self.keep = []
        self.pool = []
        self.cur = 0
        self.injected = 0
        self.kinds = set()
        self.lazies = h & 1

    # ---- elements
    def k(self, b):
        return D.key(b % 120)

    def raw(self, fam, b, bit):
        v = self.k(b)
        if fam.lazy and bit & 3:
            th = FThunk(v)
            z = lazy(th)
            self.of[id(z)] = th
            self.keep.append(z)
            return z
        return v

    def val(self, r):
        th = self.of.get(id(r))
        return th.value if th else r

    def ks(self, b, n, k):
        st = (1, 1, 3, 8, 5, 8, 16, 24)[k & 7]
        return [self.k(b + st * i) for i in range(n)]

    # ---- looking at contents without evaluating anything
    def raws(self, x, fam):
        if fam.kind == 'seq':
            return [x.getlazy(i) for i in range(len(x))] if fam.lazy else list(x)
        if fam.kind == 'set':
            return list(x)
        return [(k, x.getlazy(k)) for k in x] if fam.lazy else list(x.items())

    def same(self, fam, got, model):
        """Whether these raw contents are the model's."""
        if len(got) != len(model):
            return False
        if fam.kind == 'set':
            return all(any(g is m for m in model) or g in model for g in got) and len(set(got)) == len(got)
        if fam.kind == 'seq':
            return all(self.val(g) is self.val(m) for g, m in zip(got, model))
        return all((g[0] is m[0] or g[0] == m[0]) and self.val(g[1]) is self.val(m[1]) for g, m in zip(got, model.items()))

    def check(self, fam, x, model, what):
        if type(x) is not fam.cls:
            fail(f'{what}: result is a {type(x).__name__}')
        if len(x) != len(model):
            fail(f'{what}: length {len(x)}, expected {len(model)}')
        got = self.raws(x, fam)
        if not self.same(fam, got, model):
            fail(f'{what}: contents {D.short(got)}, expected {D.short(model)}')
        if fam.kind == 'set':
            for m in model:
                if m not in x:
                    fail(f'{what}: {m!r} is not found in {D.short(got)}')
        elif fam.kind == 'map':
            for k, v in model.items():
                g = x.getlazy(k, SENT) if fam.lazy else x.get(k, SENT)
                if self.val(g) is not self.val(v):
                    fail(f'{what}: key {k!r} gives {D.short(g)}, expected {D.short(v)}')

    def after(self, fam, x, model, what):
        """The object works normally: edits, conversions."""
        m = type(model)(model)
        new = D.Key(99, 3)
        f2 = FAM[fam.trans or fam.pers]
        y = x.transient() if fam.persistent else x.persistent()
        self.check(f2, y, m, what + ', then converted')
        y = x if fam.persistent else x.copy()
        if fam.kind == 'seq':
            y = y.append(new) if fam.persistent else (y.append(new), y)[1]
            m.append(new)
            if len(m) > 1:
                y = y.delete(0) if fam.persistent else (y.__delitem__(0), y)[1]
                del m[0]
        elif fam.kind == 'set':
            y = y.add(new) if fam.persistent else (y.add(new), y)[1]
            m.add(new)
            z = next(iter(m))
            y = y.discard(z) if fam.persistent else (y.discard(z), y)[1]
            m.discard(z)
        else:
            y = y.set(new, 1) if fam.persistent else (y.__setitem__(new, 1), y)[1]
            m[new] = 1
            z = next(iter(m))
            y = y.drop(z) if fam.persistent else (y.__delitem__(z), y)[1]
            del m[z]
        self.check(fam, y, m, what + ', then edited')

    def add(self, fam, x, model):
        e = (fam, x, model)
        if len(self.pool) < 8:
            self.pool.append(e)
            self.cur = len(self.pool) - 1
        else:
            self.pool[self.cur] = e


# ---- operations.  Each returns Spec(what, f(x), model -> (result kind, model), ok(before, after) or None)

class Spec:
    """what; f(x) does it; res: ('self'|'value'|'pair'|'none'|'new'|'any', value) and the model afterwards;
    partial(before, got): whether got is an acceptable content of a transient after a failure."""
    def __init__(self, what, f, model, res=None, partial=None, fam=None, error=None):
        self.what, self.f, self.model, self.res, self.partial, self.fam, self.error = what, f, model, res, partial, fam, error


ANY = ('any', None)


def seq_arg(w, fam, a, b):
    """(values, factory of the argument)"""
    vs = [w.raw(fam, b + 7 * i, b + i) for i in range(1 + a % 5)]
    form = (a >> 3) % 4
    return vs, (lambda: FIter(vs), lambda: FReIter(vs), lambda: (x for x in FIter(vs)), lambda: list(vs))[form]


def seq_spec(w, fam, x, m, a):
    p = fam.persistent
    vals = [w.val(r) for r in m]
    k = a[0] % 16
    v = vals[a[1] % len(vals)] if a[2] & 1 and vals else w.k(a[1])
    if a[2] & 2 and vals:
        v = D.Key(v.id, v.h)
    n = len(m)
    if k == 0:
        err = ValueError if v not in vals else None
        return Spec(f'index({v!r})', lambda x: x.index(v), None, ('value', None if err else vals.index(v)), error=err)
    if k == 1:
        return Spec(f'count({v!r})', lambda x: x.count(v), None, ('value', vals.count(v)))
    if k == 2:
        return Spec(f'{v!r} in', lambda x: v in x, None, ('value', v in vals))
    if k in (3, 4):
        err = ValueError if v not in vals else None
        m2 = list(m)
        if not err:
            del m2[vals.index(v)]
        return Spec(f'remove({v!r})', lambda x: x.remove(v), m2, ('self',) if p else ('none',), error=err)
    if k in (5, 6):
        kw = {}
        if a[3] & 1:
            kw['key'] = fkey
        if a[3] & 2:
            kw['reverse'] = True
        m2 = sorted(vals, **({**kw, 'key': lambda v: v.id} if kw.get('key') else kw))
        return Spec(f'sort({kw})', lambda x: x.sort(**kw), m2, ('self',) if p else ('none',))
    if k in (7, 8, 9):
        vs, arg = seq_arg(w, fam, a[3], a[4])
        return Spec(f'extend of {len(vs)}', lambda x: x.extend(arg()), m + vs, ('self',) if p else ('none',),
                    partial=lambda got: n <= len(got) <= n + len(vs) and all(w.val(g) is w.val(r) for g, r in zip(got, m + vs)))
    if k == 10:
        vs, arg = seq_arg(w, fam, a[3], a[4])
        return Spec(f'{fam.name} of {len(vs)}', lambda x: fam.cls(arg()), vs, ('new',))
    if k in (11, 12):
        o = [D.Key(r.id, r.h) for r in vals]
        if a[3] & 1 and o:
            i = a[4] % len(o)
            o[i] = w.k(a[5])
        other = (list, plist, tlist, fam.cls)[a[3] >> 1 & 3](o)
        if k == 11:
            return Spec(f'== {type(other).__name__}', lambda x: x == other, None, ('value', vals == o))
        return Spec(f'< {type(other).__name__}', lambda x: x < other, None, ('value', vals < o))
    if k == 13:
        if p:
            return Spec('hash', hash, None, ('value', hash(plist(vals))))
        return Spec('reverse', lambda x: x.reverse(), m[::-1], ('none',), partial=lambda got: sorted(w.val(g).id for g in got) == sorted(
            v.id for v in vals))
    if fam.lazy and m:
        i = a[1] % n - (n if a[2] & 1 else 0)
        if k == 14:
            if a[3] & 1:
                return Spec(f'[{i}]', lambda x: x[i], None, ('value', vals[i]))
            if a[3] & 2:
                return Spec('list', list, None, ('value', vals))
            return Spec('ready_all', lambda x: x.ready_all() if hasattr(x, 'ready_all') else None, None, ANY)
        m2 = list(m)
        del m2[i]
        return Spec(f'pop({i})', lambda x: x.pop(i), m2, ('pair', vals[i]) if p else ('value', vals[i]))
    return None


def set_arg(w, a, b, d, model=()):
    vs = w.ks(b, 1 + a % 5, d)
    ms = list(model)
    if a & 32 and ms:
        vs = vs[:2] + [D.Key(x.id, x.h) for x in ms[:1 + b % 3]]
    form = (a >> 3) % 4
    return vs, (lambda: FIter(vs), lambda: FReIter(vs), lambda: list(vs), lambda: FIter(vs))[form]


def set_spec(w, fam, x, m, a):
    p = fam.persistent
    ms = list(m)
    k = a[0] % 20
    v = ms[a[1] % len(ms)] if a[2] & 1 and ms else w.k(a[1])
    v = D.Key(v.id, v.h)
    S, N = ('self',), ('none',)
    R = S if p else N
    if k in (0, 1):
        return Spec(f'add({v!r})', lambda x: x.add(v), m | {v}, R)
    if k in (2, 3):
        return Spec(f'discard({v!r})', lambda x: x.discard(v), m - {v}, R)
    if k == 4:
        return Spec(f'remove({v!r})', lambda x: x.remove(v), m - {v}, R, error=None if v in m else KeyError)
    if k == 5:
        return Spec(f'{v!r} in', lambda x: v in x, None, ('value', v in m))
    vs, arg = set_arg(w, a[3], a[4], a[5], m)
    s = set(vs)
    sets = (set, pset, tset, frozenset)
    o = sets[a[3] & 3](vs)
    grow = lambda got: m <= set(got) <= m | s
    shrink = lambda got: m - s <= set(got) <= m
    if k == 6:
        return Spec('addall', lambda x: x.addall(arg()), m | s, R, partial=grow)
    if k == 7:
        return Spec('discardall', lambda x: x.discardall(arg()), m - s, R, partial=shrink)
    if k == 8:
        return Spec('constructor', lambda x: fam.cls(arg()), s, ('new',))
    if k in (9, 10):
        op = OPS[a[6] & 3]
        r = binop(op, m, s)
        if a[6] & 4:
            return Spec(f'set {op} it', lambda x: binop(op, o, x), binop(op, s, m), ('new' if type(o) is fam.cls or not isinstance(
                o, (pset, tset)) else 'any',))
        return Spec(f'{op} {type(o).__name__}', lambda x: binop(op, x, o), r, ('new',))
    if k in (11, 12, 13):
        if p:
            nm = METHODS[a[6] & 3]
            return Spec(nm, lambda x: getattr(x, nm)(arg()), getattr(m, nm)(s), ('new',))
        op = a[6] & 3

        def f(x):
            y = x
            if op == 0:
                y |= o
            elif op == 1:
                y &= o
            elif op == 2:
                y -= o
            else:
                y ^= o
            if y is not x:
                fail('in-place operator made a new object')
        part = (grow, lambda got: m & s <= set(got) <= m, shrink, lambda got: m - s <= set(got) <= m | s)[op]
        return Spec(f'{OPS[op] if False else "|&-^"[op]}=', f, (m | s, m & s, m - s, m ^ s)[op], N, partial=part)
    if k in (14, 15):
        if p:
            return Spec('issuperset', lambda x: x.issuperset(arg()), None, ('value', m >= s))
        nm = ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update')[a[6] & 3]
        part = (grow, shrink, lambda got: m & s <= set(got) <= m, lambda got: m - s <= set(got) <= m | s)[a[6] & 3]
        return Spec(nm, lambda x: getattr(x, nm)(arg()), (m | s, m - s, m & s, m ^ s)[a[6] & 3], N, partial=part)
    if k == 16:
        c = a[6] % 5
        fs = (lambda x: x == o, lambda x: x <= o, lambda x: x > o, lambda x: x.isdisjoint(o), lambda x: x.issubset(o))
        return Spec(('==', '<=', '>', 'isdisjoint', 'issubset')[c], fs[c], None,
                    ('value', (m == s, m <= s, m > s, m.isdisjoint(s), m.issubset(s))[c]))
    if k == 17 and p:
        return Spec('hash', hash, None, ('value', hash(pset(m))))
    if k == 18:
        absent = not s <= m or (len(vs) != len(s))
        if p:
            return None
        return Spec('removeall', lambda x: x.removeall(arg()), m - s, N, partial=shrink, error=KeyError if absent else None)
    if k == 19 and m:
        return Spec('pop', lambda x: x.pop(), None, ('popset',))
    return None


def map_arg(w, fam, a, b, d):
    n = 1 + a % 5
    ps = [(k, w.raw(fam, d + 3 * i, d + i)) for i, k in enumerate(w.ks(b, n, d >> 5))]
    form = (a >> 3) % 6
    return ps, (lambda: FIter(ps), lambda: FReIter(ps), lambda: list(ps), lambda: dict(ps), lambda: pdict(ps), lambda: FIter(ps))[form], form


def map_spec(w, fam, x, m, a):
    p = fam.persistent
    ks = list(m)
    k = a[0] % 20
    key = ks[a[1] % len(ks)] if a[2] & 1 and ks else w.k(a[1])
    key = D.Key(key.id, key.h)
    S, N = ('self',), ('none',)
    R = S if p else N
    r = w.raw(fam, a[3], a[4])
    m2 = dict(m)
    if k in (0, 1, 2):
        m2[key] = r
        return Spec(f'set {key!r}', (lambda x: x.set(key, r)) if p else (lambda x: x.__setitem__(key, r)), m2, R)
    if k in (3, 4):
        err = None if key in m else KeyError
        m2.pop(key, None)
        return Spec(f'delete {key!r}', (lambda x: x.delete(key)) if p else (lambda x: x.__delitem__(key)), m2, R, error=err)
    if k == 5 and p:
        m2.pop(key, None)
        return Spec(f'drop {key!r}', lambda x: x.drop(key), m2, R)
    if k in (5, 6, 7):
        err = None if key in m else KeyError
        v = w.val(m2.pop(key, None))
        d = () if a[5] & 1 else (SENT,)
        if d and err:
            err, v = None, SENT
        return Spec(f'pop({key!r}) {len(d)}', lambda x: x.pop(key, *d), m2, ('pair', v) if p else ('value', v), error=err)
    if k == 8:
        v = r if not fam.lazy or p else w.k(a[3])
        m2.setdefault(key, v)
        return Spec(f'setdefault({key!r})', lambda x: x.setdefault(key, v), m2, S if p else ('value', w.val(m2[key])))
    if k in (9, 10):
        ps, arg, form = map_arg(w, fam, a[3], a[5], a[6])
        qs = list(dict(ps).items()) if form in (3, 4) else ps
        m2.update(qs)

        def partial(got):
            for i in range(len(qs) + 1):
                mm = dict(m)
                mm.update(qs[:i])
                if w.same(fam, got, mm):
                    return True
            return False
        return Spec('update', lambda x: x.update(arg()), m2, R, partial=partial)
    if k == 11:
        ps, arg, form = map_arg(w, fam, a[3], a[5], a[6])
        return Spec('constructor', lambda x: fam.cls(arg()), dict(ps), ('new',))
    if k == 12:
        return Spec(f'{key!r} in', lambda x: key in x, None, ('value', key in m))
    if k == 13:
        return Spec(f'get({key!r})', lambda x: x.get(key, SENT), None, ('value', w.val(m.get(key, SENT))))
    if k == 14:
        return Spec(f'[{key!r}]', lambda x: x[key], None, ('value', w.val(m.get(key))), error=None if key in m else KeyError)
    vals = {q: w.val(v) for q, v in m.items()}
    if k == 15:
        o = {D.Key(q.id, q.h): (D.Key(v.id, v.h) if type(v) is D.Key else v) for q, v in vals.items()}
        if a[5] & 1 and o:
            o[key] = w.k(a[6])
        other = (dict, pdict, tdict, fam.cls)[a[5] >> 1 & 3](o)
        return Spec(f'== {type(other).__name__}', lambda x: x == other, None, ('value', vals == o))
    if k == 16:
        v = vals.get(key, w.k(a[5]))
        if a[6] & 1:
            v = w.k(a[5])
        if a[6] & 2:
            return Spec(f'({key!r}, {v!r}) in items()', lambda x: (key, v) in x.items(), None, ('value', (key, v) in vals.items()))
        return Spec(f'{v!r} in values()', lambda x: v in x.values(), None, ('value', v in vals.values()))
    if k == 17:
        if p:
            if a[5] & 1:
                return Spec('hash', hash, None, ('value', hash(pdict(vals))))
            dk = ks[:1 + a[6] % 3] + ([key] if a[5] & 2 else [])
            for q in dk:
                m2.pop(q, None)
            if a[5] & 4:
                return Spec('dropall', lambda x: x.dropall(FIter(dk)), m2, S)
            absent = len(set(dk)) != len(dk) or not all(q in m for q in dk)
            return Spec('deleteall', lambda x: x.deleteall(FIter(dk)), m2, S, error=KeyError if absent else None)
        return None
    if k == 18:
        s = set(w.ks(a[5], 3, a[6]))
        if a[6] & 1:
            return Spec('keys() &', lambda x: set(x.keys() & s), None, ('value', vals.keys() & s))
        if fam.lazy and a[6] & 2:
            return Spec('values()', lambda x: list(x.values()), None, ('value', list(vals.values())))
        if fam.lazy and a[6] & 4 and hasattr(x, 'ready_all'):
            return Spec('ready_all', lambda x: x.ready_all(), None, ANY)
        return Spec('items()', lambda x: list(x.items()), None, ('value', list(vals.items())))
    if k == 19 and m:
        return Spec('popitem', lambda x: x.popitem(), None, ('popmap',))
    return None


SPEC = {'seq': seq_spec, 'set': set_spec, 'map': map_spec}


def check_result(w, fam, x, m, sp, got):
    """After a success: (result family object or None, its model)."""
    what = f'{fam.name} {D.short(m)}: {sp.what}'
    k = sp.res[0]
    p = fam.persistent
    if k == 'value':
        if not (got is sp.res[1] or got == sp.res[1]):
            fail(f'{what}: {D.short(got)}, expected {D.short(sp.res[1])}')
    elif k == 'none':
        if got is not None:
            fail(f'{what}: returned {D.short(got)}')
    elif k in ('self', 'new'):
        w.check(fam, got, sp.model, what)
        return got, sp.model
    elif k == 'pair':
        if type(got) is not tuple or len(got) != 2 or got[0] is not sp.res[1]:
            fail(f'{what}: returned {D.short(got)}, expected {D.short(sp.res[1])}')
        w.check(fam, got[1], sp.model, what)
        return got[1], sp.model
    elif k == 'popset':
        el = got[0] if p else got
        if el not in m:
            fail(f'{what}: returned {D.short(got)}')
        sp.model = m - {el}
        if p:
            w.check(fam, got[1], sp.model, what)
            return got[1], sp.model
    elif k == 'popmap':
        kv = got[0] if p else got
        if kv[0] not in m or w.val(m[kv[0]]) is not kv[1]:
            fail(f'{what}: returned {D.short(got)}')
        m2 = dict(m)
        del m2[kv[0]]
        sp.model = m2
        if p:
            w.check(fam, got[1], m2, what)
            return got[1], m2
    return None, None


def one(w, fam, x, m, sp, n, cls):
    """Runs the operation on x with a fault at callback n.  Returns (finished, contents now, result)."""
    what = f'{fam.name} {D.short(m)}: {sp.what}, {cls.__name__} at callback {n}'
    w.inj.arm(n, cls)
    try:
        got = ('ok', sp.f(x))
    except (Violation, core.HarnessError, MemoryError, core.Hang):
        raise
    except BaseException as e:
        got = ('err', e)
    finally:
        w.inj.off()
    fault = w.inj.fault
    if fault is None:
        if sp.error is not None:
            if got[0] == 'ok' or not isinstance(got[1], sp.error):
                fail(f'{what}: {got[1]!r}, expected {sp.error.__name__}')
            if sp.partial and not fam.persistent:
                # a batch operation with an invalid element
                now = w.raws(x, fam)
                if not sp.partial(now):
                    fail(f'{what}: then contents {D.short(now)}')
                m = {'seq': list, 'set': set, 'map': dict}[fam.kind](now)
            w.check(fam, x, m, what + ' (rejected)')
            return True, m, None
        if got[0] == 'err':
            fail(f'{what}: raised {got[1]!r}')
        r = check_result(w, fam, x, m, sp, got[1])
        now = m if fam.persistent or sp.model is None or sp.res[0] in ('new', 'any') else sp.model
        w.check(fam, x, now, what + ' (done)')
        return True, now, r
    w.injected += 1
    w.kinds.add(w.inj.kind)
    if got[0] == 'ok':
        fail(f'{what}: the exception of the {w.inj.kind} callback was lost, the result is {D.short(got[1])}')
    if got[1] is not fault and not (w.inj.kind == 'lazy' and isinstance(got[1], LazyError) and cls is not FBase):
        fail(f'{what}: raised {got[1]!r}, expected the exception of the {w.inj.kind} callback')
    if w.inj.count > n + 1:
        w.rec.label('callbacks after the fault')
    if not fam.persistent and sp.partial is not None:
        now = w.raws(x, fam)
        if len(now) != len(x):
            fail(f'{what}: then length {len(x)}, contents {D.short(now)}')
        if not sp.partial(now):
            fail(f'{what}: then contents {D.short(now)}')
        m = {'seq': list, 'set': set, 'map': dict}[fam.kind](now)
    w.check(fam, x, m, what + ', afterwards')
    w.after(fam, x, m, what)
    return False, m, None


def step(w, a):
    fam, x, m = w.pool[w.cur]
    cls = FAULTS[a[6] % len(FAULTS)]
    sp = SPEC[fam.kind](w, fam, x, m, a)
    if sp is None:
        return
    w.rec.label('operation on a ' + ('persistent' if fam.persistent else 'transient') + ' ' + fam.kind)
    # a fault at every callback in turn, on copies of a transient, until the operation completes
    n = 0
    while n < 70:
        y = x if fam.persistent else x.copy()
        done, now, r = one(w, fam, y, m, sp, n, cls)
        if done:
            break
        n += 1
    if not fam.persistent and fam.kind != 'seq' or not fam.persistent and sp.res[0] in ('none', 'value'):
        # then once on the object itself, which lives on
        sp = SPEC[fam.kind](w, fam, x, m, a)
        done, now, r = one(w, fam, x, m, sp, a[5] % (n + 1), cls)
        w.pool[w.cur] = (fam, x, now)
    elif r and r[0] is not None:
        w.add(fam, r[0], r[1])
    if len(w.pool) > 1:
        i = a[4] % len(w.pool)
        f2, x2, m2 = w.pool[i]
        w.check(f2, x2, m2, f'after {sp.what} on another object, the {f2.name}')
        if a[5] & 4:
            w.cur = i


FAMNAMES = tuple(FAM)
SIZES = (0, 1, 2, 3, 4, 5, 6, 7, 3, 9, 12, 2, 33, 4, 5, 8)


def construct(w, fam, h):
    n = SIZES[h[1] & 15]
    ks = w.ks(h[2], n, h[3])
    if fam.kind == 'seq':
        m = [w.raw(fam, h[2] + 5 * i, h[4] + i) for i in range(n)]
        x = fam.cls(m)
        if h[3] & 8 and m:
            x = x.prepend(m[0]) if fam.persistent else (x.prepend(m[0]), x)[1]
            m = [m[0]] + m
    elif fam.kind == 'set':
        m = set(ks)
        x = fam.cls(ks)
    else:
        m = {k: w.raw(fam, h[4] + 3 * i, h[4] + i) for i, k in enumerate(ks)}
        x = fam.cls(m)
    if h[5] & 1 and not fam.persistent:
        # a transient that still remembers its original
        x = FAM[fam.pers].cls(x).transient()
    w.add(fam, x, m)


def run(case, rec):
    h = case['head']
    w = W(h[0], rec)
    try:
        construct(w, FAM[FAMNAMES[h[7] % 10]], h)
        for r in case['ops']:
            step(w, r[1:])
    finally:
        w.inj.off()
    for i, (fam, x, m) in enumerate(w.pool):
        w.check(fam, x, m, f'at the end, object {i} ({fam.name})')
        w.after(fam, x, m, f'at the end, object {i} ({fam.name})')
    if w.injected >= 2:
        rec.nontrivial()
    for k in w.kinds:
        rec.label('fault in ' + k)


def decode(d):
    head, recs = core.records(d)
    return dict(head=tuple(head), ops=[tuple(r) for r in recs])


# =============================================================================== late faults

LENS = (33, 34, 40, 64, 65, 70, 100, 129)


def late_spec(w, fam, x, m, r):
    """A batch operation with many elements."""
    n = LENS[r[1] & 7]
    hs = (lambda i: i, lambda i: i % 31, lambda i: (i * 37) % 101 << 5, lambda i: 3 if i % 9 == 0 else i)[r[2] & 3]
    ks = [D.Key(200 + i, hs(i)) for i in range(n)]
    form = (r[2] >> 2) % 4
    p = fam.persistent
    res = ('self',) if p else ('none',)

    def it(vs):
        return (FIter(vs), FReIter(vs), (v for v in FIter(vs)), FIter(vs))[form]
    k = r[3] % 8
    if fam.kind == 'seq':
        part = lambda now: now[:len(m)] == m and all(g is v for g, v in zip(now[len(m):], ks)) and len(now) <= len(m) + n
        if k < 2:
            return Spec(f'type(x)({n})', lambda x: fam.cls(it(ks)), None, ANY, lambda now: True if p else len(now) == len(m))
        return Spec(f'extend({n})', lambda x: x.extend(it(ks)), m + ks, res, part)
    if fam.kind == 'set':
        old = set(m)
        if r[4] & 1:                           # (some are members)
            ks = list(m)[:20] + ks
        vs = set(ks)
        nm = ('addall', 'union', 'update', 'discardall', 'symmetric_difference', 'intersection', 'difference',
              'symmetric_difference_update')[k]
        if p and 'update' in nm:
            nm = 'addall'
        full = (old | vs if nm in ('addall', 'union', 'update') else old - vs if nm in ('discardall', 'difference')
                else old & vs if nm == 'intersection' else old ^ vs)
        place = not p and (nm.endswith('all') or 'update' in nm)
        end = full if place else old
        if r[5] & 7 == 0:
            return Spec(f'type(x)({n})', lambda x: fam.cls(it(ks)), None, ANY, lambda now: set(now) == old)
        return Spec(f'{nm}({n})', lambda x: getattr(x, nm)(it(ks)), full, res if p or place else ('new',),
                    lambda now: set(now) >= old & end and set(now) <= old | end)
    ps = [(q, i) for i, q in enumerate(ks)]
    raw = lambda d: list(d.items())

    def part(now):
        j = len(now) - len(m)
        return 0 <= j <= n and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(now, raw(m) + ps))
    if k < 2:
        return Spec(f'type(x)({n})', lambda x: fam.cls(it(ps)), None, ANY, lambda now: len(now) == len(m))
    if k == 2 and p:
        return Spec(f'setall({n})', lambda x: x.setall(it(ks), range(n)), None, ANY)
    if k == 3 and p:
        return Spec(f'setall({n})', lambda x: x.setall(ks, it(range(n))), None, ANY)
    if k == 4 and p:
        return Spec(f'dropall({n})', lambda x: x.dropall(it(ks)), None, ANY)
    return Spec(f'update({n})', lambda x: x.update(it(ps)), {**m, **dict(ps)}, res, part)


def late_run(case, rec):
    h = case['head']
    w = W(h[0], rec)
    try:
        construct(w, FAM[FAMNAMES[h[7] % 10]], h)
        fam, x, m = w.pool[0]
        for r in case['ops']:
            cls = FAULTS[r[6] % len(FAULTS)]
            y = x if fam.persistent else x.copy()
            w.inj.arm(10 ** 9, F)
            late_spec(w, fam, y, m, r).f(y)
            c = w.inj.count
            w.inj.off()
            at = (c - 1, c - 2, 32, 33, 65, c // 2, c - 1 - r[4] % 40, r[4] * c >> 8)[r[7] & 7] if r[5] & 8 else r[4] * c >> 8
            y = x if fam.persistent else x.copy()
            one(w, fam, y, m, late_spec(w, fam, y, m, r), max(0, min(at, c - 1)), cls)
            w.check(fam, x, m, 'the original afterwards')
    finally:
        w.inj.off()
    if w.injected:
        rec.nontrivial()
    for k in w.kinds:
        rec.label('late fault in ' + k)


# =============================================================================== bad arguments

class NoIter:
    __hash__ = None


BAD = (None, 'x', [], {}, set(), NoIter(), 3, (1,), object, b'a', Ellipsis, lambda: 0)
UNHASHABLE = ([], {}, set(), bytearray(b'a'), ([],), (1, {}))
NONITER = (None, 3, NoIter(), object, 2.5, Ellipsis)
STRS = ('a', None, 'x', (1,), [], {}, Ellipsis, object)


def setat(o, k, v):
    o[k] = v


def delat(o, k):
    del o[k]


def iop(o, op, v):
    if op == '+':
        o += v
    elif op == '*':
        o *= v
    elif op == '|':
        o |= v
    elif op == '&':
        o &= v
    elif op == '-':
        o -= v
    else:
        o ^= v


def between(b, n):
    """An index that is in range but no integer (which error it raises is not claimed; that the object stays is)."""
    if not n:
        raise TypeError('empty')
    return type(b)(int(b * n)) + (type(b)(1) / 2 if b > 0 else -type(b)(1) / 2)


FRACS = (0.1, 0.01, Fraction(1, 3), 0.99, 0.5, -0.01, -0.99, Fraction(-1, 3), -0.7)
T, V, K, I = TypeError, ValueError, KeyError, IndexError
X = (T, V, K, I)
N = lambda m: len(m)
# (name, transient?, f(x, bad, n), bad values, errors)
BADSEQ = [
    ('[bad]', None, lambda x, b, n: x[b], STRS, (T,)),
    ('[n]', None, lambda x, b, n: x[n + b], (0, 1, 5, 1 << 70), (I,)),
    ('[-n-1]', None, lambda x, b, n: x[-n - b], (1, 2, 9, 1 << 70), (I,)),
    ('[::bad]', None, lambda x, b, n: x[::b], ('a', (1,), [], object), (T,)),
    ('[::0]', None, lambda x, b, n: x[::b], (0,), (V,)),
    ('insert(bad, 1)', None, lambda x, b, n: x.insert(b, 1), STRS, (T,)),
    ('pop(bad)', None, lambda x, b, n: x.pop(b), STRS, (T,)),
    ('pop(n)', None, lambda x, b, n: x.pop(n + b), (0, 1, 5), (I,)),
    ('pop(1, 2)', None, lambda x, b, n: x.pop(1, 2), (0,), (T,)),
    ('extend(bad)', None, lambda x, b, n: x.extend(b), NONITER, (T,)),
    ('extend()', None, lambda x, b, n: x.extend(), (0,), (T,)),
    ('append()', None, lambda x, b, n: x.append(), (0,), (T,)),
    ('append(1, 2)', None, lambda x, b, n: x.append(1, 2), (0,), (T,)),
    ('prepend()', None, lambda x, b, n: x.prepend(), (0,), (T,)),
    ('insert(1)', None, lambda x, b, n: x.insert(1), (0,), (T,)),
    ('remove(absent)', None, lambda x, b, n: x.remove(b), ('absent', NoIter(), 'zz'), (V,)),
    ('index(absent)', None, lambda x, b, n: x.index(b), ('absent', NoIter(), 'zz'), (V,)),
    ('+ bad', None, lambda x, b, n: x + b, (None, 3, 'a', {1}, {1: 2}, 2.5), (T,)),
    ('bad +', None, lambda x, b, n: b + x, (None, 3, 'a', {1}, {1: 2}, 2.5), (T,)),
    ('insert(fraction, 1)', None, lambda x, b, n: x.insert(between(b, n), 1), FRACS, X),
    ('pop(fraction)', None, lambda x, b, n: x.pop(between(b, n)), FRACS, X),
    ('[fraction]', None, lambda x, b, n: x[between(b, n)], FRACS, X),
    ('set(fraction, 1)', True, lambda x, b, n: x.set(between(b, n), 1), FRACS, X),
    ('delete(fraction)', True, lambda x, b, n: x.delete(between(b, n)), FRACS, X),
    ('drop(fraction)', True, lambda x, b, n: x.drop(between(b, n)) if n else {}[0], FRACS, X),
    ('[fraction] = 1', False, lambda x, b, n: setat(x, between(b, n), 1), FRACS, X),
    ('del [fraction]', False, lambda x, b, n: delat(x, between(b, n)), FRACS, X),
    ('* bad', None, lambda x, b, n: x * b, (None, 'a', [1], 2.5, {}), (T, V)),
    ('bad *', None, lambda x, b, n: b * x, (None, 'a', 2.5, {}), (T, V)),
    ('< bad', None, lambda x, b, n: x < b, (None, 3, 'a', {1}, {}), (T,)),
    ('>= bad', None, lambda x, b, n: x >= b, (None, 3, 'a', {1}, {}), (T,)),
    ('sort(key=bad)', None, lambda x, b, n: x.sort(key=b) if n else 1 / 0, (3, 'a', [1]), (T, ZeroDivisionError)),
    ('sort(1)', None, lambda x, b, n: x.sort(1, 2, 3), (0,), (T,)),
    ('type(bad)', None, lambda x, b, n: type(x)(b), NONITER, (T,)),
    ('type(1, 2)', None, lambda x, b, n: type(x)([1], [2]), (0,), (T,)),
    ('type(a=1)', None, lambda x, b, n: type(x)(a=1), (0,), (T,)),
    ('set(bad, 1)', True, lambda x, b, n: x.set(b, 1), STRS, (T,)),
    ('set(n, 1)', True, lambda x, b, n: x.set(n + b, 1), (0, 1, 9), (I,)),
    ('set(-n-1, 1)', True, lambda x, b, n: x.set(-n - b, 1), (1, 2, 9), (I,)),
    ('set(0)', True, lambda x, b, n: x.set(0), (0,), (T,)),
    ('delete(bad)', True, lambda x, b, n: x.delete(b), STRS, (T, I)),
    ('delete(n)', True, lambda x, b, n: x.delete(n + b), (0, 1, 5), (I,)),
    ('drop(bad)', True, lambda x, b, n: x.drop(b), STRS, (T,)),
    ('hash of unhashable', True, lambda x, b, n: hash(x.append(b)), UNHASHABLE, (T,)),
    ('[0] = 1', True, lambda x, b, n: setat(x, 0, 1), (0,), (T,)),
    ('del [0]', True, lambda x, b, n: delat(x, 0), (0,), (T,)),
    ('.x = 1', True, lambda x, b, n: setattr(x, b, 1), ('x', '_start', '_phamt', '_hashcode', 'append'), (T, AttributeError)),
    ('del .x', True, lambda x, b, n: delattr(x, b), ('_start', '_phamt', '_hashcode', 'x'), (T, AttributeError)),
    ('[bad] = 1', False, lambda x, b, n: setat(x, b, 1), STRS, (T,)),
    ('[n] = 1', False, lambda x, b, n: setat(x, n + b, 1), (0, 1, 9), (I,)),
    ('del [bad]', False, lambda x, b, n: delat(x, b), STRS, (T,)),
    ('del [n]', False, lambda x, b, n: delat(x, n + b), (0, 1, 9), (I,)),
    ('+= bad', False, lambda x, b, n: iop(x, '+', b), (None, 3, 2.5), (T,)),
    ('*= bad', False, lambda x, b, n: iop(x, '*', b), (None, 'a', 2.5, [1]), (T, V)),
    ('hash', False, lambda x, b, n: hash(x), (0,), (T,)),
]
BADSET = [
    ('add(bad)', None, lambda x, b, n: x.add(b), UNHASHABLE, (T,)),
    ('discard(bad)', None, lambda x, b, n: x.discard(b), UNHASHABLE, (T,)),
    ('remove(bad)', None, lambda x, b, n: x.remove(b), UNHASHABLE, (T,)),
    ('remove(absent)', None, lambda x, b, n: x.remove(b), ('absent', (5, 6)), (K,)),
    ('bad in', None, lambda x, b, n: b in x, UNHASHABLE, (T,)),
    ('add()', None, lambda x, b, n: x.add(), (0,), (T,)),
    ('addall(bad)', None, lambda x, b, n: x.addall(b), NONITER, (T,)),
    ('addall([bad])', None, lambda x, b, n: x.addall([b]), UNHASHABLE, (T,)),
    ('discardall([bad])', None, lambda x, b, n: x.discardall([b]), UNHASHABLE, (T,)),
    ('discardall(bad)', None, lambda x, b, n: x.discardall(b), NONITER, (T,)),
    ('union(bad)', None, lambda x, b, n: x.union(b), NONITER, (T,)),
    ('union([bad])', None, lambda x, b, n: x.union([b]), UNHASHABLE, (T,)),
    ('intersection(bad)', None, lambda x, b, n: x.intersection(b), NONITER, (T,)),
    ('difference(bad)', None, lambda x, b, n: x.difference(b), NONITER, (T,)),
    ('symmetric_difference(bad)', None, lambda x, b, n: x.symmetric_difference(b), NONITER, (T,)),
    ('issubset(bad)', None, lambda x, b, n: x.issubset(b), NONITER, (T,)),
    ('issuperset(bad)', None, lambda x, b, n: x.issuperset(b), NONITER, (T,)),
    ('isdisjoint(bad)', None, lambda x, b, n: x.isdisjoint(b), NONITER, (T,)),
    ('| bad', None, lambda x, b, n: x | b, (None, 3, 'a', [1], {1: 2}), (T,)),
    ('- bad', None, lambda x, b, n: x - b, (None, 3, 'a', [1], {1: 2}), (T,)),
    ('bad &', None, lambda x, b, n: b & x, (None, 3, 'a', [1], {1: 2}), (T,)),
    ('bad -', None, lambda x, b, n: b - x, (None, 3, 'a', [1], {1: 2}), (T,)),
    ('< bad', None, lambda x, b, n: x < b, (None, 3, 'a', [1], {1: 2}), (T,)),
    ('>= bad', None, lambda x, b, n: x >= b, (None, 3, 'a', [1], {1: 2}), (T,)),
    ('type(bad)', None, lambda x, b, n: type(x)(b), NONITER, (T,)),
    ('type([bad])', None, lambda x, b, n: type(x)([b]), UNHASHABLE, (T,)),
    ('type(1, 2)', None, lambda x, b, n: type(x)([1], [2]), (0,), (T,)),
    ('type(a=1)', None, lambda x, b, n: type(x)(a=1), (0,), (T,)),
    ('[0]', None, lambda x, b, n: x[0], (0,), (T,)),
    ('[0] = 1', None, lambda x, b, n: setat(x, 0, 1), (0,), (T,)),
    ('.x = 1', True, lambda x, b, n: setattr(x, b, 1), ('x', '_els', '_idx', '_top', '_hashcode', 'add'), (T, AttributeError)),
    ('del .x', True, lambda x, b, n: delattr(x, b), ('_els', '_idx', 'x'), (T, AttributeError)),
    ('|= bad', False, lambda x, b, n: iop(x, '|', b), (None, 3, [1], {1: 2}, 'a'), (T,)),
    ('&= bad', False, lambda x, b, n: iop(x, '&', b), (None, 3, [1], {1: 2}, 'a'), (T,)),
    ('-= bad', False, lambda x, b, n: iop(x, '-', b), (None, 3, [1], {1: 2}, 'a'), (T,)),
    ('^= bad', False, lambda x, b, n: iop(x, '^', b), (None, 3, [1], {1: 2}, 'a'), (T,)),
    ('update(bad)', False, lambda x, b, n: x.update(b), NONITER, (T,)),
    ('update([bad])', False, lambda x, b, n: x.update([b]), UNHASHABLE, (T,)),
    ('intersection_update(bad)', False, lambda x, b, n: x.intersection_update(b), NONITER, (T,)),
    ('symmetric_difference_update(bad)', False, lambda x, b, n: x.symmetric_difference_update(b), NONITER, (T,)),
]
BADMAP = [
    ('[bad]', None, lambda x, b, n: x[b], UNHASHABLE, (T,)),
    ('[absent]', None, lambda x, b, n: x[b], ('absent', (5, 6)), (K,)),
    ('bad in', None, lambda x, b, n: b in x, UNHASHABLE, (T,)),
    ('get(bad)', None, lambda x, b, n: x.get(b), UNHASHABLE, (T,)),
    ('get()', None, lambda x, b, n: x.get(), (0,), (T,)),
    ('get(1, 2, 3)', None, lambda x, b, n: x.get(1, 2, 3), (0,), (T,)),
    ('pop(bad)', None, lambda x, b, n: x.pop(b), UNHASHABLE, (T,)),
    ('pop(bad, 1)', None, lambda x, b, n: x.pop(b, 1), UNHASHABLE, (T,)),
    ('pop(absent)', None, lambda x, b, n: x.pop(b), ('absent', (5, 6)), (K,)),
    ('pop(1, 2, 3)', None, lambda x, b, n: x.pop(1, 2, 3), (0,), (T,)),
    ('setdefault(bad)', None, lambda x, b, n: x.setdefault(b), UNHASHABLE, (T,)),
    ('update(bad)', None, lambda x, b, n: x.update(b), NONITER, (T,)),
    ('update([bad])', None, lambda x, b, n: x.update([b]), (1, None, (1,), (1, 2, 3), 'a', 'abc'), (T, V)),
    ('update([(bad, 1)])', None, lambda x, b, n: x.update([(b, 1)]), UNHASHABLE, (T,)),
    ('type(bad)', None, lambda x, b, n: type(x)(b), NONITER, (T,)),
    ('type([bad])', None, lambda x, b, n: type(x)([b]), (1, None, (1,), (1, 2, 3), 'a', 'abc'), (T, V)),
    ('type([(bad, 1)])', None, lambda x, b, n: type(x)([(b, 1)]), UNHASHABLE, (T,)),
    ('type(1, 2)', None, lambda x, b, n: type(x)({}, {}), (0,), (T,)),
    ('< {}', None, lambda x, b, n: x < b, ({}, 3, None), (T,)),
    ('+ {}', None, lambda x, b, n: x + b, ({}, 3, None), (T,)),
    ('keys() < bad', None, lambda x, b, n: x.keys() < b, (3, None, [1]), (T,)),
    ('set(bad, 1)', True, lambda x, b, n: x.set(b, 1), UNHASHABLE, (T,)),
    ('set(1)', True, lambda x, b, n: x.set(1), (0,), (T,)),
    ('drop(bad)', True, lambda x, b, n: x.drop(b), UNHASHABLE, (T,)),
    ('delete(absent)', True, lambda x, b, n: x.delete(b), ('absent', (5, 6)), (K,)),
    ('delete(bad)', True, lambda x, b, n: x.delete(b), UNHASHABLE, (T,)),
    ('setall(bad, [])', True, lambda x, b, n: x.setall(b, []), NONITER, (T,)),
    ('setall([bad], [1])', True, lambda x, b, n: x.setall([b], [1]), UNHASHABLE, (T,)),
    ('dropall([bad])', True, lambda x, b, n: x.dropall([b]), UNHASHABLE, (T,)),
    ('dropall(bad)', True, lambda x, b, n: x.dropall(b), NONITER, (T,)),
    ('deleteall([absent])', True, lambda x, b, n: x.deleteall([b]), ('absent', (5, 6)), (K,)),
    ('hash of unhashable', True, lambda x, b, n: hash(x.set('q', b)), UNHASHABLE, (T,)),
    ('[0] = 1', True, lambda x, b, n: setat(x, 0, 1), (0,), (T,)),
    ('del [0]', True, lambda x, b, n: delat(x, 0), (0,), (T,)),
    ('.x = 1', True, lambda x, b, n: setattr(x, b, 1), ('x', '_els', '_idx', '_top', '_hashcode', 'set'), (T, AttributeError)),
    ('del .x', True, lambda x, b, n: delattr(x, b), ('_els', '_idx', 'x'), (T, AttributeError)),
    ('[bad] = 1', False, lambda x, b, n: setat(x, b, 1), UNHASHABLE, (T,)),
    ('del [bad]', False, lambda x, b, n: delat(x, b), UNHASHABLE, (T,)),
    ('del [absent]', False, lambda x, b, n: delat(x, b), ('absent', (5, 6)), (K,)),
    ('hash', False, lambda x, b, n: hash(x), (0,), (T,)),
]
EMPTY = {'seq': [('pop()', lambda x: x.pop(), (I,))], 'set': [('pop()', lambda x: x.pop(), (K,))],
         'map': [('popitem()', lambda x: x.popitem(), (K,))]}
BADS = {'seq': BADSEQ, 'set': BADSET, 'map': BADMAP}


EDITS = ('insert', 'pop', 'delete', 'drop', 'del')


def edited(y, m, what, d):
    now = [y.getlazy(i) for i in range(len(y))] if hasattr(y, 'getlazy') else list(y)
    long, short = (now, m) if d > 0 else (m, now)
    if len(long) != len(short) + 1 or not any(
            all(p is q or isinstance(p, lazy) or isinstance(q, lazy)
                for p, q in zip(long[:i] + long[i + 1:], short)) for i in range(len(long))):
        fail(f'{what}: gives {D.short(now)}')
    return now


HOLD_ERRORS = (AttributeError, KeyError, TypeError, ZeroDivisionError)


class Holder:
    """An object with a __holdlazy__ of its own."""
    def __init__(self, error, result):
        self.error, self.result, self.calls = error, result, 0

    def __holdlazy__(self):
        self.calls += 1
        if self.error is not None:
            raise self.error
        return self.result


def hold_run(h, rec):
    e = HOLD_ERRORS[h[5] % 4]('of the object') if h[5] & 12 else None
    x = Holder(e, (None, 5, [], llist())[h[5] >> 6])
    got = attempt(*((holdlazy, x, True) if h[5] & 16 else (holdlazy, x)))
    if x.calls != 1 or got[1] is not (e if e is not None else x.result) or (got[0] == 'ok') != (e is None):
        fail(f'holdlazy of an object whose __holdlazy__ gives {e!r} or {x.result!r}: {got[1]!r}, {x.calls} calls')


def bad_run(case, rec):
    h = case['head']
    hold_run(h, rec)
    w = W(h[0], rec)
    construct(w, FAM[FAMNAMES[h[7] % 10]], h)
    fam, x, m = w.pool[0]
    tried = 0
    for r in case['ops']:
        ops = [o for o in BADS[fam.kind] if o[1] is None or o[1] is fam.persistent]
        nm, _, f, bads, errs = ops[(r[0] - 1 + 7 * (r[4] & 3)) % len(ops)]
        b = bads[r[1] % len(bads)]
        what = f'{fam.name} {D.short(m)}: {nm} with {D.short(b)}'
        got = attempt(f, x, b, len(m))
        if got[0] == 'ok' and 'fraction' in nm and nm.split('(')[0].split(' ')[0] in EDITS:
            # An implementation may take a number that is no integer; the result is then one ordinary edit.
            y = x if not fam.persistent else got[1][1] if nm[:3] == 'pop' else got[1]
            m = edited(y, m, what, 1 if nm[:3] == 'ins' else -1)
            x = y
            w.check(fam, x, m, what + ', accepted')
            continue
        if got[0] == 'ok':
            fail(f'{what}: returned {D.short(got[1])}, expected {errs[0].__name__}')
        if not isinstance(got[1], errs):
            fail(f'{what}: raised {got[1]!r}, expected {errs[0].__name__}')
        tried += 1
        w.check(fam, x, m, what + ', afterwards')
        if r[2] & 1:
            w.after(fam, x, m, what)
        if r[3] & 3 == 0:
            sp = SPEC[fam.kind](w, fam, x, m, r[1:])
            if sp is not None:
                done, now, res = one(w, fam, x, m, sp, 10 ** 9, F)
                if not fam.persistent:
                    m = now
                elif res and res[0] is not None:
                    x, m = res
    if not m:
        for nm, f, errs in EMPTY[fam.kind]:
            got = attempt(f, x)
            if got[0] == 'ok' or not isinstance(got[1], errs):
                fail(f'empty {fam.name}.{nm}: {got[1]!r}, expected {errs[0].__name__}')
        w.check(fam, x, m, 'after popping from an empty collection')
    w.after(fam, x, m, 'at the end')
    if tried >= 2:
        rec.nontrivial()
    rec.label(fam.name)


PROP = core.Prop('C18', [core.Part('faults', decode, run, quick=1500, sizes=((2, 6), (5, 14), (12, 30))),
                         core.Part('late faults', decode, late_run, quick=500, sizes=((1, 3), (2, 6))),
                         core.Part('bad arguments', decode, bad_run, quick=1000, sizes=((2, 8), (6, 20)))],
                 rule='faults: a case is a pool of collections of one of the ten types, with colliding keys, and a program of '
                      'operations; each is run with a fault raised at callback 0, 1, 2, ... (hash, equality, ordering, iterator '
                      'step, sort key, lazy function) until it completes, on copies of a transient and then once on the transient '
                      'itself, which lives on; non-trivial: at least two injected faults.  late faults: batch operations of 33 to '
                      '129 elements with a fault at one chosen callback; non-trivial: a fault was raised.  bad arguments: operations with invalid '
                      'arguments, mixed with valid ones; non-trivial: at least two rejected calls.',
                 assumptions=['a sort, reverse or other batch edit that fails may have processed any prefix of its elements'])
