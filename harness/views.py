"""Operations on dict views (used by C04 and C16)."""
from machines2 import *


def kv_eq(g, w):
    return type(g) is tuple and len(g) == 2 and (g[0] is w[0] or g[0] == w[0]) and g[1] is w[1]


def check_views(s, what, kv=None, iv=None, vv=None):
    d, m = s.real, s.model
    kv, iv, vv = d.keys() if kv is None else kv, d.items() if iv is None else iv, d.values() if vv is None else vv
    ks, its, vs = list(m), list(m.items()), list(m.values())
    for nm, g, w, eq in (('keys()', kv, ks, D.eqv), ('items()', iv, its, kv_eq), ('values()', vv, vs, D.same),
                         ('iteration', d, ks, D.eqv)):
        if len(g) != len(w):
            fail(f'{what}: len of {nm} is {len(g)}, expected {len(w)}')
        for rev in (0, 1):
            x = list(reversed(g)) if rev else list(g)
            y = w[::-1] if rev else w
            if len(x) != len(y) or not all(eq(p, q) for p, q in zip(x, y)):
                fail(f'{what}: {"reversed " * rev}{nm} is {D.short(x)}, expected {D.short(y)}')


def v_all(c, s, a):
    check_views(s, f'{s.fam.name} {D.short(s.model)}')
    c.rec.label('views listed')


class EqNoHash:
    """Equal to every integer below 5 and to 'a', but not hashable."""
    __hash__ = None

    def __eq__(self, other):
        return other == 'a' or isinstance(other, int) and other < 5


class EqOther:
    """Equal to every integer and string, but with a hash of its own."""
    def __hash__(self):
        return 0x5a5a5a5a5a5

    def __eq__(self, other):
        return isinstance(other, (int, str))


class EqAll:
    """Equal to everything (like unittest.mock.ANY)."""
    __hash__ = None

    def __eq__(self, other):
        return True

    def __repr__(self):
        return 'EqAll()'


class EqNone:
    """Equal to None, to Ellipsis and to NotImplemented."""
    __hash__ = None

    def __eq__(self, other):
        return other in (None, Ellipsis, NotImplemented)

    def __repr__(self):
        return 'EqNone()'


class EqRaise:
    """Its comparison fails."""
    __hash__ = None

    def __eq__(self, other):
        raise ValueError('not comparable')

    def __repr__(self):
        return 'EqRaise()'


VALUE_PROBES = (EqAll(), EqNone(), None, Ellipsis)
FOREIGN = VALUE_PROBES[:2] + (EqRaise(),)
PROBES = (None, Ellipsis, 3, 'a', (), (1,), (1, 2, 3), [1, 2], D.NAN, [], {}, ('a',), EqNoHash(), EqOther(), ([],), set())
UNHASHABLE = ([], {}, set(), ([],), EqNoHash(), EqOther())


def v_in(c, s, a):
    k = dkey(c, s, a[0], a[1])
    v = s.model[k] if a[2] & 1 and k in s.model else c.dv(a[3])
    if a[2] & 2 and s.model:
        vs = list(s.model.values())
        v = vs[a[4] % len(vs)]
    if a[6] & 12 == 0:
        v = VALUE_PROBES[a[6] & 3] if a[6] & 16 else FOREIGN[2]
    elif a[6] & 12 == 4 and type(v) in (list, dict, set, bytearray):
        v = v.copy()
    kind = a[5] % 7
    if kind == 6:
        # a key that is not hashable (or that is equal to keys but hashes otherwise), with a value that is there or not
        nm, x = 'items', (UNHASHABLE[a[4] % len(UNHASHABLE)], v)
        if a[6] & 1:
            nm, x = 'keys', x[0]
        c.rec.label('unhashable in a view')
    elif kind == 0:
        nm, x = 'keys', k
    elif kind in (1, 2):
        nm, x = 'items', (k, v)
    elif kind in (3, 4):
        nm, x = 'values', v
    else:
        nm, x = ('keys', 'items', 'values')[a[6] % 3], PROBES[a[4] % len(PROBES)]
    if any(x is p or type(x) is tuple and len(x) == 2 and x[1] is p for p in FOREIGN) and nm != 'keys':
        # == is asymmetric here (a list is never equal to a foreign object): the two orders of comparison are accepted
        p = x[1] if type(x) is tuple else x
        vs = list(s.model.values()) if nm == 'values' else [s.model[x[0]]] if _hashable(x[:1]) and x[0] in s.model else []
        if type(x) is not tuple and nm == 'items':
            vs = []
        if repr(attempt(lambda: any(bool(p == q) for q in vs))) != repr(attempt(lambda: any(bool(q == p) for q in vs))):
            return
    exp = attempt(lambda: x in getattr(s.model, nm)())
    got = attempt(lambda: x in getattr(s.real, nm)())
    what = f'{D.short(x)} in {s.fam.name}.{nm}() of {D.short(s.model)}'
    if compare_outcome(what, exp, got) and exp[1] is not got[1]:
        fail(f'{what}: {got[1]}')
    c.rec.label('view membership')


def _operand(c, s, a, b, d, items):
    """(object, equal native set)"""
    if items:
        xs = [(k, c.dv((d + 5 * i) & 255)) for i, k in enumerate(c.hvals(a, D.small(b) & 7, b >> 4))]
        own = list(s.model.items())
    else:
        xs = s_values(c, a, b)
        own = list(s.model)
    if d & 3 and own:
        xs = xs[: d >> 6] + own[: 1 + (d >> 2) % len(own)]
    return xs


def _hashable(xs):
    try:
        for x in xs:
            hash(x)
        return True
    except TypeError:
        return False


def v_alg(c, s, a):
    items = a[0] & 1
    xs = _operand(c, s, a[1], a[2], a[3], items)
    own = list(s.model.items()) if items else list(s.model)
    if not _hashable(xs) or not _hashable(own):
        return
    rv, mv = (s.real.items(), s.model.items()) if items else (s.real.keys(), s.model.keys())
    form = a[4] % 6
    arg = (set, frozenset, list, tuple, lambda v: dict.fromkeys(v).keys(), pset)[form](xs)
    op = OPS[(a[0] >> 1) & 3]
    left = a[5] & 1 and form in (0, 1, 2, 3)
    xs = set(xs)
    if left:
        r, m = binop(op, arg, rv), binop(op, set(xs), set(mv))
    else:
        r, m = binop(op, rv, arg), binop(op, set(mv), set(xs))
    what = f'{s.fam.name}.{"items" if items else "keys"}() of {D.short(s.model)} {op} {D.short(arg)} (left operand: {bool(left)})'
    got = list(r)
    if len(got) != len(m) or not all(x in m for x in got):
        fail(f'{what}: {D.short(got)}, expected {D.short(m)}')
    c.rec.label('view algebra')


def v_cmp(c, s, a):
    items = a[0] & 1
    xs = _operand(c, s, a[1], a[2], a[3], items)
    own = list(s.model.items()) if items else list(s.model)
    if a[5] & 3 == 0:
        xs = list(own)
    elif a[5] & 3 == 1:
        xs = own + xs[:1]
    elif a[5] & 12 == 0:
        xs = own[1:]
    if not _hashable(xs) or not _hashable(own):
        return
    rv, ms, arg = (s.real.items() if items else s.real.keys()), set(own), set(xs)
    o = (frozenset, set, pset, lambda v: dict(v).items() if items else dict.fromkeys(v).keys())[a[4] & 3](arg)
    if items and a[4] & 3 == 3:
        arg = set(dict(arg).items())
    what = f'{s.fam.name}.{"items" if items else "keys"}() of {D.short(s.model)} %s {D.short(o)}'
    for nm, g, w in (('<', lambda: rv < o, ms < arg), ('<=', lambda: rv <= o, ms <= arg), ('>', lambda: rv > o, ms > arg),
                     ('>=', lambda: rv >= o, ms >= arg), ('==', lambda: rv == o, ms == arg), ('!=', lambda: rv != o, ms != arg),
                     ('reflected ==', lambda: o == rv, ms == arg), ('isdisjoint', lambda: rv.isdisjoint(o), ms.isdisjoint(arg))):
        if g() is not w:
            fail(f'{what % nm}: {not w}')
    # against an equal view of another dict
    other = pdict(s.model) if a[6] & 1 else tdict(s.model)
    ov = other.items() if items else other.keys()
    if not (rv == ov) or rv != ov or not (rv <= ov):
        fail(f'{s.fam.name} view of {D.short(s.model)} differs from the same view of an equal {type(other).__name__}')
    c.rec.label('view comparison')


VIEWS = dict(vall=(v_all, 26), vin=(v_in, 34), valg=(v_alg, 22), vcmp=(v_cmp, 16))
