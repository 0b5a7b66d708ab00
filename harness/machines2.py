"""Set and dict machines (see machines.py)."""
import collections, types
from machines import *
from machines import _value_in
import domain as D


# =============================================================================== sets

def s_values(c, a, b):
    return c.hvals(a, D.small(b), b >> 4)


def set_iterable(c, values, form):
    """The values as some iterable (duplicates and order kept where the form allows)."""
    form %= 15
    return (list, tuple, iter, lambda v: (x for x in v), set, frozenset, pset, tset, lambda v: dict.fromkeys(v).keys(),
            D.ReIter, plist, lambda v: pdict([(x, 0) for x in v]), D.GetSeq, lambda v: tdict([(x, 0) for x in v]).keys(),
            lambda v: dict(enumerate(v)).values())[form](values)


def set_operand(c, s, a, b, d, allow_self=True):
    """A set-like operand: (object, model set)."""
    f = a % 10
    if f == 0 and allow_self:
        c.rec.label('self operand')
        return s.real, set(s.model)
    if f in (1, 2):
        o = c.operand('set', b)
        return o.real, set(o.model)
    if f == 3 and len(s.model) > 1:
        # part of the set itself: forces overlap
        ms = list(s.model)
        values = ms[: 1 + b % len(ms)] + c.hvals(d, b & 3)
    else:
        values = s_values(c, b, d)
    obj = (pset, tset, set, frozenset, lambda v: dict.fromkeys(v).keys(), lambda v: pdict([(x, 0) for x in v]).keys(),
           pset, tset)[(a >> 4) & 7](values)
    return obj, set(values)


def snew(c, fam, a):
    n = D.size(a[0]) if a[1] & 1 else D.small(a[0])
    values = c.hvals(a[2], n, a[3])
    if a[4] % 16 == 0:
        return c.add(fam, fam.make(), set(), f'{fam.name}()')
    arg = set_iterable(c, values, a[4])
    return c.add(fam, fam.make(arg), set(values), f'{fam.name}({type(arg).__name__} of {n})')


def member(c, s, a, b):
    if a & 3 >= 2 and s.model:
        ms = list(s.model)
        return ms[b % len(ms)]
    return c.hv(b)


def chain_label(c, s, v):
    try:
        h = hash(v)
        k = sum(1 for x in s.model if hash(x) == h)
    except Exception:
        return
    if k >= 2:
        c.rec.label('hash chain')
    if k >= 3:
        c.rec.label('long hash chain')


def check_args_set(c, arg, m, what):
    if isinstance(arg, (set, frozenset, pset, tset)):
        if len(arg) != len(m) or not all(x in m for x in arg):
            fail(f'{what}: changed its operand to {D.short(arg)}')


def ps_add(c, s, a):
    v = member(c, s, a[0], a[1])
    chain_label(c, s, v)
    m = set(s.model)
    m.add(v)
    c.edits += 1
    c.add(s.fam, s.real.add(v), m, f'{s.fam.name}.add({D.short(v, 40)}) to {D.short(s.model)}')


def ps_discard(c, s, a):
    v = member(c, s, a[0], a[1])
    chain_label(c, s, v)
    m = set(s.model)
    m.discard(v)
    c.edits += 1
    c.add(s.fam, s.real.discard(v), m, f'{s.fam.name}.discard({D.short(v, 40)}) from {D.short(s.model)}')


def ps_remove(c, s, a):
    v = member(c, s, a[0], a[1])
    chain_label(c, s, v)
    m = set(s.model)
    exp = attempt(m.remove, v)
    got = attempt(s.real.remove, v)
    what = f'{s.fam.name}.remove({D.short(v, 40)}) from {D.short(s.model)}'
    if compare_outcome(what, exp, got):
        c.edits += 1
        c.add(s.fam, got[1], m, what)


def ps_pop(c, s, a):
    what = f'{s.fam.name}.pop() of {D.short(s.model)}'
    got = attempt(s.real.pop)
    exp = ('ok', None) if s.model else ('err', KeyError())
    if compare_outcome(what, exp, got):
        r = got[1]
        if type(r) is not tuple or len(r) != 2 or r[0] not in s.model:
            fail(f'{what}: returned {D.short(r)}')
        m = set(s.model)
        m.discard(r[0])
        c.edits += 1
        c.add(s.fam, r[1], m, what)


def _removeall_model(model, values):
    """(result if absent values are ignored, whether some removal meets an absent member)"""
    m = set(model)
    absent = False
    for v in values:
        if v in m:
            m.discard(v)
        else:
            absent = True
    return m, absent


def ps_batch(c, s, a):
    nm = ('addall', 'discardall', 'removeall')[a[0] % 3]
    if nm == 'removeall' and s.model and a[3] & 3:
        ms = list(s.model)
        values = ms[: 1 + a[1] % len(ms)]
    else:
        values = s_values(c, a[1], a[2])
    what = f'{s.fam.name}.{nm}({D.short(values)}) of {D.short(s.model)}'
    arg = set_iterable(c, values, a[4]) if a[5] & 15 else s.real
    if arg is s.real:
        values = list(s.model)
    elif a[4] % 15 in (4, 5, 6, 7, 8, 11, 13):
        values = list(dict.fromkeys(values))
    c.edits += 1
    if nm == 'removeall':
        m, absent = _removeall_model(s.model, values)
        got = attempt(s.real.removeall, arg)
        if got[0] == 'err':
            if not absent or not isinstance(got[1], KeyError):
                fail(f'{what}: raised {got[1]!r}')
            return
        c.add(s.fam, got[1], m, what)
        return
    m = set(s.model)
    m = m | set(values) if nm == 'addall' else m - set(values)
    c.add(s.fam, getattr(s.real, nm)(arg), m, what)


OPS = ('|', '&', '-', '^')


def binop(op, x, y):
    return x | y if op == '|' else x & y if op == '&' else x - y if op == '-' else x ^ y


def ps_op(c, s, a):
    op = OPS[a[0] & 3]
    arg, m2 = set_operand(c, s, a[1], a[2], a[3])
    if a[4] & 1 and type(arg) in (set, frozenset, s.fam.cls):
        what = f'{D.short(arg)} {op} {s.fam.name} {D.short(s.model)}'
        r, m = binop(op, arg, s.real), binop(op, m2, s.model)
    else:
        what = f'{s.fam.name} {D.short(s.model)} {op} {type(arg).__name__} {D.short(m2)}'
        r, m = binop(op, s.real, arg), binop(op, s.model, m2)
    c.edits += 1
    c.rec.label('operator ' + op)
    check_slot(s, what + ' (operand)')
    check_args_set(c, arg, m2, what)
    if not s.fam.persistent and (r is s.real or r is arg):
        fail(f'{what}: returned an operand')
    c.add(s.fam, r, m, what)


def s_bad_op(c, s, a):
    """Operators reject operands that are not sets, as set does."""
    arg = ([1], (1,), 3, 'a', {1: 2}, None)[a[0] % 6]
    op = OPS[a[1] & 3]
    r = attempt(binop, op, s.real, arg) if a[2] & 1 else attempt(binop, op, arg, s.real)
    if r[0] == 'ok' or not isinstance(r[1], TypeError):
        fail(f'{s.fam.name} {op} {arg!r}: {r[1]!r}, expected TypeError')
    check_slot(s, 'after a rejected operator')


METHODS = ('union', 'intersection', 'difference', 'symmetric_difference')


def _method_args(c, s, a, n):
    args, sets = [], []
    for j in range(n):
        b = a[2] + 37 * j
        if (a[3] + j) % 5 == 0 and s.model:
            ms = list(s.model)
            values = ms[: 1 + b % len(ms)] + c.hvals(a[4] & 255, b & 1)
        elif (a[3] + j) % 11 == 1:
            args.append(s.real)
            sets.append(set(s.model))
            c.rec.label('self operand')
            continue
        else:
            values = s_values(c, (a[1] + 11 * j) & 255, b & 255)
        args.append(set_iterable(c, values, a[4] + j))
        sets.append(set(values))
    return args, sets


def s_method(c, s, a):
    nm = METHODS[a[0] & 3]
    n = (1, 1, 2, 3, 0, 2, 1, 1)[(a[0] >> 2) & 7]
    if nm == 'symmetric_difference':
        n = 1
    args, sets = _method_args(c, s, a, n)
    what = f'{s.fam.name} {D.short(s.model)}.{nm}({", ".join(type(x).__name__ + D.short(y) for x, y in zip(args, sets))})'
    m = getattr(set(s.model), nm)(*sets)
    r = getattr(s.real, nm)(*args)
    c.edits += 1
    check_slot(s, what + ' (operand)')
    for x, y in zip(args, sets):
        check_args_set(c, x, y, what)
    if not s.fam.persistent and r is s.real:
        fail(f'{what}: returned the set itself')
    c.add(s.fam, r, m, what)


def s_clear(c, s, a):
    if s.fam.persistent:
        c.add(s.fam, s.real.clear(), set(), f'{s.fam.name}.clear()')
    else:
        t_both(c, s, f'{s.fam.name}.clear()', s.model.clear, s.real.clear)


def s_reads(c, s, a):
    """Membership of everything near, length, truth."""
    for b in range(0, 256, 7):
        v = c.hv(b + a[0])
        if (v in s.real) is not (v in s.model):
            fail(f'{D.short(v)} in {s.fam.name} {D.short(s.model)}: {v in s.real}')
    for v in s.model:
        if v not in s.real:
            fail(f'{D.short(v)} not in {s.fam.name} {D.short(s.model)}')
    if bool(s.real) != bool(s.model):
        fail(f'bool({s.fam.name}) = {bool(s.real)}')


def s_run(c, s, a):
    k = (2, 3, 5, 9, 17, 33, 40, 24)[a[0] & 7]
    vs = c.hvals(a[2], k, a[3] & 1)
    add = a[1] & 1
    c.edits += 1
    if s.fam.persistent:
        r = s.real
        for v in vs:
            r = r.add(v) if add else r.discard(v)
        m = s.model | set(vs) if add else s.model - set(vs)
        c.add(s.fam, r, m, f'{s.fam.name} run of {k} {"add" if add else "discard"}')
    else:
        for v in vs:
            s.real.add(v) if add else s.real.discard(v)
            s.model.add(v) if add else s.model.discard(v)
        check_slot(s, f'{s.fam.name} run of {k} {"add" if add else "discard"}')


class Alien:
    """Equal to everything, with a hash of its own: a hash table finds only keys of the same hash."""
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return True


def wear(c, s, a):
    """Many keys come and go: those that stay lie far behind the highest place used."""
    k = (40, 64, 66, 130, 260, 300, 520, 70)[a[0] & 7]
    m, r, fam = s.model, s.real, s.fam
    x = next(q for q in (D.Key(-1 - a[1] % 3 - 3 * j, D.GROUPS[a[2] & 7]) for j in range(len(m) + 1)) if q not in m)
    y = c.hvals(a[3], 1, 0)[0]
    y = x if y in m else y
    is_map = fam.kind == 'map'
    c.rec.label('worn')
    last = a[4] & 1
    for i in range(k):
        z = (x, y)[i & 1]
        if fam.persistent:
            r = r.set(z, None) if is_map else r.add(z)
            if i < k - 1 or not last:
                r = r.drop(z) if is_map else r.discard(z)
        else:
            if is_map:
                r[z] = None
            else:
                r.add(z)
            if i < k - 1 or not last:
                if is_map:
                    del r[z]
                else:
                    r.remove(z)
    c.edits += 1
    what = f'{fam.name}, {k} keys come and gone'
    if last:
        if is_map:
            n = {**m, z: None}
        else:
            n = m | {z}
    else:
        n = type(m)(m)
    if fam.persistent:
        c.add(fam, r, n, what)
    else:
        m.update(n)
        check_slot(s, what)
    return True


def alien(c, s, a):
    """Keys that compare equal to those present but hash otherwise are not present."""
    m, r, fam = s.model, s.real, s.fam
    hs = set(map(hash, m))
    h = hash(list(m)[a[0] % len(m)]) if m and a[1] & 3 else (0x5a5a5a5a5a5, 0, 1, -2, 7)[a[0] % 5]
    if m and a[1] & 3:
        h ^= 1 << a[2] % 61
    x = Alien(h)
    if hash(x) in hs:
        return
    what = f'{fam.name} of {D.short(m)}, a key that is equal to all but hashes to {hash(x)}'
    c.rec.label('equal key with another hash')

    def no(f, msg, err=None):
        g = attempt(f)
        if err is None:
            if g[0] == 'err' or g[1] is not None and g[1] is not False:
                fail(f'{what}: {msg} gives {D.short(g[1])}')
        elif g[0] == 'ok' or not isinstance(g[1], err):
            fail(f'{what}: {msg} gives {D.short(g[1])}')
    no(lambda: x in r, 'in')
    if fam.kind == 'map':
        no(lambda: r.get(x), 'get')
        no(lambda: r[x], '[]', KeyError)
        no(lambda: r.pop(x), 'pop', KeyError)
        no(lambda: x in r.keys(), 'in keys()')
        no(lambda: (x, next(iter(m.values()), 1)) in r.items(), 'in items()')
    else:
        no(lambda: r.remove(x), 'remove', KeyError)
    if fam.persistent:
        y = r.drop(x) if fam.kind == 'map' else r.discard(x)
        check_slot(Slot(fam, y, m), what + ': dropped')
        if fam.kind == 'map':
            no(lambda: r.delete(x), 'delete', KeyError)
            y = r.set(x, SENT)
        else:
            y = r.add(x)
        if len(y) != len(m) + 1 or x not in y or not all(k in y for k in m) or fam.kind == 'map' and (
                y[x] is not SENT or not all(y[k] is v or fam.lazy for k, v in m.items())):
            fail(f'{what}: added, gives {D.short(list(y))}')
        check_slot(Slot(fam, y.drop(x) if fam.kind == 'map' else y.discard(x), m), what + ': added and removed')
    else:
        if fam.kind == 'map':
            def dele():
                del r[x]
            no(dele, 'del', KeyError)
            no(lambda: r.pop(x, None), 'pop with a default')
            if r.setdefault(x, SENT) is not SENT:
                fail(f'{what}: setdefault gives {D.short(r[x])}')
        else:
            r.discard(x)
            r.add(x)
        if len(r) != len(m) + 1 or x not in r or not all(k in r for k in m):
            fail(f'{what}: added, gives {D.short(list(r))}')
        if fam.kind == 'map':
            del r[x]
        else:
            r.remove(x)
    check_slot(s, what + ': afterwards')
    return True


PSET = dict(add=(ps_add, 26), discard=(ps_discard, 20), remove=(ps_remove, 12), pop=(ps_pop, 6), batch=(ps_batch, 12),
            op=(ps_op, 26), method=(s_method, 20), clear=(s_clear, 1), reads=(s_reads, 6), run=(s_run, 6), badop=(s_bad_op, 2),
            alien=(alien, 4), wear=(wear, 2), goto=(goto, 14))


def ts_add(c, s, a):
    v = member(c, s, a[0], a[1])
    chain_label(c, s, v)
    t_both(c, s, f'{s.fam.name}.add({D.short(v, 40)}) to {D.short(s.model)}', lambda: s.model.add(v), lambda: s.real.add(v))


def ts_discard(c, s, a):
    v = member(c, s, a[0], a[1])
    chain_label(c, s, v)
    t_both(c, s, f'{s.fam.name}.discard({D.short(v, 40)}) from {D.short(s.model)}', lambda: s.model.discard(v),
           lambda: s.real.discard(v))


def ts_remove(c, s, a):
    v = member(c, s, a[0], a[1])
    chain_label(c, s, v)
    t_both(c, s, f'{s.fam.name}.remove({D.short(v, 40)}) from {D.short(s.model)}', lambda: s.model.remove(v),
           lambda: s.real.remove(v))


def ts_pop(c, s, a):
    what = f'{s.fam.name}.pop() of {D.short(s.model)}'
    got = attempt(s.real.pop)
    exp = ('ok', None) if s.model else ('err', KeyError())
    if compare_outcome(what, exp, got):
        if got[1] not in s.model:
            fail(f'{what}: returned {D.short(got[1])}')
        s.model.discard(got[1])
        c.edits += 1
    check_slot(s, what)


def ts_batch(c, s, a):
    nm = ('addall', 'discardall', 'removeall', 'update')[a[0] & 3]
    if nm in ('removeall', 'discardall') and s.model and a[3] & 3:
        ms = list(s.model)
        values = ms[: 1 + a[1] % len(ms)]
    else:
        values = s_values(c, a[1], a[2])
    what = f'{s.fam.name}.{nm}({D.short(values)}) of {D.short(s.model)}'
    arg = set_iterable(c, values, a[4]) if a[5] & 7 else s.real
    if arg is s.real:
        values = list(s.model)
        c.rec.label('self operand')
    elif a[4] % 15 in (4, 5, 6, 7, 8, 11, 13):
        values = list(dict.fromkeys(values))
    if nm == 'removeall':
        m, absent = _removeall_model(s.model, values)
        got = attempt(s.real.removeall, arg)
        if absent:
            if got[0] == 'ok' or not isinstance(got[1], KeyError):
                fail(f'{what}: {got[1]!r}, expected KeyError')
            m2 = set(s.model)
            for v in list(arg) if not hasattr(arg, '__next__') else values:
                if v not in m2:
                    break
                m2.discard(v)
            # those before the absent one are gone, as documented for batch operations
            s.model.clear()
            s.model.update(m2)
        else:
            if got[0] == 'err':
                fail(f'{what}: raised {got[1]!r}')
            s.model.clear()
            s.model.update(m)
    else:
        args = (arg,)
        if nm == 'update' and a[6] & 1:
            more = s_values(c, a[6], a[5])
            args += (set_iterable(c, more, a[4] + 1),)
            values = values + more
        getattr(s.real, nm)(*args)
        if nm == 'discardall':
            s.model.difference_update(values)
        else:
            s.model.update(values)
    c.edits += 1
    check_slot(s, what)


def ts_iop(c, s, a):
    op = OPS[a[0] & 3]
    arg, m2 = set_operand(c, s, a[1], a[2], a[3])
    what = f'{s.fam.name} {D.short(s.model)} {op}= {type(arg).__name__} {D.short(m2)}'
    t = s.real
    if op == '|':
        t |= arg
        s.model |= m2
    elif op == '&':
        t &= arg
        s.model &= m2
    elif op == '-':
        t -= arg
        s.model -= m2
    else:
        t ^= arg
        s.model ^= m2
    if t is not s.real:
        fail(f'{what}: made a new object')
    c.edits += 1
    c.rec.label('operator ' + op + '=')
    check_slot(s, what)
    if arg is not s.real:
        check_args_set(c, arg, m2, what)


def ts_upd(c, s, a):
    nm = ('difference_update', 'intersection_update', 'symmetric_difference_update', 'update')[a[0] & 3]
    n = (1, 1, 2, 3, 0, 2, 1, 1)[(a[0] >> 2) & 7]
    if nm == 'symmetric_difference_update':
        n = 1
    args, sets = _method_args(c, s, a, n)
    what = f'{s.fam.name} {D.short(s.model)}.{nm}({", ".join(type(x).__name__ + D.short(y) for x, y in zip(args, sets))})'
    getattr(s.real, nm)(*args)
    getattr(s.model, nm)(*sets)
    c.edits += 1
    check_slot(s, what)
    for x, y in zip(args, sets):
        if x is not s.real:
            check_args_set(c, x, y, what)


TSET = dict(add=(ts_add, 24), discard=(ts_discard, 20), remove=(ts_remove, 12), pop=(ts_pop, 6), batch=(ts_batch, 14),
            iop=(ts_iop, 22), upd=(ts_upd, 14), op=(ps_op, 14), method=(s_method, 10), clear=(s_clear, 2),
            reads=(s_reads, 5), run=(s_run, 6), copy=(t_copy, 4), persistent=(t_persistent, 8), badop=(s_bad_op, 2),
            alien=(alien, 4), wear=(wear, 2), goto=(goto, 10))


# =============================================================================== dicts

def dpairs(c, a, b, d):
    ks = c.hvals(a, D.small(b), b >> 4)
    return [(k, c.dv((d + 5 * i) & 255)) for i, k in enumerate(ks)]


KW = ('a', 'b', 'self', 'cls', 'key', 'arg', 'default', 'k1', 'k2', 'args')


def dkw(c, b, d):
    n = (0, 0, 0, 1, 2, 3, 0, 1)[b & 7]
    return {KW[(b // 8 + i * 3) % len(KW)]: c.dv(d + i) for i in range(n)}


def wrap_pairs(c, fam, pairs, bits):
    return [(k, c.wrap(fam, v, bits + i * (1 + (bits >> 4)))) for i, (k, v) in enumerate(pairs)]


def map_arg(c, fam, pairs, form, bits):
    """Pairs as an argument of a dict constructor or update: (object, model pairs)."""
    ins = wrap_pairs(c, fam, pairs, bits)
    form %= 13
    if form == 9:
        return types.MappingProxyType(dict(ins))
    if form == 10:
        return collections.UserDict(dict(ins))
    if form == 11:
        return (iter(p) for p in ins)
    if form == 12:
        return plist([plist(p) for p in ins])
    if form == 0:
        return c.native(dict(ins))
    if form == 1:
        return c.native(ins)
    if form == 2:
        return iter(ins)
    if form == 3:
        return (p for p in ins)
    if form == 4:
        return pdict(ins)
    if form == 5:
        return tdict(ins)
    if form == 6:
        return dict(ins).items()
    if form == 7:
        return D.ReIter(ins)
    return [list(p) for p in ins]


def dnew(c, fam, a):
    n = D.size(a[0]) if a[1] & 1 else D.small(a[0])
    pairs = [(k, c.dv((a[5] + 5 * i) & 255)) for i, k in enumerate(c.hvals(a[2], n, a[3]))]
    if a[4] % 16 == 0:
        return c.add(fam, fam.make(), {}, f'{fam.name}()')
    kw = dkw(c, a[6], a[5])
    ikw = {k: c.wrap(fam, v, a[3]) for k, v in kw.items()}
    if a[4] % 16 == 1:
        return c.add(fam, fam.make(**ikw), dict(kw), f'{fam.name}(**{D.short(kw)})')
    arg = map_arg(c, fam, pairs, a[4], a[1])
    m = dict(pairs)
    m.update(kw)
    return c.add(fam, fam.make(arg, **ikw), m, f'{fam.name}({type(arg).__name__} of {n}, **{D.short(kw)})')


def dkey(c, s, a, b):
    if a & 3 >= 2 and s.model:
        ks = list(s.model)
        return ks[b % len(ks)]
    return c.hv(b)


def dval_for(c, s, k, a, b):
    if a & 7 == 0 and k in s.model:
        return s.model[k]
    return c.dv(b)


def d_put(m, k, v):
    """What pdict.set and tdict[k] = v do to the model (the key object kept is not claimed)."""
    m[k] = v


def pd_set(c, s, a):
    k = dkey(c, s, a[0], a[1])
    v = dval_for(c, s, k, a[2], a[3])
    chain_label(c, s, k)
    m = dict(s.model)
    d_put(m, k, v)
    c.edits += 1
    c.add(s.fam, s.real.set(k, c.wrap(s.fam, v, a[4])), m, f'{s.fam.name}.set({D.short(k, 40)}) of {D.short(s.model)}')


def pd_drop(c, s, a):
    k = dkey(c, s, a[0], a[1])
    chain_label(c, s, k)
    m = dict(s.model)
    m.pop(k, None)
    c.edits += 1
    c.add(s.fam, s.real.drop(k), m, f'{s.fam.name}.drop({D.short(k, 40)}) of {D.short(s.model)}')


def pd_delete(c, s, a):
    k = dkey(c, s, a[0], a[1])
    chain_label(c, s, k)
    m = dict(s.model)
    exp = attempt(m.__delitem__, k)
    got = attempt(s.real.delete, k)
    what = f'{s.fam.name}.delete({D.short(k, 40)}) of {D.short(s.model)}'
    if compare_outcome(what, exp, got):
        c.edits += 1
        c.add(s.fam, got[1], m, what)


def pd_pop(c, s, a):
    k = dkey(c, s, a[0], a[1])
    chain_label(c, s, k)
    args = () if a[2] & 1 else (c.dv(a[3]),) * (1 + (a[4] & 15 == 15))
    m = dict(s.model)
    exp = attempt(m.pop, k, *args)
    got = attempt(s.real.pop, k, *args)
    what = f'{s.fam.name}.pop({D.short((k,) + args, 60)}) of {D.short(s.model)}'
    if compare_outcome(what, exp, got):
        r = got[1]
        if type(r) is not tuple or len(r) != 2 or r[0] is not exp[1]:
            fail(f'{what}: returned {D.short(r)}')
        c.edits += 1
        c.add(s.fam, r[1], m, what)


def check_pair(s, what, kv):
    if type(kv) is not tuple or len(kv) != 2 or kv[0] not in s.model or s.model[kv[0]] is not kv[1]:
        fail(f'{what}: returned {D.short(kv)}')


def pd_popitem(c, s, a):
    what = f'{s.fam.name}.popitem() of {D.short(s.model)}'
    got = attempt(s.real.popitem)
    if compare_outcome(what, ('ok', None) if s.model else ('err', KeyError()), got):
        r = got[1]
        if type(r) is not tuple or len(r) != 2:
            fail(f'{what}: returned {D.short(r)}')
        check_pair(s, what, r[0])
        m = dict(s.model)
        del m[r[0][0]]
        c.edits += 1
        c.add(s.fam, r[1], m, what)


def pd_setdefault(c, s, a):
    k = dkey(c, s, a[0], a[1])
    chain_label(c, s, k)
    m = dict(s.model)
    what = f'{s.fam.name}.setdefault({D.short(k, 40)}) of {D.short(s.model)}'
    c.edits += 1
    if a[2] & 3 == 0:
        m.setdefault(k)
        c.add(s.fam, s.real.setdefault(k), m, what)
    else:
        v = c.dv(a[3])
        m.setdefault(k, v)
        c.add(s.fam, s.real.setdefault(k, c.wrap(s.fam, v, a[4])), m, what)


def d_update_args(c, s, a):
    args, m = [], dict(s.model)
    n = (1, 1, 1, 2, 0, 1, 2, 1)[a[0] & 7]
    for j in range(n):
        if (a[4] + j) % 10 == 9:
            o = c.operand('map', a[1], (s.fam.name,))
            args.append(o.real)
            if s.fam.persistent or o is not s:      # (a transient updated with itself stays as it is)
                m.update(list(o.model.items()))
            c.rec.label('pool operand')
            continue
        pairs = dpairs(c, (a[1] + 13 * j) & 255, a[2], a[3])
        args.append(map_arg(c, s.fam, pairs, a[4] + j, a[5]))
        m.update(pairs)
    kw = dkw(c, a[6], a[3])
    m.update(kw)
    ikw = {k: c.wrap(s.fam, v, a[5]) for k, v in kw.items()}
    what = f'{s.fam.name} {D.short(s.model)}.update({", ".join(D.short(x, 80) for x in args)}, **{D.short(kw)})'
    return args, ikw, m, what


def pd_update(c, s, a):
    args, kw, m, what = d_update_args(c, s, a)
    c.edits += 1
    c.add(s.fam, s.real.update(*args, **kw), m, what)


def pd_setall(c, s, a):
    pairs = dpairs(c, a[1], a[2], a[3])
    ks = [k for (k, v) in pairs]
    vs = [v for (k, v) in wrap_pairs(c, s.fam, pairs, a[5])]
    m = dict(s.model)
    m.update(pairs)
    if a[4] & 1:
        ks, vs = iter(ks), iter(vs)
    c.edits += 1
    c.add(s.fam, s.real.setall(ks, vs), m, f'{s.fam.name}.setall of {D.short(pairs)} on {D.short(s.model)}')


def pd_dropall(c, s, a):
    nm = ('dropall', 'deleteall')[a[0] & 1]
    if a[3] & 3 and s.model:
        ks = list(s.model)
        ks = ks[: 1 + a[1] % len(ks)] + (c.hvals(a[2], 1) if a[3] & 4 else [])
    else:
        ks = s_values(c, a[1], a[2])
    m = dict(s.model)
    what = f'{s.fam.name}.{nm}({D.short(ks)}) of {D.short(s.model)}'
    arg = set_iterable(c, ks, (0, 1, 2, 3, 9, 10)[a[4] % 6])
    if nm == 'dropall':
        for k in ks:
            m.pop(k, None)
        c.edits += 1
        c.add(s.fam, s.real.dropall(arg), m, what)
    else:
        def doit():
            for k in ks:
                del m[k]
        exp = attempt(doit)
        got = attempt(s.real.deleteall, arg)
        if compare_outcome(what, exp, got):
            c.edits += 1
            c.add(s.fam, got[1], m, what)


def d_clear(c, s, a):
    if s.fam.persistent:
        c.add(s.fam, s.real.clear(), {}, f'{s.fam.name}.clear()')
    else:
        t_both(c, s, f'{s.fam.name}.clear()', s.model.clear, s.real.clear)


SENT = object()


def d_lookup(c, s, a):
    k = dkey(c, s, a[0], a[1])
    what = f'key {D.short(k, 60)} of {s.fam.name} {D.short(s.model)}'
    exp, got = attempt(s.model.__getitem__, k), attempt(lambda: s.real[k])
    if compare_outcome(what, exp, got) and exp[1] is not got[1]:
        fail(f'{what}: {D.short(got[1])}, expected {D.short(exp[1])}')
    d = (None, Ellipsis, SENT, 0)[a[2] & 3]
    if s.real.get(k, d) is not s.model.get(k, d) or s.real.get(k) is not s.model.get(k):
        fail(f'get {what}: {D.short(s.real.get(k, d))}')
    if (k in s.real) is not (k in s.model):
        fail(f'{what}: in is {k in s.real}')


def d_reads(c, s, a):
    for b in range(0, 256, 9):
        k = c.hv(b + a[0])
        if (k in s.real) is not (k in s.model):
            fail(f'{D.short(k)} in {s.fam.name} {D.short(s.model)}: {k in s.real}')
        if s.real.get(k, SENT) is not s.model.get(k, SENT):
            fail(f'{s.fam.name}.get({D.short(k)}): {D.short(s.real.get(k, SENT))} in {D.short(s.model)}')
    for k, v in s.model.items():
        if s.real[k] is not v:
            fail(f'{s.fam.name}[{D.short(k)}]: {D.short(s.real[k])}, expected {D.short(v)}')
    if bool(s.real) != bool(s.model) or len(s.real) != len(s.model):
        fail(f'len({s.fam.name}) = {len(s.real)}')


def d_run(c, s, a):
    k = (2, 3, 5, 9, 17, 33, 40, 24)[a[0] & 7]
    ks = c.hvals(a[2], k, a[3] & 1)
    add = a[1] & 3 != 0
    v = c.dv(a[4])
    c.edits += 1
    m = dict(s.model)
    for x in ks:
        if add:
            m[x] = v
        else:
            m.pop(x, None)
    w = c.wrap(s.fam, v, a[5])
    if s.fam.persistent:
        r = s.real
        for x in ks:
            r = r.set(x, w) if add else r.drop(x)
        c.add(s.fam, r, m, f'{s.fam.name} run of {k} {"set" if add else "drop"}')
    else:
        for x in ks:
            if add:
                s.real[x] = w
            else:
                s.real.pop(x, None)
        s.model.clear()
        s.model.update(m)
        check_slot(s, f'{s.fam.name} run of {k} {"set" if add else "pop"}')


PDICT = dict(set=(pd_set, 30), drop=(pd_drop, 18), delete=(pd_delete, 12), pop=(pd_pop, 16), popitem=(pd_popitem, 6),
             setdefault=(pd_setdefault, 8), update=(pd_update, 12), setall=(pd_setall, 6), dropall=(pd_dropall, 10),
             clear=(d_clear, 1), lookup=(d_lookup, 10), reads=(d_reads, 6), run=(d_run, 8), alien=(alien, 4), wear=(wear, 2), goto=(goto, 14))


def td_set(c, s, a):
    k = dkey(c, s, a[0], a[1])
    v = dval_for(c, s, k, a[2], a[3])
    chain_label(c, s, k)
    x = c.wrap(s.fam, v, a[4])
    t_both(c, s, f'{s.fam.name}[{D.short(k, 40)}] = {D.short(v, 40)} on {D.short(s.model)}',
           lambda: s.model.__setitem__(k, v), lambda: s.real.__setitem__(k, x))


def td_del(c, s, a):
    k = dkey(c, s, a[0], a[1])
    chain_label(c, s, k)
    t_both(c, s, f'del {s.fam.name}[{D.short(k, 40)}] of {D.short(s.model)}', lambda: s.model.__delitem__(k),
           lambda: s.real.__delitem__(k))


def td_pop(c, s, a):
    k = dkey(c, s, a[0], a[1])
    chain_label(c, s, k)
    args = () if a[2] & 1 else (c.dv(a[3]),) * (1 + (a[4] & 15 == 15))
    t_both(c, s, f'{s.fam.name}.pop({D.short((k,) + args, 60)}) of {D.short(s.model)}', lambda: s.model.pop(k, *args),
           lambda: s.real.pop(k, *args))


def td_popitem(c, s, a):
    what = f'{s.fam.name}.popitem() of {D.short(s.model)}'
    got = attempt(s.real.popitem)
    if compare_outcome(what, ('ok', None) if s.model else ('err', KeyError()), got):
        check_pair(s, what, got[1])
        del s.model[got[1][0]]
        c.edits += 1
    check_slot(s, what)


def td_setdefault(c, s, a):
    k = dkey(c, s, a[0], a[1])
    chain_label(c, s, k)
    args = () if a[2] & 3 == 0 else (c.dv(a[3]),)
    t_both(c, s, f'{s.fam.name}.setdefault({D.short((k,) + args, 60)}) of {D.short(s.model)}',
           lambda: s.model.setdefault(k, *args), lambda: s.real.setdefault(k, *args))


def td_update(c, s, a):
    args, kw, m, what = d_update_args(c, s, a)
    got = attempt(s.real.update, *args, **kw)
    if got[0] == 'err':
        fail(f'{what}: raised {got[1]!r}')
    if got[1] is not None:
        fail(f'{what}: returned {D.short(got[1])}')
    s.model.clear()
    s.model.update(m)
    c.edits += 1
    check_slot(s, what)


TDICT = dict(set=(td_set, 34), delete=(td_del, 22), pop=(td_pop, 16), popitem=(td_popitem, 6), setdefault=(td_setdefault, 10),
             update=(td_update, 12), clear=(d_clear, 2), lookup=(d_lookup, 10), reads=(d_reads, 6), run=(d_run, 8),
             copy=(t_copy, 4), persistent=(t_persistent, 10), alien=(alien, 4), wear=(wear, 2), goto=(goto, 10))


NEW = {'seq': seq_new, 'set': snew, 'map': dnew}
EDITS = {('seq', True): PSEQ, ('seq', False): TSEQ, ('set', True): PSET, ('set', False): TSET, ('map', True): PDICT,
         ('map', False): TDICT}


HUGE = (2047, 2048, 2049, 2500, 3000, 4095, 4096, 4097, 5000, 6000, 8192, 8193, 10001, 12000, 16385, 33000)


def huge_new(c, fam, a):
    """A collection of thousands of different elements, with lazy ones here and there in the lazy types."""
    n = HUGE[a[0] & 15]
    c.maxlen = 3 * n
    if not fam.persistent and a[6] & 1:
        # ... the transient of a persistent one, which must stay as it is
        s = huge_new(c, FAM[fam.pers], a[:6] + (0,))
        c.pool.clear()
        c.keep = [s]
        return c.add(fam, s.real.transient(), type(s.model)(s.model), f'{s.fam.name}.transient()')
    if fam.kind == 'seq':
        values = list(range(n)) if a[1] & 3 else [c.v(i & 255) if i % 3 == 0 else i for i in range(n)]
    else:
        values = c.hvals(a[2], n, a[3])
    if fam.kind == 'set':
        return c.add(fam, fam.make(values), set(values), f'{fam.name}(list of {n})')
    if fam.kind == 'map':
        pairs = [(k, i if i % 5 else c.dv(i & 255)) for i, k in enumerate(values)]
        arg = [(k, c.wrap(fam, v, a[4]) if i % 97 == 0 else v) for i, (k, v) in enumerate(pairs)]
        return c.add(fam, fam.make(dict(arg) if a[1] & 4 else arg), dict(pairs), f'{fam.name}(pairs of {n})')
    arg = [c.wrap(fam, v, a[4]) if i % 97 == 0 else v for i, v in enumerate(values)]
    k = (0, 0, n // 2, n, 40, n - 40, a[2], a[3])[a[5] & 7]
    if k == 0:
        return c.add(fam, fam.make(arg), values, f'{fam.name}(list of {n})')
    # made in a transient, the first k elements from the front
    g = fam if not fam.persistent else FAM[fam.trans]
    t = g.make(arg[k:])
    for x in reversed(arg[:k]):
        t.prepend(x)
    return c.add(fam, t.persistent() if fam.persistent else t, values, f'{fam.name} of {n}, {k} of them prepended')


def _bulk_seq(c, s, a):
    """(name, call of the real list, new model) of an operation on thousands of elements."""
    m, n = s.model, len(s.model)
    k = (300, 1025, 2048, 4097)[a[0] & 3]
    new = [c.v(a[1])] * 3 + list(range(n, n + k))
    ins = [c.wrap(s.fam, v, a[2]) if i % 97 == 5 else v for i, v in enumerate(new)]
    own = type(s.real)
    if s.fam.persistent:
        return (('extend', lambda r: r.extend(iter(ins)), m + new), ('+ list', lambda r: r + ins, m + new),
                ('list +', lambda r: ins + r, new + m), ('+ own', lambda r: r + own(ins), m + new),
                ('* 2', lambda r: r * 2, m * 2), ('reverse', lambda r: r.reverse(), m[::-1]),
                ('sort', lambda r: r.sort(key=repr, reverse=True), sorted(m, key=repr, reverse=True)),
                ('slice', lambda r: r[k % n:], m[k % n:] if n else m))[a[3] & 7 if n else 0]
    return (('extend', lambda r: r.extend(iter(ins)), m + new), ('+=', lambda r: r.__iadd__(own(ins)), m + new),
            ('extend itself', lambda r: r.extend(r), m + m), ('+= itself', lambda r: r.__iadd__(r), m + m),
            ('*=', lambda r: r.__imul__(2), m * 2), ('reverse', lambda r: r.reverse(), m[::-1]),
            ('sort', lambda r: r.sort(key=repr, reverse=True), sorted(m, key=repr, reverse=True)),
            ('extend list', lambda r: r.extend(ins), m + new))[a[3] & 7]


def _bulk_set(c, s, a):
    m = s.model
    k = (300, 1025, 2048, 4097)[a[0] & 3]
    own = sorted(m, key=repr)[a[1] % 7:: 1 + (a[1] & 3)] if m else []
    xs = own + c.hvals(a[2] | 32, k, a[1])
    y = set(xs)
    arg = (list, set, frozenset, pset, tset, iter, tuple, lambda v: dict.fromkeys(v).keys())[a[4] & 7](xs)
    oper = (set, frozenset, pset, tset)[a[4] & 3](xs)
    out = [('|', lambda r: r | oper, m | y), ('&', lambda r: r & oper, m & y), ('-', lambda r: r - oper, m - y), ('^', lambda r: r ^ oper, m ^ y),
           ('union', lambda r: r.union(arg), m | y), ('intersection', lambda r: r.intersection(arg), m & y),
           ('difference', lambda r: r.difference(arg), m - y), ('symmetric_difference', lambda r: r.symmetric_difference(arg), m ^ y)]
    if s.fam.persistent:
        out += [('addall', lambda r: r.addall(arg), m | y), ('discardall', lambda r: r.discardall(arg), m - y),
                ('removeall', lambda r: r.removeall(own), m - set(own))]
    else:
        i = a[3] % 12
        ins = [('|=', lambda r: r.__ior__(oper), m | y), ('&=', lambda r: r.__iand__(oper), m & y), ('-=', lambda r: r.__isub__(oper), m - y),
               ('^=', lambda r: r.__ixor__(oper), m ^ y), ('update', lambda r: r.update(arg), m | y), ('addall', lambda r: r.addall(arg), m | y),
               ('discardall', lambda r: r.discardall(arg), m - y), ('removeall', lambda r: r.removeall(own), m - set(own)),
               ('difference_update', lambda r: r.difference_update(arg), m - y),
               ('intersection_update', lambda r: r.intersection_update(arg), m & y),
               ('symmetric_difference_update', lambda r: r.symmetric_difference_update(arg), m ^ y)]
        if a[3] & 64:
            return ins[i % len(ins)]
        nm, f, new = out[i % len(out)]
        return nm + ' (a new set)', f, new
    return out[a[3] % len(out)]


def _bulk_map(c, s, a):
    m = s.model
    k = (300, 1025, 2048, 4097)[a[0] & 3]
    own = list(m)[a[1] % 7:: 1 + (a[1] & 3)]
    ks = own[: k] + c.hvals(a[2] | 32, k, a[1]) if a[4] & 16 else c.hvals(a[2] | 32, k, a[1]) + own[: k]
    pairs = [(x, -i) for i, x in enumerate(ks)]
    arg = (list, dict, pdict, tdict, iter)[a[4] % 5](pairs)
    up = {**m}
    up.update(pairs)
    gone = set(own)
    left = {x: v for x, v in m.items() if x not in gone}
    if s.fam.persistent:
        return (('update', lambda r: r.update(arg), up), ('setall', lambda r: r.setall([x for x, _ in pairs], (v for _, v in pairs)), up),
                ('dropall', lambda r: r.dropall(own + ks[-1:] * (ks[-1] not in m)), left),
                ('deleteall', lambda r: r.deleteall(own), left))[a[3] & 3]
    return (('update', lambda r: r.update(arg), up), ('update twice', lambda r: r.update(pairs[:9], arg), up))[a[3] & 1]


def h_bulk(c, s, a):
    nm, f, m = {'seq': _bulk_seq, 'set': _bulk_set, 'map': _bulk_map}[s.fam.kind](c, s, a)
    if len(m) > c.maxlen:
        return
    what = f'{nm} on a {s.fam.name} of {len(s.model)}'
    got = attempt(f, s.real)
    if got[0] != 'ok':
        fail(f'{what}: {got[1]!r}')
    c.edits += 1
    if s.fam.persistent:
        c.add(s.fam, got[1], m, what)
    elif nm[-5:] == ' set)':
        c.add(s.fam, got[1], m, what)
        check_slot(s, what + ': the operand')
    else:
        if nm[-1] == '=' and got[1] is not s.real:
            fail(f'{what} returned another object')
        s.model = m
        check_slot(s, what)
    c.rec.label('bulk ' + nm)


def huge(fam, ops, quick=50, name=None):
    """A part: the machine on collections of thousands of elements."""
    ops = dict(ops, bulk=(h_bulk, 60))
    tab = table(ops)

    def run(case, rec):
        c = run_machine([fam], ops, case, rec, new=huge_new)
        if case['ops']:
            rec.nontrivial()
        if any(len(s.model) > 9000 for s in c.pool):
            rec.label('over 9000 elements')
    return core.Part(name or f'huge {fam.name}', lambda d: program(d, tab), run, quick=quick, sizes=((3, 6), (5, 10)))


def run_machine(fams, ops, case, rec, nontrivial=None, new=None, steps_check=None):
    """Runs a program: the header constructs one object of a family, the rest are operations."""
    h = case['head']
    c = Ctx(h[0], rec)
    fam = fams[h[7] % len(fams)]
    (new or NEW[fam.kind])(c, fam, h[1:])
    for op in case['ops']:
        s = c.slot()
        ops[op[0]][0](c, s, op[1:])
    c.final()
    for q in getattr(c, 'keep', ()):
        check_slot(q, 'a persistent value taken earlier, at the end')
    if any(len(s.model) > 32 for s in c.pool):
        rec.label('over 32 elements')
    if any(len(s.model) > 1024 for s in c.pool):
        rec.label('over 1024 elements')
    return c
