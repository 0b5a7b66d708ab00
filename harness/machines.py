"""Model-based machines: each step applies one generated operation to a library object and
to a built-in model of it (list, dict or set), and compares outcome and contents.

A Slot is one live object with its model.  A machine works on a pool of slots, so histories
branch: every operation is applied to some slot of the pool, persistent operations add new
slots, transient operations change theirs.  Lazy families insert lazy objects in place of
some values; their models hold the values themselves.
"""
import collections
import core
from core import Violation
import domain as D

import pcollections as pc
from pcollections import plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict, tldict, lazy

MAXLEN = 2400


class Fam:
    """A collection type: how to build it, and what its operations return."""
    def __init__(self, name, kind, persistent, cls, lazy=False, make=None, pers=None, trans=None):
        self.name, self.kind, self.persistent, self.cls, self.lazy = name, kind, persistent, cls, lazy
        self.make = make or cls
        self.pers = pers        # name of the persistent counterpart
        self.trans = trans      # name of the transient counterpart

    def __repr__(self):
        return self.name


FAM = {}
for f in (Fam('plist', 'seq', True, plist, trans='tlist'), Fam('tlist', 'seq', False, tlist, pers='plist'),
          Fam('llist', 'seq', True, llist, lazy=True, trans='tllist'),
          Fam('tllist', 'seq', False, tllist, lazy=True, pers='llist'),
          Fam('pset', 'set', True, pset, trans='tset'), Fam('tset', 'set', False, tset, pers='pset'),
          Fam('pdict', 'map', True, pdict, trans='tdict'), Fam('tdict', 'map', False, tdict, pers='pdict'),
          Fam('ldict', 'map', True, ldict, lazy=True, trans='tldict'),
          Fam('tldict', 'map', False, tldict, lazy=True, pers='ldict')):
    FAM[f.name] = f


class Slot:
    __slots__ = ('fam', 'real', 'model', 'note')

    def __init__(self, fam, real, model):
        self.fam, self.real, self.model, self.note = fam, real, model, None


class Thunk:
    """The function of a lazy element: returns its value and counts its runs."""
    __slots__ = ('value', 'runs')

    def __init__(self, value):
        self.value = value
        self.runs = 0

    def __call__(self):
        self.runs += 1
        return self.value


def attempt(fn, *args, **kw):
    """('ok', result) or ('err', exception); harness faults and hangs pass through."""
    try:
        return 'ok', fn(*args, **kw)
    except (Violation, core.HarnessError, MemoryError):
        raise
    except Exception as e:
        return 'err', e


def fail(msg):
    raise Violation(msg)


def contents(fam, real):
    """The contents by plain iteration, in order."""
    if fam.kind == 'map':
        return list(real.items())
    return list(real)


def check_slot(s, what, full=True):
    """The object has exactly the model's type, size, contents and (lists and dicts) order."""
    fam, real, model = s.fam, s.real, s.model
    if type(real) is not fam.cls:
        fail(f'{what}: result is a {type(real).__name__}, not a {fam.cls.__name__}')
    n = len(real)
    if n != len(model):
        fail(f'{what}: length {n}, expected {len(model)}; got {D.short(contents(fam, real))}, '
             f'expected {D.short(model)}')
    if not full:
        return
    if fam.kind == 'seq':
        got = list(real)
        if len(got) != n or not all(a is b for a, b in zip(got, model)):
            fail(f'{what}: contents {D.short(got)}, expected {D.short(model)}')
    elif fam.kind == 'map':
        got = list(real.items())
        want = list(model.items())
        if len(got) != n or not all(type(g) is tuple and len(g) == 2 and (g[0] is w[0] or g[0] == w[0]) and g[1] is w[1]
                                    for g, w in zip(got, want)):
            fail(f'{what}: items {D.short(got)}, expected {D.short(want)}')
        ks = list(real)
        if len(ks) != n or not all(a is b or a == b for a, b in zip(ks, model)):
            fail(f'{what}: keys {D.short(ks)}, expected {D.short(list(model))}')
    else:
        got = list(real)
        if len(got) != n or not all(x in model for x in got) or len(set(got)) != n:
            fail(f'{what}: members {D.short(got)}, expected {D.short(model)}')


def compare_outcome(what, exp, got):
    """Both failed with the same exception class, or both succeeded.  True if both succeeded."""
    if exp[0] != got[0]:
        if exp[0] == 'err':
            fail(f'{what}: returned {D.short(got[1])}, expected {type(exp[1]).__name__}')
        fail(f'{what}: raised {type(got[1]).__name__}: {got[1]}, expected {D.short(exp[1])}')
    if exp[0] == 'err':
        if not isinstance(got[1], type(exp[1])):
            fail(f'{what}: raised {type(got[1]).__name__}: {got[1]}, expected {type(exp[1]).__name__}')
        return False
    return True


class Ctx:
    """One case: the universe of values, the pool, and labels."""
    def __init__(self, universe, rec, maxpool=40):
        self.u = universe & 3
        self.lazymode = (universe >> 2) & 3
        self.rec = rec
        self.pool = []
        self.cur = 0
        self.maxpool = maxpool
        self.edits = 0
        self.maxlen = MAXLEN
        self.thunks = []
        self.args = []                  # native arguments handed to the library, with their copies

    # ---- elements
    def v(self, b):
        return D.val(self.u, b)

    def hv(self, b):
        return D.hval(self.u, b)

    def dv(self, b):
        return D.dval(self.u, b)

    def wrap(self, fam, value, bit):
        """What to insert for value: the value or, in lazy families, maybe a lazy object."""
        if not fam.lazy or not (bit & 1 or self.lazymode == 1) or self.lazymode == 2:
            return value
        th = Thunk(value)
        self.thunks.append(th)
        z = lazy(th)
        if bit & 6 == 6:
            z()
        return z

    def vals(self, b, n, k=1):
        """n values derived from two bytes."""
        st = (1, 1, 3, 7, 0, 5, 11, 2)[k & 7]
        return [D.val(self.u, (b + i * st) & 255) for i in range(n)]

    def hvals(self, b, n, k=1):
        st = (1, 1, 3, 7, 5, 8, 24, 2)[k & 7]
        if n > 40:
            self.rec.label('many different keys')
            return [D.wide(self.u, (b & 63) + i * (1 + (k & 1))) for i in range(n)]
        return [D.hval(self.u, (b + i * st) & 255) for i in range(n)]

    def wraps(self, fam, values, bits):
        if not fam.lazy:
            return list(values)
        return [self.wrap(fam, v, bits + i * (1 + (bits >> 4))) for i, v in enumerate(values)]

    # ---- pool
    def add(self, fam, real, model, what, full=True):
        s = Slot(fam, real, model)
        check_slot(s, what, full)
        if len(self.pool) < self.maxpool:
            self.pool.append(s)
            self.cur = len(self.pool) - 1
        else:
            self.pool[self.cur] = s
        return s

    def slot(self):
        return self.pool[self.cur]

    def operand(self, kind, b, fams=None):
        """Some slot of the given kind in the pool (maybe the current one)."""
        c = [s for s in self.pool if s.fam.kind == kind and (fams is None or s.fam.name in fams)]
        return c[b % len(c)] if c else None

    def native(self, obj):
        """Remembers a native argument so that check_args can see that it was not changed."""
        self.args.append((obj, type(obj)(obj)))
        return obj

    def check_args(self, what):
        for (o, c) in self.args:
            if len(o) != len(c) or not all(a is b for a, b in zip(o, c)) or (
                    isinstance(o, dict) and not all(o[k] is c[k] for k in c)):
                fail(f'{what}: changed its argument to {D.short(o)} from {D.short(c)}')
        self.args = self.args[-8:]

    def final(self):
        for i, s in enumerate(self.pool):
            check_slot(s, f'at the end, object {i} ({s.fam.name})')
        self.check_args('at the end')


def iterable_forms(c, fam, values, form, bits):
    """The inserted elements in some iterable form (never lazily evaluated by its own iteration)."""
    ins = c.wraps(fam, values, bits)
    form %= 11
    if form in (0, 1):
        return c.native(ins)
    if form == 8:
        return D.GetSeq(ins)
    if form == 9:
        return collections.deque(ins)
    if form == 10:
        return dict(enumerate(ins)).values()
    if form == 2:
        return tuple(ins)
    if form == 3:
        return iter(ins)
    if form == 4:
        return (x for x in ins)
    if form == 5:
        return plist(ins)
    if form == 6:
        return D.ReIter(ins)
    return tlist(ins)


# =============================================================================== sequences

def seq_new(c, fam, a):
    """Construct from an iterable of some form and size."""
    n = D.size(a[0]) if a[1] & 1 or not c.lazymode & 2 else D.size(a[0] % 160)
    values = c.vals(a[2], n, a[3])
    if a[4] % 16 == 0:
        return c.add(fam, fam.make(), [], f'{fam.name}()')
    arg = iterable_forms(c, fam, values, a[4], a[5])
    if fam.lazy and type(arg) in (plist, tlist) or not fam.lazy:
        pass
    r = fam.make(arg)
    return c.add(fam, r, values, f'{fam.name}({type(arg).__name__} of {n})')


def seq_list_operand(c, s, a, b, allow=('list', 'same', 'pool')):
    """A right/left operand of + for slot s: (object, model)."""
    form = allow[a % len(allow)]
    if form == 'pool':
        o = c.operand('seq', b, SEQ_OPERANDS.get(s.fam.name, (s.fam.name,)))
        if o is not None and len(o.model) + len(s.model) <= c.maxlen:
            return o.real, list(o.model)
        form = 'list'
    values = c.vals(b, D.small(a >> 3), a >> 5)
    ins = c.wraps(s.fam, values, b)
    if form == 'same':
        return s.fam.make(ins), values
    return c.native(list(ins)), values


# Which families may appear as the other operand of + for a family.
SEQ_OPERANDS = {'plist': ('plist',), 'llist': ('llist',), 'tlist': ('tlist', 'plist'), 'tllist': ('tllist', 'llist')}


def seq_index(c, s, a, b, d):
    return D.index(len(s.model), a, b * 256 + d if len(s.model) > 200 else b)


# ---- persistent edits: (op name) -> function(c, s, a)

def p_set(c, s, a):
    n = len(s.model)
    i = seq_index(c, s, a[0], a[1], a[2])
    v = c.v(a[3])
    if a[4] & 7 == 0 and -n <= i < n:
        v = s.model[i]
    x = c.wrap(s.fam, v, a[5])
    m = list(s.model)
    exp = attempt(m.__setitem__, i, v)
    got = attempt(s.real.set, i, x)
    if compare_outcome(f'set({i})', exp, got):
        c.edits += 1
        c.add(s.fam, got[1], m, f'{s.fam.name} set({i}) n={n}')


def _delete(name):
    def f(c, s, a):
        n = len(s.model)
        m = list(s.model)
        if a[3] & 7 == 0:
            args = ()
            i = -1
        else:
            i = seq_index(c, s, a[0], a[1], a[2])
            args = (i,)
        what = f'{s.fam.name} {name}({i}) n={n}'
        if name == 'drop':
            if -n <= i < n:
                del m[i]
            got = attempt(s.real.drop, *args)
            if compare_outcome(what, ('ok', None), got):
                if not -n <= i < n and got[1] is not s.real:
                    check_slot(Slot(s.fam, got[1], m), what)
                c.edits += 1
                c.add(s.fam, got[1], m, what)
            return
        exp = attempt(m.pop, i)
        got = attempt(getattr(s.real, name), *args)
        if compare_outcome(what, exp, got):
            r = got[1]
            if name == 'pop':
                if type(r) is not tuple or len(r) != 2:
                    fail(f'{what}: returned {D.short(r)}, not (element, list)')
                if r[0] is not exp[1]:
                    fail(f'{what}: popped {D.short(r[0])}, expected {D.short(exp[1])}')
                r = r[1]
            c.edits += 1
            if n > 2 and 0 < (i % n) < n - 1:
                c.rec.label('middle edit')
            c.add(s.fam, r, m, what)
    return f


p_delete, p_drop, p_pop = _delete('delete'), _delete('drop'), _delete('pop')


def p_append(c, s, a):
    v = c.v(a[0])
    c.edits += 1
    c.add(s.fam, s.real.append(c.wrap(s.fam, v, a[1])), s.model + [v], f'{s.fam.name} append')


def p_prepend(c, s, a):
    v = c.v(a[0])
    c.edits += 1
    c.rec.label('prepend')
    c.add(s.fam, s.real.prepend(c.wrap(s.fam, v, a[1])), [v] + s.model, f'{s.fam.name} prepend')


def p_insert(c, s, a):
    n = len(s.model)
    i = seq_index(c, s, a[0], a[1], a[2])
    v = c.v(a[3])
    m = list(s.model)
    m.insert(i, v)
    c.edits += 1
    if n and 0 < (i % n) < n:
        c.rec.label('middle edit')
    c.add(s.fam, s.real.insert(i, c.wrap(s.fam, v, a[4])), m, f'{s.fam.name} insert({i}) n={n}')


def p_extend(c, s, a):
    if a[0] & 7 == 7:
        arg, values = s.real, list(s.model)
        if s.fam.lazy and False:
            return
    elif a[0] & 7 == 6:
        arg, values = seq_list_operand(c, s, a[1], a[2], ('pool',))
    else:
        values = c.vals(a[2], D.small(a[1]), a[1] >> 5)
        arg = iterable_forms(c, s.fam, values, a[3], a[4])
    if len(s.model) + len(values) > c.maxlen:
        return
    c.edits += 1
    c.add(s.fam, s.real.extend(arg), s.model + values, f'{s.fam.name} extend({type(arg).__name__} of {len(values)})')


def p_add(c, s, a):
    arg, values = seq_list_operand(c, s, a[0], a[1])
    if len(s.model) + len(values) > c.maxlen:
        return
    c.edits += 1
    if a[2] & 1 and type(arg) is list:
        c.add(s.fam, arg + s.real, values + s.model, f'list + {s.fam.name} ({len(values)} + {len(s.model)})')
    elif a[2] & 1:
        c.add(s.fam, arg + s.real, values + s.model, f'{type(arg).__name__} + {s.fam.name} ({len(values)} + {len(s.model)})')
    else:
        c.add(s.fam, s.real + arg, s.model + values,
              f'{s.fam.name} + {type(arg).__name__} ({len(s.model)} + {len(values)})')


def p_mul(c, s, a):
    k = (-1, 0, 1, 2, 3, 2, 4, -5)[a[0] & 7]
    if len(s.model) * k > c.maxlen:
        return
    c.edits += 1
    r = s.real * k if a[1] & 1 else k * s.real
    c.add(s.fam, r, s.model * k, f'{s.fam.name} * {k} n={len(s.model)}')


def _value_in(c, s, a, b):
    """A value to look for: one of the list, or any."""
    if a & 3 and len(s.model):
        return s.model[b % len(s.model)]
    return c.v(b)


def p_remove(c, s, a):
    v = _value_in(c, s, a[0], a[1])
    m = list(s.model)
    exp = attempt(m.remove, v)
    got = attempt(s.real.remove, v)
    if compare_outcome(f'{s.fam.name} remove({D.short(v, 40)}) n={len(s.model)}', exp, got):
        c.edits += 1
        c.add(s.fam, got[1], m, f'{s.fam.name} remove')


def p_sort(c, s, a):
    key, rev = D.sort_key(a[0])
    kw = {}
    if key is not None or a[1] & 1:
        kw['key'] = key
    if rev or a[1] & 2:
        kw['reverse'] = rev
    exp = attempt(sorted, s.model, **kw)
    got = attempt(s.real.sort, **kw)
    if compare_outcome(f'{s.fam.name} sort n={len(s.model)}', exp, got):
        c.edits += 1
        c.add(s.fam, got[1], exp[1], f'{s.fam.name} sort({kw}) n={len(s.model)}')


def p_reverse(c, s, a):
    c.edits += 1
    c.add(s.fam, s.real.reverse(), s.model[::-1], f'{s.fam.name} reverse n={len(s.model)}')


def p_clear(c, s, a):
    r = s.real.clear()
    c.add(s.fam, r, [], f'{s.fam.name} clear')


def seq_slice(c, s, a):
    if s.fam.name.startswith('Min'):     # their item access takes nothing but indices
        return
    n = len(s.model)
    sl = slice(D.bound(n, a[0], a[1]), D.bound(n, a[2], a[3]), D.step(a[4]))
    c.rec.label('slice')
    if sl.step is not None and sl.step < 0:
        c.rec.label('negative step')
    c.add(s.fam, s.real[sl], s.model[sl], f'{s.fam.name}[{sl.start}:{sl.stop}:{sl.step}] n={n}')


def p_run(c, s, a):
    """Several appends, prepends, or removals at one end: crosses node boundaries and zero."""
    k = (2, 3, 5, 9, 17, 33, 40, 70)[a[0] & 7]
    r, m = s.real, list(s.model)
    op = a[1] & 3
    if op < 2:
        vs = c.vals(a[2], k, a[3])
        xs = c.wraps(s.fam, vs, a[4])
        if len(m) + k > c.maxlen:
            return
        for x in xs:
            r = r.append(x) if op == 0 else r.prepend(x)
        m = m + vs if op == 0 else vs[::-1] + m
        if op == 1:
            c.rec.label('prepend run')
    else:
        k = min(k, len(m))
        if k and a[5] & 3 == 0:
            k = len(m)
        for _ in range(k):
            r = r.delete(0) if op == 2 else r.delete(-1)
        m = m[k:] if op == 2 else m[:len(m) - k]
        c.rec.label('pop run')
    c.edits += 1
    c.add(s.fam, r, m, f'{s.fam.name} run of {k} {("append", "prepend", "delete(0)", "delete(-1)")[op]}')


def p_wear(c, s, a):
    """The list is used as a queue for a long time: the elements move far away from the index they began at."""
    k = (40, 64, 66, 130, 260, 300, 520, 70)[a[0] & 7]
    r, m = s.real, list(s.model)
    v = c.vals(a[2], 1, a[3])[0]
    x = c.wraps(s.fam, [v], a[4])[0]
    left = a[1] & 1
    for _ in range(k):
        if left:
            r = r.prepend(x).delete(-1)
        else:
            r = r.append(x).delete(0)
    n = len(m)
    m = ([v] * k + m)[:n] if left else (m + [v] * k)[-n:] if n else []
    c.edits += 1
    c.rec.label('worn')
    c.add(s.fam, r, m, f'{s.fam.name} with {n} elements, a queue for {k} steps to the {"left" if left else "right"}')


def t_wear(c, s, a):
    k = (40, 64, 66, 130, 260, 300, 520, 70)[a[0] & 7]
    m = s.model
    v = c.vals(a[2], 1, a[3])[0]
    x = c.wraps(s.fam, [v], a[4])[0]
    left = a[1] & 1
    r = s.real
    for _ in range(k):
        if left:
            r.prepend(x)
            del r[-1]
        else:
            r.append(x)
            del r[0]
    n = len(m)
    m[:] = ([v] * k + m)[:n] if left else (m + [v] * k)[-n:] if n else []
    c.edits += 1
    c.rec.label('worn')
    check_slot(s, f'{s.fam.name} with {n} elements, a queue for {k} steps to the {"left" if left else "right"}')


def goto(c, s, a):
    c.cur = (a[0] * 256 + a[1]) % len(c.pool)


PSEQ = dict(set=(p_set, 14), delete=(p_delete, 10), drop=(p_drop, 5), pop=(p_pop, 8), append=(p_append, 8),
            prepend=(p_prepend, 9), insert=(p_insert, 18), extend=(p_extend, 8), add=(p_add, 10), mul=(p_mul, 4),
            remove=(p_remove, 8), sort=(p_sort, 5), reverse=(p_reverse, 5), clear=(p_clear, 1),
            slice=(seq_slice, 10), run=(p_run, 14), wear=(p_wear, 3), goto=(goto, 12))


# ---- transient edits

def after(c, s, what, a=None, ret=('ok', None), want=None):
    if want is not None or ret[0] == 'ok':
        if ret[1] is not want:
            fail(f'{what}: returned {D.short(ret[1])}, expected {D.short(want)}')
    c.edits += 1
    check_slot(s, what)


def t_both(c, s, what, mfn, rfn):
    """Applies a mutation to the model and the object; the results must be the same object."""
    exp = attempt(mfn)
    got = attempt(rfn)
    if compare_outcome(what, exp, got):
        if got[1] is not exp[1]:
            fail(f'{what}: returned {D.short(got[1])}, expected {D.short(exp[1])}')
        c.edits += 1
    check_slot(s, what)
    return exp[0] == 'ok'


def t_setitem(c, s, a):
    n = len(s.model)
    i = seq_index(c, s, a[0], a[1], a[2])
    v = c.v(a[3])
    if a[4] & 7 == 0 and -n <= i < n:
        v = s.model[i]
    x = c.wrap(s.fam, v, a[5])
    t_both(c, s, f'{s.fam.name}[{i}] = x, n={n}', lambda: s.model.__setitem__(i, v), lambda: s.real.__setitem__(i, x))


def t_delitem(c, s, a):
    n = len(s.model)
    i = seq_index(c, s, a[0], a[1], a[2])
    if n > 2 and 0 < i % n < n - 1:
        c.rec.label('middle edit')
    t_both(c, s, f'del {s.fam.name}[{i}], n={n}', lambda: s.model.__delitem__(i), lambda: s.real.__delitem__(i))


def t_pop(c, s, a):
    n = len(s.model)
    i = seq_index(c, s, a[0], a[1], a[2])
    args = () if a[3] & 3 == 0 else (i,)
    t_both(c, s, f'{s.fam.name}.pop{args}, n={n}', lambda: s.model.pop(*args), lambda: s.real.pop(*args))


def t_append(c, s, a):
    v = c.v(a[0])
    t_both(c, s, f'{s.fam.name}.append', lambda: s.model.append(v), lambda: s.real.append(c.wrap(s.fam, v, a[1])))


def t_prepend(c, s, a):
    v = c.v(a[0])
    c.rec.label('prepend')
    t_both(c, s, f'{s.fam.name}.prepend', lambda: s.model.insert(0, v), lambda: s.real.prepend(c.wrap(s.fam, v, a[1])))


def t_insert(c, s, a):
    n = len(s.model)
    i = seq_index(c, s, a[0], a[1], a[2])
    v = c.v(a[3])
    if n and 0 < i % n < n:
        c.rec.label('middle edit')
    t_both(c, s, f'{s.fam.name}.insert({i}), n={n}', lambda: s.model.insert(i, v),
           lambda: s.real.insert(i, c.wrap(s.fam, v, a[4])))


def t_extend(c, s, a):
    f = a[0] & 7
    if f == 7:
        arg, values = s.real, list(s.model)
        c.rec.label('self operand')
    elif f == 6:
        o = c.operand('seq', a[1], SEQ_OPERANDS.get(s.fam.name, (s.fam.name,)))
        arg, values = o.real, list(o.model)
    else:
        values = c.vals(a[2], D.small(a[1]), a[1] >> 5)
        arg = iterable_forms(c, s.fam, values, a[3], a[4])
    if len(s.model) + len(values) > c.maxlen:
        return
    t_both(c, s, f'{s.fam.name}.extend({type(arg).__name__} of {len(values)}), n={len(s.model)}',
           lambda: s.model.extend(values), lambda: s.real.extend(arg))


def t_iadd(c, s, a):
    if a[0] & 7 == 7:
        arg, values = s.real, list(s.model)
        c.rec.label('self operand')
    else:
        arg, values = seq_list_operand(c, s, a[0], a[1])
    if len(s.model) + len(values) > c.maxlen:
        return
    t = s.real
    t += arg
    if t is not s.real:
        fail(f'{s.fam.name} +=: made a new object')
    s.model.extend(values)
    c.edits += 1
    check_slot(s, f'{s.fam.name} += {type(arg).__name__} of {len(values)}, n={len(s.model)}')


def t_imul(c, s, a):
    k = (-1, 0, 1, 2, 3, 2, 4, 1)[a[0] & 7]
    if len(s.model) * k > c.maxlen:
        return
    t = s.real
    t *= k
    if t is not s.real:
        fail(f'{s.fam.name} *=: made a new object')
    n = len(s.model)
    s.model *= k
    c.edits += 1
    check_slot(s, f'{s.fam.name} *= {k}, n={n}')


def t_remove(c, s, a):
    v = _value_in(c, s, a[0], a[1])
    t_both(c, s, f'{s.fam.name}.remove({D.short(v, 40)}), n={len(s.model)}', lambda: s.model.remove(v),
           lambda: s.real.remove(v))


def t_sort(c, s, a):
    key, rev = D.sort_key(a[0])
    kw = {}
    if key is not None or a[1] & 1:
        kw['key'] = key
    if rev or a[1] & 2:
        kw['reverse'] = rev
    exp = attempt(sorted, s.model, **kw)
    got = attempt(s.real.sort, **kw)
    what = f'{s.fam.name}.sort({kw}), n={len(s.model)}'
    if compare_outcome(what, exp, got):
        if got[1] is not None:
            fail(f'{what}: returned {D.short(got[1])}')
        s.model[:] = exp[1]
        c.edits += 1
    check_slot(s, what)


def t_reverse(c, s, a):
    t_both(c, s, f'{s.fam.name}.reverse(), n={len(s.model)}', s.model.reverse, lambda: s.real.reverse())


def t_clear(c, s, a):
    t_both(c, s, f'{s.fam.name}.clear()', s.model.clear, lambda: s.real.clear())


def t_add(c, s, a):
    arg, values = seq_list_operand(c, s, a[0], a[1])
    if len(s.model) + len(values) > c.maxlen:
        return
    if a[2] & 1 and type(arg) in (list, s.fam.cls):
        r, m, what = arg + s.real, values + s.model, f'{type(arg).__name__} + {s.fam.name}'
    else:
        r, m, what = s.real + arg, s.model + values, f'{s.fam.name} + {type(arg).__name__}'
    if r is s.real or r is arg:
        fail(f'{what}: returned an operand, not a new list')
    check_slot(s, what + ' (operand)')
    c.check_args(what)
    c.add(s.fam, r, m, f'{what} ({len(values)}, {len(s.model)})')


def t_mul(c, s, a):
    k = (-1, 0, 1, 2, 3, 2, 4, 1)[a[0] & 7]
    if len(s.model) * k > c.maxlen:
        return
    r = s.real * k if a[1] & 1 else k * s.real
    if r is s.real:
        fail(f'{s.fam.name} * {k}: returned the operand itself')
    check_slot(s, f'{s.fam.name} * {k} (operand)')
    c.add(s.fam, r, s.model * k, f'{s.fam.name} * {k} n={len(s.model)}')


def t_copy(c, s, a):
    r = s.real.copy()
    if r is s.real:
        fail(f'{s.fam.name}.copy(): returned the object itself')
    m = type(s.model)(s.model)
    c.add(s.fam, r, m, f'{s.fam.name}.copy()')


def t_slice(c, s, a):
    if s.fam.name.startswith('Min'):     # their item access takes nothing but indices
        return
    n = len(s.model)
    sl = slice(D.bound(n, a[0], a[1]), D.bound(n, a[2], a[3]), D.step(a[4]))
    r = s.real[sl]
    if r is s.real:
        fail(f'{s.fam.name}[{sl}]: returned the object itself')
    c.rec.label('slice')
    if sl.step is not None and sl.step < 0:
        c.rec.label('negative step')
    c.add(s.fam, r, s.model[sl], f'{s.fam.name}[{sl.start}:{sl.stop}:{sl.step}] n={n}')


def t_run(c, s, a):
    k = (2, 3, 5, 9, 17, 33, 40, 70)[a[0] & 7]
    m = s.model
    op = a[1] & 3
    if op < 2:
        vs = c.vals(a[2], k, a[3])
        if len(m) + k > c.maxlen:
            return
        for x in c.wraps(s.fam, vs, a[4]):
            s.real.append(x) if op == 0 else s.real.prepend(x)
        m[:] = m + vs if op == 0 else vs[::-1] + m
        if op == 1:
            c.rec.label('prepend run')
    else:
        k = min(k, len(m))
        if k and a[5] & 3 == 0:
            k = len(m)
        for j in range(k):
            got = s.real.pop(0) if op == 2 else s.real.pop()
            want = m.pop(0) if op == 2 else m.pop()
            if got is not want:
                fail(f'{s.fam.name}.pop({0 if op == 2 else ""}): returned {D.short(got)}, expected {D.short(want)}')
        c.rec.label('pop run')
    c.edits += 1
    check_slot(s, f'{s.fam.name} run of {k} {("append", "prepend", "pop(0)", "pop()")[op]}')


def t_persistent(c, s, a):
    """persistent() shows every mutation made so far (and goes on working afterwards)."""
    f = FAM.get(s.fam.pers)
    if f is None:
        return
    p = s.real.persistent()
    m = type(s.model)(s.model)
    q = Slot(f, p, m)
    check_slot(q, f'{s.fam.name}.persistent()')
    if a[0] & 1:
        c.keep = getattr(c, 'keep', [])
        c.keep.append(q)
    if a[0] & 6 == 6:
        c.add(s.fam, p.transient(), type(m)(m), f'{f.name}.transient()')


TSEQ = dict(setitem=(t_setitem, 14), delitem=(t_delitem, 14), pop=(t_pop, 9), append=(t_append, 7), prepend=(t_prepend, 9),
            insert=(t_insert, 18), extend=(t_extend, 8), iadd=(t_iadd, 8), imul=(t_imul, 3), remove=(t_remove, 8),
            sort=(t_sort, 5), reverse=(t_reverse, 5), clear=(t_clear, 2), add=(t_add, 7), mul=(t_mul, 3), copy=(t_copy, 4),
            slice=(t_slice, 6), run=(t_run, 12), wear=(t_wear, 3), persistent=(t_persistent, 8), goto=(goto, 8))


# ---- reads (all sequence families)

def r_item(c, s, a):
    n = len(s.model)
    i = seq_index(c, s, a[0], a[1], a[2])
    exp = attempt(s.model.__getitem__, i)
    got = attempt(lambda: s.real[i])
    if compare_outcome(f'{s.fam.name}[{i}] n={n}', exp, got):
        if got[1] is not exp[1]:
            fail(f'{s.fam.name}[{i}] n={n}: {D.short(got[1])}, expected {D.short(exp[1])}')


def r_all(c, s, a):
    """Every index, forwards iteration, backwards iteration, length."""
    n = len(s.model)
    m = s.model
    if len(s.real) != n:
        fail(f'len({s.fam.name}) = {len(s.real)}, expected {n}')
    got = [s.real[i] for i in range(n)]
    neg = [s.real[i - n] for i in range(n)]
    it = list(iter(s.real))
    rev = list(reversed(s.real))[::-1]
    for (nm, g) in (('[i]', got), ('[-i]', neg), ('iteration', it), ('reversed', rev)):
        if len(g) != n or not all(x is y for x, y in zip(g, m)):
            fail(f'{s.fam.name} {nm}: {D.short(g)}, expected {D.short(m)}')
    if bool(s.real) != bool(m):
        fail(f'bool({s.fam.name}) = {bool(s.real)} n={n}')
    for i in (n, n + 1, -n - 1, -n - 2, n + 31, 1 << 40, -(1 << 40)):
        g = attempt(lambda: s.real[i])
        if g[0] == 'ok' or not isinstance(g[1], IndexError):
            fail(f'{s.fam.name}[{i}] n={n}: {g[1]!r}, expected IndexError')


def r_contains(c, s, a):
    v = _value_in(c, s, a[0], a[1])
    if (v in s.real) is not (v in s.model):
        fail(f'{D.short(v, 60)} in {s.fam.name} {D.short(s.model)}: {v in s.real}')


def r_count(c, s, a):
    v = _value_in(c, s, a[0], a[1])
    g, e = s.real.count(v), s.model.count(v)
    if g != e:
        fail(f'{s.fam.name}.count({D.short(v, 60)}) = {g}, expected {e} in {D.short(s.model)}')


def r_index(c, s, a):
    v = _value_in(c, s, a[0], a[1])
    n = len(s.model)
    args = (v,)
    if a[2] & 3 >= 1:
        args += (D.index(n, a[3], a[4]),)
    if a[2] & 3 >= 2:
        args += (D.index(n, a[5], a[6]),)
        c.rec.label('index with bounds')
    what = f'{s.fam.name}.index{args!r} in {D.short(s.model)}'
    exp, got = attempt(s.model.index, *args), attempt(s.real.index, *args)
    if compare_outcome(what, exp, got) and exp[1] != got[1]:
        fail(f'{what}: {got[1]}, expected {exp[1]}')
    if len(args) == 2 and a[2] & 4:
        exp, got = attempt(s.model.index, v, 0, args[1]), attempt(s.real.index, v, stop=args[1])
        if compare_outcome(what + ' as stop', exp, got) and exp[1] != got[1]:
            fail(f'{what} as stop: {got[1]}, expected {exp[1]}')


def r_slice(c, s, a):
    if s.fam.name.startswith('Min'):     # their item access takes nothing but indices
        return
    n = len(s.model)
    sl = slice(D.bound(n, a[0], a[1]), D.bound(n, a[2], a[3]), D.step(a[4]))
    c.rec.label('slice')
    if sl.step is not None and sl.step < 0:
        c.rec.label('negative step')
    r = s.real[sl]
    what = f'{s.fam.name}[{sl.start}:{sl.stop}:{sl.step}] n={n}'
    check_slot(Slot(s.fam, r, s.model[sl]), what)
    if r is s.real and not s.fam.persistent:
        fail(f'{what}: returned the object itself')
    if a[5] & 7 == 0:
        g = attempt(lambda: s.real[sl.start:sl.stop:0])
        if g[0] == 'ok' or not isinstance(g[1], ValueError):
            fail(f'{what} with step 0: {g[1]!r}, expected ValueError')
    m = s.model[sl]
    if len(m):
        i = a[6] % len(m)
        if r[i] is not m[i] or r[i - len(m)] is not m[i]:
            fail(f'{what}: item {i} differs')


SEQREAD = dict(item=(r_item, 14), all=(r_all, 10), contains=(r_contains, 8), count=(r_count, 8), index=(r_index, 20),
               rslice=(r_slice, 40))


# =============================================================================== op tables

def table(ops):
    """255 op names in proportion to their weights (op bytes 1..255)."""
    names = list(ops)
    tot = sum(w for (_, w) in ops.values())
    out, acc = [], 0
    for nm in names:
        acc += ops[nm][1]
        while len(out) < round(255 * acc / tot):
            out.append(nm)
    assert len(out) == 255, len(out)
    return out


def pick(ops, names, weights=None):
    """A sub-table of ops."""
    return {n: (ops[n][0], (weights or {}).get(n, ops[n][1])) for n in names}


def program(data, tab):
    head, recs = core.records(data)
    return dict(head=tuple(head), ops=[(tab[r[0] - 1],) + tuple(r[1:]) for r in recs])
