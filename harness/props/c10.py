import collections, types, collections.abc
from machines2 import *
from pcollections import unlazy, holdlazy
import hugepair


class MapLike(collections.abc.Mapping):
    """A mapping that is neither a dict nor one of the library's."""
    def __init__(self, d):
        self.d = dict(d)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class SeqLike(collections.abc.Sequence):
    def __init__(self, xs):
        self.xs = list(xs)

    def __getitem__(self, i):
        return self.xs[i]

    def __len__(self):
        return len(self.xs)


class ListSub(list):
    pass


class DictSub(dict):
    pass


KINDS = {'seq': ['plist', 'tlist', 'llist', 'tllist'], 'set': ['pset', 'tset'], 'map': ['pdict', 'tdict', 'ldict', 'tldict']}
SRC_SEQ = ['plist', 'tlist', 'llist', 'tllist', list, tuple, iter, lambda v: (x for x in v), SeqLike, D.ReIter, collections.deque,
           ListSub, lambda v: {i: x for i, x in enumerate(v)}.values(), D.OneShot, lambda v: pdict(enumerate(v)).values(),
           lambda v: tdict(enumerate(v)).values()]
SRC_SET = ['pset', 'tset', 'plist', 'tlist', set, frozenset, list, tuple, iter, lambda v: dict.fromkeys(v).keys(),
           lambda v: pdict((x, 0) for x in v).keys(), lambda v: pdict((x, 0) for x in v), lambda v: tdict((x, 0) for x in v),
           D.OneShot, D.ReIter, 'llist']
SRC_MAP = ['pdict', 'tdict', 'ldict', 'tldict', dict, list, iter, collections.OrderedDict, lambda v: types.MappingProxyType(dict(v)), MapLike, DictSub,
           lambda v: dict(v).items(), lambda v: pdict(v).items(), lambda v: [list(p) for p in v], D.OneShot, D.ReIter]


def grow(c, s, a):
    """Gives the source a history: offsets, removals, a transient stage."""
    if s.fam.kind == 'seq':
        (p_run if s.fam.persistent else t_run)(c, s, (a[0] & 3, a[1] | (a[1] & 1)) + a[2:])
    elif s.fam.kind == 'set':
        s_run(c, s, a)
    else:
        d_run(c, s, a)
    return c.slot()


def run_conv(case, rec):
    h = case['head']
    c = Ctx(h[0], rec)
    kind = ('seq', 'map', 'set')[h[1] % 3]
    for op in case['ops']:
        a = op[1:]
        c.pool.clear()
        srcs = dict(seq=SRC_SEQ, set=SRC_SET, map=SRC_MAP)[kind]
        src = srcs[a[0] % len(srcs)]
        tgt = FAM[KINDS[kind][a[1] % len(KINDS[kind])]]
        n = D.size(a[2]) if a[2] & 1 else D.small(a[2] >> 1)
        if kind == 'seq':
            values = c.vals(a[3], n, a[4])
            model = list(values)
        elif kind == 'set':
            values = c.hvals(a[3], n, a[4])
            model = set(values)
        else:
            values = [(k, c.dv((a[5] + 5 * i) & 255)) for i, k in enumerate(c.hvals(a[3], n, a[4]))]
            model = dict(values)
        raws = None
        if isinstance(src, str):
            f = FAM[src]
            if f.kind == kind:
                NEW[kind](c, f, (a[2] % 160, 0, a[3], a[4], a[5], a[5], a[6]))
                s = grow(c, c.slot(), a[1:]) if a[6] & 1 else c.slot()
                obj, model = s.real, type(s.model)(s.model)
                if f.lazy:
                    raws = [obj.getlazy(i) for i in range(len(model))] if kind == 'seq' else [obj.getlazy(k) for k in model]
            else:
                obj = f.make(values)
        else:
            obj = src(values)
        runs = [t.runs for t in c.thunks]
        if a[6] & 24 == 24:
            hold(c, obj, raws, kind, model, runs)
        what = f'{tgt.name}({type(obj).__name__} of {D.short(model, 120)})'
        r = tgt.make(obj)
        t = Slot(tgt, r, model)
        if raws is not None and tgt.lazy:
            if [x.runs for x in c.thunks] != runs:
                fail(f'{what}: evaluated a lazy value')
            got = [r.getlazy(i) for i in range(len(model))] if kind == 'seq' else [r.getlazy(k) for k in model]
            if not all(x is y for x, y in zip(got, raws)):
                fail(f'{what}: lazy values were not kept')
            rec.label('lazy kept')
        elif raws is not None:
            rec.label('lazy evaluated')
        check_slot(t, what)
        if tgt.persistent and not model and r is not tgt.cls.empty and type(obj) is not tgt.cls:
            # (an object of the type itself is returned as it is)
            fail(f'{what}: an empty {tgt.name} that is not {tgt.name}.empty')
        if isinstance(src, str) and FAM[src].kind == kind:
            # the source is unchanged
            check_slot(Slot(FAM[src], obj, model), what + ' (source)')
        rec.label(f'to {tgt.name}')
        if len(model) >= 2:
            rec.nontrivial()
        if kind == 'map' and a[6] & 6 == 6:
            kw = dkw(c, a[5] | 4, a[4])
            obj2 = dict(model)
            x = tgt.make(obj2, **kw)
            m2 = dict(model)
            m2.update(kw)
            check_slot(Slot(tgt, x, m2), f'{tgt.name}(dict, **{D.short(kw)})')


HELD = dict(llist=plist, ldict=pdict, tldict=tdict)


def hold(c, obj, raws, kind, model, runs):
    """holdlazy gives the lazy values as they are; what is not lazy it returns as it is, or refuses."""
    nm = type(obj).__name__
    if raws is None:
        if nm not in ('lazy', 'tllist') and not hasattr(obj, '__holdlazy__'):
            if holdlazy(obj) is not obj or holdlazy(obj, False) is not obj or holdlazy(obj, require_lazy=False) is not obj:
                fail(f'holdlazy of a {nm} is another object')
            for f in (lambda: holdlazy(obj, True), lambda: holdlazy(obj, require_lazy=True)):
                g = attempt(f)
                if g[0] == 'ok' or not isinstance(g[1], TypeError):
                    fail(f'holdlazy({nm}, require_lazy=True): {D.short(g[1])}, expected TypeError')
            c.rec.label('not lazy, held')
    elif nm in HELD:
        for h in (holdlazy(obj), holdlazy(obj, True)):
            got = list(h) if kind == 'seq' else list(h.values())
            keys = list(h) == list(model) if kind == 'map' else True
            if type(h) not in (HELD[nm], type(obj).__mro__[1]) or not keys or len(got) != len(raws) or not all(x is y for x, y in zip(got, raws)):
                fail(f'holdlazy of a {nm} of {D.short(model)}: {type(h).__name__} {D.short(got)}')
        if [x.runs for x in c.thunks] != runs:
            fail(f'holdlazy of a {nm} evaluated a lazy value')
        c.rec.label('held')


def no_mut(c, s, a):
    """Operations of a transient that do not modify it."""
    r = s.real
    len(r), list(r), str(r), repr(r), r.copy(), bool(r)
    if s.fam.kind == 'seq':
        r[0:1], r + [1], r * 2, (s.model and r[0]), 5 in r, r.count(5), list(reversed(r)), r == [1]
    elif s.fam.kind == 'set':
        r | {1}, r & {1}, r - {1}, r ^ {1}, r.union([1]), 5 in r, r == {1}
    else:
        list(r.items()), r.get(1), r.keys() & {1}, 5 in r, r == {}


def derived(c, s, a):
    """Results of operations of a transient: their persistent() has their own contents, and so has their source's."""
    r, m = s.real, s.model
    L = len(m)
    if s.fam.kind == 'seq':
        i, j = D.bound(L, a[1], a[5]), D.bound(L, a[2], a[6])
        k = (None, 1, 2, -1, -2, 3)[a[3] % 6]
        fs = [(f'[{i}:{j}:{k}]', lambda x: x[i:j:k]), ('[:]', lambda x: x[:]), (f'[{i}:]', lambda x: x[i:]), (f'[:{j}]', lambda x: x[:j]),
              ('+ []', lambda x: x + []), ('+ [1]', lambda x: x + [1]), ('* 1', lambda x: x * 1), ('* 2', lambda x: x * 2), ('* 0', lambda x: x * 0),
              ('.copy()', lambda x: x.copy()), ('[::-1]', lambda x: x[::-1]), ('[1] +', lambda x: [1] + x)]
    elif s.fam.kind == 'set':
        e = set(list(m)[: a[1] % (L + 1)])
        o = {SENT}
        fs = [('| set()', lambda x: x | set()), ('| o', lambda x: x | o), ('- e', lambda x: x - e), ('& e', lambda x: x & e), ('^ e', lambda x: x ^ e),
              ('- o', lambda x: x - o), ('& itself', lambda x: x & set(m)), ('.copy()', lambda x: x.copy()), ('^ set()', lambda x: x ^ set()),
              ('.union(o)', lambda x: x.union(o)), ('.difference(e)', lambda x: x.difference(e)), ('.intersection(e)', lambda x: x.intersection(e)),
              ('.symmetric_difference(e)', lambda x: x.symmetric_difference(e)), ('.union()', lambda x: x.union()), ('.difference()', lambda x: x.difference())]
    else:
        fs = [('.copy()', lambda x: x.copy())]
    nm, f = fs[a[4] % len(fs)]
    exp, got = attempt(lambda: f(m)), attempt(lambda: f(r))
    what = f'{s.fam.name} of {D.short(m)}, {nm}'
    c.rec.label('derived from a transient')
    if not compare_outcome(what, exp, got):
        return
    d = got[1]
    t = FAM.get(type(d).__name__)
    if t is None or t.kind != s.fam.kind:
        fail(f'{what}: a {type(d).__name__}')
    ds = Slot(t, d, exp[1])
    check_slot(ds, what)
    if not t.persistent:
        p = d.persistent()
        pf = FAM[type(p).__name__]
        check_slot(Slot(pf, p, exp[1]), f'{what}, persistent()')
        if a[5] & 1:
            q = p.transient()
            check_slot(Slot(t, q, exp[1]), f'{what}, persistent().transient()')
            check_slot(Slot(pf, q.persistent(), exp[1]), f'{what}, persistent().transient().persistent()')
    check_slot(s, f'{what}: the source')


def no_op(c, s, a):
    """Edits that fail, or that change nothing."""
    r, m, L = s.real, s.model, len(s.model)
    v = SENT
    if s.fam.kind == 'seq':
        fs = [lambda: r.__setitem__(L, 1), lambda: r.__setitem__(-L - 1, 1), lambda: r.__delitem__(L), lambda: r.pop(L + 1),
              lambda: r.__delitem__(-L - 2), lambda: r.remove(v), lambda: r.insert('a', 1), lambda: r.extend(()),
              lambda: r.extend(7), lambda: r.__iadd__([]), lambda: r.__imul__(1), lambda: r.__iadd__(7), lambda: r.__imul__('x'),
              lambda: r.index(v), lambda: r.sort(key=lambda x: 1 // 0) if L else None, lambda: r.__setitem__('a', 1),
              lambda: r.__delitem__(None), lambda: r.pop('a')]
    elif s.fam.kind == 'set':
        el = next(iter(m), v)
        fs = [lambda: r.discard(v), lambda: r.remove(v), lambda: r.add([]), lambda: r.discard([]), lambda: r.add(el) if L else 0,
              lambda: r.addall(()), lambda: r.addall(list(m)), lambda: r.discardall([v]), lambda: r.removeall([v]),
              lambda: r.update(), lambda: r.update(set()), lambda: r.__ior__(set(m)), lambda: r.__iand__(set(m)),
              lambda: r.__isub__({v}), lambda: r.__ixor__(set()), lambda: r.__ior__(7), lambda: r.difference_update([v]),
              lambda: r.intersection_update(list(m), r), lambda: r.addall([[]])]
    else:
        k = next(iter(m), v)
        fs = [lambda: r.__delitem__(v), lambda: r.__setitem__([], 1), lambda: r.__delitem__([]), lambda: r.pop(v), lambda: r.pop(v, 1),
              lambda: r.pop([], 1), lambda: r.setdefault([], 1), lambda: r.setdefault(k, v) if L else 0, lambda: r.update(),
              lambda: r.update({}), lambda: r.update(()), lambda: r.update([([], 1)]), lambda: r.update(7), lambda: r.update([(1, 2, 3)]),
              lambda: r.popitem() if not L else 0, lambda: r.update([[]])]
    f = fs[a[1] % len(fs)]
    attempt(f)
    for i in range(a[2] % 3):
        attempt(fs[a[3 + i] % len(fs)])


def run_round(case, rec):
    """p -> transient -> some mutations -> persistent."""
    h = case['head']
    c = Ctx(h[0], rec)
    fam = [FAM[n] for n in ('plist', 'pset', 'pdict', 'llist', 'ldict')][h[7] % 5]
    NEW[fam.kind](c, fam, h[1:])
    for op in case['ops']:
        a = op[1:]
        s = c.slot()
        if op[0] == 'grow':
            grow(c, s, a)
            continue
        if op[0] == 'goto':
            goto(c, s, a)
            continue
        t = s.real.transient()
        tf = FAM[fam.trans]
        if fam.kind == 'seq':
            m = list(s.model)
        else:
            m = type(s.model)(s.model)
        ts = Slot(tf, t, m)
        check_slot(ts, f'{fam.name}.transient()')
        if op[0] == 'same':
            if a[0] & 1:
                no_mut(c, ts, a)
            if a[0] & 2:
                no_op(c, ts, a)
                rec.label('edits without effect')
            p = t.persistent()
            want = s.real if s.model else fam.cls.empty
            if p is not want:
                fail(f'{fam.name}.transient().persistent() of {D.short(s.model)} is not the {fam.name} itself'
                     + (' after reads' if a[0] & 1 else '')
                     + (' after edits that fail or change nothing' if a[0] & 2 else ''))
            if fam.make(t) != s.real:
                fail(f'{fam.name}({tf.name}) differs')
            derived(c, ts, a)
            rec.label('unmodified round trip')
            continue
        # mutations, possibly undone again
        sub = Ctx(h[0], rec)
        sub.pool = [ts]
        tabs = EDITS[(fam.kind, False)]
        for j in range(1 + a[0] % 3):
            nm = TT[fam.kind][(a[1] + 67 * j) % 255]
            tabs[nm][0](sub, ts, tuple((x + 29 * j) & 255 for x in a[2:]) + (a[0], a[1]))
        if a[0] & 8:
            undo(ts, s)
            rec.label('modified and restored')
        p = ts.real.persistent()
        q = Slot(fam, p, type(ts.model)(ts.model))
        check_slot(q, f'{fam.name} of a modified {tf.name}')
        if not ts.model and p is not fam.cls.empty:
            fail(f'persistent() of an empty {tf.name} is not {fam.name}.empty')
        check_slot(s, f'the origin of a modified {tf.name}')
        if (p == s.real) is not (q.model == s.model):
            fail(f'the persistent value of a modified {tf.name} compares wrongly with its origin')
        # once more: persistent() again, and the transient of the new value
        if ts.real.persistent() != p:
            fail(f'{tf.name}.persistent() twice gives different values')
        derived(c, ts, a)
        c.thunks += sub.thunks
        c.add(fam, p, q.model, 'modified')
        rec.label('modified round trip')
        rec.nontrivial()
    r = c.slot().real.clear()
    if r is not fam.cls.empty:
        fail(f'{fam.name}.clear() is not {fam.name}.empty')


def undo(ts, s):
    """Mutates the transient back to the contents of the persistent value."""
    t, m = ts.real, s.model
    if ts.fam.kind == 'seq':
        t.clear()
        for v in m:
            t.append(v)
        ts.model[:] = m
    elif ts.fam.kind == 'set':
        t.clear()
        t.addall(list(m))
        ts.model.clear()
        ts.model.update(m)
    else:
        for k in list(ts.model):
            del t[k]
        for k, v in m.items():
            t[k] = v
        ts.model.clear()
        ts.model.update(m)


TT = {k: table(EDITS[(k, False)]) for k in ('seq', 'set', 'map')}
CONV = dict(conv=(None, 1))
ROUND = dict(same=(None, 12), mutate=(None, 26), grow=(None, 10), goto=(None, 8))
TC, TR = table(CONV), table(ROUND)

PROP = core.Prop('C10', [core.Part('convert', lambda d: program(d, TC), run_conv, quick=2200, sizes=((2, 6), (4, 14))),
                         core.Part('round-trip', lambda d: program(d, TR), run_round, quick=2200, sizes=((2, 8), (6, 24))),
                         hugepair.huge_part('conversions', hugepair.convert_case)],
                 rule='convert: every operation builds a source (library type with a history, native container, view, iterator) '
                      'and converts it to a generated type; round-trip: persistent values are made transient, mutated (maybe '
                      'restored) and made persistent again; non-trivial: a converted collection of two elements, or a modified '
                      'round trip.  huge conversions: sources of 1,025 to 12,289 elements.',
                 assumptions=['sources are iterables, or mappings registered as collections.abc.Mapping'])
