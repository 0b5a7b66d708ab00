"""C21: the default methods of the abstract base classes, on minimal implementations."""
import copy, json, pickle
from machines2 import *
import minimal as M
from props.c13 import deq, fresh_model

for f in (Fam('MinPSeq', 'seq', True, M.MinPSeq, trans='MinTSeq'), Fam('MinTSeq', 'seq', False, M.MinTSeq, pers='MinPSeq'),
          Fam('MinPSet', 'set', True, M.MinPSet, trans='MinTSet'), Fam('MinTSet', 'set', False, M.MinTSet, pers='MinPSet'),
          Fam('MinPMap', 'map', True, M.MinPMap, trans='MinTMap'), Fam('MinTMap', 'map', False, M.MinTMap, pers='MinPMap')):
    FAM[f.name] = f

LIB = {('seq', True): plist, ('seq', False): tlist, ('set', True): pset, ('set', False): tset, ('map', True): pdict,
       ('map', False): tdict}
NATIVE = {'seq': list, 'set': set, 'map': dict}


def lib(s, kind=None):
    """The library's own type for a slot."""
    return LIB[s.fam.kind, s.fam.persistent]


def other_contents(c, s, a):
    """Contents equal to the slot's or nearly so."""
    m = s.model
    f = a[0] & 7
    if s.fam.kind == 'seq':
        o = list(m)
        if f == 1 and o:
            o.pop(a[1] % len(o))
        elif f == 2 and o:
            o[a[1] % len(o)] = c.v(a[2])
        elif f == 3:
            o.append(c.v(a[2]))
        elif f == 4:
            o = c.vals(a[2], D.small(a[1]))
        elif f == 5:
            o = o[:len(o) // 2]
        return o
    if s.fam.kind == 'set':
        o = set(m)
        if f in (1, 2) and o:
            o.discard(list(o)[a[1] % len(o)])
        if f in (2, 3):
            o.add(c.hv(a[2]))
        elif f == 4:
            o = set(s_values(c, a[1], a[2]))
        elif f == 5:
            o = set()
        return o
    o = dict(m)
    if f in (1, 2) and o:
        o.pop(list(o)[a[1] % len(o)])
    if f in (2, 3):
        o[c.hv(a[2])] = c.dv(a[3])
    elif f == 4 and o:
        o[list(o)[a[1] % len(o)]] = c.dv(a[2])
    elif f == 5:
        o = dict(reversed(list(o.items())))
    return o


def mirror(s, o, b):
    """The other contents as an object: native, library, or minimal."""
    k = s.fam.kind
    forms = (NATIVE[k], LIB[k, True], LIB[k, False], s.fam.cls, FAM[s.fam.trans or s.fam.pers].cls, s.fam.cls)
    if k == 'set':
        forms += (frozenset, lambda v: dict.fromkeys(v).keys())
    return forms[b % len(forms)](o)


def x_eq(c, s, a):
    o = other_contents(c, s, a)
    want = s.model == o
    y = mirror(s, o, a[4])
    what = f'{s.fam.name} {D.short(s.model)} vs {type(y).__name__} {D.short(o)}'
    for nm, g, w in (('==', s.real == y, want), ('!=', s.real != y, not want), ('reflected ==', y == s.real, want),
                     ('reflected !=', y != s.real, not want)):
        if g is not w:
            fail(f'{what}: {nm} gives {g!r}')
    z = (None, 3, 'ab', (1,), object(), len)[a[5] % 6]
    if s.real == z or not s.real != z:
        fail(f'{s.fam.name} equals {z!r}')
    c.rec.label('equality')


def x_order(c, s, a):
    if s.fam.kind == 'map':
        return x_eq(c, s, a)
    o = other_contents(c, s, a)
    y = mirror(s, o, a[4])
    what = f'{s.fam.name} {D.short(s.model)} %s {type(y).__name__} {D.short(o)}'
    m = s.model
    for nm, e, g in (('<', lambda: m < o, lambda: s.real < y), ('<=', lambda: m <= o, lambda: s.real <= y),
                     ('>', lambda: m > o, lambda: s.real > y), ('>=', lambda: m >= o, lambda: s.real >= y),
                     ('reflected <', lambda: o < m, lambda: y < s.real),
                     ('reflected >=', lambda: o >= m, lambda: y >= s.real)):
        e, g = attempt(e), attempt(g)
        if compare_outcome(what % nm, e, g) and e[1] is not g[1]:
            fail(f'{what % nm}: {g[1]!r}')
    if s.fam.kind == 'set':
        for nm in ('isdisjoint', 'issubset', 'issuperset'):
            arg = set_iterable(c, list(o), a[5]) if a[6] & 1 else y
            g = getattr(s.real, nm)(arg)
            if g is not getattr(m, nm)(o):
                fail(f'{what % nm} ({type(arg).__name__}): {g!r}')
    c.rec.label('ordering')


def x_hash(c, s, a):
    if not s.fam.persistent:
        return x_text(c, s, a)
    exp = attempt(hash, lib(s)(s.model))
    got = attempt(hash, s.real)
    if compare_outcome(f'hash of {s.fam.name} {D.short(s.model)}', exp, got):
        if exp[1] != got[1]:
            fail(f'hash of {s.fam.name} {D.short(s.model)} is not that of the equal {lib(s).__name__}')
        if s.real not in {lib(s)(s.model)} or s.fam.cls(s.model) not in {s.real: 1}:
            fail(f'{s.fam.name} {D.short(s.model)} is not found as a set member or dict key')
        c.rec.label('hash')


def x_text(c, s, a):
    els = [f'{k!r}: {v!r}' for k, v in s.real.items()] if s.fam.kind == 'map' else [repr(x) for x in s.real]
    inner = ', '.join(els)
    r, t = repr(s.real), str(s.real)
    if r[2:-2] != inner:
        fail(f'repr of {s.fam.name} {D.short(s.model)}: {r[:200]}')
    if len(inner) <= 60:
        if t[2:-2] != inner:
            fail(f'str of {s.fam.name} {D.short(s.model)}: {t}')
    elif len(t) > 64 or t[-5:-2] != '...' or not inner.startswith(t[2:-5]):
        fail(f'str of {s.fam.name} {D.short(s.model)}: {t}')
    for o in (r, t):
        w = repr(lib(s)(s.real)) if o is r else str(lib(s)(s.real))
        if s.fam.kind != 'set' and o != w:
            fail(f'text of {s.fam.name} {D.short(s.model)}: {o}, that of the {lib(s).__name__} is {w}')
    c.rec.label('text')


def x_copies(c, s, a):
    form = a[0] % 5
    try:
        pickle.dumps(s.model)
        ok = True
    except Exception:
        ok = False
    if form < 2 and ok:
        p = (0, 1, 2, 3, 4, 5)[a[1] % 6]
        what = f'{s.fam.name} {D.short(s.model)} pickled with protocol {p}'
        r = pickle.loads(pickle.dumps(s.real, p))
    elif form == 2 and ok:
        what = f'copy.deepcopy of {s.fam.name} {D.short(s.model)}'
        r = copy.deepcopy(s.real)
    else:
        what = f'copy.copy of {s.fam.name} {D.short(s.model)}'
        r = copy.copy(s.real) if form & 1 else s.real.copy()
        check_slot(Slot(s.fam, r, s.model), what)
        if not s.fam.persistent and r is s.real:
            fail(f'{what}: is the object itself')
        if s.fam.persistent and form == 4 and r is not s.real:
            fail(f'{what}: copy() of a persistent object made another object')
    if type(r) is not s.fam.cls or len(r) != len(s.model):
        fail(f'{what}: {r!r}')
    if not deq(fresh_model(s.fam, r), fresh_model(s.fam, s.real)):
        fail(f'{what}: {r!r} differs')
    if not s.fam.persistent:
        (r.append(0) if s.fam.kind == 'seq' else r.add(c.hv(a[2])) if s.fam.kind == 'set' else r.__setitem__(c.hv(a[2]), 0))
        check_slot(s, what + ', after changing the copy')
    c.rec.label('copy or pickle')


def x_json(c, s, a):
    if s.fam.kind == 'set':
        return
    try:
        want = json.loads(json.dumps(fresh_model(s.fam, s.real)))
    except (TypeError, ValueError):
        return
    g = s.real.__json__()
    if repr(json.loads(g)) != repr(want):
        fail(f'__json__ of {s.fam.name} {D.short(s.model)}: {g[:200]}')
    c.rec.label('json')


def x_frozen(c, s, a):
    if not s.fam.persistent:
        return
    for nm, f in (('setattr', lambda: setattr(s.real, 'x', 1)), ('setattr _x', lambda: setattr(s.real, '_x', ())),
                  ('delattr', lambda: delattr(s.real, '_x')), ('setitem', lambda: s.real.__setitem__(0, 1)),
                  ('delitem', lambda: s.real.__delitem__(0))):
        g = attempt(f)
        if g[0] == 'ok' or not isinstance(g[1], TypeError):
            fail(f'{nm} on a {s.fam.name}: {g[1]!r}, expected TypeError')
    check_slot(s, 'after attempts to change it')


def x_views(c, s, a):
    if s.fam.kind != 'map':
        return x_frozen(c, s, a)
    m = s.model
    for nm, g, w in (('keys', s.real.keys(), m.keys()), ('items', s.real.items(), m.items()), ('values', s.real.values(), m.values())):
        eq = D.same if nm == 'values' else D.eqv if nm == 'keys' else (lambda x, y: D.eqv(x[0], y[0]) and x[1] is y[1])
        if len(g) != len(w) or not all(eq(x, y) for x, y in zip(list(g), list(w))):
            fail(f'{s.fam.name}.{nm}() of {D.short(m)}: {D.short(list(g))}')
    k = dkey(c, s, a[0], a[1])
    for nm, args in (('pop', (k, 1, 2)), ('pop', ()), ('get', (k, 1, 2)), ('setdefault', ())):
        g = attempt(getattr(s.real, nm), *args)
        if g[0] == 'ok' or not isinstance(g[1], TypeError):
            fail(f'{s.fam.name}.{nm} with {len(args)} arguments: {D.short(g[1])}, expected TypeError')
    check_slot(s, 'after calls with a wrong number of arguments')
    if (k in s.real.keys()) is not (k in m):
        fail(f'{D.short(k)} in {s.fam.name}.keys() of {D.short(m)}')
    c.rec.label('views')


def x_reads(c, s, a):
    if s.fam.kind == 'seq':
        return r_all(c, s, a)
    (d_reads if s.fam.kind == 'map' else s_reads)(c, s, a)


X = dict(xeq=(x_eq, 14), xorder=(x_order, 14), xhash=(x_hash, 10), xtext=(x_text, 8), xcopies=(x_copies, 14), xjson=(x_json, 4),
         xfrozen=(x_frozen, 3), xviews=(x_views, 6), xreads=(x_reads, 6))


def run_min(fam, ops):
    def run(case, rec):
        c = run_machine([fam], ops, case, rec)
        if len(case['ops']) >= 3 and c.edits and any(len(s.model) >= 2 for s in c.pool):
            rec.nontrivial()
    return run


def checked():
    """The classes under test define nothing beyond the documented abstract methods and a constructor."""
    for cls, names in M.ABSTRACT.items():
        own = {n for n, v in vars(cls).items() if callable(v) or isinstance(v, (staticmethod, classmethod))}
        if own - {'__new__', '_where'} != set(names.split()):
            raise core.HarnessError(f'{cls.__name__} defines {own}')


checked()
SEQX = {n: SEQREAD[n] for n in ('contains', 'count', 'index', 'all')}
TABLES = {'MinPSeq': {**PSEQ, **SEQX, **X}, 'MinTSeq': {**TSEQ, **SEQX, **X}, 'MinPSet': {**PSET, **X}, 'MinTSet': {**TSET, **X},
          'MinPMap': {**PDICT, **X}, 'MinTMap': {**TDICT, **X}}
PROP = core.Prop('C21', [core.Part(f, (lambda d, t=table(o): program(d, t)), run_min(FAM[f], o), quick=900)
                         for f, o in TABLES.items()],
                 rule='A case is an object of a class that implements only the documented abstract methods of one of the six '
                      'base classes (over a tuple, list or dict), and a program of inherited operations (edits, batch edits, '
                      'searches, operators, comparisons, hash, text, copy, pickle, json), compared with list, set or dict '
                      'and, for hashes and text, with the library type of equal contents; non-trivial: three operations, an '
                      'edit, and an object of two elements.',
                 assumptions=['the minimal classes can be constructed from an iterable of elements or pairs, as the pickling '
                              'support and the batch edits of the base classes presuppose'])
