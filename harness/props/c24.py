"""C24: the language's own protocols, on collections and on their native counterparts."""
from builders import *
import bisect, collections, collections.abc as A, copy, functools, itertools, json, operator, random, string, types, typing
import pcollections.abc as P

ABCS = ('Sized', 'Iterable', 'Container', 'Collection', 'Reversible', 'Sequence', 'MutableSequence', 'Set', 'MutableSet', 'Mapping',
        'MutableMapping', 'Callable', 'Iterator', 'Generator', 'MappingView')
OWN = {('seq', True): 'PersistentSequence', ('seq', False): 'TransientSequence', ('set', True): 'PersistentSet',
       ('set', False): 'TransientSet', ('map', True): 'PersistentMapping', ('map', False): 'TransientMapping'}
NOT = {('seq', True): 'MutableSequence', ('set', True): 'MutableSet', ('map', True): 'MutableMapping'}
BASE = dict(llist=plist, tllist=tlist, ldict=pdict, tldict=tdict)
_r = functools.partial(sorted, key=repr)


def star(*a):
    return a


def kwargs(**k):
    return k


def first_rest(x):
    a, *r = x
    return a, r


def last(x):
    *r, a = x
    return r, a


def two(x):
    a, b = x
    return a, b


def pattern(x):
    match x:
        case []:
            return 'empty'
        case [a]:
            return 'one', a
        case [a, b]:
            return 'two', a, b
        case [a, *r, b] if len(r) < 3:
            return 'few', a, r, b
        case [a, b, *r]:
            return 'many', a, b, r
        case {'k1': v, **r}:
            return 'k1', v, r
        case {'k2': v, 'k3': w}:
            return 'k2 k3', v, w
        case {}:
            return 'mapping'
        case _:
            return 'nothing'


def into(native, f):
    """f applied to a native container and x, which must leave the container as with the native x."""
    def g(x):
        n = native()
        f(n, x)
        return n
    return g


def setslice(i, j):
    def f(n, x):
        n[i:j] = x
    return f


def shuffled(x):
    return random.Random(4).choice(x), random.Random(5).sample(x, min(3, len(x)))


SEQ = {
    'bool': bool, 'list': list, 'tuple': tuple, '[*x]': lambda x: [*x], 'f(*x)': lambda x: star(*x), 'f(1, *x, 2)': lambda x: star(1, *x, 2),
    'a, *r = x': first_rest, '*r, a = x': last, 'a, b = x': two, 'match': pattern, 'deque': collections.deque,
    'deque(maxlen)': lambda x: collections.deque(x, 2), 'enumerate': lambda x: list(enumerate(x)), 'zip': lambda x: list(zip(x, x)),
    'map': lambda x: list(map(type, x)), 'filter': lambda x: list(filter(None, map(repr, x))), 'reversed': lambda x: list(reversed(x)),
    'sorted': _r, 'min': lambda x: min(x, key=repr), 'max': lambda x: max(x, key=repr), 'any': any, 'all': all,
    'sum': lambda x: sum(map(len, map(repr, x))), 'reduce': lambda x: functools.reduce(lambda p, q: (p, repr(q)), x, ()),
    'islice': lambda x: list(itertools.islice(x, 1, None, 2)), 'chain': lambda x: list(itertools.chain(x, x)),
    'join': lambda x: '-'.join(map(repr, x)), 'list.extend': into(lambda: [0], list.extend),
    'list[1:2] = x': into(lambda: [7, 8, 9], setslice(1, 2)), 'list[:] = x': into(lambda: [7, 8, 9], setslice(None, None)),
    'itemgetter': operator.itemgetter(0, -1), 'itemgetter slice': lambda x: list(operator.itemgetter(slice(1, None, 2))(x)),
    'countOf': lambda x: operator.countOf(x, 1), 'contains': lambda x: operator.contains(x, 1), 'length_hint': operator.length_hint,
    'fromkeys': dict.fromkeys, 'set': set, 'frozenset': frozenset, 'Counter': collections.Counter, 'bytes': bytes, 'len': len,
    'random': shuffled, 'zip(*[x, x])': lambda x: list(zip(*[x, x])), 'dict of pairs': lambda x: dict(enumerate(x)),
    'comprehension': lambda x: [(i, y) for i, y in enumerate(x) if i % 2], 'iter/next': lambda x: next(iter(x)),
    'index()': lambda x: [x[i] for i in range(len(x))], '% tuple': lambda x: '%s' * len(x) % tuple(x), 'pairwise': lambda x: list(itertools.pairwise(x)),
    'combinations': lambda x: list(itertools.islice(itertools.combinations(x, 2), 9)), 'product': lambda x: list(itertools.islice(itertools.product(x, x), 9)),
    'accumulate': lambda x: list(itertools.accumulate(x, lambda p, q: q)), 'x[True]': lambda x: x[True],
    'for/else': lambda x: [y for y in x], 'not': operator.not_, 'list(x) == list': lambda x: list(x) == [*x],
}

MAP = {
    'bool': bool, 'dict': dict, '{**x}': lambda x: {**x}, '{1: 2, **x}': lambda x: {1: 2, **x}, 'f(**x)': lambda x: kwargs(**x), 'match': pattern,
    'f(*x)': lambda x: star(*x), 'OrderedDict': collections.OrderedDict, 'defaultdict': lambda x: collections.defaultdict(list, x),
    'dict.update': into(lambda: {'k1': 0, 1: 0}, dict.update), 'ChainMap': lambda x: dict(collections.ChainMap({'k1': 0}, x)),
    'ChainMap lookup': lambda x: [collections.ChainMap({}, x).get(k) for k in ('k1', 'k2', 1, None)],
    'list': list, 'tuple': tuple, 'set': set, 'sorted': _r, 'zip values': lambda x: list(zip(x, x.values())), 'len': len, '[*x]': lambda x: [*x],
    'max by value': lambda x: max(x, key=lambda k: repr(x[k])), 'inverse': lambda x: [(v, k) for k, v in x.items()],
    'itemgetter': lambda x: operator.itemgetter(next(iter(x)))(x), '%': lambda x: '%(k1)s/%(k2)s' % x,
    'format_map': lambda x: '{k1}/{k3}'.format_map(x), 'Template': lambda x: string.Template('$k1 ${k2}').safe_substitute(x),
    'translate': lambda x: '\x01\x02ab'.translate(x), 'eval': lambda x: eval('k1, k2', {}, x), 'proxy': lambda x: dict(types.MappingProxyType(x)),
    'proxy get': lambda x: [types.MappingProxyType(x).get(k, 5) for k in ('k1', 'k2', 1, None)], 'a, *r = x': first_rest,
    'SimpleNamespace': lambda x: vars(types.SimpleNamespace(**x)), 'enumerate': lambda x: list(enumerate(x)), 'any': any, 'all': all,
    'reversed': lambda x: list(reversed(x)), 'filter': lambda x: list(filter(None, x)), 'in': lambda x: [k in x for k in ('k1', 1, None, 'zz')],
    'iter/next': lambda x: next(iter(x)), 'comprehension': lambda x: {k: 1 for k in x}, 'map get': lambda x: list(map(x.get, x)),
    'UserDict': lambda x: dict(collections.UserDict(x)), 'length_hint': operator.length_hint, 'not': operator.not_,
    'dict comparison': lambda x: dict(x.items()) == {**x}, 'partial': lambda x: functools.partial(kwargs, **x)(), 'Counter': lambda x: dict(collections.Counter(list(x))),
    'json-like': lambda x: [[repr(k), repr(v)] for k, v in x.items()], 'keys & set': lambda x: set(x.keys() & {'k1', 1, None}),
}

SET = {
    'bool': bool, 'set': set, 'frozenset': frozenset, '{*x}': lambda x: {*x}, 'sorted': lambda x: sorted(map(repr, x)), 'f(*x)': lambda x: set(star(*x)), 'len': len,
    'list': lambda x: set(list(x)), 'deque': lambda x: set(collections.deque(x)), 'set.update': into(lambda: {0, 1}, set.update), 'a, b = x': lambda x: set(two(x)),
    'a, *r = x': lambda x: (lambda p: {p[0], *p[1]})(first_rest(x)), 'set.union': lambda x: {1, 2}.union(x), 'set.intersection': lambda x: {0, 1, 'k1', None}.intersection(x),
    'set.difference': lambda x: {0, 1, 'k1', None}.difference(x), 'set.symmetric_difference': lambda x: {0, 1, 'k1'}.symmetric_difference(x),
    'set.issubset': lambda x: {1}.issubset(x), 'set.issuperset': lambda x: {0, 1, 2, 3}.issuperset(x), 'set.isdisjoint': lambda x: {0, 1}.isdisjoint(x),
    'set.difference_update': into(lambda: {0, 1, 2, 'k1'}, set.difference_update), 'set.intersection_update': into(lambda: {0, 1, 2, 'k1'}, set.intersection_update),
    'match': pattern, 'fromkeys': lambda x: set(dict.fromkeys(x)), 'Counter': lambda x: set(collections.Counter(x).items()), 'min': lambda x: repr(min(x, key=repr)), 'max': lambda x: repr(max(x, key=repr)),
    'sum': lambda x: sum(map(len, map(repr, x))), 'any': any, 'all': all, 'zip': lambda x: set(zip(x, x)), 'filter': lambda x: set(filter(None, x)),
    'comprehension': lambda x: {repr(y) for y in x}, 'length_hint': operator.length_hint, 'not': operator.not_, 'keys & x': lambda x: set({0: 1, 1: 2, 'k1': 3}.keys() & x),
    'keys | x': lambda x: set({0: 1}.keys() | x), 'keys - x': lambda x: set({0: 1, 1: 2, 'k1': 3}.keys() - x), 'keys <= x': lambda x: {1: 2}.keys() <= x, 'x <= keys': lambda x: x <= {0: 1, 1: 2, 'k1': 3}.keys(),
    'in': lambda x: [k in x for k in ('k1', 1, None, 0, 'zz', (1,))], 'frozenset |': lambda x: set(frozenset({0, 1}) | x), 'countOf': lambda x: operator.countOf(x, 1),
}

def mutate_seq(x):
    """Library functions that mutate the sequence they are given."""
    random.Random(7).shuffle(x)
    return list(x)


def setitem(x):
    operator.setitem(x, 0, 'new')
    return list(x)


def delitem(x):
    operator.delitem(x, -1)
    return list(x)


def op_iadd(x):
    y = operator.iadd(x, [5])
    return y is x, list(x)


def del_all(x):
    while x:
        x.pop()
    return list(x)


def aug_item(x):
    x[0] = (x[0], 1)
    x[-1] = (x[-1], 2)
    return list(x)


def swap(x):
    x[0], x[-1] = x[-1], x[0]
    return list(x)


def bis(x):
    x.sort(key=repr)
    bisect.insort(x, 'm', key=repr)
    return list(x)


TSEQM = {'shuffle': mutate_seq, 'setitem': setitem, 'delitem': delitem, 'iadd': op_iadd, 'while x: pop': del_all, 'x[i] = ...': aug_item, 'swap': swap, 'insort': bis}


def m_loop(x):
    for k in list(x):
        x[k] = (x[k], 1)
        if len(x) > 3:
            del x[k]
    return list(x.items())


def m_exec(x):
    exec('k1 = 5\nk9 = 6', {}, x)
    return list(x.items())


def m_setdefault(x):
    for k in ('k1', 'k2', 'k1', 3):
        x.setdefault(k, []).append(k) if not k in x or isinstance(x[k], list) else None
    return list(x.items())


def m_pop(x):
    while x:
        x.pop(next(iter(x)))
    return list(x.items())


TMAPM = {'loop': m_loop, 'exec': m_exec, 'setdefault': m_setdefault, 'while x: pop': m_pop}


def s_loop(x):
    for y in list(x):
        x.add(('new', y))
        x.discard(y)
    return set(x)


def s_pop(x):
    got = set()
    while x:
        got.add(x.pop())
    return got


def s_ior(x):
    y = operator.ior(x, {'m', 1})
    return y is x, set(x)


TSETM = {'loop': s_loop, 'while x: pop': s_pop, 'ior': s_ior}
PROBES = {('seq', True): SEQ, ('map', True): MAP, ('set', True): SET, ('seq', False): {**SEQ, **TSEQM}, ('map', False): {**MAP, **TMAPM},
          ('set', False): {**SET, **TSETM}}
PROBES = {k: list(v.items()) for k, v in PROBES.items()}


def agree(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if type(a) is collections.Counter:
            return a == b
        return len(a) == len(b) and all(agree(x, y) or x == y for x, y in zip(a, b)) and all(agree(a[k], b[k]) for k in a)
    return a == b


def classes(f, x):
    """Which abstract classes x belongs to."""
    nat = NATIVE[f.kind]()
    for n in ABCS:
        if f.kind == 'set' and n == 'Reversible':
            continue
        c = getattr(A, n)
        want = isinstance(nat, c) and n != NOT.get((f.kind, f.persistent))
        if isinstance(x, c) is not want or issubclass(type(x), c) is not want:
            fail(f'isinstance({f.name}, {n}): {not want}')
    for n in ('Persistent', 'Transient', *OWN.values()):
        want = n == OWN[f.kind, f.persistent] or n == ('Persistent' if f.persistent else 'Transient')
        if isinstance(x, getattr(P, n)) is not want:
            fail(f'isinstance({f.name}, {n}): {not want}')
    if f.persistent and not isinstance(x, A.Hashable):
        fail(f'{f.name} is not Hashable')
    for c in (list, tuple, set, frozenset, dict, str):
        if isinstance(x, c):
            fail(f'{f.name} is a {c.__name__}')
    for g, b in BASE.items():
        if isinstance(x, b) is not (f.cls is b or g == f.name):
            fail(f'isinstance({f.name}, {b.__name__})')
    if callable(x):
        fail(f'{f.name} is callable')
    al = f.cls[int] if f.kind != 'map' else f.cls[str, int]
    if typing.get_origin(al) is not f.cls:
        fail(f'{f.name}[int]: {al!r}')


def run(case, rec):
    h = case['head']
    c = Ctx(h[0], rec)
    for op in case['ops']:
        a = op[1:]
        kind = ('seq', 'map', 'set')[a[0] % 3]
        n = D.size(a[1] % 200) if a[0] & 128 else D.small(a[1])
        m = contents_for(c, kind, a[2], n, a[1] >> 4, a[3])
        f = FAM[KIND_FAMS[kind][(a[6] & 15) % len(KIND_FAMS[kind])]]
        how = a[4] if kind == 'set' else a[4] & 3 if kind == 'map' else a[4]
        probes = PROBES[kind, f.persistent]
        nm, fn = probes[(a[3] + a[5]) % len(probes)]
        x = build(c, f, m, how, a[5])
        what = f'{nm} of a {f.name} {D.short(m)}'
        if a[6] >> 4 == 0:
            classes(f, x)
            rec.label('classes')
        exp, got = attempt(fn, NATIVE[kind](m)), attempt(fn, x)
        if compare_outcome(what, exp, got):
            if not agree(exp[1], got[1]):
                fail(f'{what}: {D.short(got[1])}, expected {D.short(exp[1])}')
            rec.label(f'{kind}')
        else:
            rec.label('error')
        if f.persistent or nm in dict(MAP if kind == 'map' else SET if kind == 'set' else SEQ):
            check_slot(Slot(f, x, m), f'after {what}')
        if len(m) > 1:
            rec.nontrivial()


TAB = table(dict(probe=(None, 1)))
PROP = core.Prop('C24', [core.Part('protocols', lambda d: program(d, TAB), run, quick=3500, sizes=((2, 6), (4, 16)))],
                 rule='Every operation builds a collection of a generated type along a generated route and hands it to one of '
                      f'{sum(len(v) for v in PROBES.values())} language or standard-library protocols (unpacking, patterns, native constructors and methods, '
                      'formatting, itertools, isinstance ...), compared with what the native counterpart gives; non-trivial: a '
                      'collection of at least two elements.',
                 assumptions=['transient sets are hashable by design of their base class, so Hashable is not claimed for transients'])
