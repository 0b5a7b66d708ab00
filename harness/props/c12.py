from builders import *
import hugepair
from pcollections.util import seqcmp, setcmp

CMPS = (('<', lambda x, y: x < y), ('<=', lambda x, y: x <= y), ('>', lambda x, y: x > y), ('>=', lambda x, y: x >= y))


def seq_model_cmp(m1, m2):
    """-1/0/1/None by list order (None: the first differing pair is not ordered), or the error."""
    if m1 == m2:
        return 0
    if m1 < m2:
        return -1
    if m1 > m2:
        return 1
    return None


def set_model_cmp(a, b):
    if a == b:
        return 0
    if a < b:
        return -1
    if a > b:
        return 1
    if not a & b:
        return None
    return Ellipsis


def ordered(c, b, n, k):
    """Contents drawn so that orderings are often defined: small ints, nested lists, sets, strings."""
    f = b % 7
    xs = [(b // 7 + i * (k & 7)) & 255 for i in range(n)]
    if f == 0:
        return [x & 3 for x in xs]
    if f == 1:
        return [(frozenset(), frozenset({1}), frozenset({2}), frozenset({1, 2}), pset([1]), pset([2]), pset([1, 2]), {1})[x & 7] for x in xs]
    if f == 2:
        return [([], [1], [1, 2], plist([1]), plist([2]), [1, None], plist([1, 'a']), tlist([0]))[x & 7] for x in xs]
    if f == 3:
        return [D.key(x) for x in xs]
    if f == 4:
        return [(1.0, D.NAN, 1, 2, D.NAN2, float('inf'), True, 0)[x & 7] for x in xs]
    if f == 5:
        return [(None, D.Odd(0), 1j, D.Odd(1), 'a', 1, (1, 'a'), (1, 1))[x & 7] for x in xs]
    return c.vals(b, n, k)


def seq_case(c, a, rec):
    n = D.size(a[1] % 200) if a[0] & 128 else D.small(a[1])
    m1 = ordered(c, a[2], n, a[1] >> 4)
    m2 = variant(c, 'seq', m1, a[3], a[4], a[5])
    if a[3] & 16 and m2:
        i = a[4] % len(m2)
        m2[i] = ordered(c, a[2], 1 + a[5] % 8, 1)[-1]
    fa, fb = FAM[SEQ_FAMS[a[6] & 3]], FAM[SEQ_FAMS[(a[6] >> 2) & 3]]
    x = build(c, fa, m1, a[4], a[5])
    nat = a[6] & 16
    y = list(m2) if nat else build(c, fb, m2, a[5], a[4])
    if nat and a[6] & 32:
        x, y, m1, m2 = y, x, m2, m1
    what = f'{type(x).__name__} {D.short(m1)} %s {type(y).__name__} {D.short(m2)}'
    if a[5] & 32:                              # (the hashes may be known before the comparison)
        for z in (x, y):
            if not isinstance(z, (list, set)):
                attempt(hash, z)
    for nm, f in CMPS:
        exp, got = attempt(f, m1, m2), attempt(f, x, y)
        if compare_outcome(what % nm, exp, got) and got[1] is not exp[1]:
            fail(f'{what % nm}: {got[1]!r}')
        rec.label('list order undefined' if exp[0] == 'err' else f'list {nm} {exp[1]}')
    exp = attempt(seq_model_cmp, m1, m2)
    for p, q in ((x, y), (tuple(m1), tuple(m2)), (m1, y)):
        got = attempt(seqcmp, p, q)
        w = f'seqcmp({type(p).__name__} {D.short(m1)}, {type(q).__name__} {D.short(m2)})'
        if compare_outcome(w, exp, got) and (got[1] != exp[1] or type(got[1]) is not type(exp[1])):
            fail(f'{w}: {got[1]!r}, expected {exp[1]!r}')
    if exp[0] == 'ok' and exp[1] is None:
        rec.label('incomparable elements')
    if len(m1) > 1 and len(m2) > 1:
        rec.nontrivial()
    o = (3, None, (1,), 'a', {1}, {1: 2}, pset([1]), pdict())[a[4] & 7]
    z = x if not isinstance(x, list) else y
    for nm, f in CMPS:
        g = attempt(f, z, o)
        if g[0] == 'ok' or not isinstance(g[1], TypeError):
            fail(f'{type(z).__name__} {nm} {o!r}: {g[1]!r}, expected TypeError')
    if not isinstance(o, (tuple, str)):
        for f in (lambda: seqcmp(z, o), lambda: seqcmp(o, z)):
            g = attempt(f)
            if g[0] == 'ok' or not isinstance(g[1], TypeError):
                fail(f'seqcmp with {o!r}: {g[1]!r}, expected TypeError')


def set_case(c, a, rec):
    n = D.size(a[1] % 200) if a[0] & 128 else D.small(a[1])
    m1 = contents_for(c, 'set', a[2], n, a[1] >> 4, a[3])
    m2 = variant(c, 'set', m1, a[3], a[4], a[5])
    fa, fb = FAM[SET_FAMS[a[6] & 1]], FAM[SET_FAMS[(a[6] >> 1) & 1]]
    x = build(c, fa, m1, a[4], a[5])
    form = (a[6] >> 2) % 6
    y = build(c, fb, m2, a[5], a[4]) if form < 2 else (set, frozenset, lambda v: dict.fromkeys(v).keys(),
                                                       lambda v: tdict((k, 0) for k in v).keys())[form - 2](m2)
    what = f'{type(x).__name__} {D.short(m1)} %s {type(y).__name__} {D.short(m2)}'
    if a[6] & 128:
        x, y, m1, m2 = y, x, m2, m1
        what = f'{type(x).__name__} {D.short(m1)} %s {type(y).__name__} {D.short(m2)}'
    if a[5] & 32:                              # (the hashes may be known before the comparison)
        for z in (x, y):
            if not isinstance(z, (list, set)):
                attempt(hash, z)
    for nm, f in CMPS:
        g, w = f(x, y), f(m1, m2)
        if g is not w:
            fail(f'{what % nm}: {g!r}')
    want = set_model_cmp(m1, m2)
    got = setcmp(x, y)
    if got is not want and (type(got) is not int or got != want):
        fail(f'setcmp of {what % "and"}: {got!r}, expected {want!r}')
    rec.label(f'sets {want}')
    if not m1 or not m2:
        rec.label('an empty set')
    if len(m1) > 1 and len(m2) > 1:
        rec.nontrivial()
    z = x if isinstance(x, (pset, tset)) else y
    mz, mo = (m1, m2) if z is x else (m2, m1)
    vals = list(mo) * (1 + (a[5] & 1))
    for nm in ('isdisjoint', 'issubset', 'issuperset'):
        for form in ((a[3] >> 4) % 15, (a[4] + 5) % 15):
            arg = set_iterable(c, vals, form)
            g, w = getattr(z, nm)(arg), getattr(mz, nm)(mo)
            if g is not w:
                fail(f'{type(z).__name__} {D.short(mz)}.{nm}({type(arg).__name__} of {D.short(vals)}): {g!r}')
        other = x if z is y else y
        if getattr(z, nm)(other) is not getattr(mz, nm)(mo):
            fail(f'{nm} of {what % "and"} is wrong')
        if getattr(z, nm)(z) is not getattr(mz, nm)(mz):
            fail(f'{type(z).__name__} {D.short(mz)}.{nm}(itself) is wrong')
    o = (3, None, (1,), 'a', [1], {1: 2}, plist([1]), pdict())[a[4] & 7]
    for nm, f in CMPS:
        for p, q in ((z, o), (o, z)):
            g = attempt(f, p, q)
            if g[0] == 'ok' or not isinstance(g[1], TypeError):
                fail(f'{p!r} {nm} {q!r}: {g[1]!r}, expected TypeError')
    for f in (lambda: setcmp(z, o), lambda: setcmp(o, z)):
        g = attempt(f)
        if g[0] == 'ok' or not isinstance(g[1], TypeError):
            fail(f'setcmp with {o!r}: {g[1]!r}, expected TypeError')


def run(case, rec):
    c = Ctx(case['head'][0], rec)
    for op in case['ops']:
        (seq_case if op[0] == 'list' else set_case)(c, op[1:], rec)


TAB = table(dict(list=(None, 1), set=(None, 1)))
PROP = core.Prop('C12', [core.Part('orders', lambda d: program(d, TAB), run, quick=2500, sizes=((2, 5), (4, 12))),
                         hugepair.huge_part('orders', hugepair.order_case)],
                 rule='Every operation builds two lists or two sets of generated types (either may be native) whose contents are '
                      'equal, related or unrelated, and compares the four ordering operators, the subset methods and '
                      'seqcmp/setcmp with list and set; non-trivial: both have at least two elements.  huge orders: the same for orderings.',
                 assumptions=['elements whose <, <=, >, >= and == are consistent with each other'])
