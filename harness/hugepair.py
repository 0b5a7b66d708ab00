"""Conversions, comparisons and copies of collections of thousands of elements."""
import copy, json, pickle
from builders import *
from pcollections.util import seqcmp, setcmp

SIZES = (1025, 2047, 2048, 2049, 2500, 3001, 4095, 4096, 4097, 5000, 5001, 6145, 8191, 8192, 8193, 12289)


def big(c, kind, a):
    """Native contents of thousands of elements."""
    n = SIZES[a[0] & 15]
    if kind == 'seq':
        if a[1] & 3 == 3:
            return [(i * 7919 + a[2]) % 101 for i in range(n)]
        return ['k%d' % i for i in range(n)] if a[1] & 3 == 2 else [i + a[2] for i in range(n)]
    ks = c.hvals(a[2], n, a[1])
    if kind == 'set':
        return set(ks)
    return {k: i % 1000 if i % 7 else 'v%d' % i for i, k in enumerate(ks)}


def place(n, a):
    return (0, n - 1, n // 2, 1023, 1024, 2047, 2048, 4095, 4096, n - 2, n - 1, (a * 257) % n, 1, 999, 1000, (a * 61) % n)[a & 15] % n


def other(kind, m, a):
    """Contents that equal m or differ from it a little."""
    how, n = a[0] & 7, len(m)
    p = place(n, a[1])
    if how == 0:
        return NATIVE[kind](m)
    if kind == 'seq':
        m = list(m)
        x = m[p]
        odd = x + (1, -1, 5000, -5000)[a[2] & 3] if type(x) is int else x + ('', 'a')[a[2] & 1]
        if how in (1, 2):
            m[p] = odd
            if how == 2:
                q = place(n, a[3])
                m[q] = m[q] * 2
        elif how == 3:
            del m[p]
        elif how == 4:
            m.insert(p, odd)
        elif how == 5:
            del m[p or 1:]
        elif how == 6:
            m.append(odd)
        else:
            m[p] = float(x) if type(x) is int else x + ''
        return m
    ks = list(m)
    new = ('a new one', a[1])
    if kind == 'set':
        if how == 1:
            return set(ks[:p] + [new] + ks[p + 1:])
        if how == 2:
            return set(ks[:p] + ks[p + 1:])
        if how == 3:
            return set(ks + [new])
        if how == 4:
            return {(k, new) for k in ks}
        if how == 5:
            return set(ks[p % 7::2])
        if how == 6:
            return set(ks + [(new, i) for i in range(1500)])
        return set(ks[p:] + [(new, i) for i in range(1500)])
    m = dict(m)
    k = ks[p]
    if how == 1:
        m[k] = 'another'
    elif how == 2:
        del m[k]
    elif how == 3:
        m[new] = 1
    elif how == 4:
        m[new] = m.pop(k)
    elif how == 5:
        m[k] = float(m[k]) if type(m[k]) is int else m[k] + ''
    elif how == 6:
        m = {k: m[k] for k in reversed(ks)}
    else:
        m[k] = None
        m[ks[-1]] = None
    return m


def big_build(c, fam, m, a):
    """An object with the contents m (sets and dicts: how & 8 may give them another insertion order)."""
    how, k = a[0] & 7, 1 + a[1] % 90
    if fam.kind == 'set':
        xs = list(m)
        if a[0] & 8:
            xs.reverse()
    else:
        src = list(m.items()) if fam.kind == 'map' else m
        f = (lambda i, v: c.wrap(fam, v, a[2]) if i % 101 == k else v)
        xs = [f(i, v) for i, v in enumerate(src)] if fam.kind == 'seq' else [(q, f(i, v)) for i, (q, v) in enumerate(src)]
    if how < 2:
        return fam.make(xs)
    t = FAM[fam.trans or fam.name]
    if how == 2:
        r = t.make(xs)
    elif how == 3 and fam.kind == 'seq':                # the first ones from the front
        k = (k, len(xs) // 2, len(xs))[a[2] % 3]
        r = t.make(xs[k:])
        for x in reversed(xs[:k]):
            r.prepend(x)
    elif how == 4:                                      # more than that, then less
        if fam.kind == 'seq':
            r = t.make([0] * k + xs + [0])
            for _ in range(k):
                del r[0]
            r.pop()
        elif fam.kind == 'set':
            r = t.make([('junk', i) for i in range(k)] + xs)
            for i in range(k):
                r.discard(('junk', i))
        else:
            r = t.make([(('junk', i), 0) for i in range(k)] + xs)
            for i in range(k):
                del r['junk', i]
    elif how == 5:                                      # one part added to the other, in bulk
        r = fam.make(xs[:k])
        x = xs[k:]
        r = (r + x if fam.kind == 'seq' else r.union(x) if fam.kind == 'set' else r.update(x) if fam.persistent else [r.update(x), r][1])
        return r
    elif how == 6 and fam.kind == 'set':
        return fam.make(xs) | pset(xs[k:])
    else:
        r = t.make(xs)
        if not fam.persistent:
            return fam.make(r.persistent())
    return fam.make(r) if fam.persistent else r


def kind_of(a):
    return ('seq', 'map', 'set', 'seq')[a & 3]


def pair(c, a, kind):
    m1 = big(c, kind, a)
    m2 = other(kind, m1, a[3:] + a[:2])
    fams = KIND_FAMS[kind]
    fa, fb = FAM[fams[a[5] % len(fams)]], FAM[fams[(a[5] >> 4) % len(fams)]]
    x = big_build(c, fa, m1, (a[6], a[4], a[2]))
    y = NATIVE[kind](m2) if a[6] >> 6 == 3 else big_build(c, fb, m2, (a[6] >> 3, a[3], a[1]))
    c.rec.nontrivial()
    return fa, m1, x, m2, y, f'{fa.name} of {len(m1)} and {type(y).__name__} of {len(m2)}'


def equal_case(c, a):
    fa, m1, x, m2, y, what = pair(c, a, kind_of(a[1] >> 4))
    want = m1 == m2
    for nm, g, w in (('==', x == y, want), ('!=', x != y, not want), ('reflected ==', y == x, want), ('reflected !=', y != x, not want)):
        if g is not w:
            fail(f'{what}: {nm} gives {g!r}; {difference(m1, m2)}')
    c.rec.label('huge equal' if want else 'huge different')
    if want and fa.persistent and type(y).__name__ in FAM and FAM[type(y).__name__].persistent and hash(x) != hash(y):
        fail(f'{what}: equal, but the hashes differ')


def difference(m1, m2):
    if isinstance(m1, list):
        return 'first difference at ' + str(next((i for i, (p, q) in enumerate(zip(m1, m2)) if p != q), 'the end of one'))
    return f'differing: {D.short([k for k in m1 if k not in m2], 60)} {D.short([k for k in m2 if k not in m1], 60)}'


CMPS = (('<', lambda x, y: x < y), ('<=', lambda x, y: x <= y), ('>', lambda x, y: x > y), ('>=', lambda x, y: x >= y))


def order_case(c, a):
    kind = ('seq', 'set')[a[1] >> 4 & 1]
    fa, m1, x, m2, y, what = pair(c, a, kind)
    for nm, f in CMPS:
        if f(x, y) is not f(m1, m2):
            fail(f'{what}: {nm} gives {f(x, y)!r}; {difference(m1, m2)}')
        if f(y, x) is not f(m2, m1):
            fail(f'{what}: reflected {nm} gives {f(y, x)!r}; {difference(m1, m2)}')
    if kind == 'seq':
        want, got = 0 if m1 == m2 else -1 if m1 < m2 else 1, seqcmp(x, y)
    else:
        want = 0 if m1 == m2 else -1 if m1 < m2 else 1 if m1 > m2 else Ellipsis if m1 & m2 else None
        got = setcmp(x, y)
        for nm in ('isdisjoint', 'issubset', 'issuperset'):
            arg = (y, list(m2), iter(m2), tuple(m2))[a[2] & 3]
            if getattr(x, nm)(arg) is not getattr(m1, nm)(m2):
                fail(f'{what}: {nm} is wrong; {difference(m1, m2)}')
    if got is not want and got != want:
        fail(f'{what}: compared as {got!r}, expected {want!r}; {difference(m1, m2)}')
    c.rec.label(f'huge {kind}s {want}')


def copy_case(c, a):
    if c.u & 3 == 2:                            # (no NaNs: a copy of one is another key)
        c.u = 3
    kind = kind_of(a[1] >> 4)
    m = big(c, kind, a)
    fam = FAM[KIND_FAMS[kind][a[5] % len(KIND_FAMS[kind])]]
    how = a[3] % 9
    if kind == 'map' and how > 6:
        m = {str(k): v for k, v in m.items()}
    x = big_build(c, fam, m, (a[6], a[4], a[2]))
    c.rec.nontrivial()
    if how > 6 and kind != 'set':
        got = json.loads(x.__json__())
        if got != m or kind == 'map' and list(got) != list(m):
            fail(f'JSON of a {fam.name} of {len(m)} gives another value, of {len(got)}')
        c.rec.label('huge json')
        return
    r = copy.copy(x) if how == 5 else copy.deepcopy(x) if how > 5 else pickle.loads(pickle.dumps(x, how))
    what = f'a {fam.name} of {len(m)} ' + ('copied' if how == 5 else 'deep-copied' if how > 5 else f'pickled with protocol {how}')
    got = list(r) if kind == 'seq' else set(r) if kind == 'set' else dict(r.items())
    if type(r) is not fam.cls or len(r) != len(m) or got != m or kind == 'map' and list(got) != list(m):
        fail(f'{what}: a {type(r).__name__} of {len(r)} with other contents')
    if r != x or fam.persistent and hash(r) != hash(x):
        fail(f'{what}: is not equal to the original')
    if fam.persistent:
        return
    if fam.kind == 'seq':
        r.append(1)
    else:
        r.clear()
    check_same(fam, x, m, what + ', changed: the original')
    c.rec.label('huge copy')


def check_same(fam, r, m, what):
    got = list(r) if fam.kind == 'seq' else set(r) if fam.kind == 'set' else dict(r.items())
    if type(r) is not fam.cls or len(r) != len(m) or got != m or fam.kind == 'map' and list(got) != list(m):
        fail(f'{what}: a {type(r).__name__} of {len(r)} with other contents than those {len(m)}')


def convert_case(c, a):
    from props import c10
    kind = kind_of(a[1] >> 4)
    m = big(c, kind, a)
    fam = FAM[KIND_FAMS[kind][a[5] % len(KIND_FAMS[kind])]]
    srcs = dict(seq=c10.SRC_SEQ, set=c10.SRC_SET, map=c10.SRC_MAP)[kind]
    src = srcs[a[3] % len(srcs)]
    values = list(m.items()) if kind == 'map' else list(m)
    if isinstance(src, str):
        obj = big_build(c, FAM[src], m, (a[6], a[4], a[2])) if FAM[src].kind == kind else FAM[src].make(values)
    else:
        obj = src(values)
    what = f'{fam.name}({type(obj).__name__} of {len(m)})'
    r = fam.make(obj)
    check_same(fam, r, m, what)
    if not fam.persistent:
        check_same(FAM[fam.pers], r.persistent(), m, what + ', persistent()')
    else:
        t = r.transient()
        check_same(FAM[fam.trans], t, m, what + ', transient()')
        if t.persistent() is not r:
            fail(what + ': its transient, unchanged, gives another object')
    if isinstance(src, str) and FAM[src].kind == kind:
        check_same(FAM[src], obj, m, what + ' (source)')
    c.rec.label('huge to ' + fam.name)
    c.rec.nontrivial()


def huge_part(name, f, quick=40):
    tab = table({name: (None, 1)})

    def run(case, rec):
        c = Ctx(case['head'][0], rec)
        for op in case['ops']:
            f(c, op[1:])
    return core.Part('huge ' + name, lambda d: program(d, tab), run, quick=quick, sizes=((3, 6),))
