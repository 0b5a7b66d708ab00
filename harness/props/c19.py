from builders import *
from pcollections.util import seqstr
import domain as D


class R:
    """An element with a chosen repr (and a different str)."""
    __slots__ = ('id', 'text')

    def __init__(self, id, text):
        self.id, self.text = id, text

    def __repr__(self):
        return self.text

    def __str__(self):
        return 'STR'

    def __hash__(self):
        return self.id % 5

    def __eq__(self, o):
        return self is o


CHARS = 'abc, .|<>{}"\\x\u00e9\n'


def text(n, b):
    return ''.join(CHARS[(b + i * (1 + (b & 3))) % len(CHARS)] for i in range(n))




def elements(c, ops, total, seplen, over):
    """Elements with repr lengths from the records; if asked, padded to a total length near a boundary."""
    out = []
    for r in ops:
        k = r[1] % 8
        if k == 0:
            out.append(D.val(2, r[2]) if not c.hashable else D.hval(2, r[2]))
        else:
            n = r[2] % 4 if k < 3 else r[2] % 12 if k < 6 else r[2] % 75
            out.append(R(r[3] + 256 * len(out), text(n, r[4])))
    if total is not None:
        have = sum(len(repr(x)) + over for x in out) + seplen * len(out)
        if have <= total:
            out.append(R(7, text(max(0, total - have - over), 3)))
    return out


def expected(parts, sep, maxlen):
    full = sep.join(parts)
    if maxlen is None or len(full) <= maxlen:
        return full
    best = '...'
    for k in range(1, len(parts)):
        t = sep.join(parts[:k] + ['...'])
        if len(t) <= maxlen:
            best = t
    return best


BR = {'seq': '[]', 'set': '{}', 'map': '{}'}


def inner(kind, s, what):
    o, cl = BR[kind]
    if len(s) < 4 or s[0] != o or s[-1] != cl or s[:2] + s[-2:] not in (o + '||' + cl, o + '<>' + cl):
        fail(f'{what}: wrong brackets in {s!r}')
    return s[2:-2]


def collection(case, rec):
    h, ops = case['head'], case['ops']
    c = Ctx(h[0], rec)
    fam = FAM[tuple(FAM)[h[7] % 10]]
    c.hashable = fam.kind != 'seq'
    over = (len('1: '), len("'k': "), 0)[h[1] % 3] if fam.kind == 'map' else 0
    total = (58, 59, 60, 61, 62, 57, 55, 56)[h[2] & 7] if h[2] & 8 else None
    els = elements(c, ops, total, 2, 3 if fam.kind == 'map' else 0)
    if h[4] >= 0xe0:                          # many elements, of which only the first few can be shown
        els += range(1000, 1000 + (25, 33, 50, 61, 64, 65, 70, 100, 101, 128, 129, 200, 257, 40, 31, 300)[h[5] & 15])
        rec.label('many elements')
    if fam.kind == 'set':
        m = set(els)
    elif fam.kind == 'map':
        if h[1] & 1:
            m = {i % 10 if i < 10 else i: x for i, x in enumerate(els)}
        else:
            m = {(x if i & 1 else i): els[-1 - i] for i, x in enumerate(els)}
    else:
        m = els
    x = build(c, fam, m, h[3] & 15 if h[3] & 15 != 11 else 0, h[4])
    if fam.kind == 'map':
        raw = [(k, x.getlazy(k)) if fam.lazy else (k, x[k]) for k in x]
        keys = list(raw)
        if len(raw) != len(m):
            fail(f'{fam.name}: {len(raw)} items, expected {len(m)}')
    elif fam.kind == 'seq' and fam.lazy:
        raw = [x.getlazy(i) for i in range(len(x))]
    else:
        raw = list(x)
    runs = sum(t.runs for t in c.thunks)

    def shown(f):
        if fam.kind == 'map':
            return [f'{f(k)}: {f(v)}' for k, v in raw]
        return [f(v) for v in raw]
    what = f'{fam.name} of {D.short(m)}'
    for _ in range(2):
        got = inner(fam.kind, repr(x), 'repr of ' + what)
        want = ', '.join(shown(repr))
        if got != want:
            fail(f'repr of {what}: {got!r}, expected {want!r}')
        parts = shown(lambda v: '<lazy>' if isinstance(v, lazy) else repr(v))
        got = inner(fam.kind, str(x), 'str of ' + what)
        want = expected(parts, ', ', 60)
        if got != want:
            fail(f'str of {what}: {got!r}, expected {want!r}')
        if f'{x}' != str(x) or '%s' % (x,) != str(x) or f'{x!r}' != repr(x):
            fail(f'formatting of {what} differs from str and repr')
    if fam.kind == 'map':
        for nm, els in (('keys', [k for k, v in raw]), ('values', [v for k, v in raw]), ('items', [y for p in raw for y in p])):
            view = getattr(x, nm)()
            for f in (repr, str):
                text, i = f(view), 0
                for e in map(repr, els):
                    j = text.find(e, i)
                    if j < 0:
                        fail(f'{f.__name__} of {nm}() of {what}: {text!r} does not show {e!r} in its place')
                    i = j + len(e)
    n = len(', '.join(parts))
    rec.label('over 60' if n > 60 else 'exactly 60' if n == 60 else 'exactly 61' if n == 61 else 'up to 60')
    if n in (59, 60, 61):
        rec.label('boundary length')
    if any(isinstance(v[1] if fam.kind == 'map' else v, lazy) for v in raw):
        rec.label('lazy placeholder')
    if sum(t.runs for t in c.thunks) != runs:
        fail(f'printing {what} evaluated a lazy value')
    if len(raw) >= 2:
        rec.nontrivial()


SEPS = (', ', ',', '', ' ', '; ', ' -- ', '\n', ',,,,,,,,', '...')
FORMS = (list, tuple, iter, lambda xs: (x for x in xs), plist, tlist, D.ReIter, lambda xs: llist([lazy(lambda x=x: x) for x in xs]))


def formatting(case, rec):
    h, ops = case['head'], case['ops']
    c = Ctx(h[0], rec)
    c.hashable = True
    sep = SEPS[h[1] % len(SEPS)]
    maxlen = (3, 4, 5, 6, 7, 8, 10, 12, 20, 60, None, 100, 3 + h[3] % 40, 3 + h[3] % 20, 61, 59)[h[2] & 15]
    tostr = (repr, str, lambda v: '', lambda v: repr(v)[:3], lambda v: '<' + repr(v) + '>', repr, repr, repr)[h[4] & 7]
    total = None
    if h[5] & 1 and maxlen:
        total = maxlen + (0, 1, -1, 2, -2, 3, 0, -3)[h[5] >> 1 & 7]
    mapping = h[6] & 7 == 0
    els = elements(c, ops, total, len(sep), 3 if mapping else 0)
    if mapping:
        m = {i % 10 if i < 10 else i: x for i, x in enumerate(els)}
        arg = (dict, pdict, tdict, ldict)[h[6] >> 3 & 3](m)
        parts = [f'{tostr(k)}: {tostr(v)}' for k, v in m.items()]
        rec.label('mapping')
    elif h[6] & 7 == 1:
        arg = (pset, tset, set, frozenset)[h[6] >> 3 & 3](els)
        parts = [tostr(v) for v in arg]
    else:
        arg = FORMS[h[6] >> 3 & 7](els)
        parts = [tostr(v) for v in els]
    kw = {}
    if sep != ', ' or h[7] & 1:
        kw['sep'] = sep
    if tostr is not repr or h[7] & 2:
        kw['tostr'] = tostr
    if maxlen is not None or h[7] & 4:
        kw['maxlen'] = maxlen
    got = seqstr(arg, **kw)
    want = expected(parts, sep, maxlen)
    what = f'seqstr of {type(arg).__name__} {D.short(parts)} with maxlen {maxlen}, sep {sep!r}'
    if maxlen is not None and len(got) > maxlen:
        fail(f'{what}: {got!r} has length {len(got)}')
    if got != want:
        fail(f'{what}: {got!r}, expected {want!r}')
    full = sep.join(parts)
    if maxlen is not None and abs(len(full) - maxlen) <= 1:
        rec.label('boundary length')
    if maxlen is not None and len(full) > maxlen:
        rec.label('shortened')
    if len(parts) >= 2 and maxlen is not None:
        rec.nontrivial()
    if h[7] >> 3 == 0:
        for bad in (2, 1, 0, -1, -60, 'a', 4.5, True, [3]):
            g = attempt(seqstr, els, maxlen=bad)
            if g[0] == 'ok' or not isinstance(g[1], (TypeError, ValueError)):
                fail(f'seqstr with maxlen {bad!r}: {g[1]!r}, expected TypeError')


def decode(d):
    head, recs = core.records(d)
    return dict(head=tuple(head), ops=[tuple(r) for r in recs])


PROP = core.Prop('C19', [core.Part('collections', decode, collection, quick=3000, sizes=((1, 5), (3, 14), (10, 40))),
                         core.Part('seqstr', decode, formatting, quick=3500, sizes=((1, 5), (3, 14), (10, 40)))],
                 rule='collections: a collection of one of the ten types, built along some route, whose elements have reprs of chosen '
                      'lengths, the total often at 57 to 62 characters; repr and str are compared with the text written from the '
                      'elements by iteration; non-trivial: two elements.  seqstr: elements, maximum length, separator and element '
                      'formatter; non-trivial: two elements and a maximum length.')
