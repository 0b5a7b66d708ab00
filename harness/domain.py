"""Generated values, indices, sizes and operands, all decoded from bytes."""
import operator

NAN, NAN2 = float('nan'), float('nan')


class Fault(Exception):
    """Raised by harness callbacks; never by the library itself."""


class Key:
    """A hashable value with a chosen hash; equal exactly to Keys with the same id."""
    __slots__ = ('id', 'h')
    hook = None                      # called as hook(kind) before every callback
    shown = None                     # called before every repr

    def __init__(self, id, h):
        self.id = id
        self.h = h

    def __hash__(self):
        if Key.hook is not None:
            Key.hook('hash')
        return self.h

    def __eq__(self, other):
        if Key.hook is not None:
            Key.hook('eq')
        if type(other) is Key:
            return self.id == other.id
        return NotImplemented

    def __ne__(self, other):
        if Key.hook is not None:
            Key.hook('eq')
        if type(other) is Key:
            return self.id != other.id
        return NotImplemented

    def __lt__(self, other):
        if Key.hook is not None:
            Key.hook('lt')
        if type(other) is Key:
            return self.id < other.id
        return NotImplemented

    def __gt__(self, other):
        if Key.hook is not None:
            Key.hook('lt')
        if type(other) is Key:
            return self.id > other.id
        return NotImplemented

    def __le__(self, other):
        if Key.hook is not None:
            Key.hook('lt')
        if type(other) is Key:
            return self.id <= other.id
        return NotImplemented

    def __ge__(self, other):
        if Key.hook is not None:
            Key.hook('lt')
        if type(other) is Key:
            return self.id >= other.id
        return NotImplemented

    def __repr__(self):
        if Key.shown is not None:
            Key.shown('repr')
        return f'K{self.id}h{self.h}'

    def __reduce__(self):
        return (Key, (self.id, self.h))


class Odd:
    """Supports equality and hashing but no ordering."""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, other):
        return self.id == other.id if type(other) is Odd else NotImplemented

    def __ne__(self, other):                # (between two of these; the built-in collections never ask)
        return type(other) is not Odd

    def __hash__(self):
        return 7 + self.id

    def __repr__(self):
        return f'Odd{self.id}'

    def __reduce__(self):
        return (Odd, (self.id,))


class IntSub(int):
    pass


def _hashables():
    import pcollections as pc
    return [None, True, False, 0, 1, 2, -1, -2, 1.0, 0.0, 2.5, '', 'a', 'b', b'', b'a', (), (1,), (1, 2), ('a', None),
            frozenset(), frozenset({1}), frozenset({1, 2}), NAN, NAN2, float('inf'), Ellipsis, 2**61 - 1, 2**61,
            1 << 70, -(1 << 70), IntSub(1), Odd(0), Odd(1), complex(0, 1), pc.plist([1]), pc.plist([1, 2]),
            pc.pset([1]), pc.pdict({1: 2}), range(2), int, len, (NAN,), Key(0, 0), Key(1, 1), 3, 4, 5, 'ab', 'c']


def _anyvals():
    import pcollections as pc
    return _hashables() + [[], [1], {}, {1: 2}, set(), {1}, bytearray(b'a'), pc.tlist([1]), pc.tset([1]), pc.tdict({1: 2})]


_H = _V = None


def hashables():
    global _H
    if _H is None:
        _H = _hashables()
    return _H


def anyvals():
    global _V
    if _V is None:
        _V = _anyvals()
    return _V


GROUPS = (3, 9, 3, 3, -2, 3, 9, 0)


def key(b):
    """Colliding keys: ids 0..23 in a few hash groups, and the ints that share those hashes."""
    if b >= 248:
        return (3, 9, -1, -2, 0, 2**61 - 1, 2**61 + 2, 3 + (2**61 - 1))[b - 248]
    if b >= 242:                        # the extreme hashes
        return Key(b, -2**63 if b & 1 else 2**63 - 1)
    i = b % 24
    return Key(i, GROUPS[i % 8])


INTS = tuple(range(24)) + (-1, -2, -3, 2**61 - 1, 2**61, 2**62, -2**61, 1 << 65)


def hval(u, b):
    """A hashable value of universe u."""
    u &= 3
    b &= 255
    if u == 0:
        return INTS[b % 32]
    if u == 1:
        return key(b)
    if u == 2:
        hs = hashables()
        return hs[b % len(hs)]
    return 'k%d' % (b % 40)


def wide(u, i):
    """The i-th of any number of different hashable values; the first ones are those of universe u."""
    u &= 3
    if u == 3:
        return 'k%d' % i
    if u == 0:
        return INTS[i] if i < len(INTS) else i - 8
    if u == 1:
        if i < 24:
            return key(i)
        return i // 3 * 7 + 100 if i % 3 == 2 else Key(i, i // 3 * 7 + 100)
    hs = hashables()
    if i < len(hs):
        return hs[i]
    return (i, 'k%d' % i, i + 0.5, -i, i << 33, (i, 'x'), i << 61, b'%d' % i)[i & 7]


def val(u, b):
    """Any value of universe u (lists; dict values)."""
    u &= 3
    if u == 2:
        vs = anyvals()
        return vs[b % len(vs)]
    return hval(u, b)


def dval(u, b):
    """Dict values: mixed in every universe but the plain one."""
    if u & 3 == 0:
        return b % 16
    vs = anyvals()
    return vs[b % len(vs)]


SIZES = (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 34, 48, 63, 64, 65, 66, 80, 96, 97, 100)
BIG = (1023, 1024, 1025, 1056, 1057, 1100)


def size(b):
    if b >= 253:
        return BIG[(b - 253) * 2 + (b & 1)]
    return SIZES[b % 12] if b < 160 else SIZES[b % 24]


def small(b):
    if b & 0xcf == 0xcd:
        return (48, 70, 130, 300)[b >> 4 & 3]
    return (0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 17, 33, 1, 2)[b & 15]


def index(n, m, r):
    """An index for a list of length n: valid from either end, at the edges, or out of range."""
    m &= 15
    if m < 6:
        return r % n if n else r % 3 - 1
    if m < 9:
        return -(1 + r % n) if n else -(r % 3)
    if m < 12:
        return (-n - 2, -n - 1, -n, -n + 1, -1, 0, 1, n - 1, n, n + 1, n + 7, -3 * n - 5, n // 2, -(n // 2), (n + 1) // 2,
                1 << 40)[r & 15]
    if m < 14:
        return r & 3
    if m == 14:
        return -1 - (r & 3)
    return (r & 63) - 32


def bound(n, m, r):
    """A slice bound (None included)."""
    i = None if m % 16 >= 14 else index(n, m, r)
    return i if i != 1 << 40 else (i, 1 << 63, 1 << 64, -1 << 64)[r >> 4 & 3]


def step(r):
    return (None, 1, 1, 2, 3, -1, -1, -2, -3, 5, -7, 40, -40, 1 << 40, None, 2)[r & 15]


def sort_key(b):
    """(key function or None, reverse)."""
    return ((None, lambda v: repr(v), lambda v: 0, lambda v: len(repr(v)), lambda v: repr(v)[-1:],
             lambda v: hash(repr(v)) % 3)[(b >> 1) % 6], bool(b & 1))


class OneShot:
    """An iterator that can be consumed once and has no length."""
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


class ReIter:
    """A re-iterable with nothing but __iter__."""
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


class GetSeq:
    """Iterable only through the old protocol of __getitem__ with 0, 1, 2, ..."""
    def __init__(self, xs):
        self.xs = list(xs)

    def __getitem__(self, i):
        return self.xs[i]


def same(a, b):
    return a is b


def eqv(a, b):
    return a is b or a == b


def short(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'
