"""C20: the cost of conversions and single-element operations, counted, on a large collection and a small twin."""
import gc, sys, tracemalloc
from machines2 import *

_H = __file__.rsplit('/props/', 1)[0] + '/'


class E:
    """An element with a chosen hash that records every callback."""
    __slots__ = ('id', 'h')
    log = None

    def __init__(self, id, h):
        self.id, self.h = id, h

    def _note(self):
        if E.log is not None:
            E.log.append(self)

    def __hash__(self):
        self._note()
        return self.h

    def __eq__(self, other):
        self._note()
        if type(other) is E:
            if E.log is not None:
                E.log.append(other)
            return self.id == other.id
        return NotImplemented

    def __lt__(self, other):
        self._note()
        return self.id < other.id if type(other) is E else NotImplemented

    def __repr__(self):
        self._note()
        return f'E{self.id}h{self.h}'

    def __copy__(self):
        self._note()
        return self

    def __deepcopy__(self, memo):
        self._note()
        return self

    def __reduce__(self):
        self._note()
        return (E, (self.id, self.h))


def ehash(i, mode):
    """Spread hashes, dense ones, huge ones, and small groups of colliding ones."""
    return (i, i * 0x9E3779B1 % (2**61 - 1), i // 3, -i - 2, i << 20, i // 2 * 7919)[mode % 6]


POOL = {}


def elem(i, mode):
    e = POOL.get((i, mode))
    if e is None:
        e = POOL[i, mode] = E(i, ehash(i, mode))
    return e


class Lz:
    """The function of a lazy value: never to be called here."""
    __slots__ = ()

    def __call__(self):
        raise Violation('a single-element operation or conversion evaluated an uninvolved lazy value')


LZ = [lazy(Lz()) for _ in range(3)]


def build_big(fam, n, recipe, mode, lz):
    """A new persistent collection of about n elements along one of several routes."""
    P = fam if fam.persistent else FAM[fam.pers]
    es = [elem(i, mode) for i in range(n + n // 4)]
    wrap = (lambda i: LZ[i % 3] if i % 4 == 1 else es[i]) if lz and P.lazy else (lambda i: es[i])
    T = FAM[P.trans].cls
    if P.kind == 'seq':
        xs = [wrap(i) for i in range(n)]
        if recipe == 0:
            r = P.cls(xs)
        elif recipe == 1:
            r = P.cls([])
            for x in xs:
                r = r.append(x)
        elif recipe == 2:
            r = P.cls([])
            for x in xs:
                r = r.prepend(x)
        elif recipe == 3:
            t = T([])
            for j, x in enumerate(xs):
                t.append(x) if j & 1 else t.prepend(x)
            r = t.persistent()
        elif recipe == 4:
            t = T(xs)                        # used as a queue: the elements have moved along
            for j in range(n // 2):
                t.append(t.getlazy(0) if P.lazy else t[0])
                del t[0]
            r = t.persistent()
        else:
            t = T(xs)                        # used as a queue the other way round
            for j in range(n // 2):
                t.prepend(t.getlazy(-1) if P.lazy else t[-1])
                del t[-1]
            r = t.persistent()
    elif P.kind == 'set':
        xs = es[:n]
        if recipe in (0, 3):
            r = P.cls(xs)
        elif recipe in (1, 4):
            r = P.cls([])
            for x in xs:
                r = r.add(x)
        else:
            t = T(es)
            for x in es[n:] if recipe == 2 else es[:len(es) - n]:
                t.discard(x)
            r = t.persistent()
    else:
        xs = [(es[i], wrap(i)) for i in range(n)]
        if recipe in (0, 3):
            r = P.cls(xs)
        elif recipe in (1, 4):
            r = P.cls([])
            for x, v in xs:
                r = r.set(x, v)
        else:
            t = T([(es[i], wrap(i)) for i in range(len(es))])
            for x in es[n:] if recipe == 2 else es[:len(es) - n]:
                del t[x]
            r = t.persistent()
    return r


def measure_lines(fn):
    """(outcome, lines executed outside the harness)"""
    lines = [0]

    def local(frame, event, arg):
        if event == 'line':
            lines[0] += 1
        return local

    def tracer(frame, event, arg):
        return None if frame.f_code.co_filename.startswith(_H) else local
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = attempt(fn)
    finally:
        sys.settrace(old)
    return r, lines[0]


def measure_memory(fn):
    """(outcome, peak of newly allocated bytes, elements called back)"""
    E.log = log = []
    gc.disable()
    tracemalloc.start()
    try:
        r = attempt(fn)
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
        gc.enable()
        E.log = None
    return r, peak, log


def both(fn, o1, o2):
    """The same operation on two independent copies: one is measured for memory, the other for lines."""
    r1, peak, log = measure_memory(lambda: fn(o1))
    r2, lines = measure_lines(lambda: fn(o2))
    if r1[0] != r2[0]:
        fail(f'the same operation on two copies: {r1[1]!r} and {r2[1]!r}')
    return r1, r2, lines, peak, log


# name -> (function(object, argument) -> result, what becomes of the current object)
#   'same': it goes on (transients: maybe changed); 'result': the result is the new current object;
#   'second': the second item of the result is.
GET = lambda o, x: o[x]
SEQ_P = dict(append=(lambda o, x: o.append(x), 'result', 'new'), prepend=(lambda o, x: o.prepend(x), 'result', 'new'),
             set=(lambda o, x: o.set(x[0], x[1]), 'result', 'put'), get=(GET, 'same', 'index'),
             delete_first=(lambda o, x: o.delete(0), 'result', None), delete_last=(lambda o, x: o.delete(-1), 'result', None),
             delete_end=(lambda o, x: o.delete(), 'result', None),
             drop_first=(lambda o, x: o.drop(0), 'result', None), drop_last=(lambda o, x: o.drop(len(o) - 1), 'result', None),
             drop_out=(lambda o, x: o.drop(1 << 40), 'result', None),
             pop_first=(lambda o, x: o.pop(0), 'second', None), pop_last=(lambda o, x: o.pop(), 'second', None),
             set_out=(lambda o, x: o.set(1 << 40, 1), 'same', None), len=(lambda o, x: len(o), 'same', None),
             bool=(lambda o, x: bool(o), 'same', None), copy=(lambda o, x: o.copy(), 'same', None),
             clear=(lambda o, x: o.clear(), 'same', None))
SEQ_T = dict(append=(lambda o, x: o.append(x), 'same', 'new'), prepend=(lambda o, x: o.prepend(x), 'same', 'new'),
             set=(lambda o, x: o.__setitem__(x[0], x[1]), 'same', 'put'), get=(GET, 'same', 'index'),
             del_first=(lambda o, x: o.__delitem__(0), 'same', None), del_last=(lambda o, x: o.__delitem__(-1), 'same', None),
             pop_first=(lambda o, x: o.pop(0), 'same', None), pop_last=(lambda o, x: o.pop(), 'same', None),
             set_out=(lambda o, x: o.__setitem__(1 << 40, 1), 'same', None), len=(lambda o, x: len(o), 'same', None),
             bool=(lambda o, x: bool(o), 'same', None))
SET_P = dict(add=(lambda o, x: o.add(x), 'result', 'new'), readd=(lambda o, x: o.add(x), 'result', 'member'),
             discard=(lambda o, x: o.discard(x), 'result', 'member'), discard_absent=(lambda o, x: o.discard(x), 'result', 'new'),
             remove=(lambda o, x: o.remove(x), 'result', 'member'), has=(lambda o, x: x in o, 'same', 'member'),
             hasnt=(lambda o, x: x in o, 'same', 'new'), pop=(lambda o, x: o.pop(), 'second', None),
             len=(lambda o, x: len(o), 'same', None), bool=(lambda o, x: bool(o), 'same', None),
             copy=(lambda o, x: o.copy(), 'same', None), clear=(lambda o, x: o.clear(), 'same', None))
SET_T = dict(add=(lambda o, x: o.add(x), 'same', 'new'), readd=(lambda o, x: o.add(x), 'same', 'member'),
             discard=(lambda o, x: o.discard(x), 'same', 'member'), discard_absent=(lambda o, x: o.discard(x), 'same', 'new'),
             remove=(lambda o, x: o.remove(x), 'same', 'member'), has=(lambda o, x: x in o, 'same', 'member'),
             hasnt=(lambda o, x: x in o, 'same', 'new'), pop=(lambda o, x: o.pop(), 'same', None),
             len=(lambda o, x: len(o), 'same', None), bool=(lambda o, x: bool(o), 'same', None))
MAP_P = dict(set=(lambda o, x: o.set(x, 1), 'result', 'new'), reset=(lambda o, x: o.set(x, 2), 'result', 'member'),
             drop=(lambda o, x: o.drop(x), 'result', 'member'), drop_absent=(lambda o, x: o.drop(x), 'result', 'new'),
             delete=(lambda o, x: o.delete(x), 'result', 'member'), get=(lambda o, x: o.get(x), 'same', 'plain'),
             getitem=(GET, 'same', 'plain'), missing=(GET, 'same', 'new'), has=(lambda o, x: x in o, 'same', 'member'),
             hasnt=(lambda o, x: x in o, 'same', 'new'), pop=(lambda o, x: o.pop(x), 'second', 'plain'),
             setdefault=(lambda o, x: o.setdefault(x, 3), 'result', 'new'),
             setdefault_old=(lambda o, x: o.setdefault(x, 3), 'result', 'member'),
             len=(lambda o, x: len(o), 'same', None), bool=(lambda o, x: bool(o), 'same', None),
             copy=(lambda o, x: o.copy(), 'same', None), clear=(lambda o, x: o.clear(), 'same', None))
MAP_T = dict(set=(lambda o, x: o.__setitem__(x, 1), 'same', 'new'), reset=(lambda o, x: o.__setitem__(x, 2), 'same', 'member'),
             delete=(lambda o, x: o.__delitem__(x), 'same', 'member'), get=(lambda o, x: o.get(x), 'same', 'plain'),
             getitem=(GET, 'same', 'plain'), missing=(GET, 'same', 'new'), has=(lambda o, x: x in o, 'same', 'member'),
             hasnt=(lambda o, x: x in o, 'same', 'new'), pop=(lambda o, x: o.pop(x), 'same', 'plain'),
             setdefault=(lambda o, x: o.setdefault(x, 3), 'same', 'new'),
             setdefault_old=(lambda o, x: o.setdefault(x, 3), 'same', 'plain'),
             len=(lambda o, x: len(o), 'same', None), bool=(lambda o, x: bool(o), 'same', None))
PITEM = dict(popitem=(lambda o, x: o.popitem(), 'second', None))
TITEM = dict(popitem=(lambda o, x: o.popitem(), 'same', None))
LSEQ = dict(is_lazy=(lambda o, x: o.is_lazy(x), 'same', 'index'), getlazy=(lambda o, x: o.getlazy(x), 'same', 'index'),
            is_ready=(lambda o, x: o.is_ready(x), 'same', 'index'))
LMAP = dict(is_lazy=(lambda o, x: o.is_lazy(x), 'same', 'member'), getlazy=(lambda o, x: o.getlazy(x), 'same', 'member'),
            is_ready=(lambda o, x: o.is_ready(x), 'same', 'member'))
# Conversions (weighted up): P -> T and back.
CONV_P = dict(transient=(lambda o, x: o.transient(), 'other', None), construct=(lambda o, x: TCLS[type(o)](o), 'other', None))
CONV_T = dict(persistent=(lambda o, x: o.persistent(), 'other', None), copy=(lambda o, x: o.copy(), 'copy', None))
TCLS = {f.cls: FAM[f.trans].cls for f in FAM.values() if f.trans and f.name in
        ('plist', 'llist', 'pset', 'pdict', 'ldict')}


def ops_for(fam):
    o = {('seq', True): SEQ_P, ('seq', False): SEQ_T, ('set', True): SET_P, ('set', False): SET_T, ('map', True): MAP_P,
         ('map', False): MAP_T}[fam.kind, fam.persistent]
    o = dict(o)
    if fam.kind == 'map':
        o.update((PITEM if fam.persistent else TITEM) if not fam.lazy else {})
    if fam.lazy:
        o.update(LSEQ if fam.kind == 'seq' else LMAP)
        if fam.kind == 'seq':                # (reading an element evaluates it: only plain positions are read, see get)
            for n in ('pop_first', 'pop_last') + (() if fam.persistent else ('is_ready', 'is_lazy')):
                o.pop(n)
    o.update(CONV_P if fam.persistent else CONV_T)
    return o


OPSF = {f: ops_for(FAM[f]) for f in ('plist', 'tlist', 'llist', 'tllist', 'pset', 'tset', 'pdict', 'tdict', 'ldict', 'tldict')}
CONVS = {'transient', 'construct', 'persistent', 'copy'}


class Twin:
    """One collection of a pair of different sizes; kept in two copies, see both()."""
    def __init__(self, fam, n, recipe, mode, lz):
        p, q = build_big(fam, n, recipe, mode, lz), build_big(fam, n, recipe, mode, lz)
        self.mode, self.recipe, self.n0, self.fam = mode, recipe, n, fam
        self.cur, self.cur2 = (p, q) if fam.persistent else (p.transient(), q.transient())
        self.next = 1 << 24                    # ids of new elements
        self.gone = set()
        self.lz = lz and fam.lazy
        self.keep = []
        # the ids that the recipe leaves in a set or dict
        self.ids = range(n // 4, n + n // 4) if fam.kind != 'seq' and recipe == 5 else range(n)

    def new(self):
        self.next += 1
        return self.next

    def live(self, r, plain):
        """A member that is certainly there, for sets and dicts."""
        n = len(self.ids)
        for j in range(64):
            i = self.ids[(r * n // 65536 + j * 61) % n]
            if i not in self.gone and not (plain and self.lz and i % 4 == 1):
                return elem(i, self.mode)
        return None


def argument(t, kind, a):
    """(argument, elements that may be called back)"""
    n = len(t.cur)
    if kind is None:
        return None, []
    if kind == 'new':
        i = t.new()                            # sometimes a new element that collides with others
        e = E(i, ehash((a[0] * 131 + a[1]) % t.n0, t.mode) if a[2] & 1 else ehash(i, 1))
        return e, [e]
    if kind in ('index', 'put'):
        r = a[0] * 256 + a[1]
        i = (0, n - 1, -1, -n, n // 2, r % n if n else 0, -1 - r % n if n else 0, n // 32 * 32 % n if n else 0)[a[2] & 7]
        return ((i, E(t.new(), 1)) if kind == 'put' else i), []
    e = t.live(a[0] * 256 + a[1], kind == 'plain')
    return e, [e]


def one(t, name, a, forget):
    """Applies an operation; returns [(what, lines, bytes)] or None if it does not apply."""
    fn, then, kind = OPSF[t.fam.name][name]
    x, involved = argument(t, kind, a)
    if kind in ('member', 'plain') and x is None:
        return None
    if t.lz and name in ('get', 'getitem', 'pop') and kind and isinstance(t.cur.getlazy(x), lazy):
        return None                            # (reading a lazy element evaluates it)
    n = len(t.cur)
    r, r2, lines, peak, log = both(lambda o: fn(o, x), t.cur, t.cur2)
    what = f'{t.fam.name} of {n} elements: {name}'
    if r[0] == 'err':
        if not isinstance(r[1], (IndexError, KeyError)):
            fail(f'{what} raised {r[1]!r}')
        v = v2 = None
    else:
        v, v2 = r[1], r2[1]
    if kind is None and t.fam.kind != 'seq' and name in ('pop', 'popitem') and r[0] == 'ok':
        # the element removed is involved
        for w in (v, v2):
            e = w[0] if then == 'second' else w
            e = e[0] if name == 'popitem' else e
            if type(e) is E:
                involved.append(e)
                t.gone.add(e.id)
    if t.fam.kind == 'seq' and log:
        fail(f'{what}: called back elements {[e.id for e in log[:5]]} ({len(log)} calls)')
    hs = {e.h for e in involved}
    foreign = [e for e in log if e.h not in hs]
    if foreign:
        fail(f'{what}: hashed, compared or copied uninvolved elements {[e.id for e in foreign[:5]]} ({len(foreign)} calls)')
    if len(log) > 120:
        fail(f'{what}: {len(log)} element callbacks')
    out = [(what, lines, peak)]
    if r[0] == 'err':
        return out
    if kind in ('member', 'plain') and name in ('discard', 'remove', 'drop', 'delete', 'pop'):
        t.gone.add(x.id)
    if then == 'result':
        t.cur, t.cur2 = v, v2
    elif then == 'second':
        t.cur, t.cur2 = v[1], v2[1]
    elif then == 'copy' and forget:
        t.keep = [t.cur, t.cur2]
        t.cur, t.cur2 = v, v2
    elif then == 'other':
        t.keep = t.keep[-4:] + [v, v2]
        if t.fam.persistent and forget:
            # go on with the persistent value of the transient, after a small change
            e = E(t.new(), 5)
            for w in (v, v2):
                w.append(e) if t.fam.kind == 'seq' else w.add(e) if t.fam.kind == 'set' else w.__setitem__(e, 1)
        if forget:
            back = (lambda o: o.persistent()) if t.fam.persistent else (lambda o: o.transient())
            q, q2, l2, p2, g2 = both(back, v, v2)
            if q[0] == 'err':
                fail(f'{what}, then back: {q[1]!r}')
            t.cur, t.cur2 = q[1], q2[1]
            if g2:
                fail(f'{what}, then back: called back {len(g2)} times')
            out.append((what + (', change, persistent' if t.fam.persistent else ', transient'), l2, p2))
    return out


def wear(fam, n, rounds, recipe, mode, fresh):
    """About n elements: after many rounds of adding and removing others (or, fresh, without them)."""
    P = fam if fam.persistent else FAM[fam.pers]
    T = FAM[P.trans].cls
    es = [elem(i, mode) for i in range(n)]
    # new elements: all with the same hash, with hashes of elements that stay, or all different
    new = lambda j: E(1 << 30 | j, (ehash(3, mode), ehash(j % n, mode), ehash((1 << 20) + j, 1))[recipe % 3])
    trans = recipe & 4
    if P.kind == 'seq':
        r = P.cls(es)
        if fresh:
            return r
        o = r.transient() if trans else r
        for j in range(rounds):
            if trans:
                if recipe & 8:
                    o.append(es[j % n]); del o[0]
                else:
                    o.prepend(es[-1 - j % n]); del o[-1]
            else:
                o = o.append(es[j % n]).delete(0) if recipe & 8 else o.prepend(es[-1 - j % n]).delete()
    else:
        dct = P.kind == 'map'
        r = P.cls([(e, e.id) for e in es]) if dct else P.cls(es)
        if fresh:
            return r
        o = r.transient() if trans else r
        batch = 1 + (recipe >> 3) % 4          # how many are there at a time
        for j in range(0, rounds, batch):
            xs = [new(j + i) for i in range(batch)]
            for e in xs:
                if trans:
                    o.__setitem__(e, 1) if dct else o.add(e)
                else:
                    o = o.set(e, 1) if dct else o.add(e)
            for e in (xs if recipe & 32 else xs[::-1]):
                if trans:
                    o.__delitem__(e) if dct else o.discard(e)
                else:
                    o = o.drop(e) if dct else o.discard(e)
        if recipe & 64:                        # an element that stays has been replaced many times, too
            for j in range(rounds // 4):
                e = es[j % 3 % n]
                if trans:
                    o.__delitem__(e) if dct else o.discard(e)
                    o.__setitem__(e, e.id) if dct else o.add(e)
                else:
                    o = o.drop(e).set(e, e.id) if dct else o.discard(e).add(e)
    return o.persistent() if trans else o


def worn(case, rec):
    h = case['head']
    fam = FAM[ALL10[h[4] % 10]]
    n, rounds = 8 + h[0] % 60, 600 + 12 * (h[1] % 100)
    pair = []
    for fresh in (False, True):
        t = Twin.__new__(Twin)
        p, q = (wear(fam, n, rounds, h[2], h[3] % 6, fresh) for _ in range(2))
        t.mode, t.recipe, t.n0, t.fam, t.next, t.gone, t.lz, t.keep = h[3] % 6, 0, n, fam, 1 << 24, set(), False, []
        t.cur, t.cur2 = (p, q) if fam.persistent else (p.transient(), q.transient())
        t.ids = range(n)
        pair.append(t)
    old, new = pair
    rec.label(f'{fam.name} worn')
    done = 0
    for op in case['ops'][:40]:
        ops = sorted(OPSF[fam.name])
        name = ops[op[1] % len(ops)]
        if name in ('pop', 'popitem') and fam.kind != 'seq' and OPSF[fam.name][name][2] is None:
            continue                           # (may take different elements)
        a = op[2:]
        ro, rn = one(old, name, a[1:], a[0] & 1), one(new, name, a[1:], a[0] & 1)
        if ro is None or rn is None:
            continue
        for (wo, lo, mo), (wn, ln, mn) in zip(ro, rn):
            if lo > 2 * ln + 60:
                fail(f'{wo} executed {lo} lines after {rounds} earlier edits; {ln} without them')
            if mo > 2 * mn + 4000:
                fail(f'{wo} allocated {mo} bytes after {rounds} earlier edits; {mn} without them')
        if len(old.cur) != len(new.cur):
            fail(f'{wo}: {len(old.cur)} elements after {rounds} earlier edits; {len(new.cur)} without them')
        done += 1
        rec.label(f'worn {name}')
    if done >= 2:
        rec.nontrivial()


def run_worn(case, rec):
    try:
        worn(case, rec)
    except Violation:
        worn(case, rec)                        # (see mk)


ALL10 = ('plist', 'tlist', 'llist', 'tllist', 'pset', 'tset', 'pdict', 'tdict', 'ldict', 'tldict')
BIG = (2000, 2000, 3000, 4000, 1500, 6000, 2048, 3500)
RATIO = 16


def compare(fam, case, rec):
    h = case['head']
    n = BIG[h[0] & 7] * (8 if h[0] >= 252 else 1)
    recipe, mode, lz = h[1] % 6, h[2] % 6, bool(h[3] & 1)
    big = Twin(fam, n, recipe, mode, lz)
    small = Twin(fam, n // RATIO, recipe, mode, lz)
    rec.label('32 times 1500 or more' if h[0] >= 252 else f'about {n // 1000}000')
    done = 0
    for op in case['ops'][:40]:
        a = op[1:]
        rb = one(big, op[0], a[1:], a[0] & 1)
        rs = one(small, op[0], a[1:], a[0] & 1)
        if rb is None or rs is None:
            continue
        for (wb, lb, mb), (ws, ls, ms) in zip(rb, rs):
            if lb > 2 * ls + 60:
                fail(f'{wb} executed {lb} lines; {ls} with {len(small.cur)} elements')
            if mb > 2 * ms + 4000:
                fail(f'{wb} allocated {mb} bytes; {ms} with {len(small.cur)} elements')
        done += 1
        rec.label(op[0])
        if len(small.cur) < 20:
            break
    if done >= 2:
        rec.nontrivial()


def mk(fam):
    def run(case, rec):
        try:
            compare(fam, case, rec)
        except Violation:
            # Caches of the interpreter (isinstance, code objects) are filled once; new collections
            # are built, so a cost of the library is incurred again.
            compare(fam, case, rec)
    return run


def weights(fam):
    return {n: (None, 6 if n in CONVS else 2) for n in OPSF[fam.name]}


PROP = core.Prop('C20', [core.Part(f, (lambda d, t=table(weights(FAM[f])): program(d, t)), mk(FAM[f]), quick=q,
                                   sizes=((3, 8), (6, 26), (20, 41)), fuzz=False)
                         for f, q in (('plist', 60), ('tlist', 60), ('llist', 40), ('tllist', 40), ('pset', 60), ('tset', 60),
                                      ('pdict', 60), ('tdict', 60), ('ldict', 40), ('tldict', 40))]
                 + [core.Part('worn', (lambda d, t=table({'op': (None, 1)}): program(d, t)), run_worn, quick=150,
                              sizes=((3, 8), (6, 26), (20, 41)), fuzz=False)],
                 rule='A case is a pair of collections of one type built by one of six routes, the second sixteen times smaller '
                      '(large: 1500 to 48000 elements), and a program of conversions and single-element operations applied to '
                      'both; after each one the lines executed, the peak of newly allocated bytes and the element callbacks of '
                      'the large one are compared with those of the small one, and callbacks of elements that are neither the '
                      'argument nor share its hash are refused; or a pair of equal '
                      'collections of 8 to 67 elements, one of which has lived through 600 to 1800 additions and removals of '
                      'others: a single operation must not cost more on it; non-trivial: two measured operations.',
                 assumptions=['work in C is seen through the memory it allocates and the elements it calls back, not by time',
                              'in on lists, and inserting or deleting in the middle of a list, are linear by design'])
