"""C25: what a collection no longer contains is released."""
import gc, weakref
from machines2 import *
from views import *
import hugemore
from pcollections import unlazy
from props.c09 import o_link, o_held, FAMS

TABS = {k: table(t) for k, t in EDITS.items()}
READS = {'seq': list(SEQREAD.values()), 'map': list(VIEWS.values()), 'set': []}
GROUPS = (3, 9, 3, 3, -2, 9, 3, 0)
frozen = False


class Tok:
    """An element or key: weakly referable, with a chosen hash; equal by id."""
    __slots__ = ('id', 'h', '__weakref__')

    def __init__(self, id, h):
        self.id, self.h = id, h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.id == o.id if type(o) is Tok else NotImplemented

    def __lt__(self, o):
        return self.id < o.id if type(o) is Tok else NotImplemented

    def __gt__(self, o):
        return self.id > o.id if type(o) is Tok else NotImplemented

    def __le__(self, o):
        return self.id <= o.id if type(o) is Tok else NotImplemented

    def __ge__(self, o):
        return self.id >= o.id if type(o) is Tok else NotImplemented

    def __repr__(self):
        return f'T{self.id}'


class Ctx25(Ctx):
    """Its values are Toks; one object per id, as long as that is alive (kept here weakly only)."""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.views = []
        self.toks = weakref.WeakValueDictionary()

    def tok(self, i):
        t = self.toks.get(i)
        if t is None:
            t = self.toks[i] = Tok(i, GROUPS[i % 8] if self.u & 1 else i)
        return t

    def v(self, b):
        return self.tok(b % 48)

    hv = v

    def dv(self, b):
        return self.tok(100 + b % 32)

    def vals(self, b, n, k=1):
        st = (1, 1, 3, 7, 0, 5, 11, 2)[k & 7]
        return [self.tok((b + i * st) % 256) for i in range(n)]

    def hvals(self, b, n, k=1):
        st = (1, 1, 3, 7, 5, 8, 24, 2)[k & 7]
        return [self.tok((b + i * st) % 48) for i in range(n)]


def members(c):
    out = set()
    for s in c.pool:
        if s.fam.kind == 'map':
            for k, v in s.model.items():
                out.add(id(k))
                out.add(id(unlazy(v)))
        else:
            out.update(id(unlazy(x)) for x in s.model)
    return out


def check_released(c, what):
    drop_views(c)                       # (those of dicts that have been forgotten)
    c.thunks.clear()
    c.args.clear()
    getattr(c, 'keep', []).clear()
    gc.collect()
    want = members(c)
    extra = [t for t in list(c.toks.values()) if id(t) not in want]
    if extra:
        gc.collect()
        n = len(extra)
        extra = repr(sorted(extra, key=lambda t: t.id)[:12])
        fail(f'{what}: {n} elements that no live collection contains are still alive: {extra}; pool: '
             + ', '.join(f'{s.fam.name} of {len(s.model)}' for s in c.pool))


def o_edit(c, s, a):
    k = (s.fam.kind, s.fam.persistent)
    EDITS[k][TABS[k][a[0] % 255]][0](c, s, a[1:] + (a[0],))


def o_new(c, s, a):
    f = FAMS[a[0] % len(FAMS)]
    NEW[f.kind](c, f, (a[1] % 160, a[2] & 254 if a[2] & 8 else a[2]) + a[3:] + (a[0],))


def o_forget(c, s, a):
    """A collection of the pool is forgotten."""
    if len(c.pool) > 1:
        del c.pool[a[0] % len(c.pool)]
        c.cur = a[1] % len(c.pool)
        c.rec.label('collection forgotten')


def o_use(c, s, a):
    """Everything that only looks at a collection."""
    r = s.real
    for f in (hash, repr, str, list, len, bool):
        attempt(f, r)
    other = c.pool[a[1] % len(c.pool)].real
    for f in (lambda: r == other, lambda: r < other, lambda: r <= other, lambda: other in r, lambda: c.v(a[2]) in r):
        attempt(f)
    rd = READS[s.fam.kind]
    if rd:
        rd[a[0] % len(rd)][0](c, s, a[1:] + (a[0],))
    if s.fam.kind == 'map':
        (list(r.items()), list(r.values()), list(r.keys()))
    c.rec.label('looked at')


def o_iter(c, s, a):
    """Iterators that are given up halfway."""
    r = s.real
    its = [iter(r)]
    if s.fam.kind != 'set':
        its.append(reversed(r))
    if s.fam.kind == 'map':
        its += [iter(r.items()), iter(r.values()), reversed(r.values())]
    for it in its:
        for _ in range(a[0] % 4):
            next(it, None)


def o_view(c, s, a):
    """A view of a dict that is kept: it contains what the dict contains now."""
    if s.fam.kind != 'map':
        return
    v = (s.real.keys, s.real.items, s.real.values)[a[0] % 3]()
    f = (len, list, repr, lambda v: next(iter(v), None), lambda v: c.v(a[2]) in v, lambda v: v == v, bool, lambda v: list(reversed(v)))[a[1] & 7]
    attempt(f, v)
    c.views.append((s, v))
    c.rec.label('kept view')


def drop_views(c):
    live = {id(s) for s in c.pool}
    c.views = [x for x in c.views if id(x[0]) in live][-40:]


def o_collide(c, s, a):
    """Failing operations (their exceptions are dropped)."""
    r = s.real
    z = c.tok(300 + a[0] % 4)
    for nm, args in (('pop', (z,)), ('remove', (z,)), ('index', (z,)), ('discard', (z,)), ('drop', (z,)), ('get', (z,)), ('__getitem__', (z,))):
        if hasattr(r, nm) and not (s.fam.kind == 'seq' and nm in ('pop', 'drop', '__getitem__')):
            attempt(getattr(r, nm), *args)


def o_check(c, s, a):
    check_released(c, 'in between')


OPS = dict(edit=(o_edit, 110), forget=(o_forget, 30), link=(o_link, 24), new=(o_new, 8), held=(o_held, 6), use=(o_use, 20), iter=(o_iter, 8), view=(o_view, 12),
           fails=(o_collide, 8), goto=(goto, 20), check=(o_check, 12))
TAB = table(OPS)


def body(case, rec, c):
    h = case['head']
    f = FAMS[h[7] % len(FAMS)]
    NEW[f.kind](c, f, (h[1] % 160,) + h[2:])
    for op in case['ops']:
        OPS[op[0]][0](c, c.slot(), op[1:])
    c.final()


def run(case, rec):
    global frozen
    if not frozen:
        gc.collect()
        gc.freeze()
        frozen = True
    c = Ctx25(case['head'][0], rec, maxpool=10)
    body(case, rec, c)
    what = 'at the end'
    seen = len(c.toks)
    check_released(c, what)
    while c.pool:
        del c.pool[len(c.pool) // 2]
        if len(c.pool) in (0, 2, 5):
            check_released(c, f'with {len(c.pool)} collections left')
    if c.edits >= 3 and len(case['ops']) >= 4 and seen > 2:
        rec.nontrivial()


PROP = core.Prop('C25', [core.Part('release', lambda d: program(d, TAB), run, quick=900, sizes=((2, 10), (8, 24), (20, 50))),
                         hugemore.huge_part('release', hugemore.release_case, 25)],
                 rule='A case is a pool of linked collections of weakly referable elements and a program of edits, reads, kept '
                      'views, abandoned iterators, failing operations and forgotten collections; at checkpoints, and while the pool is given up one '
                      'by one, the elements alive after a garbage collection are those of the models; non-trivial: three edits '
                      'and three elements.  huge release: one edit of a collection of up to 5,000 elements.',
                 assumptions=['released: at the latest by the next full garbage collection'])
