"""C22: iterators over changing transient dicts, and independent iterators over everything else."""
from machines2 import *
from views import kv_eq
import hugemore

KINDS = ('iter', 'keys', 'items', 'values', 'rkeys', 'ritems', 'rvalues', 'riter')


class It:
    """An iterator under way, and what is left of it according to the model."""
    __slots__ = ('slot', 'kind', 'it', 'started', 'done', 'version', 'left', 'seen', 'set', 'what')

    def __init__(self, s, kind, view=None):
        self.slot, self.kind = s, kind
        src = view if view is not None else source(s, kind)
        self.it = reversed(src) if kind[0] == 'r' else iter(src)
        self.started = self.done = False
        self.version = s.note[0] if s.note else 0
        self.left = None
        self.seen = 0
        self.set = None
        self.what = f'{s.fam.name} {"reversed " if kind[0] == "r" else ""}{kind.lstrip("r") if kind[0] == "r" else kind}'


def source(s, kind):
    k = kind[1:] if kind[0] == 'r' else kind
    return s.real if k == 'iter' else getattr(s.real, k)()


def step(it):
    try:
        return 'item', next(it)
    except StopIteration:
        return 'stop', None
    except RuntimeError as e:
        return 'changed', e


# ------------------------------------------------------------------ part 1: changing transient dicts

def start(c, t):
    """What iteration has to give from here on."""
    ks = list(t.slot.model)
    t.left = ks[::-1] if t.kind[0] == 'r' else ks
    t.version = t.slot.note[0]
    t.started = True


def want_item(t, k):
    kind = t.kind[1:] if t.kind[0] == 'r' else t.kind
    if kind in ('iter', 'keys'):
        return k, D.eqv
    v = t.slot.model[k]
    return ((k, v), kv_eq) if kind == 'items' else (v, D.same)


def advance(c, t):
    s = t.slot
    got, x = step(t.it)
    what = f'next of {t.what} of {D.short(s.model)}, step {t.seen}'
    if t.done:
        # (after the end or an error: nothing more comes; dict repeats its error, a generator ends)
        if got == 'item':
            fail(f'{what}: yielded {D.short(x)} after the end')
        return False
    if not t.started:
        if t.version != s.note[0]:
            # Created, never advanced, and the dict changed: an error, or a fresh start.
            if got == 'changed':
                t.done = True
                return True
        start(c, t)
    if t.version != s.note[0]:
        c.rec.nontrivial('change detected' + (' after the last item' if not t.left else ''))
        if got != 'changed':
            fail(f'{what}: {"ended" if got == "stop" else "yielded " + D.short(x)} although keys were added or removed since '
                 f'it started; expected RuntimeError')
        t.done = True
        return True
    if got == 'changed':
        fail(f'{what}: raised {x!r} although no key was added or removed since it started')
    if not t.left:
        if got != 'stop':
            fail(f'{what}: yielded {D.short(x)} beyond the end')
        t.done = True
        return True
    if got == 'stop':
        fail(f'{what}: ended before {D.short(t.left)}')
    w, eq = want_item(t, t.left.pop(0))
    if not eq(x, w):
        fail(f'{what}: yielded {D.short(x)}, expected {D.short(w)}')
    t.seen += 1
    return True


def i_new(c, s, a):
    c.its.append(It(s, KINDS[a[0] & 7]))
    if a[1] & 3:
        for _ in range(1 + (a[2] % 5 if a[1] & 4 else 0)):
            advance(c, c.its[-1])


def i_view(c, s, a):
    """An iterator over a view made earlier (views stay usable after changes)."""
    if not c.views or a[1] & 3 == 0:
        kind = ('keys', 'items', 'values')[a[0] % 3]
        c.views.append((s, kind, getattr(s.real, kind)()))
        if len(c.views) > 6:
            c.views.pop(0)
    s, kind, v = c.views[a[2] % len(c.views)]
    c.its.append(It(s, ('r' if a[3] & 3 == 0 else '') + kind, v))
    advance(c, c.its[-1])


def i_step(c, s, a):
    live = [t for t in c.its if not t.done] or c.its
    if live:
        t = live[a[0] % len(live)]
        for _ in range(1 + (a[1] & 3 == 0) * (a[2] % 9)):
            advance(c, t)


def i_drain(c, s, a):
    live = [t for t in c.its if not t.done]
    if live:
        t = live[a[0] % len(live)]
        while not t.done:
            advance(c, t)


def i_last(c, s, a):
    """Steps an iterator until its last item has been yielded, but not further."""
    live = [t for t in c.its if not t.done and t.version == t.slot.note[0]]
    if live:
        t = live[a[0] % len(live)]
        if not t.started:
            advance(c, t)
        while t.left and not t.done:
            advance(c, t)


def i_replace(c, s, a):
    """Replaces values of existing keys: every iteration goes on."""
    m = s.model
    ks = list(m)
    for j in range(min(len(ks), 1 + (a[0] & 3))):
        k = ks[(a[1] + j * 5) % len(ks)]
        v = c.dv(a[2] + j)
        x = c.wrap(s.fam, v, a[3])
        if a[4] & 1:
            s.real.update({k: x})
        else:
            s.real[k] = x
        m[k] = v
        if any(t.slot is s and t.started and not t.done for t in c.its):
            c.rec.nontrivial('value replaced under an iteration')
    c.edits += 1
    check_slot(s, 'after replacing values')


def i_missing(c, s, a):
    """Operations that fail or change nothing: every iteration goes on."""
    k = c.hv(a[0])
    if k in s.model:
        s.real.setdefault(k, c.dv(a[1]))
    else:
        for f in (lambda: s.real.__delitem__(k), lambda: s.real.pop(k), lambda: s.real[k]):
            g = attempt(f)
            if g[0] == 'ok' or not isinstance(g[1], KeyError):
                fail(f'missing key {D.short(k)}: {g[1]!r}, expected KeyError')
        s.real.pop(k, None)
        s.real.get(k)
    p = s.real.persistent()
    s.real.copy()
    len(s.real), s.real == p


def i_clear(c, s, a):
    if not s.model:                           # nothing is removed: whether this counts as a change is not claimed
        for t in c.its:
            if t.slot is s:
                t.done = True
        c.its = [t for t in c.its if t.slot is not s]
    d_clear(c, s, a)


def i_wear(c, s, a):
    wear(c, s, a)
    s.note[0] += 1


def i_alien(c, s, a):
    if alien(c, s, a):
        s.note[0] += 1                        # a key was added and removed again


CH = {**TDICT, 'alien': (i_alien, 4), 'wear': (i_wear, 4), 'inew': (i_new, 50), 'iview': (i_view, 18), 'istep': (i_step, 90), 'idrain': (i_drain, 12),
      'ilast': (i_last, 16), 'ireplace': (i_replace, 26), 'imissing': (i_missing, 8), 'clear': (i_clear, 8),
      'run': (d_run, 4), 'goto': (goto, 6), 'reads': (d_reads, 2), 'lookup': (d_lookup, 4)}


def run_changing(fam):
    def run(case, rec):
        h = case['head']
        c = Ctx(h[0], rec, maxpool=6)
        c.its, c.views = [], []
        a = bytearray(h[1:])
        if a[1] & 1 and not a[2] & 8:
            a[1] &= 254                       # mostly small dicts, so that iterations end
        dnew(c, fam, tuple(a))
        watch(c)
        for op in case['ops']:
            CH[op[0]][0](c, c.slot(), op[1:])
            watch(c)
            if len(c.its) > 12:
                c.its = [t for t in c.its if not t.done][-10:] or c.its[-4:]
        c.final()
        for t in c.its:                       # every iteration under way gets to its end or its error
            k = 0
            while not t.done:
                advance(c, t)
                k += 1
                if k > 4000:
                    fail(f'{t.what}: does not end')
            advance(c, t)
    return run


def watch(c):
    """Bumps the version of every dict whose keys changed in the last step."""
    for s in c.pool:
        if s.note is None:
            s.note = [0, list(s.model)]
            continue
        old, n = s.note[1], s.model
        if len(old) != len(n) or not all(x is y or x == y for x, y in zip(old, n)):
            s.note = [s.note[0] + 1, list(n)]


# ------------------------------------------------------------------ part 2: everything that does not change

def keep_new(c, s, a):
    """An iterator over a slot: what it has to give is fixed now."""
    kinds = {'seq': ('iter', 'riter'), 'set': ('iter',), 'map': KINDS}[s.fam.kind]
    t = It(s, kinds[a[0] % len(kinds)])
    m = s.model
    if s.fam.kind == 'map':
        k = t.kind[1:] if t.kind[0] == 'r' else t.kind
        t.left = list(m if k in ('iter', 'keys') else m.items() if k == 'items' else m.values())
    elif s.fam.kind == 'seq':
        t.left = list(m)
    else:
        t.left = list(m)
        t.set = True
    if t.kind[0] == 'r':
        t.left.reverse()
    c.its.append(t)
    if len([t for t in c.its if not t.done and t.seen]) >= 2:
        c.rec.nontrivial('interleaved iterators')


def keep_step(c, t):
    got, x = step(t.it)
    what = f'next of {t.what}, step {t.seen}'
    if got == 'changed':
        fail(f'{what}: raised {x!r}')
    if t.done:
        if got == 'item':
            fail(f'{what}: yielded {D.short(x)} after the end')
        return
    if not t.left:
        if got == 'item':
            fail(f'{what}: yielded {D.short(x)} beyond the end')
        t.done = True
        return
    if got == 'stop':
        fail(f'{what}: ended before {D.short(t.left)}')
    t.seen += 1
    if t.set:
        for i, y in enumerate(t.left):
            if x is y or x == y:
                del t.left[i]
                return
        fail(f'{what}: yielded {D.short(x)}, which is not one of the remaining {D.short(t.left)}')
    w = t.left.pop(0)
    k = t.kind[1:] if t.kind[0] == 'r' else t.kind
    eq = D.same if t.slot.fam.kind == 'seq' or k == 'values' else kv_eq if k == 'items' else D.eqv
    if not eq(x, w):
        fail(f'{what}: yielded {D.short(x)}, expected {D.short(w)}')


def k_new(c, s, a):
    keep_new(c, s, a)
    for _ in range(a[1] & 3):
        keep_step(c, c.its[-1])


def k_step(c, s, a):
    live = [t for t in c.its if not t.done]
    if live:
        t = live[a[0] % len(live)]
        for _ in range(1 + (a[1] & 3 == 0) * (a[2] % 40)):
            keep_step(c, t)


def k_all(c, s, a):
    """One step of every iterator."""
    for t in c.its:
        if not t.done:
            keep_step(c, t)


TRANS_OPS = {'seq': TSEQ, 'set': TSET, 'map': TDICT}


def k_trans(c, s, a):
    """A transient taken from a value that is being iterated is changed."""
    f = FAM[s.fam.trans]
    t = s.real.transient() if a[0] & 1 else f.make(s.real)
    ts = Slot(f, t, type(s.model)(s.model))
    ops = TRANS_OPS[s.fam.kind]
    names = ('set', 'delete', 'clear', 'run') if s.fam.kind == 'map' else (
        'add', 'discard', 'clear', 'run') if s.fam.kind == 'set' else ('setitem', 'delitem', 'append', 'prepend', 'run', 'clear')
    for j in range(1 + (a[1] & 3)):
        nm = names[(a[2] + 3 * j) % len(names)]
        if nm == 'clear' and j == 0:
            nm = names[0]
        ops[nm][0](c, ts, tuple((x + 29 * j) & 255 for x in a[1:]) + (a[0],))
    c.rec.label('transient changed under an iteration')


IOPS = {'inew': (k_new, 40), 'istep': (k_step, 70), 'iall': (k_all, 24)}


def mk_indep(fam, ops):
    def run(case, rec):
        h = case['head']
        c = Ctx(h[0], rec)
        c.its = []
        NEW[fam.kind](c, fam, h[1:])
        for op in case['ops']:
            ops[op[0]][0](c, c.slot(), op[1:])
            if len(c.its) > 14:
                c.its = [t for t in c.its if not t.done][-12:]
        c.final()
        while any(not t.done for t in c.its):
            k_all(c, None, None)
    return run


def iops(ops):
    o = {n: (f, max(1, w // 3)) for n, (f, w) in ops.items()}
    return {**o, **IOPS, 'itrans': (k_trans, 14)}


PARTS = [core.Part(f'changing {f}', (lambda d, t=table(CH): program(d, t)), run_changing(FAM[f]), quick=q)
         for f, q in (('tdict', 2200), ('tldict', 900))]
for f, o in (('plist', PSEQ), ('pset', PSET), ('pdict', PDICT), ('llist', PSEQ), ('ldict', PDICT)):
    o = iops(o)
    PARTS.append(core.Part(f'independent {f}', (lambda d, t=table(o): program(d, t)), mk_indep(FAM[f], o), quick=450))

PARTS.append(hugemore.huge_part('iteration', hugemore.iter_case, 30))

PROP = core.Prop('C22', PARTS,
                 rule='Changing: a tdict or tldict, iterators over it and its views (forwards and reversed) advanced step by '
                      'step between generated mutations; non-trivial: a key change under a started iteration (also after '
                      'its last item) or a value replaced under one. Independent: iterators over persistent values advanced '
                      'in turn while values are derived and transients of the same values are changed; non-trivial: two '
                      'started iterators at once.  Huge iteration: thousands of items, one change or none in the middle.',
                 assumptions=['an iterator that was created but not advanced before the change may raise or start afresh',
                              'what an iterator does after its end or its error is only required not to yield items'])
