import sched
from builders import *
from views import *
import domain as D
import copy, json, os, pickle, sys, threading
from props.c19 import expected, inner

SIZES = (0, 1, 2, 3, 4, 5, 7, 9, 12, 17, 33, 34, 6, 8, 3, 2)
FAMS = ('plist', 'pset', 'pdict', 'llist', 'ldict', 'pset', 'pdict', 'plist')


def o_hash(c, s, a):
    if not s.fam.persistent:
        return
    m = s.model
    fresh = (plist, pset, pdict)[('seq', 'set', 'map').index(s.fam.kind)](m)
    exp, got = attempt(hash, fresh), attempt(hash, s.real)
    c.rec.label('hash')
    if compare_outcome(f'hash of {s.fam.name} {D.short(m)}', exp, got) and exp[1] != got[1]:
        fail(f'hash of {s.fam.name} {D.short(m)}: {got[1]}, expected {exp[1]}')


def o_eq(c, s, a):
    o = c.operand(s.fam.kind, a[0])
    for x, y, mx, my in ((s.real, o.real, s.model, o.model), (o.real, s.real, o.model, s.model), (s.real, o.model, s.model, o.model)):
        exp, got = attempt(lambda: mx == my), attempt(lambda: x == y)
        what = f'{s.fam.name} {D.short(mx)} == {D.short(my)}'
        if compare_outcome(what, exp, got) and bool(exp[1]) is not bool(got[1]):
            fail(f'{what}: {got[1]}')
        if s.fam.kind == 'set':
            for nm, f in (('<=', lambda p, q: p <= q), ('<', lambda p, q: p < q), ('>=', lambda p, q: p >= q)):
                if f(x, y) is not f(mx, my):
                    fail(f'{D.short(mx)} {nm} {D.short(my)}: {f(x, y)}')
            if x.isdisjoint(y) is not mx.isdisjoint(my):
                fail(f'{D.short(mx)}.isdisjoint({D.short(my)}): {x.isdisjoint(y)}')
        elif s.fam.kind == 'seq':
            exp, got = attempt(lambda: mx < my), attempt(lambda: x < y)
            if compare_outcome(what.replace('==', '<'), exp, got) and bool(exp[1]) is not bool(got[1]):
                fail(f'{what.replace("==", "<")}: {got[1]}')


def entries(s):
    return list(s.model.items()) if s.fam.kind == 'map' else list(s.model)


def o_iter(c, s, a):
    """Starts an iterator that is continued later, between other operations."""
    if not s.fam.persistent:
        return
    k = s.fam.kind
    rev = k == 'seq' and a[0] & 1
    it = reversed(s.real) if rev else iter(s.real.items()) if k == 'map' else iter(s.real)
    want = entries(s)
    c.iters.append([it, want[::-1] if rev else want, [], s, k])
    c.rec.label('suspended iterator')


def o_next(c, s, a):
    if not c.iters:
        return
    e = c.iters[a[0] % len(c.iters)]
    for _ in range(1 + a[1] % 5):
        try:
            e[2].append(next(e[0]))
        except StopIteration:
            finish_iter(c, e)
            return


def finish_iter(c, e):
    c.iters.remove(e)
    it, want, got, s, k = e
    got.extend(it)
    what = f'an iterator over a {s.fam.name}'
    if len(got) != len(want):
        fail(f'{what}: {D.short(got)}, expected {D.short(want)}')
    if k == 'set':
        ok = all(x in s.model for x in got) and len(set(got)) == len(want)
    elif k == 'map':
        ok = all((g[0] is w[0] or g[0] == w[0]) and g[1] is w[1] for g, w in zip(got, want))
    else:
        ok = all(g is w for g, w in zip(got, want))
    if not ok:
        fail(f'{what}: {D.short(got)}, expected {D.short(want)}')


def o_trans(c, s, a):
    """A private transient of a (maybe shared) persistent value, or the persistent value of a transient."""
    f = FAM[s.fam.trans or s.fam.pers]
    if s.fam.persistent:
        r = s.real.transient() if a[0] & 1 else f.make(s.real)
        c.rec.label('private transient')
    else:
        r = s.real.persistent() if a[0] & 1 else f.make(s.real)
    c.add(f, r, type(s.model)(s.model), f'{f.name} of a {s.fam.name}')


def o_str(c, s, a):
    kind, x = s.fam.kind, s.real
    if not s.fam.persistent and s.fam.lazy:
        str(x)
        return
    if kind == 'map':
        raw = [(k, x.getlazy(k) if s.fam.lazy else x[k]) for k in x]
    elif s.fam.lazy:
        raw = [x.getlazy(i) for i in range(len(x))]
    else:
        raw = list(x)

    def shown(f):
        return [f'{f(k)}: {f(v)}' for k, v in raw] if kind == 'map' else [f(v) for v in raw]
    what = f'of {s.fam.name} {D.short(s.model)}'
    if a[0] & 1:
        got, want = inner(kind, str(x), what), expected(shown(lambda v: '<lazy>' if isinstance(v, lazy) else repr(v)), ', ', 60)
    elif s.fam.lazy:
        return
    else:
        got, want = inner(kind, repr(x), what), ', '.join(shown(repr))
    c.rec.label('text')
    if got != want:
        fail(f'{"str" if a[0] & 1 else "repr"} {what}: {got}, expected {want}')


def o_dump(c, s, a):
    """copies by pickle, copy and JSON"""
    if s.fam.lazy and not s.fam.persistent:
        return
    how = a[0] % 4
    if how == 3:
        if s.fam.kind == 'set' or not all(type(x) is int for x in (s.model.values() if s.fam.kind == 'map' else s.model)):
            return
        if s.fam.kind == 'map' and not all(type(k) is int for k in s.model):
            return
        m = s.model if s.fam.kind == 'seq' else {str(k): v for k, v in s.model.items()}
        got = json.loads(s.real.__json__())
        if got != m:
            fail(f'JSON form of {s.fam.name} {D.short(s.model)}: {got}')
        c.rec.label('JSON')
        return
    if not all(type(x) in (int, str, D.Key) for x in (list(s.model) + list(s.model.values()) if s.fam.kind == 'map' else s.model)):
        return
    f = (copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x, a[1] % 6)))[how]
    r = f(s.real)
    if type(r) is not s.fam.cls or len(r) != len(s.model):
        fail(f'copy of {s.fam.name} {D.short(s.model)}: {r!r}')
    ok = r == s.real if s.fam.kind == 'set' else list(r) == list(s.real) and (s.fam.kind == 'seq' or all(r[k] == s.model[k] for k in r))
    if not ok:
        fail(f'copy of {s.fam.name} {D.short(s.model)}: {r!r}')
    c.rec.label('pickle or copy')


def o_share(c, s, a):
    c.cur = a[0] % c.nshared


EXTRA = dict(hash=(o_hash, 30), eq=(o_eq, 14), iter=(o_iter, 16), next=(o_next, 20), trans=(o_trans, 24), str=(o_str, 14), dump=(o_dump, 8),
             share=(o_share, 40))
TABLES = {}
for nm, f in FAM.items():
    ops = dict(EDITS[f.kind, f.persistent])
    if f.kind == 'seq':
        ops.update(SEQREAD)
    elif f.kind == 'map':
        ops.update({k: (v[0], 3) for k, v in VIEWS.items()})
    ops.update(EXTRA)
    TABLES[nm] = (ops, table(ops))


def make_shared(base, h):
    shared = []
    for j in range(1 + h[2] % 3):
        fam = FAM[FAMS[(h[3] >> (3 * (j % 2))) & 7] if j < 2 else FAMS[h[3] % 8]]
        m = contents_for(base, fam.kind, (h[4] + 5 * j) & 255, SIZES[(h[5] >> (4 * (j & 1))) & 15], h[6], h[7])
        base.args = []
        how = (h[2] >> 3) & 15
        if how == 11:
            how = 0
        real = build(base, fam, m, how, h[6])
        if fam.kind == 'map':
            order = list(real)
            m = {k: m[k] for k in order}
        shared.append((fam, real, m))
    return shared


def user(h, rec, shared):
    """One user of the shared collections: models of its own, and what it derives from them."""
    c = Ctx(h[0], rec, maxpool=10)
    c.iters = []
    for fam, real, m in shared:
        c.pool.append(Slot(fam, real, type(m)(m)))
    c.nshared = len(shared)
    c.keep = []
    return c


def do(c, r):
    s = c.slot()
    ops, tab = TABLES[s.fam.name]
    ops[tab[r[0] - 1]][0](c, s, r[1:])


LIB = core.REPO.rstrip('/') + '/pcollections/'


def nested(case, rec):
    """Operations in the middle of others: a callback of an element (hash, ==, <, repr) uses the same collections."""
    h = (case['head'][0] & ~3 | 1,) + tuple(case['head'][1:])
    base = Ctx(h[0], rec, maxpool=12)
    shared = make_shared(base, h)
    outer, inner = user(h, rec, shared), user(h, rec, shared)
    state = [0, 0, 0, 0, None]              # callbacks seen, phase, period, operations still to do, their record
    total = 0

    def hook(kind):
        if state[3] <= 0 or not sys._getframe(2).f_code.co_filename.startswith(LIB):
            return
        k = state[0]
        state[0] = k + 1
        if k >= state[1] and (k - state[1]) % state[2] == 0:
            state[3] -= 1
            D.Key.hook = D.Key.shown = None
            try:
                do(inner, state[4])
            finally:
                D.Key.hook = D.Key.shown = hook
            rec.label(f'in the middle of {kind}')
            state[5] += 1
    state.append(0)
    ops = case['ops']
    D.Key.hook = D.Key.shown = hook
    try:
        for i in range(0, min(len(ops) - 1, 20), 2):
            b = ops[i][-1]
            state[:5] = [0, b & 15 if b & 3 else b >> 4 & 3, 1 + (b >> 4 & 7), 1 + (b >> 6), ops[i + 1]]
            do(outer, ops[i])
            state[3] = 0
            for c in (outer, inner):
                for k, s in enumerate(c.pool[:len(shared)]):
                    check_slot(s, f'object {k} ({s.fam.name}) after nested operations')
    finally:
        D.Key.hook = D.Key.shown = None
    for c in (outer, inner):
        while c.iters:
            finish_iter(c, c.iters[0])
        for k, s in enumerate(c.pool):
            check_slot(s, f'at the end, object {k} ({s.fam.name})')
    if any(z.runs > 1 for c in (base, outer, inner) for z in c.thunks):
        fail('a lazy function ran more than once')
    if state[5] >= 2:
        rec.nontrivial()


def run(case, rec):
    h = case['head']
    n = 2 + (h[1] & 3 == 3)
    base = Ctx(h[0], rec, maxpool=12)
    shared = make_shared(base, h)
    ctxs = []
    progs = [case['ops'] if h[1] & 4 else case['ops'][i::n] for i in range(n)]

    def thread(i):
        c = user(h, rec, shared)
        ctxs.append(c)

        def body():
            for r in progs[i][:9]:
                do(c, r)
            while c.iters:
                finish_iter(c, c.iters[0])
            for k, s in enumerate(c.pool):
                check_slot(s, f'thread {i}, at the end, object {k} ({s.fam.name})')
        return body
    s = sched.Sched([thread(i) for i in range(n)], case['schedule'] * (24 if h[1] & 8 else 1), calls=h[1] & 0x30 == 0x30,
                    first=h[1] >> 6, spin=False)

    def hook(kind):
        if sched.ACTIVE is s:
            s.point()
    D.Key.hook = hook
    try:
        problem = s.run()
    finally:
        D.Key.hook = None
    for t in s.ts:
        if t.error is not None:
            raise t.error
    if problem:
        sched.hang(s, problem)
    for fam, real, m in shared:
        sl = Slot(fam, real, m)
        check_slot(sl, f'the shared {fam.name} after the threads')
        o_hash(base, sl, ())
    if s.preempt and len(case['ops']) >= 2:
        rec.nontrivial()
    if any(z.runs > 1 for c in ctxs + [base] for z in c.thunks):
        fail('a lazy function ran more than once')
    rec.label(f'{n} threads')
    if h[1] & 0x30 == 0x30:
        rec.label('lines, calls and returns')
    if s.preempt > 10:
        rec.label('over ten preemptions')


# ---------------------------------------------------------------- one preemption at a chosen point

class Other(threading.Thread):
    """A second thread that does one job whenever the first one is stopped."""

    def __init__(self):
        super().__init__(daemon=True)
        self.job, self.go, self.done, self.error = None, threading.Semaphore(0), threading.Semaphore(0), None
        self.start()

    def run(self):
        while True:
            self.go.acquire()
            try:
                self.job()
            except BaseException as e:
                self.error = e
            self.done.release()

    def work(self, job):
        """Does the job there; without waiting to the end if it seems to wait for us."""
        self.job, self.error = job, None
        self.go.release()
        return self.done.acquire(timeout=0.25)


OTHER = []


def other():
    if not OTHER or OTHER[0][0] != os.getpid():
        OTHER[:] = [(os.getpid(), Other())]
    return OTHER[0][1]


def o_probe(c, s, a):
    """Asks each shared collection for each element of any of them."""
    own = c.pool[:c.nshared]
    els = []
    for q in own:
        els += list(q.model)
    els = els[:12] + [SENT]
    els = els[a[0] % len(els):] + els[:a[0] % len(els)]
    for q in (own if a[1] & 1 else own[::-1]):
        r, m = q.real, q.model
        for e in els:
            if (e in r) is not (e in m):
                fail(f'{D.short(e)} in {q.fam.name} {D.short(m)}: {e in r}')
            if q.fam.kind == 'map':
                if r.get(e, SENT) is not m.get(e, SENT):
                    fail(f'{q.fam.name} {D.short(m)}.get({D.short(e)}): {r.get(e, SENT)!r}')
            elif q.fam.kind == 'seq' and a[2] & 1:
                if r.count(e) != m.count(e):
                    fail(f'{q.fam.name} {D.short(m)}.count({D.short(e)}): {r.count(e)}')
        if q.fam.kind == 'seq':
            for i in range(min(len(m), 5)):
                if r[i] is not m[i]:
                    fail(f'{q.fam.name} {D.short(m)}[{i}]: {r[i]!r}')
    c.rec.label('probed')


def one_op(c, r, probe):
    if probe:
        o_probe(c, None, r[1:])
    else:
        do(c, r)


def preempt_once(h, first, second, modes, k, rec, calls):
    """Runs the first program, stopped at its k-th event while the second runs in another thread."""
    base = Ctx(h[0], rec, maxpool=12)
    shared = make_shared(base, h)
    a, b = user(h, rec, shared), user(h, rec, shared)
    w = other()
    n, state = [0], [0]

    def job():
        for i, r in enumerate(second):
            one_op(b, r, modes >> (4 + i) & 1)

    def event():
        i = n[0]
        n[0] = i + 1
        if i == k:
            state[0] = 1 if w.work(job) else 2

    def local(fr, ev, arg):
        if ev == 'line':
            event()
        return local

    def trace(fr, ev, arg):
        if fr.f_code.co_filename.startswith(LIB):
            return local

    def profile(fr, ev, arg):
        if fr.f_code.co_filename.startswith(LIB):
            event()
    # (no bytecode events: CPython 3.12 can crash when generators are collected while they are on;
    # threads switch at calls, returns and loops only anyway)
    old, oldp = sys.gettrace(), sys.getprofile()
    try:
        for i, r in enumerate(first):
            sys.settrace(trace)
            if calls:
                sys.setprofile(profile)
            try:
                one_op(a, r, modes >> i & 1)
            finally:
                sys.setprofile(oldp)
                sys.settrace(old)
    finally:
        if state[0] == 2 and not w.done.acquire(timeout=20):
            OTHER[:] = []
            fail('the other thread hangs')
    if state[0] and w.error is not None:
        raise w.error
    for c in (a, b):
        o_probe(c, None, (k & 255, k >> 1, k >> 2))
        while c.iters:
            finish_iter(c, c.iters[0])
        for j, s in enumerate(c.pool):
            check_slot(s, f'at the end, object {j} ({s.fam.name})')
    sl = [Slot(fam, real, m) for fam, real, m in shared]
    for s in sl:
        o_hash(base, s, ())
    return n[0], state[0]


def preempted(case, rec):
    h = (case['head'][0] & ~3 | 1,) + tuple(case['head'][1:])
    if h[2] % 3 == 0:                          # (two collections of one type at least, mostly)
        h = h[:2] + (h[2] + 1,) + h[3:]
    if h[6] & 1:
        h = h[:3] + ((h[3] & 7) * 9,) + h[4:]
    ops = case['ops']
    cut = 1 + (h[1] & 1) + (h[1] >> 1 & 1)
    first, second = ops[:cut], ops[cut:cut + 2]
    if not second:
        return
    modes = h[4] ^ h[7]
    calls = h[1] & 4 == 4
    total, _ = preempt_once(h, first, second, modes, -1, rec, calls)
    ks = [int.from_bytes(case['points'][i:i + 2], 'big') * total >> 16 for i in range(0, len(case['points']) - 1, 2)]
    met = 0
    for k in dict.fromkeys(ks[:16]):
        met += preempt_once(h, first, second, modes, k, rec, calls)[1] > 0
    if met >= 2:
        rec.nontrivial()
    rec.label('lines, calls and returns' if calls else 'lines')


def decode_preempted(d):
    head, recs = core.records(d)
    recs = [bytes(r) for r in recs]
    return dict(head=tuple(head), points=b''.join(recs[5:])[:32], ops=recs[:5])


def decode_nested(d):
    head, recs = core.records(d)
    return dict(head=tuple(head), ops=[bytes(r) for r in recs])


def decode(d):
    head, recs = core.records(d)
    recs = [bytes(r) for r in recs]
    k = (len(recs) + 2) // 3
    return dict(head=tuple(head), schedule=sched.decode(recs[:k]), ops=recs[k:])


PROP = core.Prop('C23', [core.Part('shared', decode, sched.case_run(run), quick=500, sizes=((3, 8), (6, 16), (10, 34)), fuzz=False),
                         core.Part('preempted', decode_preempted, preempted, quick=400, sizes=((6, 9), (8, 12)), fuzz=False),
                         core.Part('nested', decode_nested, nested, quick=1500, sizes=((3, 8), (6, 16), (10, 34)))],
                 rule='A case is one to three fresh persistent collections (lazy ones included) shared by two or three threads, a '
                      'program of operations for each thread (edits, reads, hashes, comparisons, suspended iterators, views, private '
                      'transients; all compared with models) and a schedule switching threads at lines, calls and returns of the library '
                      'and in hash/equality callbacks; non-trivial: at least one preemption and two operations. '
                      'nested: the same collections and programs, but the second program runs inside hash, equality, ordering '
                      'and repr callbacks of the elements, in the middle of operations of the first; non-trivial: two such '
                      'operations.  preempted: one thread is stopped at up to sixteen chosen lines, calls or returns in turn while '
                      'another runs its whole program; then every collection is asked for every element; non-trivial: stopped at '
                      'two points at least.',
                 assumptions=['threads switch between bytecodes, as under the global interpreter lock',
                              'a transient is used by one thread only'])
