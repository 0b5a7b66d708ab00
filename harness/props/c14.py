from machines2 import *
import functools, gc, weakref
from pcollections import unlazy
from pcollections._lazy import LazyError


class Boom(Exception):
    pass


class Stop(BaseException):
    """Not an Exception, as KeyboardInterrupt is not."""


class Token:
    """An argument that can be watched with a weak reference."""
    __slots__ = ('__weakref__',)


EXCS = (ValueError, Boom, KeyError, StopIteration, AttributeError, TypeError, RecursionError, OSError)
KWS = ('a', 'fn', 'cls', 'self', 'func', 'args', 'kw', 'keywords', 'partial', 'value', 'obj')
VALUES = (None, 0, False, '', (), [], 1, 'x', Ellipsis, NotImplemented, 2.5, ValueError('value'), LazyError, {}, frozenset(),
          functools.partial(int, '5'), int, lazy(int), lazy(lambda: 1 / 0))


class Entry:
    """One lazy object and what is known about it."""
    def __init__(self):
        self.lz = None
        self.script = []        # outcomes of the coming runs
        self.runs = 0
        self.args, self.kw = (), {}
        self.value = None
        self.ready = False
        self.raised = None
        self.wrong = None
        self.refs = []
        self.released = False
        self.running = False

    def go(self, args, kw):
        if self.running:
            self.wrong = 'the function runs inside itself'
        self.running = True
        try:
            return self.go1(args, kw)
        finally:
            self.running = False

    def go1(self, args, kw):
        self.raised = None
        self.runs += 1
        if len(args) != len(self.args) or not all(x is y for x, y in zip(args, self.args)) or list(kw) != list(self.kw) \
                or not all(kw[k] is self.kw[k] for k in kw):
            self.wrong = f'the function was called with {D.short(args)}, {D.short(kw)}'
        if self.lz.is_ready():
            self.wrong = 'is_ready() is True while the function runs'
        kind, x = self.script.pop(0) if self.script else ('ret', self.value)
        if kind == 'ret':
            return x
        if kind == 'inner':
            return x.lz()               # fails with a LazyError, maybe
        self.raised = x
        raise x


class Callable:
    __slots__ = ('e', '__weakref__')

    def __init__(self, e):
        self.e = e

    def __call__(self, /, *args, **kw):
        return self.e.go(args, kw)

    def method(self, /, *args, **kw):
        return self.e.go(args, kw)


class Falsy(Callable):
    """A callable that is false, and not equal to itself."""
    __slots__ = ()

    def __len__(self):
        return 0

    def __eq__(self, other):
        return False

    __hash__ = None


def function(e, form):
    """(callable, object to watch)"""
    form %= 8
    if form == 6:
        x = Falsy(e)
        return x, x
    if form == 7:
        class Cls:
            def __new__(cls, /, *args, **kw):
                return e.go(args, kw)
        return Cls, Cls
    if form == 0:
        def f(*args, **kw):
            return e.go(args, kw)
        return f, f
    if form == 1:
        x = Callable(e)
        return x, x
    if form == 2:
        x = Callable(e)
        return x.method, x
    if form == 3:
        f = lambda *args, **kw: e.go(args, kw)
        return f, f
    if form == 4:
        x = Callable(e)
        return functools.partial(x), x
    x = Callable(e)

    @functools.wraps(x.method)
    def g(*args, **kw):
        return e.go(args, kw)
    return g, g


def new(st, a):
    e = Entry()
    e.value = VALUES[a[0] % len(VALUES)]
    if e.value == [] or e.value == {}:
        e.value = type(e.value)()
    n = (0, 1, 2, 3, 0, 1, 5, 2)[a[1] & 7] if a[1] < 0xe0 else (4, 6, 7, 8, 9, 17, 33, 65)[a[1] & 7]
    toks = [Token() if (a[2] >> i) & 1 or st.watch else D.hval(2, a[2] + i) for i in range(n)]
    e.args = tuple(toks)
    if st.es and a[1] & 8:
        e.args += (st.es[a[2] % len(st.es)].lz,)        # a lazy argument is passed as it is
    nk = (0, 0, 1, 2, 3, 1, 0, 2)[a[3] & 7] if a[3] < 0xe0 else 4 + (a[3] & 7)
    e.kw = {KWS[(a[4] + i * 3) % len(KWS)]: Token() if a[5] & 1 else D.hval(2, a[5] + i) for i in range(nk)}
    # failures before the first success
    for i in range((0, 1, 0, 2, 0, 1, 3, 0)[a[5] >> 5]):
        k = (a[6] + 5 * i) & 255
        if k % 16 == 15:
            e.script.append(('raise', Stop()))
        elif k % 16 == 14 and st.es:
            e.script.append(('inner', st.es[k % len(st.es)]))
        elif k % 16 == 13 and e.script and e.script[-1][0] == 'raise':
            e.script.append(e.script[-1])                # the same exception object again
        else:
            e.script.append(('raise', EXCS[k % len(EXCS)]('failed', k)))
    fn, watch = function(e, a[4])
    e.lz = lazy(fn, *e.args, **e.kw)
    if e.runs:
        fail('lazy(): the function ran at once')
    if st.watch:
        e.refs = [weakref.ref(watch)] + [weakref.ref(x) for x in list(e.args) + list(e.kw.values()) if type(x) is Token]
    st.es.append(e)
    return e


def request(e, how):
    lz = e.lz
    how %= 4 if isinstance(e.value, lazy) else 8    # (a collection with a lazy value whose value is lazy: not claimed)
    if how < 3:
        return lz()
    if how == 3:
        return unlazy(lz)
    if how == 4:
        return llist([lz])[0]
    if how == 5:
        return ldict({'k': lz})['k']
    if how == 6:
        return list(tllist([1, lz]))[1]
    return tldict({'k': lz}).get('k')


def call(st, e, a):
    rec = st.rec
    nested = bool(a[1] & 1)
    try:
        if nested:
            try:
                raise Boom('being handled')
            except Boom:
                ask(st, e, a)
        else:
            ask(st, e, a)
    finally:
        if e.wrong:
            fail(e.wrong)
    rec.label('call')


def ask(st, e, a, again=True):
    rec = st.rec
    runs = e.runs
    if e.ready:
        for how in (a[0], a[0] + 3):
            r = request(e, how)
            if r is not e.value:
                fail(f'a ready lazy returned {D.short(r)}, expected {D.short(e.value)}')
        if e.runs != runs:
            fail('the function of a ready lazy ran again')
        if not e.lz.is_ready():
            fail('a ready lazy is no longer ready')
        return
    step = e.script[0] if e.script else ('ret', e.value)
    want, value, chain = predict(e)
    for x in chain:
        x.value = value
    err = None
    try:
        r = request(e, a[0])
    except Stop as x:
        err = x
        if want != 'stop':
            fail(f'the call raised {x!r}')
        if e.lz.is_ready():
            fail('a lazy is ready although its function did not return')
        rec.label('BaseException')
        if e.runs != runs + 1:
            fail(f'the function ran {e.runs - runs} times during one call')
        return
    except LazyError as x:
        err = x
        if type(x) is not LazyError:
            fail(f'raised a {type(x).__name__}')
        if want != 'raise':
            fail(f'the call raised {x!r} although the function returned')
        ctx = x.__context__
        if step[0] == 'raise':
            if ctx is not step[1]:
                fail(f'the context of the LazyError is {ctx!r}, not the exception raised: {step[1]!r}')
        elif not isinstance(ctx, LazyError) or step[1].raised is not None and ctx.__context__ is not step[1].raised:
            fail(f'the context of the LazyError is {ctx!r}, not the LazyError of the inner lazy')
        for f in (str, repr):
            if type(f(x)) is not str:
                fail(f'{f.__name__} of a LazyError is not a string')
        text = str(x)
        for want in [repr(y) for y in e.args] + [f'{k}={v}' for k, v in e.kw.items()]:
            if want not in text:
                fail(f'the text of the LazyError, {text}, does not show the argument {want}')
        # (When the same exception is raised again, Python itself unlinks the first error from it.)
        st.errors = [y for y in st.errors if y[1] is not ctx] + [(x, ctx)]
        if e.runs != runs + 1:
            fail(f'the function ran {e.runs - runs} times during one call')
        if e.lz.is_ready():
            fail('a lazy is ready although its function raised')
        st.failed = True
        rec.label('LazyError')
        if again and a[1] & 2:
            rec.label('retried while handling the error')
            ask(st, e, (a[0] + 1, 0), False)
        return
    except Exception as x:
        fail(f'the call raised {x!r}, not LazyError')
    if want != 'ret':
        fail(f'the call returned {D.short(r)} although the function raised {step[1]!r}')
    if r is not e.value:
        fail(f'the call returned {D.short(r)}, the function returned {D.short(e.value)}')
    if e.runs != runs + 1:
        fail(f'the function ran {e.runs - runs} times during one call')
    for x in chain:
        x.ready = True
    if not e.lz.is_ready():
        fail('not ready after its value was returned')
    rec.label('computed')
    if st.failed:
        rec.nontrivial()


def predict(e):
    """What a request of e gives ('ret', 'raise' or 'stop'), its value, and the lazies it makes ready."""
    if e.ready:
        return 'ret', e.value, []
    step = e.script[0] if e.script else ('ret', e.value)
    if step[0] == 'inner':
        w, v, chain = predict(step[1])
        return w, v, chain + [e] if w == 'ret' else []
    if step[0] == 'ret':
        return 'ret', step[1], [e]
    return 'stop' if isinstance(step[1], Stop) else 'raise', None, []


class St:
    def __init__(self, rec, watch):
        self.rec, self.watch = rec, watch
        self.es = []
        self.errors = []        # (LazyError, its context when it was raised)
        self.cur = 0
        self.failed = False


def no_inner(e):
    """(Lazy arguments of the release part would keep each other alive legitimately.)"""
    e.script = [s for s in e.script if s[0] != 'inner']


def check(e):
    if e.lz.is_ready() is not e.ready:
        fail(f'is_ready() is {e.lz.is_ready()}, expected {e.ready}')
    runs = e.runs
    for f in (str, repr):
        if type(f(e.lz)) is not str:
            fail(f'{f.__name__} of a lazy is not a string')
    if e.runs != runs:
        fail('printing a lazy ran its function')


def bad(st, a):
    for f in (lambda: lazy(), lambda: lazy(3), lambda: lazy(None, 1), lambda: lazy('f')):
        g = attempt(f)
        if g[0] == 'ok' or not isinstance(g[1], TypeError):
            fail(f'lazy() of something that cannot be called: {g[1]!r}')
    e = st.es[st.cur]
    runs, ready = e.runs, e.ready
    for f in (lambda: e.lz(1), lambda: e.lz(k=1)):
        g = attempt(f)
        if g[0] == 'ok' or not isinstance(g[1], TypeError):
            fail(f'calling a lazy with arguments: {g[1]!r}')
    if e.runs != runs or e.lz.is_ready() is not ready:
        fail('calling a lazy with arguments ran its function')


def run(case, rec):
    h = case['head']
    st = St(rec, False)
    new(st, h[:7])
    for op in case['ops']:
        a = op[1:]
        if op[0] == 'new' and len(st.es) < 5:
            new(st, a)
            st.cur = len(st.es) - 1
        elif op[0] == 'goto':
            st.cur = a[0] % len(st.es)
        elif op[0] == 'check':
            check(st.es[st.cur])
        elif op[0] == 'bad':
            bad(st, a)
        else:
            call(st, st.es[st.cur], a)
        for e in st.es:
            if e.lz.is_ready() is not e.ready:
                fail(f'is_ready() is {e.lz.is_ready()}, expected {e.ready}')
        for x, ctx in st.errors:
            if x.__context__ is not ctx:
                fail(f'a later failure changed the context of an earlier LazyError from {ctx!r} to {x.__context__!r}')


def run_release(case, rec):
    """Once ready, the function and the arguments can be collected."""
    if not gc.get_freeze_count():
        gc.collect()
        gc.freeze()
    h = case['head']
    st = St(rec, True)
    a = list(h[:7])
    a[1] &= 7
    e = new(st, a)
    no_inner(e)
    n = len(e.script) + 1
    for i in range(n):
        call(st, e, (h[7] + i, 0))
    if not e.ready:
        fail('not ready after its function returned')
    lz, refs, value = e.lz, e.refs, e.value
    e.args, e.kw, e.script, e.raised, e.lz = (), {}, [], None, None
    st.es.clear()
    del e
    st = None
    if any(r() is not None for r in refs):
        gc.collect()
    alive = [r() for r in refs if r() is not None]
    if alive:
        fail(f'a ready lazy keeps its function or arguments alive: {D.short(alive)}')
    if lz() is not value:
        fail('the value changed')
    if len(refs) > 1:
        rec.nontrivial()
    rec.label(f'{n - 1} failures before')


TAB = table(dict(call=(None, 60), new=(None, 20), goto=(None, 20), check=(None, 6), bad=(None, 3)))
TAB1 = table(dict(none=(None, 1)))
PROP = core.Prop('C14', [core.Part('history', lambda d: program(d, TAB), run, quick=3000, sizes=((2, 10), (8, 30))),
                         core.Part('release', lambda d: program(d[:8].ljust(8, b'\0'), TAB1), run_release, quick=1000, sizes=((1, 1),))],
                 rule='history: a program of requests (direct, unlazy, through lazy lists and dicts, while another exception is '
                      'handled) on lazy objects with generated functions, arguments, keywords and failure scripts; release: weak '
                      'references to the function and arguments of a lazy that became ready; non-trivial: a value computed '
                      'after a failure, or at least one watched argument.',
                 assumptions=['functions that do not request their own lazy value'])
