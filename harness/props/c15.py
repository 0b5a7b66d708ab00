import sched
from machines2 import *
from pcollections import unlazy
from pcollections._lazy import LazyError


class Boom(Exception):
    pass


class Stop(BaseException):
    """Not an Exception, as KeyboardInterrupt and SystemExit are not."""


VALUES = (None, 0, False, '', 5, 'x', (), Ellipsis, [], {}, set(), bytearray(b'a'), Boom('a value'), len, plist(), NotImplemented)


class Gate:
    """Something a function can wait for, which the scheduler knows about."""
    def __init__(self):
        self.open = False

    def free_for(self, t):
        return self.open

    def wait(self):
        s = sched.ACTIVE
        me = s.me()
        waited = False
        while not self.open:
            waited = True
            s.block(me, self)
        return waited


class Z:
    """A lazy object under test, and the log of what happened to it."""
    def __init__(self, log, name, value, script, points, inner=None, gate=None):
        self.log, self.name, self.value, self.script, self.points, self.inner = log, name, value, list(script), points, inner
        self.gate, self.waited = gate, 0
        self.active = 0
        self.ok = 0
        self.fails = 0          # finished failures
        self.started = 0
        self.failed_in = {}     # thread -> number of failed runs in that thread
        self.last = {}          # thread -> what the last failed run in that thread raised
        self.lz = lazy(self.fn)

    def fn(self):
        import _thread
        s = sched.ACTIVE
        self.active += 1
        self.started += 1
        if self.active > 1:
            self.log.append(f'the function of {self.name} runs in two threads at once')
        if self.ok:
            self.log.append(f'the function of {self.name} ran again after it completed')
        try:
            for _ in range(self.points):
                s.point()
            if self.inner is not None:
                unlazy(self.inner.lz)
            if self.gate is not None:
                self.waited += self.gate.wait()
            fails = self.script.pop(0) if self.script else False
            if fails:
                raise (Stop if fails == 2 else Boom)(self.name)
            self.ok += 1
            return self.value
        except (Boom, Stop, LazyError) as e:
            self.mark_failed(e)
            raise
        finally:
            self.active -= 1

    def mark_failed(self, e):
        import _thread
        self.fails += 1
        me = _thread.get_ident()
        self.last[me] = e
        self.failed_in[me] = self.failed_in.get(me, 0) + 1


def requesters(z):
    lz = z.lz
    return [lambda: lz(), lambda: lz(), lambda: unlazy(lz), lambda: z.ll[1], lambda: list(z.ll)[1], lambda: z.ld['k'],
            lambda: z.tld.get('k'), lambda: z.ll.ready_all()[1], lambda: list(z.ld.values())[1], lambda: z.tl[1],
            lambda: z.ll.pop(1)[0], lambda: z.ld.pop('k')[0]]


def run(case, rec):
    h = case['head']
    log = []
    zs = []
    for j in range(1 + (h[0] >> 6) % 2):
        sc = [(h[1] >> (4 * j + b)) & 1 for b in range((0, 0, 1, 2, 3, 0, 1, 2)[h[2] & 7])]
        if h[0] & 8:                     # some failures are not Exceptions
            sc = [2 * f if (h[0] >> 4 ^ b) & 1 else f for b, f in enumerate(sc)]
        inner = zs[0] if zs and h[3] & 1 else None
        # the function of the second waits until the last thread has made its first request, of the first
        waits = zs and inner is None and h[3] & 8
        gate = Gate() if waits else None
        v = VALUES[(h[4] + j) % len(VALUES)]
        if type(v) in (list, dict, set, bytearray):
            v = v.copy()
        z = Z(log, 'AB'[j], v, sc, (h[5] >> (2 * j)) & 3, inner, gate)
        z.ll, z.tl = llist([0, z.lz, 2]), tllist([0, z.lz])
        z.ld, z.tld = ldict({1: 0, 'k': z.lz}), tldict({'k': z.lz})
        zs.append(z)
    n = 2 + h[6] % 3
    errors = []                         # (LazyError, its context when it was raised)
    stats = dict(requests=0, returned=0, failed=0, ready=0, stopped=0)

    def thread(i):
        def body():
            import _thread
            me = _thread.get_ident()
            for k in range(1 + (h[7] >> (2 * (i & 3))) % 3 % 2 + (h[3] >> 1) % 2):
                b = case['who'][(i * 3 + k) % len(case['who'])]
                opens = k == 0 and i == n - 1 and gate is not None
                if opens:
                    b &= 0x7E
                z = zs[b % len(zs)]
                if b & 0xC0 == 0xC0:
                    # an observer: a lazy that says it is ready returns its value without running anything
                    if z.lz.is_ready():
                        stats['ready'] += 1
                        if not z.ok:
                            log.append(f'{z.name} is ready before its function completed')
                        runs = z.started
                        r = z.lz()
                        if r is not z.value or z.started != runs:
                            log.append(f'{z.name} was ready, but the call returned {r!r}, expected {z.value!r}')
                        if not z.lz.is_ready():
                            log.append(f'{z.name} was ready and no longer is')
                    continue
                reqs = requesters(z)
                req = reqs[(b >> 1) % len(reqs)]
                stats['requests'] += 1
                f0, mine0 = z.fails, z.failed_in.get(me, 0)
                in0 = z.active
                try:
                    r = req()
                except LazyError as e:
                    stats['failed'] += 1
                    if z.fails == f0:
                        log.append(f'a request of {z.name} raised LazyError although no attempt failed meanwhile')
                    elif z.failed_in.get(me, 0) > mine0 and e.__context__ is not z.last[me]:
                        log.append(f'a request of {z.name} in which {z.last[me]!r} was raised gave a LazyError with the '
                                   f'context {e.__context__!r}')
                    errors.append((e, e.__context__))
                except Stop as e:
                    stats['stopped'] += 1
                    if z.failed_in.get(me, 0) == mine0 or z.last[me] is not e:
                        log.append(f'a request of {z.name} raised {e!r}, which its function did not raise')
                except sched.Abort:
                    raise
                except Exception as e:
                    log.append(f'a request of {z.name} raised {e!r}')
                else:
                    stats['returned'] += 1
                    if not z.ok:
                        log.append(f'a request of {z.name} returned {r!r} before the value existed')
                    elif r is not z.value:
                        log.append(f'a request of {z.name} returned {r!r}, the value is {z.value!r}')
                    elif z.failed_in.get(me, 0) > mine0:
                        log.append(f'an attempt of {z.name} failed but its request returned')
                    if not z.lz.is_ready():
                        log.append(f'{z.name} is not ready although its value was returned')
                if opens:
                    gate.open = True
        return body
    s = sched.Sched([thread(i) for i in range(n)], case['schedule'], calls=bool(h[0] & 1), first=h[0] >> 1 & 3)
    problem = s.run()
    for t in s.ts:
        if t.error is not None:
            raise t.error
    if log:
        fail(log[0])
    if problem:
        sched.hang(s, problem)
    for e, ctx in errors:
        if e.__context__ is not ctx:
            fail(f'a later failure changed the context of an earlier LazyError from {ctx!r} to {e.__context__!r}')
    for z in zs:
        if z.ok > 1:
            fail(f'the function of {z.name} completed {z.ok} times')
        if z.ok and not z.lz.is_ready():
            fail(f'{z.name} is not ready after its function completed')
        if not z.ok and z.lz.is_ready():
            fail(f'{z.name} is ready, but its function never completed')
    if s.preempt and stats['requests'] >= 2:
        rec.nontrivial()
    rec.label(f'{n} threads')
    if any(z.fails for z in zs):
        rec.label('failed attempts')
    if any(z.started > 1 and z.ok for z in zs):
        rec.label('retried')
    if stats['stopped']:
        rec.label('attempts that raised a BaseException')
    if stats['ready']:
        rec.label('observed ready')
    rec.label('lines, calls and returns' if h[0] & 1 else 'lines')
    if any(z.waited for z in zs):
        rec.label('a function waited for a request of another lazy value')
    if s.preempt > 3:
        rec.label('over three preemptions')


def decode(d):
    head, recs = core.records(d)
    recs = [bytes(r) for r in recs]
    who = [b for r in recs[:2] for b in r[1:]] or [0]
    return dict(head=tuple(head), who=who, schedule=sched.decode(recs[2:]))


PROP = core.Prop('C15', [core.Part('schedules', decode, sched.case_run(run), quick=2500, sizes=((3, 8), (6, 16), (10, 30)), fuzz=False)],
                 rule='A case is one or two lazy objects (one may depend on the other, or wait until another thread '
                      'has requested the other) whose functions follow a script of failures, two to four threads requesting '
                      'them directly and through lazy collections, and a schedule: at which line, call or return of the library, or point of the function, which thread goes on; non-trivial: at '
                      'least one preemption and two requests.',
                 assumptions=['threads switch between bytecodes, as under the global interpreter lock',
                              'lazy functions that do not request each other in a cycle'])
