"""A deterministic scheduler for real threads running the library.

Exactly one thread runs at a time: it holds the token.  At every line (or every line, call and
return: no bytecode events, CPython 3.12 can crash when it collects generators while they are
on) of the library, and wherever a harness callback says so, the running thread consults the
schedule, which may hand the token to another thread.  A schedule is a list of (points to run, thread)
pairs from the generated case; once it is used up, threads run to completion in turn.

Locks made through the threading module by the library are replaced by cooperative ones, so
that blocking is known exactly; a thread that blocks on anything else is noticed by a watchdog,
which then passes the token on (this affects the schedule only, never the verdict).
"""
import sys, time, _thread, threading
import core

_real_RLock, _real_Lock = threading.RLock, threading.Lock
_get_ident = _thread.get_ident
ACTIVE = None           # the Sched that is running, if any

MAX_POINTS = 120_000
ROTATE = 3000           # points after which another thread gets a turn (for code that spins)


STALLS = []             # real stalls seen in this process (their threads cannot be ended)


class Abort(BaseException):
    pass


def untrace():
    """Ends tracing in this thread."""
    sys.setprofile(None)
    sys.settrace(None)
    f = sys._getframe(1)
    while f is not None:
        if f.f_trace is not None:
            f.f_trace = None
        f = f.f_back


class _Coop:
    """A lock that gives up the token instead of blocking, when a scheduled thread uses it."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._mutex = _thread.allocate_lock()       # guards unscheduled use only
        self._real = _thread.RLock() if self._reentrant else _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = s and s.me()
        if not me:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not blocking or timeout == 0:
                return False
            if timeout > 0 and s.points > MAX_POINTS // 2:
                return False
            s.block(me, self)
        self._owner = me
        self._count += 1
        s.point()
        return True

    def release(self):
        s = ACTIVE
        self._real.release()
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0
        if s and s.me():
            s.point()

    def free_for(self, t):
        return self._count == 0 or (self._reentrant and self._owner is t)

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        s = ACTIVE
        me = s and s.me()
        return self._owner is me if me else self._real._is_owned() if self._reentrant else self._real.locked()


class CoopRLock(_Coop):
    _reentrant = True


class CoopLock(_Coop):
    _reentrant = False


def patch():
    threading.RLock, threading.Lock = CoopRLock, CoopLock


def unpatch():
    threading.RLock, threading.Lock = _real_RLock, _real_Lock


class T:
    """A scheduled thread."""
    __slots__ = ('index', 'fn', 'ident', 'gate', 'state', 'lock', 'error', 'external')

    def __init__(self, index, fn):
        self.index, self.fn = index, fn
        self.ident = None
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = 'ready'            # ready, blocked, external, done
        self.lock = None
        self.error = None


class Sched:
    def __init__(self, fns, schedule, calls=False, first=0, spin=True):
        self.ts = [T(i, f) for i, f in enumerate(fns)]
        self.byid = {}
        self.schedule = schedule
        self.si = 0
        self.left = schedule[0][0] if schedule else -1
        self.points = 0
        self.turn = 0
        self.switches = 0
        self.preempt = 0
        self.calls = calls
        self.spin = spin        # whether too many points count as a hang
        self.current = None
        self.first = first
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.abort = False
        self.problem = None
        self.stalled = False
        self.guard = _thread.allocate_lock()

    def me(self):
        return self.byid.get(_get_ident())

    # ---- called by the running thread
    def runnable(self, t):
        if t.state == 'ready':
            return True
        return t.state == 'blocked' and t.lock.free_for(t)

    def pick(self, want):
        """The first runnable thread from index want on."""
        n = len(self.ts)
        for k in range(n):
            t = self.ts[(want + k) % n]
            if self.runnable(t):
                return t
        return None

    def point(self):
        me = self.byid.get(_get_ident())
        if me is None:
            return
        if self.abort:
            raise Abort()
        if self.current is not me:          # woke up from a block the watchdog noticed
            with self.guard:
                me.state = 'ready'
                idle = self.current is None
                if idle:
                    self.current = me
            if not idle:
                me.gate.acquire()
                if self.abort:
                    raise Abort()
            return
        self.points += 1
        self.turn += 1
        if self.points > MAX_POINTS:
            if not self.spin:
                return
            self.problem = f'no end after {MAX_POINTS} scheduling points'
            self.stop()
            raise Abort()
        if self.left == 0:
            want = self.schedule[self.si][1]
            self.si += 1
            self.left = self.schedule[self.si][0] if self.si < len(self.schedule) else -1
        elif self.turn > ROTATE:
            want = me.index + 1
        else:
            if self.left > 0:
                self.left -= 1
            return
        t = self.pick(want % len(self.ts))
        if t is not None and t is not me:
            self.preempt += 1
            self.give(me, t)

    def give(self, me, t):
        """Passes the token from the running thread me to t and waits to get it back."""
        self.switches += 1
        self.turn = 0
        t.state = 'ready'
        self.current = t
        t.gate.release()
        me.gate.acquire()
        if self.abort:
            raise Abort()

    def block(self, me, lock):
        if self.abort:
            self.quit()
        me.state, me.lock = 'blocked', lock
        t = self.pick(me.index + 1)
        if t is None:
            if any(x.state == 'external' for x in self.ts):
                with self.guard:
                    self.current = None
                me.gate.acquire()
                if self.abort:
                    self.quit()
                return
            self.problem = 'deadlock: every thread waits for a lock'
            self.stop()
            self.quit()
        if t is me:
            me.state = 'ready'
            return
        self.give(me, t)
        me.state = 'ready'

    def quit(self):
        untrace()
        raise Abort()

    def stop(self):
        self.abort = True
        for t in self.ts:
            if t is not self.me() and t.state != 'done':
                try:
                    t.gate.release()
                except RuntimeError:
                    pass

    # ---- thread body
    def body(self, t):
        t.ident = _get_ident()
        self.byid[t.ident] = t
        t.gate.acquire()
        try:
            if not self.abort:
                sys.settrace(self.tracer)
                if self.calls:
                    sys.setprofile(self.profile)
                try:
                    t.fn()
                finally:
                    sys.setprofile(None)
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        t.state = 'done'
        self.finish(t)

    def finish(self, t):
        if all(x.state == 'done' for x in self.ts):
            try:
                self.done.release()
            except RuntimeError:
                pass
            return
        if self.abort:
            return
        n = self.pick(t.index + 1)
        if n is not None:
            self.switches += 1
            self.turn = 0
            n.state = 'ready'
            self.current = n
            n.gate.release()
        elif any(x.state == 'external' for x in self.ts):
            self.current = None
        else:
            self.problem = 'deadlock: every remaining thread waits for a lock'
            self.stop()

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(core.LIB):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            self.point()
        return self.local

    def profile(self, frame, event, arg):
        if not self.abort and frame.f_code.co_filename.startswith(core.LIB):
            try:
                self.point()
            except Abort:           # (raised at the next line or lock instead)
                pass

    # ---- called by the main thread
    def run(self):
        """Runs all threads; returns a description of a hang, or None."""
        global ACTIVE
        ACTIVE = self
        try:
            for t in self.ts:
                _thread.start_new_thread(self.body, (t,))
            while len(self.byid) < len(self.ts):
                time.sleep(0)
            self.current = self.ts[self.first % len(self.ts)]
            self.current.gate.release()
            seen, still = -1, 0
            while not self.done.acquire(True, 0.1):
                now = (self.points, self.switches)
                if now != seen:
                    seen, still = now, 0
                    continue
                still += 1
                cur = self.current
                if cur is not None and still >= 2:
                    with self.guard:
                        if self.current is cur and cur.state == 'ready' and not self.abort:
                            n = None
                            cur.state = 'external'
                            for x in self.ts:
                                if x is not cur and self.runnable(x):
                                    n = x
                                    break
                            self.current = n
                            if n is not None:
                                n.state = 'ready'
                                n.gate.release()
                if still >= (150 if not STALLS else 10):
                    STALLS.append(1)
                    self.problem = self.problem or 'the threads make no progress'
                    self.abort = True
                    self.stop()
                    self.stalled = True
                    break
            return self.problem
        finally:
            if not all(t.state == 'done' for t in self.ts):
                self.stop()
            ACTIVE = None


def case_run(fn):
    """Runs a case with the library's locks replaced; once many threads are stuck, cases are skipped."""
    def run(case, rec):
        if len(STALLS) > 12:
            return
        patch()
        try:
            fn(case, rec)
        finally:
            unpatch()
    return run


def hang(s, problem):
    v = core.Violation(f'a request hangs: {problem}')
    v.definite = s.stalled
    raise v


def decode(recs):
    """A schedule from operation records: (points to run, next thread) pairs."""
    out = []
    for r in recs:
        for i in (1, 3, 5):
            k = r[i]
            gap = k & 15 if k < 96 else k - 90 if k < 160 else (k - 160) * 4
            out.append((gap, r[i + 1]))
    return out


patch()
try:
    import pcollections
finally:
    unpatch()
