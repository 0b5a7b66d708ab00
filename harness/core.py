"""Common engine of the checks: generation, execution, shrinking, replay, evidence.

A check is a list of Parts.  A Part decodes a byte string into a *case* (a program of
operations over generated arguments, written out as plain data), runs the case against
the code under test and an oracle, and raises Violation when they disagree.  The bytes
come from Hypothesis (which also shrinks them) or, in the thorough tier, from the
coverage-guided fuzzer Atheris; a run is a pure function of VERIF_SEED and the code.
"""
import os, sys, json, time, random, signal, hashlib, traceback, resource, collections

REPO = os.environ.get('VERIF_DEV_REPO') or '/repo'      # a scratch copy only while developing the checks
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(REPO, 'pcollections') + os.sep
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'   # phamt lives here
REC = 8            # bytes per operation record
SHARDS = 8
CASE_CPU_S = 20    # a case normally takes ~1ms; beyond this it is re-run under a step count
STEP_LIMIT = 4_000_000


def setup_path():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class Hang(BaseException):
    """A case used up its CPU allowance (inconclusive until confirmed by a step count)."""


class Rec:
    """What one case did: labels for the distribution, and whether it was non-trivial."""
    __slots__ = ('labels', 'hit', 'log')

    def __init__(self):
        self.labels = set()
        self.hit = False
        self.log = None

    def label(self, s):
        self.labels.add(s)

    def nontrivial(self, s=None):
        self.hit = True
        if s:
            self.labels.add(s)


class Part:
    def __init__(self, name, decode, run, quick, thorough=None, sizes=None, rule='', fuzz=True):
        self.name = name
        self.decode = decode
        self.run = run
        self.quick = quick                      # examples per shard
        self.thorough = thorough if thorough is not None else quick * 12
        self.sizes = sizes or ((2, 10), (12, 40), (40, 100))   # records per case
        self.rule = rule
        self.fuzz = fuzz


class Cursor:
    """Reads bytes; yields zeros once exhausted."""
    __slots__ = ('d', 'i')

    def __init__(self, d):
        self.d = d
        self.i = 0

    def u8(self):
        i = self.i
        self.i = i + 1
        return self.d[i] if i < len(self.d) else 0

    def u16(self):
        return self.u8() * 256 + self.u8()

    def left(self):
        return len(self.d) - self.i


def records(data):
    """Splits data into (header, [record, ...]); all-zero op bytes are no-ops and dropped."""
    head = data[:REC].ljust(REC, b'\0')
    recs = []
    for i in range(REC, len(data), REC):
        r = data[i:i + REC].ljust(REC, b'\0')
        if r[0]:
            recs.append(r)
    return head, recs


def lib_frame(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(LIB):
            return True
        tb = tb.tb_next
    return False


def execute(part, data, rec):
    """Runs one case; raises Violation if the property is broken on it."""
    case = part.decode(data)
    try:
        part.run(case, rec)
    except (Violation, HarnessError):
        raise
    except MemoryError:
        raise
    except RecursionError as e:
        raise Violation(f'unexpected RecursionError: {e}') from e
    except Exception as e:
        where = traceback.extract_tb(e.__traceback__)
        last = where[-1]
        raise Violation(f'unexpected {type(e).__name__}: {e} '
                        f'(at {os.path.basename(last.filename)}:{last.lineno} in {last.name})') from e
    return case


# ---------------------------------------------------------------- hang confirmation

def confirm_hang(part, data):
    """True if the case executes more than STEP_LIMIT lines of the library (deterministic)."""
    count = [0]

    class Over(BaseException):
        pass

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] > STEP_LIMIT:
                raise Over()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(LIB):
            return local
        return None
    old = sys.gettrace()
    sys.settrace(tracer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S * 6)
    try:
        part.run(part.decode(data), Rec())
    except Over:
        return True
    except Hang:
        return False
    except BaseException:
        return False
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.settrace(old)
    return False


# ---------------------------------------------------------------- minimisation of bytes

def minimise(part, data, budget=1500, tmax=60):
    """Greedy record-wise minimiser used for inputs that Hypothesis did not shrink."""
    t0 = time.process_time()
    n = [0]

    def bad(d):
        n[0] += 1
        if n[0] > budget or time.process_time() - t0 > tmax:
            return False
        try:
            execute(part, d, Rec())
        except Violation:
            return True
        except Exception:
            return False
        return False
    recs = [data[i:i + REC] for i in range(0, len(data), REC)]
    changed = True
    while changed:
        changed = False
        size = max(1, (len(recs) - 1) // 2)
        while size >= 1:
            i = 1
            while i < len(recs):
                cand = recs[:i] + recs[i + size:]
                if bad(b''.join(cand)):
                    recs = cand
                    changed = True
                else:
                    i += size
            size //= 2
    for i in range(len(recs)):
        r = bytearray(recs[i])
        for j in range(len(r)):
            for v in (0, r[j] // 2):
                if r[j] != v:
                    old, r[j] = r[j], v
                    if not bad(b''.join(recs[:i] + [bytes(r)] + recs[i + 1:])):
                        r[j] = old
                    else:
                        break
        recs[i] = bytes(r)
    return b''.join(recs)


# ---------------------------------------------------------------- worker

def show(case):
    s = repr(case)
    return s if len(s) <= 1500 else s[:1500] + '...'


class Worker:
    def __init__(self, prop, tier, seed, shard, outdir):
        self.prop, self.tier, self.seed, self.shard = prop, tier, seed, shard
        self.outdir = outdir
        self.evals = collections.Counter()
        self.hits = {}
        self.labels = {}
        self.samples = {}
        self.violation = None
        self.skipped = 0
        self.deadline = time.monotonic() + (420 if tier == 'quick' else 3000)
        self.last = os.path.join(outdir, f'last.{shard}')
        self.lastf = open(self.last, 'wb', buffering=0)

    def note(self, part, data, rec, case):
        self.evals[part.name] += 1
        lab = self.labels.setdefault(part.name, collections.Counter())
        for l in rec.labels:
            lab[l] += 1
        if rec.hit:
            h = self.hits.setdefault(part.name, set())
            k = hashlib.blake2b(data, digest_size=8).digest()
            if k not in h:
                h.add(k)
                s = self.samples.setdefault(part.name, [])
                if len(s) < 3 and len(data) <= 160:
                    s.append(show(case))

    def one(self, part, data):
        data = bytes(data)
        if time.monotonic() > self.deadline:
            self.skipped += 1
            return
        self.lastf.seek(0)
        self.lastf.write(len(data).to_bytes(4, 'big') + part.name.encode().ljust(40) + data)
        rec = Rec()
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
        try:
            case = execute(part, data, rec)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        self.note(part, data, rec, case)

    def fail(self, part, data, msg, shrunk):
        self.violation = dict(part=part.name, data=bytes(data).hex(), message=msg,
                              case=show(part.decode(bytes(data))), shrunk=shrunk)

    def run_part(self, part, pidx):
        import hypothesis
        from hypothesis import strategies as st, settings, HealthCheck, Phase, given
        n = part.quick if self.tier == 'quick' else part.thorough
        strat = st.one_of(*[st.binary(min_size=REC * lo, max_size=REC * hi) for lo, hi in part.sizes])
        cur = {}

        @hypothesis.seed((self.seed * 1009 + self.shard) * 101 + pidx)
        @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck))
        @given(strat)
        def test(data):
            try:
                self.one(part, data)
            except Violation as v:
                cur['data'], cur['msg'] = bytes(data), str(v)
                cur['definite'] = getattr(v, 'definite', False)
                raise
            except Hang:
                cur['hang'] = bytes(data)
                raise
        try:
            test()
        except Violation as v:
            self.fail(part, cur['data'], cur['msg'], 'hypothesis')
        except Hang:
            if confirm_hang(part, cur['hang']):
                self.fail(part, cur['hang'],
                          f'did not terminate: more than {STEP_LIMIT} lines of the library executed', 'no')
            else:
                self.skipped += 1
        except hypothesis.errors.Flaky as e:
            if cur.get('definite'):
                self.fail(part, cur['data'], cur['msg'], 'partly')
                return
            if 'data' in cur:
                # Re-run the last failing input: a repeatable failure is a violation.
                try:
                    execute(part, cur['data'], Rec())
                except Violation as v:
                    self.fail(part, cur['data'], str(v), 'partly')
                    return
            raise HarnessError(f'flaky: {e}')

    def run(self):
        signal.signal(signal.SIGVTALRM, self.on_alarm)
        for i, part in enumerate(self.prop.parts):
            self.run_part(part, i)
            if self.violation:
                return
        if self.tier == 'thorough':
            for i, part in enumerate(self.prop.parts):
                if part.fuzz:
                    self.fuzz_part(part, i)
                    if self.violation:
                        return

    def fuzz_part(self, part, pidx):
        """Coverage-guided inputs: a child process runs Atheris on this part (see fuzz.py)."""
        import subprocess
        if time.monotonic() > self.deadline:
            return
        out = os.path.join(self.outdir, f'fuzz.{self.shard}.{part.name}.json')
        corpus = os.path.join(self.outdir, f'corpus.{self.shard}.{part.name}')
        os.makedirs(corpus, exist_ok=True)
        rng = random.Random((self.seed * 1009 + self.shard) * 101 + pidx)
        for i in range(60):             # starting inputs of every size; libFuzzer would begin with single bytes
            lo, hi = part.sizes[i % len(part.sizes)]
            open(os.path.join(corpus, f'{i:02}'), 'wb').write(rng.randbytes(REC * rng.randint(lo, hi)))
        runs = min(200_000, max(2000, part.thorough))
        cmd = [sys.executable, os.path.join(VERIF, 'harness', 'fuzz.py'), self.prop.id, part.name, out,
               corpus, f'-runs={runs}', f'-seed={self.seed * 1009 + self.shard + 1}', '-max_len=800', '-len_control=0',
               '-timeout=120', '-rss_limit_mb=0', '-verbosity=0', '-print_final_stats=0']
        try:
            p = subprocess.run(cmd, cwd=self.outdir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               timeout=max(60, min(600, self.deadline - time.monotonic())))
        except subprocess.TimeoutExpired:
            self.skipped += 1
        if os.path.exists(out):
            r = json.load(open(out))
            self.evals[part.name + ' (coverage-guided)'] += r['evals']
            self.labels.setdefault(part.name + ' (coverage-guided)', collections.Counter()).update(r['labels'])
            h = self.hits.setdefault(part.name, set())
            h.update(bytes.fromhex(x) for x in r['hits'])
            if r.get('fail'):
                data = bytes.fromhex(r['fail'])
                try:
                    execute(part, data, Rec())
                except Violation as v:
                    data = minimise(part, data)
                    try:
                        execute(part, data, Rec())
                    except Violation as v2:
                        v = v2
                    self.fail(part, data, str(v), 'records')

    @staticmethod
    def on_alarm(sig, frame):
        raise Hang()

    def dump(self, error=None):
        out = dict(evals=self.evals, labels=self.labels, samples=self.samples, skipped=self.skipped,
                   violation=self.violation, error=error)
        with open(os.path.join(self.outdir, f'hits.{self.shard}'), 'wb') as f:
            for name, hs in self.hits.items():
                tag = hashlib.blake2b(name.encode(), digest_size=4).digest()
                for h in hs:
                    f.write(tag + h)
        tmp = os.path.join(self.outdir, f'res.{self.shard}.tmp')
        json.dump(out, open(tmp, 'w'))
        os.rename(tmp, os.path.join(self.outdir, f'res.{self.shard}'))


def limit_memory(gb=3):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


class Prop:
    def __init__(self, id, parts, rule, level='exploration', assumptions=()):
        self.id, self.parts, self.rule, self.level, self.assumptions = id, parts, rule, level, list(assumptions)
