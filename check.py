#!/opt/veriftools/pyvenv/bin/python3
"""Runs one check:  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Exit 2: the check itself failed."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0' or sys.flags.dont_write_bytecode == 0:
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent/pycache', MALLOC_ARENA_MAX='2')
    env.pop('PYTHONPATH', None)
    os.execve('/opt/veriftools/pyvenv/bin/python3', ['/opt/veriftools/pyvenv/bin/python3', os.path.abspath(__file__)] + sys.argv[1:], env)
import argparse, json, time, tempfile, shutil, subprocess, signal, importlib, collections, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import core
core.setup_path()


def load(pid):
    mod = importlib.import_module('props.' + pid.lower())
    import pcollections
    assert os.path.realpath(pcollections.__file__).startswith(core.LIB), pcollections.__file__
    return mod.PROP


def worker(args):
    prop = None
    core.limit_memory()
    try:
        prop = load(args.id)
        w = core.Worker(prop, args.tier, args.seed, args.worker, args.out)
        try:
            w.run()
            w.dump()
        except BaseException as e:
            import traceback
            w.dump(error=traceback.format_exc())
            return 3
        return 1 if w.violation else 0
    finally:
        sys.stdout.flush()


def replay(args):
    prop = load(args.id)
    r = json.load(open(args.replay))
    part = {p.name: p for p in prop.parts}[r['part']]
    data = bytes.fromhex(r['data'])
    print('case:', part.decode(data))
    signal.signal(signal.SIGVTALRM, core.Worker.on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, core.CASE_CPU_S)
    try:
        core.execute(part, data, core.Rec())
    except core.Violation as v:
        print(f'VIOLATION property={prop.id} replay={args.replay}')
        print('  ', v)
        return 1
    except core.Hang:
        print(f'VIOLATION property={prop.id} replay={args.replay}')
        print('   did not terminate')
        return 1
    print('replay: the property holds on this case')
    return 0


def crashed_case(args, out, shard, rc):
    """A worker died by a signal: confirm by running its last case in a fresh process."""
    try:
        raw = open(os.path.join(out, f'last.{shard}'), 'rb').read()
    except OSError:
        return None
    n = int.from_bytes(raw[:4], 'big')
    name = raw[4:44].decode().strip()
    rp = save_replay(args, dict(part=name, data=raw[44:44 + n].hex(), message=f'the process was killed by signal {-rc}',
                                shrunk='no', case=''))
    p = subprocess.run([sys.executable, os.path.abspath(__file__), args.id, '--replay', rp],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return rp if p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE) else None


def save_replay(args, v):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{args.id}-{v['part']}-s{args.seed}.json")
    json.dump(dict(property=args.id, **v), open(path, 'w'), indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--shards', type=int, default=core.SHARDS)
    args = ap.parse_args()
    if args.selftest:
        import hypothesis, atheris
        for f in sorted(os.listdir(os.path.join(HERE, 'harness', 'props'))):
            if f.startswith('c') and f.endswith('.py'):
                load(f[:-3].upper())
        print('ok: hypothesis', hypothesis.__version__, 'and every check loads')
        return 0
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    if args.worker is not None:
        rc = worker(args)
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(rc)
    if args.replay:
        return replay(args)
    t0 = time.monotonic()
    prop = load(args.id)
    out = tempfile.mkdtemp(prefix=f'verif-{args.id}-')
    ev_path = os.path.join(HERE, 'evidence', f'{args.id}.json')
    procs = []
    try:
        for s in range(args.shards):
            log = open(os.path.join(out, f'log.{s}'), 'wb')
            procs.append(subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), args.id, '--tier', args.tier, '--seed', str(args.seed),
                 '--worker', str(s), '--out', out], stdout=log, stderr=log, start_new_session=True))
        hard = t0 + (840 if args.tier == 'quick' else 7000)
        stop_at = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.05)
            now = time.monotonic()
            if stop_at is None and any(p.poll() == 1 for p in procs):
                stop_at = now + 2
            if now > hard or (stop_at is not None and now > stop_at):
                for p in procs:
                    if p.poll() is None:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        p.wait()
                        p.killed = True
        return finish(args, prop, out, procs, t0, ev_path)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        shutil.rmtree(out, ignore_errors=True)


def finish(args, prop, out, procs, t0, ev_path):
    evals, labels, samples, hits = collections.Counter(), {}, {}, {}
    skipped, violations, errors = 0, [], []
    for s, p in enumerate(procs):
        path = os.path.join(out, f'res.{s}')
        if os.path.exists(path):
            r = json.load(open(path))
            evals.update(r['evals'])
            for k, v in r['labels'].items():
                labels.setdefault(k, collections.Counter()).update(v)
            for k, v in r['samples'].items():
                samples.setdefault(k, []).extend(v)
            skipped += r['skipped']
            if r['violation']:
                violations.append(r['violation'])
            if r['error']:
                errors.append(f'shard {s}: ' + r['error'])
            raw = open(os.path.join(out, f'hits.{s}'), 'rb').read()
            for i in range(0, len(raw), 12):
                hits.setdefault(raw[i:i + 12], 0)
        elif getattr(p, 'killed', False):
            skipped += 1
            if not any(q.poll() == 1 for q in procs):
                errors.append(f'shard {s}: did not finish in time')
        elif p.returncode < 0:
            rp = crashed_case(args, out, s, p.returncode)
            if rp:
                violations.append(dict(saved=rp, message=f'the interpreter crashed (signal {-p.returncode})'))
            else:
                errors.append(f'shard {s}: died by signal {-p.returncode}, not reproducible')
        else:
            errors.append(f'shard {s}: no result, exit {p.returncode}: '
                          + open(os.path.join(out, f'log.{s}'), errors='replace').read()[-2000:])
    order = [pt.name for pt in prop.parts]
    smp = []
    for name in order:
        for x in sorted(set(samples.get(name, [])), key=len)[1:3] or samples.get(name, [])[:1]:
            smp.append(f'{name}: {x}')
    cov = dict(evaluations=sum(evals.values()), distinct_nontrivial=len(hits),
               rule=prop.rule, samples=smp or ['(none)'],
               per_part={k: dict(evaluations=evals[k], labels={a: b for a, b in sorted(labels.get(k, {}).items())})
                         for k in evals},
               skipped_or_inconclusive=skipped, shards=args.shards)
    ev = dict(property=args.id, tier=args.tier, seed=args.seed, level=prop.level, coverage=cov,
              assumptions=prop.assumptions, wall_s=round(time.monotonic() - t0, 2), violations=len(violations))
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    json.dump(ev, open(ev_path, 'w'), indent=1)
    print(f"{args.id} {args.tier} seed={args.seed}: {cov['evaluations']} cases, "
          f"{cov['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s"
          + (f', {skipped} skipped or inconclusive' if skipped else ''))
    if violations:
        violations.sort(key=lambda v: len(v.get('data', '')))
        v = violations[0]
        rp = v.get('saved') or save_replay(args, v)
        print(f'VIOLATION property={args.id} replay={rp}')
        print('  ', v['message'])
        print('   case:', v.get('case', ''))
        return 1
    if errors:
        print('ERROR in the check:', file=sys.stderr)
        for e in errors[:3]:
            print(e, file=sys.stderr)
        return 2
    if cov['evaluations'] == 0 or cov['distinct_nontrivial'] == 0:
        print('ERROR: the check generated nothing non-trivial', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
