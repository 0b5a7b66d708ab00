"""Atheris driver for one Part (thorough tier): coverage-guided byte inputs, same oracle."""
import os, sys, json, atexit, hashlib, collections, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core
core.setup_path()
import atheris
with atheris.instrument_imports(include=['pcollections']):
    import pcollections, pcollections.abc, pcollections.util
pid, pname, out = sys.argv[1:4]
prop = importlib.import_module('props.' + pid.lower()).PROP
part = {p.name: p for p in prop.parts}[pname]
labels, hits, n = collections.Counter(), set(), [0]


def dump(fail=None):
    json.dump(dict(evals=n[0], labels=labels, hits=[h.hex() for h in hits], fail=fail), open(out, 'w'))


def one(data):
    rec = core.Rec()
    try:
        core.execute(part, data, rec)
    except core.Violation:
        dump(data.hex())
        os._exit(1)
    n[0] += 1
    labels.update(rec.labels)
    if rec.hit:
        hits.add(hashlib.blake2b(data, digest_size=8).digest())
    if n[0] % 1000 == 0:
        dump()


atheris.Setup([sys.argv[0]] + sys.argv[4:], one)
try:
    atheris.Fuzz()
finally:
    dump()
