from builders import *
import hugepair
import copy, json, pickle

ALL = ['plist', 'tlist', 'llist', 'tllist', 'pset', 'tset', 'pdict', 'tdict', 'ldict', 'tldict']
SEQS, SETS, MAPS = (list, tuple, plist, tlist), (set, frozenset, pset, tset), (dict, pdict, tdict)
MUTABLE = (list, dict, set, bytearray, tlist, tset, tdict)


def deq(a, b, d=0):
    """Same type and equal contents, NaN equal to NaN, order of lists and dicts included."""
    if a is b:
        return True
    if type(a) is not type(b) or d > 20:
        return False
    if isinstance(a, float):
        return a == b or a != a and b != b
    if isinstance(a, SEQS):
        return len(a) == len(b) and all(deq(x, y, d + 1) for x, y in zip(a, b))
    if isinstance(a, MAPS):
        return len(a) == len(b) and all(deq(x, y, d + 1) for x, y in zip(a.items(), b.items()))
    if isinstance(a, SETS):
        if len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if deq(x, y, d + 1):
                    del rest[i]
                    break
            else:
                return False
        return True
    return a == b


def mutables(x, out, own=True):
    if isinstance(x, MUTABLE) and own:
        out[id(x)] = x
    if isinstance(x, MAPS):
        for k, v in x.items():
            mutables(k, out)
            mutables(v, out)
    elif isinstance(x, SEQS + SETS):
        for y in x:
            mutables(y, out)
    return out


def same_sharing(what, a, b, fwd, back, d=0):
    """Two occurrences of a mutable object in a are two occurrences of one object in b, and the other way round."""
    if isinstance(a, MUTABLE):
        if fwd.setdefault(id(a), b) is not b:
            fail(f'{what}: {D.short(a)} occurs more than once in the original, the copy has different objects there')
        if back.setdefault(id(b), a) is not a:
            fail(f'{what}: different objects of the original are one object {D.short(b)} in the copy')
    if isinstance(a, SEQS) and d < 9:
        return sum(same_sharing(what, x, y, fwd, back, d + 1) for x, y in zip(a, b))
    if isinstance(a, MAPS) and d < 9:
        return sum(same_sharing(what, x, y, fwd, back, d + 1) for x, y in zip(a.values(), b.values()))
    return isinstance(a, MUTABLE)


def together(c, what, s, a, f):
    """The object and another one of the pool (which may share elements with it) copied as one structure."""
    o = c.pool[a[2] % len(c.pool)]
    r, r2 = f([s.real, o.real])
    compare(f'{what} together with another', s, r)
    compare(f'{what} (the other)', o, r2)
    x = [s.real, o.real]
    if same_sharing(what, x, [r, r2], {}, {}) > 2:
        c.rec.label('copied together with a pool member')
    return r


def fresh_model(fam, real):
    """The model of a copy, whose elements are its own."""
    if fam.kind == 'seq':
        return list(real)
    return set(real) if fam.kind == 'set' else dict(real.items())


def compare(what, s, r):
    fam = s.fam
    m = fresh_model(fam, s.real)            # (which of two equal keys is kept is not claimed)
    if type(r) is not fam.cls:
        fail(f'{what}: a {type(r).__name__}, not a {fam.name}')
    got = fresh_model(fam, r)
    if len(r) != len(m) or not deq(got, m):
        fail(f'{what}: {D.short(got)}, expected {D.short(m)}')
    if got == m:
        if not (r == s.real) or r != s.real:
            fail(f'{what}: does not equal the original {D.short(m)}')
        if fam.persistent:
            h1, h2 = attempt(hash, s.real), attempt(hash, r)
            if h1[0] != h2[0] or h1[0] == 'ok' and h1[1] != h2[1]:
                fail(f'{what}: hash {h2[1]!r}, that of the original is {h1[1]!r}')


def o_pickle(c, s, a):
    proto = a[0] % (pickle.HIGHEST_PROTOCOL + 1)
    runs = [t.runs for t in c.thunks]
    what = f'{s.fam.name} pickled with protocol {proto}'
    form = a[1] & 7
    if form == 0:
        r, r2, d = pickle.loads(pickle.dumps([s.real, s.real, {1: s.real}], proto))
        if r is not r2 or d[1] is not r:
            fail(f'{what}: shared references became different objects')
    elif form == 2:
        r = together(c, what, s, a, lambda x: pickle.loads(pickle.dumps(x, proto)))
    elif form == 1:
        r = pickle._loads(pickle._dumps(s.real, proto))
    else:
        r = pickle.loads(pickle.dumps(s.real, proto))
    compare(what, s, r)
    same_sharing(what, s.real, r, {}, {})
    check_slot(s, what + ' (original)')
    finish(c, s, r, what, runs)
    c.rec.label(f'protocol {proto}')


def o_copy(c, s, a):
    runs = [t.runs for t in c.thunks]
    what = f'copy.copy of a {s.fam.name}'
    r = copy.copy(s.real)
    compare(what, s, r)
    check_slot(Slot(s.fam, r, s.model), what)
    if not s.fam.persistent and r is s.real:
        fail(f'{what}: is the {s.fam.name} itself')
    finish(c, s, r, what, runs)
    c.rec.label('copy')


def o_deepcopy(c, s, a):
    runs = [t.runs for t in c.thunks]
    what = f'copy.deepcopy of a {s.fam.name}'
    if a[0] & 1:
        r, r2 = copy.deepcopy((s.real, [s.real]))
        if r2[0] is not r:
            fail(f'{what}: shared references became different objects')
    elif a[0] & 2:
        r = together(c, what, s, a, copy.deepcopy)
    else:
        r = copy.deepcopy(s.real)
    compare(what, s, r)
    same_sharing(what, s.real, r, {}, {})
    x, y = mutables(s.real, {}, not s.fam.persistent), mutables(r, {}, not s.fam.persistent)
    common = [x[i] for i in x if i in y]
    if common:
        fail(f'{what}: shares {D.short(common[0])} with the original')
    if len(x) > (not s.fam.persistent):
        c.rec.label('deep copy of mutable elements')
        # changing the copy's elements does not show in the original
        before = repr(s.model)
        for o in list(y.values()):
            if o is not r and isinstance(o, (list, bytearray)):
                o.append(7)
        if repr(s.model) != before:
            fail(f'{what}: changing an element of the copy changed the original')
        for o in list(y.values()):
            if o is not r and isinstance(o, (list, bytearray)):
                o.pop()
    check_slot(s, what + ' (original)')
    finish(c, s, r, what, runs)
    c.rec.label('deepcopy')


def finish(c, s, r, what, runs):
    if any(t.runs > 1 for t in c.thunks):
        fail(f'{what}: a lazy value was computed twice')
    if len(s.model) > 1:
        c.rec.nontrivial()
    if len(c.pool) < c.maxpool:
        c.add(s.fam, r, fresh_model(s.fam, r), what)


JSON = [None, True, False, 0, 1, -5, 2.5, 1e300, '', 'a', 'é"\n', 1 << 70, [], [1, [2]], {}, {'a': [None]}, 0.1, -0.0]


def o_json(c, s, a):
    """JSON of lists and dicts of JSON-like values (built for the purpose, with a history)."""
    vals = [JSON[(a[1] + i * (1 + a[2] % 7)) % len(JSON)] for i in range(D.small(a[0]))]
    if a[3] & 1:
        fam = FAM[SEQ_FAMS[a[4] & 3]]
        x = build(c, fam, vals, a[5], a[6])
        m = vals
    else:
        fam = FAM[MAP_FAMS[a[4] & 3]]
        m = {('k%d' % ((a[5] + 3 * i) % 29), '', 'é', 'a b')[0 if i % 5 else i % 4]: v for i, v in enumerate(vals)}
        sub = Ctx(3, c.rec)
        x = build(sub, fam, m, a[5] & 7, a[6])
    if a[4] >= 0xe0 and vals:                  # something that JSON does not know: an error, or (some day) an equal text
        bad = (object(), {1, 2}, b'x', 1j, pset([1]), Ellipsis, range(3), frozenset(), NotImplemented, plist, tset(), 'é'.encode())[a[1] % 12]
        if isinstance(m, dict):
            m = {**m, list(m)[a[2] % len(m)]: [bad] if a[3] & 2 else bad}
        else:
            m = m[:a[2] % len(m)] + [{'k': bad} if a[3] & 2 else bad] + m[a[2] % len(m):]
        x = fam.cls(m)
        got = attempt(lambda: json.loads(x.__json__()))
        c.rec.label('not expressible in JSON')
        if got[0] == 'ok' and got[1] != m:
            fail(f'JSON of {fam.name} {D.short(m)} parses to {D.short(got[1])}')
        return
    got = json.loads(x.__json__())
    if got != m or not deq(got, m):
        fail(f'JSON of {fam.name} {D.short(m)} parses to {D.short(got)}')
    c.rec.label('json')


TABS = {k: table(t) for k, t in EDITS.items()}


def o_edit(c, s, a):
    k = (s.fam.kind, s.fam.persistent)
    nm = TABS[k][a[0] % 255]
    EDITS[k][nm][0](c, s, a[1:] + (a[0],))


OPS13 = dict(pickle=(o_pickle, 34), copy=(o_copy, 14), deepcopy=(o_deepcopy, 22), json=(o_json, 10), edit=(o_edit, 40),
             goto=(goto, 20))
TAB = table(OPS13)


def run(case, rec):
    h = case['head']
    c = Ctx(h[0], rec, maxpool=14)
    f = FAM[ALL[h[7] % len(ALL)]]
    NEW[f.kind](c, f, (h[1] % 160,) + h[2:])
    for op in case['ops']:
        s = c.slot()
        OPS13[op[0]][0](c, s, op[1:])
    c.final()


PROP = core.Prop('C13', [core.Part('copies', lambda d: program(d, TAB), run, quick=2500, sizes=((2, 6), (4, 16), (12, 30))),
                         hugepair.huge_part('copies', hugepair.copy_case)],
                 rule='A program pickles (every protocol), copies, deep-copies, converts to JSON and edits a pool of objects and '
                      'their copies; every copy is compared with its original (type, order, contents, NaN equal to NaN) and '
                      'edited independently; non-trivial: a copy of at least two elements.  huge copies: collections of 1,025 to 12,289 elements.',
                 assumptions=['elements that can themselves be pickled and copied', 'JSON: values that JSON can represent'])
