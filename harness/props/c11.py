from builders import *
from machines2 import *
from props import c09
import hugepair

OTHERS = [None, 3, 0.5, 'ab', '', b'', (), object(), Ellipsis, range(3), int, D.Odd(3), NotImplemented]


def natives(kind, m, b):
    if kind == 'seq':
        return list(m)
    if kind == 'map':
        return (dict, collections.OrderedDict)[b & 1](m)
    return (set, frozenset, lambda v: dict.fromkeys(v).keys(), lambda v: pdict((x, 0) for x in v).keys(),
            lambda v: tdict((x, 0) for x in v).keys(), frozenset)[b % 6](m)


def check_pair(what, a, b, want):
    for nm, g, w in (('==', a == b, want), ('!=', a != b, not want), ('reflected ==', b == a, want),
                     ('reflected !=', b != a, not want)):
        if g is not w:
            fail(f'{what}: {nm} gives {g!r}')


def persistent_hash(x):
    return attempt(hash, x)


def hashes(model, kind):
    """Whether the contents are hashable."""
    try:
        if kind == 'seq':
            hash(tuple(model))
        elif kind == 'map':
            hash(tuple(model.values()))
        return True
    except TypeError:
        return False


def run(case, rec):
    h = case['head']
    c = Ctx(h[0], rec)
    for op in case['ops']:
        a = op[1:]
        kind = ('seq', 'map', 'set')[a[0] % 3]
        n = D.size(a[1] % 200) if a[0] & 128 else D.small(a[1])
        m1 = contents_for(c, kind, a[2], n, a[1] >> 4, a[3])
        m2 = variant(c, kind, m1, a[3], a[4], a[5])
        want = m1 == m2
        rec.label('equal' if want else 'different')
        fams = KIND_FAMS[kind]
        fa, fb = FAM[fams[(a[6] & 15) % len(fams)]], FAM[fams[(a[6] >> 4) % len(fams)]]
        x = build(c, fa, m1, a[4], a[5])
        nat = a[2] % 5 == 0
        y = natives(kind, m2, a[5]) if nat else build(c, fb, m2, a[5], a[4])
        what = f'{fa.name} {D.short(m1)} vs {type(y).__name__} {D.short(m2)}'
        if len(x) > 1 or len(y) > 1:
            rec.nontrivial(fa.name + ('/native' if nat else ''))
        if a[5] & 8:                           # (the hashes may be known before the comparison)
            for z in (x, y):
                if not isinstance(z, (list, dict, set)) and (a[5] & 16 or z is x):
                    attempt(hash, z)
            rec.label('hashed first')
        check_pair(what, x, y, want)
        if not (x == x) or x != x:
            fail(f'{what}: not equal to itself')
        # other kinds and arbitrary objects
        o = OTHERS[a[4] % len(OTHERS)]
        if a[3] & 16:
            ok = ('seq', 'set', 'map')[(('seq', 'set', 'map').index(kind) + 1 + (a[3] >> 5 & 1)) % 3]
            of = KIND_FAMS[ok]
            o = build(c, FAM[of[a[2] % len(of)]], {} if ok == 'map' else set() if ok == 'set' else [], 0, 0) if a[3] & 64 else \
                contents_for(c, ok, a[2], 2, 1, 1)
        elif a[3] & 32:
            o = tuple(m1)
        check_pair(f'{fa.name} {D.short(m1)} vs {D.short(o)}', x, o, False)
        # hashes
        if fa.persistent:
            hx = persistent_hash(x)
            if (hx[0] == 'ok') is not hashes(m1, kind):
                fail(f'hash({what.split(" vs ")[0]}): {hx[1]!r}')
            if hx[0] == 'err':
                if not isinstance(hx[1], TypeError):
                    fail(f'hash({fa.name} {D.short(m1)}): {hx[1]!r}')
                rec.label('unhashable contents')
            elif want and hashes(m2, kind) and (fb.persistent and not nat or isinstance(y, frozenset)):
                hy = persistent_hash(y)
                if hy != hx:
                    fail(f'{what}: equal, but the hashes are {hx[1]!r} and {hy[1]!r}')
                if {x: 7}.get(y) != 7 or y not in {x} or pdict({x: 7}).get(y) != 7 or y not in pset([x]) or y not in tset([x]):
                    fail(f'{what}: equal, but not the same dict key or set member')
                rec.label('equal hashes')
            if hx[0] == 'ok':
                if fa.lazy:
                    x.ready_all()
                if hash(x) != hx[1] or hash(fa.make(NATIVE[kind](m1))) != hx[1]:
                    fail(f'hash({fa.name} {D.short(m1)}) is not stable')
                if a[6] & 1 and kind != 'set':
                    # derived values: the hash follows the contents
                    if kind == 'seq':
                        d = x.append(1) if a[4] & 1 else x.prepend(2)
                        dm = m1 + [1] if a[4] & 1 else [2] + m1
                        back = d.delete(-1) if a[4] & 1 else d.delete(0)
                    else:
                        d = x.set(SENT, 1)
                        dm = {**m1, SENT: 1}
                        back = d.drop(SENT)
                    if hash(d) != hash(FAM[fa.name].make(dm)):
                        fail(f'hash of an edited {fa.name} differs from that of the same contents: {D.short(dm)}')
                    if hash(back) != hx[1]:
                        fail(f'hash of a {fa.name} edited back differs: {D.short(m1)}')


# ------------------------------------------------------------- objects that come from one another

def o_compare(c, s, a):
    """Compares two objects of the pool, whose structures are often shared in part."""
    mates = [x for x in c.pool if x.fam.kind == s.fam.kind]
    o = mates[a[0] % len(mates)]
    want = s.model == o.model
    if a[1] & 1:
        for x in (s, o):
            attempt(hash, x.real)
    check_pair(f'{s.fam.name} {D.short(s.model)} vs {o.fam.name} {D.short(o.model)}, related', s.real, o.real, want)
    n = NATIVE[s.fam.kind](o.model)
    check_pair(f'{s.fam.name} {D.short(s.model)} vs native {D.short(n)}', s.real, n, want)
    if o is not s and s.fam.persistent and o.fam.persistent and want:
        h, g = attempt(hash, s.real), attempt(hash, o.real)
        if h[0] == g[0] == 'ok' and h[1] != g[1]:
            fail(f'{s.fam.name} {D.short(s.model)} and {o.fam.name}: equal, but hash gives {h[1]!r} and {g[1]!r}')
    if o is not s:
        c.compared = getattr(c, 'compared', 0) + 1
        c.rec.label('related equal' if want else 'related different')
        if s.fam is not o.fam:
            c.rec.label('related, other type')


ROPS = dict(edit=(c09.o_edit, 30), link=(c09.o_link, 30), held=(c09.o_held, 14), compare=(o_compare, 60), goto=(goto, 40))
RTAB = table(ROPS)


def related(case, rec):
    h = case['head']
    c = Ctx(h[0], rec, maxpool=10)
    f = c09.FAMS[h[7] % len(c09.FAMS)]
    NEW[f.kind](c, f, (h[1] % 160,) + h[2:])
    for op in case['ops']:
        s = c.slot()
        ROPS[op[0]][0](c, s, op[1:])
    if getattr(c, 'compared', 0) >= 2:
        rec.nontrivial()


TAB = table(dict(pair=(None, 1)))
PROP = core.Prop('C11', [core.Part('pairs', lambda d: program(d, TAB), run, quick=4000, sizes=((2, 5), (4, 12))),
                         core.Part('related', lambda d: program(d, RTAB), related, quick=2000, sizes=((4, 14), (10, 30))),
                         hugepair.huge_part('equality', hugepair.equal_case)],
                 rule='Every operation builds two collections of one kind, of generated types, from equal or slightly different '
                      'contents along two generated routes (or one native), and compares ==, != and hash with the native '
                      'result; also against objects of other kinds; non-trivial: a collection of at least two elements.  related: '
                      'objects made from one another (transients, persistents, copies, held forms, edits) are compared with each '
                      'other and with natives; non-trivial: at least two comparisons of two objects.  huge equality: pairs of 1,025 to 12,289 elements that are equal or differ in one chosen place.',
                 assumptions=['elements whose == is symmetric, total and consistent with hash'])
