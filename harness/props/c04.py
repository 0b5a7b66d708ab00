from machines2 import *
from views import *

P_OPS = {**pick(PDICT, ['set', 'drop', 'pop', 'update', 'run', 'setdefault', 'goto']), **VIEWS}
T_OPS = {**pick(TDICT, ['set', 'delete', 'pop', 'update', 'run', 'clear', 'persistent', 'goto']), **VIEWS}


def v_hold(c, s, a):
    """Keeps views of a transient; they are compared again after the later mutations."""
    held = c.__dict__.setdefault('held', [])
    if len(held) < 8:
        held.append((s, s.real.keys(), s.real.items(), s.real.values(), len(s.model)))


def v_put(c, s, a):
    """Maps a key to an object that is equal to None (without being None), or to None, and looks such items up."""
    k = dkey(c, s, a[0], a[1])
    v = VALUE_PROBES[1 + a[2] % 3]
    m = {**s.model, k: v}
    if s.fam.persistent:
        s = c.add(s.fam, s.real.set(k, v), m, f'{s.fam.name}.set({k!r}, {v!r})')
    else:
        s.real[k] = v
        s.model = m
    for w in VALUE_PROBES[1:]:
        for nm, x in (('items', (k, w)), ('values', w)):
            got, exp = x in getattr(s.real, nm)(), x in getattr(m, nm)()
            if got is not exp:
                fail(f'{x!r} in {s.fam.name}.{nm}() of {D.short(m)}: {got}')
    c.rec.label('a value equal to None')


T_OPS['vhold'] = (v_hold, 14)
P_OPS['vput'] = T_OPS['vput'] = (v_put, 6)
PT, TT = table(P_OPS), table(T_OPS)


def mk(fam, ops):
    def run(case, rec):
        c = run_machine([fam], ops, case, rec)
        for (s, k, i, v, n) in getattr(c, 'held', ()):
            check_views(s, f'views taken earlier from a {s.fam.name} now {D.short(s.model)}', k, i, v)
            if n != len(s.model):
                rec.label('live view of a changed dict')
        for s in c.pool:
            check_views(s, f'at the end, {s.fam.name} {D.short(s.model)}')
        if any(len(s.model) >= 2 for s in c.pool) and len(case['ops']) >= 2:
            rec.nontrivial()
    return run


PROP = core.Prop('C04', [core.Part(f, (lambda d, t=t: program(d, t)), mk(FAM[f], o), quick=q) for (f, t, o, q) in
                         (('pdict', PT, P_OPS, 1000), ('tdict', TT, T_OPS, 1000), ('ldict', PT, P_OPS, 700),
                          ('tldict', TT, T_OPS, 700))]
                 + [huge(FAM[f], o, 24) for (f, t, o) in (('pdict', PT, P_OPS), ('tdict', TT, T_OPS), ('ldict', PT, P_OPS),
                                                             ('tldict', TT, T_OPS))],
                 rule='A case builds a dict of one of the four types, edits it, and lists, probes, combines and compares its '
                      'views, all compared with the views of dict; views of transients are kept across mutations; '
                      'non-trivial: at least two operations and some dict with two keys.',
                 assumptions=['set operations on views return something with the elements of dict\'s result (its type is not '
                              'claimed)', 'the values view offers iteration, len and in only'])
