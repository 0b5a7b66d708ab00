"""Comparisons and raw access of lazy collections."""
from machines2 import *
from pcollections import holdlazy, unlazy


def native_hash(kind, model):
    return hash(plist(model)) if kind == 'seq' else hash(pdict(model))


def x_cmp(c, s, a):
    """== and hash against the eager value, and against a slightly different one."""
    m = s.model
    eager = (m, plist(m) if s.fam.kind == 'seq' else pdict(m), tlist(m) if s.fam.kind == 'seq' else tdict(m))[a[0] % 3]
    what = f'{s.fam.name} {D.short(m)}'
    if not (s.real == eager) or not (eager == s.real) or s.real != eager or eager != s.real:
        fail(f'{what}: not equal to the {type(eager).__name__} of its values')
    if s.fam.kind == 'seq':
        m2 = list(m)
        if m2 and a[1] & 1:
            m2[a[2] % len(m2)] = c.v(a[3])
        else:
            m2.append(c.v(a[3]))
    else:
        m2 = dict(m)
        if m2 and a[1] & 1:
            ks = list(m2)
            m2[ks[a[2] % len(ks)]] = c.dv(a[3])
        else:
            m2[c.hv(a[3])] = c.dv(a[2])
    if (s.real == m2) is not (m == m2) or (m2 == s.real) is not (m == m2) or (s.real != m2) is (m == m2):
        fail(f'{what} == {D.short(m2)}: {s.real == m2}')
    if s.fam.persistent:
        exp, got = attempt(native_hash, s.fam.kind, m), attempt(hash, s.real)
        if compare_outcome(f'hash of {what}', exp, got) and exp[1] != got[1]:
            fail(f'hash of {what} differs from that of its eager value')


def x_order(c, s, a):
    o = c.operand('seq', a[0])
    for nm, f in (('<', lambda x, y: x < y), ('<=', lambda x, y: x <= y), ('>', lambda x, y: x > y), ('>=', lambda x, y: x >= y)):
        other = o.real if a[1] & 1 else o.model
        exp, got = attempt(f, s.model, o.model), attempt(f, s.real, other)
        if compare_outcome(f'{s.fam.name} {D.short(s.model)} {nm} {D.short(o.model)}', exp, got) and exp[1] is not got[1]:
            fail(f'{s.fam.name} {D.short(s.model)} {nm} {D.short(o.model)}: {got[1]}')


def x_raw(c, s, a):
    """Raw access returns the stored lazy objects (whose values are the model's) or the values."""
    fam, m = s.fam, s.model
    if fam.kind == 'seq':
        n = len(m)
        raws = [s.real.getlazy(i) for i in range(n)]
        if raws and s.real.getlazy(-1) is not raws[-1]:
            fail(f'{fam.name}.getlazy(-1) is not the last element')
        for i in (n, -n - 1):
            g = attempt(s.real.getlazy, i)
            if g[0] == 'ok' or not isinstance(g[1], IndexError):
                fail(f'{fam.name}.getlazy({i}) n={n}: {g[1]!r}')
        vals = list(m)
        if fam.name == 'llist':
            for p in (s.real.as_plist(), holdlazy(s.real)):
                if type(p) is not plist or len(p) != n or not all(x is y for x, y in zip(p, raws)):
                    fail(f'{fam.name}.as_plist(): {D.short(p)}')
    else:
        raws = [s.real.getlazy(k) for k in m]
        if s.real.getlazy(SENT) is not None or s.real.getlazy(SENT, 5) != 5:
            fail(f'{fam.name}.getlazy of an absent key')
        vals = list(m.values())
        if fam.name == 'ldict':
            ps, ty = (s.real.as_pdict(), holdlazy(s.real)), pdict
        else:
            ps, ty = (s.real.as_tdict(), holdlazy(s.real)), tdict
        for p in ps:
            if type(p) is not ty or [k for k in p] != [k for k in m] and not all(x is y or x == y for x, y in zip(p, m)) or not all(
                    p[k] is r for k, r in zip(m, raws)) or len(p) != len(m):
                fail(f'{fam.name} held: {D.short(p)}')
    for i, (r, v) in enumerate(zip(raws, vals)):
        is_l = isinstance(r, lazy)
        key = i if fam.kind == 'seq' else list(m)[i]
        if hasattr(s.real, 'is_lazy') and (s.real.is_lazy(key) is not is_l or s.real.is_ready(key) is not (not is_l or r.is_ready())):
            fail(f'{fam.name}.is_lazy/is_ready({D.short(key)}) is wrong')
        if unlazy(r) is not v:
            fail(f'{fam.name}: the element {D.short(r)} at {D.short(key)} does not have the value {D.short(v)}')


def x_ready(c, s, a):
    if hasattr(s.real, 'ready_all'):
        r = s.real.ready_all()
        if r is not s.real:
            fail(f'{s.fam.name}.ready_all() returned another object')
        check_slot(s, 'after ready_all')


def x_retype(c, s, a):
    """Back and forth between the persistent and the transient lazy type."""
    f = FAM[s.fam.trans or s.fam.pers]
    r = (s.real.transient() if s.fam.persistent else s.real.persistent()) if a[0] & 1 else f.make(s.real)
    m = type(s.model)(s.model)
    check_slot(Slot(f, r, m), f'{f.name} of a {s.fam.name}')
    back = (r.persistent() if s.fam.persistent else r.transient()) if a[0] & 2 else s.fam.make(r)
    c.add(s.fam, back, m, f'{s.fam.name} of a {f.name}')


SEQ = dict(xcmp=(x_cmp, 10), xorder=(x_order, 4), xraw=(x_raw, 10), xready=(x_ready, 2), xretype=(x_retype, 8))
MAP = dict(xcmp=(x_cmp, 10), xraw=(x_raw, 10), xready=(x_ready, 2), xretype=(x_retype, 8))
