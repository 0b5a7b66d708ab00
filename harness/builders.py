"""The same contents built along many routes, and near variants of given contents."""
from machines2 import *
import collections

SEQ_FAMS = ('plist', 'tlist', 'llist', 'tllist')
SET_FAMS = ('pset', 'tset')
MAP_FAMS = ('pdict', 'tdict', 'ldict', 'tldict')
KIND_FAMS = {'seq': SEQ_FAMS, 'set': SET_FAMS, 'map': MAP_FAMS}
NATIVE = {'seq': list, 'set': set, 'map': dict}


def build(c, fam, model, how, bits):
    """An object of family fam with exactly the model's contents (dict order may differ unless how < 4)."""
    k = fam.kind
    how &= 15
    if k == 'seq':
        xs = c.wraps(fam, model, bits)
        if how < 4:
            return fam.make(xs)
        junk = c.vals(bits, 1 + how % 3)
        if how == 4:                                    # built from the front
            r = fam.make([])
            for x in reversed(xs):
                r = step_(r, 'prepend', x)
            return r
        if how == 5:                                    # from the middle outwards
            i = len(xs) // 2
            r = fam.make(xs[i:])
            for x in reversed(xs[:i]):
                r = step_(r, 'prepend', x)
            return r
        if how in (6, 7):                               # part of a longer list
            r = fam.make(junk + xs + junk)
            return r[len(junk):len(junk) + len(xs)] if how == 6 else cut(r, len(junk))
        if how == 8:                                    # through the counterpart type
            g = FAM[fam.trans or fam.pers]
            return fam.make(g.make(xs))
        if how == 9:                                    # inserted and deleted in the middle
            r = fam.make(xs)
            i = bits % (len(xs) + 1)
            r = step_(r, 'insert', i, junk[0])
            if fam.persistent:
                return r.delete(i)
            del r[i]
            return r
        if how == 10:                                   # two parts
            i = bits % (len(xs) + 1)
            r = fam.make(xs[:i])
            return r + xs[i:]
        if how == 11:                                   # doubly reversed (evaluates lazies)
            r = fam.make(xs[::-1])
            if fam.persistent:
                return r.reverse()
            r.reverse()
            return r
        if how == 12 and model:                         # wrong elements, then set
            r = fam.make(junk * len(xs))[:len(xs)]
            for i, x in enumerate(xs):
                if fam.persistent:
                    r = r.set(i, x)
                else:
                    r[i] = x
            return r
        r = fam.make([])
        for x in xs:
            r = step_(r, 'append', x)
        return r
    if k == 'set':
        xs = list(model)
        if how < 4:
            return fam.make(xs)
        junk = list(dict.fromkeys(x for x in c.hvals(bits, 1 + how % 5, how) if x not in model))
        if how < 8:
            xs.reverse()
        if how & 1:
            r = fam.make(junk + xs)
            for x in junk:
                r = step_(r, 'discard', x)
            return r
        r = fam.make(())
        for i, x in enumerate(xs):
            r = step_(r, 'add', x)
            if i < len(junk):
                r = step_(r, 'add', junk[i])
        for x in junk:
            r = step_(r, 'discard', x)
        return fam.make(FAM[fam.trans or fam.pers].make(r)) if how & 2 else r
    xs = list(model.items())
    if how >= 8:
        xs.reverse()
    ins = [(a, c.wrap(fam, v, bits + i)) for i, (a, v) in enumerate(xs)]
    if how & 7 < 3:
        return fam.make(ins)
    junk = list(dict.fromkeys(x for x in c.hvals(bits, 1 + how % 5, how) if x not in model))
    t = not fam.persistent
    r = fam.make([(x, 0) for x in junk] if how & 1 else ())
    for i, (a, v) in enumerate(ins):
        if how & 2:
            if t:
                r[a] = SENT
            else:
                r = r.set(a, SENT)
        if t:
            r[a] = v
        else:
            r = r.set(a, v)
    if how & 1:
        for x in junk:
            if t:
                del r[x]
            else:
                r = r.drop(x)
    return fam.make(FAM[fam.trans or fam.pers].make(r)) if how & 4 else r


def step_(r, name, *args):
    x = getattr(r, name)(*args)
    return r if isinstance(r, (tlist, tset, tdict)) else x


def cut(r, n):
    for _ in range(n):
        if isinstance(r, tlist):
            r.pop(0)
            r.pop()
        else:
            r = r.delete(0).delete(-1)
    return r


def variant(c, kind, model, how, a, b):
    """Contents equal or close to the model's."""
    how &= 15
    m = NATIVE[kind](model)
    if how < 4:
        return m
    if kind == 'seq':
        n = len(m)
        i = a % n if n else 0
        if how in (4, 5) and n:
            m[i] = c.v(b)
        elif how == 6 and n:
            del m[i]
        elif how == 7:
            m.insert(i, c.v(b))
        elif how == 8 and n:
            j = b % n
            m[i], m[j] = m[j], m[i]
        elif how == 9:
            m.append(c.v(b))
        elif how == 10 and n:
            m[i] = twin(m[i])
        elif how == 11 and n:
            m[-1] = c.v(b)
        elif how == 12:
            return m[:i]
        elif how == 13 and n:
            m = [twin(x) for x in m]
        elif how == 14:
            m = c.vals(a, D.small(b), b >> 4)
        elif how == 15 and n:
            m[i] = hash_twin(m[i], b)
        return m
    if kind == 'set':
        xs = list(m)
        if how in (4, 5) and xs:
            m.discard(xs[a % len(xs)])
            m.add(c.hv(b))
        elif how in (6, 7) and xs:
            m.discard(xs[a % len(xs)])
        elif how in (8, 9):
            m.add(c.hv(b))
        elif how == 10:
            m = set(twin(x) for x in xs)
        elif how == 11:
            return set()
        elif how == 12:
            m = set(xs[:a % (len(xs) + 1)])
        elif how == 13:
            m = set(xs[:a % (len(xs) + 1)]) | {c.hv(b), c.hv(b + 1)}
        elif how == 14:
            m = set(c.hvals(a, D.small(b), b >> 4))
        elif how == 15 and xs:
            x = xs[a % len(xs)]
            m.discard(x)
            m.add(hash_twin(x, b))
        return m
    ks = list(m)
    k = ks[a % len(ks)] if ks else None
    if how in (4, 5, 6) and ks:
        m[k] = c.dv(b)
    elif how == 7 and ks:
        del m[k]
    elif how in (8, 9):
        m[c.hv(b)] = c.dv(a)
    elif how == 10 and ks:
        v = m.pop(k)
        m[c.hv(b)] = v
    elif how == 11:
        m = {twin(x): twin(v) for x, v in m.items()}
    elif how == 12:
        m = {x: m[x] for x in reversed(ks)}
    elif how == 13 and len(ks) > 1:
        k2 = ks[b % len(ks)]
        m[k], m[k2] = m[k2], m[k]
    elif how == 14:
        m = {x: c.dv(b + i) for i, x in enumerate(c.hvals(a, D.small(b), b >> 4))}
    elif how == 15 and ks:
        if b & 1:
            m = {(hash_twin(x, b >> 1) if x is k else x): v for x, v in m.items()}
        else:
            m[k] = hash_twin(m[k], b >> 1)
    return m


def hash_twin(x, b):
    """A different value with the same hash."""
    try:
        h = hash(x)
    except TypeError:
        return x
    if type(x) is int and b & 1:
        return x + 2**61 - 1 if x >= 0 else -3 - x if x in (-1, -2) else x - 2**61 + 1
    return D.Key(1000 + b % 3, h)


def twin(x):
    """An equal object of another type or identity, where there is one."""
    if type(x) is bool:
        return float(x)
    if type(x) is int and abs(x) < 1 << 50:
        return float(x) if x & 1 else int(str(x))
    if type(x) is float and x == x and abs(x) < 1 << 50 and x == int(x):
        return int(x)
    if type(x) is D.Key:
        return D.Key(x.id, x.h)
    if type(x) is plist:
        return llist(list(x))
    if type(x) is tuple:
        return tuple(twin(y) for y in x)
    if type(x) is frozenset:
        return pset(x)
    if type(x) is pset:
        return frozenset(x)
    if type(x) is pdict:
        return ldict(dict(x))
    if type(x) is D.Odd:
        return D.Odd(x.id)
    if type(x) is str:
        return ''.join(list(x))
    if type(x) is list:
        return tlist(x)
    return x


def contents_for(c, kind, b, n, k, d):
    if kind == 'seq':
        return c.vals(b, n, k)
    xs = c.hvals(b, n, k)
    if kind == 'set':
        return set(xs)
    return {x: c.dv((d + 3 * i) & 255) for i, x in enumerate(xs)}
