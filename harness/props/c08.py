from machines2 import *

TAB = table(TSET)


def new(c, fam, a):
    if a[6] & 3 < 2 or not fam.pers:
        return snew(c, fam, a)
    pf = FAM[fam.pers]
    p = snew(c, pf, a)
    c.pool.clear()
    c.keep = [Slot(pf, p.real, set(p.model))]
    t = p.real.transient() if a[5] & 1 else fam.make(p.real)
    return c.add(fam, t, set(p.model), f'{fam.name} of a {pf.name}')


def run(case, rec):
    c = run_machine([FAM['tset']], TSET, case, rec, new=new)
    if c.edits >= 3 and any(len(s.model) >= 2 for s in c.pool):
        rec.nontrivial()


PROP = core.Prop('C08', [core.Part('history', lambda d: program(d, TAB), run, quick=1800), huge(FAM['tset'], TSET)],
                 rule='A case is a tset (built directly or from a pset) and a program of mutations, operators and set methods '
                      'over a pool, each compared with set; non-trivial: at least three mutations took effect and some set '
                      'has two members.',
                 assumptions=['iteration order of sets is not claimed'])
