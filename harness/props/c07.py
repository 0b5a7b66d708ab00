from machines2 import *

TAB = table(TDICT)


def new(c, fam, a):
    if a[6] & 3 < 2 or not fam.pers:
        return dnew(c, fam, a)
    pf = FAM[fam.pers]
    p = dnew(c, pf, a)
    c.pool.clear()
    c.keep = [Slot(pf, p.real, dict(p.model))]
    t = p.real.transient() if a[5] & 1 else fam.make(p.real)
    return c.add(fam, t, dict(p.model), f'{fam.name} of a {pf.name}')


def run(case, rec):
    c = run_machine([FAM['tdict']], TDICT, case, rec, new=new)
    if c.edits >= 3 and any(len(s.model) >= 2 for s in c.pool):
        rec.nontrivial()


PROP = core.Prop('C07', [core.Part('history', lambda d: program(d, TAB), run, quick=1800), huge(FAM['tdict'], TDICT)],
                 rule='A case is a tdict (built directly or from a pdict) and a program of mutations and lookups over a pool '
                      'of tdicts, each compared with dict (order included); non-trivial: at least three mutations took '
                      'effect and some dict has two keys.',
                 assumptions=['the key object kept when an equal key is set again is not claimed',
                              'popitem may take any pair'])
