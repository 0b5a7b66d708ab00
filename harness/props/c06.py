from machines2 import *

TAB = table(TSEQ)


def new(c, fam, a):
    """A tlist built directly, or as the transient of a plist at some offset."""
    if a[6] & 3 < 2 or not fam.pers:
        return seq_new(c, fam, a)
    pf = FAM[fam.pers]
    p = seq_new(c, pf, a)
    c.pool.clear()
    p_run(c, p, a[1:] + (1,)) if False else None
    real, model = p.real, list(p.model)
    k = a[6] >> 3
    if a[6] & 4:
        for v in c.vals(a[5], k % 9):
            real, model = real.prepend(v), [v] + model
    else:
        for _ in range(min(k % 9, len(model))):
            real, model = real.delete(0), model[1:]
    c.keep = [Slot(pf, real, list(model))]
    t = real.transient() if a[5] & 1 else fam.make(real)
    return c.add(fam, t, model, f'{fam.name} of a {pf.name}')


def run(case, rec):
    h = list(case['head'])
    c = run_machine([FAM['tlist']], TSEQ, dict(case, head=tuple(h)), rec, new=lambda c, f, a: new(c, f, h[1:]))
    if c.edits >= 3 and (rec.labels & {'middle edit', 'prepend', 'prepend run', 'self operand', 'pop run'}):
        rec.nontrivial()


PROP = core.Prop('C06', [core.Part('history', lambda d: program(d, TAB), run, quick=1800), huge(FAM['tlist'], TSEQ)],
                 rule='A case is a tlist (built from an iterable or from a plist at a generated offset) and a program of '
                      'mutations over a pool of tlists, each compared with list; non-trivial: at least three mutations took '
                      'effect, one of them in the middle, at the front, a run, or with the list itself as operand.',
                 assumptions=['slice assignment and deletion are not offered by tlist and not claimed',
                              'the right operand of + and += is a list, plist or tlist'])
