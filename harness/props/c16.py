from machines2 import *
from views import *
import c16ops as X
import c16dep

PL = {**PSEQ, **SEQREAD, **X.SEQ}
TL = {**TSEQ, **SEQREAD, **X.SEQ}
PD = {**PDICT, **VIEWS, **X.MAP}
TD = {**TDICT, **VIEWS, **X.MAP}


def mk(fam, ops):
    def run(case, rec):
        c = run_machine([fam], ops, case, rec)
        if c.thunks and len(case['ops']) >= 3 and c.edits:
            rec.nontrivial()
    return run


PROP = core.Prop('C16', [core.Part(f, (lambda d, t=table(o): program(d, t)), mk(FAM[f], o), quick=1300) for (f, o) in
                         (('llist', PL), ('tllist', TL), ('ldict', PD), ('tldict', TD))]
                 + [huge(FAM[f], o, quick=24) for (f, o) in (('llist', PL), ('tllist', TL), ('ldict', PD), ('tldict', TD))]
                 + [core.Part('dependent', lambda d, t=table(c16dep.DEP): program(d, t), c16dep.run_dep, quick=1000)],
                 rule='A case is a lazy list or dict (persistent or transient) in which generated positions hold lazy objects '
                      '(unevaluated or ready), and a program of edits, reads, views and comparisons, all compared with the '
                      'eager model; non-trivial: some lazy element, three operations, at least one edit. '
                      'dependent: the functions read other positions of the collection they are in, and some fail at first.',
                 assumptions=['the lazy functions return their value; failing ones are covered by C14 and C18',
                              'defaults passed to get, pop and transient setdefault are plain values'])
