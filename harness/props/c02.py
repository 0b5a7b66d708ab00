from machines2 import *

PE = pick(PSEQ, ['append', 'prepend', 'insert', 'delete', 'set', 'extend', 'add', 'slice', 'run', 'wear', 'reverse', 'sort', 'goto'])
TE = pick(TSEQ, ['append', 'prepend', 'insert', 'delitem', 'setitem', 'extend', 'iadd', 'run', 'wear', 'pop', 'persistent', 'goto'])
P_OPS, T_OPS = {**PE, **SEQREAD}, {**TE, **SEQREAD}
PT, TT = table(P_OPS), table(T_OPS)
READS = set(SEQREAD)


def mk(fam, ops):
    def run(case, rec):
        c = run_machine([fam], ops, case, rec)
        n = sum(1 for o in case['ops'] if o[0] in READS)
        if n >= 2 and any(len(s.model) for s in c.pool):
            rec.nontrivial()
    return run


PROP = core.Prop('C02', [core.Part(f, (lambda d, t=t: program(d, t)), mk(FAM[f], o), quick=q) for (f, t, o, q) in
                         (('plist', PT, P_OPS, 1300), ('tlist', TT, T_OPS, 1300), ('llist', PT, P_OPS, 600),
                          ('tllist', TT, T_OPS, 600))]
                 + [huge(FAM[f], o, 24) for (f, t, o) in (('plist', PT, P_OPS), ('tlist', TT, T_OPS), ('llist', PT, P_OPS),
                                                             ('tllist', TT, T_OPS))],
                 rule='A case builds a list of one of the four types, edits it (front and back runs, inserts, slices) and '
                      'reads it at generated indices, slices, values and search bounds, all compared with list; '
                      'non-trivial: at least two read operations and some non-empty list.',
                 assumptions=['lists of up to about 100,000 elements, most far smaller; indices and slice bounds are integers or None'])
