from machines2 import *

TAB = table(PSET)


def run(case, rec):
    c = run_machine([FAM['pset']], PSET, case, rec)
    if c.edits >= 3 and any(len(s.model) >= 2 for s in c.pool):
        rec.nontrivial()


PROP = core.Prop('C05', [core.Part('history', lambda d: program(d, TAB), run, quick=1800), huge(FAM['pset'], PSET)],
                 rule='A case is a starting pset and a program of edits, operators (either side) and set methods over a '
                      'branching pool, each compared with set; members collide in chosen hash groups in one universe; '
                      'non-trivial: at least three edits and a set of two members.',
                 assumptions=['iteration order of sets is not claimed', 'removeall with an absent member may raise KeyError '
                              'or ignore it (its documentation and its code disagree)'])
