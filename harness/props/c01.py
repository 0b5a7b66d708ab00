from machines2 import *

TAB = table(PSEQ)


def run(case, rec):
    c = run_machine([FAM['plist']], PSEQ, case, rec)
    if c.edits >= 3 and (rec.labels & {'middle edit', 'prepend', 'prepend run', 'slice', 'pop run'}):
        rec.nontrivial()


PROP = core.Prop('C01', [core.Part('history', lambda d: program(d, TAB), run, quick=1500), huge(FAM['plist'], PSEQ)],
                 rule='A case is a starting plist and a generated program of edits over a branching pool of versions, '
                      'each compared with the list model; non-trivial: at least three edits took effect, among them one '
                      'in the middle or at the front, a run or a slice. Distinct: by the generating bytes.',
                 assumptions=['lists of up to about 100,000 elements, most far smaller; integer indices'])
