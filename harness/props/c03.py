from machines2 import *

TAB = table(PDICT)


def run(case, rec):
    c = run_machine([FAM['pdict']], PDICT, case, rec)
    if c.edits >= 3 and any(len(s.model) >= 2 for s in c.pool):
        rec.nontrivial()


PROP = core.Prop('C03', [core.Part('history', lambda d: program(d, TAB), run, quick=1800), huge(FAM['pdict'], PDICT)],
                 rule='A case is a starting pdict and a program of edits and lookups over a branching pool of versions, each '
                      'compared with dict (order included); keys collide in chosen hash groups in one universe and are equal '
                      'across types or only to themselves in another; non-trivial: at least three edits and a dict of two keys.',
                 assumptions=['the key object kept when an equal key is set again is not claimed',
                              'popitem may take any pair'])
