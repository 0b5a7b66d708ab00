"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = dict(
    C01='model-based property testing (Hypothesis): branching histories against list',
    C02='model-based property testing (Hypothesis): reads of edited lists against list',
    C03='model-based property testing (Hypothesis): branching histories against dict',
    C04='model-based property testing (Hypothesis): dict views against dict',
    C05='model-based property testing (Hypothesis): histories and set algebra against set',
    C06='model-based property testing (Hypothesis): mutation histories against list',
    C07='model-based property testing (Hypothesis): mutation histories against dict',
    C08='model-based property testing (Hypothesis): mutation histories and set algebra against set',
    C09='stateful property testing (Hypothesis): pool of linked objects, every object re-read after every operation',
    C10='property testing (Hypothesis): source type x target type conversions against the model',
    C11='property testing (Hypothesis): pairs of collections against native equality and hashing',
    C12='property testing (Hypothesis): pairs of collections against native ordering',
    C13='round-trip property testing (Hypothesis)',
    C14='stateful property testing (Hypothesis) with injected failures',
    C15='generated thread schedules (Hypothesis) on a harness-owned scheduler',
    C16='model-based property testing (Hypothesis): lazy collections against eager models',
    C17='stateful property testing (Hypothesis) with counted lazy functions',
    C18='property testing (Hypothesis) with a fault injected at generated callback invocations',
    C19='property testing (Hypothesis) against a reference formatter',
    C20='property testing (Hypothesis) of counted work: metamorphic relation between sizes',
    C21='model-based property testing (Hypothesis) of minimal subclasses of the abstract base classes',
    C22='stateful property testing (Hypothesis): interleaved iterators and mutations against dict',
    C23='generated thread schedules (Hypothesis) on a harness-owned scheduler, against the sequential results',
    C24='property testing (Hypothesis): language protocols on collections and on their native counterparts',
    C25='stateful property testing (Hypothesis) with weak references: elements alive against the models')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'props', i.lower() + '.py')):
        lvl = 'exploration'
        checks.append(dict(property=i, quick_cmd=f'./check.py {i} --tier quick', thorough_cmd=f'./check.py {i} --tier thorough',
                           technique=T[i], level=lvl,
                           level_note='generated-input search against an explicit oracle; the thorough tier adds more cases and, '
                                      'where the part allows it, coverage-guided inputs (Atheris); see DESIGN.md'))
    else:
        na.append(dict(property=i, reason='its check is not built yet'))
m = dict(version=1, setup_cmd='./check.py --selftest', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
