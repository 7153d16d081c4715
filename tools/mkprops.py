#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real C++ (clang AST -> weakest-precondition/symbolic VCs -> z3/cvc5)'
NOTE = ('Every obligation generated from the parsed bodies in /repo is discharged for all inputs and all iterations. '
        'Trusted: clang front end, the VC generator, the STL models, the solvers; double treated as real, int as mathematical.')
TESTS = 'The tests run two small networks (3 and 7 links) with fixed files and compare a few totals; '


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe='', claim=True, reason='', note=''):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=TESTS + why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m) for n, m in state], observe_at=observe or 'public methods of the classes named',
                             hook_needed=False)), claim, reason, note


PROPS = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, *_ in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=[], not_applicable=[],
         hooks=dict(guard='none', enable='no hooks: the verifier reads the unmodified sources', source_commits=[]),
         notes='All checks: python3-vt check.py <property>. See DESIGN.md.')
for p, claim, reason, note in PROPS:
    if claim:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                                thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'], technique=TECH, level='proof',
                                level_note=NOTE + (' ' + note if note else '')))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=reason))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
