#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the C++ source: generated verification conditions discharged by z3/cvc5, failed obligations replayed on the compiled code'
NOTE = ('Every obligation (postconditions, loop invariants, bounds, preconditions of callees) generated from the current source is accepted for all inputs and all '
        'iterations; floats are exact reals with NaN/infinities, ints are mathematical, std containers and <cmath> are axiomatised, termination is not proved.')
BNOTE = ('The contracts of these functions are evaluated on the compiled code for generated arguments (bounded, not proved): no obligation is counted as discharged.')
P, NA = [], []


def prop(id, title, statement, text, why, files, mech, note=NOTE, na=None, over=('inputs',), level='proof'):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note, na, level))


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, _, _, _ in P:
        f.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='python3-vt setup.py', checks=[], not_applicable=[],
           notes='All checks are `python3-vt check.py <id>`; VERIF_TIER selects the budgets. The setup only warms caches: every check rebuilds what it needs.')
for d, note, na, level in P:
    if na:
        man['not_applicable'].append(dict(property=d['id'], reason=na))
    else:
        man['checks'].append(dict(property=d['id'], quick_cmd='python3-vt check.py ' + d['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + d['id'],
                                  technique=TECH if level == 'proof' else 'contracts on the C++ functions, evaluated on the compiled code for generated arguments (bounded stand-in for deductive verification)', level=level, level_note=note if level == 'proof' or note != NOTE else BNOTE))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(man['checks']), 'claimed')
