"""Writes properties.jsonl and MANIFEST.json from the list below (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real code (verification conditions from its LLVM IR, discharged by z3/cvc5)'
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech],
                               **({'state': [dict(name=s[0], meaning=s[1], where=s[2]) for s in state]} if state else {})), _note=note))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, 'tools/props_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
claimed = [p for p in P if p['id'] not in {n['property'] for n in NA}]
M = dict(version=1, setup_cmd='python3-vt tools/selfcheck.py',
         checks=[dict(property=p['id'], quick_cmd='python3-vt check.py ' + p['id'], thorough_cmd='python3-vt check.py %s --thorough' % p['id'],
                      technique=TECH, level='proof', level_note=p['_note']) for p in claimed],
         not_applicable=NA,
         notes='One runner (check.py) for all properties; dv/ is the verifier, specs/ the contracts, drivers/ the executable form of the same contracts on the real code (finds the failing input; bounded stand-in where DESIGN.md says so).')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
print(len(claimed), 'checks')
