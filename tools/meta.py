#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below (run by hand when the catalogue changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'src/library/natrium/'
props = []
def P(id, title, statement, over, quant, why, files, mech, level_note=None, technique=None, na=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=[L + f for f in files], mech=[dict(name=a, where=L + b) for a, b in mech], note=level_note, tech=technique, na=na))
exec(open(os.path.join(V, 'tools', 'catalogue.py')).read())
TECH = 'contract-based deductive verification: contracts on the real C++ (clang LLVM IR), every obligation discharged by polynomial normalisation or z3'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
man = dict(version=1, setup_cmd='sh tools/setup.sh', checks=[], not_applicable=[],
    notes='Every check compiles the drivers in /verif/drivers, which include the sources of /repo, to LLVM IR and proves the contracts on that IR with the nvc verifier in /verif/engine. NVC_REPO may point to another tree (default /repo).')
for p in props:
    if p['na']: man['not_applicable'].append(dict(property=p['id'], reason=p['na'])); continue
    man['checks'].append(dict(property=p['id'], quick_cmd='python3 tools/check.py %s quick' % p['id'], thorough_cmd='python3 tools/check.py %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'], technique=p['tech'] or TECH, level='proof', level_note=p['note']))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(man, f, indent=1); f.write('\n')
print(len(man['checks']), 'checks,', len(man['not_applicable']), 'not applicable')
