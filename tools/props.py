#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, claim=True, na=None, level='proof', note='', observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na, level=level, note=note, observe=observe or [], state=state or []))
exec(open(os.path.join(HERE, 'tools', 'proptable.py')).read())
TECH = 'contract-based deductive verification: weakest-precondition style symbolic execution of the real C++ bodies with inferred loop invariants, obligations discharged by Z3/cvc5; concrete replay'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash /verif/tools/setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'], 'technique': TECH, 'level': p['level'], 'level_note': p['note']} for p in P if p['claim']],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if not p['claim']],
       'notes': 'No hooks: contracts live in /verif (contracts/*.py, tu/*.cpp) and are checked against clang\'s AST of /repo\'s headers on every run. The concrete replay harnesses (harness/*.cpp) are bounded and never counted as proof.'}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(man['checks']), 'claimed')
