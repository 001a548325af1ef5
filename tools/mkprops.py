#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, observe=observe, state=state))
exec(open(os.path.join(V, 'tools', 'props_table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = dict(files=p['files'], mechanism=[dict(name=m[0], where=m[1]) for m in p['mech']], hook_needed=None)
        if p['observe']: a['observe_at'] = p['observe']
        if p['state']: a['state'] = [dict(name=s[0], meaning=s[1], where=s[2]) for s in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in P:
    if p['na'] or not os.path.exists(os.path.join(V, 'props', p['id'], 'units.py')):
        na.append(dict(property=p['id'], reason=p['na'] or 'not built yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check ' + p['id'],
                       technique='contract-based deductive verification: CBMC code contracts on the real C functions (goto-instrument --dfcc / assume-guarantee harnesses), discharged by SAT and cvc5',
                       level='proof', level_note=p['note'] or ''))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks: contracts are attached to the unmodified sources by the harnesses in props/, which #include the files of /repo.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
