#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl, props.json and MANIFEST.json."""
import os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
def prop(id, title, statement, text, why, files, mech, over=('inputs',), observe=(), units=(), harness=None, budget=8, budget_thorough=240,
         level='proof', note='', theorems=(), trusted=(), assumptions=(), bounded='', state=()):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=list(files), mech=list(mech), over=list(over), observe=list(observe),
                  units=list(units), harness=harness, budget=budget, budget_thorough=budget_thorough, level=level, note=note, theorems=list(theorems),
                  trusted=list(trusted), assumptions=list(assumptions), bounded=bounded, state=list(state)))
def na(id, title, statement, text, why, files, mech, reason, over=('inputs',)):
    NA.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=list(files), mech=list(mech), over=list(over), observe=[], reason=reason))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_list.py')).read())

TECH = 'contract-based deductive verification (Verus/Z3) of the functions, extracted mechanically from the clang AST of /repo on every run'
def write(path, s):
    p = os.path.join(ROOT, path)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)
lines = []
for p in sorted(P + NA, key=lambda p: p['id']):
    anchors = dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None)
    if p['observe']: anchors['observe_at'] = p['observe']
    if p.get('state'): anchors['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
    lines.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=anchors)))
    assert len(p['title']) <= 80, p['title']
write('properties.jsonl', '\n'.join(lines) + '\n')
write('props.json', json.dumps([{k: p[k] for k in ('id', 'title', 'units', 'harness', 'budget', 'budget_thorough', 'trusted', 'assumptions', 'bounded')} for p in P], indent=1) + '\n')
man = dict(version=1, setup_cmd='python3 tool/setup.py',
    checks=[dict(property=p['id'], quick_cmd='python3 tool/check.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough python3 tool/check.py %s --thorough' % p['id'],
                 technique=TECH, level=p['level'], level_note=p['note'], **({'theorems': p['theorems']} if p['theorems'] else {})) for p in P],
    not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
    notes='No hooks: the verified text is extracted from the unmodified sources. The bounded replay of each check (real code under ASan/UBSan) searches for the concrete input behind a failed obligation; it never counts as proof.')
write('MANIFEST.json', json.dumps(man, indent=1) + '\n')
print(len(P), 'claimed', len(NA), 'not applicable')
