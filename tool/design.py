#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (after the marker line) from props_list.py, contracts/*.vc, seeded/*/meta.json and known_findings.txt."""
import os, re, json, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
def prop(id, title, statement, text, why, files, mech, **k): P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, **k))
def na(id, title, statement, text, why, files, mech, reason, **k): NA.append(dict(id=id, title=title, statement=statement, reason=reason))
exec(open(os.path.join(ROOT, 'tool/props_list.py')).read())
HOW = {}
cur = None
for l in open(os.path.join(ROOT, 'tool/design_how.txt')):
    m = re.match(r'^(C\d\d)\s*$', l)
    if m: cur = m.group(1); HOW[cur] = ''
    elif cur: HOW[cur] += l
MARK = '<!-- generated by tool/design.py from here -->'
def fns(unit):
    out = []
    for l in open(os.path.join(ROOT, 'contracts', unit + '.vc')):
        m = re.match(r'^@fn\s+(\S+)(.*)', l)
        if m:
            rest = re.search(r'\bas\s+(\w+)', m.group(2))
            n = m.group(1)
            for p in ('vmime::utility::encoder::', 'vmime::utility::', 'vmime::net::', 'vmime::security::digest::', 'vmime::security::cert::', 'vmime::'):
                if n.startswith(p): n = n[len(p):]; break
            if n not in out: out.append(n)
    return out
o = ['## The properties one by one\n',
     'Back end for every one: Verus with its Z3. "How" names the specification and the oracle; "theorems" are the lemmas that state the property over the contracts; numbers of obligations and times of the last run are in the evidence.\n']
for p in sorted(P, key=lambda p: p['id']):
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append(p['statement'] + '\n')
    o.append('*Quantified over* ' + p['text'] + '.\n')
    o.append('*How.* ' + HOW.get(p['id'], '').strip() + '\n')
    for u in p.get('units', ()):
        f = fns(u)
        o.append('- unit `%s`: %d functions under contract: %s' % (u, len(f), ', '.join(f)))
    o.append('')
    if p.get('theorems'): o.append('*Theorems:* ' + ', '.join('`%s`' % t for t in p['theorems']) + '.\n')
    n = p.get('note', '').replace(_N, '').strip()
    if n: o.append('*Limits and assumptions.* ' + n + '\n')
    for a in p.get('assumptions', ()): o.append('- assumed: ' + a)
    if p.get('assumptions'): o.append('')
    if p.get('bounded'): o.append('*Bounded, not proved.* ' + p['bounded'] + '\n')
    o.append('*Replay.* `replay/%s.cpp`.\n' % p['harness'])
if NA:
    o.append('## Not applicable\n')
    for p in NA: o.append('- %s %s: %s' % (p['id'], p['title'], p['reason']))
    o.append('')
o.append('## Planted bugs and what catches them\n')
o.append('Each was confirmed with `tool/seed.py ID --check`: the patch applies and builds, the tests of the repository pass, the demonstration fails with it only, and the check of its property exits 1.\n')
CA = {}
f = os.path.join(ROOT, 'tool/design_caught.txt')
if os.path.exists(f):
    for l in open(f):
        if l.strip(): a, b = l.strip().split(' ', 1); CA[a] = b
o += ['| bug | needs | breaks | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    o.append('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|'), CA.get(i, 'check ' + m['property'])))
o.append('')
o.append('## Defects found by the work\n')
o.append('Repaired by `fix:` commits in /repo, or recorded as findings (from known_findings.txt):\n')
for l in open(os.path.join(ROOT, 'known_findings.txt')):
    if l.startswith(('fixed:', 'finding:')): o.append('- ' + l.strip().replace('property=', ''))
o.append('')
path = os.path.join(ROOT, 'DESIGN.md')
s = open(path).read()
head = s.split(MARK)[0].rstrip('\n')
new = head + '\n\n' + MARK + '\n\n' + '\n'.join(o)
if new != s: open(path, 'w').write(new)
print(len(new.splitlines()), 'lines; without how:', [p['id'] for p in P if p['id'] not in HOW])
