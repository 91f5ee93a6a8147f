#!/usr/bin/env python3
"""development helper: build a unit and run Verus on it, printing errors"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit
name = sys.argv[1]
repo = os.environ.get('REPO', '/repo'); cfg = os.environ.get('CFG', '/tmp/cfg')
u = unit.Unit(os.path.join(unit.ROOT, 'contracts', name + '.vc'))
b = u.build(repo, cfg)
os.makedirs('/tmp/dev', exist_ok=True)
p = '/tmp/dev/%s.rs' % name
open(p, 'w').write(b['text'])
for m in b['mismatch']: print('MISMATCH', m)
if '-v' in sys.argv:
    for d in b['drops']: print('drop', d)
    print('inlined', b['inlined'])
if '-p' in sys.argv:
    print('\n'.join(b['bodies'])); sys.exit()
rl = u.rlimit
for a in sys.argv[2:]:
    if a.startswith('-r'): rl = a[2:]
r = unit.run_verus(p, rl, threads=8, extra=[a for a in sys.argv[2:] if a.startswith('--')])
print(r['stderr'][-9000:] if '-t' in sys.argv else r['stderr'][:9000])
print(r['status'], r.get('verified'), r.get('errors'), 'smt', r.get('smt_ms'), 'wall %.1f' % r['wall'])
