#!/usr/bin/env python3
"""Development helper for planted bugs: seed.py ID [--check] [--replan]
reads seeded/ID/{edit.py-style spec in tool/seeds.json? no: edits below}, builds a scratch copy, confirms and writes patch.diff/demo.sh/meta.json"""
import sys, os, subprocess, json, shutil, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds for the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
lib=$(ls "$PWD"/_build/build/lib/libvmime.a)
g++ -std=c++17 -O0 -w -DVMIME_STATIC -I"$PWD" -I"$PWD/src" -I"$PWD/_build/src" "$d/demo.cpp" -o "$t/demo" "$lib" -lgsasl -lgnutls -licuuc -licudata -licui18n -lpthread || { rm -rf "$t"; exit 3; }
cd "$t"
LC_ALL=C.UTF-8 TZ=UTC timeout 60 ./demo
rc=$?
rm -rf "$t"
exit $rc
'''
def sh(cmd, cwd=None, env=None, timeout=1800):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def main():
    sid = sys.argv[1]
    d = os.path.join(ROOT, 'seeded', sid)
    S = '/tmp/seedrepo'
    CM = ('cmake -S %s -B %s/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DVMIME_BUILD_TESTS=ON -DVMIME_BUILD_SAMPLES=OFF -DVMIME_BUILD_DOCUMENTATION=OFF '
          '-DVMIME_BUILD_STATIC_LIBRARY=ON -DVMIME_SENDMAIL_PATH=/usr/sbin/sendmail -DVMIME_TLS_SUPPORT_LIB=gnutls -DVMIME_CHARSETCONV_LIB=icu && ninja -C %s/_build' % (S, S, S))
    if not os.path.isdir(S):
        sh('git clone -q /repo %s' % S)
        rc, o = sh(CM); assert rc == 0, o[-2000:]
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (S, S))
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    spec = json.load(open(os.path.join(d, 'meta.json')))
    edits = spec.pop('edits', None)
    if edits:
        sh('git -C %s checkout -q -- .' % S)
        for f, old, new in edits:
            t = open(os.path.join(S, f)).read()
            assert t.count(old) == 1, (f, t.count(old))
            open(os.path.join(S, f), 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % S)[1])
        json.dump(spec, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    sh('git -C %s checkout -q -- .' % S)
    rc, o = sh('git -C %s apply %s' % (S, os.path.join(d, 'patch.diff')))
    assert rc == 0, o
    if '--nobuild' not in sys.argv:
        rc, o = sh(CM); assert rc == 0, o[-2000:]
        rc, o = sh('rm -rf /tmp/seedres; mkdir -p /tmp/seedres; rm -f /tmp/vmime_test_[0-9]*; . /opt/vp/env.sh; python3 /opt/vp/run_cppunit.py %s/_build /tmp/seedres && python3 /opt/vp/results.py /tmp/seedres/o.json lines:/tmp/seedres/results.txt' % S)
        try:
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); got = set(json.load(open('/tmp/seedres/o.json'))['passed'])
            print('tests broken:', sorted(base - got)[:5])
        except Exception as e: print('tests:', e, o[-500:])
        rc, o = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo on /repo:', rc, o[-300:]); r0 = rc
        rc, o = sh('bash %s/demo.sh' % d, cwd=S); print('demo on seeded:', rc, o[-300:])
        print('DEMO OK' if r0 == 0 and rc not in (0, 3) else 'DEMO BAD')
    if '--check' in sys.argv:
        rc, o = sh('python3 %s/tool/check.py %s' % (ROOT, spec['property']), env=dict(os.environ, VERIF_REPO=S), cwd=ROOT)
        print('check:', rc, o[-1800:])
    sh('git -C %s checkout -q -- .' % S)
main()
