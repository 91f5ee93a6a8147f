"""Build the code under test from /repo's current tree (objects cached by content in /verif/build)."""
import os, json, fnmatch, subprocess, hashlib, sys, glob, shutil, re, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
LIBS = ['-lgsasl', '-lgnutls', '-licuuc', '-licudata', '-licui18n', '-lpthread']
CXX = ['g++', '-std=c++17', '-DVMIME_STATIC', '-w', '-O0', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']
CMAKE = ['-Wno-dev', '-DCMAKE_BUILD_TYPE=Debug', '-DVMIME_BUILD_TESTS=OFF', '-DVMIME_BUILD_SAMPLES=OFF', '-DVMIME_BUILD_SHARED_LIBRARY=OFF',
         '-DVMIME_BUILD_STATIC_LIBRARY=ON', '-DVMIME_BUILD_DOCUMENTATION=OFF', '-DVMIME_SENDMAIL_PATH=/usr/sbin/sendmail',
         '-DVMIME_TLS_SUPPORT_LIB=gnutls', '-DVMIME_CHARSETCONV_LIB=icu']

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b'\0')
    return m.hexdigest()[:24]

def config():
    """configure vmime (generates config.hpp / export-static.hpp); returns the cmake build dir"""
    ins = [os.path.join(REPO, 'CMakeLists.txt')] + sorted(glob.glob(REPO + '/cmake/*')) + sorted(glob.glob(REPO + '/src/vmime/*.in'))
    k = _h(*[open(f, 'rb').read() for f in ins if os.path.isfile(f)])
    d = os.path.join(BUILD, 'cfg-' + k)
    if os.path.exists(os.path.join(d, 'src/vmime/config.hpp')) and os.path.exists(d + '.ok'):
        return d
    os.makedirs(BUILD, exist_ok=True)
    tmp = d + '.tmp%d' % os.getpid()
    p = subprocess.run(['cmake', '-S', REPO, '-B', tmp, '-G', 'Ninja'] + CMAKE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or not os.path.exists(tmp + '/src/vmime/config.hpp'):
        raise RuntimeError('cmake configure failed: ' + p.stdout.decode(errors='replace')[-1500:])
    if not os.path.exists(d):
        os.rename(tmp, d)
    open(d + '.ok', 'w').close()
    return d

def headers_hash(cfg):
    m = hashlib.sha256()
    for base in (os.path.join(REPO, 'src'), os.path.join(cfg, 'src')):
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.hpp', '.h', '.inl')):
                    m.update(os.path.relpath(os.path.join(dp, f), base).encode())
                    m.update(open(os.path.join(dp, f), 'rb').read())
    return m.hexdigest()

def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')

def all_sources():
    r = []
    for dp, dn, fn in os.walk(os.path.join(REPO, 'src')):
        for f in fn:
            if f.endswith('.cpp'):
                r.append(os.path.relpath(os.path.join(dp, f), REPO))
    return sorted(r)

def compile_objs(srcs, cfg, flags0, hh, jobs=8, special={}):
    inc = ['-I' + REPO, '-I' + REPO + '/src', '-I' + cfg + '/src']
    od = os.path.join(BUILD, 'obj')
    os.makedirs(od, exist_ok=True)
    objs, todo = [], []
    for s in srcs:
        flags = special.get(s, flags0)
        p = s if os.path.isabs(s) else os.path.join(REPO, s)
        k = _h(open(p, 'rb').read(), hh, ' '.join(flags), s)
        o = os.path.join(od, k + '.o')
        objs.append(o)
        if not os.path.exists(o):
            todo.append((p, o, flags))
    def one(x):
        p, o, flags = x
        t = o + '.%d.tmp' % os.getpid()
        rc, out = _run(flags + inc + ['-c', p, '-o', t])
        if rc == 0:
            os.rename(t, o)
        return rc, out, p
    with ThreadPoolExecutor(jobs) as ex:
        for rc, out, p in ex.map(one, todo):
            if rc != 0:
                raise RuntimeError('compilation of %s failed:\n%s' % (p, out[-2000:]))
    return objs, len(todo)

def groups(srcs, n=24):
    """unity groups: balanced by size, depends only on the list of files and the recorded sizes"""
    srcs = sorted(srcs)
    w = [min(os.path.getsize(os.path.join(REPO, s)) // 4096 * 4096, 40960) + 6000 for s in srcs]
    tot, acc, g = sum(w), 0, [[] for _ in range(n)]
    for s, x in zip(srcs, w):
        g[min(n - 1, acc * n // tot)].append(s)
        acc += x
    return [x for x in g if x]

def lib_objs(cfg, hh, flags, jobs=8):
    """every source file of /repo/src, compiled in unity groups (one file at a time where a group does not compile)"""
    inc = ['-I' + REPO, '-I' + REPO + '/src', '-I' + cfg + '/src']
    od = os.path.join(BUILD, 'obj')
    os.makedirs(od, exist_ok=True)
    def one(g):
        k = _h(hh, ' '.join(flags), *[x for s in g for x in (s, open(os.path.join(REPO, s), 'rb').read())])
        o = os.path.join(od, k + '.o')
        if os.path.exists(o):
            return [o]
        u = o[:-2] + '.%d.cpp' % os.getpid()
        t = u[:-4] + '.tmp'
        open(u, 'w').write(''.join('#include "%s"\n' % os.path.join(REPO, s) for s in g))
        rc, out = _run(flags + inc + ['-c', u, '-o', t])
        os.unlink(u)
        if rc == 0:
            os.rename(t, o)
            return [o]
        if len(g) == 1:
            raise RuntimeError('compilation of %s failed:\n%s' % (g[0], out[-2000:]))
        r = []
        for s in g:
            r += one([s])
        return r
    with ThreadPoolExecutor(jobs) as ex:
        return [o for r in ex.map(one, groups(all_sources())) for o in r]

def harness(name, asan=True, jobs=8):
    """build /verif/replay/<name>.cpp against the current tree; returns the executable"""
    cfg = config()
    hh = headers_hash(cfg)
    flags = CXX + (ASAN if asan else [])
    src = os.path.join(ROOT, 'replay', name + '.cpp')
    hsrc = b''.join(open(f, 'rb').read() for f in sorted(glob.glob(ROOT + '/replay/*.hpp')))
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    hflags = flags + ['-DHSRC=' + hashlib.sha256(hsrc).hexdigest()[:12]]
    with ThreadPoolExecutor(1) as ex:
        f = ex.submit(compile_objs, [src], cfg, flags, hh, 1, {src: hflags})
        objs = lib_objs(cfg, hh, flags, jobs)
        objs = f.result()[0] + objs
    exe = os.path.join(BUILD, 'bin', name + '-' + _h(*objs))
    if os.path.exists(exe):
        return exe
    rc, out = _run(['g++'] + (ASAN if asan else []) + objs + ['-o', exe + '.tmp'] + LIBS)
    if rc != 0:
        raise RuntimeError('link failed: ' + out[-3000:])
    os.rename(exe + '.tmp', exe)
    return exe

if __name__ == '__main__':
    t = time.time()
    print(harness(sys.argv[1], jobs=8), '%.1fs' % (time.time() - t))
