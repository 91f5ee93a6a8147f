#!/usr/bin/env python3
"""Decide one property: python3 tool/check.py ID

1. translate the functions under contract from /repo's current tree and let Verus discharge every obligation;
2. run the replay harness of the property against the real code (bounded; it looks for a concrete failing
   input when an obligation fails, and covers the bounded remainder labelled as such in the evidence).
"""
import sys, os, json, re, time, threading, subprocess, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import unit, build
from cxxast import Unsupported
ROOT = unit.ROOT
REPO = build.REPO
PROPS = {p['id']: p for p in json.load(open(os.path.join(ROOT, 'props.json')))}

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def known():
    """/verif/known_findings.txt: `finding: property=<id> key=<key> <what>` / `fixed: property=<id> <commit> <what>`"""
    r = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m:
            r.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return r

def fn_lines(text):
    """line number -> enclosing fn"""
    cur, out = '?', []
    for l in text.split('\n'):
        m = re.match(r'\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:open |closed |broadcast |uninterp )*(?:proof |spec |exec )?fn (\w+)', l)
        if m:
            cur = m.group(1)
        out.append(cur)
    return out

def diagnostics(stderr, path, text):
    fl = fn_lines(text)
    src = text.split('\n')
    out = []
    for blk in re.split(r'\n(?=error)', '\n' + stderr):
        m = re.match(r'\s*error(?:\[\w+\])?: (.*)', blk)
        if not m:
            continue
        ln = re.findall(r'--> %s:(\d+)' % re.escape(path), blk)
        if not ln:
            continue
        n = int(ln[0])
        # the clause that failed (second location) when shown
        locs = re.findall(r'^\s*(\d+) \|.*$', blk, re.M)
        marked = re.findall(r'^ *(\d+) *\|(.*)\n *\| *[ |/_]*(?:\^|-)+ *(.*)$', blk, re.M)
        out.append({'message': m.group(1), 'line': n, 'fn': fl[n - 1] if n <= len(fl) else '?', 'text': src[n - 1].strip() if n <= len(src) else '',
                    'block': blk.strip()[:3000], 'rlimit': 'rlimit' in m.group(1) or 'Resource limit' in m.group(1) or 'resource limit' in blk.lower() and 'exceeded' in blk.lower()})
    return out

class Proof:
    """the obligations of one contract unit"""
    def __init__(self, name, cfg, outdir, threads, tier):
        self.name, self.cfg, self.outdir, self.threads, self.tier = name, cfg, outdir, threads, tier
        self.status, self.reason, self.failed = 'undecided', '', []
        self.verified = self.errors = 0
        self.smt = self.wall = 0
        self.info = {}
        self.vac = None
        self.cmd = ''
        self.stderr = ''

    def run(self):
        t0 = time.time()
        try:
            self._run()
        except Unsupported as e:
            self.status, self.reason = 'undecided', 'source outside the translated subset: %s' % e
        except Exception as e:
            self.status, self.reason = 'undecided', 'extraction failed: %s: %s' % (type(e).__name__, str(e)[:500])
        self.wall = time.time() - t0

    def _run(self):
        self.u = u = unit.Unit(os.path.join(ROOT, 'contracts', self.name + '.vc'))
        self.info = b = u.build(REPO, self.cfg)
        self.fns = [(f.qname, f.rname, f.source) for f in u.fns]
        path = os.path.join(self.outdir, self.name + '.rs')
        open(path, 'w').write(b['text'])
        self.path = path
        vt = threading.Thread(target=self._vacuity)
        vt.start()
        rl = u.rlimit
        lim = 240 if self.tier == 'quick' else 900
        r = unit.run_verus(path, rl, self.threads, lim)
        self.take(r)
        if r['status'] == 'failed':
            # retry with more resources before believing a failure
            r2 = unit.run_verus(path, str(4 * float(rl or 10)), self.threads, lim)
            if r2['status'] in ('verified', 'failed'):
                r = r2
                self.take(r)
        vt.join()
        if r['status'] == 'verified':
            self.status = 'proved'
            if self.vac and self.vac['unexpected']:
                self.status, self.reason = 'undecided', 'vacuous contract: false is provable in %s' % self.vac['unexpected'][:3]
            return
        if r['status'] == 'failed':
            d = diagnostics(r['stderr'], path, b['text'])
            real = [x for x in d if not x['rlimit']]
            if b['mismatch']:
                self.status, self.reason = 'undecided', 'annotations do not fit the changed source: %s' % b['mismatch'][:4]
            elif not real:
                self.status, self.reason = 'undecided', 'solver resource limit: %s' % sorted({x['fn'] for x in d})[:6]
            else:
                self.status = 'failed'
            self.failed = real or d
            return
        self.status = 'undecided'
        self.reason = '%s: %s' % (r['status'], (re.findall(r'^error.*(?:\n\s+-->.*)?', r['stderr'], re.M) or [r['stderr'][-300:]])[0])
        if b['mismatch']:
            self.reason += '; annotations do not fit: %s' % b['mismatch'][:3]

    def take(self, r):
        self.cmd, self.stderr = r.get('cmd', ''), r['stderr']
        self.verified, self.errors = r.get('verified', 0), r.get('errors', 0)
        self.smt = r.get('smt_ms') or 0

    def _vacuity(self):
        """false must not be provable at the entry of any function under contract or of any loop body"""
        try:
            n, out, marks = 0, [], []
            bodies = set('\n'.join(self.info['bodies']).split('\n'))
            text = self.info['text']
            start = text.index('// ===== functions under contract')
            head, tail = text[:start], text[start:]
            base = head.count('\n')
            inb = '\n'.join(self.info['bodies'])
            lines = tail.split('\n')
            nb = inb.count('\n') + 2
            for i, l in enumerate(lines):
                out.append(l)
                # an exception that no handler takes is passed on: unreachable when all thrown here have one
                if i < nb and re.fullmatch(r'\s*\{', l) and not lines[i + 1].strip().startswith(('return Err(exc_)', 'exc_pending = Some(exc_)')):
                    out.append('if nondet_bool() { assert(false); }')
                    marks.append(base + len(out))
            p = self.path[:-3] + '_vac.rs'
            open(p, 'w').write(head + '\n'.join(out))
            r = unit.run_verus(p, '4', max(1, self.threads // 2), 240, multi=400)
            d = diagnostics(r['stderr'], p, open(p).read())
            hit = {x['line'] for x in d}
            # a function that ran out of resources did not prove false either
            rl = {x['fn'] for x in d if x['rlimit']}
            fl = fn_lines(open(p).read())
            if r['status'] != 'failed':
                self.vac = {'points': len(marks), 'status': r['status'], 'unexpected': []} if r['status'] != 'verified' else {'points': len(marks), 'status': 'verified', 'unexpected': ['everything']}
                return
            un = [fl[m - 1] for m in marks if m not in hit and fl[m - 1] not in rl]
            self.vac = {'points': len(marks), 'refuted': len([m for m in marks if m in hit]), 'status': 'checked', 'unexpected': un}
        except Exception as e:
            self.vac = {'points': 0, 'status': 'not run: %s' % e, 'unexpected': []}

class Replay:
    """bounded execution of the real code"""
    def __init__(self, p, tier, seed, outdir):
        self.p, self.tier, self.seed, self.outdir = p, tier, seed, outdir
        self.status, self.reason, self.data, self.fails = 'none', '', {}, []

    def build(self):
        try:
            self.exe = build.harness(self.p['harness'], jobs=6)
            self.status = 'built'
        except Exception as e:
            self.status, self.reason = 'error', str(e)[-1500:]

    def run(self, deep=False):
        # deep: the proof did not go through on this tree, so more effort goes into finding a failing input
        if self.status != 'built':
            return
        out = os.path.join(self.outdir, 'replay.json')
        for f in (out, out + '.cur'):
            if os.path.exists(f):
                os.unlink(f)
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, LC_ALL='C.UTF-8', TZ='UTC',
                   REPLAY_BUDGET=str((4 if deep else 1) * self.p.get('budget', 10) if self.tier == 'quick' else self.p.get('budget_thorough', 240)),
                   REPLAY_DEEP='1' if deep or self.tier != 'quick' else '0',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1',
                   REPLAY_TMP=self.outdir)
        try:
            r = subprocess.run([self.exe, self.p['id'], out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=self.outdir,
                               timeout=(280 if deep else 120) if self.tier == 'quick' else 800)
            rc, txt = r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as e:
            rc, txt = 97, 'harness timed out'
        if rc == 0 and os.path.exists(out):
            self.data = json.load(open(out))
            self.fails = [(f['key'], f['case'], '') for f in self.data['failures']]
            self.status = 'ran'
            return
        cur = ''
        if os.path.exists(out + '.cur'):
            cur = open(out + '.cur', 'rb').read().split(b'\0')[0].decode(errors='replace')
        if not cur:
            self.status, self.reason = 'error', 'harness failed to start (rc %d): %s' % (rc, txt[-800:])
            return
        kind = 'hang' if rc == 97 else 'crash'
        m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*|terminate called.*)', txt)
        self.fails = [(kind, cur + ' => ' + (m.group(1) if m else 'exit status %d' % rc), txt[-4000:])]
        self.data = {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'stopped at a %s' % kind, 'samples': [cur[:600]]}
        self.status = 'ran'

def main():
    pid = sys.argv[1]
    p = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    outdir = os.path.join(ROOT, 'build', 'run', pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'build', 'replay'), exist_ok=True)
    rp = Replay(p, tier, seed, outdir) if p.get('harness') else None
    cfgerr = ''
    try:
        cfg = build.config()
    except Exception as e:
        cfg, cfgerr = None, str(e)
    proofs = [Proof(n, cfg, outdir, 4, tier) for n in p.get('units', [])]
    ths = []
    if rp:
        bt = threading.Thread(target=rp.build); bt.start(); ths.append(bt)
    def prove():
        for q in proofs:
            q.run()
    pt = threading.Thread(target=prove); pt.start(); ths.append(pt)
    for t in ths:
        t.join()
    if rp:
        rp.run(deep=any(q.status != 'proved' for q in proofs) and time.time() - t0 < 450)

    kn = known().get(pid, {})
    fresh, listed = [], {}
    for k, case, txt in (rp.fails if rp else []):
        if k in kn:
            listed[k] = case
        else:
            fresh.append((k, case, txt))
    bad = [q for q in proofs if q.status == 'failed']
    und = [q for q in proofs if q.status == 'undecided']
    for q in proofs:
        log('[%s] unit %s: %s %s (%d verified, %d errors, smt %s ms, wall %.1fs) vacuity %s' % (pid, q.name, q.status, q.reason, q.verified, q.errors, q.smt, q.wall, q.vac))
        for x in q.failed[:6]:
            log('    failed obligation %s::%s: %s  [%s]' % (q.name, x['fn'], x['message'], x['text'][:160]))
    if rp:
        log('[%s] replay: %s %s evaluations=%s failures=%d (%d listed)' % (pid, rp.status, rp.reason[-600:], rp.data.get('evaluations'), len(rp.fails), len(listed)))
    undecided_all = (not proofs or und) and (not rp or rp.status != 'ran')

    # evidence
    fully = bool(proofs) and all(q.status == 'proved' for q in proofs)
    cov = {}
    if rp and rp.status == 'ran':
        cov.update(evaluations=rp.data['evaluations'], distinct_nontrivial=rp.data['distinct_nontrivial'], rule=rp.data['rule'], samples=rp.data['samples'][:8] or ['-'])
    if proofs:
        cov.update(obligations=sum(q.verified + q.errors for q in proofs), discharged=sum(q.verified for q in proofs),
                   checker_cmd='; '.join(q.cmd for q in proofs if q.cmd) or 'verus',
                   trusted_base=TRUSTED + p.get('trusted', []),
                   backend='Verus (Z3 as shipped with Verus)', solver_ms={q.name: q.smt for q in proofs},
                   functions_under_contract=[{'unit': q.name, 'function': a, 'verified_as': b, 'file': c} for q in proofs for a, b, c in getattr(q, 'fns', [])],
                   inlined=sorted({str(x) for q in proofs for x in q.info.get('inlined', [])}),
                   extraction_drops=sorted({str(x) for q in proofs for x in q.info.get('drops', [])}),
                   unit_status={q.name: q.status + (': ' + q.reason if q.reason else '') for q in proofs},
                   vacuity={q.name: q.vac for q in proofs},
                   failed_obligations=['%s::%s: %s: %s' % (q.name, x['fn'], x['message'], x['text'][:200]) for q in proofs for x in q.failed])
    if p.get('bounded'):
        cov['bounded_part'] = p['bounded']
    if not fully:
        cov['explanation'] = 'proof not established on this tree; the verdict of this run rests on the bounded replay only'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if fully else ('exploration' if rp and rp.status == 'ran' else 'other'),
          'coverage': cov or {'explanation': 'nothing ran'}, 'assumptions': p.get('assumptions', []) + COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh) + len(bad)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)

    for k in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    if fresh or bad:
        rf = os.path.join(ROOT, 'build', 'replay', pid + '.txt')
        with open(rf, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, p['title']))
            for k, case, txt in fresh[:20]:
                f.write('FAILING INPUT (real code) [%s]\n%s\n%s\n\n' % (k, case, txt))
            for q in bad + und:
                f.write('unit %s: %s %s\n' % (q.name, q.status, q.reason))
                for x in q.failed:
                    f.write('FAILED OBLIGATION %s::%s: %s\n%s\n\n' % (q.name, x['fn'], x['message'], x['block']))
                f.write('verifier output:\n%s\n' % q.stderr[-20000:])
            if rp and rp.status == 'ran':
                f.write('\nrerun: VERIF_SEED=%d VERIF_TIER=%s python3 %s %s\n' % (seed, tier, os.path.abspath(__file__), pid))
        print('VIOLATION property=%s replay=%s%s' % (pid, rf, '' if fresh else ' no-failing-input-found'))
        sys.exit(1)
    if undecided_all or (rp and rp.status == 'error' and not fully):
        log('[%s] no verdict: neither the proof nor the replay could be run on this tree (%s)' % (pid, cfgerr))
        sys.exit(2)
    sys.exit(0)

TRUSTED = [
    'Verus and Z3',
    'clang 18 (parses /repo and resolves types, overloads and templates)',
    'tool/cpp2verus.py: mechanical translation of the clang AST of each function to Verus (what it drops is listed under extraction_drops)',
    'lib/core.rs, lib/strings.rs, lib/streams.rs: assumed contracts of the C++ standard library and of the abstract stream classes (external_body)',
]
COMMON_ASSUMPTIONS = [
    'LP64, char signed 8 bit; machine integers keep their width (overflow of signed and out-of-range index/pointer arithmetic are obligations, unsigned wraps)',
    'no memory allocation failure; no concurrent modification of the objects involved',
    'two pointer or reference arguments of one call do not alias unless the contract says so',
]
if __name__ == '__main__':
    main()
