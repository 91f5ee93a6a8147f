"""Contract units: parse /verif/contracts/*.vc, assemble the Verus file, run Verus."""
import re, os, json, subprocess, time, sys, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import cxxast, cpp2verus, gencasts
from cxxast import Unsupported

class Fn:
    def __init__(self, qname, sig, rname, source):
        self.qname, self.sig, self.rname, self.source = qname, sig, rname, source
        self.requires = self.ensures = self.fdecreases = ''
        self.loops = {}
        self.blocks = {}
        self.nifs = None
        self.hints = {}
        self.hintcount = {}
        self.throws = self.nothis = self.mutthis = self.constthis = False
        self.iterbase, self.paramtypes, self.localtypes = {}, {}, {}
        self.outptrs = set()
        self.attrs, self.extraparams, self.extraargs = [], [], []
        self.rettype = self.retbase = None
        self.nodecreases = False
        self.node = None
        self.is_ctor_of = None
        self.nl = None
        self.assumed = False
        self.isolate = False
    def outptr(self, n):
        return n in self.outptrs
    def nloops(self):
        return self.nl if self.nl is not None else (max(self.loops) if self.loops else 0)

class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.sources, self.fns, self.uses = [], [], []
        self.constfiles = []
        self.rust, self.rust_post = [], []
        self.structs, self.fields, self.extra_fields, self.nostruct = [], {}, {}, set()
        self.types, self.externs, self.methods = [], {}, {}
        self.excs, self.props = [], []
        self.inline_special = {}
        self.objs = set()
        self.mutobjs = set()
        self.ctors, self.makes = {}, []
        self.propobj = '&this.props'
        self.rlimit = None
        self.weakinput = False
        self.nocast = []
        self.parse(open(path).read())

    def parse(self, txt):
        lines = txt.split('\n')
        i = 0
        fn = None
        src = None
        def block(i):
            b = []
            while i < len(lines) and not lines[i].startswith('@'):
                b.append(lines[i]); i += 1
            return '\n'.join(b).rstrip() + '\n', i
        while i < len(lines):
            l = lines[i]; i += 1
            if not l.startswith('@'):
                continue
            d, _, a = l[1:].partition(' ')
            a = a.strip()
            if d == 'source':
                src = a
                if a not in self.sources:
                    self.sources.append(a)
            elif d == 'constants':
                self.constfiles.append(a)
            elif d == 'use':
                self.uses += a.split()
            elif d == 'include':
                p = os.path.join(os.path.dirname(self.path), a)
                self.rust.append(open(p).read())
            elif d == 'rust':
                b, i = block(i); self.rust.append(b)
            elif d == 'rustpost':
                b, i = block(i); self.rust_post.append(b)
            elif d == 'struct':
                m = re.fullmatch(r'(\S+) as (\w+)( nostruct)?', a)
                self.structs.append((m.group(1), m.group(2)))
                if m.group(3):
                    self.nostruct.add(m.group(2))
            elif d == 'field':
                m = re.fullmatch(r'(\w+)\.(\w+) (\S+)(?: (\S+))?(?: (\S+))?', a)
                self.fields[(m.group(1), m.group(2))] = [x for x in m.groups()[2:] if x]
            elif d == 'extrafield':
                m = re.fullmatch(r'(\w+)\.(\w+) (\S+)', a)
                self.extra_fields.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
            elif d == 'type':
                l_, _, r_ = a.rpartition(' = ')
                self.types.append((l_, r_))
            elif d == 'ctor':
                m = re.fullmatch(r'(\w+) (\d+) = (\w+)((?: \w+)*)', a)
                self.ctors[(m.group(1), int(m.group(2)))] = (m.group(3), 'stru:' + m.group(1), m.group(4).split())
            elif d == 'make':
                l_, _, r_ = a.rpartition(' = ')
                p = r_.split()
                self.makes.append((l_, (p[0], p[1], p[2:])))
            elif d == 'obj':
                self.objs.add(a)
            elif d == 'mutobj':      # a nullable handle of an object whose state is modelled
                self.objs.add(a)
                self.mutobjs.add(a)
            elif d == 'propobj':
                self.propobj = a
            elif d == 'weakinput':
                # input streams that may return 0 bytes although more will come (sockets, filters)
                self.weakinput = True
            elif d == 'nocast':
                self.nocast += a.split()
            elif d == 'rlimit':
                self.rlimit = a
            elif d == 'exc':
                self.excs += a.split()
            elif d == 'prop':
                self.props += a.split()
            elif d in ('extern', 'method'):
                n, _, r = a.partition(' = ')
                p = r.split()
                (self.externs if d == 'extern' else self.methods)[n.strip()] = (p[0], p[1], p[2:])
            elif d == 'fn':
                m = re.fullmatch(r'(\S+(?: \w+)?)(?:\s+~(.*)~)?\s+as\s+(\w+)', a)
                fn = Fn(m.group(1), m.group(2), m.group(3), src)
                self.fns.append(fn)
            elif d in ('requires', 'ensures', 'decreases'):
                b, i = block(i)
                b = (a + '\n' + b) if a else b
                setattr(fn, 'fdecreases' if d == 'decreases' else d, getattr(fn, 'fdecreases' if d == 'decreases' else d) + b)
            elif d == 'loop':
                p = a.split(None, 2)
                b, i = block(i)
                if len(p) > 2:
                    b = p[2] + '\n' + b
                lp = fn.loops.setdefault(int(p[0]), {})
                lp[p[1]] = lp.get(p[1], '') + b
            elif d == 'block':
                p = a.split()
                b, i = block(i)
                lp = fn.blocks.setdefault(int(p[0]), {})
                lp[p[1]] = lp.get(p[1], '') + b
            elif d == 'ifs':
                fn.nifs = int(a)
            elif d == 'hint':
                b, i = block(i)
                fn.hints[a] = fn.hints.get(a, '') + b
            elif d == 'throws':
                fn.throws = True
            elif d == 'isolate':
                fn.isolate = True
            elif d == 'nothis':
                fn.nothis = True
            elif d == 'constthis':
                fn.constthis = True
            elif d == 'mutthis':
                fn.mutthis = True
            elif d == 'iterbase':
                x, _, y = a.partition(' = '); fn.iterbase[x] = y
            elif d == 'paramtype':
                x, _, y = a.partition(' = '); fn.paramtypes[x] = y
            elif d == 'local':
                x, _, y = a.partition(' = '); fn.localtypes[x] = y
            elif d == 'outptr':
                fn.outptrs.add(a)
            elif d == 'attr':
                fn.attrs.append(a)
            elif d == 'extraparam':
                fn.extraparams.append(a)
            elif d == 'extraarg':
                fn.extraargs.append(a)
            elif d == 'rettype':
                fn.rettype = a
            elif d == 'retbase':
                fn.retbase = a
            elif d == 'loops':
                fn.nl = int(a)
            elif d == 'unit':
                pass
            else:
                raise SystemExit('%s: unknown directive @%s' % (self.path, d))

    def build(self, repo, cfgdir):
        """-> dict(text, fns, drops, mismatch, inlined)"""
        trs = []
        lits, tables, structs, excs, props = {}, {}, {'SPair': [('first', 'str'), ('second', 'str')]}, set(), set()
        drops, mism, inl, bodies = [], [], [], []
        cmaps = {}
        cstrs = set()
        consttus = [cxxast.TU(repo, s, cfgdir) for s in self.constfiles]
        for s in self.sources:
            tu = cxxast.TU(repo, s, cfgdir)
            tr = cpp2verus.Translator(tu, self)
            tr.lits, tr.tables, tr.structs, tr.excs, tr.props = lits, tables, structs, excs, props
            tr.cmaps = cmaps
            tr.cstrs = cstrs
            tr.consttus = consttus
            trs.append((s, tu, tr))
        main = trs[0][2]
        for q, r in self.structs:
            for s, tu, tr in trs:
                tr.add_struct(q, r)
        for s, tu, tr in trs:
            tr.build_structs(len(trs) > 1)
        allst = {}
        for s, tu, tr in trs:
            for r, fs in tr.structs.items():
                if r in allst and allst[r] != fs:
                    raise Unsupported('class %s differs between translation units' % r)
                allst[r] = fs
        for q, r in self.structs:
            if r not in allst:
                raise Unsupported('class %s not found' % q)
        for s, tu, tr in trs:
            for q, r in self.structs:
                tr.structs[r] = allst[r]
        for f in self.fns:
            f.hintcount = {}
            f.nodecreases = False
            for s, tu, tr in trs:
                if s != f.source:
                    continue
                l = tu.find_func(f.qname, f.sig)
                if len(l) != 1:
                    raise Unsupported('function %s %s: %d definitions found in %s' % (f.qname, f.sig or '', len(l), s))
                tr.fn_signature(f, l[0])
                if f.is_ctor:
                    f.is_ctor_of = f.cls
        for f in self.fns:
            for s, tu, tr in trs:
                if s == f.source:
                    bodies.append(tr.translate(f))
        for s, tu, tr in trs:
            drops += tr.drops; mism += tr.mismatch; inl += tr.inlined
        pre = main.prelude()
        libs = ['core'] + self.uses
        parts = ['#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, non_snake_case, unreachable_code)]',
                 'use vstd::prelude::*;', 'use vstd::slice::*;', 'use vstd::arithmetic::div_mod::*;', 'use vstd::seq_lib::*;', 'verus! {']
        lib = [open(os.path.join(ROOT, 'lib', u + '.rs')).read() for u in libs]
        if self.weakinput:
            a = '            n == 0 && count > 0 ==> final(self).hit(),\n'
            n = [x.count(a) for x in lib]
            assert sum(n) == 1
            lib = [x.replace(a, '') for x in lib]
        gc = gencasts.gen()
        for n in self.nocast:      # provided by the unit itself, with a different (verified) contract
            gc = re.sub(r'(?m)^pub fn %s\(.*\n' % n, '', gc)
        lib.insert(1, gc)
        parts += lib
        parts.append('// ===== generated from the source: literals, tables, types')
        parts.append(pre)
        parts.append('// ===== specification')
        parts += self.rust
        parts.append('// ===== functions under contract (translated from /repo)')
        parts += bodies
        parts += self.rust_post
        parts.append('} // verus!\nfn main() {}')
        return {'text': '\n'.join(parts) + '\n', 'drops': sorted(set(drops)), 'mismatch': mism, 'inlined': sorted(set(inl)),
                'bodies': bodies, 'libtext': '\n'.join(lib)}

def run_verus(path, rlimit=None, threads=4, timeout=600, extra=(), multi=3):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--triggers-mode', 'silent', '--multiple-errors', str(multi), '--num-threads', str(threads)]
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    cmd += list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(path), env=dict(os.environ, RUST_MIN_STACK='536870912'))
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'wall': time.time() - t0, 'stderr': 'verus timed out after %ds' % timeout, 'cmd': ' '.join(cmd)}
    out, err = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    r = {'wall': time.time() - t0, 'stderr': err, 'cmd': ' '.join(cmd)}
    try:
        js = json.loads(out[out.index('{'):])
    except Exception:
        r['status'] = 'error'
        return r
    vr = js.get('verification-results', {})
    r['results'] = vr
    r['verified'] = vr.get('verified', 0)
    r['errors'] = vr.get('errors', 0)
    tm = js.get('times-ms', {})
    r['smt_ms'] = tm.get('smt', {}).get('total') if isinstance(tm.get('smt'), dict) else None
    r['times'] = {k: v for k, v in tm.items() if not isinstance(v, (list, dict))}
    if vr.get('success'):
        r['status'] = 'verified'
    elif vr.get('encountered-vir-error') or ('verified' not in vr):
        r['status'] = 'error'
    else:
        r['status'] = 'failed' if r['errors'] else 'error'
    return r
