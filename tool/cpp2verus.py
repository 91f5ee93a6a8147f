"""cpp2verus: mechanical translation of vmime C++ functions (clang JSON AST of the code in
/repo) into Verus Rust, with contracts spliced in from a sidecar file.  Anything the
translator does not know raises Unsupported: nothing is silently approximated, except the
drops recorded in self.drops (progress callbacks, locale imbue, reserve())."""
import re, zlib, json
from cxxast import Unsupported, FUNC_KINDS

KW = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try spec proof exec ghost tracked requires ensures invariant decreases forall exists choose old assert assume open closed int nat is has via when recommends'.split())

INT = {'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True),
       'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'usize': (64, False), 'ch': (8, True)}
DROPT = ('ctype', 'progressListener', 'locale', 'tracer', 'timeoutHandler', 'allocator')
PASS = ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'FullExpr',
        'SubstNonTypeTemplateParmExpr')

class V:
    __slots__ = ('t', 'ty', 'c', 'base', 'own', 'zt', 'pure', 'extra')
    def __init__(self, t, ty, c=None, base=None, own=False, zt=False, extra=None):
        self.t, self.ty, self.c, self.base, self.own, self.zt, self.extra = t, ty, c, base, own, zt, extra
    def __repr__(self):
        return 'V(%r,%r,base=%r)' % (self.t, self.ty, self.base)

def crc(s):
    return zlib.crc32(s.encode('utf-8', 'surrogateescape')) & 0xffffffff

def rustty(ty):
    if ty == 'ch':
        return 'u8'
    if ty in ('str', 'oss', 'iss'):
        return 'Vec<u8>'
    if ty == 'void':
        return '()'
    if ty == 'in':
        return 'InStream'
    if ty == 'out':
        return 'OutStream'
    if ty == 'props':
        return 'Props'
    if ty.startswith('vec:'):
        return 'Vec<%s>' % rustty(ty[4:])
    if ty.startswith('arr:'):
        e, n = ty[4:].rsplit(':', 1)
        return 'Vec<%s>' % rustty(e)
    if ty.startswith('iter:') or ty.startswith('ptr:'):
        return 'usize'
    if ty.startswith('stru:'):
        return ty[5:]
    if ty in INT or ty == 'bool':
        return ty
    if ty.startswith('opaque:'):
        return 'Opaque'
    raise Unsupported('no rust type for ' + ty)

def elem(ty):
    if ty == 'str':
        return 'ch'
    if ty.startswith('vec:'):
        return ty[4:]
    if ty.startswith('arr:'):
        return ty[4:].rsplit(':', 1)[0]
    if ty.startswith('iter:'):
        return ty[5:]
    if ty.startswith('ptr:'):
        return ty[4:]
    raise Unsupported('no element type for ' + ty)

SCALAR = lambda ty: ty in INT or ty == 'bool'
COPY = lambda ty: SCALAR(ty) or ty.startswith('iter:') or ty.startswith('ptr:')

class FnInfo:
    pass

class Translator:
    def __init__(self, tu, unit):
        self.tu = tu
        self.unit = unit
        self.drops = []
        self.lits = {}       # name -> bytes
        self.tables = {}     # name -> (values, ty)
        self.structs = {'SPair': [('first', 'str'), ('second', 'str')]}    # rust name -> [(field, ty)]
        self.structq = {}    # qname -> rust name
        self.fieldover = unit.fields
        self.excs = set()
        self.props = set()
        self.fninfo = {}     # (qname, sig) -> FnInfo
        self.mismatch = []
        self.inlined = []
        self.depth_inline = 0
        self.constpairs = {}
        self.cmaps = {}
        self.cstrs = set()

    # ---------- types
    def mapty(self, tj):
        s = tj.get('desugaredQualType') or tj['qualType'] if isinstance(tj, dict) else tj
        return self.mapts(s, tj)
    def mapts(self, s, tj=None):
        s0 = s
        s = s.strip()
        for sub, to in self.unit.types:
            if re.fullmatch(sub, s):
                return to
        if s.endswith('&&'):
            s = s[:-2].strip()
        if s.endswith('&'):
            s = s[:-1].strip()
        ch = True
        while ch:
            ch = False
            for q in ('const', 'volatile'):
                if s.startswith(q + ' '):
                    s = s[len(q) + 1:].strip(); ch = True
                if s.endswith(' ' + q) or s.endswith('*' + q):
                    s = s[:-len(q)].strip(); ch = True
        for sub, to in self.unit.types:
            if re.fullmatch(sub, s):
                return to
        m = {'bool': 'bool', '_Bool': 'bool', 'char': 'ch', 'unsigned char': 'u8', 'signed char': 'i8', 'short': 'i16',
             'unsigned short': 'u16', 'int': 'i32', 'unsigned int': 'u32', 'long': 'i64', 'unsigned long': 'usize',
             'long long': 'i64', 'unsigned long long': 'usize', 'void': 'void', 'byte_t': 'u8', 'size_t': 'usize', 'ssize_t': 'i64',
             'std::size_t': 'usize', 'std::ptrdiff_t': 'i64', 'vmime_uint32': 'u32', 'vmime_uint64': 'usize', 'vmime_uint16': 'u16', 'vmime_uint8': 'u8',
             'vmime_char': 'i8', 'vmime_int8': 'i8', 'vmime_int16': 'i16', 'vmime_int32': 'i32', 'vmime_int64': 'i64'}
        if s in m:
            return m[s]
        if re.search(r'basic_string(_view)?<char', s) and '__normal_iterator' not in s and not s.startswith('std::vector') and 'map<' not in s and 'pair<' not in s and not s.endswith(']') and 'shared_ptr' not in s and 'list<' not in s:
            return 'str'
        if s in ('string', 'std::string', 'vmime::string'):
            return 'str'
        if '__normal_iterator' in s or s.endswith('::iterator') or s.endswith('::const_iterator'):
            if 'basic_string<char' in s or 'string::' in s:
                return 'iter:ch'
            mm = re.search(r'vector<(.*?)(, std::allocator.*)?>\s*>?$', s) or re.match(r'(?:std::)?(?:__cxx11::)?list<(.*?)(, std::allocator.*)?>\s*::(?:const_)?iterator$', s)
            if mm:
                return 'iter:' + self.mapts(mm.group(1))
            mm = re.search(r'__normal_iterator<\s*(?:const )?(.*?) ?\*', s)
            if mm:
                return 'iter:' + self.mapts(mm.group(1))
        mm = re.match(r'(?:std::)?_List_(?:const_)?iterator<(.*)>$', s)
        if mm:
            return 'iter:' + self.mapts(mm.group(1))
        if re.match(r'(std::)?_Rb_tree_const_iterator<(std::)?pair<const [\w ]+, [\w ]+>>$', s):
            return 'iter:cme'
        if 'basic_istringstream' in s or s == 'std::istringstream':
            return 'iss'
        if 'basic_ostringstream' in s or s == 'std::ostringstream' or 'ostringstream' in s:
            return 'oss'
        if s.endswith(']'):
            mm = re.fullmatch(r'(.*?)\[(\d+)\]', s)
            if mm:
                return 'arr:%s:%s' % (self.mapts(mm.group(1)), mm.group(2))
            mm = re.fullmatch(r'(.*?)\[(\d+)\](\[\d+\].*)', s)
            if mm:
                return 'arr:%s:%s' % (self.mapts(mm.group(1) + mm.group(3)), mm.group(2))
            raise Unsupported('type ' + s)
        for d in DROPT:
            if re.search(r'\b%s\b' % d, s) and not s.startswith('std::vector'):
                return 'drop'
        mm = re.fullmatch(r'(std::)?(?:__cxx11::)?(?:vector|list)<(.*)>', s)
        if mm:
            return 'vec:' + self.mapts(mm.group(2))
        mm = re.fullmatch(r'(\w+) ?\(\*\)\(([^,()]*)\)', s)
        if mm:
            return 'fn:%s:%s' % (self.mapts(mm.group(2)), self.mapts(mm.group(1)))
        if s.endswith('*'):
            inner = s[:-1].strip()
            return 'ptr:' + self.mapts(inner)
        if re.search(r'\b(\w*[iI]nputStream|inputStream\w*)\b', s) and not s.startswith('std::'):
            if s.split('::')[-1] in self.structq.values():
                return 'stru:' + s.split('::')[-1]
            if s.split('::')[-1] in ('inputStream', 'seekableInputStream'):
                return 'in'
        if s.split('::')[-1] in ('outputStream',):
            return 'out'
        mm = re.fullmatch(r'(std::|vmime::)?(shared_ptr|unique_ptr|scoped_ptr)<(.*)>', s)
        if mm:
            return self.mapts(mm.group(3))
        if s.split('::')[-1] == 'propertySet' and not 'propertySet' in self.structq.values():
            return 'props'
        for q, r in self.structq.items():
            if s == q or q.endswith('::' + s):
                return 'stru:' + r
        # typedefs (array element types are not desugared by clang)
        for q, l in self.tu.decls.items():
            if (q == s or q.endswith('::' + s)) and l and l[0].get('kind') in ('TypedefDecl', 'TypeAliasDecl'):
                t = l[0]['type']
                t = t.get('desugaredQualType') or t['qualType']
                if t != s:
                    return self.mapts(t)
        # enums
        for q, l in self.tu.decls.items():
            if (q == s or q.endswith('::' + s)) and l and l[0].get('kind') == 'EnumDecl':
                return 'i32'
        raise Unsupported('type %s' % s0)

    # ---------- registration
    def canon(self, node):
        """FnInfo for a callee decl node, if under contract"""
        qn = self.tu.qname.get(node['id'])
        sig = node.get('type', {}).get('qualType', '')
        for f in self.unit.fns:
            if f.qname == qn and (f.sig is None or f.sig in sig):
                return f
        return None

    def add_struct(self, qname, rname):
        self.structq[qname] = rname
    def build_structs(self, partial=False):
        for q, r in list(self.structq.items()):
            rec = self.tu.records.get(q)
            if rec is None and partial:
                continue      # class not visible in this TU: another TU provides it
            if rec is None:
                raise Unsupported('class %s not found' % q)
            fs = []
            for c in rec.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    over = self.unit.fields.get((r, c['name']))
                    try:
                        ty = over[0] if over else self.mapty(c['type'])
                    except Unsupported:
                        ty = 'drop'
                    if ty == 'drop' or ty.startswith('opaque'):
                        self.drops.append('field %s::%s (type %s not modelled)' % (r, c['name'], c['type']['qualType']))
                        ty = 'drop'
                    fs.append((c['name'], ty))
            for fld, ty in self.unit.extra_fields.get(r, []):
                fs.append((fld, ty))
            self.structs[r] = fs

    def fn_signature(self, f, node):
        info = f
        f.node = node
        f.params = []
        kind = node['kind']
        ft = node['type']['qualType']
        f.is_ctor = kind == 'CXXConstructorDecl'
        f.is_method = (kind in ('CXXMethodDecl', 'CXXConversionDecl') and node.get('storageClass') != 'static' and not self._is_static(node))
        f.is_const = ft.rstrip().endswith('const') or 'const noexcept' in ft
        cls = self.tu.qname[node['id']].rsplit('::', 1)[0]
        f.cls = self.structq.get(cls)
        if (f.is_method or f.is_ctor) and not f.cls and not f.nothis:
            raise Unsupported('class %s is not declared with @struct' % cls)
        for p in node.get('inner', []):
            if p.get('kind') != 'ParmVarDecl':
                continue
            pt = p['type'].get('desugaredQualType') or p['type']['qualType']
            pq = p['type']['qualType']
            ov = f.paramtypes.get(p.get('name', ''))
            ty = ov if ov else self.mapty(p['type'])
            ref = pt.strip().endswith('&') or pq.strip().endswith('&')
            const = pt.strip().startswith('const ') or pq.strip().startswith('const ')
            if ty == 'drop':
                f.params.append((p, 'drop', 'drop'))
                continue
            if ty.startswith('ptr:') and not ref:
                e = ty[4:]
                if e == 'drop' or e in ('in', 'out') or e.startswith('stru:'):
                    f.params.append((p, e, 'mut' if not const else 'ref') if e != 'drop' else (p, 'drop', 'drop'))
                elif (SCALAR(e) or e == 'str') and f.outptr(p.get('name', '')):
                    f.params.append((p, e, 'mut'))
                else:
                    f.params.append((p, ty, 'ptr' if const else 'ptrmut'))
            elif ty in ('in', 'out'):
                f.params.append((p, ty, 'mut'))
            elif ty.startswith('stru:') and (ty[5:] not in self.unit.objs or ty[5:] in self.unit.mutobjs) and ref and const and re.search(r'\bshared_ptr ?< ?(?!const\b)', pq):
                f.params.append((p, ty, 'mut'))      # the object behind the pointer can be changed
            elif ref and not const:
                f.params.append((p, ty, 'mut'))
            elif ty.startswith('iter:'):
                f.params.append((p, ty, 'iter'))
            elif ref and const and not COPY(ty):
                f.params.append((p, ty, 'ref'))
            else:
                f.params.append((p, ty, 'val'))
        rt = ft[:ft.index('(')].strip() if '(' in ft else 'void'
        f.ret = 'void' if f.is_ctor else (f.rettype or self.mapts(rt))
        return f
    def _is_static(self, node):
        if node.get('storageClass') == 'static':
            return True
        pd = node.get('previousDecl')
        while pd:
            d = self.tu.byid.get(pd)
            if d is None:
                return False
            if d.get('storageClass') == 'static':
                return True
            pd = d.get('previousDecl')
        return False

    # ---------- function translation
    def translate(self, f):
        self.issread = set()
        node = f.node
        self.f = f
        self.names = {}
        self.bases = {}     # decl id -> base text for pointers/iterators
        self.vty = {}
        self.out = []
        self.ind = 1
        self.ntmp = 0
        self.nloop = 0
        self.nif = 0
        self.loops_seen = 0
        self.used_hints = set()
        self.thisname = 'this'
        self.retstack = []
        self.loopstack = []
        self.f_inline = []
        hdr = []
        pre = []
        gen = []
        if f.is_method and not f.nothis:
            hdr.append('this: &%s%s' % ('' if (f.is_const or f.constthis) and not f.mutthis else 'mut ', f.cls))
        assigned = self._assigned_ids(node)
        for p, ty, mode in f.params:
            nm = self.rname(p.get('name', '_unused'))
            self.names[p['id']] = nm
            self.vty[p['id']] = ty
            if mode == 'drop':
                self.drops.append('parameter %s of %s (%s)' % (p.get('name'), f.rname, p['type']['qualType']))
                continue
            if ty.startswith('fn:'):
                gen.append('F%s: Fn(%s) -> %s' % (nm, rustty(ty.split(':')[1]), rustty(ty.split(':')[2])))
                hdr.append('%s: F%s' % (nm, nm))
                continue
            if mode in ('ptr', 'ptrmut'):
                e = rustty(ty[4:])
                hdr.append('%s: &%sVec<%s>' % (nm, 'mut ' if mode == 'ptrmut' else '', e))
                hdr.append('%s_o: usize' % nm)
                self.bases[p['id']] = nm
                self.names[p['id']] = nm + '_o'
                if p['id'] in assigned:
                    pre.append('let mut %s_o = %s_o;' % (nm, nm))
            elif mode == 'iter':
                b = f.iterbase.get(p.get('name'))
                if b is None:
                    raise Unsupported('iterator parameter %s needs @iterbase' % p.get('name'))
                hdr.append('%s: usize' % nm)
                self.bases[p['id']] = b
                if p['id'] in assigned:
                    pre.append('let mut %s = %s;' % (nm, nm))
            elif mode == 'mut':
                if ty.startswith('iter:') or ty.startswith('ptr:'):
                    b = f.iterbase.get(p.get('name'))
                    if b is None:
                        raise Unsupported('iterator parameter %s needs @iterbase' % p.get('name'))
                    self.bases[p['id']] = b
                hdr.append('%s: &mut %s' % (nm, rustty(ty)))
                if COPY(ty):
                    self.names[p['id']] = '(*%s)' % nm
            elif mode == 'ref':
                hdr.append('%s: &%s' % (nm, rustty(ty)))
            else:
                hdr.append('%s: %s' % (nm, rustty(ty)))
                if p['id'] in assigned or not COPY(ty):
                    pre.append('let mut %s = %s;' % (nm, nm))
        for xp in f.extraparams:
            hdr.append(xp)
        body = [c for c in node['inner'] if c.get('kind') == 'CompoundStmt']
        if not body:
            raise Unsupported('no body for ' + f.qname)
        for l in pre:
            self.emit(l)
        if f.is_ctor:
            self.ctor_init(f, node)
        self.hint('start')
        self.stmts(body[0].get('inner', []))
        if not self.terminates(body[0].get('inner', [])):
            self.hint('end')
            if f.is_ctor:
                self.emit('return %s;' % ('Ok(this)' if f.throws else 'this'))
            elif f.throws and f.ret == 'void':
                self.emit('return Ok(());')
        ret = rustty(f.ret) if not f.is_ctor else f.cls
        if f.throws:
            ret = 'Result<%s, Exc>' % ret
        missing = [h for h in f.hints if h not in self.used_hints]
        if missing:
            self.mismatch.append('%s: annotation anchors not found in the current source: %s' % (f.rname, ', '.join(missing)))
        for n in list(f.loops):
            if n > self.nloop:
                self.mismatch.append('%s: contract for loop %d but the function has %d loops' % (f.rname, n, self.nloop))
        if f.nifs is not None and self.nif != f.nifs:
            self.mismatch.append('%s: the function has %d conditionals, the contract expects %d' % (f.rname, self.nif, f.nifs))
        for n in f.blocks:
            if n > self.nif:
                self.mismatch.append('%s: contract for conditional %d but the function has %d' % (f.rname, n, self.nif))
        if self.nloop != f.nloops():
            if f.nloops() and self.nloop != f.nloops():
                self.mismatch.append('%s: the function has %d loops, the contract annotates %d' % (f.rname, self.nloop, f.nloops()))
        s = []
        s.append('// %s  (%s:%s)' % (f.qname, node.get('_file'), node.get('_line')))
        if not f.isolate:
            s.append('#[verifier::loop_isolation(false)]')
            s.append('#[verifier::allow_complex_invariants]')
        for a in f.attrs:
            s.append(a)
        if f.nodecreases:
            s.append('#[verifier::exec_allows_no_decreases_clause]')
        s.append('pub fn %s%s(%s)%s' % (f.rname, '<%s>' % ', '.join(gen) if gen else '', ', '.join(hdr), (' -> (res: %s)' % ret) if ret != '()' else ''))
        if f.requires:
            s.append('    requires\n%s' % f.requires.rstrip())
        if f.ensures:
            s.append('    ensures\n%s' % f.ensures.rstrip())
        if f.fdecreases:
            s.append('    decreases\n%s' % f.fdecreases.rstrip())
        s.append('{')
        s += self.out
        s.append('}')
        return '\n'.join(s)

    def ctor_init(self, f, node):
        vals = {}
        for c in node.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer':
                fld = c.get('anyInit', {}).get('name')
                if fld is None:
                    continue
                fty = dict(self.structs[f.cls]).get(fld)
                if fty is None or fty == 'drop':
                    continue
                v = self.initval(c['inner'][0], fty) if c.get('inner') else self.default(fty)
                vals[fld] = self.owned(v) if not (v.ty.startswith('iter:') or v.ty.startswith('ptr:')) else v.t
        # members not in the initialiser list: in-class initialisers do not occur in vmime
        parts = []
        for fld, fty in self.structs[f.cls]:
            if fty == 'drop':
                continue
            if fld in vals:
                t = vals[fld]
            else:
                t = self.default(fty).t
            nm = self.tmp()
            self.emit('let %s = %s;' % (nm, t))
            parts.append('%s: %s' % (self.rname(fld), nm))
        self.emit('let mut this = %s { %s };' % (f.cls, ', '.join(parts)))

    def initval(self, node, ty):
        return self.ev(node)

    def default(self, ty):
        if ty in INT:
            return V('nondet_%s()' % rustty(ty), ty)
        if ty == 'bool':
            return V('nondet_bool()', ty)
        if ty in ('str', 'oss') or ty.startswith('vec:'):
            return V('Vec::new()', ty, own=True)
        if ty.startswith('arr:'):
            e, n = ty[4:].rsplit(':', 1)
            if not SCALAR(e):
                raise Unsupported('array of ' + e)
            return V('arr_%s(%susize)' % (rustty(e), n), ty, own=True)
        if ty.startswith('iter:') or ty.startswith('ptr:'):
            return V('nondet_usize()', ty)
        if ty.startswith('stru:'):
            return V('default_%s()' % ty[5:], ty, own=True)
        if ty == 'props':
            return V('default_props()', ty, own=True)
        raise Unsupported('default value of ' + ty)

    # ---------- utils
    def rname(self, n):
        if n in KW or n in ('this', 'res'):
            return n + '_'
        return n
    def tmp(self):
        self.ntmp += 1
        return 't%d__' % self.ntmp
    def emit(self, l):
        m = re.match(r'(\w+) = ', l)
        if m and any(mode == 'mut' and not COPY(ty) and self.rname(q.get('name', '')) == m.group(1) for q, ty, mode in self.f.params):
            l = '*' + l
        bef, aft = [], []
        for h in self.f.hints:
            m = re.fullmatch(r'(before|after) ~(.*)~(?:\s*#(\d+))?', h)
            lit = None
            if not m:
                m = re.fullmatch(r'(before|after) `(.*)`(?:\s*#(\d+))?', h)
                lit = m
            if m and (m.group(2) in l if lit else re.search(m.group(2), l)):
                n = int(m.group(3) or 0)
                k = self.f.hintcount.get(h, 0) + 1
                self.f.hintcount[h] = k
                if n == 0 or n == k:
                    self.used_hints.add(h)
                    (bef if m.group(1) == 'before' else aft).append(self.f.hints[h])
        for x in bef:
            self.raw(x)
        self.out.append('    ' * self.ind + l)
        for x in aft:
            self.raw(x)
    def raw(self, txt):
        for l in txt.rstrip('\n').split('\n'):
            self.out.append('    ' * self.ind + l.strip('\n'))
    def hint(self, key):
        if key in self.f.hints:
            self.used_hints.add(key)
            self.raw(self.f.hints[key])
    def sub(self):
        """context: collect emitted statements separately"""
        saved = self.out
        self.out = []
        return saved
    def desc(self, node):
        return '%s at line %s' % (node.get('kind'), node.get('_bline'))

    def _assigned_ids(self, node):
        s = set()
        def strip(n):
            while n.get('kind') in PASS or (n.get('kind') == 'ImplicitCastExpr'):
                n = n['inner'][0]
            return n
        def w(n):
            if not isinstance(n, dict):
                return
            k = n.get('kind')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('opcode', '').endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>=')):
                t = strip(n['inner'][0])
                if t.get('kind') == 'DeclRefExpr':
                    s.add(t['referencedDecl']['id'])
            if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
                t = strip(n['inner'][0])
                if t.get('kind') == 'DeclRefExpr':
                    s.add(t['referencedDecl']['id'])
            if k == 'UnaryOperator' and n.get('opcode') == '&':
                t = strip(n['inner'][0])
                if t.get('kind') == 'DeclRefExpr':
                    s.add(t['referencedDecl']['id'])
            if k == 'CXXOperatorCallExpr':
                for a in n['inner'][1:2]:
                    t = strip(a)
                    if t.get('kind') == 'DeclRefExpr':
                        s.add(t['referencedDecl']['id'])
            if k == 'CallExpr':
                for a in n['inner'][1:]:
                    t = a
                    while t.get('kind') in PASS:
                        t = t['inner'][0]
                    if t.get('kind') == 'DeclRefExpr' and t.get('valueCategory') == 'lvalue':
                        s.add(t['referencedDecl']['id'])
            for c in n.get('inner', []) or []:
                w(c)
        w(node)
        return s

    def terminates(self, stmts):
        if not stmts:
            return False
        l = stmts[-1]
        k = l.get('kind')
        if k == 'ReturnStmt':
            return True
        if k in ('ContinueStmt', 'BreakStmt'):
            return True
        if k == 'CompoundStmt':
            return self.terminates(l.get('inner', []))
        if k == 'IfStmt' and l.get('hasElse'):
            return self.terminates([l['inner'][-2]]) and self.terminates([l['inner'][-1]])
        if k == 'ExprWithCleanups' or k == 'CXXThrowExpr':
            return k == 'CXXThrowExpr' or self.terminates(l.get('inner', []))
        return False

    def has(self, node, kinds, stop=()):
        if not isinstance(node, dict):
            return False
        if node.get('kind') in kinds:
            return True
        for c in node.get('inner', []) or []:
            if isinstance(c, dict) and c.get('kind') in stop:
                continue
            if self.has(c, kinds, stop):
                return True
        return False

    # ---------- statements
    def stmts(self, l):
        # inside a try block: what has been opened on this level because of calls that may throw
        lv = [self.ind, []]
        self.levels = self.levels + [lv]
        self.stmts1(l)
        self.levels = self.levels[:-1]
        for cl in reversed(lv[1]):
            self.ind -= 1; self.emit(cl)
    levels = []
    def stmts1(self, l):
        for i, s in enumerate(l):
            # switch / inlined-return restructuring: an if that contains a pending exit
            if self.exits and self._needs_cps(s):
                self.cps(s, l[i + 1:])
                return
            if self.trystack:
                t = self.trystack[-1]; deeper = t[1]; t[1] = False
                k0 = len(self.levels[-1][1])
                self.stmt(s)
                if t[1] and i + 1 < len(l) and (t[2] or len(self.levels[-1][1]) == k0):
                    # the statement may have thrown below this level: what follows is skipped then
                    self.emit('if %s.is_none() {' % t[0]); self.ind += 1
                    self.levels[-1][1].append('}')
                t[1] = t[1] or deeper; t[2] = False
            else:
                self.stmt(s)
            if self.exits and s.get('kind') in self.exits[-1]:
                return
    exits = []
    LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
    def _needs_cps(self, s):
        ex = self.exits[-1]
        if s.get('kind') in ex:
            return False
        if 'BreakStmt' in ex:
            return self.has(s, ('BreakStmt',), self.LOOPS + ('SwitchStmt',)) and s.get('kind') not in self.LOOPS + ('SwitchStmt',)
        return self.has(s, ex)
    def cps(self, s, rest):
        k = s.get('kind')
        if k == 'CompoundStmt':
            self.emit('{'); self.ind += 1
            self.stmts(s.get('inner', []) + rest)
            self.ind -= 1; self.emit('}')
            return
        if k == 'IfStmt':
            inn = s['inner']
            cond = self.cond(inn[0])
            th = inn[1]
            el = inn[2] if s.get('hasElse') else None
            self.emit('if %s {' % cond); self.ind += 1
            tl = th.get('inner', []) if th.get('kind') == 'CompoundStmt' else [th]
            self.stmts(tl if self._ends_exit(tl) else tl + rest)
            self.ind -= 1
            self.emit('} else {'); self.ind += 1
            ell = [] if el is None else (el.get('inner', []) if el.get('kind') == 'CompoundStmt' else [el])
            self.stmts(ell if self._ends_exit(ell) else ell + rest)
            self.ind -= 1; self.emit('}')
            return
        if k == 'SwitchStmt' and 'ReturnStmt' in self.exits[-1]:
            self.switch(s, rest)
            return
        raise Unsupported('early exit inside %s' % self.desc(s))
    def _ends_exit(self, l):
        return self.terminates(l)

    def stmt(self, s):
        k = s.get('kind')
        if k == 'CompoundStmt':
            self.emit('{'); self.ind += 1
            self.stmts(s.get('inner', []))
            self.ind -= 1; self.emit('}')
        elif k == 'DeclStmt':
            for d in s['inner']:
                self.decl(d)
        elif k == 'IfStmt':
            self.ifstmt(s)
        elif k in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'):
            self.loop(s)
        elif k == 'SwitchStmt':
            self.switch(s, None)
        elif k == 'BreakStmt':
            if self.exits and 'BreakStmt' in self.exits[-1]:
                return
            self.hint('loop %d break' % self.loopstack[-1]['n'])
            self.emit('break;')
        elif k == 'ContinueStmt':
            lp = self.loopstack[-1]
            for ex in reversed(self.exits):
                pass
            self.hint('loop %d end' % lp['n'])
            if lp['inc'] is not None:
                lp['inc']()
            self.emit('continue;')
        elif k == 'ReturnStmt':
            self.ret(s)
        elif k == 'NullStmt':
            pass
        elif k == 'CXXTryStmt':
            # functions under contract which may throw are declared @throws; the others (and the assumed
            # callees) do not throw, so the handlers are unreachable here
            if self.f.throws:
                self.trystmt(s); return
            self.drops.append('catch handlers in %s (no callee under contract throws)' % self.f.rname)
            self.stmts(s['inner'][0].get('inner', []))
        else:
            self.exprstmt(s)

    trystack = []      # [variable for the exception, something may have thrown, ... below the current level, loop depth]
    catchvars = []
    ntry = 0
    def trystmt(self, s):
        """try { A } catch (T&) { B } ...: once a call of A has thrown, the rest of A is skipped"""
        body, hs = s['inner'][0], s['inner'][1:]
        if len(hs) == 1:
            h = [c for c in hs[0].get('inner', []) if c.get('kind') == 'CompoundStmt'][0].get('inner', [])
            h = [c['inner'][0] if c.get('kind') == 'ExprWithCleanups' else c for c in h]
            if len(h) == 1 and h[0].get('kind') == 'CXXThrowExpr' and not h[0].get('inner'):
                self.stmts(body.get('inner', []))      # only rethrows
                return
        self.ntry += 1
        nm = 'exc%d_' % self.ntry
        self.emit('let mut %s: Option<Exc> = None;' % nm)
        self.emit('{'); self.ind += 1
        outer = self.trystack
        self.trystack = outer + [[nm, False, False, len(self.loopstack)]]
        self.stmts(body.get('inner', []))
        self.trystack = outer
        self.ind -= 1; self.emit('}')
        self.hint('try %d after' % self.ntry)
        self.emit('if let Some(exc_) = %s {' % nm); self.ind += 1
        self.catchvars = self.catchvars + ['exc_']
        last = False
        n = 0
        for h in hs:
            vd = [c for c in h.get('inner', []) if c.get('kind') == 'VarDecl' and c.get('type')]
            b = [c for c in h.get('inner', []) if c.get('kind') == 'CompoundStmt'][0]
            ty = re.sub(r'[&\s]|const\b|class\b', '', (vd[0]['type'].get('desugaredQualType') or vd[0]['type']['qualType'])).split('::')[-1] if vd else 'exception'
            if ty == 'exception':      # all exceptions are taken to be vmime::exception
                last = True
                if n:
                    self.emit('{'); self.ind += 1
            else:
                self.emit('if catch_%s(&exc_) {' % ty); self.ind += 1
            self.stmts(b.get('inner', []))
            if ty != 'exception':
                self.ind -= 1; self.emit('} else'); n += 1
            elif n:
                self.ind -= 1; self.emit('}')
            if last:
                break
        if not last:
            self.emit('{'); self.ind += 1
            self.raise_('exc_')
            self.ind -= 1; self.emit('}')
        self.catchvars = self.catchvars[:-1]
        self.ind -= 1; self.emit('}')
        if self.trystack:
            self.trystack[-1][1] = self.trystack[-1][2] = True
    def raise_(self, e):
        if not self.trystack:
            self.emit('return Err(%s);' % e)
            return
        t = self.trystack[-1]
        t[1] = t[2] = True
        self.emit('%s = Some(%s);' % (t[0], e))
        d = len(self.loopstack) - t[3]
        if d > 1:
            raise Unsupported('exception inside two loops of a try block')
        if d == 1:
            self.emit('break;')
    def guarded(self, t, call, mut=''):
        """call of a function that may throw"""
        if self.trystack:
            tr = self.trystack[-1]
            if len(self.loopstack) - tr[3] > 1:
                raise Unsupported('call which may throw inside two loops of a try block')
            if len(self.loopstack) - tr[3] == 1:
                self.emit('let %s%s = match %s { Ok(v) => v, Err(e) => { %s = Some(e); break; } };' % (mut, t, call, tr[0]))
                tr[1] = tr[2] = True
                return
            lv = self.levels[-1]
            if self.ind != lv[0] + len(lv[1]):
                raise Unsupported('call which may throw inside an expression of a try block')
            self.emit('match %s { Ok(%s%s) => {' % (call, mut, t)); self.ind += 1
            lv[1].append('}, Err(e) => { %s = Some(e); } }' % tr[0])
            tr[1] = True
        else:
            self.emit('let %s%s = match %s { Ok(v) => v, Err(e) => { return Err(e); } };' % (mut, t, call))

    def ret(self, s):
        if self.retstack:
            rv, rty = self.retstack[-1]
            if s.get('inner') and rv:
                v = self.ev(s['inner'][0])
                self.emit('%s = %s;' % (rv, self.owned(v)))
                if v.base is not None:
                    self.retstack_base = v.base
            return
        if self.f.is_ctor:
            self.hint('end')
            self.emit('return %s;' % ('Ok(this)' if self.f.throws else 'this'))
            return
        if s.get('inner'):
            v = self.ev(s['inner'][0])
            t = self.owned(v)
            if t.startswith('clone_of(&') and self.retlocal(s['inner'][0]) and re.fullmatch(r'\w+', v.t):
                t = v.t         # a local array is moved out
            if 'end' in self.f.hints and not re.fullmatch(r'\w+', t):
                nm = self.tmp()
                self.emit('let %s = %s;' % (nm, t))
                t = nm
            if 'end' in self.f.hints and 'RET' in self.f.hints['end']:
                sv = self.f.hints['end']
                self.used_hints.add('end')
                self.raw(re.sub(r'\bRET\b', t, sv))
            else:
                self.hint('end')
            self.emit('return %s;' % (('Ok(%s)' % t) if self.f.throws else t))
        else:
            self.hint('end')
            self.emit('return %s;' % ('Ok(())' if self.f.throws else ''))

    def retlocal(self, n):
        while n.get('kind') in PASS or n.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups'):
            if len(n.get('inner', [])) != 1:
                return False
            n = n['inner'][0]
        d = n.get('referencedDecl', {})
        return n.get('kind') == 'DeclRefExpr' and d.get('kind') == 'VarDecl' and not re.search(r'[&*]\s*$', d.get('type', {}).get('qualType', '&')) and d.get('storageClass') != 'static'

    def isdrop(self, n):
        """condition/statement that only concerns an unmodelled listener object"""
        m = n
        while m.get('kind') in PASS or m.get('kind') in ('ImplicitCastExpr', 'CXXMemberCallExpr', 'MemberExpr', 'CXXOperatorCallExpr') or (m.get('kind') == 'UnaryOperator' and m.get('opcode') in ('!', '*')):
            if not m.get('inner'):
                break
            try:
                if self.mapty(m['type']) in ('drop', 'ptr:drop'):
                    return True
            except (Unsupported, KeyError):
                pass
            if m.get('kind') == 'CXXOperatorCallExpr':
                if len(m['inner']) < 2:
                    break
                m = m['inner'][1]
            else:
                m = m['inner'][0]
        try:
            if 'type' in m and self.mapty(m['type']) in ('drop', 'ptr:drop'):
                return True
        except Unsupported:
            pass
        return False

    def ifstmt(self, s):
        inn = s['inner']
        if s.get('hasInit') or s.get('hasVar'):
            raise Unsupported('if with initialiser')
        if self.isdrop(inn[0]):
            self.drops.append('%s: statements guarded by a listener pointer, line %s' % (self.f.rname, s.get('_bline')))
            if s.get('hasElse'):
                raise Unsupported('else branch of a dropped conditional')
            return
        self.nif += 1
        blk = self.f.blocks.get(self.nif)
        if blk is not None:
            # a one-shot loop around the statement: verified on its own against the stated facts
            if self.has(s, ('BreakStmt',), self.LOOPS + ('SwitchStmt',)) or self.has(s, ('ContinueStmt',), self.LOOPS):
                raise Unsupported('block %d is left by break or continue' % self.nif)
            n = self.nif
            self.hint('block %d pre' % n)
            self.out.append('    ' * self.ind + 'loop')
            for h, k in (('invariant_except_break', 'requires'), ('ensures', 'ensures')):
                if blk.get(k):
                    self.raw(h + '\n' + blk[k].rstrip())
            self.raw('decreases\n    0int,')
            self.out.append('    ' * self.ind + '{')
            self.ind += 1
            self.hint('block %d begin' % n)
            self.ifbody(s, inn)
            self.hint('block %d end' % n)
            self.emit('break;')
            self.ind -= 1
            self.out.append('    ' * self.ind + '}')
            self.hint('block %d after' % n)
            return
        self.ifbody(s, inn)

    def ifbody(self, s, inn):
        cond = self.cond(inn[0])
        self.emit('if %s {' % cond)
        self.ind += 1
        self.stmts(inn[1].get('inner', []) if inn[1]['kind'] == 'CompoundStmt' else [inn[1]])
        self.ind -= 1
        if s.get('hasElse'):
            self.emit('} else {')
            self.ind += 1
            self.stmts(inn[2].get('inner', []) if inn[2]['kind'] == 'CompoundStmt' else [inn[2]])
            self.ind -= 1
        self.emit('}')

    def cond(self, n):
        v = self.ev(n)
        if v.ty != 'bool':
            v = self.tobool(v)
        return v.t

    def loop(self, s):
        self.nloop += 1
        n = self.nloop
        c = self.f.loops.get(n, {})
        inn = s['inner']
        k = s['kind']
        self.hint('loop %d pre' % n)
        scoped = False
        inc = None
        condn = None
        post = None
        if k == 'WhileStmt':
            condn, body = inn[0], inn[1]
            if len(inn) != 2:
                raise Unsupported('while with declaration')
        elif k == 'DoStmt':
            body, condn = inn[0], inn[1]
        elif k == 'ForStmt':
            init, var, condn, incn, body = inn
            scoped = True
            self.emit('{'); self.ind += 1
            if init and init.get('kind'):
                self.stmt(init)
            self.hint('loop %d init' % n)
            if incn and incn.get('kind'):
                inc = lambda: self.exprstmt(incn)
            if not (condn and condn.get('kind')):
                condn = None
        else:
            scoped = True
            self.emit('{'); self.ind += 1
            rng = None; body = inn[-1]; lv = None
            for x in inn:
                if x and x.get('kind') == 'DeclStmt':
                    nm = x['inner'][0].get('name', '')
                    if nm.startswith('__range'):
                        rng = x['inner'][0]['inner'][0]
                    elif not nm.startswith('__'):
                        lv = x['inner'][0]
            v = self.ev(rng)
            bt = self.place(v)
            ix = 'ix%d' % n
            self.emit('let mut %s: usize = 0usize;' % ix)
            ety = elem(v.ty)
            inc = lambda: self.emit('%s = %s + 1usize;' % (ix, ix))
            def bindvar():
                nm = self.rname(lv['name'])
                self.names[lv['id']] = nm
                self.vty[lv['id']] = ety
                if COPY(ety):
                    self.emit('let mut %s = %s[%s];' % (nm, bt, ix))
                else:
                    self.emit('let mut %s = %s;' % (nm, self.clone('%s[%s]' % (bt, ix), ety)))
            self.hint('loop %d init' % n)
        saved = self.out; self.out = []; ind0 = self.ind
        self.ind += 1
        if k == 'CXXForRangeStmt':
            ctext = '%s < %s.len()' % (ix, bt)
        elif condn is not None and k != 'DoStmt':
            ctext = self.cond(condn)
            if ctext == 'true' and not self.out:
                ctext = None
        else:
            ctext = None
        cpre = self.out
        self.out = saved; self.ind = ind0
        if cpre and self.f.hints:
            # anchors inside the condition code must not be duplicated
            pass
        hasbreak = self.has(body, ('BreakStmt',), self.LOOPS + ('SwitchStmt',))
        usewhile = (k != 'DoStmt' and not self.trystack and not cpre and ctext is not None and not hasbreak and not c.get('ensures') and not c.get('xinvariant'))
        head = []
        if c.get('xinvariant'):
            head.append('invariant_except_break\n' + c['xinvariant'].rstrip())
        if c.get('invariant'):
            head.append('invariant\n' + c['invariant'].rstrip())
        if c.get('ensures'):
            head.append('ensures\n' + c['ensures'].rstrip())
        if c.get('decreases'):
            head.append('decreases\n' + c['decreases'].rstrip())
        else:
            self.f.nodecreases = True
        if usewhile:
            self.out.append('    ' * self.ind + 'while %s' % ctext)
        else:
            self.out.append('    ' * self.ind + 'loop')
        for h in head:
            self.raw(h)
        self.out.append('    ' * self.ind + '{')
        self.ind += 1
        self.hint('loop %d head' % n)
        if not usewhile and k != 'DoStmt' and ctext is not None:
            self.out += cpre
            self.out.append('    ' * self.ind + 'if !(%s) {' % ctext)
            self.ind += 1
            self.hint('loop %d exit' % n)
            self.out.append('    ' * self.ind + 'break;')
            self.ind -= 1
            self.out.append('    ' * self.ind + '}')
        if k == 'CXXForRangeStmt':
            bindvar()
        self.hint('loop %d begin' % n)
        def docond():
            t = self.cond(condn)
            self.emit('if !(%s) {' % t)
            self.ind += 1
            self.hint('loop %d exit' % n)
            self.emit('break;')
            self.ind -= 1
            self.emit('}')
        self.loopstack.append({'n': n, 'inc': inc if k != 'DoStmt' else docond})
        svex = self.exits
        self.exits = []
        bl = body.get('inner', []) if body.get('kind') == 'CompoundStmt' else [body]
        self.stmts(bl)
        if not self.terminates(bl):
            self.hint('loop %d end' % n)
            if inc is not None:
                inc()
            if k == 'DoStmt':
                docond()
        self.exits = svex
        self.loopstack.pop()
        self.ind -= 1
        self.out.append('    ' * self.ind + '}')
        self.hint('loop %d post' % n)
        if scoped:
            self.ind -= 1; self.out.append('    ' * self.ind + '}')
        self.hint('loop %d after' % n)

    def switch(self, s, rest):
        inn = s['inner']
        v = self.ev(inn[0])
        t = self.tmp()
        self.emit('let %s = %s;' % (t, v.t))
        body = inn[1]
        seq = []   # items: ('label', const or None) | ('stmt', node)
        def add(n):
            if n['kind'] == 'CaseStmt':
                cv = self.ev(n['inner'][0])
                if cv.c is None:
                    raise Unsupported('non-constant case label')
                seq.append(('label', cv.c))
                add(n['inner'][-1])
            elif n['kind'] == 'DefaultStmt':
                seq.append(('label', None))
                add(n['inner'][-1])
            else:
                seq.append(('stmt', n))
        for n in body.get('inner', []):
            add(n)
        groups = []
        i = 0
        while i < len(seq):
            if seq[i][0] == 'label':
                labs = []
                while i < len(seq) and seq[i][0] == 'label':
                    labs.append(seq[i][1]); i += 1
                sts = []
                j = i
                while j < len(seq):
                    if seq[j][0] == 'stmt':
                        sts.append(seq[j][1])
                        if seq[j][1]['kind'] in ('BreakStmt', 'ReturnStmt', 'ContinueStmt') or self.terminates([seq[j][1]]):
                            break
                    j += 1
                groups.append((labs, sts))
            else:
                i += 1
        default = None
        first = True
        self.exits = self.exits + [('BreakStmt',)] if rest is None else self.exits
        ity = v.ty
        for labs, sts in groups:
            if None in labs:
                default = sts
                continue
            cs = ' || '.join('%s == %s' % (t, self.const(x, ity).t) for x in labs)
            self.emit(('if %s {' if first else '} else if %s {') % cs)
            first = False
            self.ind += 1
            self.switch_body(sts, rest)
            self.ind -= 1
        if default is None:
            default = []
        if first:
            self.emit('{')
        else:
            self.emit('} else {')
        self.ind += 1
        self.switch_body(default, rest)
        self.ind -= 1
        self.emit('}')
        if rest is None:
            self.exits = self.exits[:-1]
    def switch_body(self, sts, rest):
        if rest is None:
            self.stmts(sts)
        else:
            if sts and sts[-1]['kind'] == 'BreakStmt':
                sts = sts[:-1]
            if any(self.has(x, ('BreakStmt',), self.LOOPS + ('SwitchStmt',)) for x in sts):
                raise Unsupported('break inside a returning switch')
            self.stmts(sts if self.terminates(sts) else sts + rest)

    def decl(self, d):
        k = d.get('kind')
        if k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EnumDecl', 'StaticAssertDecl'):
            return
        if k != 'VarDecl':
            raise Unsupported('declaration ' + k)
        ov = self.f.localtypes.get(d['name'])
        if not ov and self._constmap(d):
            return
        if not ov and re.search(r'\boutputStreamStringAdapter$', d['type'].get('desugaredQualType') or d['type']['qualType']):
            # a stream that appends to a string: the string itself
            c = d['inner'][-1]
            while c.get('kind') in PASS:
                c = c['inner'][0]
            v = self.lv(c['inner'][0])
            if v.ty != 'str':
                raise Unsupported('outputStreamStringAdapter of ' + v.ty)
            self.names[d['id']], self.vty[d['id']] = v.t, 'oss'
            return
        ty = ov or self.mapty(d['type'])
        nm = self.rname(d['name'])
        init = None
        if d.get('init') and d.get('inner'):
            init = d['inner'][-1] if d['inner'][-1].get('kind', '').find('Attr') < 0 else d['inner'][0]
        if ty == 'drop':
            self.names[d['id']] = nm
            self.vty[d['id']] = 'drop'
            self.drops.append('%s: local %s (%s)' % (self.f.rname, d['name'], d['type']['qualType']))
            return
        if (d.get('storageClass') == 'static' and not ((ty == 'str' or SCALAR(ty)) and d['type']['qualType'].startswith('const '))) or (ty.startswith('arr:') and init is not None and d['type']['qualType'].startswith('const ') and self._constinit(init)):
            tn = self.table(d, nm)
            self.names[d['id']] = '@tbl:' + tn
            self.vty[d['id']] = ty
            return
        qt = (d['type'].get('desugaredQualType') or d['type']['qualType']).strip()
        isref = qt.endswith('&') or d['type']['qualType'].strip().endswith('&')
        if isref:
            v = self.ev(init) if not self._is_lv(init) else self.lv(init)
            if qt.startswith('const') or ' const &' in qt or True:
                if self._is_lv(init):
                    # alias of a place; index expressions inside it are frozen
                    self.names[d['id']] = v.t
                    self.vty[d['id']] = v.ty
                    if v.base is not None:
                        self.bases[d['id']] = v.base
                    return
        if init is None:
            v = self.default(ty)
        else:
            v = self.ev(init)
            if ty in ('iter:ch',) and v.ty == 'str':
                raise Unsupported('iterator init')
        if ty.startswith('ptr:arr:') and init is not None:
            # pointer to a whole array (or union over one), never reassigned: an alias
            if d['id'] in self._assigned_ids(self.f.node):
                raise Unsupported('pointer to array %s is reassigned' % d['name'])
            if v.extra == 'addr' and v.ty == ty[4:]:
                self.names[d['id']], self.vty[d['id']] = v.t, v.ty
                return
            raise Unsupported('pointer to array ' + d['name'])
        if ty.startswith('ptr:') or ty.startswith('iter:'):
            if init is None:
                b = self.f.iterbase.get(d['name'])
            else:
                b = v.base or self.f.iterbase.get(d['name'])
            if b is None:
                raise Unsupported('pointer %s without a base' % d['name'])
            self.bases[d['id']] = b
            self.emit('let mut %s: usize = %s;' % (nm, v.t))
            if v.zt:
                self.bases[d['id']] = b
                self.zts.add(d['id'])
        else:
            self.emit('let mut %s: %s = %s;' % (nm, rustty(ty), self.owned(v)))
        self.names[d['id']] = nm
        self.vty[d['id']] = ty if not (ty.startswith('ptr:') and v.ty.startswith('ptr:')) else v.ty
        h = 'decl ' + d['name']
        self.hint(h)
    zts = set()

    def _constmap(self, d):
        """`static const std::pair<const K, V> t[] = {...}` and `static const std::map<K, V> m(begin(t), end(t))`, K and V integers"""
        q = (d['type'].get('desugaredQualType') or d['type']['qualType'])
        if d.get('storageClass') != 'static' or not q.startswith('const '):
            return False
        def refs(n, out):
            if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'VarDecl':
                out.append(n['referencedDecl']['id'])
            for c in n.get('inner', []):
                refs(c, out)
            return out
        if re.match(r'const .*\[\d+\]$', q) and re.search(r'"(const )?(std::)?pair<const [\w ]+, [\w ]+>', json.dumps(self.initexpr(d))):
            pairs = []
            def w(n):
                if n.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') and len([c for c in n.get('inner', []) if c.get('kind') != 'CXXDefaultArgExpr']) == 2:
                    pairs.append(tuple(self.ceval(c) for c in n['inner'])); return
                if n.get('kind') not in PASS + ('InitListExpr', 'ImplicitCastExpr', 'CXXConstructExpr', 'CXXFunctionalCastExpr'):
                    raise Unsupported('pair table initialiser ' + str(n.get('kind')))
                for c in n.get('inner', []):
                    w(c)
            w(self.initexpr(d))
            if len(pairs) != int(re.search(r'\[(\d+)\]$', q).group(1)):
                raise Unsupported('pair table initialiser')
            self.constpairs[d['id']] = pairs
            return True
        if re.match(r'const (std::)?map<', q):
            r = refs(self.initexpr(d), [])
            if len(r) == 2 and r[0] == r[1] and r[0] in self.constpairs:
                m = {}
                for k, v in self.constpairs[r[0]]:
                    m.setdefault(k, v)
                nm = self.rname(d['name'])
                self.cmaps[nm] = sorted(m.items())
                self.names[d['id']] = nm
                self.vty[d['id']] = 'cmap:' + nm
                return True
        return False
    def _is_lv(self, n):
        m = n
        while m.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr') or (m.get('kind') == 'ImplicitCastExpr' and m.get('castKind') == 'NoOp'):
            m = m['inner'][0]
        return m.get('valueCategory') == 'lvalue' and m.get('kind') in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'CXXOperatorCallExpr', 'UnaryOperator')
    def _constinit(self, n):
        try:
            self.constvals(n)
            return True
        except Unsupported:
            return False

    # ---------- expressions
    def exprstmt(self, n):
        m = n
        while m.get('kind') in PASS:
            m = m['inner'][0]
        k = m.get('kind')
        if self.isdropcall(m):
            self.drops.append('%s: call on unmodelled object, line %s' % (self.f.rname, m.get('_bline')))
            return
        if k == 'CXXThrowExpr':
            self.throw(m); return
        if k == 'CStyleCastExpr' and m.get('castKind') == 'ToVoid':
            return
        if k == 'UnaryOperator' and m['opcode'] in ('++', '--'):
            self.incdec(m, False); return
        if k == 'BinaryOperator' and m['opcode'] == ',':
            self.exprstmt(m['inner'][0]); self.exprstmt(m['inner'][1]); return
        if k == 'CXXOperatorCallExpr':
            op = self.opname(m)
            if op in ('++', '--'):
                self.incdec(m, False, True); return
            if op == '=':
                try:
                    dr = self.mapty(m['inner'][1]['type']) == 'drop'
                except (Unsupported, KeyError):
                    dr = False
                if dr:
                    self.drops.append('%s: assignment to an unmodelled object, line %s' % (self.f.rname, m.get('_bline')))
                    return
        if k == 'ConditionalOperator' and self._isassert(m):
            # assert(): the condition is an obligation
            self.emit('cassert(%s);' % self.tobool(self.ev(m['inner'][0])).t)
            return
        v = self.ev(m, stmt=True)
        if v is not None and v.ty == 'oss' and isinstance(v.extra, dict) and 'w' in v.extra:
            raise Unsupported('setw at the end of a statement')
        if v is not None and v.ty == 'void' and v.t:
            self.emit(v.t + ';')
        elif v is not None and v.t and '(' in v.t and v.extra == 'call':
            self.emit('let _ = %s;' % v.t)
    def _isassert(self, m):
        x = m['inner'][2]
        while x.get('kind') in PASS or x.get('kind') == 'ImplicitCastExpr':
            x = x['inner'][0]
        return x.get('kind') == 'CallExpr' and '__assert_fail' in json.dumps(x['inner'][0])
    def isdropcall(self, m):
        k = m.get('kind')
        if k == 'CXXMemberCallExpr':
            sp = self.unit.methods.get(self.tu.qname.get(m['inner'][0].get('referencedMemberDecl')))
            if sp and any(x[0] == '+' for x in sp[2]):
                return False
            return self.isdrop(m['inner'][0]['inner'][0]) if m['inner'][0].get('inner') else False
        return False

    def throw(self, m):
        if not self.f.throws:
            raise Unsupported('throw in a function not declared @throws')
        name = 'Exc'
        def find(n):
            if not isinstance(n, dict): return None
            if n.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr'):
                q = n['type'].get('desugaredQualType') or n['type']['qualType']
                return q.split('::')[-1]
            for c in n.get('inner', []):
                r = find(c)
                if r: return r
            return None
        if not m.get('inner') and self.catchvars:
            self.hint('throw')
            self.raise_(self.catchvars[-1]); return
        name = find(m) or 'rethrow'
        self.excs.add(name)
        self.hint('throw')
        self.raise_('Exc { kind: EXC_%s() }' % name)

    def const(self, c, ty):
        if ty == 'bool':
            return V('true' if c else 'false', 'bool', c=int(bool(c)))
        b, s = INT[ty]
        c &= (1 << b) - 1
        if ty == 'ch':
            sv = c - 256 if c >= 128 else c
            return V('%du8' % c, 'ch', c=sv)
        if s and c >= (1 << (b - 1)):
            c -= 1 << b
        t = '%d%s' % (c, ty) if c >= 0 else '(%d%s)' % (c, ty)
        return V(t, ty, c=c)

    def owned(self, v):
        if COPY(v.ty) or v.own or v.ty == 'void':
            return v.t
        return self.clone(v.t, v.ty)
    def clone(self, t, ty):
        if ty in ('str', 'oss', 'iss'):
            return 'str_clone(&%s)' % t
        if ty.startswith('vec:') or ty.startswith('arr:'):
            e = elem(ty)
            return 'vec_clone_%s(&%s)' % (rustty(e), t) if SCALAR(e) else 'clone_of(&%s)' % t
        if ty.startswith('stru:'):
            return 'clone_%s(&%s)' % (ty[5:], t)
        if ty in ('in', 'out'):
            return t
        if ty == 'props':
            return 'props_clone(&%s)' % t
        raise Unsupported('copy of ' + ty)
    def ref(self, v):
        """text usable as & argument"""
        if v.t.startswith('@tbl:'):
            raise Unsupported('table passed by reference')
        t = v.t
        if v.own:
            n = self.tmp()
            self.emit('let %s = %s;' % (n, t))
            return '&' + n
        return '&' + t
    def place(self, v):
        if v.own:
            n = self.tmp()
            self.emit('let mut %s = %s;' % (n, v.t))
            v.own = False
            v.t = n
        return v.t

    def tobool(self, v):
        if v.ty == 'bool':
            return v
        if v.c is not None:
            return self.const(1 if v.c else 0, 'bool')
        if v.ty == 'ch':
            return V('(%s != 0u8)' % v.t, 'bool')
        if v.ty in INT:
            return V('(%s != %s)' % (v.t, self.const(0, v.ty).t), 'bool')
        if v.ty.startswith('stru:') and v.ty[5:] in self.unit.objs:
            return V('%s_isset(%s)' % (v.ty[5:], self.argref(v)), 'bool')
        raise Unsupported('conversion of %s to bool' % v.ty)

    def intcast(self, v, ty):
        if v.ty == ty:
            return v
        if ty == 'bool':
            return self.tobool(v)
        if v.c is not None:
            return self.const(v.c, ty)
        if v.ty == 'bool':
            return V('(if %s { %s } else { %s })' % (v.t, self.const(1, ty).t, self.const(0, ty).t), ty)
        fb, fs = INT[v.ty]
        tb, ts = INT[ty]
        src, dst = v.ty, ty
        if src == 'ch' and dst == 'u8' or src == 'u8' and dst == 'ch':
            return V(v.t, ty)
        if src == 'ch':
            if ty == 'i32':
                return V('c2i(%s)' % v.t, 'i32')
            return self.intcast(V('c2i(%s)' % v.t, 'i32'), ty)
        if dst == 'ch':
            x = self.intcast(v, 'u8')
            return V(x.t, 'ch')
        # widening
        if (tb > fb and (ts or not fs)):
            return V('(%s as %s)' % (v.t, rustty(ty)), ty)
        return V('%s_to_%s(%s)' % (src, dst, v.t), ty)

    def ev_CXXDeleteExpr(self, n):
        if self.has(n, ('CallExpr', 'CXXMemberCallExpr', 'BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator')):
            raise Unsupported('delete of an expression with effects')
        self.drops.append('delete at line %s (memory is not modelled)' % n.get('_bline'))
        return V('', 'void')
    def ev_CXXDynamicCastExpr(self, n):
        # dynamic_cast<T&>(x) where T and the class of x are one type here
        ct = self._try(n['type'])
        if n.get('valueCategory') != 'lvalue' and ct and ct.startswith('stru:') and ct[5:] in self.unit.objs:
            # a pointer cast gives the object or nothing: T_cast
            x = self.strip(n['inner'][0])
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
                x = x['inner'][0]
            t = self.tmp()
            self.emit('let mut %s = %s_cast(%s);' % (t, ct[5:], self.argref(self.ev(x))))
            return V(t, ct, own=True)
        if n.get('valueCategory') != 'lvalue':
            raise Unsupported('dynamic_cast at line %s' % n.get('_bline'))
        v = self.ev(n['inner'][0])
        ty = self.mapty(n['type'])
        if v.ty != ty:
            raise Unsupported('dynamic_cast from %s to %s at line %s' % (v.ty, ty, n.get('_bline')))
        return v

    def ev(self, n, stmt=False):
        k = n.get('kind')
        m = getattr(self, 'ev_' + k, None)
        if k in PASS:
            return self.ev(n['inner'][-1 if k == 'SubstNonTypeTemplateParmExpr' else 0], stmt)
        if m is None:
            raise Unsupported('expression %s' % self.desc(n))
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'BinaryOperator', 'CompoundAssignOperator'):
            return m(n, stmt)
        return m(n)

    def evs(self, nodes):
        """evaluate operands left to right; snapshot earlier ones if a later one has effects"""
        res = []
        marks = []
        for x in nodes:
            before = len(self.out)
            v = self.ev(x) if not isinstance(x, V) else x
            if len(self.out) > before:
                for i, (w, mk) in enumerate(zip(res, marks)):
                    if w.c is None and COPY(w.ty) and not re.fullmatch(r't\d+__|\d+usize', w.t):
                        t = self.tmp()
                        self.out.insert(before, '    ' * self.ind + 'let %s = %s;' % (t, w.t))
                        before += 1
                        w.t = t
            res.append(v)
            marks.append(len(self.out))
        return res

    def ev_IntegerLiteral(self, n):
        return self.const(int(n['value']), self.mapty(n['type']))
    def ev_CharacterLiteral(self, n):
        return self.const(int(n['value']), self.mapty(n['type']))
    def ev_CXXBoolLiteralExpr(self, n):
        return self.const(1 if n['value'] else 0, 'bool')
    def ev_GNUNullExpr(self, n):
        return self.ev_CXXNullPtrLiteralExpr(n)
    def ev_CXXNullPtrLiteralExpr(self, n):
        return V('NULL', 'null')
    def ev_StringLiteral(self, n):
        bs = self.strbytes(n)
        return V(self.lit(bs), 'str', own=True, zt=True, extra=('lit', bs))
    def strbytes(self, n):
        s = n['value']
        if s.startswith('"') and s.endswith('"'):
            s = s[1:-1]
        out = bytearray()
        i = 0
        b = s.encode('utf-8')
        esc = {ord('n'): 10, ord('r'): 13, ord('t'): 9, ord('a'): 7, ord('b'): 8, ord('f'): 12, ord('v'): 11, ord('\\'): 92, ord('"'): 34, ord("'"): 39, ord('?'): 63}
        while i < len(b):
            if b[i] == 92:
                c = b[i + 1]
                if c in esc:
                    out.append(esc[c]); i += 2
                elif 48 <= c <= 55:
                    j = i + 1; vv = 0
                    while j < len(b) and j < i + 4 and 48 <= b[j] <= 55:
                        vv = vv * 8 + b[j] - 48; j += 1
                    out.append(vv & 255); i = j
                elif c == ord('x'):
                    j = i + 2; vv = 0
                    while j < len(b) and j < i + 4 and chr(b[j]) in '0123456789abcdefABCDEF':
                        vv = vv * 16 + int(chr(b[j]), 16); j += 1
                    out.append(vv & 255); i = j
                else:
                    raise Unsupported('string escape')
            else:
                out.append(b[i]); i += 1
        return bytes(out)
    def lit(self, bs):
        nm = 'lit_%08x' % (zlib.crc32(bs) & 0xffffffff)
        if len(bs) <= 12 and re.fullmatch(rb'[A-Za-z0-9_]+', bs):
            nm = 'lit_' + bs.decode()
        self.lits[nm] = bs
        return nm + '()'
    def ev_CXXThisExpr(self, n):
        if self.this_override is not None:
            o = self.this_override
            return V(o.t, o.ty, base=o.base)
        return V('this', 'stru:' + (self.f.cls or ''))
    def ev_CXXDefaultArgExpr(self, n):
        return V('@default', 'default')
    def ev_CXXDefaultInitExpr(self, n):
        raise Unsupported('default member initialiser')
    def ev_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise Unsupported('trait')
        if n.get('inner'):
            ty = self.mapty(n['inner'][0]['type'])
            m = n['inner'][0]
            while m.get('kind') == 'ParenExpr':
                m = m['inner'][0]
        else:
            ty = self.mapts(n['argType']['qualType'])
        def sz(ty):
            if ty == 'bool': return 1
            if ty in INT: return INT[ty][0] // 8
            if ty.startswith('arr:'):
                e, c = ty[4:].rsplit(':', 1)
                return sz(e) * int(c)
            raise Unsupported('sizeof ' + ty)
        return self.const(sz(ty), 'usize')

    def ev_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        did = rd['id']
        if rd['kind'] == 'EnumConstantDecl':
            return self.const(self.enumval(did, rd.get('name')), 'i32')
        if did in self.names:
            nm = self.names[did]
            ty = self.vty[did]
            return V(nm, ty, base=self.bases.get(did), zt=did in self.zts)
        d = self.tu.byid.get(did)
        # canonical: find the definition of a static member / global
        qn = self.tu.qname.get(did)
        if d is not None and d['kind'] == 'VarDecl':
            ds = [x for x in self.tu.decls.get(qn, []) if x.get('inner') and any(c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Literal') or c.get('kind') in PASS for c in x['inner'])]
            if not ds and qn == 'vmime::npos':
                return self.const(-1, 'usize')     # base.cpp: numeric_limits<size_t>::max()
            if not ds and qn and qn.startswith('vmime::'):
                # a string constant defined in one of the files named by @constants
                for o in self.consttus:
                    od = [x for x in o.decls.get(qn, []) if x.get('inner')]
                    sl = [y for x in od for y in self._find(x, 'StringLiteral')]
                    if len(od) == 1 and len(sl) == 1 and ('string' in d['type']['qualType'] or d['type']['qualType'] == 'const char *const'):
                        return V(self.lit(self.strbytes(sl[0])), 'str', own=True)
            if not ds and d['type']['qualType'] == 'const char *const':
                nm = re.sub(r'\W', '_', qn)     # a string constant defined in another file: its value does not matter here
                self.cstrs.add(nm)
                return V('CONST_%s()' % nm, 'str', own=True)
            if not ds and qn and d['type']['qualType'].startswith('const ') and self._try(d['type']).startswith('stru:'):
                return V('CONST_%s()' % re.sub(r'\W', '_', qn), self._try(d['type']), own=True)      # a constant object: supplied by the unit
            if not ds:
                raise Unsupported('global %s without initialiser' % qn)
            ty = self.mapty(d['type']) if 'arr:' in self._try(d['type']) or not d['type']['qualType'].endswith('[]') else self.mapty(ds[0]['type'])
            if d['type']['qualType'].endswith('[]') or ty.startswith('arr:') or ty.startswith('ptr:ptr'):
                tn = self.table(ds[0], d['name'])
                return V('@tbl:' + tn, self.mapty(ds[0]['type']))
            v = self.ev(self.initexpr(ds[0]))
            return v
        if rd['kind'] == 'VarDecl' and rd.get('name') == 'npos':
            return self.const(-1, 'usize')
        if d is not None and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            f, _ = self.resolve_def(did)
            if f is not None:
                return V(f.rname, 'fn')
        raise Unsupported('reference to %s' % rd.get('name'))
    def _try(self, t):
        try:
            return self.mapty(t)
        except Unsupported:
            return ''
    def initexpr(self, d):
        for c in d['inner']:
            if not c.get('kind', '').endswith('Attr') and not c.get('kind', '').endswith('Comment'):
                return c
        raise Unsupported('no initialiser')
    def enumval(self, did, name=None):
        d = self.tu.byid.get(did)
        # find parent enum
        for q, l in self.tu.decls.items():
            for e in l:
                if e.get('kind') == 'EnumDecl':
                    cur = -1
                    for c in e.get('inner', []):
                        if c.get('kind') != 'EnumConstantDecl':
                            continue
                        ini = [x for x in c.get('inner', []) if x.get('kind') not in ('FullComment',)]
                        if ini:
                            cur = self.ceval(ini[0])
                        else:
                            cur += 1
                        if c['id'] == did:
                            return cur
        # anonymous enums
        for i, e in self.tu.byid.items():
            if e.get('kind') == 'EnumDecl':
                cur = -1
                for c in e.get('inner', []):
                    if c.get('kind') != 'EnumConstantDecl':
                        continue
                    ini = [x for x in c.get('inner', []) if x.get('kind') not in ('FullComment',)]
                    cur = self.ceval(ini[0]) if ini else cur + 1
                    if c['id'] == did:
                        return cur
        v = self.tu.extenum(name) if d is None and name else None
        if v is not None:
            return v
        raise Unsupported('enum constant %s' % name)
    def ceval(self, n):
        v = self.ev(n)
        if v.c is None:
            raise Unsupported('constant expected')
        return v.c
    def constvals(self, n):
        m = n
        while m.get('kind') in PASS or m.get('kind') == 'ImplicitCastExpr' and m['inner'][0].get('kind') in ('InitListExpr', 'StringLiteral'):
            m = m['inner'][0]
        if m['kind'] == 'InitListExpr':
            r = []
            items = m.get('inner') or m.get('array_filler') or []
            for c in items:
                if c.get('kind') == 'ImplicitValueInitExpr':
                    continue
                if self._strnode(c):
                    r.append(self.strbytes(self._strnode(c)))
                    continue
                mm = c
                while mm.get('kind') in PASS:
                    mm = mm['inner'][0]
                if mm.get('kind') == 'InitListExpr':
                    r.append(self.constvals(mm))
                    continue
                saved = self.out; self.out = []
                v = self.ev(c)
                ok = not self.out
                self.out = saved
                if v.c is None or not ok:
                    raise Unsupported('table initialiser')
                r.append(v.c)
            return r
        if m['kind'] == 'StringLiteral':
            return list(self.strbytes(m)) + [0]
        raise Unsupported('table initialiser ' + m['kind'])
    def _strnode(self, n):
        m = n
        while m.get('kind') in PASS + ('ImplicitCastExpr',):
            m = m['inner'][0]
        return m if m.get('kind') == 'StringLiteral' else None
    def table(self, d, nm):
        ty = self.mapty(d['type'])
        vals = self.constvals(self.initexpr(d))
        if ty.startswith('arr:'):
            e, c = ty[4:].rsplit(':', 1)
            c = int(c)
            z = b'' if e.startswith('ptr') or e == 'str' else 0
            if not (vals and isinstance(vals[0], list)):
                vals = vals[:c] + [z] * (c - len(vals))
        q = nm
        if q in self.tables and self.tables[q][0] != vals:
            q = nm + '_' + self.f.rname
        self.tables[q] = (vals, ty)
        return q

    def ev_ImplicitCastExpr(self, n):
        return self.cast(n)
    ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_CXXFunctionalCastExpr = ev_ImplicitCastExpr
    def cast(self, n):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck in ('LValueToRValue', 'NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BitCast', 'FunctionToPointerDecay', 'LValueBitCast'):
            if ck == 'ConstructorConversion':
                return self.ev(sub)
            return self.ev(sub)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(sub)
            if v.extra and isinstance(v.extra, tuple) and v.extra[0] == 'lit':
                return v
            if v.ty.startswith('ptr:'):
                return v
            return V('0usize', 'ptr:' + elem(v.ty), base=v.t)
        if ck == 'IntegralCast':
            v = self.ev(sub)
            return self.intcast(v, self.mapty(n['type']))
        if ck in ('IntegralToBoolean',):
            return self.tobool(self.ev(sub))
        if ck in ('PointerToBoolean', 'NullToPointer'):
            v = self.ev(sub)
            if v.ty == 'null' or ck == 'NullToPointer':
                return V('NULL', 'null')
            if v.base is None and v.t.startswith('(*'):
                self.drops.append('%s: out-parameter %s is assumed not to be NULL' % (self.f.rname, v.t))
                return V('true', 'bool')
            if v.ty.startswith('stru:') and v.ty[5:] in self.unit.objs:
                return V('%s_isset(%s)' % (v.ty[5:], self.argref(v)), 'bool')
            if v.ty == 'str' and re.search(r'string ?\*', sub['type'].get('qualType', '')):
                self.drops.append('%s: out-parameter %s is assumed not to be NULL' % (self.f.rname, v.t))
                return V('true', 'bool')
            raise Unsupported("pointer truth value %s %s %s" % (v, v.ty, sub["type"]))
        if ck == 'ToVoid':
            return self.ev(sub)
        raise Unsupported('cast kind %s' % ck)

    def ev_MemberExpr(self, n):
        return self.lv(n)
    def field(self, objv, n):
        if objv.ty == 'cme':
            return V('%s_%s(%s)' % ('ckey' if n['name'] == 'first' else 'cval', objv.base[6:], objv.t), 'i32')
        if objv.ty.startswith('arr:u8:'):
            # union of a byte array and an array of 32-bit words over the same bytes (little-endian machine)
            mt = self.mapty(n['type'])
            if mt == objv.ty:
                return objv
            if mt == 'arr:u32:%d' % (int(objv.ty[7:]) // 4):
                self.drops.append('union member %s: read and written as little-endian words over the same bytes' % n['name'])
                return V('@le32:' + objv.t, mt)
        cls = objv.ty[5:] if objv.ty.startswith('stru:') else None
        fs = dict(self.structs.get(cls, []))
        ty = fs.get(n['name'])
        if ty is None:
            raise Unsupported('member %s of %s' % (n['name'], objv.ty))
        if ty == 'drop':
            return V('@drop', 'drop')
        v = V('%s.%s' % (objv.t, self.rname(n['name'])), ty)
        ov = self.unit.fields.get((cls, n['name']))
        if (ty.startswith('iter:') or ty.startswith('ptr:')):
            b = ov[1] if ov else None
            if b is None:
                raise Unsupported('pointer member %s needs @field' % n['name'])
            v.base = b.replace('this.', objv.t + '.')
            v.zt = len(ov) > 2 and ov[2] == 'zt'
        return v
    def lv(self, n):
        k = n.get('kind')
        if k in PASS or k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'LValueToRValue', 'UncheckedDerivedToBase', 'DerivedToBase'):
            return self.lv(n['inner'][0])
        if k == 'DeclRefExpr':
            return self.ev_DeclRefExpr(n)
        if k == 'MemberExpr':
            rd = self.tu.byid.get(n.get('referencedMemberDecl'))
            if rd is not None and rd.get('kind') == 'VarDecl':
                return self.ev_DeclRefExpr({'referencedDecl': {'id': rd['id'], 'kind': 'VarDecl', 'name': rd.get('name')}})
            o = self.ev(n['inner'][0])
            return self.field(o, n)
        if k == 'ArraySubscriptExpr':
            return self.index(n['inner'][0], n['inner'][1])
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ev(n['inner'][0])
            return self.deref(p)
        if k == 'CXXOperatorCallExpr':
            return self.ev_CXXOperatorCallExpr(n, False)
        if k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CXXMemberCallExpr', 'CallExpr', 'CXXStaticCastExpr'):
            return self.ev(n)
        raise Unsupported('lvalue ' + self.desc(n))
    def idx(self, v):
        if v.c is not None and v.c >= 0:
            return '%dusize' % v.c
        if v.ty == 'usize':
            return v.t
        if v.ty in ('u8', 'u32', 'u16'):
            return '(%s as usize)' % v.t
        v = self.intcast(v, 'i32') if v.ty in ('ch', 'i8', 'i16') else v
        return 'idx_%s(%s)' % (v.ty, v.t)
    def padd(self, p, iv, sign=1):
        """pointer + integer -> offset text.  The obligation is that the result stays within the object"""
        if iv.c is not None:
            c = iv.c * sign
            if c == 0:
                return p.t
            if re.fullmatch(r'\d+usize', p.t):
                return '%dusize' % (int(p.t[:-5]) + c)
            return '(%s %s %dusize)' % (p.t, '+' if c > 0 else '-', abs(c))
        if iv.ty in ('usize', 'u8', 'u32', 'u16'):
            t = self.idx(iv)
            if p.t == '0usize' and sign > 0:
                return t
            return '(%s %s %s)' % (p.t, '+' if sign > 0 else '-', t)
        if p.t == '0usize' and sign > 0:
            return self.idx(iv)
        iv = self.intcast(iv, 'i64') if iv.ty != 'i64' else iv
        return 'ptr_%s(%s, %s)' % ('add' if sign > 0 else 'sub', p.t, iv.t)
    def deref(self, p):
        ty = p.ty
        if p.base is None and p.t.startswith('(*'):
            return p    # scalar out-parameter passed by pointer
        if p.base is None and ty.startswith('stru:'):
            return p    # *this, or a dereferenced smart pointer
        if p.base is None:
            raise Unsupported('dereference of %s' % ty)
        e = elem(ty)
        if p.base.startswith('@cmap:'):
            return V(p.t, 'cme', base=p.base)
        if p.base.startswith('@tbl:'):
            return self.tblget(p.base[5:], p.t, e)
        if p.base.startswith('@le32:'):
            return V('le32_get(&%s, %s)' % (p.base[6:], p.t), e)
        if p.zt:
            return V('cz_at(&%s, %s)' % (p.base, p.t), e)
        return V('%s[%s]' % (p.base, p.t), e)
    def tblget(self, tn, ix, e):
        vals, ty = self.tables[tn]
        if vals and isinstance(vals[0], (bytes, bytearray)):
            return V('tget_%s(%s)' % (tn, ix), 'str', own=True, zt=True)
        return V('tget_%s(%s)' % (tn, ix), e)
    def index(self, bn, inode):
        pv, iv = self.evs([bn, inode])
        if pv.ty == 'str' and pv.own:   # string literal
            b = self.place(pv)
            return V('cz_at(&%s, %s)' % (b, self.idx(iv)), 'ch')
        if not (pv.ty.startswith('ptr:') or pv.ty.startswith('iter:')):
            raise Unsupported('subscript of %s' % pv.ty)
        p = V(self.padd(pv, iv), pv.ty, base=pv.base, zt=pv.zt)
        return self.deref(p)
    def ev_ArraySubscriptExpr(self, n):
        return self.index(n['inner'][0], n['inner'][1])

    def incdec(self, m, want, oper=False):
        if oper:
            op = self.opname(m)
            post = len(m['inner']) > 2
            target = m['inner'][1]
        else:
            op = m['opcode']
            post = m.get('isPostfix')
            target = m['inner'][0]
        v = self.lv(target)
        one = self.const(1, v.ty) if v.ty in INT else V('1usize', 'usize', c=1)
        r = None
        if want and post:
            t = self.tmp()
            self.emit('let %s = %s;' % (t, v.t))
            r = V(t, v.ty, base=v.base, zt=v.zt)
        if v.ty in INT:
            nv = self.arith('+' if op == '++' else '-', V(v.t, v.ty), one, v.ty)
            self.emit('%s = %s;' % (v.t, nv.t))
        elif v.ty.startswith('ptr:') or v.ty.startswith('iter:'):
            self.emit('%s = %s %s 1usize;' % (v.t, v.t, '+' if op == '++' else '-'))
        else:
            raise Unsupported('++ on ' + v.ty)
        if want and not post:
            r = v
        return r

    def ev_UnaryOperator(self, n):
        op = n['opcode']
        if op in ('++', '--'):
            return self.incdec(n, True)
        if op == '*':
            return self.lv(n)
        if op == '&':
            sub = n['inner'][0]
            v = self.lv(sub)
            mm = re.fullmatch(r'(.*)\[(.*)\]', v.t)
            if mm and v.ty in INT:
                return V(mm.group(2), 'ptr:' + v.ty, base=mm.group(1))
            mm = re.fullmatch(r'cz_at\(&?([\w.]+), (.*)\)', v.t)
            if mm and v.ty == 'ch':
                return V(mm.group(2), 'ptr:ch', base=mm.group(1))
            return V(v.t, v.ty, extra='addr')
        v = self.ev(n['inner'][0])
        ty = self.mapty(n['type'])
        if op == '!':
            v = self.tobool(v)
            if v.c is not None:
                return self.const(0 if v.c else 1, 'bool')
            return V('(!%s)' % v.t, 'bool')
        if op == '-':
            if v.c is not None:
                return self.const(-v.c, ty)
            return self.arith('-', self.const(0, ty), v, ty)
        if op == '+':
            return v
        if op == '~':
            if v.c is not None:
                return self.const(~v.c, ty)
            return V('(!%s)' % v.t, ty)
        raise Unsupported('unary ' + op)

    def arith(self, op, a, b, ty):
        if a.c is not None and b.c is not None and op in '+-*&|^' or (a.c is not None and b.c is not None and op in ('<<', '>>', '/', '%')):
            x, y = a.c, b.c
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y, '/': lambda: int(x / y) if abs(x) < 2**50 else x // y, '%': lambda: x - y * int(x / y) if abs(x) < 2**50 else x % y}[op]()
            except ZeroDivisionError:
                raise Unsupported('division by zero')
            return self.const(r, ty)
        bits, signed = INT[ty]
        if signed:
            if op in '+-*&|^':
                return V('(%s %s %s)' % (a.t, op, b.t), ty)
            if op in ('/', '%'):
                return V('s%s_%s(%s, %s)' % ('div' if op == '/' else 'rem', ty, a.t, b.t), ty)
            if op in ('<<', '>>'):
                return V('(%s %s %s)' % (a.t, op, b.t), ty)
        else:
            if op in '+-*':
                if ty in ('usize', 'u32'):
                    return V('%s_%s(%s, %s)' % ({'+': 'uadd', '-': 'usub', '*': 'umul'}[op], ty, a.t, b.t), ty)
                raise Unsupported('arithmetic on ' + ty)
            if op in ('/', '%', '&', '|', '^', '<<', '>>'):
                return V('(%s %s %s)' % (a.t, op, b.t), ty)
        raise Unsupported('operator %s on %s' % (op, ty))

    def strip(self, n):
        while n.get('kind') in PASS:
            n = n['inner'][0]
        return n
    def charside(self, n):
        """an int-typed operand that is really a char / small constant: V of type ch, or None"""
        m = self.strip(n)
        if m.get('kind') == 'ImplicitCastExpr' and m.get('castKind') == 'IntegralCast':
            s = m['inner'][0]
            st = self._try(s['type'])
            if st in ('ch', 'u8'):
                return ('v', s, st)
            return None
        if m.get('kind') == 'IntegerLiteral':
            return ('c', int(m['value']), None)
        if m.get('kind') == 'CharacterLiteral':
            return ('c', int(m['value']), None)
        return None

    def dyncast(self, a, b):
        """dynamic_cast<T*>(x) compared with null: T_is(&x)"""
        def core(x):
            while x.get('kind') in PASS or x.get('kind') == 'ImplicitCastExpr':
                x = x['inner'][0]
            return x
        for x, y in ((a, b), (b, a)):
            x, y = core(x), core(y)
            if x.get('kind') == 'CXXDynamicCastExpr' and y.get('kind') in ('GNUNullExpr', 'CXXNullPtrLiteralExpr', 'IntegerLiteral'):
                v = self.lvobj(x['inner'][0])
                if v.ty.startswith('stru:'):
                    nm = re.sub(r'[*&\s]|const|\w+::', '', x['type']['qualType'])
                    return '%s_is(%s)' % (nm, self.ref(v))
        return None
    def typeid(self, n):
        v = self.lvobj(n['inner'][0])
        if v.ty.startswith('stru:'):
            return '%s_typeid(%s)' % (v.ty[5:], self.ref(v))
        raise Unsupported('typeid')

    def ev_BinaryOperator(self, n, stmt=False):
        op = n['opcode']
        a, b = n['inner']
        if op in ('==', '!='):
            d = self.dyncast(a, b)
            if d:
                return V(d if op == '!=' else '(!%s)' % d, 'bool')
            for x, y in ((a, b), (b, a)):
                # is this pointer the object itself?  (asked of the contract)
                if self.strip(y).get('kind') == 'CXXThisExpr' and '*' in x.get('type', {}).get('qualType', ''):
                    o = self.lvobj(x)
                    if o.ty.startswith('stru:'):
                        t = '%s_is_me(%s)' % (o.ty[5:], self.ref(o))
                        return V(t if op == '==' else '(!%s)' % t, 'bool')
        if op == '=':
            return self.assign(a, b)
        if op == ',':
            self.exprstmt(a)
            return self.ev(b)
        if op in ('&&', '||'):
            va = self.tobool(self.ev(a))
            saved = self.out; self.out = []
            self.ind += 1
            vb = self.tobool(self.ev(b))
            self.ind -= 1
            pre = self.out; self.out = saved
            if not pre:
                return V('(%s %s %s)' % (va.t, op, vb.t), 'bool')
            t = self.tmp()
            self.emit('let mut %s: bool = %s;' % (t, va.t))
            self.emit('if %s%s {' % ('' if op == '&&' else '!', t))
            self.out += pre
            self.emit('    %s = %s;' % (t, vb.t))
            self.emit('}')
            return V(t, 'bool')
        if op in ('==', '!='):
            ca, cb = self.charside(a), self.charside(b)
            if ca and cb and (ca[0] == 'v' or cb[0] == 'v'):
                ok = True
                tys = [x[2] for x in (ca, cb) if x[0] == 'v']
                if len(set(tys)) != 1:
                    ok = False
                for x in (ca, cb):
                    if x[0] == 'c' and not (0 <= x[1] < 128):
                        ok = False
                if ok:
                    ops = [x[1] if x[0] == 'v' else self.const(x[1], tys[0]) for x in (ca, cb)]
                    va, vb = self.evs(ops)
                    return V('(%s %s %s)' % (va.t, op, vb.t), 'bool')
        va, vb = self.evs([a, b])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            pa = va.ty.split(':')[0] in ('ptr', 'iter')
            pb = vb.ty.split(':')[0] in ('ptr', 'iter')
            if pa and pb:
                if va.base != vb.base:
                    raise Unsupported('comparison of pointers into different objects (%s, %s)' % (va.base, vb.base))
                return V('(%s %s %s)' % (va.t, op, vb.t), 'bool')
            if op in ('==', '!='):
                for x, y in ((va, vb), (vb, va)):
                    if y.ty == 'null' and x.ty.startswith('stru:') and x.ty[5:] in self.unit.objs:
                        return V('(%s%s_isset(%s))' % ('!' if op == '==' else '', x.ty[5:], self.argref(x)), 'bool')
            if va.ty not in INT and va.ty != 'bool' or vb.ty not in INT and vb.ty != 'bool':
                raise Unsupported('comparison of %s and %s at line %s' % (va.ty, vb.ty, n.get('_bline')))
            if va.c is not None and vb.c is not None:
                return self.const(int(eval('%d %s %d' % (va.c, op, vb.c))), 'bool')
            return V('(%s %s %s)' % (va.t, op, vb.t), 'bool')
        pa = va.ty.split(':')[0] in ('ptr', 'iter')
        pb = vb.ty.split(':')[0] in ('ptr', 'iter')
        if pa and pb and op == '-':
            if va.base != vb.base:
                raise Unsupported('difference of pointers into different objects')
            return V('ptr_diff(%s, %s)' % (va.t, vb.t), 'i64', extra=('pdiff', va.t, vb.t))
        if pa and op in '+-':
            return V(self.padd(va, vb, 1 if op == '+' else -1), va.ty, base=va.base, zt=va.zt)
        if pb and op == '+':
            return V(self.padd(vb, va, 1), vb.ty, base=vb.base, zt=vb.zt)
        ty = self.mapty(n['type'])
        if op in ('<<', '>>'):
            return self.arith(op, va, vb, ty)
        if ty == 'bool':
            if op in '&|^':
                return V('(%s %s %s)' % (va.t, {'&': '&&', '|': '||', '^': '!='}[op], vb.t), 'bool')
        return self.arith(op, va, vb, ty)

    def assign(self, a, b):
        vb = self.ev(b)
        before = len(self.out)
        va = self.lv(a)
        if len(self.out) > before and vb.c is None and not re.fullmatch(r't\d+__', vb.t) and COPY(vb.ty):
            t = self.tmp()
            self.out.insert(before, '    ' * self.ind + 'let %s = %s;' % (t, vb.t))
            vb.t = t
        return self.store(va, vb)
    def store(self, va, vb):
        if va.t.startswith('le32_get('):
            mm = re.fullmatch(r'le32_get\(&(.*?), (.*)\)', va.t)
            vb = self.intcast(vb, 'u32')
            nm = self.tmp()
            self.emit('let %s: u32 = %s;' % (nm, vb.t))
            self.emit('le32_set(%s, %s, %s);' % (self.mref(mm.group(1)), mm.group(2), nm))
            return V(nm, 'u32')
        if va.t.startswith('cz_at('):
            mm = re.fullmatch(r'cz_at\(&(.*?), (.*)\)', va.t)
            va = V('%s[%s]' % (mm.group(1), mm.group(2)), va.ty)
        if va.ty.split(':')[0] in ('ptr', 'iter'):
            if vb.base is not None and va.base != vb.base:
                raise Unsupported('pointer reassigned to a different object (%s -> %s)' % (va.base, vb.base))
        elif va.ty in INT and vb.ty != va.ty:
            vb = self.intcast(vb, va.ty)
        mm = re.fullmatch(r'((?:\w|\.|\(\*\w+\))+)\[(.*)\]', va.t)
        if mm:
            # evaluate the stored value before borrowing
            t = vb.t
            if '(' in t or '[' in t:
                nm = self.tmp()
                self.emit('let %s: %s = %s;' % (nm, rustty(va.ty), self.owned(vb)))
                t = nm
            ix = mm.group(2)
            if not re.fullmatch(r'\w+', ix):
                nm = self.tmp()
                self.emit('let %s: usize = %s;' % (nm, ix))
                ix = nm
            self.emit('%s.set(%s, %s);' % (mm.group(1), ix, t))
            return V('%s[%s]' % (mm.group(1), ix), va.ty)
        self.emit('%s = %s;' % (va.t, self.owned(vb)))
        return va

    def ev_CompoundAssignOperator(self, n, stmt=False):
        op = n['opcode'][:-1]
        a, b = n['inner']
        vb = self.ev(b)
        before = len(self.out)
        va = self.lv(a)
        if va.ty.split(':')[0] in ('ptr', 'iter'):
            self.emit('%s = %s;' % (va.t, self.padd(va, vb, 1 if op == '+' else -1)))
            return va
        if va.ty == 'bool':
            vb = self.tobool(vb)
            self.emit('%s = %s %s %s;' % (va.t, va.t, {'&': '&&', '|': '||', '^': '!='}[op], vb.t))
            return va
        cty = self.mapty(n.get('computeLHSType', n['type']))
        rty = self.mapty(n.get('computeResultType', n['type']))
        x = self.intcast(va, cty)
        if op in ('<<', '>>'):
            r = self.arith(op, x, vb, rty)
        else:
            r = self.arith(op, x, self.intcast(vb, cty), rty)
        r = self.intcast(r, va.ty)
        return self.store(va, r)

    def ev_ConditionalOperator(self, n):
        c = self.tobool(self.ev(n['inner'][0]))
        saved = self.out
        self.out = []
        self.ind += 1
        va = self.ev(n['inner'][1])
        ta = self.owned(va)
        p1 = self.out; self.out = []
        vb = self.ev(n['inner'][2])
        tb = self.owned(vb)
        p2 = self.out
        self.out = saved
        self.ind -= 1
        ty = va.ty
        if ty == 'null':
            ty = vb.ty
        if va.base != vb.base:
            raise Unsupported('conditional pointer')
        if not p1 and not p2 and COPY(ty):
            return V('(if %s { %s } else { %s })' % (c.t, ta, tb), ty, base=va.base)
        t = self.tmp()
        self.emit('let %s: %s;' % (t, rustty(ty)))
        self.emit('if %s {' % c.t)
        self.out += p1
        self.emit('    %s = %s;' % (t, ta))
        self.emit('} else {')
        self.out += p2
        self.emit('    %s = %s;' % (t, tb))
        self.emit('}')
        return V(t, ty, base=va.base)

    def ev_InitListExpr(self, n):
        ty = self.mapty(n['type'])
        if ty.startswith('arr:'):
            e, c = ty[4:].rsplit(':', 1)
            vals = self.constvals(n)
            c = int(c)
            vals = vals[:c] + [0] * (c - len(vals))
            if len(set(vals)) == 1 and SCALAR(e):
                return V('arr_fill_%s(%dusize, %s)' % (rustty(e), c, self.const(vals[0], e).t), ty, own=True)
            if rustty(e) == 'u8':
                t = self.tmp()
                self.emit('let %s: Vec<u8> = %s;' % (t, self.lit(bytes(x & 255 for x in vals))))
                return V(t, ty, own=True)
        if SCALAR(ty):
            if n.get('inner'):
                return self.ev(n['inner'][0])
            return self.const(0, ty)
        raise Unsupported('initialiser list for ' + ty)
    def ev_ImplicitValueInitExpr(self, n):
        return self.const(0, self.mapty(n['type']))
    def ev_CXXScalarValueInitExpr(self, n):
        return self.const(0, self.mapty(n['type']))

    def ev_CXXConstructExpr(self, n):
        ty = self.mapty(n['type'])
        args = [a for a in n.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
        if ty == 'drop':
            return V('@drop', 'drop')
        if ty == 'oss':
            return V('Vec::new()', 'oss', own=True)
        if ty == 'iss':
            v = self.ev(args[0])
            return V(self.owned(v), 'iss', own=True)
        if ty == 'str':
            return self.strctor(args, n)
        if ty.startswith('vec:'):
            if not args:
                return V('Vec::new()', ty, own=True)
            if len(args) == 1:
                v = self.ev(args[0])
                if v.ty == ty:
                    return v
                if v.ty in INT and elem(ty) in ('u8', 'i32'):
                    return V('arr_fill_%s(%s, 0)' % (elem(ty), v.t), ty, own=True)
            raise Unsupported('vector constructor')
        if ty.startswith('iter:') or ty.startswith('ptr:'):
            if len(args) == 1:
                return self.ev(args[0])
            raise Unsupported('iterator constructor')
        if ty.startswith('stru:'):
            if len(args) == 1 and self._try(args[0]['type']) == ty:
                return self.ev(args[0])
            if len(args) == 1 and self._try(args[0]['type']) == 'ptr:' + ty and args[0].get('kind') == 'CXXNewExpr':
                return self.ev(args[0])
            if ty[5:] in self.unit.objs and not args and ((ty[5:], 0) not in self.unit.ctors or re.search(r'ptr|\*', json.dumps(n['type']))):
                return V('%s_null()' % ty[5:], ty, own=True)
            sp = self.unit.ctors.get((ty[5:], len(args)))
            if sp:
                v = self.extern(sp, args, False)
                v.own = True
                return v
            # constructor under contract?
            for f in self.unit.fns:
                if f.is_ctor_of == ty[5:] and f.node is not None:
                    ct = n.get('ctorType', {}).get('qualType', '')
                    if f.node['type']['qualType'] == ct:
                        return self.callinfo(f, None, n.get('inner', []), False)
            if ty[5:] in self.unit.objs and re.match(r'void \((std::)?nullptr_t\)', n.get('ctorType', {}).get('qualType', '')):
                return V('%s_null()' % ty[5:], ty, own=True)
            if ty.startswith('stru:') and ty[5:] in self.unit.objs and n.get('ctorType', {}).get('qualType', '').startswith('void (pointer)'):
                # a smart pointer takes the object
                v = self.ev(n['inner'][0])
                if v.ty == ty:
                    return V(v.t, ty, own=True)
            raise Unsupported('constructor of %s %s' % (ty, n.get('ctorType', {}).get('qualType')))
        if ty in ('in', 'out', 'props'):
            if len(args) == 1:
                return self.ev(args[0])
            if ty == 'props':
                return V('default_props()', ty, own=True)
        if ty.startswith('arr:') and not args:
            return self.default(ty)
        raise Unsupported('construction of %s' % ty)
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def strctor(self, args, n):
        if not args:
            return V('Vec::new()', 'str', own=True)
        ts = [self._try(a['type']) for a in args]
        if len(args) == 1:
            v = self.ev(args[0])
            if v.ty == 'str':
                return v
            if v.ty.startswith('ptr:'):
                return V('str_from_cz(%s, %s)' % (self.bref(v), v.t), 'str', own=True)
        vs = self.evs(args)
        if len(vs) == 2:
            a, b = vs
            if a.base is not None and b.base is not None:
                if a.base != b.base:
                    raise Unsupported('string range over two objects')
                return V('str_range(%s, %s, %s)' % (self.bref(a), a.t, b.t), 'str', own=True)
            if a.ty == 'usize' and b.ty == 'ch':
                return V('str_repeat(%s, %s)' % (a.t, b.t), 'str', own=True)
            if a.base is not None and b.ty == 'usize':
                return V('str_range(%s, %s, ptr_plus(%s, %s))' % (self.bref(a), a.t, a.t, b.t), 'str', own=True)
            if a.ty == 'str' and b.ty == 'usize' and a.own:
                return V('str_range(%s, 0usize, %s)' % (self.ref(a), b.t), 'str', own=True)
        if len(vs) == 3 and vs[0].ty == 'str':
            return V('str_substr(%s, %s, %s)' % (self.ref(vs[0]), vs[1].t, vs[2].t), 'str', own=True)
        raise Unsupported('string constructor (%s) line %s' % (', '.join(v.ty for v in vs), n.get('_bline')))
    def bref(self, v):
        b = v.base
        if b.startswith('@tbl:'):
            raise Unsupported('table as object')
        if b in self.refparams():
            return b
        return '&' + b
    def refparams(self):
        return {self.rname(p.get('name', '')) for p, ty, mode in self.f.params if mode in ('ref', 'ptr')}
    def mref(self, t):
        """text for a &mut argument from a place"""
        muts = {self.rname(p.get('name', '')) for p, ty, mode in self.f.params if mode in ('mut', 'ptrmut') and not COPY(ty) or mode == 'ptrmut'}
        if t in muts or t == 'this' and self.f.is_method and not self.f.nothis:
            return t
        m = re.fullmatch(r'\(\*(\w+)\)', t)
        if m:
            return m.group(1)
        return '&mut ' + t
    def argref(self, v):
        t = v.t
        if v.own:
            n = self.tmp()
            self.emit('let %s = %s;' % (n, t))
            return '&' + n
        if t in self.refparams():
            return t
        return '&' + t

    # ---------- calls
    def opname(self, m):
        c = m['inner'][0]
        while c.get('kind') in PASS or c.get('kind') == 'ImplicitCastExpr':
            c = c['inner'][0]
        nm = c.get('referencedDecl', {}).get('name', '')
        return nm.replace('operator', '', 1).strip()

    def callinfo(self, f, objv, argnodes, stmt):
        """call of a function under contract"""
        vals = []
        pairs = [(p, a) for p, a in zip(f.params, argnodes)]
        ev = []
        for (p, ty, mode), a in pairs:
            if mode == 'drop':
                ev.append(None)
                continue
            if a.get('kind') == 'CXXDefaultArgExpr':
                ev.append(self.defarg(p, ty, f))
                continue
            ev.append(a)
        texts = []
        vs = []
        idxs = [i for i, x in enumerate(ev) if x is not None]
        res = []
        nodes = [ev[i] for i in idxs]
        out = []
        r = []
        for i, x in zip(idxs, nodes):
            mode = pairs[i][0][2]
            out.append((i, x, mode))
        vals = {}
        plain = [(i, x) for i, x, m in out if m not in ('mut', 'ptrmut')]
        pv = self.evs([x for i, x in plain])
        for (i, x), v in zip(plain, pv):
            vals[i] = v
        for i, x, m in out:
            if m == 'mut' and not isinstance(x, V) and pairs[i][0][0].get('name') in f.outptrs and self._isnull(x):
                # no result wanted: written to a variable that nobody reads
                t = self.tmp()
                self.emit('let mut %s: %s = 0;' % (t, rustty(pairs[i][0][1])))
                vals[i] = V(t, pairs[i][0][1])
            elif m in ('mut', 'ptrmut'):
                vals[i] = self.lv(x) if not isinstance(x, V) and m == 'mut' and not self._isaddr(x) else (self.ev(x) if not isinstance(x, V) else x)
        if f.is_method and not f.nothis:
            if objv is None:
                raise Unsupported('method call without object')
            if (f.is_const or f.constthis) and not f.mutthis:
                texts.append(objv.t if objv.t == 'this' and not self.f.is_ctor and self.f.is_const else '&' + objv.t if objv.t != 'this' or self.f.is_ctor else '&*this' if not self.f.is_const else 'this')
            else:
                texts.append(objv.t if objv.t == 'this' and not self.f.is_ctor else self.mref(objv.t))
        for i in idxs:
            p, ty, mode = pairs[i][0]
            v = vals[i]
            if ty.startswith('fn:'):
                texts.append(v.t)
                continue
            if mode == 'val':
                if ty in INT and v.ty in INT and v.ty != ty:
                    v = self.intcast(v, ty)
                texts.append(self.owned(v))
            elif mode == 'ref':
                texts.append(self.argref(v))
            elif mode == 'mut':
                texts.append(self.mref(v.t))
            elif mode == 'iter':
                want = f.iterbase.get(p.get('name'))
                texts.append(v.t)
            elif mode in ('ptr', 'ptrmut'):
                if v.ty == 'str' and (v.own or v.zt):
                    b = self.place(v)
                    texts.append(('&mut ' if mode == 'ptrmut' else '&') + b)
                    texts.append('0usize')
                    continue
                if v.base is None and v.extra == 'addr' and mode == 'ptr' and v.ty == 'u8':
                    t = self.tmp()      # const pointer to one byte: an array of one element
                    self.emit('let %s = arr_fill_u8(1, %s);' % (t, v.t))
                    texts += ['&' + t, '0usize']
                    continue
                if v.base is None:
                    raise Unsupported('pointer argument without base')
                if mode == 'ptr':
                    texts.append(self.bref(v))
                else:
                    texts.append(self.mref(v.base))
                texts.append(v.t)
        for xa in f.extraargs:
            mb = re.fullmatch(r'\{base:(\w+)\}', xa)
            if mb:
                xv = [vals[i] for i in idxs if pairs[i][0][0].get('name') == mb.group(1)][0]
                xa = self.bref(xv)
            texts.append(xa)
        if f.is_method and not f.is_const and texts and texts[0] == 'this':
            for i in range(1, len(texts)):
                if re.fullmatch(r'&this\.\w+', texts[i]):
                    # a member passed by pointer to a member function that may change the object: passed as a copy
                    t = self.tmp()
                    self.emit('let %s = str_clone(%s);' % (t, texts[i]))
                    texts[i] = '&' + t
        call = '%s(%s)' % (f.rname, ', '.join(texts))
        rty = f.ret if not f.is_ctor else 'stru:' + f.cls
        if f.throws:
            if not self.f.throws:
                raise Unsupported('call of throwing %s from a function not declared @throws' % f.rname)
            t = self.tmp()
            self.guarded(t, call)
            return V(t, rty, own=False, base=f.retbase)
        if rty == 'void':
            if stmt:
                self.emit(call + ';')
                return V('', 'void')
            return V(call, 'void')
        t = self.tmp()
        self.emit('let %s%s = %s;' % ('mut ' if not COPY(rty) else '', t, call))
        return V(t, rty, base=f.retbase)
    def _isaddr(self, x):
        m = x
        while m.get('kind') in PASS or m.get('kind') == 'ImplicitCastExpr':
            m = m['inner'][0]
        return m.get('kind') == 'UnaryOperator' and m.get('opcode') == '&'
    def _isnull(self, x):
        while x.get('kind') in PASS or x.get('kind') == 'ImplicitCastExpr' and x.get('castKind') != 'NullToPointer':
            x = x['inner'][0]
        return x.get('castKind') == 'NullToPointer' or x.get('kind') in ('GNUNullExpr', 'CXXNullPtrLiteralExpr')

    def defarg(self, p, ty, f):
        d = p
        if not d.get('inner'):
            # the default is on the first declaration
            for q in self.tu.decls.get(f.qname, []):
                for pp in q.get('inner', []):
                    if pp.get('kind') == 'ParmVarDecl' and pp.get('name') == p.get('name') and pp.get('inner'):
                        return self.ev(pp['inner'][0])
            raise Unsupported('default argument of %s' % p.get('name'))
        return self.ev(d['inner'][0])

    def inline(self, node, objv, argnodes, stmt):
        """call of a function with no contract: its body is translated in place"""
        if self.depth_inline > 3:
            raise Unsupported('inline depth')
        qn = self.tu.qname[node['id']]
        body = [c for c in node['inner'] if c.get('kind') == 'CompoundStmt'][0]
        if self.has(body, self.LOOPS) and False:
            raise Unsupported('inlined function with loops: ' + qn)
        for lp in self.LOOPS:
            for l in self._find(body, lp):
                if self.has(l, ('ReturnStmt',)):
                    raise Unsupported('return inside a loop of inlined ' + qn)
        self.inlined.append(qn)
        params = [p for p in node['inner'] if p.get('kind') == 'ParmVarDecl']
        assigned = self._assigned_ids(node)
        binds = []
        for p, a in zip(params, argnodes):
            ty = self.mapty(p['type'])
            pt = (p['type'].get('desugaredQualType') or p['type']['qualType']).strip()
            ref = pt.endswith('&') or p['type']['qualType'].strip().endswith('&')
            const = pt.startswith('const ') or p['type']['qualType'].startswith('const ')
            if ty in ('drop', 'ptr:drop'):
                self.names[p['id']] = '@drop'
                self.vty[p['id']] = 'drop'
                continue
            if a.get('kind') == 'CXXDefaultArgExpr':
                v = self.ev(p['inner'][0])
            elif ref and not const:
                v = self.lv(a)
            else:
                v = self.ev(a)
            binds.append((p, ty, ref, const, v))
        for p, ty, ref, const, v in binds:
            self.vty[p['id']] = v.ty if v.base is not None else ty
            if ref and not const or (ref and not v.own and not COPY(ty)) or ty in ('in', 'out'):
                self.names[p['id']] = v.t
                if v.base is not None:
                    self.bases[p['id']] = v.base
                continue
            if v.c is not None and p['id'] not in assigned:
                self.names[p['id']] = v.t
                continue
            nm = self.tmp()
            self.emit('let mut %s: %s = %s;' % (nm, rustty(ty), self.owned(v)))
            self.names[p['id']] = nm
            if v.base is not None:
                self.bases[p['id']] = v.base
                if v.zt:
                    self.zts.add(p['id'])
        ft = node['type']['qualType']
        rty = self.mapts(ft[:ft.index('(')].strip())
        simple = len(body.get('inner', [])) == 1 and body['inner'][0]['kind'] == 'ReturnStmt' and body['inner'][0].get('inner')
        self.depth_inline += 1
        sv = (self.exits, self.retstack, self.thisname, self.f.cls)
        svthis = self.cur_this if hasattr(self, 'cur_this') else None
        try:
            if simple:
                v = self.ev(body['inner'][0]['inner'][0])
                return v
            rv = None
            if rty != 'void':
                rv = self.tmp()
                if COPY(rty):
                    self.emit('let mut %s: %s = %s;' % (rv, rustty(rty), self.default(rty).t if not rty.split(':')[0] in ('iter', 'ptr') else '0usize'))
                else:
                    self.emit('let mut %s: %s = %s;' % (rv, rustty(rty), self.default(rty).t))
            self.emit('{'); self.ind += 1
            self.exits = [('ReturnStmt',)]
            self.retstack = self.retstack + [(rv, rty)]
            self.retstack_base = None
            self.stmts(body.get('inner', []))
            self.ind -= 1; self.emit('}')
            return V(rv or '', rty, base=self.retstack_base)
        finally:
            self.exits, self.retstack = sv[0], sv[1]
            self.depth_inline -= 1
    retstack_base = None
    def _find(self, n, kind):
        if isinstance(n, dict):
            if n.get('kind') == kind:
                yield n
            for c in n.get('inner', []) or []:
                yield from self._find(c, kind)

    def resolve_def(self, did):
        d = self.tu.byid.get(did)
        if d is None:
            return None, None
        f = self.canon(d)
        if f is not None:
            return f, None
        qn = self.tu.qname.get(did)
        sig = d.get('type', {}).get('qualType')
        for x in self.tu.funcs.get(qn, []):
            if x['type']['qualType'] == sig:
                return None, x
        return None, None

    def ev_CallExpr(self, n, stmt=False):
        c = n['inner'][0]
        while c.get('kind') in PASS or c.get('kind') == 'ImplicitCastExpr':
            c = c['inner'][0]
        if c.get('kind') == 'MemberExpr':   # static method through object
            did = c.get('referencedMemberDecl')
            name = c.get('name')
        elif c.get('kind') == 'DeclRefExpr':
            did = c['referencedDecl']['id']
            name = c['referencedDecl'].get('name')
        else:
            raise Unsupported('indirect call')
        args = n['inner'][1:]
        if self.vty.get(did, '').startswith('fn:'):
            return self.callfn(did, args)
        f, d = self.resolve_def(did)
        if f is not None:
            return self.callinfo(f, None, args, stmt)
        if self.tu.qname.get(did) in self.unit.externs:
            return self.extern(self.unit.externs[self.tu.qname.get(did)], args, stmt)
        if d is not None:
            return self.inline(d, None, args, stmt)
        return self.freefn(name, args, n, stmt)

    def callfn(self, did, args):
        """call of a function object passed as a parameter"""
        _, a, r = self.vty[did].split(':')
        v = self.ev(args[0])
        if a in INT and v.ty in INT and v.ty != a:
            v = self.intcast(v, a)
        t = self.tmp()
        self.emit('let %s = %s(%s);' % (t, self.names[did], v.t))
        return V(t, r)
    def ev_LambdaExpr(self, n):
        op = [x for x in self._find(n, 'CXXMethodDecl') if x.get('name') == 'operator()'][0]
        ps = [c for c in op.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        bd = [c for c in op.get('inner', []) if c.get('kind') == 'CompoundStmt'][0].get('inner', [])
        if len(bd) != 1 or bd[0].get('kind') != 'ReturnStmt':
            raise Unsupported('lambda with more than a return statement')
        hd = []
        for p in ps:
            ty = self.mapty(p['type'])
            if not SCALAR(ty):
                raise Unsupported('lambda parameter of type ' + ty)
            self.names[p['id']] = p['name']
            self.vty[p['id']] = ty
            hd.append('%s: %s' % (p['name'], rustty(ty)))
        k = len(self.out)
        v = self.ev(bd[0]['inner'][0])
        if len(self.out) != k:
            raise Unsupported('lambda body is not a simple expression')
        return V('|%s| -> (r: %s) ensures r == (%s) { %s }' % (', '.join(hd), rustty(v.ty), v.t, v.t), 'fn', own=True)
    def freefn(self, name, args, n, stmt):
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if name in ('min', 'max') and len(args) == 2:
            a, b = self.evs(args)
            return V('%s_%s(%s, %s)' % (name, rustty(a.ty), a.t, b.t), a.ty)
        if name in ('memcpy', 'memmove'):
            d, s, l = self.evs(args)
            if s.ty == 'str' and s.own:
                s = V('0usize', 'ptr:ch', base=self.place(s))
            if d.base is None and d.ty.startswith('arr:u8:'):
                d = V('0usize', 'ptr:u8', base=d.t)
            if d.base == s.base:
                self.emit('buf_move%s(%s, %s, %s, %s);' % ('_apart' if name == 'memcpy' else '', self.mref(d.base), d.t, s.t, l.t))
            else:
                self.emit('buf_copy(%s, %s, %s, %s, %s);' % (self.mref(d.base), d.t, self.bref(s), s.t, l.t))
            return V('', 'void')
        if name == 'memcmp':
            a, b, l = self.evs(args)
            a, b = [V('0usize', 'ptr:ch', base=self.place(x)) if x.ty == 'str' and x.own else x for x in (a, b)]
            return V('buf_cmp(%s, %s, %s, %s, %s)' % (self.bref(a), a.t, self.bref(b), b.t, l.t), 'i32')
        if name == 'memset':
            d, c, l = self.evs(args)
            cv = self.intcast(c, 'u8')
            if d.base is None and d.ty.startswith('arr:'):
                d = V('0usize', 'ptr:' + elem(d.ty), base=d.t)
            if d.ty == 'ptr:u32' and cv.c == 0 and d.base and not d.base.startswith('@'):
                self.emit('buf_zero_u32(%s, %s, %s);' % (self.mref(d.base), d.t, l.t))
                return V('', 'void')
            self.emit('buf_set(%s, %s, %s, %s);' % (self.mref(d.base), d.t, cv.t, l.t))
            return V('', 'void')
        if name == 'copy' and len(args) == 3:
            s, e, d = self.evs(args)
            if s.base != e.base:
                raise Unsupported('std::copy over two objects')
            if rustty(elem(s.ty)) in ('usize', 'u32') and s.ty == d.ty:
                self.emit('vec_copy_%s(%s, %s, %s, %s, %s);' % (rustty(elem(s.ty)), self.mref(d.base), d.t, self.bref(s), s.t, e.t))
                return V('', 'void')
            if s.ty == d.ty and elem(s.ty).startswith('stru:'):
                self.emit('vec_copy_%s(%s, %s, %s, %s, %s);' % (elem(s.ty)[5:], self.mref(d.base), d.t, self.bref(s), s.t, e.t))
                return V('', 'void')
            self.emit('buf_copy_range(%s, %s, %s, %s, %s);' % (self.mref(d.base), d.t, self.bref(s), s.t, e.t))
            return V('', 'void')
        if name == 'sort' and len(args) == 2:
            s, e = self.evs(args)
            if s.base is None or s.base != e.base or (rustty(elem(s.ty)) not in ('usize', 'u32') and elem(s.ty) != 'str'):
                raise Unsupported('std::sort')
            t, u = self.tmp(), self.tmp()
            self.emit('let %s: usize = %s; let %s: usize = %s;' % (t, s.t, u, e.t))
            self.emit('vec_sort_%s(%s, %s, %s);' % ('str' if elem(s.ty) == 'str' else rustty(elem(s.ty)), self.mref(s.base), t, u))
            return V('', 'void')
        if name == 'fill' and len(args) == 3:
            s, e, c = self.evs(args)
            if s.base != e.base:
                raise Unsupported('std::fill over two objects')
            cv = self.intcast(c, 'u8')
            self.emit('buf_fill_range(%s, %s, %s, %s);' % (self.mref(s.base), s.t, e.t, cv.t))
            return V('', 'void')
        if name == 'find' and len(args) == 3:
            s, e, c = self.evs(args)
            if s.base != e.base:
                raise Unsupported('std::find over two objects')
            w = rustty(elem(s.ty)) if s.ty.startswith('iter:') and not s.ty.startswith('iter:u8') else 'u8'
            cv = self.intcast(c, w)
            t = self.tmp()
            self.emit('let %s: usize = %s_find%s(%s, %s, %s, %s);' % (t, 'buf' if w == 'u8' else 'vec', '' if w == 'u8' else '_' + w, self.bref(s), s.t, e.t, cv.t))
            return V(t, s.ty, base=s.base)
        if name == 'getline' and len(args) == 3:
            o, d, c = self.lvobj(args[0]), self.lvobj(args[1]), self.ev(args[2])
            if o.ty != 'iss' or d.ty != 'str':
                raise Unsupported('getline of ' + o.ty)
            t = self.tmp()
            self.emit('let %s: bool = iss_getline(%s, %s, %s);' % (t, self.mref(o.t), self.mref(d.t), self.intcast(c, 'u8').t))
            return V(t, 'bool')
        if name == 'equal' and len(args) == 3:
            s, e, d = self.evs(args)
            if s.base != e.base:
                raise Unsupported('std::equal over two objects')
            t = self.tmp()
            self.emit('let %s: bool = buf_equal(%s, %s, %s, %s, %s);' % (t, self.bref(s), s.t, e.t, self.bref(d), d.t))
            return V(t, 'bool')
        if name in ('move', 'forward', 'dynamicCast', 'dynamic_pointer_cast', 'static_pointer_cast'):
            v = self.ev(args[0])
            if name == 'dynamic_pointer_cast' and v.ty != self.mapty(n['type']):
                raise Unsupported('dynamic_pointer_cast from %s' % v.ty)
            return v
        if name in ('tolower', 'toupper') and len(args) == 1:
            v = self.ev(args[0])
            return V('%s_i32(%s)' % (name, v.t), 'i32')
        if name in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isxdigit', 'isupper', 'islower'):
            v = self.ev(args[0])
            return V('%s_i32(%s)' % (name, v.t), 'i32')
        if name in ('strlen',):
            v = self.ev(args[0])
            if v.ty == 'str':
                return V('cz_len(%s)' % self.argref(v), 'usize')
        if name in ('distance',):
            a, b = self.evs(args)
            if a.base != b.base:
                raise Unsupported('distance')
            return V('ptr_diff(%s, %s)' % (b.t, a.t), 'i64')
        if name in ('to_string',):
            v = self.ev(args[0])
            return V('str_dec_%s(%s)' % (v.ty, v.t), 'str', own=True)
        if name == 'swap' and len(args) == 2:
            a, b = self.lv(args[0]), self.lv(args[1])
            if not (SCALAR(a.ty) and a.ty == b.ty):
                raise Unsupported('std::swap of ' + a.ty)
            t = self.tmp()
            self.emit('let %s = %s;' % (t, a.t))
            self.emit('%s = %s;' % (a.t, b.t))
            self.emit('%s = %s;' % (b.t, t))
            return V('', 'void')
        if name == 'make_shared':
            for pat, sp in self.unit.makes:
                if re.fullmatch(r'(std::|vmime::)?shared_ptr ?< ?(vmime::)?(utility::)?%s ?>' % pat, n['type'].get('qualType', '')) or re.search(r'shared_ptr<(\w+::)*%s>' % pat, n['type'].get('desugaredQualType', '')):
                    v = self.extern(sp, args, stmt)
                    v.own = True
                    return v
            mt = self._try(n['type']) or ''
            sp = self.unit.ctors.get((mt[5:], len(args))) if mt.startswith('stru:') else None
            if sp:
                v = self.extern(sp, args, stmt)
                v.own = True
                return v
            raise Unsupported('make_shared of ' + str(n['type']))
        if name in self.unit.externs:
            return self.extern(self.unit.externs[name], args, stmt)
        raise Unsupported('call of %s at line %s' % (name, n.get('_bline')))

    def extern(self, spec, args, stmt):
        """@extern name = rustfn rettype argmode*"""
        rf, rty, modes = spec
        plus = ['&mut ' + m[1:] for m in modes if m[0] == '+']      # what the function has access to through its arguments
        modes = [m for m in modes if m[0] != '+']
        for a, m in zip(args, modes):
            if m == 'skip' and self.has(a, ('CallExpr', 'BinaryOperator', 'CompoundAssignOperator', 'CXXNewExpr', 'LambdaExpr')):
                raise Unsupported('argument with effects is not modelled')
        args = [a for a, m in zip(args, modes) if m != 'skip']      # skip: an argument which is not modelled
        modes = [m for m in modes if m != 'skip']
        vs = self.evs(args)
        texts = []
        for m, v in zip(modes, vs):
            if m == 'ref':
                texts.append(self.argref(v))
            elif m == 'mut':
                texts.append(self.mref(v.t))
            elif m == 'val':
                texts.append(self.owned(v))
            elif m == 'ptr':
                if v.ty == 'str':
                    texts.append('&' + self.place(v)); texts.append('0usize')
                else:
                    texts.append(self.bref(v)); texts.append(v.t)
            elif m == 'drop':
                pass
            elif m == 'arrmut':
                texts.append(self.mref(v.base))
        return self.extcall(rf, texts + plus, rty)
    def extcall(self, rf, texts, rty):
        if rf.endswith('?'):      # may throw
            if not self.f.throws:
                raise Unsupported('call of throwing %s from a function not declared @throws' % rf)
            t = self.tmp()
            self.guarded(t, '%s(%s)' % (rf[:-1], ', '.join(texts)), 'mut ')
            return V('' if rty == 'void' else t, rty)
        call = '%s(%s)' % (rf, ', '.join(texts))
        if rty == 'void':
            self.emit(call + ';')
            return V('', 'void')
        t = self.tmp()
        self.emit('let mut %s = %s;' % (t, call))
        return V(t, rty)
    def ev_CXXNewExpr(self, n):
        ins = n.get('inner', [])
        if len(ins) == 1 and ins[0].get('kind') in ('CXXConstructExpr', 'ExprWithCleanups'):
            return self.ev(ins[0])
        raise Unsupported('new expression')

    def ev_CXXMemberCallExpr(self, n, stmt=False):
        me = n['inner'][0]
        while me.get('kind') in PASS:
            me = me['inner'][0]
        if me.get('kind') != 'MemberExpr':
            raise Unsupported('member pointer call')
        name = me['name']
        args = n['inner'][1:]
        did = me.get('referencedMemberDecl')
        objn = me['inner'][0]
        if name == 'operator bool' and '"getline"' in json.dumps(self.strip(objn).get('inner', [{}])[0]):
            v = self.ev(objn)
            if v.ty == 'bool':
                return v
        if name.startswith('operator ') and self.unit.objs:
            ty = self._try(n['type'])
            ot = self._try(objn['type'])
            if ty and ty.startswith('stru:') and ty[5:] in self.unit.objs and re.search(r'\bnull', objn['type'].get('qualType', '')):
                return V('%s_null()' % ty[5:], ty, own=True)
            if ty == 'bool':
                ov = self.lvobj(objn)
                if ov.ty.startswith('stru:') and ov.ty[5:] in self.unit.objs:
                    return self.tobool(ov)
        if name == 'shared_from_this' and not args:
            return self.lvobj(objn)
        f, d = self.resolve_def(did)
        if name in ('tolower', 'toupper') and 'ctype' in json.dumps(objn.get('type', {})) and len(args) == 1:
            return V('%s_ch(%s)' % (name, self.ev(args[0]).t), 'ch')
        if name == 'getProperty' and self._objname(objn) in ('getProperties', None):
            return self.getprop(n, args)
        if f is not None:
            objv = self.lvobj(objn)
            return self.callinfo(f, objv, args, stmt)
        key = self.tu.qname.get(did)
        for mk, sp in self.unit.methods.items():
            # several instantiations or overloads: told apart by the type of the result
            if key and mk.startswith(key + ' ~') and mk[len(key) + 2:].rstrip('~') in json.dumps(n['type']):
                return self.method_over(sp, objn, args, stmt)
        if key in self.unit.methods:
            return self.method_over(self.unit.methods[key], objn, args, stmt)
        ot = self._try(objn['type'])
        if ot.startswith('ptr:'):
            ot = ot[4:]
        if ot.startswith('stru:') and d is not None:
            objv = self.lvobj(objn)
            if objv.t == 'this' or True:
                return self.inline_method(d, objv, args, stmt)
        objv = self.lvobj(objn)
        return self.method(objv, name, args, n, stmt)
    def _objname(self, o):
        m = o
        while m.get('kind') in PASS or m.get('kind') == 'ImplicitCastExpr':
            m = m['inner'][0]
        if m.get('kind') == 'CXXMemberCallExpr':
            return m['inner'][0].get('name')
        return ''
    def method_over(self, spec, objn, args, stmt):
        rf, rty, modes = spec
        texts = []
        if rf.startswith('.'):      # accessor: the member itself (the accessor is under contract in its own unit)
            return V(self.lvobj(objn).t + rf, rty)
        plus = ['&mut ' + m[1:] for m in modes if m[0] == '+']
        modes = [m for m in modes if m[0] != '+']
        m0 = modes[0]
        objv = self.lvobj(objn) if m0 != 'drop' else None
        if m0 == 'ref':
            texts.append(self.argref(objv))
        elif m0 == 'mut':
            texts.append(self.mref(objv.t))
        elif m0 == 'val':
            texts.append(objv.t)
        pm = [(a, m) for a, m in zip(args, modes[1:]) if m != 'drop']
        vs = self.evs([a for a, m in pm])
        for (_, m), v in zip(pm, vs):
            if m == 'ref':
                texts.append(self.argref(v))
            elif m == 'mut':
                texts.append(self.mref(v.t))
            elif m == 'val':
                texts.append(self.owned(v))
            elif m == 'ptr':
                if v.ty == 'str':
                    texts.append('&' + self.place(v)); texts.append('0usize')
                else:
                    texts.append(self.bref(v)); texts.append(v.t)
            elif m == 'ptrmut':
                texts.append(self.mref(v.base)); texts.append(v.t)
        return self.extcall(rf, texts + plus, rty)
    def inline_method(self, d, objv, args, stmt):
        # rebind `this`
        sv = self.this_override
        cls = self.f.cls
        self.this_override = objv
        try:
            return self.inline(d, V('this', 'x'), args, stmt)
        finally:
            self.this_override = sv
    this_override = None
    def lvobj(self, n):
        m = n
        while m.get('kind') in PASS or m.get('kind') == 'ImplicitCastExpr':
            m = m['inner'][0]
        if m.get('kind') == 'CXXThisExpr':
            return self.ev_CXXThisExpr(m)
        if m.get('kind') == 'CXXOperatorCallExpr' and self.opname(m) in ('->', '*'):
            r = self.lvobj(m['inner'][1])
            if r.ty.startswith('iter:stru:') and r.base and not r.base.startswith('@'):
                return V('%s[%s]' % (r.base, r.t), elem(r.ty))
            return r
        if m.get('kind') == 'UnaryOperator' and m['opcode'] == '*':
            return self.lvobj(m['inner'][0])
        if m.get('kind') in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'CXXOperatorCallExpr'):
            return self.lv(m)
        return self.ev(m)

    def _propset(self, a):
        """getResults()["name"] / getProperties()["name"] as an assignment target"""
        m = a
        while m.get('kind') in PASS or m.get('kind') == 'ImplicitCastExpr':
            m = m['inner'][0]
        if m.get('kind') != 'CXXOperatorCallExpr' or self.opname(m) != '[]':
            return None
        o = self._objname(m['inner'][1])
        if o not in ('getResults', 'getProperties'):
            return None
        lits = list(self._find(m['inner'][2], 'StringLiteral'))
        if len(lits) != 1:
            raise Unsupported('property with computed name')
        nm = re.sub(r'\W', '_', self.strbytes(lits[0]).decode())
        self.props.add(nm)
        return ('results' if o == 'getResults' else 'props'), nm

    def getprop(self, n, args):
        s = None
        def find(x):
            if isinstance(x, dict):
                if x.get('kind') == 'StringLiteral':
                    return x
                for c in x.get('inner', []):
                    r = find(c)
                    if r: return r
        lit = find(args[0])
        if lit is None:
            raise Unsupported('getProperty with computed name')
        nm = self.strbytes(lit).decode()
        nm = re.sub(r'\W', '_', nm)
        self.props.add(nm)
        ty = self.mapty(n['type'])
        if len(args) < 2:
            raise Unsupported('getProperty without default')
        d = self.ev(args[1])
        if ty == 'str':
            return V('getprop_str(%s, PROP_%s(), %s)' % (self.unit.propobj, nm, d.t if d.own else 'str_clone(&%s)' % d.t), 'str', own=True)
        return V('getprop_%s(%s, PROP_%s(), %s)' % (rustty(ty), self.unit.propobj, nm, d.t), ty)

    def method(self, o, name, args, n, stmt):
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        ty = o.ty
        if ty in ('drop',):
            return V('', 'void')
        if ty == 'in':
            if name == 'reset':
                self.emit('%s.reset();' % o.t); return V('', 'void')
            if name == 'eof':
                t = self.tmp(); self.emit('let %s = %s.eof();' % (t, o.t)); return V(t, 'bool')
            if name == 'read':
                b, c = self.evs(args)
                t = self.tmp()
                if b.base is None and self._isaddr(args[0]):
                    if c.c != 1:
                        raise Unsupported('read of several bytes into one')
                    self.emit('let %s = %s.read_one(%s);' % (t, o.t, self.mref(b.t)))
                    return V(t, 'usize')
                self.emit('let %s = %s.read(%s, %s, %s);' % (t, o.t, self.mref(b.base), b.t, c.t))
                return V(t, 'usize')
            if name == 'skip':
                v = self.ev(args[0])
                t = self.tmp()
                self.emit('let %s = %s.skip(%s);' % (t, o.t, v.t))
                return V(t, 'usize')
            if name == 'seek':
                v = self.ev(args[0])
                self.emit('%s.seek(%s);' % (o.t, v.t)); return V('', 'void')
            if name == 'getPosition':
                t = self.tmp(); self.emit('let %s = %s.get_position();' % (t, o.t)); return V(t, 'usize')
        if ty == 'out':
            if name == 'flush':
                self.emit('%s.flush();' % o.t); return V('', 'void')
            if name in ('write', 'writeImpl'):
                vs = self.evs(args)
                if len(vs) == 2:
                    b, c = vs
                    if b.ty == 'str':
                        bt = self.place(b)
                        self.emit('%s.write(&%s, 0usize, %s);' % (o.t, bt, c.t))
                    elif b.zt:
                        self.emit('%s.write(%s, %s, %s);' % (o.t, self.bref(b), b.t, c.t))
                    else:
                        self.emit('%s.write(%s, %s, %s);' % (o.t, self.bref(b), b.t, c.t))
                    return V('', 'void')
                if len(vs) == 1 and vs[0].ty == 'str':
                    self.emit('%s.write_str(%s);' % (o.t, self.argref(vs[0])))
                    return V('', 'void')
        if ty.startswith('cmap:'):
            nm = ty[5:]
            if name == 'find':
                v = self.intcast(self.ev(args[0]), 'i32')
                t = self.tmp()
                self.emit('let %s: usize = cfind_%s(%s);' % (t, nm, v.t))
                return V(t, 'iter:cme', base='@cmap:' + nm)
            if name == 'end':
                return V('%dusize' % len(self.cmaps[nm]), 'iter:cme', base='@cmap:' + nm)
        if ty == 'iss' and name in ('peek', 'get') and not args:
            t = self.tmp()
            self.emit('let %s: i32 = iss_%s(%s);' % (t, name, self.argref(o) if name == 'peek' else self.mref(o.t)))
            return V(t, 'i32')
        if ty == 'iss' and name == 'imbue':
            self.drops.append('%s: imbue() on an istringstream' % self.f.rname)
            return V('', 'void')
        if ty == 'oss':
            if name == 'str':
                return V(o.t, 'str')
            if name in ('imbue', 'flags', 'precision'):
                self.drops.append('%s: %s() on an ostringstream' % (self.f.rname, name))
                return V('', 'void')
            if name == 'write':
                b, c = self.evs(args)
                self.emit('str_append_range(%s, %s, %s, ptr_plus(%s, %s));' % (self.mref(o.t), self.bref(b), b.t, b.t, c.t))
                return V('', 'void')
            if name == 'put':
                v = self.ev(args[0])
                self.emit('%s.push(%s);' % (o.t, v.t)); return V('', 'void')
        if ty == 'str' or ty.startswith('vec:'):
            if name in ('length', 'size'):
                return V('%s.len()' % self.place(o), 'usize')
            if name == 'empty':
                return V('(%s.len() == 0usize)' % self.place(o), 'bool')
            if name in ('begin', 'cbegin'):
                return V('0usize', 'iter:' + elem(ty), base=self.place(o))
            if name in ('end', 'cend'):
                b = self.place(o)
                return V('%s.len()' % b, 'iter:' + elem(ty), base=b)
            if name in ('c_str', 'data') and ty == 'str':
                return V('0usize', 'ptr:ch', base=self.place(o), zt=True)
            if name == 'data':
                return V('0usize', 'ptr:' + elem(ty), base=self.place(o))
            if name in ('reserve', 'shrink_to_fit'):
                for a in args:
                    self.ev(a)
                return V('', 'void')
            if name == 'clear':
                self.emit('%s.clear();' % o.t); return V('', 'void')
            if name in ('back', 'front'):
                b = self.place(o)
                return V('%s[%s]' % (b, '0usize' if name == 'front' else '%s.len() - 1usize' % b), elem(ty))
            if name in ('push_back',):
                v = self.ev(args[0])
                self.emit('%s.push(%s);' % (o.t, self.owned(v)))
                return V('', 'void')
            if name == 'pop_front':
                self.emit('let _ = %s.remove(0usize);' % o.t)
                return V('', 'void')
            if name == 'pop_back':
                self.emit('let _ = %s.pop();' % o.t)
                return V('', 'void')
            if name == 'at':
                v = self.ev(args[0])
                return V('%s[%s]' % (self.place(o), self.idx(v)), elem(ty))
        if ty.startswith('vec:'):
            if name == 'resize' and len(args) == 1 and rustty(elem(ty)) == 'u8':
                v = self.ev(args[0])
                self.emit('vec_resize_u8(%s, %s);' % (self.mref(o.t), v.t)); return V('', 'void')
            if name == 'erase' and len(args) == 1:
                w = self.ev(args[0])
                if w.base != self.place(o):
                    raise Unsupported('vector erase at an iterator into another object')
                t = self.tmp()
                self.emit('let %s: usize = %s;' % (t, w.t))
                self.emit('%s.remove(%s);' % (o.t, t)); return V(t, w.ty, base=w.base)
            if name == 'swap' and len(args) == 1:
                w = self.lvobj(args[0])
                if w.ty != ty:
                    raise Unsupported('swap of ' + w.ty)
                self.emit('core::mem::swap(%s, %s);' % (self.mref(o.t), self.mref(w.t))); return V('', 'void')
            if name == 'resize' and len(args) == 1 and rustty(elem(ty)) == 'usize' or name == 'resize' and len(args) == 1 and not SCALAR(elem(ty)) or name == 'resize' and rustty(elem(ty)) == 'u32':
                v = self.ev(args[0])
                self.emit('vec_resize_%s(%s, %s);' % (rustty(elem(ty)), self.mref(o.t), v.t)); return V('', 'void')
            if name == 'insert' and len(args) == 3 and rustty(elem(ty)) == 'u8':
                w, x, y = self.evs(args)
                if w.base != self.place(o) or w.t != self.place(o) + '.len()' or x.base is None or x.base != y.base or x.base == w.base:
                    raise Unsupported('vector insert that is not an append')
                self.emit('str_append_range(%s, %s, %s, %s);' % (self.mref(o.t), self.bref(x), x.t, y.t)); return V('', 'void')
        if ty == 'str':
            vs = self.evs(args)
            a = vs
            if name == 'substr':
                x = [v.t for v in vs]
                while len(x) < 2:
                    x.append('%dusize' % ((1 << 64) - 1) if len(x) == 1 else '0usize')
                return V('str_substr(%s, %s, %s)' % (self.argref(o), x[0], x[1]), 'str', own=True)
            if name in ('find', 'rfind'):
                frm = vs[1].t if len(vs) > 1 else ('0usize' if name == 'find' else '%dusize' % ((1 << 64) - 1))
                if vs[0].ty == 'ch':
                    t = self.tmp()
                    self.emit('let %s = str_%s_ch(%s, %s, %s);' % (t, name, self.argref(o), vs[0].t, frm))
                    return V(t, 'usize')
                if vs[0].ty == 'str':
                    t = self.tmp()
                    r = self.argref(vs[0])
                    self.emit('let %s = str_%s(%s, %s, %s);' % (t, name, self.argref(o), r, frm))
                    return V(t, 'usize')
            if name in ('find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
                frm = vs[1].t if len(vs) > 1 else ('0usize' if 'first' in name else '%dusize' % ((1 << 64) - 1))
                if vs[0].ty == 'ch':
                    vs[0] = V('str_repeat(1usize, %s)' % vs[0].t, 'str', own=True)
                elif vs[0].ty.startswith('ptr:') and vs[0].base is not None:
                    vs[0] = V('str_from_cz(%s, %s)' % (self.bref(vs[0]), vs[0].t), 'str', own=True)
                r = self.argref(vs[0])
                t = self.tmp()
                self.emit('let %s = str_%s(%s, %s, %s);' % (t, name, self.argref(o), r, frm))
                return V(t, 'usize')
            if name in ('append',):
                if len(vs) == 1 and vs[0].ty == 'str':
                    self.emit('str_append(%s, %s);' % (self.mref(o.t), self.argref(vs[0]))); return o
                if len(vs) == 2 and vs[0].base is not None and vs[1].base == vs[0].base:
                    self.emit('str_append_range(%s, %s, %s, %s);' % (self.mref(o.t), self.bref(vs[0]), vs[0].t, vs[1].t)); return o
                if len(vs) == 2 and vs[0].base is not None and vs[1].ty == 'usize':
                    self.emit('str_append_range(%s, %s, %s, ptr_plus(%s, %s));' % (self.mref(o.t), self.bref(vs[0]), vs[0].t, vs[0].t, vs[1].t)); return o
                if len(vs) == 2 and vs[0].ty == 'usize' and vs[1].ty == 'ch':
                    self.emit('str_append_fill(%s, %s, %s);' % (self.mref(o.t), vs[0].t, vs[1].t)); return o
            if name == 'assign':
                if len(vs) == 2 and vs[0].base is not None and vs[1].base == vs[0].base:
                    self.emit('%s = str_range(%s, %s, %s);' % (o.t, self.bref(vs[0]), vs[0].t, vs[1].t)); return o
                if len(vs) == 2 and vs[0].base is not None and vs[1].ty == 'usize':
                    self.emit('%s = str_range(%s, %s, ptr_plus(%s, %s));' % (o.t, self.bref(vs[0]), vs[0].t, vs[0].t, vs[1].t)); return o
            if name == 'erase':
                if len(vs) == 2 and all(v.ty == 'usize' for v in vs):
                    self.emit('str_erase(%s, %s, %s);' % (self.mref(o.t), vs[0].t, vs[1].t)); return o
                if len(vs) == 1 and vs[0].ty == 'usize':
                    self.emit('str_erase(%s, %s, %dusize);' % (self.mref(o.t), vs[0].t, (1 << 64) - 1)); return o
                if len(vs) == 2 and all(v.base == o.t for v in vs):
                    for v in vs:
                        if '.len()' in v.t:
                            t = self.tmp(); self.emit('let %s: usize = %s;' % (t, v.t)); v.t = t
                    self.emit('str_erase_range(%s, %s, %s);' % (self.mref(o.t), vs[0].t, vs[1].t)); return V(vs[0].t, 'iter:ch', base=o.t)
            if name == 'insert':
                if len(vs) == 2 and vs[0].ty == 'usize' and vs[1].ty == 'str':
                    self.emit('str_insert(%s, %s, %s);' % (self.mref(o.t), vs[0].t, self.argref(vs[1]))); return o
            if name == 'compare' and len(vs) == 1:
                t = self.tmp()
                r = self.argref(vs[0])
                self.emit('let %s = str_compare(%s, %s);' % (t, self.argref(o), r))
                return V(t, 'i32')
            if name == 'resize' and len(vs) == 1:
                self.emit('vec_resize_u8z(%s, %s);' % (self.mref(o.t), vs[0].t)); return V('', 'void')
        if name == 'lock' and not args and ty.startswith('stru:') and ty[5:] in self.unit.objs:
            # weak_ptr::lock: X_lock says when the object is still there
            t = self.tmp()
            self.emit('let mut %s = %s_lock(%s);' % (t, ty[5:], self.argref(o)))
            return V(t, ty)
        if name == 'reset' and len(args) == 1 and ty.startswith('stru:') and ty[5:] in self.unit.objs:
            # the owned object is replaced; an object of a derived class becomes one of its base
            v = self.ev(args[0])
            if v.ty == ty:
                self.emit('%s = %s;' % (o.t, self.owned(v)))
            elif v.ty.startswith('stru:'):
                self.emit('%s = %s_of_%s(%s);' % (o.t, ty[5:], v.ty[5:], self.owned(v)))
            else:
                raise Unsupported('reset to ' + v.ty)
            return V('', 'void')
        raise Unsupported('method %s.%s/%d at line %s' % (ty, name, len(args), n.get('_bline')))

    def ev_CXXOperatorCallExpr(self, n, stmt=False):
        if len(n['inner']) == 3:
            ops = [self.strip(x) for x in n['inner'][1:]]
            while any(x.get('kind') == 'ImplicitCastExpr' for x in ops):
                ops = [x['inner'][0] if x.get('kind') == 'ImplicitCastExpr' else x for x in ops]
            if all(x.get('kind') == 'CXXTypeidExpr' for x in ops):
                on = json.dumps(n['inner'][0])
                a, b = [self.typeid(x) for x in ops]
                if 'operator==' in on or 'operator!=' in on:
                    return V('(%s %s %s)' % (a, '==' if 'operator==' in on else '!=', b), 'bool')
        op = self.opname(n)
        args = n['inner'][1:]
        c = n['inner'][0]
        while c.get('kind') in PASS or c.get('kind') == 'ImplicitCastExpr':
            c = c['inner'][0]
        did = c.get('referencedDecl', {}).get('id')
        f, d = self.resolve_def(did)
        if op == '()':
            m = args[0]
            while m.get('kind') in PASS or m.get('kind') == 'ImplicitCastExpr':
                m = m['inner'][0]
            if self.vty.get(m.get('referencedDecl', {}).get('id'), '').startswith('fn:'):
                return self.callfn(m['referencedDecl']['id'], args[1:])
        if f is not None:
            if f.is_method:
                return self.callinfo(f, self.lvobj(args[0]), args[1:], stmt)
            if op == '<<' and len(args) == 2:
                # an operator<< of the code itself, under contract: its result is the stream
                o = self.lvobj(args[0])
                if o.ty == 'oss':
                    if o.extra:
                        raise Unsupported('<< of an object after a manipulator')
                    v = self.ev(args[1])
                    self.emit('%s(%s, %s);' % (f.rname, self.mref(o.t), self.argref(v)))
                    return V(o.t, 'oss')
            return self.callinfo(f, None, args, stmt)
        if self.tu.qname.get(did) in self.unit.methods:
            return self.method_over(self.unit.methods[self.tu.qname[did]], args[0], args[1:], stmt)
        if op in ('++', '--'):
            return self.incdec(n, True, True)
        if op in ('->', '*') and len(args) == 1:
            t0 = self._try(args[0]['type'])
            if t0.startswith('iter:'):
                return self.deref(self.ev(args[0]))
            return self.lvobj(args[0])
        if op == '[]':
            o = self.lvobj(args[0])
            i = self.ev(args[1])
            self.place(o)
            if o.ty == 'str':
                return V('cz_at(&%s, %s)' % (o.t, self.idx(i)) if o.t not in self.refparams() else 'cz_at(%s, %s)' % (o.t, self.idx(i)), 'ch') if not self.stwant else V('%s[%s]' % (o.t, self.idx(i)), 'ch')
            if o.ty.startswith('vec:'):
                return V('%s[%s]' % (o.t, self.idx(i)), elem(o.ty))
            if o.base is not None:
                return self.deref(V(self.padd(o, i), o.ty, base=o.base, zt=o.zt))
        t0 = self._try(args[0]['type'])
        if op == '=':
            mp = self.strip(args[0])
            while mp.get('kind') in PASS or mp.get('kind') == 'MaterializeTemporaryExpr' or mp.get('kind') == 'CXXBindTemporaryExpr':
                mp = mp['inner'][0]
            if mp.get('kind') == 'CXXOperatorCallExpr' and self.opname(mp) == '[]' and 'propertyProxy' in json.dumps(mp.get('type', {})) and not re.search(r'"name": "get(Properties|Results)".{0,900}?"kind": "CXXThisExpr"', json.dumps(mp['inner'][1]), re.S):
                # object->getProperties()["name"] = value
                cm = self.strip(mp['inner'][1])
                lit = re.findall(r'"kind": "StringLiteral".*?"value": "\\"(\w+)\\""', json.dumps(mp['inner'][2]))
                me = self.strip(cm['inner'][0]) if cm.get('kind') == 'CXXMemberCallExpr' else {}
                if me.get('name') != 'getProperties' or len(lit) != 1:
                    raise Unsupported('property assignment')
                ob = self.lvobj(me['inner'][0])
                if not ob.ty.startswith('stru:'):
                    raise Unsupported('property of ' + ob.ty)
                v = self.ev(args[1])
                self.emit('%s_setprop_%s(%s, %s);' % (ob.ty[5:], lit[0], self.mref(ob.t), v.t))
                return V('', 'void')
            if mp.get('kind') == 'CXXOperatorCallExpr' and self.opname(mp) == '[]' and self._try(mp['inner'][1]['type']) == 'vec:stru:SPair':
                vb, ki = self.evs([args[1], mp['inner'][2]])
                mo = self.lvobj(mp['inner'][1])
                a, b = self.argref(ki), self.argref(vb)
                self.emit('smap_set(%s, %s, %s);' % (self.mref(mo.t), a, b))
                return V('', 'void')
            pm = self._propset(args[0])
            if pm is not None:
                vb = self.ev(args[1])
                if vb.ty == 'str':
                    a = self.argref(vb)
                elif vb.ty == 'litstr' or vb.base is not None:
                    a = self.argref(V('str_from_cz(%s, %s)' % (self.bref(vb), vb.t), 'str', own=True))
                else:
                    a = vb.t
                self.emit('setprop_%s(&mut %s.%s, PROP_%s(), %s);' % ('str' if a.startswith('&') else rustty(vb.ty), self.ev_CXXThisExpr({}).t, pm[0], pm[1], a))
                return V('', 'void')
            vb = self.ev(args[1])
            va = self.lvobj(args[0])
            if va.ty == 'str' and vb.ty == 'ch':
                self.emit('%s = str_repeat(1usize, %s);' % (va.t, vb.t)); return va
            if va.ty == 'str' and vb.base is not None:
                vb = V('str_from_cz(%s, %s)' % (self.bref(vb), vb.t), 'str', own=True)
            return self.store(va, vb)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            va, vb = self.evs(args)
            if va.base is not None and vb.base is not None:
                if va.base != vb.base:
                    raise Unsupported('comparison of iterators into different objects (%s, %s) line %s' % (va.base, vb.base, n.get('_bline')))
                return V('(%s %s %s)' % (va.t, op, vb.t), 'bool')
            if va.ty == 'str' and vb.ty == 'str' and op in ('==', '!='):
                b = self.argref(vb)
                a = self.argref(va)
                return V('%sstr_eq(%s, %s)' % ('' if op == '==' else '!', a, b), 'bool')
            if vb.ty == 'null' and va.ty.startswith('stru:') and va.ty[5:] in self.unit.objs and op in ('==', '!='):
                return V('%s%s_isset(%s)' % ('!' if op == '==' else '', va.ty[5:], self.argref(va)), 'bool')
            raise Unsupported('comparison of %s, %s' % (va.ty, vb.ty))
        if op == '+=':
            va = None
            vb = self.ev(args[1])
            va = self.lvobj(args[0])
            if va.ty == 'str':
                if vb.ty == 'ch':
                    self.emit('%s.push(%s);' % (va.t, vb.t)); return va
                if vb.ty == 'str':
                    self.emit('str_append(%s, %s);' % (self.mref(va.t), self.argref(vb))); return va
                if vb.base is not None:
                    self.emit('str_append_cz(%s, %s, %s);' % (self.mref(va.t), self.bref(vb), vb.t)); return va
            if va.base is not None:
                self.emit('%s = %s;' % (va.t, self.padd(va, vb, 1))); return va
        if op == '-=':
            vb = self.ev(args[1])
            va = self.lvobj(args[0])
            if va.base is not None:
                self.emit('%s = %s;' % (va.t, self.padd(va, vb, -1))); return va
        if op in ('+', '-'):
            va, vb = self.evs(args)
            if va.base is not None and vb.base is not None and op == '-':
                if va.base != vb.base:
                    raise Unsupported('iterator difference across objects')
                return V('ptr_diff(%s, %s)' % (va.t, vb.t), 'i64')
            if va.base is not None and vb.ty in INT:
                return V(self.padd(va, vb, 1 if op == '+' else -1), va.ty, base=va.base, zt=va.zt)
            if op == '+':
                if va.ty == 'str' and vb.base is not None and vb.ty.startswith(('ptr:', 'arr:')):
                    tb = self.tables.get(vb.base[5:], (None, None))[0] if vb.base.startswith('@tbl:') and vb.t == '0usize' else None
                    if tb and all(isinstance(x, int) for x in tb) and 0 in tb:
                        vb = V(self.lit(bytes(x & 255 for x in tb[:tb.index(0)])), 'str', own=True)
                    else:
                        vb = V('str_from_cz(%s, %s)' % (self.bref(vb), vb.t), 'str', own=True)
                if va.ty == 'str' and vb.ty == 'str':
                    b = self.argref(vb)
                    return V('str_concat(%s, %s)' % (self.argref(va), b), 'str', own=True)
                if va.ty == 'str' and vb.ty == 'ch':
                    return V('str_concat_ch(%s, %s)' % (self.argref(va), vb.t), 'str', own=True)
                if va.ty == 'ch' and vb.ty == 'str':
                    return V('str_ch_concat(%s, %s)' % (va.t, self.argref(vb)), 'str', own=True)
        if op == '>>':
            o = self.lvobj(args[0])
            if o.ty == 'iss':
                va = self.lvobj(args[1])
                if va.ty == 'u16':
                    if '"name": "peek"' in json.dumps(self.f.node):
                        t = self.tmp()
                        self.emit('let %s: u16 = iss_read_u16(%s);' % (t, self.mref(o.t)))
                        self.store(va, V(t, 'u16'))
                        return o
                    # extraction of a number; only the first extraction of a stream is modelled
                    if o.t in self.issread:
                        raise Unsupported('second extraction from an istringstream')
                    self.issread.add(o.t)
                    return self.store(va, V('str_read_u16(&%s)' % o.t, 'u16'))
                raise Unsupported('>> into ' + va.ty)
        if op == '<<':
            o = self.lvobj(args[0])
            if o.ty == 'oss':
                mm = self.strip(args[1])
                fmt = o.extra if isinstance(o.extra, dict) else {}
                man = self._manip(args[1])
                if man is not None:
                    # std::setw / std::setfill: only used for the next output of the same statement
                    if man[0] == 'setw' and 'fill' not in fmt:
                        raise Unsupported('setw without setfill in the same statement')
                    av = self.ev(man[1])
                    if av.c is None:
                        raise Unsupported('%s of a variable' % man[0])
                    return V(o.t, 'oss', extra=dict(fmt, **{'w' if man[0] == 'setw' else 'fill': av.c}))
                v = self.ev(args[1])
                if 'w' in fmt:
                    if v.ty not in ('i32', 'i64', 'i16', 'usize', 'u32', 'u16'):
                        raise Unsupported('setw before %s' % v.ty)
                    self.emit('str_append_sdec_w(%s, (%s as i64), %dusize, %du8);' % (self.mref(o.t), v.t, fmt['w'], fmt['fill'] & 255))
                    return V(o.t, 'oss', extra={'fill': fmt['fill']})
                if v.ty == 'litstr':
                    raise Unsupported('<< literal')
                if v.ty == 'str':
                    self.emit('str_append(%s, %s);' % (self.mref(o.t), self.argref(v)))
                elif v.ty == 'ch' or v.ty == 'u8':
                    self.emit('%s.push(%s);' % (o.t, v.t))
                elif v.ty in ('usize', 'u32', 'u16'):
                    self.emit('str_append_udec(%s, %s);' % (self.mref(o.t), v.t if v.ty == 'usize' else '(%s as usize)' % v.t))
                elif v.ty in ('i32', 'i64', 'i16'):
                    self.emit('str_append_sdec(%s, %s);' % (self.mref(o.t), v.t if v.ty == 'i64' else '(%s as i64)' % v.t))
                elif v.ty.startswith('ptr:ch') and v.base is not None:
                    self.emit('str_append_cz(%s, %s, %s);' % (self.mref(o.t), self.bref(v), v.t))
                else:
                    raise Unsupported('<< of %s' % v.ty)
                return V(o.t, 'oss', extra=fmt)
            if o.ty == 'out':
                v = self.ev(args[1])
                if v.ty == 'str':
                    self.emit('%s.write_str(%s);' % (o.t, self.argref(v)))
                    return o
                if v.ty == 'ch':
                    self.emit('%s.write_byte(%s);' % (o.t, v.t)); return o
                if v.ty in ('i32',):
                    self.emit('%s.write_dec_i64(%s as i64);' % (o.t, v.t)); return o
                if v.ty in ('u32', 'usize'):
                    self.emit('%s.write_dec_usize(%s as usize);' % (o.t, v.t)); return o
        if d is not None:
            return self.inline(d, None, args, stmt)
        raise Unsupported('operator%s on %s at line %s' % (op, t0, n.get('_bline')))
    stwant = False
    issread = set()
    def _manip(self, a):
        m = a
        while m.get('kind') in PASS or m.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr') and len(m.get('inner', [])) == 1:
            m = m['inner'][0]
        if m.get('kind') != 'CallExpr':
            return None
        c = m['inner'][0]
        while c.get('kind') in PASS or c.get('kind') == 'ImplicitCastExpr':
            c = c['inner'][0]
        nm = c.get('referencedDecl', {}).get('name')
        return (nm, m['inner'][1]) if nm in ('setw', 'setfill') else None

    # ---------- prelude generated from the source (literals, tables, structs)
    def prelude(self):
        s = []
        for nm in sorted(self.cstrs):
            s.append('pub uninterp spec fn sCONST_%s() -> Seq<u8>;\n#[verifier::external_body] pub fn CONST_%s() -> (r: Vec<u8>) ensures r@ == sCONST_%s() { unimplemented!() }' % (nm, nm, nm))
        for nm, (vals, ty) in sorted(self.tables.items()):
            for b in vals:
                if isinstance(b, (bytes, bytearray)):
                    self.lit(bytes(b))
        for nm, bs in sorted(self.lits.items()):
            sq = 'seq![%s]' % ', '.join('%du8' % b for b in bs) if bs else 'Seq::<u8>::empty()'
            s.append('pub open spec fn s%s() -> Seq<u8> { %s }' % (nm, sq))
            s.append('pub fn %s() -> (r: Vec<u8>) ensures r@ == %s, r@.len() == %d, %s {' % (nm, sq, len(bs), ', '.join('r@[%d] == %du8' % (i, b) for i, b in enumerate(bs)) or 'true'))
            s.append('    let mut r: Vec<u8> = Vec::new();')
            for b in bs:
                s.append('    r.push(%du8);' % b)
            s.append('    proof { assert(r@ =~= %s); }\n    r\n}' % sq)
        for nm, (vals, ty) in sorted(self.tables.items()):
            e = elem(ty)
            if vals and isinstance(vals[0], list):
                continue
            if vals and isinstance(vals[0], (bytes, bytearray)):
                sp, ex = [], []
                for i, b in enumerate(vals):
                    sq = 'seq![%s]' % ', '.join('%du8' % x for x in b) if b else 'Seq::<u8>::empty()'
                    sp.append('if i == %d { %s } else ' % (i, sq))
                    ex.append('if i == %dusize { return %s; }' % (i, self.lit(bytes(b))))
                s.append('pub open spec fn tb_%s(i: int) -> Seq<u8> { %s { Seq::<u8>::empty() } }' % (nm, ''.join(sp)))
                s.append('pub open spec fn tblen_%s() -> int { %d }' % (nm, len(vals)))
                s.append('pub fn tget_%s(i: usize) -> (r: Vec<u8>) requires i < %d ensures r@ == tb_%s(i as int) { %s\n Vec::new() }' % (nm, len(vals), nm, '\n'.join(ex)))
                continue
            rt = rustty(e)
            runs = []
            for i, v in enumerate(vals):
                if rt == 'u8':
                    v &= 255
                if runs and (v - i == runs[-1][2] and runs[-1][3] in (None, 'lin')) and runs[-1][1] == i - 1:
                    runs[-1][1] = i; runs[-1][3] = 'lin'
                elif runs and runs[-1][4] == v and runs[-1][3] in (None, 'const'):
                    runs[-1][1] = i; runs[-1][3] = 'const'
                else:
                    runs.append([i, i, v - i, None, v])
            sp, ex = [], []
            for lo, hi, dl, kd, v in runs:
                val = ('(i + %d)' % dl if dl >= 0 else '(i - %d)' % -dl) if kd == 'lin' else '%d' % v
                sp.append('if i <= %d { %s } else ' % (hi, val))
                if kd == 'lin':
                    exv = '((i as i64 %s %d) as %s)' % ('+' if dl >= 0 else '-', abs(dl), rt)
                else:
                    exv = '%d%s' % (v, rt) if v >= 0 else '(%d%s)' % (v, rt)
                ex.append('if i <= %dusize { %s } else ' % (hi, exv))
            s.append('pub open spec fn tb_%s(i: int) -> int { %s { 0 } }' % (nm, ''.join(sp)))
            s.append('pub open spec fn tblen_%s() -> int { %d }' % (nm, len(vals)))
            s.append('pub fn tget_%s(i: usize) -> (r: %s) requires i < %d ensures r as int == tb_%s(i as int) { %s { 0%s } }' % (nm, rt, len(vals), nm, ''.join(ex), rt))
        for nm, kv in sorted(self.cmaps.items()):
            n = len(kv)
            s.append('pub open spec fn ck_%s(i: int) -> int { %s { 0 } }' % (nm, ''.join('if i == %d { %d } else ' % (i, k) for i, (k, v) in enumerate(kv))))
            s.append('pub open spec fn cv_%s(i: int) -> int { %s { 0 } }' % (nm, ''.join('if i == %d { %d } else ' % (i, v) for i, (k, v) in enumerate(kv))))
            s.append('pub fn cfind_%s(k: i32) -> (r: usize) ensures r <= %d, r < %d ==> ck_%s(r as int) == k, r == %d ==> %s { %s\n %dusize }' % (nm, n, n, nm, n, ' && '.join('k != %d' % k for k, v in kv), '\n'.join('if k == %d { return %dusize; }' % (k, i) for i, (k, v) in enumerate(kv)), n))
            for w, x in (('key', 0), ('val', 1)):
                s.append('pub fn c%s_%s(i: usize) -> (r: i32) requires i < %d ensures r as int == c%s_%s(i as int) { %s { 0i32 } }' % (w, nm, n, w[0], nm, ''.join('if i == %dusize { %di32 } else ' % (i, e[x]) for i, e in enumerate(kv))))
        for r, fs in self.structs.items():
            if r in self.unit.nostruct or r == 'SPair':
                continue
            s.append('pub struct %s { %s }' % (r, ', '.join('pub %s: %s' % (self.rname(fn), rustty(ty)) for fn, ty in fs if ty != 'drop')))
        for e in sorted(self.excs | set(self.unit.excs)):
            s.append('pub open spec fn sEXC_%s() -> u64 { %du64 }' % (e, crc(e)))
            s.append('pub fn EXC_%s() -> (r: u64) ensures r == %du64 { %du64 }' % (e, crc(e), crc(e)))
        for p in sorted(self.props | set(self.unit.props)):
            s.append('pub open spec fn sPROP_%s() -> u64 { %du64 }' % (p, crc(p)))
            s.append('pub fn PROP_%s() -> (r: u64) ensures r == sPROP_%s() { %du64 }' % (p, p, crc(p)))
        return '\n'.join(s)
