"""Load clang's JSON AST of a /repo source file and index it (qualified names, ids)."""
import json, subprocess, os, re

class Unsupported(Exception):
    pass

def _docs(txt):
    dec = json.JSONDecoder()
    i = 0
    n = len(txt)
    while i < n:
        while i < n and txt[i] in ' \r\n\t':
            i += 1
        if i >= n:
            break
        if txt[i] != '{':
            j = txt.find('\n', i)
            if j < 0:
                break
            i = j + 1
            continue
        obj, i = dec.raw_decode(txt, i)
        yield obj

FUNC_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')

class TU:
    def __init__(self, repo, src, cfgdir, extra=()):
        self.repo = repo
        self.src = src
        cmd = ['clang++', '-std=c++17', '-DVMIME_STATIC', '-fsyntax-only', '-w',
               '-I' + os.path.join(repo), '-I' + os.path.join(repo, 'src'), '-I' + os.path.join(cfgdir, 'src')] + list(extra) + [
               '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=vmime', src if os.path.isabs(src) else os.path.join(repo, src)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise Unsupported('clang failed on %s: %s' % (src, p.stderr.decode(errors='replace')[-2000:]))
        self.cmd = cmd
        self._ext = {}
        self.byid = {}
        self.qname = {}
        self.funcs = {}      # qualified name -> list of function decl nodes with a body
        self.decls = {}      # qualified name -> list of all decl nodes
        self.records = {}    # qname -> record node (definition)
        self._file = None
        self._line = None
        for d in _docs(p.stdout.decode(errors='replace')):
            self._walk(d, [])
        # resolve out-of-line definitions to their class' qualified name
    def extenum(self, name):
        """value of an enumerator declared in a library header"""
        if name not in self._ext:
            c = [('-ast-dump-filter=' + name) if x.startswith('-ast-dump-filter') else x for x in self.cmd]
            out = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors='replace')
            v = None
            for d in _docs(out):
                if d.get('kind') == 'EnumConstantDecl' and d.get('name') == name:
                    l = list(d.get('inner', []))
                    while l and v is None:
                        x = l.pop()
                        if x.get('kind') == 'ConstantExpr' and 'value' in x:
                            v = int(x['value'])
                        l += x.get('inner', [])
            self._ext[name] = v
        return self._ext[name]
    def _loc(self, loc):
        if not isinstance(loc, dict):
            return
        if 'spellingLoc' in loc:
            self._loc(loc['spellingLoc'])
            self._loc(loc.get('expansionLoc', {}))
            return
        if 'file' in loc:
            self._file = loc['file']
        if 'line' in loc:
            self._line = loc['line']
    def _walk(self, node, ctx):
        if not isinstance(node, dict):
            return
        k = node.get('kind')
        if k is None:
            return
        self._loc(node.get('loc'))
        if 'loc' in node:
            node['_line'] = self._line
            node['_file'] = self._file
        rng = node.get('range')
        if isinstance(rng, dict):
            self._loc(rng.get('begin'))
            node['_bline'] = self._line
            self._loc(rng.get('end'))
        idv = node.get('id')
        nctx = ctx
        if k.endswith('Decl'):
            name = node.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                ta = [c for c in node.get('inner', []) or [] if c.get('kind') == 'TemplateArgument']
                if ta and all('value' in c or 'type' in c for c in ta):
                    name += '<%s>' % ', '.join(str(c['value']) if 'value' in c else c['type'].get('qualType', '?') for c in ta)
            base = ctx
            if node.get('previousDecl') in self.qname and k in FUNC_KINDS + ('VarDecl', 'CXXRecordDecl'):
                qn = self.qname[node['previousDecl']]
            elif node.get('parentDeclContextId') in self.qname:
                qn = self.qname[node['parentDeclContextId']] + '::' + name
            else:
                qn = '::'.join(list(base) + [name]) if name else '::'.join(base)
            if idv:
                self.byid[idv] = node
                self.qname[idv] = qn
            if name:
                self.decls.setdefault(qn, []).append(node)
            if k in FUNC_KINDS:
                if any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in node.get('inner', []) if isinstance(c, dict)):
                    self.funcs.setdefault(qn, []).append(node)
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and node.get('completeDefinition'):
                self.records.setdefault(qn, node)
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'EnumDecl') or k in FUNC_KINDS:
                nctx = qn.split('::') if qn else []
        for c in node.get('inner', []) or []:
            self._walk(c, nctx)
        for c in node.get('array_filler', []) or []:
            self._walk(c, nctx)
    def find_func(self, qn, sig=None):
        l = []
        for f in self.funcs.get(qn, []):
            t = f.get('type', {}).get('qualType', '')
            if sig is None or sig in t:
                l.append(f)
        # dedupe (same id)
        seen, out = set(), []
        for f in l:
            if f['id'] not in seen:
                seen.add(f['id'])
                out.append(f)
        return out
