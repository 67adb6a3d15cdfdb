"""Load the clang AST (JSON) of a driver translation unit that includes /repo's sources.

Nothing is dropped from the functions that are verified: the AST that is executed symbolically
is the one clang builds for the very code that is compiled."""
import json, os, subprocess, re, hashlib, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def dump(tu, extra=()):
    out = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    cmd = ['clang++', '-std=c++17', '-I' + REPO + '/source', '-I' + VERIF + '/stubs', '-fsyntax-only', '-w',
           '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=EdgeLearning', *extra, tu]
    try:
        p = subprocess.run(cmd, stdout=out, stderr=subprocess.PIPE, text=True)
        out.close()
        s = open(out.name).read()
    finally:
        os.unlink(out.name)
    if p.returncode != 0:
        raise RuntimeError('clang failed: ' + p.stderr[-3000:])
    d = json.JSONDecoder(); i = 0; roots = []
    n = len(s)
    while True:
        while i < n and s[i].isspace(): i += 1
        if i >= n: break
        o, i = d.raw_decode(s, i); roots.append(o)
    return roots

class Decl:
    pass

SKIP = {'FullComment'}

class AST:
    def __init__(self, tu, extra=()):
        self.roots = dump(tu, extra)
        self.by_id = {}         # id -> node
        self.parent = {}        # id -> qualified scope name
        self.by_mangled = {}    # mangled -> definition node
        self.by_qual = {}       # qualified name -> list of function definition nodes
        self.records = {}       # qualified name -> record node (definition)
        self.rec_of = {}        # decl id -> qualified record name
        self.enums = {}         # enumconst id -> int value
        self.enum_names = set()
        self.aliases = {}
        self.cur_line = 0
        self.cur_file = ''
        for r in self.roots: self._walk(r, '', None, False)

    def _line(self, n):
        for key in ('loc', 'range'):
            l = n.get(key) or {}
            if key == 'range': l = l.get('begin') or {}
            if 'expansionLoc' in l: l = l['expansionLoc']
            if 'file' in l: self.cur_file = l['file']
            if 'line' in l: self.cur_line = l['line']

    def _walk(self, n, scope, rec, intempl):
        if not n: return
        k = n.get('kind')
        if k in SKIP: return
        self._line(n)
        n['_line'] = self.cur_line
        if 'id' in n and k and k.endswith('Decl'): 
            o = self.by_id.get(n['id'])      # an explicit specialisation is also listed, without its parts, below its template
            if o is None or 'inner' in n and 'inner' not in o: self.by_id[n['id']] = n
            n['_scope'] = scope
            n['_rec'] = rec
        sub, srec = scope, rec
        name = n.get('name')
        if k == 'NamespaceDecl':
            sub = (scope + '::' + name) if scope else (name or '')
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            nm = name or ('anon_' + n['id'])
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in n.get('inner', []):
                    if c.get('kind') == 'TemplateArgument':
                        args.append((c.get('type') or {}).get('qualType') or str(c.get('value')))
                nm = nm + '<' + ', '.join(args) + '>'
            sub = (scope + '::' + nm) if scope else nm
            srec = sub
            if n.get('completeDefinition'):
                if not (intempl and k == 'CXXRecordDecl' and sub in self.records):
                    self.records[sub] = n
            self.rec_of[n['id']] = sub
            n['_qual'] = sub
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            q = (scope + '::' + name) if scope else name
            n['_qual'] = q
            body = any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])) or n.get('explicitlyDefaulted') == 'default' \
                or any(c.get('kind') == 'CXXTryStmt' for c in n.get('inner', []))
            # out-of-line definitions carry the parent record
            if 'parentDeclContextId' in n:
                pr = self.rec_of.get(n['parentDeclContextId'])
                if pr: n['_rec'] = pr; n['_qual'] = q = pr + '::' + name
            m = n.get('mangledName')
            if body:
                if m and not self._dependent(n): 
                    if m not in self.by_mangled or not self.by_mangled[m].get('_hasbody'):
                        self.by_mangled[m] = n
                        n['_hasbody'] = True
                    self.by_qual.setdefault(q, []).append(n)
        elif k == 'EnumDecl':
            self._enum(n, scope)
            nm = name or ('anon_' + n['id'])
            self.enum_names.add((scope + '::' + nm) if scope else nm)
        elif k in ('TypeAliasDecl', 'TypedefDecl'):
            t = n.get('type') or {}
            if '<dependent' not in str(t):
                self.aliases[(scope + '::' + name) if scope else name] = t.get('desugaredQualType') or t.get('qualType')
        istempl = intempl or k in ('ClassTemplateDecl',)
        for c in n.get('inner', []):
            if k == 'ClassTemplateDecl' and c.get('kind') == 'CXXRecordDecl':
                self._walk_pattern(c); continue
            self._walk(c, sub, srec, istempl)

    def _walk_pattern(self, c):
        """uninstantiated class template pattern: only advance the line counter"""
        if not c: return
        self._line(c)
        for x in c.get('inner', []): self._walk_pattern(x)

    def _dependent(self, n):
        t = n.get('type', {}).get('qualType', '')
        if 'type-parameter' in t: return True
        if n.get('_dep') is not None: return n['_dep']
        r = self._dep(n)
        n['_dep'] = r
        return r

    def _dep(self, n):
        q = (n.get('type') or {}).get('qualType', '') if isinstance(n.get('type'), dict) else ''
        if '<dependent type>' in q: return True
        if n.get('kind') in ('CXXDependentScopeMemberExpr', 'UnresolvedLookupExpr', 'CXXUnresolvedConstructExpr', 'UnresolvedMemberExpr', 'ParenListExpr'):
            return True
        for c in n.get('inner', []):
            if c and c.get('kind') not in SKIP and self._dep(c): return True
        return False

    def _enum(self, n, scope):
        cur = -1
        for c in n.get('inner', []):
            if c.get('kind') != 'EnumConstantDecl': continue
            v = None
            for e in c.get('inner', []):
                if e.get('kind') == 'ConstantExpr': v = int(e['value'])
                elif e.get('kind') == 'ImplicitCastExpr':
                    for e2 in e.get('inner', []):
                        if e2.get('kind') == 'ConstantExpr': v = int(e2['value'])
            cur = cur + 1 if v is None else v
            self.enums[c['id']] = cur
            self.enums[scope + '::' + (n.get('name') or '') + '::' + c['name']] = cur

    # ---- lookup
    def definition(self, did, name=None):
        n = self.by_id.get(did)
        if n is None: return None
        m = n.get('mangledName')
        if m and m in self.by_mangled: return self.by_mangled[m]
        if n.get('_hasbody'): return n
        return n if self._has_body(n) else None

    def _has_body(self, n):
        return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []))

    def bases(self, rec):
        r = self.records.get(rec)
        if not r: return []
        out = []
        for b in r.get('bases', []):
            t = b['type'].get('desugaredQualType') or b['type']['qualType']
            out.append(self.norm_rec(t, rec))
        return out

    def norm_rec(self, t, scope=''):
        t = t.replace('struct ', '').replace('class ', '').strip()
        if t in self.records: return t
        parts = scope.split('::')
        for i in range(len(parts), -1, -1):
            c = '::'.join(parts[:i] + [t]) if i else t
            if c in self.records: return c
        return t

    def fields(self, rec):
        """[(name, type dict, init node or None)] including bases first"""
        out = []
        for b in self.bases(rec): 
            if b in self.records: out += self.fields(b)
        r = self.records[rec]
        for c in r.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                init = None
                for e in c.get('inner', []):
                    if e.get('kind') not in SKIP and not e.get('kind', '').endswith('Attr'): init = e
                out.append((c.get('name') or '', c['type'], init if c.get('hasInClassInitializer') else None))
        return out

    def user_copy(self, rec):
        """the record declares its own copy constructor"""
        for n in self.records[rec].get('inner', []):
            if n.get('kind') == 'CXXConstructorDecl' and not n.get('isImplicit') and not n.get('explicitlyDefaulted'):
                ps = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
                if len(ps) == 1 and re.match(r'^(const )?%s &$' % re.escape(rec.split('::')[-1]), ps[0]['type']['qualType']): return True
        return False

    def derives(self, rec, base):
        if rec == base: return True
        return any(self.derives(b, base) for b in self.bases(rec))

    def method(self, rec, name):
        """definitions of methods called name declared in rec (not bases)"""
        return [n for n in self.by_qual.get(rec + '::' + name, [])]

    def find_virtual(self, rec, name, ty):
        """final overrider of name with signature type ty, searching rec then bases"""
        seen = [rec]
        while seen:
            r = seen.pop(0)
            for n in self.method(r, name):
                if _sig(n['type']['qualType']) == _sig(ty): return n
            seen += self.bases(r)
        return None

def _sig(t):
    # parameter list + constness only
    t = t.replace(' override', '').replace(' final', '')
    i = t.find('(')
    return re.sub(r'\s+', '', t[i:]).replace('noexcept', '')
