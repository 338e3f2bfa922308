"""Front end for the C++ extension: every function of namespace xboa that clang parses from /repo's current sources is
rewritten mechanically, statement by statement, into Python source, which the verifier then executes symbolically like any
other module of /repo (loops cut by the same rule, branches forked, containers from dv/cxxrt.py).

Nothing is written by hand per function.  What the rewriting changes or drops:
  * sums, differences and products of machine integers wrap around at their width (signed ones too), ++ never overflows, and doubles are exact reals (division by zero gives an unspecified value);
  * objects of class type are Python objects, pointers to them are references, pointers to scalars are boxes;
  * a reference to a const scalar is passed by value;
  * destructors of local objects, parameters and temporaries run at the end of the block, call or full expression (objects
    whose destruction has no effect are simply dropped);
  * static members of class templates are one object for all units (the linker gives them unique symbols);
  * a construct that is not translated raises Unsupported when it is reached, so a function that needs it is not decided."""
import json, os, subprocess, re, hashlib

TUS = {'wc': ['pylib/PyWeightContext.cc', 'cpplib/WeightContext.cc'],
       'hit': ['cpplib/Hitcore.cc', 'pylib/PyHitcore.cc'],
       'bunch': ['cpplib/Hitcore.cc', 'cpplib/Bunchcore.cc', 'pylib/PyBunchcore.cc']}

def parse(repo, files):
    root = os.path.join(repo, 'xboa', 'core')
    import sysconfig
    inc = '/usr/include/python3.12'
    src = ''.join('#include "%s"\n' % os.path.join(root, f) for f in files)
    p = subprocess.run(['clang++', '-std=gnu++17', '-fsyntax-only', '-w', '-x', 'c++', '-I' + root, '-I' + inc, '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=xboa', '-'],
                       input=src, capture_output=True, text=True, timeout=120)
    if p.returncode: raise RuntimeError('clang: ' + p.stderr[-2000:])
    s = p.stdout; d = json.JSONDecoder(); i = 0; docs = []
    n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: break
        o, i = d.raw_decode(s, i); docs.append(o)
    return docs

SCALAR = {'double', 'float', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'bool', 'char', 'short', 'unsigned char', 'size_t', 'std::size_t', 'Py_ssize_t', 'signed char', 'unsigned short', 'long double', 'std::nullptr_t'}
INTEGERS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long'}
FUNC = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
RECORD = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl')

def canon(ty):
    t = ty.get('desugaredQualType') or ty.get('qualType', '')
    t = t.strip()
    return t
def plain(t):
    """name of a class without namespace, template arguments, const and &"""
    return strip_cv(t.replace('&', ' ')).strip().split('<')[0].split('::')[-1]
def strip_cv(t):
    t = t.strip()
    while True:
        u = t
        if t.endswith('&'): t = t[:-1].strip()
        if t.startswith('const '): t = t[6:].strip()
        if t.endswith(' const'): t = t[:-6].strip()
        if t.endswith('*const'): t = t[:-5].strip()
        for k in ('struct ', 'class ', 'enum '):
            if t.startswith(k): t = t[len(k):]
        if u == t: return t
def is_string(t): t = strip_cv(t); return t in ('std::string', 'string', 'std::basic_string<char>', 'basic_string<char>', 'std::__cxx11::basic_string<char>') or t.startswith('std::basic_string<char')
def is_ptr(t): t = strip_cv(t); return t.endswith('*') or '(*)' in t or '::*' in t
def is_scalar(t):
    t = strip_cv(t)
    return t in SCALAR or is_ptr(t) or is_string(t) or t.startswith('enum ')
def ident(s): return re.sub(r'\W', '_', s)
def targs(t):
    """template arguments of the outermost template of a type"""
    i = t.find('<')
    if i < 0: return []
    out = []; d = 0; cur = ''
    for ch in t[i:]:
        if ch in '<([': d += 1
        if ch in '>)]':
            d -= 1
            if d == 0: out.append(cur[1:] if not out else cur); break
        if ch == ',' and d == 1:
            out.append(cur[1:] if not out else cur); cur = ''
            continue
        cur += ch
    return [x.strip() for x in out]

class Unit:
    def __init__(self, docs):
        self.decl = {}; self.canon = {}; self.funcs = {}; self.classes = {}; self.globals = {}; self.order = []
        self.parent = {}; self._nt = {}; self.statics = []
        for d in docs: self.index(d, None, [])
        self.resolve()
    # ---- indexing
    def index(self, n, parent, qual):
        if not n or 'kind' not in n: return
        k = n['kind']
        if 'id' in n and k.endswith('Decl'):
            if n['id'] not in self.decl: self.decl[n['id']] = n; self.parent[n['id']] = parent; n['_q'] = qual
            self.order.append(n)
        q = qual
        if k == 'NamespaceDecl' or k in RECORD:
            nm = n.get('name', '(anon)')
            if k == 'ClassTemplateSpecializationDecl':
                a = [strip_targ(x) for x in n.get('inner', []) if x.get('kind') == 'TemplateArgument']
                nm += '<' + ', '.join(a) + '>'
                n['_tname'] = nm
            q = qual + [nm]
        elif k in FUNC: q = qual + [n.get('name', '')]
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            for c in n.get('inner', []):
                # the pattern itself (dependent) is not translated, its instantiations are
                if c.get('kind') in RECORD and c['kind'] == 'CXXRecordDecl': continue
                if c.get('kind') in FUNC and not any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])): continue
                self.index(c, n, q)
            return
        for c in n.get('inner', []): self.index(c, n, q)
    def root(self, i):
        seen = set()
        while i in self.decl and 'previousDecl' in self.decl[i] and i not in seen:
            seen.add(i); i = self.decl[i]['previousDecl']
        return i
    def owner(self, n):
        """class of a method"""
        i = n.get('parentDeclContextId')
        if i is None:
            r = self.decl.get(self.root(n['id']), n)
            i = r.get('parentDeclContextId')
            p = self.parent.get(r['id'])
            if i is None and p is not None and p['kind'] in RECORD: return p
            if i is None: return None
        d = self.decl.get(i)
        return d if d is not None and d['kind'] in RECORD else None
    def resolve(self):
        for n in self.order:
            if n['kind'] in RECORD and (n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', []))):
                if n.get('isImplicit'): continue
                key = self.root(n['id'])
                self.classes.setdefault(key, n)
                for i in (n['id'],): self.canon[i] = key
        names = {}
        for key, n in self.classes.items():
            for d in [self.decl.get(key), n]:
                o = self.decl.get(d.get('parentDeclContextId')) if d is not None else None
                if o is not None and o['kind'] in RECORD: n['_q'] = o['_q'] + [o.get('_tname', o.get('name', 'anon'))]; break
            else:
                d = self.parent.get(key)
                if d is not None and d['kind'] in RECORD and n['_q'] == d['_q']: n['_q'] = d['_q'] + [d.get('_tname', d.get('name', 'anon'))]
        for key, n in self.classes.items():
            q = [x for x in n['_q'] if x not in ('xboa', 'core')] + [n.get('_tname', n.get('name', 'anon'))]
            n['_full'] = '::'.join(n['_q'] + [n.get('_tname', n.get('name', 'anon'))])
            b = ident('_'.join(q)); names[b] = names.get(b, 0) + 1
            n['_py'] = b if names[b] == 1 else '%s_%d' % (b, names[b])
        fn = {}
        for n in self.order:
            if n['kind'] not in FUNC: continue
            body = next((c for c in n.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
            key = self.root(n['id'])
            ent = self.funcs.setdefault(key, {'node': None, 'decls': []})
            ent['decls'].append(n)
            if body is not None and ent['node'] is None: ent['node'] = n; ent['body'] = body
        for key, ent in self.funcs.items():
            n = ent['node'] or ent['decls'][0]; o = None
            for d in ent['decls']:
                o = o or self.owner(d)
            ent['owner'] = o
            base = ident((o['_py'] + '__' if o is not None and '_py' in o else ident('_'.join(x for x in n['_q'] if x not in ('xboa', 'core'))) + '__') + n.get('name', 'anon'))
            sig = n.get('mangledName') or n['type']['qualType']
            fn.setdefault(base, []).append(sig)
            ent['py'] = 'f_%s_%d' % (base, fn[base].index(sig))
            ent['full'] = ('::'.join(n['_q']) if o is None else o.get('_full', '::'.join(n['_q']))) + '::' + n.get('name', '')
            ent['static'] = any(d.get('storageClass') == 'static' for d in ent['decls'])
            ent['virtual'] = any(d.get('virtual') for d in ent['decls'])
        for n in self.order:
            if n['kind'] == 'VarDecl' and self.is_global(n):
                key = self.root(n['id'])
                o = self.owner(n)
                ent = self.globals.setdefault(key, {'init': None, 'type': canon(n['type']), 'py': None})
                nm = ident('_'.join(x for x in ((o['_full'].split('::') if o is not None and '_full' in o else n['_q'])) if x not in ('xboa', 'core')) + '__' + n.get('name', ''))
                if ent['py'] is None: ent['py'] = nm
                if o is not None and o['kind'] == 'ClassTemplateSpecializationDecl': ent['tmpl'] = True
                e = [c for c in n.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups', 'ListExpr'))]
                if e and ent['init'] is None: ent['init'] = e[0]
                ent['extern'] = n.get('storageClass') == 'extern' and not e and ent.get('extern', True)
                if not e and ent['init'] is None and o is not None and n.get('previousDecl'): ent['defined'] = True
    def nontrivial(self, t):
        """has destroying an object of this type any effect"""
        t = t.strip()
        if not t or t.endswith('&') or is_ptr(t) or is_scalar(t): return False
        t = strip_cv(t)
        if t in self._nt: return self._nt[t]
        self._nt[t] = False
        r = False
        if t.startswith('std::'): r = any(self.nontrivial(a) for a in targs(t))
        else:
            for key, c in self.classes.items():
                if c.get('_full') == t:
                    for e in self.funcs.values():
                        if e['node'] is not None and e['node']['kind'] == 'CXXDestructorDecl' and e['owner'] is not None and self.root(e['owner']['id']) == key and e['body'].get('inner'): r = True
                    r = r or any(self.nontrivial(canon(f['type'])) for f in c.get('inner', []) if f.get('kind') == 'FieldDecl')
                    for b in c.get('bases', []): r = r or self.nontrivial(b['type'].get('desugaredQualType') or b['type']['qualType'])
        self._nt[t] = r
        return r
    def is_global(self, n):
        p = self.parent.get(n['id'])
        while p is not None:
            if p['kind'] in FUNC or p['kind'] == 'DeclStmt' or p['kind'].endswith('Stmt'): return False
            if p['kind'] in RECORD or p['kind'] == 'NamespaceDecl': return True
            p = None
        return True

def strip_targ(x):
    t = x.get('type', {}); s = t.get('qualType') or str(x.get('value', ''))
    return s

class Bail(Exception): pass

class Fn:
    """translation of one function"""
    def __init__(self, unit, ent):
        self.u, self.ent = unit, ent
        self.n = ent['node']; self.names = {}; self.used = {}; self.boxed = set(); self.lines = []; self.ind = 1; self.tmp = 0
        self.bind = {}
        self.scan(self.n)
    def scan(self, n):
        """locals of scalar type whose address is taken"""
        if not n: return
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
            c = n['inner'][0]
            while c.get('kind') == 'ParenExpr': c = c['inner'][0]
            if c.get('kind') == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl') and is_scalar(canon(c['type'])):
                self.boxed.add(c['referencedDecl']['id'])
        if n.get('kind') == 'VarDecl' and is_scalar(canon(n['type'])) and self.u.decl.get(n.get('id')) is not None and n['type']['qualType'].rstrip().endswith('&') and not n['type']['qualType'].startswith('const'):
            pass
        for c in n.get('inner', []): self.scan(c)
    def name(self, d):
        i = d['id']
        if i not in self.names:
            b = ident(d.get('name') or 'anon%d' % len(self.names))
            if b in ('in', 'is', 'def', 'lambda', 'from', 'None', 'pass', 'len', 'range', 'self', 'and', 'or', 'not', 'G', 'raise', 'with', 'as', 'del', 'global', 'import', 'yield', 'print', 'True', 'False') or b.startswith('_'): b = 'v_' + b
            if b in self.used: self.used[b] += 1; b = '%s_%d' % (b, self.used[b])
            self.used.setdefault(b, 1)
            self.names[i] = b
        return self.names[i]
    def put(self, s, d=0): self.lines.append('    ' * (self.ind + d) + s)
    def out(self, s):
        if '_tmp(' in s:
            # temporaries with a destructor die at the end of the statement
            if s.startswith('if '):
                t = self.fresh(); self.put('with _temps():'); self.put('%s = %s' % (t, s[3:-1]), 1); self.put('if %s:' % t); return
            if re.match(r'(while|for|with|elif|except)\b', s): raise Bail('temporary with a destructor in a loop head')
            self.put('with _temps():'); self.put(s, 1); return
        self.put(s)
    def scope(self, nm):
        self.put('with _scope(%s):' % nm); self.ind += 1; self.put('pass')
    # ---- functions
    def emit(self):
        n = self.n; ps = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        args = [self.name(p) for p in ps]
        meth = n['kind'] != 'FunctionDecl' and not self.ent['static'] and self.ent['owner'] is not None
        head = 'def %s(%s):' % (self.ent['py'], ', '.join((['self'] if meth else []) + args))
        try:
            for p, a in zip(ps, args):
                if p['id'] in self.boxed: self.out('%s = _Box(%s)' % (a, a))
            if n['kind'] == 'CXXConstructorDecl':
                self.ctor_inits(n)
            for p, a in zip(ps, args):
                if not p['type']['qualType'].rstrip().endswith('&') and self.u.nontrivial(canon(p['type'])): self.scope(a)
            b = self.ent['body']
            if b['kind'] == 'CXXTryStmt': self.stmt(b)
            else: self.block(b)
        except Bail as e:
            self.lines = ['    _unsup(%r)' % str(e)]
        if not self.lines: self.out('pass')
        return '\n'.join([head] + self.lines)
    def ctor_inits(self, n):
        done = set()
        for c in n.get('inner', []):
            if c.get('kind') != 'CXXCtorInitializer': continue
            f = c.get('anyInit')
            if f is None:
                if 'baseInit' in c: continue
                if 'delegatingInit' in c: raise Bail('delegating constructor')
                continue
            e = c['inner'][0]; done.add(f['name'])
            if e['kind'] == 'CXXDefaultInitExpr':
                fd = self.field(f); 
                self.out('self.%s = %s' % (f['name'], self.expr(fd['inner'][0]) if fd is not None and fd.get('inner') else '_undef()'))
            else: self.out('self.%s = %s' % (f['name'], self.value(e)))
    def field(self, f): return self.u.decl.get(f['id'])
    # ---- statements
    def block(self, n):
        i0 = self.ind
        try: self.block_(n)
        finally: self.ind = i0
    def block_(self, n):
        if n.get('kind') == 'CompoundStmt':
            k = len(self.lines)
            for c in n.get('inner', []): self.stmt(c)
            if len(self.lines) == k: self.out('pass')
        else: 
            k = len(self.lines)
            self.stmt(n)
            if len(self.lines) == k: self.out('pass')
    def sub(self, n):
        self.ind += 1
        try: self.block(n)
        finally: self.ind -= 1
    def stmt(self, n):
        if not n or 'kind' not in n: return
        k = n['kind']; i = n.get('inner', [])
        if k == 'CompoundStmt':
            i0 = self.ind
            for c in i: self.stmt(c)
            self.ind = i0
        elif k == 'SwitchStmt': self.switch(n)
        elif k == 'NullStmt': pass
        elif k == 'DeclStmt':
            for c in i: self.declare(c)
        elif k == 'ReturnStmt':
            self.out('return ' + self.value(i[0]) if i else 'return')
        elif k == 'IfStmt':
            i = list(i)
            if n.get('hasInit'): self.stmt(i.pop(0))
            if n.get('hasVar'): self.stmt(i.pop(0))
            self.out('if %s:' % self.cond(i[0])); self.sub(i[1])
            if n.get('hasElse') and len(i) > 2: self.out('else:'); self.sub(i[2])
        elif k == 'WhileStmt':
            if n.get('hasVar'): raise Bail('while with a declaration')
            self.out('while %s:' % self.cond(i[0])); self.sub(i[1])
        elif k == 'DoStmt':
            if self.has(i[0], 'ContinueStmt'): raise Bail('continue in do loop')
            self.out('while True:'); self.sub(i[0]); self.ind += 1; self.out('if not (%s): break' % self.cond(i[1])); self.ind -= 1
        elif k == 'ForStmt': self.for_(n)
        elif k == 'CXXForRangeStmt': self.range_for(n)
        elif k == 'BreakStmt': self.out('break')
        elif k == 'ContinueStmt': self.out('continue')
        elif k == 'CXXTryStmt':
            self.out('try:'); self.sub(i[0])
            x = self.fresh(); self.out('except _CxxError as %s:' % x); self.ind += 1; kw = 'if'; last = False
            for c in i[1:]:
                var = c['inner'][0] if c['inner'] and c['inner'][0].get('kind') == 'VarDecl' else None
                t = '...' if var is None else canon(var['type'])
                self.out('%s _caught(%s, %r):' % (kw, x, strip_cv(t))); kw = 'elif'
                if var is not None: self.put('%s = %s.value' % (self.name(var), x), 1)
                self.sub(c['inner'][-1])
            self.out('else: raise'); self.ind -= 1
        else: self.expr_stmt(n)
    def has(self, n, kind):
        if not n: return False
        return n.get('kind') == kind or any(self.has(c, kind) for c in n.get('inner', []))
    def declare(self, d):
        k = d['kind']
        if k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'EmptyDecl'): return
        if k == 'DecompositionDecl':
            e = [c for c in d['inner'] if c.get('kind') != 'BindingDecl'][0]; b = [c for c in d['inner'] if c.get('kind') == 'BindingDecl']
            t = 'v_dec%d' % len(self.lines)
            self.out('%s = %s' % (t, self.expr(e)))
            for x, f in zip(b, ('first', 'second')): self.bind[x['id']] = '%s.%s' % (t, f)
            if len(b) != 2: raise Bail('structured binding of %d names' % len(b))
            return
        if k != 'VarDecl': raise Bail('local ' + k)
        if d.get('storageClass') == 'static':
            # initialised with the module: the initialiser may not mention locals
            g = '%s__%s' % (self.ent['py'], d['name']); e = [c for c in d.get('inner', []) if c.get('kind') not in ('FullComment',) and not c.get('kind', '').endswith('Attr')]
            f = Fn(self.u, {'node': {}, 'py': '', 'owner': None, 'static': True})
            v = f.value(e[0]) if e else f.default(canon(d['type']))
            if f.lines or f.names: raise Bail('static local variable')
            self.u.statics.append((g, v)); self.bind[d['id']] = 'G.' + g
            return
        nm = self.name(d); t = canon(d['type'])
        e = [c for c in d.get('inner', []) if c.get('kind') not in ('FullComment',) and not c.get('kind', '').endswith('Attr')]
        ref = d['type']['qualType'].rstrip().endswith('&')
        if e:
            if ref and not is_scalar(t): v = self.expr(e[0])
            elif ref and not d['type']['qualType'].startswith('const'):
                # a reference to a scalar place: an alias, spelled out at each use when the place is a plain one
                self.alias(d, e[0]); return
            else: v = self.value(e[0])
        else: v = self.default(t)
        if d['id'] in self.boxed: v = '_Box(%s)' % v
        self.out('%s = %s' % (nm, v))
        if not ref and self.u.nontrivial(t): self.scope(nm)
    def switch(self, n):
        i = [c for c in n['inner'] if c and c.get('kind')]
        if n.get('hasInit') or n.get('hasVar') or len(i) != 2 or i[1]['kind'] != 'CompoundStmt': raise Bail('switch')
        t = self.fresh(); self.out('%s = %s' % (t, self.expr(i[0])))
        groups = []
        def take(c):
            if c['kind'] in ('CaseStmt', 'DefaultStmt'):
                lab = None if c['kind'] == 'DefaultStmt' else self.expr(c['inner'][0])
                if groups and not groups[-1][1]: groups[-1][0].append(lab)
                else: groups.append(([lab], []))
                take(c['inner'][-1])
            else:
                if not groups: raise Bail('statement before the first case')
                groups[-1][1].append(c)
        for c in i[1].get('inner', []): take(c)
        def ends(c):
            k = c['kind']
            if k in ('BreakStmt', 'ReturnStmt', 'ContinueStmt') or k == 'ExprWithCleanups' and ends(c['inner'][0]) or k == 'CXXThrowExpr': return True
            if k == 'CompoundStmt': return bool(c.get('inner')) and ends(c['inner'][-1])
            if k == 'DoStmt': return ends(c['inner'][0])
            if k == 'IfStmt': return bool(c.get('hasElse')) and ends(c['inner'][1]) and ends(c['inner'][2])
            if k == 'CallExpr': return self.strip(c['inner'][0]).get('kind') == 'ImplicitCastExpr' and 'unreachable' in json.dumps(c['inner'][0])
            return False
        f = self.fresh(); self.out('%s = False' % f)
        for j, (labs, body) in enumerate(groups):
            if not body: continue
            if not ends(body[-1]) and j < len(groups) - 1: raise Bail('case that falls through')
            if any(self.has(c, 'BreakStmt') for c in body[:-1]) or body[-1]['kind'] not in ('BreakStmt',) and self.inner_break(body[-1]): raise Bail('break inside a case')
            other = [l for k2, (ls, b2) in enumerate(groups) for l in ls if l is not None and k2 != j]
            cond = ' or '.join('%s == %s' % (t, l) for l in labs if l is not None)
            if None in labs: cond = ('not (%s)' % ' or '.join('%s == %s' % (t, l) for l in other)) if other else 'True'
            self.out('if %s:' % cond); self.ind += 1; k0 = len(self.lines); i0 = self.ind
            for c in body:
                if c['kind'] != 'BreakStmt': self.stmt(c)
            self.ind = i0
            if len(self.lines) == k0: self.out('pass')
            self.ind -= 1
    def inner_break(self, c):
        k = c.get('kind')
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt'): return False
        return k == 'BreakStmt' or any(self.inner_break(x) for x in c.get('inner', []) if x)
    def alias(self, d, e):
        s = self.expr(e)
        m = re.fullmatch(r'(.*)\[(.*)\]', s, re.S)
        if m and s.count('[') == 1:
            a, b = self.fresh(), self.fresh()
            self.out('%s = %s; %s = %s' % (a, m.group(1), b, m.group(2)))
            self.bind[d['id']] = '%s[%s]' % (a, b)
        elif re.fullmatch(r'[\w.]+', s): self.bind[d['id']] = s
        else: raise Bail('reference to a scalar')
    def fresh(self): self.tmp += 1; return 'v_t%d' % self.tmp
    def default(self, t):
        t = strip_cv(t)
        m = re.fullmatch(r'(.*)\[(\d*)\]', t)
        if m: return '_undef()'
        if is_string(t): return "''"
        if is_scalar(t): return '_undef()'
        return '_default(%r)' % t
    # ---- loops
    def for_(self, n):
        init, _, cond, inc, body = n['inner']
        r = self.counted(init, cond, inc, body)
        if r: 
            head, check = r
            self.out(head); self.ind += 1
            for c in check: self.out(c)
            self.ind -= 1
            self.sub(body); return
        self.stmt(init)
        if not self.has(body, 'ContinueStmt'):
            self.out('while %s:' % (self.cond(cond) if cond else 'True')); self.sub(body); self.ind += 1; self.stmt(inc); self.ind -= 1
        else:
            f = self.fresh(); self.out('%s = True' % f); self.out('while True:'); self.ind += 1
            self.out('if not %s:' % f); self.ind += 1; k = len(self.lines); self.stmt(inc); 
            if len(self.lines) == k: self.out('pass')
            self.ind -= 1; self.out('%s = False' % f)
            self.out('if not (%s): break' % (self.cond(cond) if cond else 'True'))
            self.ind -= 1; self.sub(body)
    def strip(self, n):
        while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr') or (n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') in ('LValueToRValue', 'NoOp', 'IntegralCast')):
            n = n['inner'][0]
        return n
    def refid(self, n):
        n = self.strip(n)
        return n['referencedDecl']['id'] if n.get('kind') == 'DeclRefExpr' else None
    def writes(self, n, i):
        if not n: return False
        k = n.get('kind')
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('opcode') == '=' or k == 'CompoundAssignOperator') and self.refid(n['inner'][0]) == i: return True
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&') and self.refid(n['inner'][0]) == i: return True
        if k == 'CXXOperatorCallExpr' and len(n['inner']) > 1 and self.opname(n) in ('operator++', 'operator--', 'operator=', 'operator+=') and self.refid(n['inner'][1]) == i: return True
        return any(self.writes(c, i) for c in n.get('inner', []))
    def opname(self, n): 
        f = self.strip(n['inner'][0])
        while f.get('kind') == 'ImplicitCastExpr': f = f['inner'][0]
        return f.get('referencedDecl', {}).get('name', '')
    def counted(self, init, cond, inc, body):
        """for (T i = a; i < b; ++i) with i not written in the body, or the same over the iterators of a container"""
        if not init or not cond or not inc or init.get('kind') != 'DeclStmt' or len(init['inner']) != 1: return None
        d = init['inner'][0]
        if d['kind'] != 'VarDecl' or d['id'] in self.boxed: return None
        if self.writes(body, d['id']): return None
        c = self.strip(cond); j = self.strip(inc)
        e = [x for x in d.get('inner', []) if x.get('kind') != 'FullComment']
        if not e: return None
        if c.get('kind') == 'BinaryOperator' and c['opcode'] in ('<', '<=', '!=') and j.get('kind') == 'UnaryOperator' and j['opcode'] == '++' and self.refid(j['inner'][0]) == d['id'] and self.refid(c['inner'][0]) == d['id'] and is_scalar(canon(d['type'])) and not is_ptr(canon(d['type'])):
            hi = self.expr(c['inner'][1]) + (' + 1' if c['opcode'] == '<=' else '')
            lo = self.expr(e[0]); nm = self.name(d); b = self.fresh()
            self.out('%s = %s' % (b, hi))
            return 'for %s in range(%s, %s):' % (nm, lo, b), ['_bound(%s, %s)' % (b, hi)]
        # container iterators
        neg = c.get('kind') == 'CXXOperatorCallExpr' and self.opname(c) == 'operator!='
        if c.get('kind') == 'CXXRewrittenBinaryOperator':
            c = self.strip(c['inner'][0])
            if c.get('kind') == 'UnaryOperator' and c['opcode'] == '!': c = self.strip(c['inner'][0]); neg = c.get('kind') == 'CXXOperatorCallExpr' and self.opname(c) == 'operator=='
        if neg and j.get('kind') == 'CXXOperatorCallExpr' and self.opname(j) == 'operator++' and self.refid(j['inner'][1]) == d['id'] and self.refid(c['inner'][1]) == d['id']:
            b = self.container(e[0], ('begin', 'cbegin')); z = self.container(c['inner'][2], ('end', 'cend'))
            if b is not None and b == z: return 'for %s in _iterate(%s):' % (self.name(d), b), []
        return None
    def container(self, n, names):
        n = self.strip(n)
        while n.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr') and len(n.get('inner', [])) == 1: n = self.strip(n['inner'][0])
        if n.get('kind') != 'CXXMemberCallExpr': return None
        m = self.strip(n['inner'][0])
        if m.get('kind') != 'MemberExpr' or m['name'] not in names: return None
        return self.expr(m['inner'][0])
    def range_for(self, n):
        i = [c for c in n['inner'] if c]
        rng = next(c for c in i if c['kind'] == 'DeclStmt' and c['inner'][0].get('name', '').startswith('__range'))
        var = [c for c in i if c['kind'] == 'DeclStmt'][-1]['inner'][0]
        e = [c for c in rng['inner'][0]['inner']][0]
        cont = self.expr(e)
        body = i[-1]
        if var['kind'] == 'DecompositionDecl':
            t = self.fresh(); b = [c for c in var['inner'] if c.get('kind') == 'BindingDecl']
            if len(b) != 2: raise Bail('structured binding')
            for x, f in zip(b, ('first', 'second')): self.bind[x['id']] = '%s.%s' % (t, f)
            self.out('for %s in _iterate(%s):' % (t, cont)); self.sub(body); return
        nm = self.name(var); t = canon(var['type']); q = var['type']['qualType'].rstrip()
        ref = q.endswith('&')
        if ref and is_scalar(t) and not q.startswith('const'):
            it = self.fresh(); self.bind[var['id']] = it + '.ref.v'
            self.out('for %s in _places(%s):' % (it, cont)); self.sub(body); return
        self.out('for %s in _elements(%s):' % (nm, cont))
        self.ind += 1
        if not ref and not is_scalar(t): self.out('%s = _copy(%s)' % (nm, nm))
        if var['id'] in self.boxed: self.out('%s = _Box(%s)' % (nm, nm))
        self.ind -= 1
        self.sub(body)
    # ---- expressions
    def expr_stmt(self, n):
        n0 = n
        while n.get('kind') in ('ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or (n.get('kind') in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and n.get('castKind') == 'ToVoid'): n = n['inner'][0]
        k = n['kind']
        if k == 'BinaryOperator' and n['opcode'] == '=':
            a, b = n['inner']
            b1 = self.strip(b)
            if b1.get('kind') == 'BinaryOperator' and b1.get('opcode') == '=':
                self.expr_stmt(b1); self.out('%s = %s' % (self.expr(a), self.expr(b1['inner'][0]))); return
            self.out('%s = %s' % (self.expr(a), self.value(b))); return
        if k == 'BinaryOperator' and n['opcode'] == ',':
            for c in n['inner']: self.expr_stmt(c)
            return
        if k == 'CompoundAssignOperator':
            a, b = n['inner']; op = n['opcode'][:-1]; x = self.expr(a); y = self.value(b)
            ct = n.get('computeResultType', {}); cl = n.get('computeLHSType', {})
            lhs = x
            if canon(cl) in ('double', 'float') and strip_cv(canon(a['type'])) not in ('double', 'float'): raise Bail('compound assignment with conversion')
            self.out('%s = %s' % (x, self.arith(op, lhs, y, canon(cl) or canon(a['type'])))); return
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            x = self.expr(n['inner'][0]); t = strip_cv(canon(n['inner'][0]['type']))
            if n['opcode'] == '--' and t in INTEGERS: self.out('%s = _dec(%s, %r)' % (x, x, t)); return
            self.out('%s = %s %s 1' % (x, x, n['opcode'][0])); return
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n); a = n['inner'][1:]
            if op == 'operator=' and is_scalar(canon(a[0]['type'])):
                self.out('%s = %s' % (self.expr(a[0]), self.value(a[1]))); return
            if op == 'operator+=' and is_string(canon(a[0]['type'])):
                x = self.expr(a[0]); self.out('%s = %s + %s' % (x, x, self.value(a[1]))); return
        if k == 'CXXThrowExpr':
            e = n.get('inner', [])
            if not e: self.out('raise'); return
            t = strip_cv(canon(e[0]['type']))
            self.out('raise _throw(%r, %s)' % (t, self.value(e[0]))); return
        if k == 'CXXDeleteExpr':
            self.out('_delete(%s)' % self.expr(n['inner'][0])); return
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            self.out('if %s:' % self.cond(c)); self.ind += 1; self.expr_stmt(a); self.ind -= 1
            self.out('else:'); self.ind += 1; self.expr_stmt(b); self.ind -= 1; return
        if k.endswith('Stmt'): raise Bail(k)
        if n.get('valueCategory') == 'prvalue' and self.u.nontrivial(canon(n.get('type', {}))): self.out('_discard(%s)' % self.expr(n)); return
        self.out(self.expr(n))
    def cond(self, n): return self.expr(n)
    def arith(self, op, x, y, t):
        t = strip_cv(t)
        if op == '/': return '_fdiv(%s, %s)' % (x, y) if t in ('double', 'float', 'long double') else '_idiv(%s, %s)' % (x, y)
        if op == '%': return '_imod(%s, %s)' % (x, y)
        if op in ('+', '-', '*') and t in INTEGERS: return '_icast(%s %s %s, %r)' % (x, op, y, t)      # wraps around
        if op in ('+', '-', '*', '<<', '>>', '&', '|', '^'): return '(%s %s %s)' % (x, op, y)
        raise Bail('operator ' + op)
    def value(self, n):
        """prvalue: a copy when an object of class type is initialised from an lvalue is explicit in the syntax tree"""
        return self.expr(n)
    def expr(self, n):
        k = n['kind']; f = getattr(self, 'x_' + k, None)
        if f is None: raise Bail('expression ' + k)
        return f(n)
    def first(self, n): return self.expr(n['inner'][0])
    x_ParenExpr = x_ExprWithCleanups = x_CXXBindTemporaryExpr = x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = x_CXXRewrittenBinaryOperator = first
    def x_MaterializeTemporaryExpr(self, n):
        e = self.first(n)
        if not self.u.nontrivial(canon(n['type'])): return e
        if n.get('extendingDecl'): raise Bail('lifetime of a temporary extended')
        return '_tmp(%s)' % e
    def x_CXXDefaultArgExpr(self, n): return '_DEFAULT'
    def x_IntegerLiteral(self, n): return str(n['value'])
    def x_FloatingLiteral(self, n): return repr(float(n['value']))
    def x_CXXBoolLiteralExpr(self, n): return 'True' if n['value'] in (True, 'true') else 'False'
    def x_CharacterLiteral(self, n): return repr(chr(n['value']))
    def x_StringLiteral(self, n): return repr(json.loads(n['value'])) if n['value'].startswith('"') else repr(n['value'])
    def x_CXXNullPtrLiteralExpr(self, n): return 'None'
    x_GNUNullExpr = x_CXXNullPtrLiteralExpr
    def x_ImplicitValueInitExpr(self, n):
        t = strip_cv(canon(n['type'])); return self.zero(t)
    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr
    def zero(self, t):
        t = strip_cv(t)
        if is_ptr(t): return 'None'
        if is_string(t): return "''"
        if t in ('double', 'float'): return '0.0'
        if t == 'bool': return 'False'
        if t in SCALAR: return '0'
        return '_default(%r)' % t
    def x_CXXThisExpr(self, n): return 'self'
    def x_DeclRefExpr(self, n):
        d = n['referencedDecl']; i = d['id']
        if i in self.bind: return self.bind[i]
        if d['kind'] in FUNC: return self.fref(d)
        if d['kind'] == 'EnumConstantDecl': return '_enum(%r)' % d['name']
        if d['kind'] in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            r = self.u.root(i)
            if r in self.u.globals: return 'G.' + self.u.globals[r]['py']
            dd = self.u.decl.get(i)
            if dd is None: return '_extern(%r)' % d.get('name')
            if i not in self.names and d['kind'] == 'VarDecl' and not self.local(i): return '_extern(%r)' % d.get('name')
            return self.name(d) + ('.v' if i in self.boxed else '')
        raise Bail('reference to ' + d['kind'])
    def local(self, i):
        return i in self.names
    def fref(self, d):
        r = self.u.root(d['id'])
        e = self.u.funcs.get(r)
        if e is None: return '_ext(%r)' % d.get('name', '')
        if e['node'] is None: return '_ext(%r)' % e['full']
        return e['py']
    def x_ImplicitCastExpr(self, n):
        c = n.get('castKind'); s = n['inner'][0]
        if c in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BitCast', 'BaseToDerived', 'BuiltinFnToFnPtr', 'ToVoid'): return self.expr(s)
        if c in ('NullToPointer', 'NullToMemberPointer'): return 'None'
        if c in ('IntegralToFloating',):
            return '_tof(%s)' % self.expr(s)
        if c == 'FloatingToIntegral': return '_toint(%s)' % self.expr(s)
        if c == 'FloatingCast': return self.expr(s)
        if c in ('IntegralToBoolean', 'FloatingToBoolean'): return '(%s != 0)' % self.expr(s)
        if c in ('PointerToBoolean', 'MemberPointerToBoolean'): return '_nn(%s)' % self.expr(s)
        if c == 'IntegralCast':
            a, b = strip_cv(canon(s['type'])), strip_cv(canon(n['type']))
            if a == 'bool': return '_b2i(%s)' % self.expr(s)
            if s.get('kind') == 'IntegerLiteral': return self.expr(s)
            return '_icast(%s, %r)' % (self.expr(s), b)
        if c in ('IntegralToPointer', 'PointerToIntegral'): return '_pint(%s)' % self.expr(s)
        raise Bail('cast ' + str(c))
    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXReinterpretCastExpr = x_CXXConstCastExpr = x_CXXFunctionalCastExpr = x_CXXDynamicCastExpr = x_ImplicitCastExpr
    def x_UnaryOperator(self, n):
        o = n['opcode']; s = n['inner'][0]
        if o == '!': return '_not(%s)' % self.expr(s)
        if o == '-': return '(-%s)' % self.expr(s)
        if o == '+': return self.expr(s)
        if o == '*':
            t = canon(n['type'])
            return self.deref(self.expr(s), t)
        if o == '&':
            c = self.strip(s)
            t = canon(s['type'])
            if c.get('kind') == 'DeclRefExpr' and c['referencedDecl']['kind'] in FUNC: return self.expr(c)
            if c.get('kind') == 'DeclRefExpr' and c['referencedDecl']['id'] in self.boxed: return self.name(c['referencedDecl'])
            if not is_scalar(t): return self.expr(s)
            if c.get('kind') in ('CXXOperatorCallExpr', 'ArraySubscriptExpr'): 
                a = c['inner'][-2:]
                return '_addr_elem(%s, %s)' % (self.expr(a[0]), self.expr(a[1]))
            if c.get('kind') == 'MemberExpr': return '_addr_member(%s, %r)' % (self.base(c), c['name'])
            raise Bail('address of ' + c.get('kind', '?'))
        if o in ('++', '--'):
            c = self.strip(s)
            x = self.expr(s)
            if c.get('kind') == 'DeclRefExpr' and re.fullmatch(r'\w+', x):
                if n.get('isPostfix'): return '((%s := %s %s 1) %s 1)' % (x, x, o[0], '-' if o == '++' else '+')
                return '(%s := %s %s 1)' % (x, x, o[0])
        raise Bail('unary ' + o)
    def deref(self, s, t):
        return '%s.v' % s if is_scalar(t) else s
    def x_BinaryOperator(self, n):
        o = n['opcode']; a, b = n['inner']
        if o in ('->*', '.*'): return '_bindm(%s, %s)' % (self.expr(a), self.expr(b))
        if o == '&&': return '(%s and %s)' % (self.cond(a), self.cond(b))
        if o == '||': return '(%s or %s)' % (self.cond(a), self.cond(b))
        ta = canon(a['type'])
        if o in ('==', '!=') and (is_ptr(ta) or is_ptr(canon(b['type']))):
            r = '_peq(%s, %s)' % (self.expr(a), self.expr(b))
            return r if o == '==' else '_not(%s)' % r
        if o in ('==', '!=', '<', '>', '<=', '>='): return '(%s %s %s)' % (self.expr(a), o, self.expr(b))
        if o == '=':
            x = self.expr(a)
            if re.fullmatch(r'\w+', x): return '(%s := %s)' % (x, self.value(b))
            raise Bail('assignment inside an expression')
        if o == ',': return '(%s, %s)[1]' % (self.expr(a), self.expr(b))
        return self.arith(o, self.expr(a), self.expr(b), canon(n['type']))
    def x_ConditionalOperator(self, n):
        c, a, b = n['inner']
        return '(%s if %s else %s)' % (self.value(a), self.cond(c), self.value(b))
    def base(self, n):
        return self.expr(n['inner'][0])
    def x_MemberExpr(self, n):
        m = n.get('referencedMemberDecl'); r = self.u.root(m) if m else None
        if r in self.u.globals: return 'G.' + self.u.globals[r]['py']
        if n['name'] == 'ob_type': return '_obtype(%s)' % self.base(n)
        return '%s.%s' % (self.base(n), n['name'])
    def x_ArraySubscriptExpr(self, n):
        a, b = n['inner']; return '%s[%s]' % (self.expr(a), self.expr(b))
    def x_InitListExpr(self, n):
        t = strip_cv(canon(n['type']))
        if t.endswith(']'): return '_array([%s])' % ', '.join(self.value(c) for c in n.get('inner', n.get('array_filler', [])) if c.get('kind') != 'ImplicitValueInitExpr')
        if t in SCALAR or is_ptr(t): return self.value(n['inner'][0]) if n.get('inner') else self.zero(t)
        return '_struct(%r, [%s])' % (t, ', '.join(self.value(c) for c in n.get('inner', [])))
    def x_CXXStdInitializerListExpr(self, n): return self.expr(n['inner'][0])
    def args(self, l): return [self.value(c) for c in l if c.get('kind') != 'CXXDefaultArgExpr']
    def x_CXXConstructExpr(self, n):
        t = strip_cv(canon(n['type'])); a = [c for c in n.get('inner', []) if c.get('kind') != 'CXXDefaultArgExpr']; ct = n.get('ctorType', {}).get('qualType', '')
        return self.construct(t, ct, a)
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr
    def cls(self, t):
        t = strip_cv(t)
        for key, c in self.u.classes.items():
            if c.get('_full') == t or c.get('_full', '').endswith('::' + t): return key, c
        return None, None
    def construct(self, t, ct, a):
        if is_string(t):
            if not a: return "''"
            return '_str(%s)' % ', '.join(self.value(c) for c in a)
        key, c = self.cls(t)
        if c is None:
            return '_construct(%r, %r%s)' % (t, ct, ''.join(', ' + self.value(x) for x in a))
        fn = None
        for e in self.u.funcs.values():
            if any(d['kind'] == 'CXXConstructorDecl' for d in e['decls']) and e['owner'] is not None and self.u.root(e['owner']['id']) == key:
                if any(norm(d['type']['qualType']) == norm(ct) for d in e['decls']): fn = e; break
        if fn is not None and fn['node'] is not None:
            return '_new(%s, %s%s)' % (c['_py'], fn['py'], ''.join(', ' + self.value(x) for x in a))
        if len(a) == 1: return '_copy(%s)' % self.value(a[0])
        if not a: return '_new(%s, None)' % c['_py']
        raise Bail('constructor of ' + t)
    def x_CXXNewExpr(self, n):
        i = [c for c in n.get('inner', []) if c.get('kind') in ('CXXConstructExpr', 'InitListExpr')]
        if not i: raise Bail('new of a scalar')
        return '_heap(%s)' % self.expr(i[0])
    def x_CXXMemberCallExpr(self, n):
        f = n['inner'][0]; a = n['inner'][1:]
        f = self.strip(f)
        if f.get('kind') == 'MemberExpr':
            m = f.get('referencedMemberDecl'); r = self.u.root(m) if m else None
            e = self.u.funcs.get(r)
            if e is not None and e['virtual']: return '%s.%s(%s)' % (self.base(f), ident(f['name']), ', '.join(self.args(a)))
            if e is not None:
                py = e['py'] if e['node'] is not None else '_ext(%r)' % e['full']
                if e['static']: return '%s(%s)' % (py, ', '.join(self.args(a)))
                if f['name'].startswith('~'): return '_destroy(%s)' % self.base(f)
                return '%s(%s)' % (py, ', '.join([self.base(f)] + self.args(a)))
            return self.stdcall(f, a)
        if f.get('kind') == 'BinaryOperator': return '%s(%s)' % (self.expr(f), ', '.join(self.args(a)))
        raise Bail('member call through ' + f.get('kind', '?'))
    def stdcall(self, f, a):
        b = self.base(f); nm = f['name']; bt = canon(f['inner'][0]['type'])
        if is_string(bt):
            if nm in ('c_str', 'data'): return b
            if nm in ('size', 'length'): return 'len(%s)' % b
            if nm == 'empty': return '(%s == "")' % b
            raise Bail('string.' + nm)
        if nm == 'at' : return '%s.at_[%s]' % (b, self.expr(a[0]))
        if nm.startswith('operator'):
            if nm == 'operator bool': return '_nn(%s)' % b
            raise Bail(nm)
        return '%s.%s(%s)' % (b, ident(nm) + ('_' if nm in ('print',) else ''), ', '.join(self.args(a)))
    def x_CallExpr(self, n):
        f = self.strip(n['inner'][0]); a = n['inner'][1:]
        while f.get('kind') == 'ImplicitCastExpr': f = f['inner'][0]
        if f.get('kind') == 'DeclRefExpr' and f['referencedDecl']['kind'] in FUNC:
            return '%s(%s)' % (self.fref(f['referencedDecl']), ', '.join(self.args(a)))
        if f.get('kind') == 'MemberExpr' : return '%s(%s)' % (self.mfun(f), ', '.join(self.args(a)))
        return '%s(%s)' % (self.expr(f), ', '.join(self.args(a)))
    def mfun(self, f):
        r = self.u.root(f.get('referencedMemberDecl')); e = self.u.funcs.get(r)
        if e is None or e['node'] is None: raise Bail('call of member ' + f.get('name', '?'))
        return e['py']
    def x_CXXOperatorCallExpr(self, n):
        op = self.opname(n)[8:]; a = n['inner'][1:]
        f = self.strip(n['inner'][0])
        while f.get('kind') == 'ImplicitCastExpr': f = f['inner'][0]
        d = f['referencedDecl']; e = self.u.funcs.get(self.u.root(d['id']))
        if e is not None and e['node'] is not None: return '%s(%s)' % (e['py'], ', '.join(self.args(a)))
        if op == '[]': return '%s[%s]' % (self.expr(a[0]), self.expr(a[1]))
        if op == '=':
            if is_scalar(canon(a[0]['type'])): raise Bail('assignment inside an expression')
            return '_assign(%s, %s)' % (self.expr(a[0]), self.value(a[1]))
        if op == '==': return '_eq(%s, %s)' % (self.expr(a[0]), self.expr(a[1]))
        if op == '!=': return '_not(_eq(%s, %s))' % (self.expr(a[0]), self.expr(a[1]))
        if op == '->': return '_arrow(%s)' % self.expr(a[0])
        if op == '*' and len(a) == 1: 
            s = '_star(%s)' % self.expr(a[0]); return s + ('.v' if is_scalar(canon(n['type'])) else '')
        if op == '++': return '_inc(%s)' % self.expr(a[0])
        if op == '()': return '%s(%s)' % (self.expr(a[0]), ', '.join(self.args(a[1:])))
        if op in ('+', '-', '<', '>', '<=', '>=') and len(a) == 2: return '(%s %s %s)' % (self.expr(a[0]), op, self.value(a[1]))
        raise Bail('operator' + op)
    def x_PredefinedExpr(self, n): return "''"
    def x_UnaryExprOrTypeTraitExpr(self, n): return '_SIZEOF'
    def x_StmtExpr(self, n): raise Bail('statement expression')

def norm(t): return re.sub(r'\s*noexcept.*$', '', t).replace('xboa::core::', '').replace(' ', '').replace('&&', '&')

def transpile(repo, tu):
    docs = parse(repo, TUS[tu])
    u = Unit(docs)
    L = ['from dvcxx import *', 'G = Globals()', 'def f_dv_destroy_each(v):', '    for x in _elements(v):', '        _destroy(x)']
    for key, c in u.classes.items():
        bases = []
        for b in c.get('bases', []):
            k2, c2 = (None, None)
            for kk, cc in u.classes.items():
                t = strip_cv(b['type'].get('desugaredQualType') or b['type']['qualType'])
                if cc['_full'] == t or cc['_full'].endswith('::' + t): c2 = cc
            if c2 is not None: bases.append(c2['_py'])
        fields = [(f['name'], strip_cv(canon(f['type']))) for f in c.get('inner', []) if f.get('kind') == 'FieldDecl' and f.get('name')]
        c['_fields'] = fields; c['_bases'] = bases
    done = set(); cl = list(u.classes.values())
    while cl:
        for c in list(cl):
            if all(b in done for b in c['_bases']):
                L.append('class %s(%s):\n    cxx_name = %r; cxx_fields = %r' % (c['_py'], ', '.join(c['_bases'] or ['CxxObject']), c['_full'], c['_fields']))
                done.add(c['_py']); cl.remove(c)
    reg = []; meth = {}
    # overriding functions are virtual whether or not they say so
    by = {c['_py']: c for c in u.classes.values() if '_py' in c}
    virt = {(e['owner']['_py'], (e['node'] or e['decls'][0]).get('name')) for e in u.funcs.values() if e['virtual'] and e['owner'] is not None and '_py' in e['owner']}
    def overrides(c, nm): return (c, nm) in virt or any(overrides(b, nm) for b in by.get(c, {}).get('_bases', ()))
    for e in u.funcs.values():
        if e['owner'] is not None and '_py' in e['owner'] and overrides(e['owner']['_py'], (e['node'] or e['decls'][0]).get('name')): e['virtual'] = True
    for key, e in u.funcs.items():
        if e['node'] is None: continue
        if e['node']['kind'] == 'CXXDestructorDecl' : pass
        L.append(Fn(u, e).emit())
        o = e['owner']
        reg.append((e['full'], e['py'], e['node']['type']['qualType'], e['node']['kind'], e['static'], o['_py'] if o is not None and '_py' in o else None))
        if e['virtual'] and o is not None: L.append('%s.%s = %s' % (o['_py'], ident(e['node']['name']), e['py']))
        nm = e['node'].get('name', '')
        if o is not None and '_py' in o:
            if e['node']['kind'] == 'CXXDestructorDecl': L.append('%s.cxx_dtor = %s' % (o['_py'], e['py']))
            if nm == 'operator=': L.append('%s.cxx_assign = %s' % (o['_py'], e['py']))
            if e['node']['kind'] == 'CXXConstructorDecl':
                ps = [c for c in e['node'].get('inner', []) if c.get('kind') == 'ParmVarDecl']
                if len(ps) == 1 and canon(ps[0]['type']).rstrip().endswith('&') and not canon(ps[0]['type']).rstrip().endswith('&&') and plain(canon(ps[0]['type'])) == plain(o['_full']): L.append('%s.cxx_copyctor = %s' % (o['_py'], e['py']))
                if not ps: L.append('%s.cxx_defctor = %s' % (o['_py'], e['py']))
            if nm == 'operator<': L.append('%s.cxx_less = %s' % (o['_py'], e['py']))
    L.append('FUNCTIONS = %r' % reg)
    for key, g in u.globals.items():
        f = Fn(u, {'node': {}, 'py': '', 'owner': None, 'static': True})
        try: v = f.expr(g['init']) if g['init'] is not None else f.default(g['type']) if not g.get('extern') else '_Opaque(%r)' % g['py']
        except Bail as b: v = '_Opaque(%r)' % g['py']
        if f.lines: v = '_Opaque(%r)' % g['py']
        t = strip_cv(g['type'])
        if g['init'] is None and is_ptr(t): v = 'None'
        L.append('G.define(%r, lambda: %s%s)' % (g['py'], v, ', True' if g.get('tmpl') else ''))
    for g, v in u.statics: L.append('G.define(%r, lambda: %s)' % (g, v))
    L.append('register(globals())')
    return '\n'.join(L) + '\n'

if __name__ == '__main__':
    import sys
    print(transpile(sys.argv[1], sys.argv[2]))
