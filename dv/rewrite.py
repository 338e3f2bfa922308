"""Mechanical source-to-source step applied to every /repo module before it is executed by the verifier.

What the step changes (and nothing else):
  * a counting loop "while i < e: ...; i += 1" (i not written and no continue in the body) is executed as the for loop
    over range(i, e) when i and e are integers; that e keeps its value is checked in every iteration;
  * for / while loops get a cut-point call (the loop rule) before the body; the body is kept as it is;
  * an empty dict display goes through dv__.D so that a dictionary can be tracked at one arbitrary key;
  * list displays and comprehensions go through dv__.L / dv__.comp so that they can hold sequences of symbolic length;
  * a bare "except:" becomes "except Exception:" (so that verifier control flow is not swallowed);
  * the first statement of every handler asks whether the exception is one that only a modelled value raises (then the
    contract is outside the verifier's reach);
  * f-strings and %-formatting of symbolic values go through dv__.fmt.
Statements, expressions, control flow and names of the code are otherwise executed exactly as parsed from /repo."""
import ast

class Names(ast.NodeVisitor):
    """names bound by a list of statements (not entering nested functions/classes)"""
    def __init__(self): self.s = []
    def add(self, n):
        if n not in self.s: self.s.append(n)
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.add(n.id)
    def visit_FunctionDef(self, n): self.add(n.name)
    def visit_ClassDef(self, n): self.add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_ExceptHandler(self, n):
        if n.name: self.add(n.name)
        self.generic_visit(n)
    def visit_Import(self, n):
        for a in n.names: self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

def bound(stmts):
    v = Names()
    for s in stmts: v.visit(s)
    return v.s

def loads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}

def at_level(stmts, kinds):
    """does a statement of one of the kinds belong to this loop body (not to a nested loop or function)"""
    for s in stmts:
        if isinstance(s, kinds): return True
        if isinstance(s, (ast.For, ast.While)):
            if at_level(s.orelse, kinds): return True
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): continue
        for f in ('body', 'orelse', 'finalbody'):
            if at_level(getattr(s, f, []), kinds): return True
        for h in getattr(s, 'handlers', []):
            if at_level(h.body, kinds): return True
    return False

class Counting(ast.NodeTransformer):
    """counting while loops as for loops (the while loop is kept for values that are not integers)"""
    def __init__(self): self.k = 0; self.depth = 0
    def visit_FunctionDef(self, n):
        self.depth += 1; self.generic_visit(n); self.depth -= 1; return n
    def visit_While(self, n):
        self.generic_visit(n)
        if not self.depth: return n
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.GtE)):
            t = ast.Compare(t.comparators[0], [ast.Lt() if isinstance(t.ops[0], ast.Gt) else ast.LtE()], [t.left])
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name) and len(n.body) > 1): return n
        i = t.left.id; last = n.body[-1]; e = t.comparators[0]
        one = lambda x: isinstance(x, ast.Constant) and type(x.value) is int and x.value == 1
        isi = lambda x: isinstance(x, ast.Name) and x.id == i
        if isinstance(last, ast.AugAssign): ok = isinstance(last.op, ast.Add) and isi(last.target) and one(last.value)
        elif isinstance(last, ast.Assign): ok = len(last.targets) == 1 and isi(last.targets[0]) and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and (
            isi(last.value.left) and one(last.value.right) or one(last.value.left) and isi(last.value.right))
        else: ok = False
        body = n.body[:-1]
        if not ok or i in bound(body) or at_level(body, (ast.Continue,)): return n
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.NamedExpr, ast.Yield, ast.YieldFrom)) for s in n.body for x in ast.walk(s)): return n
        if any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr, ast.Await)) for x in ast.walk(e)) or i in loads(e): return n
        # a value computed with random numbers or the like is evaluated as often as the while loop does, apart from the extra look at the bound
        self.k += 1; b = 'dv_b%d' % self.k; s0 = 'dv_s%d' % self.k
        N = lambda x, c=ast.Load: ast.Name(x, c())
        C = lambda f, *a: ast.Call(ast.Attribute(N('dv__'), f, ast.Load()), list(a), [])
        import copy
        hi = lambda: copy.deepcopy(e) if isinstance(t.ops[0], ast.Lt) else C('plus1', copy.deepcopy(e))
        loop = ast.For(N(i, ast.Store), ast.Call(N('range'), [N(s0), N(b)], []),
                       [*copy.deepcopy(body), ast.Expr(C('bound', N(b), hi()))],
                       [ast.Assign([N(i, ast.Store)], C('wend', N(s0), N(b)))] + copy.deepcopy(n.orelse))
        new = [ast.Assign([N(s0, ast.Store)], N(i)), ast.Assign([N(b, ast.Store)], hi()), ast.If(C('counts', N(s0), N(b)), [loop], [n])]
        return [ast.copy_location(x, n) for x in new]

def free(node):
    """names that an expression reads from outside (after nested comprehensions became lambdas)"""
    if isinstance(node, ast.Lambda):
        a = node.args; own = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        r = free(node.body) - own
        for d in a.defaults + [d for d in a.kw_defaults if d is not None]: r |= free(d)
        return r
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        own = set(); r = set()
        for g in node.generators:
            r |= free(g.iter) - own
            own |= set(bound([ast.Assign([g.target], ast.Constant(0))]))
            for c in g.ifs: r |= free(c) - own
        for e in ([node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]): r |= free(e) - own
        return r
    if isinstance(node, ast.Name): return {node.id} if isinstance(node.ctx, ast.Load) else set()
    r = set()
    for c in ast.iter_child_nodes(node): r |= free(c)
    return r

class RW(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname; self.qual = []; self.fn = []; self.cnt = {}
    def lid(self):
        q = self.mod + ':' + '.'.join(self.qual)
        self.cnt[q] = self.cnt.get(q, 0) + 1
        return '%s#%d' % (q, self.cnt[q])
    def visit_ClassDef(self, n):
        self.qual.append(n.name); self.fn.append(None)
        self.generic_visit(n)
        self.fn.pop(); self.qual.pop()
        return n
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.qual.append(n.name)
        argn = [a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs] + [a.arg for a in (n.args.vararg, n.args.kwarg) if a]
        self.fn.append((set(argn) | set(bound(n.body)), n))
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        n.body = body
        self.fn.pop(); self.qual.pop()
        if n.name == '__del__': n.name = 'dv_finalizer'      # finalizers run at the collector's discretion: not part of any contract
        return n
    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out
    def call(self, f, *args):
        return ast.Call(ast.Attribute(ast.Name('dv__', ast.Load()), f, ast.Load()), list(args), [])
    def restore(self, which, lid, names):
        """if dv__.<which>(lid): x = dv__.get(lid,'x') if has"""
        inner = []
        for x in names:
            inner.append(ast.If(self.call('has', ast.Constant(lid), ast.Constant(x)),
                                [ast.Assign([ast.Name(x, ast.Store())], self.call('get', ast.Constant(lid), ast.Constant(x)))], []))
        if not inner: return []
        return [ast.If(self.call(which, ast.Constant(lid)), inner, [])]
    def visit_For(self, n):
        if not self.fn or self.fn[-1] is None:
            return self.generic_visit(n)       # module / class level loops are always concrete
        lid = self.lid()
        tnames = bound([ast.Assign([n.target], ast.Constant(0))])
        names = [x for x in bound(n.body)]
        it = self.visit(n.iter)
        body = self.stmts(n.body)
        orelse = self.stmts(n.orelse)
        allnames = names + [t for t in tnames if t not in names]
        new = ast.For(n.target,
                      self.call('loop', ast.Constant(lid), it, ast.Tuple([ast.Constant(x) for x in names], ast.Load()), ast.Tuple([ast.Constant(x) for x in tnames], ast.Load())),
                      self.restore('hv', lid, names) + body,
                      self.restore('ex', lid, allnames) + orelse)
        return new
    def visit_While(self, n):
        if not self.fn or self.fn[-1] is None: return self.generic_visit(n)
        lid = self.lid()
        names = bound(n.body)
        test = self.visit(n.test)
        body = self.stmts(n.body); orelse = self.stmts(n.orelse)
        top = [ast.Expr(self.call('wtop', ast.Constant(lid), ast.Tuple([ast.Constant(x) for x in names], ast.Load())))]
        out = [ast.Expr(self.call('wenter', ast.Constant(lid))),
               ast.While(ast.Constant(True), top + self.restore('hv', lid, names) +
                         [ast.If(ast.UnaryOp(ast.Not(), test), self.stmts([]) + [ast.Expr(self.call('wexit', ast.Constant(lid)))] + orelse + [ast.Break()], [])] + body, [])]
        return out
    # --- lists
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fn and self.fn[-1] is not None:
            return ast.copy_location(self.call('L', n), n)
        return n
    def _comp(self, n, kind):
        if not self.fn or self.fn[-1] is None: return self.generic_visit(n)
        if any(g.is_async for g in n.generators): return self.generic_visit(n)
        loc = self.fn[-1][0]
        def build(gens, elt_thunk, outer=frozenset()):
            g = gens[0]
            tn = bound([ast.Assign([g.target], ast.Constant(0))])
            rest = gens[1:]
            elt = elt_thunk if not rest else build(rest, elt_thunk, outer | set(tn))
            conds = g.ifs
            cond = None
            if conds: cond = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
            if isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not): cond = self.call('lnot', cond.operand)
            cap = (free(elt) | (free(cond) if cond is not None else set()))
            cap = sorted((cap & (loc | outer)) - set(tn))
            if isinstance(g.target, ast.Name): params = [g.target.id]; unp = False
            else: params = tn; unp = True
            def lam(b):
                if unp:
                    # target unpacking: lambda item: (lambda a, b: body)(*unpack(item))
                    innerargs = ast.arguments([], [ast.arg(p) for p in params] + [ast.arg(c) for c in cap], None, [], [], None, [ast.Name(c, ast.Load()) for c in cap])
                    shape = shape_of(g.target)
                    f = ast.Lambda(innerargs, b)
                    return self.call('unp', f, ast.Constant(shape))
                args = ast.arguments([], [ast.arg(params[0])] + [ast.arg(c) for c in cap], None, [], [], None, [ast.Name(c, ast.Load()) for c in cap])
                return ast.Lambda(args, b)
            return self.call('comp', ast.Constant('flat' if rest else kind), lam(elt), g.iter, lam(cond) if cond is not None else ast.Constant(None))
        # visit children first (nested displays)
        self.generic_visit(n)
        r = build(list(n.generators), n.elt)
        return ast.copy_location(r, n)
    def visit_ListComp(self, n): return self._comp(n, 'list')
    def visit_GeneratorExp(self, n): return self._comp(n, 'gen')
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                if v.format_spec is not None or v.conversion not in (-1, 115): parts.append(ast.Call(ast.Name('format', ast.Load()), [v.value] + ([v.format_spec] if v.format_spec is not None else []), []))
                else: parts.append(v.value)
            else: parts.append(v)
        return ast.copy_location(self.call('fstr', *parts), n)
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(self.call('pct', n.left, n.right), n)
        return n
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None: n.type = ast.Name('Exception', ast.Load())
        if self.fn and self.fn[-1] is not None: n.body.insert(0, ast.Expr(self.call('caught')))
        return n
    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys and self.fn and self.fn[-1] is not None: return ast.copy_location(self.call('D'), n)
        return n

def shape_of(t):
    if isinstance(t, ast.Name): return None
    return tuple(shape_of(x) for x in t.elts)

def rewrite(src, modname, fname):
    t = ast.parse(src)
    t = Counting().visit(t)
    t = RW(modname).visit(t)
    ast.fix_missing_locations(t)
    return compile(t, fname, 'exec')
