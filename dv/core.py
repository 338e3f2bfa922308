"""Symbolic engine: path exploration by re-execution, obligations, folds, loop rule state.

Values are z3 terms wrapped in SR (real), SI (int), SB (bool).  Floating point is modelled by mathematical reals.
"""
import time, itertools, os
from fractions import Fraction
import z3

class PathEnd(BaseException):
    """ends the current path (loop consecution finished, infeasible, ...)"""
class Restart(BaseException):
    """a Houdini candidate was refuted: start the exploration of this harness again"""
class Unsupported(BaseException):
    """construct outside the verifier's reach"""
class Budget(BaseException):
    pass
class CaseSplit(BaseException):
    def __init__(self, n): self.n = n

UNBOUND = object()
E = None       # current engine

def frac(x):
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, int): return Fraction(x)
    if isinstance(x, Fraction): return x
    return Fraction(repr(float(x)))      # decimal literal value of the float

def rv(x):
    f = frac(x)
    return z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)

def is_num(x): return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)

class Sym: pass
DBG = bool(__import__("os").environ.get("DV_DBG"))

class SB(Sym):
    __slots__ = ['t']
    def __init__(self, t): self.t = t
    def __bool__(self): return E.fork(self.t)
    def __eq__(self, o): return SB(self.t == tb(o))
    def __ne__(self, o): return SB(self.t != tb(o))
    __hash__ = None
    def __and__(self, o): return SB(z3.And(self.t, tb(o)))
    def __or__(self, o): return SB(z3.Or(self.t, tb(o)))
    def __invert__(self): return SB(z3.Not(self.t))
    __rand__ = __and__
    __ror__ = __or__
    def __repr__(self): return "SB(%s)" % self.t
    def __deepcopy__(self, memo): return self

def tb(x):
    if isinstance(x, SB): return x.t
    if isinstance(x, z3.BoolRef): return x
    if isinstance(x, (SR, SI)): return x.t != 0
    return z3.BoolVal(bool(x))

def tr(x):
    """z3 real term"""
    if isinstance(x, SR): return x.t
    if isinstance(x, SI): return z3.ToReal(x.t)
    if isinstance(x, SB): return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ArithRef): return x if x.is_real() else z3.ToReal(x)
    if isinstance(x, bool): return z3.RealVal(int(x))
    if isinstance(x, (int, float, Fraction)): return rv(x)
    if hasattr(x, 'dtype') and hasattr(x, 'item') and getattr(x, 'size', 0) == 1: return tr(x.item())
    raise TypeError("not a real: %r" % (x,))

def ti(x):
    if isinstance(x, SI): return x.t
    if isinstance(x, z3.ArithRef) and x.is_int(): return x
    if isinstance(x, SB): return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float) and x == int(x): return z3.IntVal(int(x))
    if hasattr(x, '__index__'): return z3.IntVal(x.__index__())
    raise TypeError("not an int: %r" % (x,))

def const_of(t):
    """python number for a constant z3 term, else None"""
    if z3.is_int_value(t): return t.as_long()
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None

def wrap(t):
    """z3 term -> Sym, folding constants"""
    if z3.is_bool(t):
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return SB(t)
    c = const_of(t)
    if c is not None:
        if t.is_int(): return c
        return float(c) if Fraction(repr(float(c))) == c else SR(t)
    return SI(t) if t.is_int() else SR(t)

def isnumlike(o):
    return isinstance(o, (SR, SI, int, float, Fraction, SB)) or (hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0)

class _Num(Sym):
    __slots__ = ['t']
    __hash__ = None
    def __init__(self, t): self.t = t
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def _bin(self, o, f, rev=False):
        if isinstance(o, complex): raise Unsupported("complex arithmetic")
        if not isnumlike(o): return NotImplemented
        if isinstance(self, SI) and isinstance(o, (SI, int)):
            a, b = self.t, ti(o)
            k = SI
        else:
            a, b = tr(self), tr(o); k = SR
        if rev: a, b = b, a
        return k(f(a, b))
    def __add__(self, o):
        if is_num(o) and o == 0: return self
        return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o):
        if is_num(o) and o == 0: return self
        return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o):
        if is_num(o) and o == 0: return self
        return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if is_num(o) and o == 1: return self if not (isinstance(o, float) and isinstance(self, SI)) else SR(tr(self))
        if is_num(o) and o == 0: return 0. if isinstance(o, float) or isinstance(self, SR) else 0
        return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)): return NotImplemented
        return self.__mul__(o)
    def __truediv__(self, o):
        if not isnumlike(o): return NotImplemented
        E.nonzero(o)
        if is_num(o) and o == 1: return SR(tr(self))
        return SR(tr(self) / tr(o))
    def __rtruediv__(self, o):
        if not isnumlike(o): return NotImplemented
        E.nonzero(self)
        return SR(tr(o) / tr(self))
    def __floordiv__(self, o):
        if isinstance(self, SI) and isinstance(o, (SI, int)):
            E.nonzero(o)
            if is_num(o) and o > 0: return SI(self.t / ti(o))
            if bool(SB(ti(o) > 0)): return SI(self.t / ti(o))
            return SI((-self.t) / (-ti(o)))
        return SR(z3.ToReal((self / o).__floor__().t))
    def __rfloordiv__(self, o): return wrapnum(o).__floordiv__(self)
    def __mod__(self, o):
        if isinstance(self, SI) and isinstance(o, (SI, int)):
            return self - (self // o) * o
        return self - (self / o).__floor__() * o
    def __rmod__(self, o): return wrapnum(o).__mod__(self)
    def __neg__(self): return type(self)(-self.t)
    def __pos__(self): return self
    def __abs__(self): return type(self)(z3.If(self.t >= 0, self.t, -self.t)) if not E.split_abs else (self if bool(self >= 0) else -self)
    def __pow__(self, p): return power(self, p)
    def __rpow__(self, b): return power(b, self)
    def _cmp(self, o, f):
        if not isnumlike(o): return NotImplemented
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return f(0, o)
        if isinstance(self, SI) and isinstance(o, (SI, int)): return SB(f(self.t, ti(o)))
        return SB(f(tr(self), tr(o)))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r
    def __bool__(self): return E.fork(self.t != 0)
    def __floor__(self):
        if isinstance(self, SI): return self
        return SI(z3.ToInt(self.t))
    def __ceil__(self):
        if isinstance(self, SI): return self
        return SI(-z3.ToInt(-self.t))
    def __trunc__(self):
        if isinstance(self, SI): return self
        t = z3.simplify(self.t)
        if z3.is_to_real(t): return SI(t.arg(0))
        if bool(self >= 0): return SI(z3.ToInt(self.t))
        return SI(-z3.ToInt(-self.t))
    def __round__(self, nd=None):
        if isinstance(self, SI): return self
        # nearest integer, ties to even
        if nd is None: k = 1
        else:
            if not isinstance(nd, int) or abs(nd) > 30: raise Unsupported("round digits")
            k = 10 ** nd if nd >= 0 else Fraction(1, 10 ** -nd)
        k = z3.RealVal(str(k))
        h = self.t * k + z3.Q(1, 2); f = z3.ToInt(h)
        r = z3.If(z3.And(z3.ToReal(f) == h, f % 2 == 1), f - 1, f)
        return SI(r) if nd is None else SR(z3.ToReal(r) / k)
    def __float__(self):
        c = const_of(z3.simplify(self.t))
        if c is not None: return float(c)
        raise Unsupported("float() of a symbolic number outside the shims")
    def __repr__(self): return "%s(%s)" % (type(self).__name__, str(self.t)[:200])
    def sqrt(self): return power(self, 0.5)
    def conjugate(self): return self
    def item(self): return self

class SR(_Num):
    __slots__ = []
class SI(_Num):
    __slots__ = []
    def __index__(self):
        c = const_of(z3.simplify(self.t))
        if c is not None: return int(c)
        v = E.unique_value(self.t)
        if v is not None: return v
        raise Unsupported("symbolic integer used as a concrete index")
    def __int__(self): return self.__index__()

def wrapnum(x):
    if isinstance(x, Sym): return x
    if isinstance(x, int): return SI(z3.IntVal(x))
    return SR(rv(x))

def power(b, p):
    if isinstance(p, (SI, SR)):
        c = const_of(z3.simplify(p.t))
        if c is None:
            if isinstance(p, SI):
                v = E.unique_value(p.t)
                if v is not None: return power(b, v)
                return SR(E.uf('pow', 2)(tr(b), tr(p)))
            raise Unsupported("symbolic exponent")
        p = c if isinstance(c, int) else Fraction(c)
    if not isinstance(b, Sym):
        return b ** (float(p) if isinstance(p, Fraction) else p)
    f = Fraction(p).limit_denominator(64) if not isinstance(p, int) else Fraction(p)
    if abs(float(f) - float(p)) > 1e-12: raise Unsupported("irrational exponent %r" % p)
    if f.denominator == 1:
        n = f.numerator
        if n >= 0:
            if n == 0: return 1.0 if isinstance(p, float) or isinstance(b, SR) else 1
            r = b
            for _ in range(n - 1): r = r * b
            return SR(tr(r)) if isinstance(p, float) else r
        return 1.0 / power(b, -n)
    q = f.denominator
    base = tr(b)
    if q % 2 == 0:
        if not E.fork(base >= 0): raise E.complex_result()
    else:
        if not E.fork(base >= 0): raise E.complex_result()
    y = E.root(base, q)
    return power(SR(y), f.numerator) if f.numerator != 1 else SR(y)

def cmp_shape(t):
    """comparison as ('<' or '<=', l - r) standing for l - r < 0 / l - r <= 0"""
    neg = False
    while z3.is_not(t): neg = not neg; t = t.arg(0)
    if not z3.is_app(t) or t.num_args() != 2 or t.arg(0).sort() == z3.BoolSort(): return None
    k = t.decl().kind(); l, r = t.arg(0), t.arg(1)
    if k == z3.Z3_OP_LT: op = '<'
    elif k == z3.Z3_OP_LE: op = '<='
    elif k == z3.Z3_OP_GT: op = '<'; l, r = r, l
    elif k == z3.Z3_OP_GE: op = '<='; l, r = r, l
    else: return None
    if neg: op = '<=' if op == '<' else '<'; l, r = r, l
    return op, l - r

# ---------------------------------------------------------------- rational normal form
class NF:
    """rational functions over atoms: dict monomial->Fraction, monomial = sorted tuple of (atomid,exp)"""
    LIMIT = 6000
    def __init__(self, eng): self.eng = eng; self.atoms = {}; self.terms = []; self.cache = {}
    def atom(self, t):
        k = t.get_id()
        if k not in self.atoms:
            self.atoms[k] = len(self.terms); self.terms.append(t)
        return self.atoms[k]
    @staticmethod
    def padd(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v == 0: r.pop(m, None)
            else: r[m] = v
        return r
    def pmul(self, a, b):
        r = {}
        if len(a) * len(b) > 400000: raise Unsupported("normal form too large")
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = dict(m1)
                for x, e in m2: d[x] = d.get(x, 0) + e
                m = tuple(sorted(d.items()))
                v = r.get(m, 0) + c1 * c2
                if v == 0: r.pop(m, None)
                else: r[m] = v
        if len(r) > self.LIMIT: raise Unsupported("normal form too large")
        return self.reduce(r)
    def reduce(self, p):
        """apply root rules y^q -> base"""
        if not self.eng.roots: return p
        while True:
            hit = None
            for m in p:
                for x, e in m:
                    rule = self.eng.roots.get(self.terms[x].get_id())
                    if rule and e >= rule[1]: hit = (m, x, e, rule); break
                if hit: break
            if not hit: return p
            m, x, e, (base, q) = hit
            n, d = self.nf(base)
            if d != self.ONE: return p
            c = p.pop(m)
            mm = dict(m); mm[x] = e - q
            if mm[x] == 0: del mm[x]
            p = self.padd(p, self.pmul({tuple(sorted(mm.items())): c}, n))
    ONE = {(): 1}
    def cancel(self, n, d):
        """cancel common factors; only when the denominator is a single monomial"""
        if len(d) != 1: 
            if n == d: return (self.ONE, self.ONE)
            return (n, d)
        (m, c), = d.items()
        if not n: return ({}, self.ONE)
        if c != 1:
            n = {k: self.q(Fraction(v) / c) for k, v in n.items()}
        if m:
            com = dict(m)
            for k in n:
                dk = dict(k)
                for x in list(com):
                    e = min(com[x], dk.get(x, 0))
                    if e: com[x] = e
                    else: del com[x]
                if not com: break
            if com:
                def sub(k):
                    dk = dict(k)
                    for x, e in com.items():
                        dk[x] -= e
                        if not dk[x]: del dk[x]
                    return tuple(sorted(dk.items()))
                n = {sub(k): v for k, v in n.items()}; m = sub(m)
        return (n, {m: 1})
    @staticmethod
    def q(c): return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c
    def nf(self, t):
        k = t.get_id()
        if k in self.cache: return self.cache[k]
        r = self._nf(t)
        self.cache[k] = r
        return r
    def _nf(self, t):
        c = const_of(t)
        if c is not None:
            c = Fraction(c)
            return ({(): c.numerator if c.denominator == 1 else c} if c != 0 else {}, self.ONE)
        if z3.is_app(t):
            kd = t.decl().kind(); ch = t.children()
            if kd == z3.Z3_OP_ADD:
                r = self.nf(ch[0])
                for x in ch[1:]: r = self.radd(r, self.nf(x))
                return r
            if kd == z3.Z3_OP_SUB:
                r = self.nf(ch[0])
                for x in ch[1:]: r = self.radd(r, self.nf(x), -1)
                return r
            if kd == z3.Z3_OP_UMINUS:
                n, d = self.nf(ch[0]); return ({m: -c for m, c in n.items()}, d)
            if kd == z3.Z3_OP_MUL:
                r = self.nf(ch[0])
                for x in ch[1:]:
                    o = self.nf(x); r = self.cancel(self.pmul(r[0], o[0]), self.pmul(r[1], o[1]))
                return r
            if kd == z3.Z3_OP_DIV:
                a, b = self.nf(ch[0]), self.nf(ch[1])
                if not b[0]: raise Unsupported("division by zero in normal form")
                return self.cancel(self.pmul(a[0], b[1]), self.pmul(a[1], b[0]))
            if kd == z3.Z3_OP_TO_REAL: return self.nf(ch[0])
            if kd == z3.Z3_OP_POWER:
                e = const_of(ch[1])
                if e is not None and e == int(e) and 0 <= e <= 8:
                    r = (self.ONE, self.ONE); b = self.nf(ch[0])
                    for _ in range(int(e)): r = (self.pmul(r[0], b[0]), self.pmul(r[1], b[1]))
                    return r
        rep = self.eng.defs.get(t.get_id())
        if rep is not None: return self.nf(rep)
        return ({((self.atom(t), 1),): 1}, self.ONE)
    def radd(self, a, b, s=1):
        if a[1] == b[1]: return (self.padd(a[0], b[0], s), a[1])
        if b[1] == self.ONE: return (self.padd(a[0], self.pmul(b[0], a[1]), s), a[1])
        if a[1] == self.ONE: return (self.padd(self.pmul(a[0], b[1]), b[0], s), b[1])
        return self.cancel(self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), s), self.pmul(a[1], b[1]))
    def term(self, n):
        ts = []
        for m, c in n.items():
            p = rv(Fraction(c))
            for x, e in m:
                for _ in range(e): p = p * (self.terms[x] if self.terms[x].sort() == z3.RealSort() else z3.ToReal(self.terms[x]))
            ts.append(p)
        return z3.Sum(ts) if ts else rv(0)
    def equal(self, a, b):
        n, d = self.radd(self.nf(a), self.nf(b), -1)
        return not n

# ---------------------------------------------------------------- folds (ghost recurrences)
class Fold:
    """F(k, params) with F(0,p)=init(p), F(k+1,p)=step(F(k,p),k,p); value sort Real"""
    def __init__(self, name, init, step, nparams=0, pint=True, sort='R'):
        self.name, self.init, self.step, self.np = name, init, step, nparams
        ps = [z3.IntSort() if pint else z3.RealSort()] * nparams
        self.pint = pint; self.used = {}   # real parameters in use: label -> terms
        self.uf = z3.Function('fold!' + name, z3.IntSort(), *ps, z3.RealSort() if sort == 'R' else z3.IntSort())
        self.sort = sort
        self.done = set()
        self.outer = 0          # number of leading params that are enclosing loop counters
    def at(self, k, *params):
        k = ti(k); ps = self._ps(params)
        t = self.uf(k, *ps)
        self.inst0(ps)
        return SR(t) if self.sort == 'R' else SI(t)
    def _ps(self, params):
        if self.pint: return [ti(p) for p in params]
        ps = [z3.simplify(tr(p)) for p in params]
        self.used.setdefault('|'.join(p.sexpr() for p in ps), ps)
        return ps
    def term(self, k, ps): return self.uf(k, *ps)
    def _fact(self, key, fact):
        if key in self.done: return
        self.done.add(key)
        E.fact(fact())
    def inst0(self, ps):
        self._fact(('0',) + tuple(p.get_id() for p in ps),
                   lambda: self.uf(z3.IntVal(0), *ps) == (tr if self.sort == 'R' else ti)(self.init(*[wrap(p) for p in ps])))
    def inst(self, k, ps=()):
        k = ti(k); ps = self._ps(ps)
        self.inst0(ps)
        conv = tr if self.sort == 'R' else ti
        W = SR if self.sort == 'R' else SI
        self._fact((z3.simplify(k).get_id(),) + tuple(p.get_id() for p in ps),
                   lambda: self.uf(z3.simplify(k + 1), *ps) == conv(self.step(W(self.uf(z3.simplify(k), *ps)), wrap(k), *[wrap(p) for p in ps])))

class Oblig:
    def __init__(self, name): self.name = name; self.status = None; self.backend = None; self.time = 0.; self.model = None; self.n = 0; self.tainted = False; self.info = ''

def merge(total, obl):
    for n, o in obl.items():
        t = total.get(n)
        if t is None: total[n] = o; continue
        rank = {'discharged': 0, None: 0, 'unknown': 1, 'refuted': 2}
        a, b = (rank[t.status], t.status == 'refuted' and not t.tainted), (rank[o.status], o.status == 'refuted' and not o.tainted)
        w = o if b > a else t
        o2 = Oblig(n); vars(o2).update(vars(w)); o2.n = t.n + o.n; o2.time = t.time + o.time; total[n] = o2

class Engine:
    def __init__(self, name, tmo=4000, max_paths=400, budget_s=120):
        self.lemmas = set(); self.nunk = 0; self.name = name; self.tmo = tmo; self.max_paths = max_paths; self.budget_s = budget_s
        self.obl = {}            # name -> Oblig (aggregated)
        self.refuted = set()     # Houdini: (loop, cell, template-name)
        self.paths = 0; self.completed = 0; self.solver_time = 0.; self.queries = 0
        self.backends = {}
        self.split_abs = False
        self.funcs = set()       # functions of /repo executed under verification
        self.assumed = set()
        self.loops = {}
        self.reach = {}
        self.restarts = 0
        self.inputs = {}
        self.unsupported = None
        self.inv_body = set(); self.inv_exit = set()
        self.basecache = {}; self.inv_checked = 0; self.unroll = 40; self.notes = set()
    def cuts_while(self, lid): return any(w in lid for w in self.while_cut)
    # ---- per path state
    def _reset(self, prefix):
        self.cpos = 0; self.prefix = prefix; self.pos = 0; self.pc = []; self.counter = itertools.count()
        self.s = z3.Solver(); self.s.set('timeout', 1500)
        self.names = {}; self.roots = {}; self.rootmap = {}; self.defs = {}; self.tainted = False
        self.loopstack = []; self.folds = []; self.ufs = {}; self.nfobj = None
        self.inputs = {}; self.nz_done = set(); self.path_notes = []
        self.cleanup = []
        self.facts_ids = set()
        self.keep = []; self.hints = []; self.heap = []; self.notes = getattr(self, 'notes', set())
        self.sort_hook = self.minmax_hook = self.open_hook = self.moment_hook = self.cut_hook = self.eig_hook = self.eigh_hook = self.ghostkey = None
        self.while_cut = (); self.shared = None; self.demands = []; self.dinst = []; self.perms = []
    def demand(self, d):
        """universally quantified fact, instantiated at indices of interest"""
        self.demands.append(d)
        for i in list(self.dinst): d(i)
    def instantiate(self, i):
        i = z3.simplify(ti(i))
        if any(i.eq(j) for j in self.dinst): return
        self.dinst.append(i)
        for d in list(self.demands): d(i)
    def note_fn(self, f): self.funcs.add(f)
    def explore(self, fn):
        """every case of the contract's own choices is explored separately, over all its paths"""
        self.t0 = time.time(); work = [()]; total = {}; done = 0; warm = frozenset()
        while work:
            forced = work.pop()
            try:
                o, n, warm = self.explore_case(fn, forced, warm)
            except CaseSplit as ex:
                work += [forced + ((i, ex.n),) for i in reversed(range(ex.n))]; continue
            except BaseException:
                merge(total, self.obl); self.obl = total; raise
            done += n; merge(total, o); self.obl = dict(total)
        self.obl = total; self.completed = done
        return True
    def explore_case(self, fn, forced, warm):
        self.forced = forced
        # the refutations of the previous case, and refuting several candidates at once, only speed up the search: a case that
        # fails with them is explored again without
        best = None
        for start, fast in (((warm, True),) if warm else ()) + ((frozenset(), True), (frozenset(), False)):
            self.refuted = set(start); self.basecache = {}; self.prefer = {}; self.fast = fast; self.probed = False
            try: self.explore_paths(fn)
            except (Unsupported, Budget) as ex:
                if best is not None:
                    if isinstance(ex, Budget) or not fast: break
                    continue
                if not start and not fast or isinstance(ex, Budget) and str(ex) == 'time': raise
                continue
            best = self.obl, self.completed, frozenset(self.refuted)
            bad = [o for o in self.obl.values() if o.status != 'discharged']
            if not bad or all(o.status == 'refuted' and not o.tainted for o in bad): break
            if fast and not start and not self.probed: break      # nothing was done faster than without
        self.obl, self.completed = best[:2]
        return best
    def explore_paths(self, fn):
        """run fn over all paths; Houdini restarts"""
        global E
        restarts = 0
        while True:
            stack = [[]]; npaths = 0; self.probing = set()
            try:
                self.obl = {}; self.completed = 0; self.inv_body = set(); self.inv_exit = set()
                while stack:
                    if time.time() - self.t0 > self.budget_s: raise Budget("time")
                    npaths += 1; self.paths += 1
                    if npaths > self.max_paths: raise Budget("paths")
                    prefix = stack.pop()
                    if DBG: print('START', prefix)
                    self._reset(prefix); self.alts = []
                    E = self
                    try:
                        fn(self)
                        if self.vacuous(): (DBG and print('INFEASIBLE', self.prefix[:self.pos])); self.path_notes.append('infeasible')
                        else: self.completed += 1
                    except PathEnd as ex:
                        if DBG:
                            import traceback; print('PATHEND', self.prefix[:self.pos], ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in traceback.extract_tb(ex.__traceback__)[::-1][:5]))
                    except Unsupported as ex:
                        # an infeasible path may wander outside the supported fragment
                        if not self.vacuous(): raise
                        if DBG: print('VACUOUS', ex)
                    finally:
                        for c in self.cleanup: c()
                        E = self
                    for a in self.alts: stack.append(a)
                bad = [x for x in self.inv_exit if x not in self.inv_body and x[:2] not in self.inv_body]
                if self.probing:
                    for x in self.probing: self.prefer.setdefault(x, set())
                    raise Restart()
                if bad: raise Unsupported("loop invariant chosen differently before and after the loop: %s" % str(sorted(map(str, bad))[:2])[:300])
                return True
            except Restart:
                self.restarts += 1; restarts += 1
                if restarts > 200: raise Budget("restarts")
                continue
    def case(self, n):
        """a choice of the contract, 0..n-1: its outcomes are separate cases"""
        if n == 1: return 0
        k = self.cpos; self.cpos += 1
        if k >= len(self.forced): raise CaseSplit(n)
        i, m = self.forced[k]
        return i if m == n else self.choose(n)
    def vacuous(self):
        return self._check(self.s, 3000) == z3.unsat
    def fresh_name(self, base):
        n = self.names.get(base, 0); self.names[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)
    def fresh_int(self, base='i'): return z3.Int(self.fresh_name(base))
    def fresh_real(self, base='r'): return z3.Real(self.fresh_name(base))
    def fresh_bool(self, base='b'): return z3.Bool(self.fresh_name(base))
    def uf(self, name, n, ret='R'):
        k = (name, n, ret)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *([z3.RealSort()] * n), z3.RealSort() if ret == 'R' else z3.BoolSort())
        return self.ufs[k]
    def _check(self, s, tmo, *extra):
        t = time.time(); s.set('timeout', tmo)
        r = s.check(*extra)
        self.solver_time += time.time() - t; self.queries += 1
        return r
    def fact(self, f):
        if z3.is_true(f): return
        self.s.add(f); self.pc.append(f)
    def assume(self, c):
        if isinstance(c, Sym): c = tb(c)
        if isinstance(c, bool): c = z3.BoolVal(c)
        c = z3.simplify(c) if z3.is_false(z3.simplify(c)) or z3.is_true(z3.simplify(c)) else c
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        self.fact(c)
    def feasible(self, c=None):
        # unknown counts as feasible; after several unknown answers less time is spent on asking
        r = self._check(self.s, 1000 if self.nunk < 6 else 150, *([c] if c is not None else []))
        if r == z3.unknown: self.nunk += 1
        return r != z3.unsat
    def fork(self, t):
        st = z3.simplify(t)
        if z3.is_true(st): return True
        if z3.is_false(st): return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
            self.fact(t if d else z3.Not(t)); return d
        tf = self.feasible(t)
        ff = self.feasible(z3.Not(t)) if tf else True
        if tf and not ff: d = True
        elif ff and not tf: d = False
        else:
            self.alts.append(self.prefix + [False]); d = True
        self.prefix = self.prefix + [d]; self.pos += 1
        self.fact(t if d else z3.Not(t))
        return d
    def choose(self, n):
        """nondeterministic choice 0..n-1 (all explored)"""
        for i in range(n - 1):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]; self.pos += 1
            else:
                self.alts.append(self.prefix + [False]); d = True
                self.prefix = self.prefix + [True]; self.pos += 1
            if d: return i
        return n - 1
    def unique_value(self, t):
        if self._check(self.s, 1000) != z3.sat: return None
        v = self.s.model().eval(t, model_completion=True)
        if not z3.is_int_value(v): return None
        return v.as_long() if self._check(self.s, 1000, t != v) == z3.unsat else None
    def nonzero(self, o):
        """python division: ZeroDivisionError path when the divisor can be zero"""
        if not isinstance(o, Sym):
            if o == 0: raise ZeroDivisionError("division by zero")
            return
        t = tr(o)
        k = t.get_id()
        if k in self.nz_done: return
        c = t == 0
        try:
            # the numerator of the normal form decides (its denominator was already shown non-zero)
            nf = NF(self); n, d = nf.nf(t)
            if 1 < len(n) <= 60: c = nf.term(n) == 0
        except (Unsupported, RecursionError): pass
        if self.fork(c): raise ZeroDivisionError("division by zero")
        self.nz_done.add(k)
    def complex_result(self): return Unsupported("root of a negative number (complex result)")
    def root(self, base, q, search=True):
        b = z3.simplify(base, som=True)
        k = (b.get_id(), q)
        if k in self.rootmap: return self.rootmap[k][0]
        for (_, q2), (y2, b2, base2) in list(self.rootmap.items())[-8:] if search else ():
            # a base that is provably the base of an earlier root has that same root
            if q2 == q and self._check(self.s, 400, b != b2) == z3.unsat:
                self.rootmap[k] = (y2, b, base); return y2
        y = self.fresh_real('root%d' % q)
        p = y
        for _ in range(q - 1): p = p * y
        self.fact(z3.And(y >= 0, p == base))
        self.fact(z3.Implies(base > 0, y > 0)); self.fact(z3.Implies(base == 0, y == 0))
        self.roots[y.get_id()] = (base, q)
        self.rootmap[k] = (y, b, base)
        self.nfobj = None
        return y
    # ---- obligations
    def prove(self, goal, tmo=None):
        """-> ('proved', backend) | ('refuted', model) | ('unknown', reason)"""
        goal = tb(goal) if not isinstance(goal, z3.BoolRef) else goal
        g = z3.simplify(goal)
        if z3.is_true(g): return ('proved', 'simplify', None)
        if z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort():
            try:
                nf = NF(self)
                if nf.equal(goal.arg(0), goal.arg(1)): return ('proved', 'normal-form', None)
            except (Unsupported, RecursionError): pass
        if z3.is_eq(goal) and goal.arg(0).sort() == z3.BoolSort():
            try:
                a, b = cmp_shape(goal.arg(0)), cmp_shape(goal.arg(1))
                if a is not None and b is not None and a[0] == b[0] and NF(self).equal(a[1], b[1]): return ('proved', 'normal-form', None)
            except (Unsupported, RecursionError): pass
        tmo = tmo or self.tmo
        def tactic(tac, t):
            try:
                s2 = z3.Then('simplify', 'purify-arith', 'solve-eqs', tac).solver() if tac != 'smt' else z3.SimpleSolver()
                for f in self.pc: s2.add(f)
                s2.add(z3.Not(goal))
                r = self._check(s2, t)
                return r, (s2.model() if r == z3.sat else None)
            except z3.Z3Exception: return z3.unknown, None
        def plain(t):
            r = self._check(self.s, t, z3.Not(goal))
            return r, (self.s.model() if r == z3.sat else None)
        for name, f in (('z3', lambda: plain(min(tmo, 1000))), ('z3-nlsat', lambda: tactic('qfnra-nlsat', tmo)), ('z3-smt', lambda: tactic('smt', min(tmo, 3000))), ('z3', lambda: plain(tmo))):
            r, m = f()
            if r == z3.unsat: return ('proved', name, None)
            if r == z3.sat: return ('refuted', name, m)
        r = cvc5_check(self.pc + [z3.Not(goal)], tmo)
        if r == 'unsat': return ('proved', 'cvc5', None)
        return ('unknown', r, None)
    def check(self, name, cond, info=''):
        o = self.obl.setdefault(name, Oblig(name)); o.n += 1
        if isinstance(cond, bool) or (not isinstance(cond, (Sym, z3.BoolRef))):
            goal = z3.BoolVal(bool(cond))
        else: goal = tb(cond)
        t = time.time()
        st, be, model = self.prove(goal)
        o.time += time.time() - t
        if st == 'proved':
            self.backends[be] = self.backends.get(be, 0) + 1
            if o.status is None: o.status = 'discharged'; o.backend = be
        elif st == 'refuted':
            if o.status != 'refuted' or o.tainted:
                o.status = 'refuted'; o.model = self.model_values(model); o.tainted = self.tainted
                o.info = info + ' ' + str(z3.simplify(goal))[:400]; o.backend = be
        else:
            if self.vacuous(): return
            if o.status in (None, 'discharged'): o.status = 'unknown'; o.info = str(be) + ' ' + str(goal)[:300]
        if st != 'proved':
            if z3.is_false(z3.simplify(goal)): raise PathEnd()
        self.fact(goal)
    def model_values(self, m):
        out = {}
        for n, (t, kind) in self.inputs.items():
            try:
                if callable(t): out[n] = t(m)
                else: out[n] = mval(m, t)
            except Exception as ex: out[n] = None
        return out
    # ---- Houdini
    def refute(self, key):
        if DBG: print("REFUTE", key)
        self.refuted.add(key)
        raise Restart()

def mval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20); return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return None

_cvc5 = None
def cvc5_check(facts, tmo):
    """second back end through SMT-LIB text"""
    import subprocess, tempfile
    s = z3.Solver()
    for f in facts: s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % tmo, '--nl-ext-tplanes', '-'], input=txt, capture_output=True, text=True, timeout=tmo / 1000. + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        return out if out in ('sat', 'unsat') else 'unknown'
    except Exception as ex:
        return 'unknown'
