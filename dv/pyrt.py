"""Runtime for the rewritten /repo modules: builtin shims, module loader."""
import re, sys, os, types, builtins, importlib, math as _math, copy as _copy
import z3
from . import core
from .core import *
from .seqs import *
from .loops import *
from .rewrite import rewrite

SYMLIB_SRC = '''
def sum_(it, start):
    acc = start
    for x in it: acc = acc + x
    return acc
def any_(it):
    for x in it:
        if x: return True
    return False
def all_(it):
    for x in it:
        if not x: return False
    return True
def min_(it):
    first = True
    best = it[0]
    for x in it:
        if x < best: best = x
    return best
def max_(it):
    best = it[0]
    for x in it:
        if x > best: best = x
    return best
def bisect_left(a, x, lo, hi):
    while lo < hi:
        mid = (lo + hi)//2
        if a[mid] < x: lo = mid+1
        else: hi = mid
    return lo
def bisect_right(a, x, lo, hi):
    while lo < hi:
        mid = (lo + hi)//2
        if x < a[mid]: hi = mid
        else: lo = mid+1
    return lo
'''

REAL = {'SR': float, 'SI': int, 'SB': bool, 'GList': list, 'SStr': str}
NOTREAL = ('FSeq', 'SSeq', 'HList', 'CompList', 'Poison', 'SPtr', 'IPtr', 'Vec', 'KCell', 'ElemPlace', 'CArray', 'Ext')
def artefact(ex):
    """an exception that the modelled value raises and the real one would not"""
    if not isinstance(ex, (TypeError, AttributeError)): return False
    names = re.findall(r"'(\w+)'", str(ex))
    if any(n in NOTREAL for n in names): return True
    if isinstance(ex, AttributeError) and len(names) == 2 and names[0] in REAL: return hasattr(REAL[names[0]], names[1])
    if isinstance(ex, TypeError) and names and names[-1] in REAL and 'unsupported operand' not in str(ex):
        t = REAL[names[-1]]
        for text, attr in (('not subscriptable', '__getitem__'), ('not iterable', '__iter__'), ('has no len', '__len__'), ('item assignment', '__setitem__'), ('item deletion', '__delitem__')):
            if text in str(ex): return hasattr(t, attr)
    return False

class ItState:
    __slots__ = ['rule', 'frame']
    def __init__(self, rule, frame): self.rule, self.frame = rule, frame

class ForIt:
    def __init__(self, rt, lid, seq, names, tnames):
        self.rt, self.lid, self.seq, self.names, self.tnames = rt, lid, seq, names, tnames
        self.rule = None; self.done = False
    def __iter__(self): return self
    def __next__(self):
        E = core.E
        frame = sys._getframe(1)
        if self.rule is None:
            n = self.seq.base_n if isinstance(self.seq, FSeq) else self.seq.n
            r = LoopRule(self.rt, self.lid, frame, n, self.seq, self.names, self.tnames)
            self.rule = r
            mode = r.enter(frame.f_locals)
            st = ItState(r, id(frame))
            self.rt.act.setdefault(self.lid, []).append(st)
            if mode == 0:
                r.state = 'body'
                i = SI(r.k)
                if isinstance(self.seq, FSeq):
                    if not bool(self.seq.cond(i)):
                        r.leave({**frame.f_locals, **r.vals}); raise PathEnd()
                return self.seq.fn(i)
            r.state = 'exit'
            E.tainted_exit = True
            for t in self.tnames:
                if t not in self.names and t in frame.f_locals: r.vals[t] = Poison()
            raise StopIteration
        if self.rule.state == 'body':
            self.rule.leave(frame.f_locals)
            raise PathEnd()
        raise StopIteration

class ConcIt:
    """concrete iteration with list-mutation semantics of the interpreter"""
    def __init__(self, g): self.g = g; self.i = 0
    def __iter__(self): return self
    def __next__(self):
        if self.g.pre is not None: raise Unsupported("list becomes symbolic while it is iterated")
        if self.i >= len(self.g.tail): raise StopIteration
        v = self.g.tail[self.i]; self.i += 1
        return v

class RT:
    """the dv__ object seen by rewritten code"""
    def __init__(self, front):
        self.front = front; self.act = {}; self.ordinal = {}
        self.wst = {}
    def reset(self): self.act = {}; self.wst = {}; self.ordinal = {}
    def seq_of(self, it, view='filtered'):
        """SSeq/FSeq when the iterable has symbolic length, else None"""
        if isinstance(it, FSeq): return it
        if isinstance(it, SSeq): return None if isinstance(it.n, int) else it
        if isinstance(it, GList):
            if isinstance(it.pre, CompList) and not it.tail and view == 'filtered': return it.pre.as_fseq()
            return None if it.pre is None else it.seq()
        h = getattr(it, 'dv_seq', None)
        if h is not None: return self.seq_of(h(), view)
        g = getattr(type(it), '__getitem__', None)
        if g is not None and hasattr(type(it), '__len__') and getattr(type(it), '__module__', '').startswith('xboa') and not hasattr(type(it), '__iter__'):
            # old-style sequence protocol of a repository class (Bunch)
            n = self.front.b_len(it)
            if isinstance(n, SI): return SSeq(n, lambda i: it[i])
        return None
    def loop(self, lid, it, names, tnames):
        s = self.seq_of(it)
        if s is None:
            if lid in self.act: self.act[lid].append(ItState(None, None))
            if isinstance(it, GList): return ConcIt(it)
            if isinstance(it, SSeq): return iter([it.fn(i) for i in range(it.n)])
            return iter(it)
        return ForIt(self, lid, s, names, tnames)
    def top(self, lid, want):
        l = self.act.get(lid)
        if not l: return None
        st = l[-1]
        f = sys._getframe(2)
        return st.rule if st.frame == id(f) and st.rule.state == want else None
    def hv(self, lid): return self.top(lid, 'body') is not None
    def ex(self, lid): return self.top(lid, 'exit') is not None
    def has(self, lid, x): return x in self.act[lid][-1].rule.vals
    def get(self, lid, x): return self.act[lid][-1].rule.vals[x]
    # while loops
    def lnot(self, x): return SB(z3.Not(x.t)) if isinstance(x, SB) else not x
    def caught(self):
        ex = sys.exc_info()[1]
        if artefact(ex): raise Unsupported("outside the modelled values: %s" % ex)
    # counting while loops (see rewrite.Counting)
    def counts(self, a, b):
        return all(isinstance(x, (int, SI)) and not isinstance(x, bool) for x in (a, b))
    def plus1(self, e): return e + 1
    def bound(self, b, now):
        if b is now: return
        if not isinstance(now, (int, SI)): raise Unsupported("loop bound changes during the loop")
        if not isinstance(b, Sym) and not isinstance(now, Sym):
            if b != now: raise Unsupported("loop bound changes during the loop")
            return
        if core.E.prove(ti(b) == ti(now), 2000)[0] != 'proved': raise Unsupported("loop bound changes during the loop")
    def wend(self, a, b): return b if a < b else a
    def wenter(self, lid):
        f = sys._getframe(1)
        self.wst[(lid, id(f))] = [0, None]
        l = self.act.get(lid)
        if l and l[-1].frame == id(f): l.pop()
    def wtop(self, lid, names):
        E = core.E
        f = sys._getframe(1)
        st = self.wst[(lid, id(f))]
        st[0] += 1
        if st[1] is not None:
            st[1].leave(f.f_locals); raise PathEnd()
        if E.cuts_while(lid):
            r = LoopRule(self, lid, f, None, None, names, (), True)
            mode = r.enter_while(f.f_locals)
            r.state = 'body'; st[1] = r
            self.act.setdefault(lid, []).append(ItState(r, id(f)))
            return
        if st[0] > E.unroll:
            if E.vacuous(): raise PathEnd()
            raise Unsupported("while loop unrolled more than %d times (%s)" % (E.unroll, lid))
    def wexit(self, lid):
        f = sys._getframe(1)
        st = self.wst[(lid, id(f))]
        if st[1] is not None:
            E = core.E
            if E.loopstack and E.loopstack[-1] is st[1]: E.loopstack.pop()
            st[1].state = 'done'
    # displays
    def L(self, l): return GList(l)
    def D(self): return KDict() if core.E is not None and core.E.ghostkey is not None else {}
    def comp(self, kind, f, it, cond):
        s = self.seq_of(it)
        if s is None:
            out = GList()
            for x in (ConcIt(it) if isinstance(it, GList) else it):
                if cond is None or cond(x):
                    r = f(x)
                    if kind == 'flat': out.extend(r)
                    else: out.append(r)
            return out
        if kind == 'flat': raise Unsupported("nested comprehension over symbolic sequences")
        E = core.E
        base = s
        if isinstance(s, FSeq): raise Unsupported("comprehension over filtered sequence")
        then = Then(sys._getframe(1).f_locals)
        # exceptions raised by an element are raised by the comprehension
        if E.choose(2) == 0:
            k = E.fresh_int('ck')
            E.assume(z3.And(k >= 0, k < ti(s.n)))
            if not E.feasible(): raise PathEnd()
            x = s.fn(SI(k))
            if cond is None or cond(x): f(x)
            if then.changed(): raise Unsupported("comprehension with side effects")
            raise PathEnd()
        fn = then.fn(lambda i: f(s.fn(i)))
        if cond is None: return GList(SSeq(s.n, fn))
        cn = then.fn(lambda i: cond(s.fn(i)))
        if kind == 'gen': return FSeq(s.n, fn, cn)
        g = GList(); g.pre = CompList(None, [], ListHint('comprehension', fn, cn), SI(ti(s.n))); return g
    def unp(self, f, shape):
        def flat(x, sh):
            if sh is None: return [x]
            xs = list(x)
            if len(xs) != len(sh): raise ValueError("not enough values to unpack")
            out = []
            for a, b in zip(xs, sh): out += flat(a, b)
            return out
        return lambda item: f(*flat(item, shape))
    def fstr(self, *parts):
        if any(isinstance(p, Sym) for p in parts): return SStr([p if isinstance(p, (str, SStr)) or isnumlike(p) else '?' for p in parts])
        return ''.join(str(p) for p in parts)
    def pct(self, fmt, args):
        if has_sym(args) or isinstance(args, Sym): return SStr(['?fmt?' + fmt.replace('%', '')])
        return fmt % args

# ---------------------------------------------------------------- builtin shims
class TypeShim:
    def __init__(self, name, native, symk, conv): self.__name__ = name; self.native = native; self.symk = symk; self.conv = conv
    def __call__(self, *a, **k): return self.conv(*a, **k)
    def __deepcopy__(self, memo): return self
    def __repr__(self): return "<class '%s'>" % self.__name__
    def __getattr__(self, n): return getattr(self.native, n)
    def __or__(self, o): return (self, o)

def conv_float(x=0.0):
    if isinstance(x, SR): return x
    if isinstance(x, SI): return SR(tr(x))
    if isinstance(x, SB): return SR(tr(x))
    if isinstance(x, SStr): return conv_float(x.number())
    if isinstance(x, GList): raise TypeError("float() argument must be a string or a real number, not 'list'")
    if isinstance(x, Poison): x._no()
    if hasattr(x, 'dtype') and x.dtype == object:
        if x.size == 1: return conv_float(x.item())
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    return float(x)
def conv_int(x=0, *a):
    if isinstance(x, SI): return x
    if isinstance(x, SR): return x.__trunc__()
    if isinstance(x, SB): return SI(ti(x))
    if isinstance(x, SStr):
        v = x.number()
        if isinstance(v, SI) or isinstance(v, int): return v
        raise ValueError("invalid literal for int() with base 10")
    if isinstance(x, GList): raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'list'")
    if isinstance(x, Poison): x._no()
    return int(x, *a)
def conv_str(x=''):
    if isinstance(x, SStr): return x
    if isnumlike(x) and isinstance(x, Sym): return SStr([x])
    if isinstance(x, GList) and x.pre is None and all(isnumlike(v) for v in x.tail):
        parts = ['[']
        for i, v in enumerate(x.tail): parts += ([', '] if i else []) + [v if isinstance(v, Sym) else repr(v)]
        return SStr(parts + [']'])
    if isinstance(x, (GList, Sym)) or has_sym(x): return SStr(['<' + type(x).__name__ + '>'])
    if isinstance(x, (list, tuple, dict)):
        try: return str(x)
        except Unsupported: return SStr(['<container>'])
    return str(x)
def conv_list(x=()):
    if isinstance(x, (GList, SSeq)): return GList(x)
    if isinstance(x, FSeq): return x
    s = RTI.seq_of(x) if RTI else None
    if s is not None: return GList(s)
    return GList(iter(x) if not isinstance(x, GList) else x)
def conv_bool(x=False): return bool(x)
def conv_dict(*a, **k): return dict(*[list(y) if isinstance(y, GList) else y for y in a], **k)
def conv_tuple(x=()): return tuple(x)
RTI = None
S_float = TypeShim('float', float, SR, conv_float)
S_int = TypeShim('int', int, SI, conv_int)
S_str = TypeShim('str', str, SStr, conv_str)
S_list = TypeShim('list', list, GList, conv_list)
S_bool = TypeShim('bool', bool, SB, conv_bool)
SHIMS = {S_float: (float, SR), S_int: (int, SI), S_str: (str, SStr), S_list: (list, GList), S_bool: (bool, SB)}

def b_type(*a):
    if len(a) != 1: return type(*a)
    x = a[0]
    if isinstance(x, (SR,)) or type(x) is float: return S_float
    if isinstance(x, SI) or type(x) is int: return S_int
    if isinstance(x, SStr) or type(x) is str: return S_str
    if isinstance(x, (GList, SSeq, FSeq)) or type(x) is list: return S_list
    if isinstance(x, SB) or type(x) is bool: return S_bool
    if isinstance(x, Poison): x._no()
    return type(x)
def b_isinstance(x, t):
    if isinstance(t, tuple): return any(b_isinstance(x, y) for y in t)
    if isinstance(t, TypeShim):
        if isinstance(x, SB): return t in (S_bool, S_int)
        if isinstance(x, (SSeq, FSeq)): return t is S_list
        return isinstance(x, SHIMS[t])
    if isinstance(x, SR) and t.__name__ in ('Number', 'Real', 'float64', 'floating'): return True
    if isinstance(x, SI) and t.__name__ in ('Number', 'Real', 'Integral'): return True
    return isinstance(x, t)

class Ext:
    """external library without contracts: may be imported, not used"""
    def __init__(self, name): object.__setattr__(self, '_n', name)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Ext(self._n + '.' + n)
    def __call__(self, *a, **k): raise Unsupported('external library ' + self._n)
    def __getitem__(self, k): raise Unsupported('external library ' + self._n)

class Front:
    def __init__(self, repo, stub_core=True):
        self.repo = repo
        self.codes = {}
        self.rt = RT(self)
        self.stubs = {}
        self.mods = {}
        global RTI
        RTI = self.rt
        from . import npshim, coremodel
        self.np = npshim.NP(self)
        self.math = npshim.MathShim(self)
        self.coremodel = coremodel
        self.builtins = self.make_builtins()
        lib = {'__builtins__': self.builtins, '__name__': 'symlib'}
        exec(rewrite(SYMLIB_SRC, 'symlib', '<symlib>'), lib)
        self.lib = lib
        self.patches = []
    # ---- builtins
    def b_len(self, x):
        if isinstance(x, GList): return x.length()
        if isinstance(x, SSeq): return x.n
        if isinstance(x, SStr): return len(x)
        if isinstance(x, FSeq): return x.dv_len()
        if isinstance(x, Poison): x._no()
        if hasattr(x, 'dv_len'): return x.dv_len()
        if isinstance(x, (SR, SI)): raise TypeError("object of type 'float' has no len()")
        m = getattr(type(x), '__len__', None)
        if m is not None and getattr(type(x), '__module__', '').startswith('xboa'): return m(x)
        return len(x)
    def b_range(self, *a):
        for x in a:
            if isinstance(x, (float, SR)): raise TypeError("'float' object cannot be interpreted as an integer")
        a = [int(const_of(z3.simplify(x.t))) if isinstance(x, SI) and const_of(z3.simplify(x.t)) is not None else x for x in a]
        if all(not isinstance(x, Sym) for x in a): return range(*[int(x) for x in a])
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if isinstance(step, SI): raise Unsupported("symbolic range step")
        d = (stop - start) if step > 0 else (start - stop)
        st = abs(step)
        n = d if st == 1 else SI((ti(d) + st - 1) / st)
        if isinstance(n, int): return range(start, start + n) if not isinstance(start, SI) else [start + j * step for j in range(n)]
        c = const_of(z3.simplify(n.t))
        if c is not None: return [start + j * step for j in range(max(int(c), 0))]
        if not bool(n >= 0): n = 0; return []
        def fn(i):
            return start + i * step if step != 1 else (start + i if not (isinstance(start, int) and start == 0) else i)
        return SSeq(n, fn)
    def b_enumerate(self, it, start=0):
        s = self.rt.seq_of(it, 'plain')
        if s is None: return enumerate(ConcIt(it) if isinstance(it, GList) else it, start)
        if isinstance(s, FSeq): raise Unsupported("enumerate of filtered sequence")
        return SSeq(s.n, lambda i: (i + start, s.fn(i)))
    def b_zip(self, *its):
        ss = [self.rt.seq_of(i, 'plain') for i in its]
        if any(isinstance(s, FSeq) for s in ss): raise Unsupported("zip of filtered sequences")
        if all(s is None for s in ss): return zip(*[list(i) if isinstance(i, GList) else i for i in its])
        ns = [s.n if s is not None else len(list(i)) for s, i in zip(ss, its)]
        for m in ns[1:]:
            if not bool(SB(ti(m) == ti(ns[0]))): raise Unsupported("zip of sequences of different symbolic length")
        fs = [s.fn if s is not None else (lambda j, i=i: conc_at(list(i), j)) for s, i in zip(ss, its)]
        return SSeq(ns[0], lambda i: tuple(f(i) for f in fs))
    def b_sum(self, it, start=0):
        s = self.rt.seq_of(it)
        if s is None:
            r = start
            for x in it: r = r + x
            return r
        return self.lib['sum_'](it, start)
    def b_minmax(self, which):
        def f(*a, **k):
            key = k.get('key')
            if len(a) == 1:
                s = self.rt.seq_of(a[0])
                if s is not None:
                    if key: raise Unsupported("min/max key")
                    hk = core.E.minmax_hook
                    if hk:
                        r = hk(s, which)
                        if r is not None: return r
                    return extreme(s, which)
                xs = list(a[0])
            else: xs = list(a)
            if not xs:
                if 'default' in k: return k['default']
                raise ValueError("min() arg is an empty sequence")
            if not any(isinstance(x, Sym) for x in xs): return (min if which == 'min' else max)(xs, **k)
            b = xs[0]
            for x in xs[1:]:
                kx, kb = (key(x), key(b)) if key else (x, b)
                c = (kx < kb) if which == 'min' else (kx > kb)
                b = ite(tb(c), x, b) if isinstance(c, SB) else (x if c else b)
            return b
        return f
    def b_sorted(self, it, key=None, reverse=False):
        g = conv_list(it)
        g = GList(g); g.sort(key=key, reverse=reverse); return g
    def b_print(self, *a, **k):
        f = k.get('file')
        if f is not None and hasattr(f, 'dv_write'): f.write(self.rt.fstr(*[conv_str(x) for x in a])); f.write('\n')
    def b_abs(self, x):
        return abs(x)
    def b_any(self, it):
        if self.rt.seq_of(it) is not None: return self.lib['any_'](it)
        return any(bool(x) for x in it)
    def b_all(self, it):
        if self.rt.seq_of(it) is not None: return self.lib['all_'](it)
        return all(bool(x) for x in it)
    def b_open(self, name, mode='r', *a, **k):
        if name == '/dev/null': return open(name, mode)
        h = core.E.open_hook
        if h is None: raise Unsupported("open()")
        return h(name, mode)
    def b_map(self, f, *its):
        if len(its) == 1: return self.rt.comp('list', f, its[0], None)
        return GList([f(*x) for x in self.b_zip(*its)])
    def b_filter(self, f, it): return self.rt.comp('list', lambda x: x, it, f)
    def b_reversed(self, it):
        if isinstance(it, (GList, SSeq)): g = GList(it); g.reverse(); return g
        return reversed(it)
    def b_repr(self, x): return conv_str(x) if has_sym(x) else repr(x)
    def b_round(self, x, nd=None):
        return round(x, nd) if nd is not None else round(x)
    def b_iter(self, x):
        if self.rt.seq_of(x) is not None: raise Unsupported("iter() of symbolic sequence")
        return iter(x)
    def b_set(self, x=()):
        if has_sym(x): raise Unsupported("set of symbolic values")
        return set(x)
    def b_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            full = base + ('.' + name if name else '')
        else: full = name
        root = full.split('.')[0]
        if full in self.stubs or root == 'xboa':
            m = self.load(full)
            if fromlist:
                for x in fromlist:
                    if x != '*' and not hasattr(m, x):
                        try: setattr(m, x, self.load(full + '.' + x))
                        except ImportError: pass
                return m
            if level: return m
            return self.load(root)
        if root in ('numpy',):
            if fromlist and name == 'numpy.linalg': return self.np.linalg
            return self.np
        if root == 'math': return self.math
        if root in ('ROOT', 'libMausCpp', 'scipy', 'matplotlib'):
            st = self.stubs.get(root)
            if st is not None: return st
            if root == 'ROOT' and (globals or {}).get('__name__', '').startswith('xboa.algorithms'): return Ext('ROOT')
            if root in ('libMausCpp', 'ROOT'): raise ImportError("No module named " + root)
            return Ext(name if fromlist else root)
        if root == 'bisect': return self.bis
        if root == 'copy': return self.copymod
        if root in ('pickle', 'stat', 'argparse', 'cmath', 'operator', 'sys', 'string', 'os', 'glob', 'gzip', 'io', 'warnings', 'array', 'json', 'time', 'signal', 'ctypes', 'pydoc', 'atexit', 'tempfile', 'subprocess', 'multiprocessing', 'itertools', 'random', 'shutil', 'functools', 'collections', 'bisect', 'math', 're', 'site', 'builtins', 'numbers', 'traceback', 'abc', 'contextlib', 'typing', 'dataclasses', 'fractions', 'heapq', 'types', 'enum', 'decimal', 'weakref', 'struct', 'datetime', 'threading', 'platform'):
            if root == 'random': return self.stub_random()
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise ImportError("No module named " + name)
    def stub_random(self):
        m = types.SimpleNamespace()
        def unif(a=0., b=1.):
            v = SR(core.E.fresh_real('rnd')); core.E.assume(z3.And(v.t >= tr(a), v.t <= tr(b))); return v
        m.random = lambda: unif(0., 1.)
        m.uniform = unif
        m.gauss = lambda mu, s: SR(core.E.fresh_real('rndg'))
        m.seed = lambda *a: None
        return m
    def make_builtins(self):
        d = dict(vars(builtins))
        d.update(len=self.b_len, range=self.b_range, enumerate=self.b_enumerate, zip=self.b_zip, sum=self.b_sum,
                 min=self.b_minmax('min'), max=self.b_minmax('max'), sorted=self.b_sorted, print=self.b_print, abs=self.b_abs,
                 any=self.b_any, all=self.b_all, open=self.b_open, map=self.b_map, filter=self.b_filter, reversed=self.b_reversed,
                 repr=self.b_repr, float=S_float, int=S_int, str=S_str, list=S_list, bool=S_bool, type=b_type, isinstance=b_isinstance,
                 round=self.b_round, iter=self.b_iter, set=self.b_set, __import__=self.b_import, dv__=self.rt, dict=dict)
        d['__import__'] = self.b_import
        front = self
        class Bis:
            @staticmethod
            def bisect_left(a, x, lo=0, hi=None): return front.lib['bisect_left'](a, x, lo, front.b_len(a) if hi is None else hi)
            @staticmethod
            def bisect_right(a, x, lo=0, hi=None): return front.lib['bisect_right'](a, x, lo, front.b_len(a) if hi is None else hi)
            bisect = bisect_right
        self.bis = Bis
        class Cp:
            @staticmethod
            def deepcopy(x, memo=None): return dcopy(x, {} if memo is None else memo)
            @staticmethod
            def copy(x):
                if isinstance(x, GList): return GList(x)
                if isinstance(x, Sym): return x
                return _copy.copy(x)
        self.copymod = Cp
        return d
    # ---- modules
    def path_of(self, full):
        p = os.path.join(self.repo, *full.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')): return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'): return p + '.py', False
        raise ImportError("No module named " + full)
    def load(self, full):
        if full in self.stubs: return self.stubs[full]
        if full in self.mods: return self.mods[full]
        if full == 'xboa.core': m = self.coremodel.make_module(self); self.mods[full] = m; self._attach(full, m); return m
        cxx = full[len('xboa.core.cxx_'):] if full.startswith('xboa.core.cxx_') else None
        path, pkg = self.path_of(full) if cxx is None else (os.path.join(self.repo, 'xboa', 'core', 'cxx_%s.py' % cxx), False)
        if full not in self.codes:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.codes[full] = rewrite(open(path).read() if cxx is None else cxx_source(self.repo, cxx), full, path)
        m = types.ModuleType(full)
        m.__file__ = path; m.__dict__['__builtins__'] = self.builtins; m.__dict__['dv_repo__'] = True
        m.__package__ = full if pkg else full.rpartition('.')[0]
        if pkg: m.__path__ = [os.path.dirname(path)]
        if '.' in full: self.load(full.rpartition('.')[0])
        if full in self.mods: return self.mods[full]
        self.mods[full] = m
        self._attach(full, m)
        try: exec(self.codes[full], m.__dict__)
        except BaseException:
            self.mods.pop(full, None); raise
        return m
    def _attach(self, full, m):
        if '.' in full:
            par, _, nm = full.rpartition('.')
            if par in self.mods: setattr(self.mods[par], nm, m)
    def new_path(self):
        self.mods = {}; self.stubs = dict(self.base_stubs) if hasattr(self, 'base_stubs') else {}
        self.rt.reset()

def cxx_source(repo, tu):
    """translation of one C++ unit, kept beside the (scratch) copy of the code it was made from"""
    import hashlib, tempfile
    from . import cxxfront
    h = hashlib.sha256(open(cxxfront.__file__, 'rb').read())
    for d, ds, fs in sorted(os.walk(os.path.join(repo, 'xboa', 'core'))):
        for f in sorted(fs):
            if f.endswith(('.cc', '.hh', '.hpp')): h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    dirn = os.path.join(repo, '.dvcxx')
    if os.path.realpath(repo) == '/repo': return cxxfront.transpile(repo, tu)
    p = os.path.join(dirn, '%s-%s.py' % (tu, h.hexdigest()[:24]))
    if not os.path.exists(p):
        os.makedirs(dirn, exist_ok=True)
        src = cxxfront.transpile(repo, tu)
        fd, t = tempfile.mkstemp(dir=dirn); os.write(fd, src.encode()); os.close(fd); os.rename(t, p)
    return open(p).read()

def dcopy(x, memo):
    if x is None or isinstance(x, (int, float, str, bool, type, TypeShim, types.FunctionType, types.BuiltinFunctionType, Fraction)): return x
    if isinstance(x, (SR, SI, SB, SStr, SSeq)): return x
    if id(x) in memo: return memo[id(x)]
    if isinstance(x, GList):
        r = GList(); memo[id(x)] = r
        if x.pre is not None:
            s = x.pre; r.pre = SSeq(s.n, lambda i: dcopy(s.fn(i), {}))
        r.tail = [dcopy(y, memo) for y in x.tail]
        return r
    if isinstance(x, dict):
        r = {}; memo[id(x)] = r
        for k, v in x.items(): r[k] = dcopy(v, memo)
        return r
    if isinstance(x, tuple): return tuple(dcopy(y, memo) for y in x)
    if isinstance(x, list):
        r = []; memo[id(x)] = r
        r.extend(dcopy(y, memo) for y in x); return r
    if hasattr(x, 'dtype') and hasattr(x, 'flat'):
        return x.copy()
    h = getattr(type(x), '__deepcopy__', None)
    if h is not None: return h(x, memo)
    return _copy.deepcopy(x, memo)
