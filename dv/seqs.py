"""Sequences of symbolic length, the list object used by the verified code, symbolic text."""
import z3
from . import core
from .core import *

def E(): return core.E

class SSeq(Sym):
    """immutable sequence: length n (int or SI), element function fn(int|SI) -> value"""
    def __init__(self, n, fn, origin=None): self.n = n; self.fn = fn; self.origin = origin
    def __len__(self): raise Unsupported("len() of a symbolic sequence outside the shims")
    def at(self, i): return self.fn(i)
    def __getitem__(self, i):
        if isinstance(i, slice): return seq_slice(self, i)
        return self.fn(norm_index(i, self.n))
    def __iter__(self):
        if isinstance(self.n, int): return iter([self.fn(i) for i in range(self.n)])
        raise Unsupported("native iteration over a symbolic sequence")
    def __eq__(self, o): return seq_equal_fork(self, o)
    __hash__ = object.__hash__
    def __add__(self, o): return GList(self) + o

def norm_index(i, n):
    """python index semantics (negative, IndexError)"""
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n: raise IndexError("list index out of range")
        return i if i >= 0 else i + n
    if isinstance(i, (float, SR)): raise TypeError("list indices must be integers or slices, not float")
    if isinstance(i, SI):
        c = const_of(z3.simplify(i.t))
        if c is not None: return norm_index(int(c), n)
    neg = (i < 0) if isinstance(i, int) else bool(i < 0)
    if neg: i = i + n
    if not bool(SB(z3.And(ti(i) >= 0, ti(i) < ti(n)))): raise IndexError("list index out of range")
    return i

def seq_slice(s, sl):
    n = s.n
    step = sl.step if sl.step is not None else 1
    if step not in (1, -1): raise Unsupported("slice step")
    def clamp(v, lo, hi):
        if isinstance(v, (float, SR)): raise TypeError("slice indices must be integers or None or have an __index__ method")
        if (v < 0) if isinstance(v, int) else bool(v < 0): v = v + n
        if bool(SB(ti(v) < ti(lo))): return lo
        if bool(SB(ti(v) > ti(hi))): return hi
        return v
    if step == -1:
        if sl.start is not None or sl.stop is not None: raise Unsupported("slice step")
        return SSeq(n, lambda i: s.fn(n - 1 - i))
    a = 0 if sl.start is None else clamp(sl.start, 0, n)
    b = n if sl.stop is None else clamp(sl.stop, 0, n)
    m = b - a
    if isinstance(m, int):
        m = max(m, 0)
    elif not bool(SB(ti(m) >= 0)): m = 0
    if isinstance(m, SI):
        c = const_of(z3.simplify(m.t)); m = c if c is not None else m
    if isinstance(a, int) and a == 0: return SSeq(m, s.fn)
    return SSeq(m, lambda i: s.fn(i + a))

def ite(c, a, b):
    """merge two values under condition term c (forks when they are not numbers)"""
    sc = z3.simplify(c)
    if z3.is_true(sc): return a
    if z3.is_false(sc): return b
    if a is b: return a
    if isnumlike(a) and isnumlike(b):
        if isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and not isinstance(a, bool): return wrap(z3.If(c, ti(a), ti(b)))
        return SR(z3.If(c, tr(a), tr(b)))
    return a if core.E.fork(c) else b

class Perm:
    """ghost permutation witnessing a sort of a sequence of symbolic length"""
    def __init__(self, name):
        self.f = z3.Function(core.E.fresh_name(name), z3.IntSort(), z3.IntSort()); self.g = z3.Function(core.E.fresh_name(name + '_inv'), z3.IntSort(), z3.IntSort())
        self.n = None; self.seen = []; self.key = None; self.s = None
    def bind(self, s, key, reverse): self.s, self.key, self.reverse, self.n = s, key, reverse, s.n
    def __call__(self, i):
        E = core.E
        i = z3.simplify(ti(i)); t = self.f(i)
        if not any(i.eq(j) for j in self.seen):
            self.seen.append(i)
            n = self.n
            if n is not None:
                E.fact(z3.Implies(z3.And(i >= 0, i < ti(n)), z3.And(t >= 0, t < ti(n), self.g(t) == i)))
                for j in self.seen[:-1]: self._pair(i, j); self._pair(j, i)
        return SI(t)
    def inv(self, i):
        E = core.E
        i = z3.simplify(ti(i)); t = self.g(i)
        E.fact(z3.Implies(z3.And(i >= 0, i < ti(self.n)), z3.And(t >= 0, t < ti(self.n), self.f(t) == i)))
        return SI(t)
    def _pair(self, i, j):
        if self.s is None: return
        k = self.key if self.key is not None else (lambda x: x)
        a, b = k(self.s.fn(SI(self.f(i)))), k(self.s.fn(SI(self.f(j))))
        if isinstance(a, (tuple, GList)): a, b = a[0], b[0]; strict = True
        else: strict = False
        if not (isnumlike(a) and isnumlike(b)): raise Unsupported("sort key")
        le = tr(a) <= tr(b) if not self.reverse else tr(a) >= tr(b)
        c = z3.And(i >= 0, i < j, j < ti(self.n))
        core.E.fact(z3.Implies(c, le))
        if not strict: core.E.fact(z3.Implies(z3.And(c, tr(a) == tr(b)), self.f(i) < self.f(j)))

def sort_model(s, key, reverse):
    """the builtin sort: a stable permutation ordered by the key (trusted contract of Python's list.sort)"""
    E = core.E
    p = None
    for q in E.perms:
        if q.s is None: p = q; break
    if p is None: p = Perm('perm'); E.perms.append(p)
    old = p.seen; p.seen = []; p.bind(s, key, reverse)
    E.assumed.add('builtin sort: stable permutation ordered by key')
    for i in old: p(i)
    return SSeq(s.n, lambda i: s.fn(p(i)))

class GList(Sym):
    """the list objects of the verified code: optional symbolic prefix + concrete tail"""
    __hash__ = None
    def __init__(self, items=()):
        if isinstance(items, GList): self.pre = items.pre; self.tail = list(items.tail)
        elif isinstance(items, SSeq):
            if isinstance(items.n, int): self.pre = None; self.tail = [items.fn(i) for i in range(items.n)]
            else: self.pre = items; self.tail = []
        else: self.pre = None; self.tail = list(items)
        self.name = None
    # -- helpers
    def conc(self): return self.pre is None
    def length(self):
        if self.pre is None: return len(self.tail)
        return self.pre.n + len(self.tail) if self.tail else self.pre.n
    def seq(self):
        if self.pre is None:
            t = list(self.tail)
            return SSeq(len(t), lambda i: conc_at(t, i))
        if not self.tail: return self.pre
        p, t = self.pre, list(self.tail)
        def fn(i):
            if core.E.fork(ti(i) < ti(p.n)): return p.fn(i)
            return conc_at(t, i - p.n)
        return SSeq(self.length(), fn)
    def __len__(self):
        if self.pre is None: return len(self.tail)
        raise Unsupported("len() of a symbolic list outside the shims")
    def __bool__(self):
        n = self.length()
        return n > 0 if isinstance(n, int) else bool(n > 0)
    def __iter__(self):
        if self.pre is None: return iter(self.tail)
        raise Unsupported("native iteration over a symbolic list")
    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.pre is None and all(isinstance(x, int) or x is None or (isinstance(x, SI) and const_of(z3.simplify(x.t)) is not None) for x in (i.start, i.stop, i.step)):
                return GList(self.tail[slice(*[x if x is None else int(x) for x in (i.start, i.stop, i.step)])])
            return GList(seq_slice(self.seq(), i))
        if self.pre is None and isinstance(i, (int,)) : return self.tail[i]
        if hasattr(i, 'dtype') and not isinstance(i, Sym): return self[int(i)]
        if not isinstance(i, (SI, int)): return self.tail[i]
        return self.seq().fn(norm_index(i, self.length()))
    def __setitem__(self, i, v):
        if isinstance(i, slice): raise Unsupported("slice assignment")
        if self.pre is None:
            if not isinstance(i, SI): self.tail[i] = v; return
            i = norm_index(i, len(self.tail))
            if isinstance(i, int): self.tail[i] = v; return
            for j in range(len(self.tail)):
                self.tail[j] = ite(i.t == j, v, self.tail[j])
            return
        i = norm_index(i, self.length())
        if self.tail:
            if core.E.fork(ti(i) >= ti(self.pre.n)):
                d = i - self.pre.n
                for j in range(len(self.tail)): self.tail[j] = ite(ti(d) == j, v, self.tail[j])
                return
        old = self.pre
        self.pre = SSeq(old.n, lambda j: ite(ti(j) == ti(i), v, old.fn(j)))
    def __delitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice deletion")
        if self.pre is None and not isinstance(i, SI): del self.tail[i]; return
        i = norm_index(i, self.length()); s = self.seq()
        self._set(SSeq(s.n - 1, lambda j: s.fn(j) if core.E.fork(ti(j) < ti(i)) else s.fn(j + 1)))
    def _set(self, s):
        if isinstance(s.n, int): self.pre = None; self.tail = [s.fn(i) for i in range(s.n)]
        else: self.pre = s; self.tail = []
    def append(self, v): self.tail.append(v)
    def extend(self, o):
        if o is self: o = GList(o)
        p = as_parts(o)
        if p[0] is None: self.tail.extend(p[1]); return
        if self.pre is None and not self.tail: self.pre, self.tail = p[0], list(p[1]); return
        a = self.seq(); b = p[0]
        self.pre = SSeq(a.n + b.n, lambda i: a.fn(i) if core.E.fork(ti(i) < ti(a.n)) else b.fn(i - a.n))
        self.tail = list(p[1])
    def insert(self, i, v):
        if self.pre is None and not isinstance(i, SI): self.tail.insert(i, v); return
        n = self.length(); s = self.seq()
        if bool(SB(ti(i) < 0)): i = i + n
        if bool(SB(ti(i) < 0)): i = 0
        if bool(SB(ti(i) > ti(n))): i = n
        def fn(j):
            if core.E.fork(ti(j) < ti(i)): return s.fn(j)
            if core.E.fork(ti(j) == ti(i)): return v
            return s.fn(j - 1)
        self._set(SSeq(n + 1, fn))
    def pop(self, i=-1):
        if self.pre is None or (isinstance(i, int) and i == -1 and self.tail): return self.tail.pop(int(i))
        v = self[i]; del self[i]; return v
    def remove(self, v):
        if self.pre is not None: raise Unsupported("remove on a symbolic list")
        for j, x in enumerate(self.tail):
            if x is v or bool(x == v): del self.tail[j]; return
        raise ValueError("list.remove(x): x not in list")
    def index(self, v):
        if self.pre is not None: raise Unsupported("index on a symbolic list")
        for j, x in enumerate(self.tail):
            if x is v or bool(x == v): return j
        raise ValueError("not in list")
    def count(self, v):
        if self.pre is not None: raise Unsupported("count on a symbolic list")
        return sum(1 for x in self.tail if x is v or bool(x == v))
    def __contains__(self, v):
        if self.pre is not None: raise Unsupported("membership in a symbolic list")
        return any(x is v or bool(x == v) for x in self.tail)
    def reverse(self):
        if self.pre is None: self.tail.reverse(); return
        s = self.seq(); self._set(SSeq(s.n, lambda i: s.fn(s.n - 1 - i)))
    def sort(self, key=None, reverse=False):
        if self.pre is not None:
            self._set(sort_model(self.seq(), key, reverse)); return
        self.tail = sym_sorted(self.tail, key, reverse)
    def copy(self): return GList(self)
    def __copy__(self): return GList(self)
    def __deepcopy__(self, memo):
        import copy
        r = GList(self); memo[id(self)] = r
        r.tail = [copy.deepcopy(x, memo) for x in self.tail]
        return r
    def __add__(self, o):
        if not isinstance(o, (GList, list, SSeq)): return NotImplemented
        r = GList(self); r.extend(o); return r
    def __radd__(self, o):
        if not isinstance(o, (GList, list)): return NotImplemented
        r = GList(o); r.extend(self); return r
    def __iadd__(self, o): self.extend(o); return self
    def __mul__(self, k):
        if isinstance(k, SI):
            v = const_of(z3.simplify(k.t))
            if v is None:
                if self.pre is None and len(self.tail) == 1:
                    x = self.tail[0]
                    if not bool(k > 0): return GList()
                    return GList(SSeq(k, lambda i: x))
                raise Unsupported("list repetition")
            k = v
        if not isinstance(k, int): raise TypeError("can't multiply sequence by non-int")
        if self.pre is not None: raise Unsupported("list repetition")
        return GList(self.tail * k)
    __rmul__ = __mul__
    def __eq__(self, o):
        if not isinstance(o, (GList, list)): return False
        return seq_equal_fork(self, o)
    def __ne__(self, o): return not self.__eq__(o)
    def _cmp(self, o, strict_lt):
        a, b = list(self), list(o)
        for x, y in zip(a, b):
            if bool(x == y): continue
            return bool(x < y) if strict_lt else bool(x > y)
        return len(a) < len(b) if strict_lt else len(a) > len(b)
    def __lt__(self, o): return self._cmp(o, True)
    def __gt__(self, o): return self._cmp(o, False)
    def __le__(self, o): return not self._cmp(o, False)
    def __ge__(self, o): return not self._cmp(o, True)
    def __repr__(self): return "GList(%s%r)" % ('' if self.pre is None else 'SYM+', self.tail)
    def __reversed__(self):
        if self.pre is None: return reversed(self.tail)
        r = GList(self); r.reverse(); return r

def as_parts(o):
    if isinstance(o, GList): return (o.pre, list(o.tail))
    if isinstance(o, SSeq):
        if isinstance(o.n, int): return (None, [o.fn(i) for i in range(o.n)])
        return (o, [])
    return (None, list(o))

def conc_at(t, i):
    if isinstance(i, int): return t[i]
    c = const_of(z3.simplify(i.t))
    if c is not None: return t[int(c)]
    if not t: raise PathEnd()
    r = t[-1]
    if all(isnumlike(x) for x in t):
        for j in range(len(t) - 2, -1, -1): r = ite(i.t == j, t[j], r)
        return r
    for j in range(len(t) - 1):
        if core.E.fork(i.t == j): return t[j]
    return t[-1]

def seq_equal_fork(a, b):
    pa, pb = as_parts(a), as_parts(b)
    if pa[0] is None and pb[0] is None:
        if len(pa[1]) != len(pb[1]): return False
        return all((x is y) or bool(x == y) for x, y in zip(pa[1], pb[1]))
    raise Unsupported("== on symbolic lists")

def sym_sorted(items, key=None, reverse=False):
    """stable insertion sort through (possibly forking) comparisons"""
    items = list(items)
    ks = [(key(x) if key else x, x) for x in items]
    if all(not has_sym(k) for k, _ in ks):
        return sorted(items, key=key, reverse=reverse) if key else sorted(items, reverse=reverse)
    out = []
    for k, x in ks:
        j = len(out)
        while j > 0 and (bool(k < out[j - 1][0]) if not reverse else bool(k > out[j - 1][0])): j -= 1
        out.insert(j, (k, x))
    return [x for _, x in out]

def has_sym(x):
    if isinstance(x, GList): return x.pre is not None or any(has_sym(y) for y in x.tail)
    if isinstance(x, Sym): return True
    if isinstance(x, (list, tuple)): return any(has_sym(y) for y in x)
    if isinstance(x, dict): return any(has_sym(y) for y in x.values())
    if hasattr(x, 'dtype') and x.dtype == object: return any(has_sym(y) for y in x.flat)
    return False

class SStr(Sym):
    """text with symbolic numbers in it: list of str / numbers; str(number) is assumed to be read back exactly"""
    __hash__ = None
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr): ps = p.parts
            else: ps = [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
                elif q != '' or not isinstance(q, str): out.append(q)
        self.parts = out
    def __add__(self, o):
        if not isinstance(o, (str, SStr)): return NotImplemented
        return SStr([self, o])
    def __radd__(self, o):
        if not isinstance(o, (str, SStr)): return NotImplemented
        return SStr([o, self])
    def _ws(self):
        toks = []; cur = []
        for p in self.parts:
            if isinstance(p, str):
                import re
                for piece in re.findall(r'\s+|\S+', p):
                    if piece.isspace():
                        if cur: toks.append(cur); cur = []
                    else: cur.append(piece)
            else: cur.append(p)
        if cur: toks.append(cur)
        return [t[0] if len(t) == 1 and isinstance(t[0], str) else SStr(t) for t in toks]
    def split(self, sep=None, n=-1):
        if sep is None and n == -1: return GList(self._ws())
        if sep is not None and n == -1:
            toks = [[]]
            for p in self.parts:
                if isinstance(p, str):
                    qs = p.split(sep)
                    toks[-1].append(qs[0])
                    for q in qs[1:]: toks.append([q])
                else: toks[-1].append(p)
            return GList([''.join(t) if all(isinstance(q, str) for q in t) else SStr(t) for t in toks])
        raise Unsupported("split on symbolic text")
    def strip(self, *a):
        if a: raise Unsupported("strip chars")
        ps = list(self.parts)
        if ps and isinstance(ps[0], str): ps[0] = ps[0].lstrip()
        if ps and isinstance(ps[-1], str): ps[-1] = ps[-1].rstrip()
        return SStr(ps)
    def rstrip(self, *a):
        ps = list(self.parts)
        if ps and isinstance(ps[-1], str): ps[-1] = ps[-1].rstrip(*a)
        return SStr(ps)
    def number(self):
        if len(self.parts) == 1 and isnumlike(self.parts[0]): return self.parts[0]
        if len(self.parts) == 2 and self.parts[0] == '-' and isnumlike(self.parts[1]): return -self.parts[1]
        raise ValueError("could not convert string to float")
    def __getitem__(self, i):
        if i == 0 and self.parts and isinstance(self.parts[0], str): return self.parts[0][0]
        if i == 0 and self.parts: return '\x00digit'
        raise Unsupported("indexing symbolic text")
    def __contains__(self, x):
        # text fragment lookup: numbers never contain letters, spaces or '#'
        if any(isinstance(p, str) and x in p for p in self.parts): return True
        if any(ch.isalpha() and ch not in 'einfa' or ch in ' #\n' for ch in x): return False
        raise Unsupported("membership in symbolic text")
    def find(self, x): return 0 if x in self else -1
    def __len__(self):
        if not self.parts: return 0
        return 1 + sum(len(p) if isinstance(p, str) else 1 for p in self.parts) - 1
    def __bool__(self): return bool(self.parts)
    def __eq__(self, o):
        if isinstance(o, str):
            if all(isinstance(p, str) for p in self.parts): return ''.join(self.parts) == o
            try: float(o.strip())
            except ValueError: return False
            raise Unsupported("text comparison")
        raise Unsupported("text comparison")
    def __str__(self): raise Unsupported("native str() of symbolic text")
    def __repr__(self): return 'SStr(%r)' % (self.parts,)
