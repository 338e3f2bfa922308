"""Library semantics for the C++ that dv/cxxfront.py translates: the parts of the C++ standard library and of the Python
C API that the extension uses, and the correspondence between extension types and Python objects.

These are the assumed (never checked) contracts on dependencies: std::vector, std::map (iteration visits every key present
when the loop starts exactly once), std::pair, iterators, std::string, and the PyArg_/Py*_As*/PyErr_/PyList_/PyDict_ calls.
Everything in namespace xboa runs from the translated source."""
import sys, types, builtins, math, z3
from . import core
from .core import *
from .seqs import *
from . import coremodel
from .loops import Poison, same_val, Cell, PrefixHint

INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1
RANGES = {'int': (INT_MIN, INT_MAX), 'unsigned int': (0, (1 << 32) - 1), 'long': (-(1 << 63), (1 << 63) - 1), 'unsigned long': (0, (1 << 64) - 1),
          'long long': (-(1 << 63), (1 << 63) - 1), 'unsigned long long': (0, (1 << 64) - 1), 'short': (-32768, 32767), 'char': (-128, 127)}
NUMS = (int, float, SR, SI)

class UndefinedBehaviour(Exception): pass

class CxxError(Exception):
    def __init__(self, type, value=None): Exception.__init__(self, type); self.cxx_type, self.value = type, value
BASES = {'std::logic_error': ('std::out_of_range', 'std::invalid_argument', 'std::domain_error', 'std::length_error'), 'std::runtime_error': ('std::range_error', 'std::overflow_error', 'std::underflow_error')}
def thrown(t, v=None): return CxxError(t, v)
def caught(e, t): return t == '...' or e.cxx_type == t or t == 'std::exception' and e.cxx_type.startswith('std::') and 'string' not in e.cxx_type or e.cxx_type in BASES.get(t, ())

class Box:
    dv_model = True
    def __init__(self, v): self.v = v
class ElemPlace:
    dv_model = True
    def __init__(self, c, i): self.c, self.i = c, i
    v = property(lambda s: s.c[s.i], lambda s, x: s.c.__setitem__(s.i, x))
    ref = property(lambda s: s)
class MemberPlace:
    dv_model = True
    def __init__(self, o, n): self.o, self.n = o, n
    v = property(lambda s: getattr(s.o, s.n), lambda s, x: setattr(s.o, s.n, x))

class SPtr(Sym):
    """pointer to the hit core of entry i of a family (id i+1), null when null(i)"""
    __hash__ = object.__hash__
    def __init__(self, fam, i): object.__setattr__(self, 'fam', fam); object.__setattr__(self, 'i', i)
    def dv_pid(self):
        t = ti(self.i) + 1
        return z3.simplify(t) if self.fam.nulls is None else z3.If(tb(self.fam.nulls(self.i)), z3.IntVal(0), t)
    def dv_same(self, o): return isinstance(o, SPtr) and o.fam is self.fam and same_val(self.i, o.i)
    def __getattr__(self, n):
        f = object.__getattribute__(self, 'fam')
        if n in f.fields: return f.rd(n, self.i)
        raise AttributeError(n)
    def __setattr__(self, n, v):
        if n in self.fam.fields: self.fam.wr(n, self.i, v)
        else: raise Unsupported("attribute %s of a symbolic hit core" % n)
    def __deepcopy__(self, m): return self

def pid(o):
    if o is None: return 0
    if isinstance(o, IPtr): return o.t
    if isinstance(o, SPtr): return o.dv_pid()
    if isinstance(o, (CxxObject, Struct)):
        d = vars(o)
        if '_dv_pid' not in d:
            core.E.cxxpid = getattr(core.E, 'cxxpid', 0) - 1; d['_dv_pid'] = core.E.cxxpid
        return d['_dv_pid']
    raise Unsupported("address of %r" % type(o))
class IPtr(Sym):
    """an arbitrary pointer: only its identity (an integer, null = 0) is known"""
    __hash__ = object.__hash__
    def __init__(self, t): self.t = t
    def dv_same(self, o): return isinstance(o, IPtr) and same_val(SI(self.t), SI(o.t))
    def __deepcopy__(self, m): return self

def peq(a, b):
    if a is b: return True
    if isinstance(a, Poison) or isinstance(b, Poison): raise UndefinedBehaviour("comparison of an uninitialised pointer")
    if isinstance(a, (SPtr, IPtr)) or isinstance(b, (SPtr, IPtr)):
        if a is None or b is None:
            x = pid(a if b is None else b); return False if isinstance(x, int) else wb(z3.simplify(x == 0))
        if not isinstance(a, (SPtr, IPtr, CxxObject)) or not isinstance(b, (SPtr, IPtr, CxxObject)): return False
        x, y = pid(a), pid(b)
        return wb(z3.simplify(ti(x) == ti(y)))
    if isinstance(a, ElemPlace) and isinstance(b, ElemPlace): return a.c is b.c and a.i == b.i
    if isinstance(a, PyRef) and isinstance(b, PyRef): return a.o is b.o
    if isinstance(a, types.FunctionType) and isinstance(b, types.FunctionType): return a is b
    if a is None or b is None: return False
    if a is PYNONE or b is PYNONE: return False
    if isinstance(a, bool) and isinstance(b, SB): a, b = b, a
    if isinstance(a, SB) and isinstance(b, bool): return a if b else SB(z3.Not(a.t))
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, (Sym, bool)) != isinstance(b, (Sym, bool)) and not isinstance(a, SB) and not isinstance(b, SB): return False
    ob = (CxxObject, Struct, Box, PyClass, PyNamed, PyMod, Capsule, Vec, MapC, SMap)
    if isinstance(a, ob) and isinstance(b, ob): return False
    if isinstance(a, bool) or isinstance(b, bool): return False
    raise Unsupported("comparison of pointers to %s and %s" % (type(a).__name__, type(b).__name__))
class PyRef: pass
def wb(t):
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SB(t)

class CxxObject:
    cxx_name = '?'; cxx_fields = []
    dv_model = True
    __hash__ = object.__hash__
    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('_dv'): raise AttributeError(n)
        t = self.__dict__.get('ob_type')
        if isinstance(t, PyClass): return t.bound(self, n)
        raise AttributeError(n)
    # --- Python protocols of extension objects
    def _nb(self, slot, a, b):
        t = self.__dict__.get('ob_type')
        f = t.number(slot) if isinstance(t, PyClass) else None
        if f is None: return NotImplemented
        return t.call(f, [a, b])
    def __add__(self, o): return self._nb('nb_add', self, o)
    def __radd__(self, o): return self._nb('nb_add', o, self)
    def __sub__(self, o): return self._nb('nb_subtract', self, o)
    def __rsub__(self, o): return self._nb('nb_subtract', o, self)
    def __mul__(self, o): return self._nb('nb_multiply', self, o)
    def __rmul__(self, o): return self._nb('nb_multiply', o, self)
    def __truediv__(self, o): return self._nb('nb_true_divide', self, o)
    def __rtruediv__(self, o): return self._nb('nb_true_divide', o, self)
    def __invert__(self):
        t = self.__dict__.get('ob_type'); f = t.number('nb_invert') if isinstance(t, PyClass) else None
        if f is None: raise TypeError("bad operand type for unary ~")
        return t.call(f, [self])
    def __len__(self): raise Unsupported("native len of an extension object")
    def __bool__(self): return True
    def dv_len(self):
        t = self.__dict__.get('ob_type'); s = t.slots.get('tp_as_sequence')
        return t.call(s.sq_length, [self])
    def _rich(self, o, op):
        t = self.__dict__.get('ob_type'); f = t.slots.get('tp_richcompare') if isinstance(t, PyClass) else None
        if f is None: return NotImplemented
        return t.call(f, [self, o, op])
    def __eq__(self, o):
        if self is o and 'ob_type' not in self.__dict__: return True
        return self._rich(o, 2)
    def __ne__(self, o): return self._rich(o, 3)

class Struct:
    dv_model = False
    def __init__(self, type, names, vals): self.cxx_type = type; self.names = names; vars(self).update(zip(names, vals))
    def __getattr__(self, n):
        if n in (self.__dict__.get('names') or ()): return None
        raise AttributeError(n)
class TypeStruct(Struct): pass
TYPE_FIELDS = ('ob_base tp_name tp_basicsize tp_itemsize tp_dealloc tp_vectorcall_offset tp_getattr tp_setattr tp_as_async tp_repr tp_as_number tp_as_sequence tp_as_mapping tp_hash tp_call tp_str tp_getattro tp_setattro tp_as_buffer tp_flags tp_doc tp_traverse tp_clear tp_richcompare '
               'tp_weaklistoffset tp_iter tp_iternext tp_methods tp_members tp_getset tp_base tp_dict tp_descr_get tp_descr_set tp_dictoffset tp_init tp_alloc tp_new tp_free tp_is_gc tp_bases tp_mro tp_cache tp_subclasses tp_weaklist tp_del tp_version_tag tp_finalize tp_vectorcall tp_watched').split()
NUM_FIELDS = ('nb_add nb_subtract nb_multiply nb_remainder nb_divmod nb_power nb_negative nb_positive nb_absolute nb_bool nb_invert nb_lshift nb_rshift nb_and nb_xor nb_or nb_int nb_reserved nb_float nb_inplace_add nb_inplace_subtract nb_inplace_multiply nb_inplace_remainder '
              'nb_inplace_power nb_inplace_lshift nb_inplace_rshift nb_inplace_and nb_inplace_xor nb_inplace_or nb_floor_divide nb_true_divide nb_inplace_floor_divide nb_inplace_true_divide nb_index nb_matrix_multiply nb_inplace_matrix_multiply').split()
SEQ_FIELDS = 'sq_length sq_concat sq_repeat sq_item was_sq_slice sq_ass_item was_sq_ass_slice sq_contains sq_inplace_concat sq_inplace_repeat'.split()
STRUCTS = {'_typeobject': TYPE_FIELDS, 'PyTypeObject': TYPE_FIELDS, 'PyNumberMethods': NUM_FIELDS, 'PySequenceMethods': SEQ_FIELDS, 'PyMethodDef': ['ml_name', 'ml_meth', 'ml_flags', 'ml_doc'],
           'PyModuleDef': ['m_base', 'm_name', 'm_doc', 'm_size', 'm_methods', 'm_slots', 'm_traverse', 'm_clear', 'm_free']}

# ------------------------------------------------------------------ containers
def scalarlike(v): return not isinstance(v, (CxxObject, Vec, MapC, SMap, Pair))
class Pair:
    dv_model = True
    def __init__(self, a, b): self.first, self.second = a, b
class _At:
    dv_model = False
    def __init__(self, v): self.v = v
    def __getitem__(self, i):
        if not self.v.inside(i): raise thrown('std::out_of_range', 'at')
        return self.v.get(i)
    def __setitem__(self, i, x):
        if not self.v.inside(i): raise thrown('std::out_of_range', 'at')
        self.v.put(i, x)

class Vec:
    dv_model = True
    def __init__(self, rt, elem, items=()): self.rt, self.elem = rt, elem; self.items = items if isinstance(items, GList) else GList(items)
    at_ = property(lambda s: _At(s))
    def size(self): return self.items.length()
    def empty(self): return self.size() == 0
    def inside(self, i): return bool(wb(z3.simplify(z3.And(ti(i) >= 0, ti(i) < ti(self.size())))))
    def get(self, i): return self.items[i]
    def put(self, i, v): self.items[i] = v
    def __getitem__(self, i):
        if not self.inside(i): raise UndefinedBehaviour("vector index out of range")
        return self.get(i)
    def __setitem__(self, i, v):
        if not self.inside(i): raise UndefinedBehaviour("vector index out of range")
        self.put(i, v)
    def front(self): return self[0]
    def back(self): return self[self.size() - 1]
    def push_back(self, v): self.items.append(self.rt.copy(v))
    emplace_back = push_back
    def pop_back(self):
        n = self.size(); self.rt.destroy(self[n - 1]); del self.items[n - 1]
    def clear(self):
        for x in self._conc(): self.rt.destroy(x)
        self.items = GList()
    def _conc(self):
        if self.items.pre is None: return list(self.items.tail)
        if scalarkind(self.elem): return []
        raise Unsupported("destruction of a vector of symbolic length")
    def reserve(self, n): pass
    def begin(self): return VecIt(self, 0)
    cbegin = begin
    def end(self): return VecIt(self, self.size())
    cend = end
    def resize(self, n, v=None):
        m = self.size()
        if bool(SB(ti(n) >= 2**60)): raise thrown('std::length_error')      # max_size of elements of 8 bytes
        if isinstance(n, int) and isinstance(m, int):
            while len(self.items.tail) > n: self.rt.destroy(self.items.tail[-1]); self.items.pop()
            while len(self.items.tail) < n: self.items.append(self.rt.zero(self.elem) if v is None else self.rt.copy(v))
            return
        if not bool(SB(ti(n) >= ti(m))): raise Unsupported("shrinking a vector of symbolic length")
        if bool(SB(ti(n) == ti(m) + 1)): self.items.append(self.rt.zero(self.elem) if v is None else self.rt.copy(v)); return
        return self.grow(n, m, v)
    def grow(self, n, m, v): raise Unsupported("growing a vector of symbolic length by a symbolic amount")
    def erase(self, a, b=None):
        i = a.i
        if b is not None:
            if isinstance(i, int) and isinstance(b.i, int):
                for x in self.items.tail[i:b.i]: self.rt.destroy(x)
                del self.items[i:b.i]; return a
            raise Unsupported("erasing a symbolic range")
        if not self.inside(i): raise UndefinedBehaviour("erase past the end")
        self.rt.destroy(self.items[i]); del self.items[i]
        return a
    def insert(self, at, *a):
        i = at.i
        if len(a) == 1: new = [self.rt.copy(a[0])]
        elif isinstance(a[0], VecIt):
            if not isinstance(a[0].i, int) or not isinstance(a[1].i, int) or a[0].v.items.pre is not None: raise Unsupported("inserting a symbolic range")
            new = [self.rt.copy(x) for x in a[0].v.items.tail[a[0].i:a[1].i]]
        else:
            if not isinstance(a[0], int): raise Unsupported("inserting a symbolic count")
            new = [self.rt.copy(a[1]) for _ in range(a[0])]
        if self.items.pre is not None or not isinstance(i, int): raise Unsupported("insertion into a vector of symbolic length")
        for k, x in enumerate(new): self.items.insert(i + k, x)
        return at
    def assign(self, n, v): self.items = GList([self.rt.copy(v) for _ in range(n)])
    def swap(self, o): self.items, o.items = o.items, self.items
    def clone(self):
        if self.items.pre is not None:
            if not scalarkind(self.elem): raise Unsupported("copy of a vector of symbolic length")
            return Vec(self.rt, self.elem, GList(self.items))
        return Vec(self.rt, self.elem, [self.rt.copy(x) for x in self.items.tail])
    def become(self, o):
        if o is self: return
        new = o.clone(); old = [] if self.items.pre is not None else list(self.items.tail)
        self.items = new.items
        for x in old: self.rt.destroy(x)
    def iterate(self):
        n = self.size()
        return [VecIt(self, i) for i in range(n)] if isinstance(n, int) else SSeq(n, lambda i: VecIt(self, i))
    def elements(self):
        n = self.size()
        return [self.get(i) for i in range(n)] if isinstance(n, int) else SSeq(n, lambda i: self.get(i))
    def places(self):
        n = self.size()
        return [ElemPlace(self, i) for i in range(n)] if isinstance(n, int) else SSeq(n, lambda i: ElemPlace(self, i))
def scalarkind(t):
    from .cxxfront import is_scalar
    return is_scalar(t)
class VecIt:
    dv_model = True
    def __init__(self, v, i): self.v, self.i = v, i
    def __add__(self, k): return VecIt(self.v, self.i + k)
    def __sub__(self, k): return self.i - k.i if isinstance(k, VecIt) else VecIt(self.v, self.i - k)
    def same(self, o): return wb(z3.simplify(ti(self.i) == ti(o.i)))
    def arrow(self): return self.v[self.i]
    def star(self):
        x = self.v[self.i]
        return ElemPlace(self.v, self.i) if scalarlike(x) else x
    def inc(self): self.i = self.i + 1; return self

class Entry:
    """the pair an iterator into a map points at"""
    dv_model = False
    def __init__(self, m, k): self.m, self.k = m, k
    @property
    def first(self): return self.m.keyobj(self.k)
    second = property(lambda s: s.m.at_[s.k], lambda s, v: s.m.__setitem__(s.k, v))
class MapIt:
    dv_model = False
    def __init__(self, m, k): self.m, self.k = m, k          # k None: end
    def same(self, o):
        if self.k is None and o.k is None: return True
        if self.k is None or o.k is None:
            x = self if o.k is None else o
            return x.m.absent(x.k)
        return x_eq(self.m, self.k, o.k)
    def arrow(self): return Entry(self.m, self.k)
    star = arrow
    def inc(self): raise Unsupported("stepping a map iterator outside a for loop")
def x_eq(m, a, b): return m.keyeq(a, b)
class _MapAt:
    def __init__(self, m): self.m = m
    def __getitem__(self, k):
        if self.m.has(k) is False or not bool(self.m.has(k)): raise thrown('std::out_of_range', 'map::at')
        return self.m.peek(k)
    def __setitem__(self, k, v):
        if not bool(self.m.has(k)): raise thrown('std::out_of_range', 'map::at')
        self.m[k] = v

class MapC:
    """std::map whose keys are concrete (strings, integers)"""
    dv_model = True
    def __init__(self, rt, kt, vt, d=None): self.rt, self.kt, self.vt = rt, kt, vt; self.d = dict(d or {})
    at_ = property(lambda s: _MapAt(s))
    def keyobj(self, k): return k
    def keyeq(self, a, b): return a == b
    def has(self, k):
        if isinstance(k, Sym): raise Unsupported("symbolic key in a map with concrete keys")
        return k in self.d
    def absent(self, k): return not self.has(k)
    def peek(self, k): return self.d[k]
    def find(self, k): return MapIt(self, k if self.has(k) else None)
    def count(self, k): return 1 if self.has(k) else 0
    contains = has
    def end(self): return MapIt(self, None)
    def begin(self): ks = sorted(self.d); return MapIt(self, ks[0] if ks else None)
    cbegin, cend = begin, end
    def size(self): return len(self.d)
    def empty(self): return not self.d
    def clear(self): self.d.clear()
    def __getitem__(self, k):
        if not self.has(k): self.d[k] = self.rt.zero(self.vt)
        return self.d[k]
    def __setitem__(self, k, v):
        if isinstance(k, Sym): raise Unsupported("symbolic key in a map with concrete keys")
        self.d[k] = v
    def erase(self, k):
        k = k.k if isinstance(k, MapIt) else k
        return 1 if self.d.pop(k, UNB) is not UNB else 0
    def insert(self, *a):
        p = a[-1]
        if isinstance(p, MapIt): raise Unsupported("map range insertion")
        new = not self.has(p.first)
        if new: self.d[p.first] = p.second
        return Pair(MapIt(self, p.first), new)
    def clone(self): return MapC(self.rt, self.kt, self.vt, {k: self.rt.copy(v) for k, v in self.d.items()})
    def become(self, o): self.d = o.clone().d
    def iterate(self): return [MapIt(self, k) for k in sorted(self.d)]
    def elements(self): return [Pair(k, self.d[k]) for k in sorted(self.d)]
UNB = object()

class SMap:
    """std::map keyed by a struct of integers (or a pointer): presence and value are functions of the key.
    The ordering of the keys is assumed to have identity as its equivalence (a separate obligation on the code's operator<)."""
    dv_model = True
    def __init__(self, rt, kt, vt):
        self.rt, self.kt, self.vt = rt, kt, vt
        self.p0 = lambda k: False; self.v0 = None; self.w = []
    at_ = property(lambda s: _MapAt(s))
    # keys
    def norm(self, k):
        if isinstance(k, tuple): return k
        if isinstance(k, MapIt): return k.k
        if self.kt.endswith('*'): return (pid(k),)
        return tuple(getattr(k, f) for f, t in self.rt.keyfields(self.kt))
    def keyobj(self, k):
        if self.kt.endswith('*'): return IPtr(ti(k[0]))
        c = self.rt.cls(self.kt); o = c.__new__(c)
        for (f, t), x in zip(self.rt.keyfields(self.kt), k): setattr(o, f, x)
        return o
    @staticmethod
    def eq(a, b):
        """z3 term or bool"""
        ts = []
        for x, y in zip(a, b):
            if isinstance(x, int) and isinstance(y, int):
                if x != y: return False
                continue
            t = z3.simplify(ti(x) == ti(y))
            if z3.is_false(t): return False
            if not z3.is_true(t): ts.append(t)
        return z3.And(ts) if len(ts) > 1 else ts[0] if ts else True
    def keyeq(self, a, b):
        r = self.eq(self.norm(a), self.norm(b)); return r if isinstance(r, bool) else SB(r)
    def lookup(self, k):
        """(present, value): present is a bool or a z3 term; value None when never present"""
        k = self.norm(k)
        p = self.p0(k); p = p if isinstance(p, bool) else tb(p)
        v = self.v0(k) if self.v0 is not None else None
        for wk, wp, wv in self.w:
            c = self.eq(k, wk)
            if c is False: continue
            if c is True: p, v = wp, wv; continue
            pt = p if not isinstance(p, bool) else z3.BoolVal(p); wt = wp if not isinstance(wp, bool) else z3.BoolVal(wp)
            p = z3.simplify(z3.If(c, wt, pt)); p = True if z3.is_true(p) else False if z3.is_false(p) else p
            v = wv if v is None else v if wv is None else ite(c, wv, v)
        return p, v
    def has(self, k):
        p, v = self.lookup(k); return p if isinstance(p, bool) else SB(p)
    contains = has
    def absent(self, k):
        p, v = self.lookup(k); return (not p) if isinstance(p, bool) else SB(z3.Not(p))
    def peek(self, k): return self.lookup(k)[1]
    def write(self, k, p, v):
        k = self.norm(k)
        if self.w and self.eq(self.w[-1][0], k) is True: self.w.pop()
        self.w = self.w + [(k, p, v)]
    def find(self, k): return MapIt(self, self.norm(k))
    def end(self): return MapIt(self, None)
    def begin(self): return MapIt(self, None)       # usable as an insertion hint only
    cend = end
    def count(self, k):
        p, v = self.lookup(k); return (1 if p else 0) if isinstance(p, bool) else SI(z3.If(p, 1, 0))
    def size(self): raise Unsupported("size of a symbolic map")
    def empty(self): raise Unsupported("emptiness of a symbolic map")
    def clear(self): self.p0 = lambda k: False; self.v0 = None; self.w = []
    def __getitem__(self, k):
        p, v = self.lookup(k); z = self.rt.zero(self.vt)
        if p is not True:
            if v is None or p is False: v = z
            else: v = ite(p, v, z)
            self.write(k, True, v)
        return v
    def __setitem__(self, k, v): self.write(k, True, v)
    def erase(self, k): self.write(k, False, None)
    def insert(self, *a):
        pr = a[-1]
        if isinstance(pr, MapIt): raise Unsupported("map range insertion")
        p, v = self.lookup(pr.first)
        if p is True: return Pair(MapIt(self, self.norm(pr.first)), False)
        self.write(pr.first, True, pr.second if p is False else ite(p, v, pr.second))
        return Pair(MapIt(self, self.norm(pr.first)), (not p) if isinstance(p, bool) else SB(z3.Not(p)))
    emplace_hint = None
    def clone(self):
        m = SMap(self.rt, self.kt, self.vt); m.p0, m.v0, m.w = self.p0, self.v0, self.w; return m
    def become(self, o): self.p0, self.v0, self.w = o.p0, o.v0, o.w
    def state(self): return (self.p0, self.v0, self.w)
    def iterate(self):
        probe = self.p0(tuple(0 for _ in self.rt.keyfields(self.kt)))
        if probe is False and all(all(isinstance(x, int) for x in k) and isinstance(p, bool) for k, p, v in self.w):
            ks = {}
            for k, p, v in self.w: ks[k] = p
            return [MapIt(self, k) for k in sorted(k for k in ks if ks[k])]
        d = MapDom(self)
        s = SSeq(SI(d.n), lambda i: MapIt(self, d.key(i))); s.dom = d
        return s
    def elements(self):
        it = self.iterate()
        if isinstance(it, list): return [Entry(self, x.k) for x in it]
        s = SSeq(it.n, lambda i: Entry(self, it.dom.key(i))); s.dom = it.dom; return s
    def dv_cells(self, path): return [MapCell(self, path)]
    def dv_same(self, o): return o is self

class MapDom:
    """the keys of a map at the start of a loop over it: an enumeration without repetition"""
    def __init__(self, m):
        E = core.E
        self.view = SMap(m.rt, m.kt, m.vt); self.view.p0, self.view.v0, self.view.w = m.state()
        c = len(m.rt.keyfields(m.kt))
        self.n = E.fresh_int('msize'); E.assume(self.n >= 0)
        self.K = [z3.Function(E.fresh_name('mkey%d' % j), z3.IntSort(), z3.IntSort()) for j in range(c)]
        self.rank = z3.Function(E.fresh_name('mrank'), *([z3.IntSort()] * (c + 1)))
        self.done = set()
    def present(self, k):
        p, v = self.view.lookup(k)
        return z3.BoolVal(p) if isinstance(p, bool) else p
    def key(self, i):
        E = core.E; t = ti(i); ks = [f(t) for f in self.K]
        if t.get_id() not in self.done:
            self.done.add(t.get_id()); E.keep.append(t)
            E.fact(z3.Implies(z3.And(t >= 0, t < self.n), z3.And(self.present(tuple(SI(k) for k in ks)), self.rank(*ks) == t)))
        return tuple(SI(k) for k in ks)
    def visited(self, key, k):
        """key was present at the start and its turn came before iteration k"""
        E = core.E; ks = [ti(x) for x in key]; r = self.rank(*ks); p = self.present(key)
        if r.get_id() not in self.done:
            self.done.add(r.get_id()); E.keep.append(r)
            E.fact(z3.Implies(p, z3.And(r >= 0, r < self.n, *[f(r) == x for f, x in zip(self.K, ks)])))
        return z3.And(p, r < ti(k))

class MapCell:
    kind = 'fam'; set = None
    def __init__(self, m, key): self.m, self.key = m, key + '{map}'; self.loop = None
    def get(self): return self.m.state()
    # a loop over the map itself: hint(key, present, value); any other loop: hint(k, key, present, value)
    over = property(lambda s: getattr(s.loop.elem, 'dom', None) is not None)
    fam_target = property(lambda s: 'cxxgone' if s.m.kt == 'ghost *' else 'cxxrefs' if s.m.kt.endswith('*') else 'cxxmap' if s.over else 'cxxtable')
    def base_ok(self, h): return self.m.kt.endswith('*') or len(self.m.rt.keyfields(self.m.kt)) == 3
    def view(self, st):
        m = SMap(self.m.rt, self.m.kt, self.m.vt); m.p0, m.v0, m.w = st; return m
    def template(self, h, k, v0):
        old = self.view(v0)
        if not self.over:
            def step(key):
                p, v = old.lookup(key)
                np_, nv = h.fn(wrap(z3.simplify(ti(k))), tuple(key), p if isinstance(p, bool) else SB(p), old.rt.zero(old.vt) if v is None else v)
                return z3.BoolVal(np_) if isinstance(np_, bool) else tb(np_), nv
            return step
        dom = self.loop.elem.dom
        def both(key):
            p, v = old.lookup(key); vis = dom.visited(key, k)
            vis = z3.simplify(vis)
            np_, nv = h.fn(tuple(key), wb(p) if not isinstance(p, bool) else p, old.rt.zero(old.vt) if v is None else v)
            np_ = z3.BoolVal(np_) if isinstance(np_, bool) else tb(np_)
            pt = z3.BoolVal(p) if isinstance(p, bool) else p
            return z3.simplify(z3.If(vis, np_, pt)), ite(vis, nv, old.rt.zero(old.vt) if v is None else v)
        return both
    def install(self, h, k, v0, tid):
        E = core.E; m = self.m
        if tid == 'famhavoc':
            E.tainted = True; E.notes.add('havoc map ' + self.key)
            c = len(m.rt.keyfields(m.kt))
            fp = z3.Function(E.fresh_name('hvp'), *([z3.IntSort()] * c + [z3.BoolSort()])); fv = z3.Function(E.fresh_name('hvm'), *([z3.IntSort()] * c + [z3.RealSort() if m.vt == 'double' else z3.IntSort()]))
            m.p0 = lambda key: SB(fp(*[ti(x) for x in key])); m.v0 = lambda key: wrap(fv(*[ti(x) for x in key])); m.w = []
            return None
        both = self.template(h, k, v0)
        m.p0 = lambda key: SB(both(key)[0]); m.v0 = lambda key: both(key)[1]; m.w = []
        return m.state()
    def check(self, h, k, v0, tid, aux):
        E = core.E; m = self.m
        if tid == 'famhavoc': return True
        if tid == 'same' and m.state() == v0: return True
        key = tuple(SI(E.fresh_int('mk')) for _ in m.rt.keyfields(m.kt))
        if tid == 'same': wp, wv = self.view(v0).lookup(key)
        else: wp, wv = self.template(h, k + 1, v0)(key)
        p, v = m.lookup(key)
        P = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
        if E.prove(P(p) == P(wp), 2500)[0] != 'proved': return False
        if v is None and wv is None: return True
        z = m.rt.zero(m.vt)
        v = z if v is None else v; wv = z if wv is None else wv
        t = (tr(v) == tr(wv)) if m.vt == 'double' else (ti(v) == ti(wv))
        ok = E.prove(z3.Implies(P(p), t), 2500)[0] == 'proved'
        E.inv_checked += ok
        return ok

class CArray(list):
    dv_model = False
    def __add__(self, k): return ElemPlace(self, k)      # pointer to element k
    def __hash__(self): return id(self)

# ------------------------------------------------------------------ Python objects
class PyNone(Sym):
    __hash__ = object.__hash__
    def __bool__(self): return False
    def __repr__(self): return 'Py_None'
    def __deepcopy__(self, m): return self
PYNONE = PyNone()
class PyNamed:
    """a type object or other named object of the interpreter"""
    def __init__(self, n): self.n = n
PYEXC = {'PyExc_TypeError': TypeError, 'PyExc_KeyError': KeyError, 'PyExc_ValueError': ValueError, 'PyExc_IndexError': IndexError, 'PyExc_RuntimeError': RuntimeError,
         'PyExc_OverflowError': OverflowError, 'PyExc_NotImplementedError': NotImplementedError, 'PyExc_ZeroDivisionError': ZeroDivisionError, 'PyExc_AttributeError': AttributeError,
         'PyExc_MemoryError': MemoryError, 'PyExc_SystemError': SystemError, 'PyExc_Exception': Exception, 'PyExc_ArithmeticError': ArithmeticError, 'PyExc_LookupError': LookupError}
class PyMod:
    def __init__(self, name): self.name = name; self.d = {}
class Capsule:
    def __init__(self, p): self.p = p

class PyClass:
    """an extension type after PyType_Ready"""
    dv_model = False
    def __init__(self, ts, rt):
        self.ts, self.rt = ts, rt; self.__name__ = str(ts.tp_name)
        self.slots = vars(ts)
        self.methods = {}
        for m in ts.tp_methods or []:
            if m.ml_name is not None: self.methods[m.ml_name] = m
    def number(self, slot):
        n = self.ts.tp_as_number
        return getattr(n, slot) if n is not None else None
    def call(self, f, args, conv=True):
        """call of a C function from the interpreter"""
        st = self.rt.st; st['err'] = None
        r = f(*[topy(a) for a in args])
        return self.finish(r)
    def finish(self, r):
        st = self.rt.st; err = st['err']; st['err'] = None
        if r is None:
            if err is None: raise SystemError("NULL returned without setting an exception")
            raise err[0](err[1]) if not isinstance(err[0], BaseException) else err[0]
        if err is not None: raise SystemError("a result was returned with an exception set: %s" % (err[1],))
        return frompy(r)
    def bound(self, obj, name):
        m = self.methods.get(name)
        if m is None: raise AttributeError("'%s' object has no attribute '%s'" % (self.__name__, name))
        fl = m.ml_flags
        me = (self.ts if fl & 0x10 else None if fl & 0x20 else obj)
        def method(*args, **kw):
            if kw and not fl & 2: raise TypeError("%s() takes no keyword arguments" % name)
            st = self.rt.st; st['err'] = None
            a = [me, tuple(topy(x) for x in args)]
            if fl & 2: a.append({k: topy(v) for k, v in kw.items()} if kw else None)
            n = m.ml_meth.__code__.co_argcount
            while len(a) < n: a.append(Poison())
            return self.finish(m.ml_meth(*a[:n]))
        return method
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        m = self.__dict__.get('methods', {}).get(n)
        if m is None: raise AttributeError(n)
        if not m.ml_flags & 0x30: return lambda o, *a, **k: self.bound(o, n)(*a, **k)
        return self.bound(None, n)
    def __call__(self, *args, **kw):
        ts = self.ts
        self.rt.st['err'] = None
        o = (ts.tp_alloc)(ts, 0)
        if o is None: return self.finish(None)
        if ts.tp_init is not None:
            r = ts.tp_init(o, tuple(topy(x) for x in args), {k: topy(v) for k, v in kw.items()} if kw else None)
            if r != 0: return self.finish(None)
        return self.finish(o)
def topy(v): return PYNONE if v is None else v
def frompy(v): return None if v is PYNONE else v

def is_true(o):
    if isinstance(o, (SB, bool)): return bool(o)
    if isinstance(o, NUMS): return bool(SB(tr(o) != 0)) if isinstance(o, Sym) else bool(o)
    if o is PYNONE: return False
    if isinstance(o, (str, tuple, dict)): return len(o) > 0
    if isinstance(o, (GList, list)): return bool(o)
    return True

class Runtime:
    """one per translation unit; st is shared by the units of a process"""
    def __init__(self, front, tu, st): self.front, self.tu, self.st, self.ns = front, tu, st, {}
    # ---- types
    def cls(self, t):
        from .cxxfront import strip_cv
        t = strip_cv(t)
        for c in self.ns.get('__classes', ()):
            if c.cxx_name == t or c.cxx_name.endswith('::' + t): return c
        return None
    def keyfields(self, kt):
        if kt.endswith('*'): return [('ptr', 'int')]
        c = self.cls(kt)
        if c is None or not c.cxx_fields or not all(t in RANGES for f, t in c.cxx_fields): raise Unsupported("map keyed by " + kt)
        return c.cxx_fields
    def zero(self, t):
        from .cxxfront import strip_cv, is_ptr, is_string, is_scalar
        t = strip_cv(t)
        if is_ptr(t): return None
        if is_string(t): return ''
        if t in ('double', 'float'): return 0.0
        if t == 'bool': return False
        if is_scalar(t): return 0
        return self.default(t)
    def default(self, t):
        from .cxxfront import strip_cv, targs, is_string
        t = strip_cv(t)
        if t.startswith('std::vector<'): return Vec(self, targs(t)[0])
        if t.startswith('std::map<') or t.startswith('std::unordered_map<'):
            a = targs(t); k = strip_cv(a[0]) if not a[0].rstrip().endswith('*') else a[0].strip()
            if is_string(k) or k in RANGES: return MapC(self, k, a[1])
            return SMap(self, k, strip_cv(a[1]))
        if t.startswith('std::pair<'): a = targs(t); return Pair(self.zero(a[0]), self.zero(a[1]))
        c = self.cls(t)
        if c is not None: return self.new(c, getattr(c, 'cxx_defctor', None))
        if t == '_object': return None
        raise Unsupported("default value of " + t)
    def new(self, c, ctor, *args):
        o = c.__new__(c)
        if ctor is None:
            for f, t in c.cxx_fields: setattr(o, f, self.zero(t))
        else:
            inst = [f for f, t in c.cxx_fields]
            ctor(o, *args)
            for f, t in c.cxx_fields:
                if f not in vars(o): setattr(o, f, self.zero(t) if not scalarkind(t) else Poison())
        if any(f == 'ob_base' for f, t in c.cxx_fields): vars(o)['ob_base'] = o
        return o
    def construct(self, t, sig, *a):
        from .cxxfront import strip_cv, targs
        t = strip_cv(t)
        if t.startswith('std::vector<'):
            e = targs(t)[0]
            if not a: return Vec(self, e)
            x = a[0]
            if isinstance(x, Vec):
                if '&&' in sig: v = Vec(self, e, x.items); v.__class__ = x.__class__; x.items = GList(); return v
                return x.clone()
            if isinstance(x, CArray):
                if len(a) == 2 and isinstance(a[1], ElemPlace) and a[1].c is x and isinstance(a[1].i, int) and 0 <= a[1].i <= len(x): return Vec(self, e, [self.copy(y) for y in x[:a[1].i]])
                if len(a) > 1: raise Unsupported("vector made from a range")
                return Vec(self, e, [self.copy(y) for y in x])
            if isinstance(x, VecIt): return Vec(self, e, [self.copy(x.v.get(i)) for i in range(x.i, a[1].i)])
            if isinstance(x, ElemPlace) and len(a) == 2 and isinstance(a[1], ElemPlace) and a[1].c is x.c: return Vec(self, e, [self.copy(x.c[i]) for i in range(x.i, a[1].i)])
            z = a[1] if len(a) > 1 else UNB
            if isinstance(x, int): return Vec(self, e, [self.copy(z) if z is not UNB else self.zero(e) for _ in range(x)])
            if scalarkind(e): zz = self.zero(e) if z is UNB else z; return Vec(self, e, GList(SSeq(x, lambda i: zz)))
            raise Unsupported("vector of symbolic length")
        if t.startswith('std::map<'):
            if not a: return self.default(t)
            if isinstance(a[0], (MapC, SMap)): return a[0].clone()
            raise Unsupported("map constructor")
        if t.startswith('std::pair<'):
            if len(a) == 2: return Pair(*a)
            if len(a) == 1: return Pair(a[0].first, a[0].second)
            return self.default(t)
        if 'iterator' in t: return a[0] if a else VecIt(None, 0)
        if t == '_object': return None
        if t in ('std::runtime_error', 'std::logic_error', 'std::exception', 'std::out_of_range', 'std::invalid_argument'): return a[0] if a else ''
        c = self.cls(t)
        if c is not None: return self.new(c, None) if not a else self.copy(a[0])
        raise Unsupported("construction of " + t)
    # ---- values
    def copy(self, v):
        if isinstance(v, (Vec, MapC, SMap)): return v.clone()
        if isinstance(v, Pair): return Pair(self.copy(v.first), self.copy(v.second))
        if isinstance(v, CxxObject):
            c = getattr(type(v), 'cxx_real', type(v)); f = getattr(c, 'cxx_copyctor', None)
            if f is not None: return self.new(c, f, v)
            o = c.__new__(c)
            for k, x in vars(v).items(): setattr(o, k, self.copy(x) if not isinstance(x, CxxObject) or not self.isptr(c, k) else x)
            return o
        return v
    def isptr(self, c, k):
        from .cxxfront import is_ptr
        return any(f == k and is_ptr(t) for f, t in c.cxx_fields)
    def assign(self, a, b):
        if a is b: return a
        if isinstance(a, (Vec, MapC, SMap)): a.become(b); return a
        if isinstance(a, Pair): a.first, a.second = self.copy(b.first), self.copy(b.second); return a
        f = getattr(type(a), 'cxx_assign', None)
        if f is not None: f(a, b); return a
        if isinstance(a, CxxObject):
            for k, x in vars(b).items(): setattr(a, k, self.copy(x) if not isinstance(x, CxxObject) or not self.isptr(type(b), k) else x)
            return a
        if isinstance(a, (VecIt, MapIt)): a.__dict__.update(b.__dict__); return a
        raise Unsupported("assignment of %s" % type(a).__name__)
    def destroy(self, o):
        if isinstance(o, Vec):
            if scalarkind(o.elem): return
            if o.items.pre is not None: self.ns['f_dv_destroy_each'](o); return
            for x in o._conc(): self.destroy(x)
            return
        if not isinstance(o, CxxObject): return
        c = type(o)
        for k in c.__mro__:
            d = k.__dict__.get('cxx_dtor')
            if d is not None: d(o)
        for f, t in reversed(c.cxx_fields):
            if f == 'ob_base': continue
            if not scalarkind(t): self.destroy(vars(o).get(f))
    def delete(self, o):
        if o is None: return
        if isinstance(o, (IPtr, SPtr)):
            self.gone(o); return
        if vars(o).get('_dv_deleted'): raise UndefinedBehaviour("double delete")
        self.destroy(o)
        vars(o)['_dv_deleted'] = True
        self.gone(o)
    def gone(self, o):
        """ghost: how often the object at an address has been deleted"""
        g = self.st['unique'].dv_gone; k = (pid(o),); c = g.lookup(k)[1]
        if bool(SB(ti(c) >= 1)): raise UndefinedBehaviour("double delete")
        g.write(k, True, SI(z3.simplify(ti(c) + 1)))
    # ---- namespace of the translated module
    def names(self):
        rt = self; st = self.st
        d = {}
        def ex(f, n=None): d[n or f.__name__] = f; return f
        d['_Box'] = Box; d['CxxObject'] = CxxObject; d['_undef'] = Poison; d['_CxxError'] = CxxError; d['_throw'] = thrown; d['_caught'] = caught; d['_SIZEOF'] = 8; d['_DEFAULT'] = None
        d['_default'] = self.default; d['_construct'] = self.construct; d['_new'] = self.new; d['_heap'] = lambda o: o; d['_delete'] = self.delete; d['_destroy'] = self.destroy
        d['_copy'] = self.copy; d['_assign'] = self.assign; d['_peq'] = peq; d['_bindm'] = bindm
        d['_scope'] = lambda o: Scope(rt, o); d['_temps'] = lambda: Temps(rt); d['_tmp'] = self.tmp; d['_discard'] = self.destroy
        d['_unsup'] = unsup; d['_array'] = lambda l: CArray(l if not isinstance(l, GList) else l.tail); d['_struct'] = mkstruct
        d['_addr_elem'] = lambda c, i: ElemPlace(c, i); d['_addr_member'] = MemberPlace; d['_enum'] = lambda n: unsup('enumerator ' + n)
        d['_Opaque'] = Opaque; d['_ext'] = lambda n: ext(rt, n); d['_extern'] = lambda n: extern(rt, n); d['_obtype'] = obtype
        d['_iterate'] = lambda c: c.iterate(); d['_elements'] = lambda c: list(c) if isinstance(c, CArray) else c.elements(); d['_places'] = lambda c: c.places()
        d['_fdiv'] = fdiv; d['_idiv'] = idiv; d['_imod'] = imod; d['_tof'] = tof; d['_toint'] = toint; d['_icast'] = icast; d['_dec'] = dec; d['_b2i'] = b2i; d['_pint'] = lambda x: x
        d['_str'] = lambda *a: a[0] if a else ''; d['_not'] = not_; d['_nn'] = lambda p: not_(peq(p, None)); d['_eq'] = eq_; d['_arrow'] = arrow; d['_star'] = star; d['_inc'] = lambda it: it.inc()
        d['_bound'] = bound
        d['Globals'] = lambda: Globals(rt)
        d['register'] = self.register
        d['__all__'] = list(d)
        return d
    def tmp(self, o):
        s = self.st['temps']
        if s: s[-1].append(o)
        return o
    def register(self, ns):
        self.ns = ns
        ns['__classes'] = [c for c in ns.values() if isinstance(c, type) and issubclass(c, CxxObject) and c is not CxxObject]
        ns['G'].setup()

class Scope:
    def __init__(self, rt, o): self.rt, self.o = rt, o
    def __enter__(self): return self
    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, Exception): self.rt.destroy(self.o)
class Temps:
    def __init__(self, rt): self.rt = rt
    def __enter__(self): self.rt.st['temps'].append([])
    def __exit__(self, et, ev, tb):
        l = self.rt.st['temps'].pop()
        if et is None or issubclass(et, Exception):
            for o in reversed(l): self.rt.destroy(o)
class Unique:
    """objects the dynamic linker shares between the extension modules"""
    dv_model = True
class Globals:
    dv_model = True
    def __init__(self, rt): vars(self)['_dv_rt'] = rt; vars(self)['_dv_defs'] = []
    def define(self, n, f, shared=False): self._dv_defs.append((n, f, shared))
    def setup(self):
        rt = vars(self).pop('_dv_rt'); u = rt.st['unique']; names = set()
        vars(self)['_dv_u'] = u; vars(self)['_dv_shared'] = names
        for n, f, sh in self._dv_defs:
            if sh:
                names.add(n)
                if n not in vars(u): setattr(u, n, f())
            else: setattr(self, n, f())
        del vars(self)['_dv_defs']
        core.E.heap.append(self)
    def __getattr__(self, n):
        d = self.__dict__
        if n in d.get('_dv_shared', ()): return getattr(d['_dv_u'], n)
        raise AttributeError(n)
    def __setattr__(self, n, v):
        d = self.__dict__
        if n in d.get('_dv_shared', ()): setattr(d['_dv_u'], n, v)
        else: d[n] = v
class Opaque:
    def __init__(self, n): vars(self)['_dv_n'] = n
    def __getattr__(self, a): raise Unsupported("use of " + self._dv_n)
def unsup(m): raise Unsupported("C++: " + m)
def mkstruct(t, vals):
    names = STRUCTS.get(t)
    vals = list(vals.tail) if isinstance(vals, GList) else list(vals)
    if names is None: return Struct(t, ['f%d' % i for i in range(len(vals))], vals)
    return (TypeStruct if names is TYPE_FIELDS else Struct)(t, names, vals)
def bindm(o, f):
    if f is None: raise UndefinedBehaviour("call through a null member pointer")
    if o is None: raise UndefinedBehaviour("member call on a null pointer")
    return lambda *a: f(o, *a)
def fdiv(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if b == 0: return SR(core.E.fresh_real('divzero'))
        return a / b
    if not isinstance(b, Sym) and b == 0: return SR(core.E.fresh_real('divzero'))
    return SR(tr(a) / tr(b))
def idiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym): raise Unsupported("symbolic integer division")
    return int(a / b) if abs(a) < 1 << 50 else a // b
def imod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym): raise Unsupported("symbolic remainder")
    return int(math.fmod(a, b))
def tof(x):
    if isinstance(x, SI): return SR(tr(x))
    if isinstance(x, bool): return 1. if x else 0.
    if isinstance(x, SB): return SR(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    return float(x) if isinstance(x, int) else x
def toint(x):
    if isinstance(x, SR): return SI(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    return int(x)
def icast(x, t):
    if isinstance(x, bool): return 1 if x else 0
    if isinstance(x, SB): return b2i(x)
    r = RANGES.get(t)
    if r is None: return x
    if isinstance(x, int):
        m = r[1] - r[0] + 1
        return (x - r[0]) % m + r[0]
    if not isinstance(x, SI): return x
    if bool(wb(z3.simplify(z3.And(x.t >= r[0], x.t <= r[1])))): return x
    m = r[1] - r[0] + 1
    return SI((x.t - r[0]) % m + r[0])
def dec(x, t):
    """x - 1, wrapping below the range of the type"""
    r = RANGES.get(t)
    if r is None or not isinstance(x, SI): return icast(x - 1, t)
    if bool(wb(z3.simplify(x.t > r[0]))): return x - 1
    return SI(z3.IntVal(r[1]))
def b2i(x): return SI(z3.If(x.t, z3.IntVal(1), z3.IntVal(0))) if isinstance(x, SB) else (1 if x else 0)
def not_(x): return SB(z3.Not(x.t)) if isinstance(x, SB) else not x
def eq_(a, b):
    if isinstance(a, (VecIt, MapIt)): return a.same(b)
    if isinstance(a, Vec): return eq_(a.items, b.items)
    return a == b
def arrow(x):
    if isinstance(x, (VecIt, MapIt)): return x.arrow()
    raise Unsupported("-> on " + type(x).__name__)
def star(x):
    if isinstance(x, (VecIt, MapIt)): return x.star()
    raise Unsupported("* on " + type(x).__name__)
def bound(b, now):
    if b is now: return
    if not isinstance(b, Sym) and not isinstance(now, Sym):
        if b != now: raise Unsupported("loop bound changes during the loop")
        return
    if core.E.prove(ti(b) == ti(now), 2000)[0] != 'proved': raise Unsupported("loop bound changes during the loop")
def obtype(o):
    if isinstance(o, CxxObject):
        t = vars(o).get('ob_type'); return t.ts if isinstance(t, PyClass) else t
    return PyNamed('type')

# ------------------------------------------------------------------ the Python C API
def extern(rt, n):
    if n == '_Py_NoneStruct': return PYNONE
    if n == '_Py_TrueStruct': return True
    if n == '_Py_FalseStruct': return False
    if n in PYEXC: return PYEXC[n]
    if n in ('PyFloat_Type', 'PyBool_Type', 'PyLong_Type', 'PyUnicode_Type', 'PyList_Type', 'PyDict_Type', 'PyTuple_Type'): return PyNamed(n)
    raise Unsupported("external object " + n)
FEATURE = {1 << 24: lambda o: isinstance(o, (int, SI, bool, SB)), 1 << 25: lambda o: isinstance(o, (list, GList, SSeq)), 1 << 26: lambda o: isinstance(o, tuple),
           1 << 28: lambda o: isinstance(o, str), 1 << 29: lambda o: isinstance(o, dict)}
TYPES = {'PyFloat_Type': lambda o: isinstance(o, (float, SR)) and not isinstance(o, SI), 'PyBool_Type': lambda o: isinstance(o, (bool, SB)), 'PyLong_Type': FEATURE[1 << 24], 'PyUnicode_Type': FEATURE[1 << 28], 'PyList_Type': FEATURE[1 << 25], 'PyDict_Type': FEATURE[1 << 29], 'PyTuple_Type': FEATURE[1 << 26]}
class PyTypeOf:
    def __init__(self, o): self.o = o
def ext(rt, name):
    st = rt.st; short = name.split('::')[-1]
    f = API.get(short)
    if f is None: return lambda *a: unsup('external function ' + name)
    return lambda *a: f(rt, st, *a)
API = {}
def api(f): API[f.__name__] = f; return f
def fail(st, t, m): st['err'] = (t, m); return None

@api
def PyErr_SetString(rt, st, t, m): st['err'] = (t, m)
@api
def PyErr_Format(rt, st, t, m, *a): st['err'] = (t, m)
@api
def PyErr_Occurred(rt, st): return st['err'] if st['err'] is None else PyNamed('err')
@api
def PyErr_Clear(rt, st): st['err'] = None
@api
def PyErr_ExceptionMatches(rt, st, t): return 1 if st['err'] is not None and issubclass(st['err'][0], t) else 0
def as_double(st, o):
    if isinstance(o, (bool, SB)): return tof(o)
    if isinstance(o, NUMS): return tof(o)
    fail(st, TypeError, "must be real number"); return -1.0
@api
def PyFloat_AsDouble(rt, st, o): return as_double(st, o)
@api
def PyFloat_FromDouble(rt, st, v): return tof(v)
def as_long(st, o, lo, hi):
    if isinstance(o, (bool, SB)): return b2i(o)
    if isinstance(o, (int, SI)):
        if isinstance(o, int): ok = lo <= o <= hi
        else: ok = bool(wb(z3.simplify(z3.And(o.t >= lo, o.t <= hi))))
        if ok: return o
        fail(st, OverflowError, "Python int too large to convert"); return -1
    fail(st, TypeError, "object cannot be interpreted as an integer"); return -1
@api
def PyLong_AsLong(rt, st, o): return as_long(st, o, *RANGES['long'])
@api
def PyLong_AsSsize_t(rt, st, o): return as_long(st, o, *RANGES['long'])
API['PyLong_AsLongLong'] = PyLong_AsLong
@api
def PyLong_FromLong(rt, st, v): return b2i(v) if isinstance(v, (bool, SB)) else v
for n in ('PyLong_FromSize_t', 'PyLong_FromLongLong', 'PyLong_FromSsize_t', 'PyLong_FromUnsignedLong'): API[n] = PyLong_FromLong
@api
def PyLong_FromVoidPtr(rt, st, p): return pid(p)
@api
def PyNumber_Float(rt, st, o):
    if isinstance(o, (bool, SB)) or isinstance(o, NUMS): return tof(o)
    if isinstance(o, str):
        try: return float(o)
        except ValueError: return fail(st, ValueError, "could not convert string to float")
    return fail(st, TypeError, "must be a string or a real number")
@api
def PyBool_FromLong(rt, st, v): return bool(v)
@api
def Py_BuildValue(rt, st, fmt, *a):
    f = fmt.replace('(', '').replace(')', '')
    if len(f) != len(a): unsup('Py_BuildValue(%r)' % fmt)
    def one(c, x):
        if c == 'd': return tof(x)
        if c in 'iln': return b2i(x) if isinstance(x, (bool, SB)) else x
        if c in 'sO': return x
        unsup('Py_BuildValue(%r)' % fmt)
    v = [one(c, x) for c, x in zip(f, a)]
    return v[0] if len(v) == 1 and '(' not in fmt else tuple(v)
def parse(rt, st, args, kwds, fmt, names, boxes):
    opt = False; i = 0; used = 0
    kw = dict(kwds or {})
    if len(args) > len(boxes): fail(st, TypeError, "too many arguments"); return 0
    for c in fmt:
        if c == '|': opt = True; continue
        if c in ':;': break
        b = boxes[i]; nm = names[i] if names else None
        if i < len(args):
            v = args[i]
            if nm and nm in kw: fail(st, TypeError, "argument given by name and position"); return 0
        elif nm and nm in kw: v = kw.pop(nm)
        elif opt: i += 1; continue
        else: fail(st, TypeError, "required argument missing"); return 0
        i += 1
        if c == 'd':
            v = as_double(st, v)
            if st['err'] is not None: return 0
        elif c in 'iln':
            v = as_long(st, v, *RANGES['int' if c == 'i' else 'long'])
            if st['err'] is not None: return 0
        elif c == 's':
            if not isinstance(v, str): fail(st, TypeError, "must be str"); return 0
        elif c == 'p': v = 1 if is_true(v) else 0
        elif c != 'O': unsup('argument format ' + fmt)
        b.v = v
    if kw: fail(st, TypeError, "invalid keyword argument"); return 0
    return 1
@api
def PyArg_ParseTuple(rt, st, args, fmt, *boxes): return parse(rt, st, args, None, fmt, None, boxes)
@api
def PyArg_ParseTupleAndKeywords(rt, st, args, kwds, fmt, names, *boxes):
    l = names.c if isinstance(names, ElemPlace) else names
    ns = [l[i] for i in range(l.size() if isinstance(l, Vec) else len(l))]
    if None not in ns: raise UndefinedBehaviour("keyword list without terminator")
    ns = ns[:ns.index(None)]
    nf = len([c for c in fmt.split(':')[0] if c not in '|'])
    if nf != len(ns):
        # the interpreter refuses the call: SystemError, "more argument specifiers than keyword list entries"
        fail(st, SystemError, "argument specifiers and keyword list differ"); return 0
    return parse(rt, st, args, kwds, fmt, ns, boxes)
API['_PyArg_ParseTuple_SizeT'] = PyArg_ParseTuple; API['_PyArg_ParseTupleAndKeywords_SizeT'] = PyArg_ParseTupleAndKeywords; API['_Py_BuildValue_SizeT'] = Py_BuildValue
@api
def Py_TYPE(rt, st, o): return PyTypeOf(o)
@api
def PyType_HasFeature(rt, st, t, bit):
    if not isinstance(t, PyTypeOf): unsup('PyType_HasFeature')
    f = FEATURE.get(bit)
    if f is None: unsup('type feature %r' % bit)
    return 1 if f(t.o) else 0
API['PyType_FastSubclass'] = PyType_HasFeature
@api
def Py_IS_TYPE(rt, st, o, t):
    if isinstance(t, PyNamed): return 1 if TYPES[t.n](o) else 0
    return 1 if obtype(o) is t else 0
@api
def PyObject_TypeCheck(rt, st, o, t): return Py_IS_TYPE(rt, st, o, t)
@api
def PyObject_IsInstance(rt, st, o, t): return 1 if (isinstance(o, CxxObject) and obtype(o) is t) else 0
@api
def PyCallable_Check(rt, st, o): return 1 if callable(o) and not isinstance(o, (Sym, CxxObject)) else 0
@api
def PyObject_IsTrue(rt, st, o): return 1 if is_true(o) else 0
@api
def PyObject_CallObject(rt, st, f, args):
    try: return topy(f(*[frompy(a) for a in (args or ())]))
    except Exception as ex:
        st['err'] = (ex, str(ex)); return None
@api
def PyUnicode_AsASCIIString(rt, st, o):
    if not o.isascii(): return fail(st, UnicodeEncodeError, "ascii")
    return o
API['PyUnicode_AsUTF8'] = lambda rt, st, o: o
@api
def PyBytes_AsString(rt, st, o): return o
@api
def PyUnicode_FromString(rt, st, o): return o
@api
def PyList_New(rt, st, n): return GList([None] * n) if isinstance(n, int) else GList(SSeq(n, lambda i: None))
@api
def PyList_SetItem(rt, st, l, i, v): l[i] = v; return 0
@api
def PyList_Append(rt, st, l, v): l.append(v); return 0
@api
def PyList_Size(rt, st, l): return l.length() if isinstance(l, GList) else rt.front.b_len(l)
@api
def PyList_GetItem(rt, st, l, i): return topy(l[i])
API['PyList_GET_ITEM'] = PyList_GetItem; API['PyList_GET_SIZE'] = PyList_Size
@api
def PyDict_New(rt, st): return {}
@api
def PyDict_SetItem(rt, st, d, k, v):
    if isinstance(k, Sym): unsup('dictionary with symbolic keys')
    d[k] = v; return 0
@api
def PyDict_SetItemString(rt, st, d, k, v): d[k] = v; return 0
@api
def PyDict_GetItemString(rt, st, d, k): return d.get(k)
@api
def PyDict_GetItem(rt, st, d, k): return d.get(k)
@api
def PyDict_Size(rt, st, d): return len(d)
@api
def PyDict_Next(rt, st, d, pos, k, v):
    l = list(d.items())
    if pos.v >= len(l): return 0
    k.v, v.v = topy(l[pos.v][0]), topy(l[pos.v][1]); pos.v = pos.v + 1
    return 1
@api
def PyTuple_New(rt, st, n): return (None,) * n
@api
def Py_INCREF(rt, st, o): return None
for n in ('Py_DECREF', 'Py_XDECREF', 'Py_XINCREF', '_Py_INCREF', '_Py_DECREF'): API[n] = Py_INCREF
@api
def Py_SET_REFCNT(rt, st, o, n): return None
@api
def Py_SET_TYPE(rt, st, o, t): vars(o)['ob_type'] = rt.st['classes'].get(id(t), t)
@api
def PyType_GenericNew(rt, st, t, a, k): return t.tp_alloc(t, 0)
@api
def PyType_Ready(rt, st, t):
    st['classes'][id(t)] = PyClass(t, rt); return 0
@api
def PyModule_Create2(rt, st, d, v):
    m = PyMod(d.m_name); st['making'] = m; return m
@api
def PyModule_AddObject(rt, st, m, n, o): m.d[n] = st['classes'].get(id(o), o); return 0
@api
def PyModule_GetDict(rt, st, m): return m.d
@api
def PyImport_ImportModule(rt, st, n): return st['import'](n)
@api
def PyCapsule_New(rt, st, p, n, d): return Capsule(p)
@api
def PyCapsule_GetPointer(rt, st, c, n): return c.p
@api
def PyObject_GetAttrString(rt, st, o, n):
    if isinstance(o, PyMod): return o.d[n] if n in o.d else fail(st, AttributeError, n)
    unsup('PyObject_GetAttrString')
@api
def PyObject_Str(rt, st, o): unsup('PyObject_Str')
def _call(rt, st, f, args):
    if isinstance(f, PyClass): return topy(f(*args))
    return _co(rt, st, f, args)
_co = API['PyObject_CallObject']
API['PyObject_CallObject'] = _call
def _abs(rt, st, x): return wrap(z3.If(x.t >= 0, x.t, -x.t)) if isinstance(x, Sym) else abs(x)
for n in ('abs', 'fabs', 'labs'): API[n] = _abs
API['sqrt'] = lambda rt, st, x: rt.front.math.sqrt(x)
API['pow'] = lambda rt, st, x, y: x ** (int(y) if isinstance(y, float) and y == int(y) else y)
API['max'] = lambda rt, st, a, b: ite(a < b, b, a) if isinstance(a < b, SB) else max(a, b)
API['min'] = lambda rt, st, a, b: ite(b < a, b, a) if isinstance(b < a, SB) else min(a, b)
API['move'] = lambda rt, st, x: x
API['make_pair'] = lambda rt, st, a, b: Pair(a, b)
API['swap'] = lambda rt, st, a, b: unsup('swap')

# ------------------------------------------------------------------ assembling the extension
INIT = {'xboa.core._weight_context': ('wc', 'PyInit__weight_context'), 'xboa.core._hitcore': ('hit', 'PyInit__hitcore'), 'xboa.core._bunchcore': ('bunch', 'PyInit__bunchcore')}

class CoreFam:
    """the hits of a bunch core of arbitrary length: every C++ field of hit i is an arbitrary function of i.  Hits are distinct objects."""
    dv_model = True
    def __init__(self, V, name, n, nulls=False):
        L = V.lib(); E = core.E
        self.V, self.name, self.n = V, name, n
        if not isinstance(n, int): E.assume(n < 2**60)          # max_size of the vector
        L.Bunchcore
        rt = self.rt = L.rts['bunch']
        HC = rt.cls('xboa::core::Hitcore')
        self.pyhc = L.Hitcore()
        obj = L.reach(self.pyhc, lambda o: isinstance(o, CxxObject) and type(o).cxx_name == HC.cxx_name)
        if obj is None: raise Unsupported("no Hitcore found behind the Python object")
        self.attr = {}
        for k, v in enumerate(coremodel.DOUBLES + ['local_weight'] + coremodel.INTS):
            mark = 1000 + k if v in coremodel.INTS else 1000.5 + k
            self.pyhc.set(v, mark)
            l = [f for f, x in vars(obj).items() if not isinstance(x, (Sym, CxxObject)) and x == mark and type(x) in (int, float)]
            if len(l) != 1: raise Unsupported("the field behind %s is not a plain member" % v)
            self.attr[v] = l[0]
        if len(set(self.attr.values())) != len(self.attr): raise Unsupported("two variables share a member")
        self.fields = {}; self.ints = set(coremodel.INTS)
        for v, f in self.attr.items():
            u = z3.Function('%s_%s' % (name, v), z3.IntSort(), z3.IntSort() if v in self.ints else z3.RealSort())
            self.fields[f] = self._mk(u, v)
        for f, x in vars(obj).items():
            if f not in self.fields and f not in ('ob_base', '_dv_pid'): raise Unsupported("unrecognised member %s of Hitcore" % f)
        self.orig = dict(self.fields)
        self.nulls = None
        if nulls:
            nu = z3.Function('%s_null' % name, z3.IntSort(), z3.BoolSort())
            self.nulls = lambda i: SB(nu(ti(i)))
        E.heap.append(self)
        # handles: every record of the family is referred to by at least this core
        self.rc = z3.Function('%s_refs' % name, z3.IntSort(), z3.IntSort())
        def model(m):
            nn = n if isinstance(n, int) else mval(m, ti(n)); out = []
            for i in range(min(nn, 12)):
                if self.nulls is not None and z3.is_true(m.eval(tb(self.nulls(i)), model_completion=True)): out.append(None); continue
                out.append({v: mval(m, self.old(v, i).t) for v in self.attr})
            return out
        E.inputs[name] = (model, 'bunch')
        # the core object itself
        self.bc = L.Bunchcore()
        SP = None
        vec = L.reach(self.bc, lambda o: isinstance(o, Vec) and 'SmartPointer' in o.elem)
        if vec is None: raise Unsupported("no vector of handles found inside a Bunchcore")
        SP = rt.cls(vec.elem)
        if SP is None or [t for f, t in SP.cxx_fields if t.rstrip().endswith('*')] == []: raise Unsupported("handle class of " + vec.elem)
        self.slot = [f for f, t in SP.cxx_fields if t.rstrip().endswith('*')][0]
        self.vec = vec; self.SP = SP
        self.view = view_class(SP, self.slot)
        vec.items = GList(SSeq(n, self.handle))
        vec.__class__ = PtrVec; vec.corefam = self
    def _mk(self, u, v):
        def fn(i):
            t = u(ti(i))
            if v in self.ints:
                E = core.E; k = ('cf', t.get_id())
                if k not in E.facts_ids:
                    E.facts_ids.add(k); E.keep.append(t); E.fact(z3.And(t >= INT_MIN, t <= INT_MAX))
                return SI(t)
            return SR(t)
        return fn
    def handle(self, i):
        o = self.SP.__new__(self.SP); vars(o)[self.slot] = SPtr(self, wrap(z3.simplify(ti(i)))); return o
    def rd(self, f, i): return self.fields[f](i)
    def wr(self, f, i, v):
        if f in [a for v_, a in self.attr.items() if v_ not in self.ints] and isinstance(v, (int, SI)): v = SR(tr(v))
        old = self.fields[f]
        self.fields[f] = lambda j, old=old, i=i, v=v: ite(ti(j) == ti(i), v, old(j))
    # --- for contracts
    def old(self, v, i): return self.orig[self.attr[v]](i)
    def get(self, v, i): return self.fields[self.attr[v]](i)
    def ident(self, i): return tuple(self.old(v, i) for v in ('spill', 'event_number', 'particle_number'))
    def null(self, i): return False if self.nulls is None else self.nulls(i)
    def hint(self, name, var, fn): self.V.prefixhint(name, fn, (self.name, self.attr[var]))
    def dv_cells(self, path): return [CoreCell(self, f, path + '.' + f) for f in list(self.fields)]
def view_class(SP, slot):
    """a handle stored in the vector: writing its pointer writes the vector"""
    def get(s): return s.dv_at()
    def put(s, p):
        o = SP.__new__(SP); vars(o)[slot] = p
        vars(s)['dv_vec'].items[vars(s)['dv_i']] = o
    def at(s):
        x = vars(s)['dv_vec'].items[vars(s)['dv_i']]
        return vars(x)[slot]
    return type(SP.__name__ + '_at', (SP,), {slot: property(get, put), 'dv_at': at, 'cxx_real': SP})
class PtrVec(Vec):
    def grow(self, n, m, v):
        """every new element is a copy of v: allowed when copying v has no effect at all"""
        z = self.rt.zero(self.elem) if v is None else v
        u = vars(self.rt.st['unique']); ms = [x for x in u.values() if isinstance(x, SMap)]; before = [list(x.w) for x in ms]
        c = self.rt.copy(z); slot = self.corefam.slot
        if vars(c)[slot] is not None or [list(x.w) for x in ms] != before: raise Unsupported("growing a vector of symbolic length with non-empty handles")
        old = self.items.seq()
        self.items = GList(SSeq(n, lambda j: old.fn(j) if core.E.fork(ti(j) < ti(m)) else self.rt.copy(z)))
    def get(self, i):
        x = self.items[i]
        if self.items.pre is None: return x
        v = self.corefam.view; o = v.__new__(v); vars(o).update(dv_vec=self, dv_i=i)
        return o
class CoreCell:
    kind = 'fam'; set = None
    def __init__(self, fam, f, key): self.fam, self.f, self.key = fam, f, key; self.fam_target = (fam.name, f)
    def get(self): return self.fam.fields[self.f]
    def install(self, h, k, v0, tid):
        from .famodel import FamCell
        if tid == 'famhavoc':
            E = core.E; old = v0(SI(0))
            u = z3.Function(E.fresh_name('hv_' + self.f), z3.IntSort(), z3.IntSort() if isinstance(old, SI) else z3.RealSort())
            E.tainted = True; E.notes.add('havoc field ' + self.f)
            self.fam.fields[self.f] = lambda j: wrap(u(ti(j))); return None
        return FamCell.install(self, h, k, v0, tid)
    def check(self, h, k, v0, tid, aux):
        from .famodel import FamCell
        return FamCell.check(self, h, k, v0, tid, aux)

class Handles:
    """the reference counts of all records of a kind: live(r) handles exist on record r, for every address r"""
    dv_model = True
    def __init__(self, V, name, what, units):
        self.L = L = V.lib(); self.V = V; E = core.E
        for u in units: getattr(L, u)
        self.what = what; self.refs = find_refs(L, what)
        self.N = z3.Function(E.fresh_name(name + '_live'), z3.IntSort(), z3.IntSort())
        self.refs.p0 = lambda k: SB(z3.And(ti(k[0]) > 0, self.N(ti(k[0])) >= 1)); self.refs.v0 = lambda k: SI(self.N(ti(k[0])))
    def known(self, r): pass
    def live(self, r): return SI(self.N(ti(r)))
    def count(self, r):
        """(present, number) recorded now for record r"""
        p, v = self.refs.lookup((r,)); p = z3.BoolVal(p) if isinstance(p, bool) else p
        return SB(p), v
    def gone(self, r): return wrap(z3.simplify(ti(self.L.st['unique'].dv_gone.lookup((r,))[1])))
    def fresh(self, r): return isinstance(r, int) and r < 0
    def made(self):
        """addresses of the records made on this path that are recorded now, or may be"""
        return sorted({k[0] for k, p, v in self.refs.w if isinstance(k[0], int) and k[0] < 0 and self.refs.lookup(k)[0] is not False})
    def recorded(self, d):
        """of the records made on this path exactly those in d = {address: count} are recorded"""
        c = []
        for a in set(self.made()) | set(d):
            p, v = self.refs.lookup((a,)); p = z3.BoolVal(p) if isinstance(p, bool) else p
            c.append(z3.And(p, ti(v) == d[a]) if a in d else z3.Not(p))
        return wb(z3.simplify(z3.And(c))) if c else True
    def now(self): return {a: self.refs.lookup((a,))[1] for a in self.made()}
    # --- handles
    def ishandle(self, x): return isinstance(x, CxxObject) and 'SmartPointer' in type(x).cxx_name and self.what in type(x).cxx_name
    def slot_of(self, h):
        l = [f for f, t in type(h).cxx_fields if t.rstrip().endswith('*')]
        if len(l) != 1: raise Unsupported("handle class " + type(h).cxx_name)
        return l[0]
    def handle_of(self, o):
        h = self.L.reach(o, self.ishandle)
        if h is None: raise Unsupported("no handle found behind a Python object")
        return h
    def target(self, o):
        """identity of the record a Python object refers to"""
        h = self.handle_of(o); p = pid(vars(h)[self.slot_of(h)]); return wrap(p) if not isinstance(p, int) else p
    def wrapper(self, cls, p):
        """a Python object that refers to record p"""
        o = cls(); h = self.handle_of(o); f = self.slot_of(h); was = pid(vars(h)[f])
        vars(h)[f] = IPtr(ti(p)); self.refs.w = [x for x in self.refs.w if x[0] != (was,)]
        return o
    def statics(self):
        """the handles that global variables hold"""
        out = []; seen = set()
        def walk(o, d):
            if id(o) in seen or d > 6: return
            seen.add(id(o))
            if isinstance(o, CxxObject) and self.ishandle(o): out.append(o); return
            if isinstance(o, (CxxObject, Globals, Unique)):
                for k, x in list(vars(o).items()):
                    if k not in ('ob_type', 'ob_base', '_dv_u', '_dv_shared', 'dv_gone'): walk(x, d + 1)
        for m in self.L.mods.values(): walk(m.G, 0)
        walk(self.L.st['unique'], 0)
        return out
    def point(self, h, p):
        """precondition: handle h refers to record p"""
        f = self.slot_of(h); was = pid(vars(h)[f]) if not isinstance(vars(h)[f], Poison) else 0
        vars(h)[f] = IPtr(ti(p)); self.refs.w = [x for x in self.refs.w if x[0] != (was,)]
    def pointee(self, h):
        p = pid(vars(h)[self.slot_of(h)]); return wrap(p) if not isinstance(p, int) else p
    def drop(self, o):
        """the interpreter gives back a Python object nobody refers to"""
        o.ob_type.ts.tp_dealloc(o)
    # --- the handle class itself
    def cls(self):
        for u, rt in self.L.rts.items():
            for c in rt.ns.get('__classes', ()):
                if 'SmartPointer' in c.cxx_name and self.what in c.cxx_name and getattr(c, 'cxx_assign', None) and getattr(c, 'cxx_dtor', None) and getattr(c, 'cxx_copyctor', None): return rt, c
        raise Unsupported("no complete handle class of " + self.what)
    def make(self, p):
        """precondition: a handle that refers to record p"""
        rt, c = self.cls(); o = c.__new__(c); vars(o)[[f for f, t in c.cxx_fields if t.rstrip().endswith('*')][0]] = IPtr(ti(p)); return o
    def copy(self, h): return self.cls()[0].copy(h)
    def assign(self, h, g): self.cls()[0].assign(h, g) if h is not g else type(h).cxx_assign(h, h)
    def destroy(self, h): self.cls()[0].destroy(h)
    def raw(self, p): return IPtr(ti(p))
    def find(self, name, sig=None):
        for tu, r in self.L.rts.items():
            for x in self.L.unit(tu).FUNCTIONS:
                if 'SmartPointer' in x[0] and x[0].split('::')[-1] == name and len(x) > 5 and x[5] and (sig is None or sig in x[2]):
                    c = r.ns[x[5]]
                    if 'SmartPointer' in c.cxx_name and self.what in c.cxx_name: return r, c, r.ns[x[1]]
        return None
    def construct(self, p):
        x = self.find('SmartPointer', '%s *)' % self.what)
        if x is None: raise PathEnd()       # not used for this kind of record
        return x[0].new(x[1], x[2], self.raw(p))
    def set(self, h, p):
        x = self.find('set')
        if x is None: raise PathEnd()
        x[2](h, self.raw(p))
class HandleCore(Handles):
    """a core of n entries holding arbitrary pointers (null, repeated, or shared with handles elsewhere) and the reference counts of all
    records: live(r) handles exist on record r, of which occ(n, r) are entries of this core"""
    def __init__(self, V, name, n):
        Handles.__init__(self, V, name, 'Hitcore', ['Bunchcore'])
        L, E = self.L, core.E
        rt = self.rt = L.rts['bunch']; self.n = n
        if not isinstance(n, int): core.E.assume(n < 2**60)
        I = z3.IntSort()
        self.P = z3.Function(E.fresh_name(name + '_ptr'), I, I)
        self.occ = V.fold(name + '_occ', 0, lambda a, i, r: ite(self.P(ti(i)) == ti(r), a + 1, a), nparams=1, sort='I', hint=False)
        self.bc = L.Bunchcore()
        vec = L.reach(self.bc, lambda o: isinstance(o, Vec) and 'SmartPointer' in o.elem)
        if vec is None: raise Unsupported("no vector of handles found inside a Bunchcore")
        SP = self.SP = rt.cls(vec.elem); self.slot = [f for f, t in SP.cxx_fields if t.rstrip().endswith('*')][0]
        self.view = view_class(SP, self.slot); self.vec = vec
        vec.items = GList(SSeq(n, lambda i: self.handle(IPtr(z3.simplify(self.P(ti(i)))))))
        vec.__class__ = PtrVec; vec.corefam = self
        # 0 <= occ(i, r) and occ(i+1, r) <= occ(n, r) for every i < n: proved once for an arbitrary i and r, then used everywhere
        a, r = V.integer(name + '_a'), V.integer(name + '_r')
        c = E.choose(3)
        if c == 0:
            V.assume(a >= 0)
            V.induct('occurrences-not-negative', a, lambda k: self.occ.at(k, r) >= 0, params=(r,))
            E.check('occurrences-not-negative.use', self.occ.at(a, r) >= 0); raise PathEnd()
        if c == 1:
            V.assume(V.and_(a >= 0, a < n))
            V.induct('occurrences-grow', n, lambda k: self.occ.at(k, r) >= self.occ.at(a + 1, r), lo=a + 1, params=(r,))
            E.check('occurrences-grow.use', self.occ.at(n, r) >= self.occ.at(a + 1, r)); raise PathEnd()
    def at(self, i): return SI(self.P(ti(i)))
    def known(self, r):
        """the invariant, at record r: the entries of this core are among its live handles"""
        E = core.E; r = ti(r)
        E.fact(z3.Implies(r > 0, z3.And(self.N(r) >= self.occ.at(self.n, SI(r)).t, self.occ.at(self.n, SI(r)).t >= 0)))
    def entry(self, i):
        """facts at entry i"""
        E = core.E; i = ti(i); r = SI(z3.simplify(self.P(i)))
        E.fact(self.P(i) >= 0); self.known(r); self.occ.inst(SI(i), [r])
        E.fact(z3.Implies(z3.And(i >= 0, i < ti(self.n)), z3.And(self.occ.at(self.n, r).t >= self.occ.at(SI(i + 1), r).t, self.occ.at(SI(i), r).t >= 0)))
    def step(self, k, r):
        """the recurrence of occ just before and after k, at record r"""
        self.known(r)
        for j in (k - 1, k):
            if isinstance(j, int) and j < 0: continue
            self.occ.inst(j, [r]); self.entry(j)
    def handle(self, p):
        o = self.SP.__new__(self.SP); vars(o)[self.slot] = p; return o
    def entries(self): return self.vec.items.length()
    def pointer(self, i):
        p = pid(vars(self.vec.items[i])[self.slot]); return wrap(p) if not isinstance(p, int) else p
def find_refs(L, what):
    for x in [L.st['unique']] + [m.G for m in L.mods.values()]:
        for n, v in vars(x).items():
            if isinstance(v, SMap) and v.kt.rstrip().endswith(what + ' *'): return v
    raise Unsupported("no map of reference counts of %s found" % what)

class Lib:
    """the three extension modules, initialised by their translated PyInit functions"""
    def __init__(self, front):
        self.front = front
        self.st = {'err': None, 'temps': [], 'classes': {}, 'import': self.imp, 'unique': Unique()}
        core.E.heap.append(self.st['unique'])
        self.mods = {}; self.rts = {}; self.pym = {}
    def unit(self, tu):
        if tu not in self.mods:
            rt = Runtime(self.front, tu, self.st); self.rts[tu] = rt
            if not hasattr(self.st['unique'], 'dv_gone'):
                g = SMap(rt, 'ghost *', 'int'); g.p0 = lambda k: True; g.v0 = lambda k: 0; self.st['unique'].dv_gone = g
            stub = types.ModuleType('dvcxx'); stub.__dict__.update(rt.names())
            self.front.stubs['dvcxx'] = stub
            self.front.mods.pop('xboa.core.cxx_' + tu, None)
            self.mods[tu] = self.front.load('xboa.core.cxx_' + tu)
        return self.mods[tu]
    def imp(self, name):
        if name not in self.pym:
            tu, init = INIT[name]
            m = self.unit(tu)
            f = self.fn(tu, init)
            r = f()
            if r is None: raise RuntimeError("initialisation of %s failed: %s" % (name, self.st['err']))
            self.pym[name] = r
        return self.pym[name]
    def fn(self, tu, name, nth=0):
        m = self.unit(tu)
        l = [x for x in m.FUNCTIONS if x[0].split('::')[-1] == name or x[0].endswith('::' + name)]
        if not l: raise Unsupported("no function %s in unit %s" % (name, tu))
        return getattr(m, l[nth][1])
    WeightContext = property(lambda s: s.imp('xboa.core._weight_context').d['WeightContext'])
    Hitcore = property(lambda s: s.imp('xboa.core._hitcore').d['Hitcore'])
    Bunchcore = property(lambda s: s.imp('xboa.core._bunchcore').d['Bunchcore'])
    # ---- finding data inside the objects
    def reach(self, o, test, seen=None, d=0):
        seen = seen if seen is not None else set()
        if id(o) in seen or d > 8: return None
        seen.add(id(o))
        if test(o): return o
        if isinstance(o, (CxxObject, Globals)):
            for k, x in vars(o).items():
                if k in ('ob_type', 'ob_base', '_dv_u', '_dv_shared'): continue
                r = self.reach(x, test, seen, d + 1)
                if r is not None: return r
        return None
