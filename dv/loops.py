"""The loop rule: cut a loop at its head, replace the state by candidate invariants (Houdini over the contract's hints)."""
import sys, z3
from . import core
from .core import *
from .seqs import *

class Poison(Sym):
    """value left undetermined by the loop rule; any use is outside the verifier's reach"""
    __hash__ = None
    def _no(self, *a, **k): raise Unsupported("value with no loop invariant used")
    __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __setitem__ = __len__ = __iter__ = __call__ = __neg__ = __pow__ = _no
    def __getattr__(self, n): raise Unsupported("value with no loop invariant used")
    def __deepcopy__(self, memo): return self

class Hint:
    """candidate invariant for a numeric cell: value after k iterations"""
    def __init__(self, name, fn, fold=None): self.name = name; self.fn = fn; self.fold = fold
class ListHint:
    """candidate for a list built by appending: element i is fn(i) (kept only when pred(i))"""
    def __init__(self, name, fn, pred=None): self.name = name; self.fn = fn; self.pred = pred
class PrefixHint:
    """candidate for in-place update of position j (j < k processed): new value fn(j)"""
    def __init__(self, name, fn, target=None): self.name = name; self.fn = fn; self.target = target

class MapHint:
    """candidate for a list built by appending while a sequence is iterated: element i is fn(element i of that sequence)"""
    def __init__(self, name, fn): self.name = name; self.fn = fn

class FSeq(Sym):
    """filtered map over a base sequence: [f(base[i]) for i < n if cond(i)]"""
    __hash__ = object.__hash__
    def __init__(self, n, fn, cond): self.base_n = n; self.fn = fn; self.cond = cond; self._len = None
    def dv_len(self):
        if self._len is None:
            n = core.E.fresh_int('flen'); core.E.assume(z3.And(n >= 0, n <= ti(self.base_n)))
            self._len = SI(n)
            core.E.demand(lambda i: core.E.fact(z3.Implies(z3.And(i >= 0, i < ti(self.base_n), tb(self.cond(SI(i)))), n > 0)))
        return self._len
    def __bool__(self): return bool(self.dv_len() > 0)
    def __iter__(self): raise Unsupported("native iteration over a filtered symbolic sequence")
    def __len__(self): raise Unsupported("len of filtered sequence")

def extreme(seq, which):
    """model of the builtin min/max over a sequence of symbolic length: a bound of every element, attained by one of them"""
    E = core.E
    if isinstance(seq, HList) and seq.hint.pred is not None:
        if seq.p0 is not None or seq.t0: raise Unsupported("min/max of a partly filtered list")
        n, fn, pred, cnt = seq.k, seq.hint.fn, seq.hint.pred, SI(seq.fcount)
    elif isinstance(seq, FSeq): n, fn, pred, cnt = seq.base_n, seq.fn, seq.cond, seq.dv_len()
    else: n, fn, pred, cnt = seq.n, seq.fn, None, seq.n
    if not bool(SB(ti(cnt) > 0)): raise ValueError("%s() iterable argument is empty" % which)
    w = E.fresh_int('ext'); E.assume(z3.And(w >= 0, w < ti(n)))
    if pred is not None:
        p = pred(SI(w))
        E.assume(tb(p) if isinstance(p, Sym) else z3.BoolVal(bool(p)))
    e = fn(SI(w))
    if not isnumlike(e): raise Unsupported("min/max of non-numbers")
    r = tr(e)
    def d(i):
        x = tr(fn(SI(i))); c = [i >= 0, i < ti(n)]
        if pred is not None:
            p = pred(SI(i)); c.append(tb(p) if isinstance(p, Sym) else z3.BoolVal(bool(p)))
        E.fact(z3.Implies(z3.And(c), r <= x if which == 'min' else r >= x))
    E.demand(d)
    E.instantiate(w)
    return e

class ListState:
    """content of a list under a ListHint template"""
    def __init__(self, hint, k, pre, tail): self.hint, self.k, self.pre0, self.tail0 = hint, k, pre, tail

class HList(SSeq):
    """prefix sequence installed by the loop rule for a list under construction"""
    def __init__(self, pre, tail, hint, k, off=0):
        self.p0, self.t0, self.hint, self.k = pre, tail, hint, k
        if hint.pred is None:
            base = GList(); base.pre = pre; base.tail = list(tail)
            L0 = base.length(); bs = base.seq() if not (pre is None and not tail) else None
            if isinstance(L0, int) and L0 == 0:
                SSeq.__init__(self, wrap(ti(k)) , lambda i: hint.fn(i), None)
            else:
                SSeq.__init__(self, wrap(ti(k) + ti(L0)), lambda i: bs.fn(i) if core.E.fork(ti(i) < ti(L0)) else hint.fn(i - L0), None)
        else:
            n = core.E.fresh_int('flen'); core.E.assume(z3.And(n >= 0, n <= ti(k)))
            self.fcount = n
            core.E.demand(lambda i, n=n: core.E.fact(z3.Implies(z3.And(i >= 0, i < ti(self.k), tb(hint.pred(SI(i)))), n > 0)))
            SSeq.__init__(self, SI(n), self._fat, None)
            self.fmemo = {}
    def _fat(self, i):
        # element i of the filtered list: some base index whose predicate holds (order preserved, contract only)
        key = z3.simplify(ti(i)).get_id()
        if key not in self.fmemo:
            j = core.E.fresh_int('fidx')
            core.E.assume(z3.And(j >= 0, j < ti(self.k), j >= ti(i)))
            if not bool(self.hint.pred(SI(j))): raise PathEnd()
            self.fmemo[key] = (j, ti(i))
        return self.hint.fn(SI(self.fmemo[key][0]))

class CompList(HList):
    """list made by a comprehension with a condition"""
    def as_fseq(self):
        f = FSeq(self.k, self.hint.fn, self.hint.pred); f._len = SI(self.fcount); return f

class KDict(dict):
    """a dictionary with symbolic keys, tracked at one arbitrary key (E.ghostkey); the contents at other keys are not tracked"""
    dv_kdict = True
    __hash__ = object.__hash__
    def __init__(self): dict.__init__(self); self.present = False; self.slot = None; self.other = None
    def _is(self, k):
        K = core.E.ghostkey[0]
        if isinstance(k, Sym) or isinstance(K, Sym):
            if isnumlike(k) and isnumlike(K): return bool(SB(tr(k) == tr(K)))
            return False
        return k == K
    def _sym(self, k): return isinstance(k, (SI, SR))
    def __contains__(self, k):
        if not self._sym(k) and not dict.__len__(self) == 0: return dict.__contains__(self, k)
        if self._is(k): return bool(self.present)
        return core.E.choose(2) == 0
    def __getitem__(self, k):
        if dict.__len__(self) and not self._sym(k): return dict.__getitem__(self, k)
        if self._is(k):
            if not bool(self.present): raise KeyError(k)
            return self.slot
        if self.other is None: self.other = core.E.ghostkey[1]()
        return self.other
    def get(self, k, d=None): return self[k] if k in self else d
    def setdefault(self, k, d=None):
        if k in self: return self[k]
        self[k] = d; return d
    def __setitem__(self, k, v):
        if not self._sym(k) and not isinstance(core.E.ghostkey[0], Sym): dict.__setitem__(self, k, v); return
        if self._is(k): self.present = True; self.slot = v
        else: self.other = v
    def dv_cells(self, path): return [KCell(self, path)]
    def dv_len(self): raise Unsupported("size of a dictionary with symbolic keys")
    def _no(self, *a): raise Unsupported("iteration over a dictionary with symbolic keys")
    __iter__ = __len__ = __delitem__ = pop = keys = values = items = _no

class KCell:
    """hint: object with .make(k) -> (present, value) and .same(value, k, installed) -> bool"""
    kind = 'fam'; set = None; fam_target = 'kdict'
    def __init__(self, d, key): self.d = d; self.key = key + '{K}'
    def get(self): return (self.d.present, self.d.slot)
    def base_ok(self, h): return self.d.present is False
    def install(self, h, k, v0, tid):
        if tid == 'famhavoc': raise Unsupported("dictionary with symbolic keys without invariant")
        self.d.other = None
        self.d.present, self.d.slot = h.fn.make(wrap(z3.simplify(ti(k))))
        return (self.d.present, self.d.slot)
    def check(self, h, k, v0, tid, aux):
        if tid == 'same': return self.d.present is v0[0] and self.d.slot is v0[1]
        ok = h.fn.same(self.d, SI(k), aux); core.E.inv_checked += ok; return ok

def same_val(a, b):
    """provably equal?"""
    if a is b: return True
    if isinstance(a, Poison) or isinstance(b, Poison): return False
    if isnumlike(a) and isnumlike(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym): return a == b
        if isinstance(a, (SI, int)) and isinstance(b, (SI, int)): t = ti(a) == ti(b)
        else: t = tr(a) == tr(b)
        return core.E.prove(t, 1500)[0] == 'proved'
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        if not isinstance(a, Sym) and not isinstance(b, Sym): return a == b
        return core.E.prove(tb(a) == tb(b), 1500)[0] == 'proved'
    if isinstance(a, (GList, list)) and isinstance(b, (GList, list)):
        pa, pb = as_parts(a), as_parts(b)
        if pa[0] is None and pb[0] is None:
            return len(pa[1]) == len(pb[1]) and all(same_val(x, y) for x, y in zip(pa[1], pb[1]))
        return pa[0] is pb[0] and len(pa[1]) == len(pb[1]) and all(same_val(x, y) for x, y in zip(pa[1], pb[1]))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if hasattr(a, '_Hit__hitcore') and hasattr(b, '_Hit__hitcore'): return same_val(a._Hit__hitcore, b._Hit__hitcore)
    eqh = getattr(a, 'dv_same', None)
    if eqh is not None: return eqh(b)
    if type(a) is type(b) and isinstance(a, (str, bool, type(None))): return a == b
    if hasattr(a, 'dtype') and hasattr(b, 'dtype') and getattr(a, 'shape', None) == getattr(b, 'shape', 0):
        return all(same_val(x, y) for x, y in zip(a.flat, b.flat))
    return False

# ---------------------------------------------------------------- cells
class Cell:
    def __init__(self, key, get, set, kind='val'): self.key, self.get, self.set, self.kind = key, get, set, kind

def attr_cells(o):
    return list(vars(o).items()) if hasattr(o, '__dict__') else []

def walk(roots, extra):
    """mutable places reachable from the frame"""
    cells = []; seen = set(); n = [0]
    def rec(path, o, d):
        if n[0] > 4000 or d > 6: return
        if o is None or isinstance(o, (int, float, str, bool, SR, SI, SB, type)): return
        if id(o) in seen: return
        seen.add(id(o)); n[0] += 1
        if isinstance(o, GList):
            cells.append(Cell(path + '[]', lambda: (o.pre, list(o.tail)), o, 'list'))
            for i, x in enumerate(o.tail): rec('%s[%d]' % (path, i), x, d + 1)
            return
        if isinstance(o, SSeq): return
        if hasattr(o, 'dv_kdict'):
            for c in o.dv_cells(path): cells.append(c)
            return
        if isinstance(o, dict):
            cells.append(Cell(path + '{}', lambda: dict(o), o, 'dict'))
            for k, x in list(o.items())[:200]: rec('%s{%s}' % (path, k), x, d + 1)
            return
        if isinstance(o, (list, tuple)):
            if isinstance(o, list): cells.append(Cell(path + '<>', lambda: list(o), o, 'plist'))
            for i, x in enumerate(o[:50]): rec('%s<%d>' % (path, i), x, d + 1)
            return
        if hasattr(o, 'dv_cells'):
            for c in o.dv_cells(path): cells.append(c)
            return
        if hasattr(o, 'dtype') and hasattr(o, 'flat'):
            if getattr(o, 'dtype', None) == object:
                cells.append(Cell(path + 'np', lambda: list(o.flat), o, 'np'))
            return
        m = getattr(type(o), '__module__', '')
        if m.startswith('xboa') or getattr(type(o), 'dv_model', False):
            if hasattr(o, '__dict__'):
                cells.append(Cell(path + '.', lambda: dict(vars(o)), vars(o), 'dict'))
                for k, x in list(vars(o).items()): rec('%s.%s' % (path, k), x, d + 1)
            for c in type(o).__mro__:
                sl = c.__dict__.get('__slots__', ())
                for s in ([sl] if isinstance(sl, str) else sl):
                    nm = s if not s.startswith('__') or s.endswith('__') else '_%s%s' % (c.__name__.lstrip('_'), s)
                    if hasattr(o, nm): rec('%s.%s' % (path, nm), getattr(o, nm), d + 1)
            return
    for k, v in roots: rec(k, v, 0)
    for i, o in enumerate(extra): rec('heap%d' % i, o, 0)
    return cells

def cell_same(c, v):
    cur = c.get()
    if c.kind == 'list': return cur[0] is v[0] and len(cur[1]) == len(v[1]) and all(x is y for x, y in zip(cur[1], v[1]))
    if c.kind == 'dict': return len(cur) == len(v) and all(k in v and v[k] is x for k, x in cur.items())
    if c.kind in ('plist', 'np'): return len(cur) == len(v) and all(x is y for x, y in zip(cur, v))
    if isinstance(cur, tuple) and isinstance(v, tuple) and len(cur) == len(v):
        return all(x is y or isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(p is q or p == q for p, q in zip(x, y)) for x, y in zip(cur, v))
    return cur is v

def cell_put(c, v):
    o = c.set
    if c.kind == 'list': o.pre, o.tail = v[0], list(v[1])
    elif c.kind == 'dict': o.clear(); o.update(v)
    elif c.kind == 'plist': o[:] = v
    elif c.kind == 'np':
        for j, x in enumerate(v): o.flat[j] = x
    elif hasattr(c, 'put'): c.put(v)
    else: raise Unsupported("state restored for a comprehension")

class Then:
    """the state in which a comprehension was evaluated: its elements, computed when they are asked for, see that state"""
    def __init__(self, locs):
        self.cells = [(c, c.get()) for c in walk([(k, v) for k, v in locs.items() if k != 'dv__'], core.E.heap)]
    def changed(self): return [(c, v, c.get()) for c, v in self.cells if not cell_same(c, v)]
    def fn(self, f):
        memo = {}
        def at(i):
            key = i if isinstance(i, int) else z3.simplify(ti(i)).get_id()
            if key in memo: return memo[key][0]
            ch = self.changed()
            for c, v, now in ch: cell_put(c, v)
            try: r = f(i)
            finally:
                for c, v, now in ch: cell_put(c, now)
            r = frozen(r); memo[key] = (r, None if isinstance(i, int) else z3.simplify(ti(i)))
            return r
        return at

def frozen(r):
    """an object made by a comprehension over a symbolic sequence: any place of the list may hold it, so it may not be modified"""
    if type(r) is GList: r.__class__ = FrozenList
    h = getattr(r, '_Hit__hitcore', None); st = getattr(h, 'store', None)
    if st is not None and type(st).__name__ == 'Store': st.__class__ = st.frozen
    return r

class FrozenList(GList):
    def _no(self, *a, **k): raise Unsupported("modification of a list held by a list of symbolic length")
    __setitem__ = __delitem__ = append = extend = insert = pop = remove = reverse = sort = __iadd__ = _set = clear = _no

class State:
    pass

class LoopRule:
    """one activation of a cut loop"""
    def __init__(self, rt, lid, frame, n, elem, names, tnames, while_=False):
        self.rt, self.lid, self.n, self.elem, self.names, self.tnames = rt, lid, n, elem, names, tnames
        self.while_ = while_; self.mode = None; self.vals = {}
        c = rt.ordinal.get(lid, 0); rt.ordinal[lid] = c + 1
        self.key = (lid, c) + callchain(frame) + tuple(e.lid for e in core.E.loopstack)
        self.seen_names = None
    # --- templates for one numeric cell
    def candidates(self, ck, v0):
        E = core.E
        out = [('same', lambda k: v0, None)]
        if isnumlike(v0) and not isinstance(v0, bool):
            ks = [e.k for e in E.loopstack if e.k is not None]
            for h in E.hints:
                if not isinstance(h, Hint): continue
                for s in ((0, 1, 2) if not self.while_ else (0, 1)):
                    if h.fold is not None:
                        f = h.fold
                        if not f.pint:
                            for lab, ps in list(f.used.items()):
                                out.append(('%s@%d(%s)' % (h.name, s, lab), (lambda k, f=f, ps=ps, s=s: f.at(wrap(z3.simplify(ti(k) + s)), *[SR(p) for p in ps])), (f, ps, s)))
                            continue
                        if f.np > len(ks): continue
                        import itertools
                        for ps in itertools.permutations(ks, f.np):
                            out.append(('%s@%d(%s)' % (h.name, s, ','.join(map(str, ps))), (lambda k, f=f, ps=ps, s=s: f.at(wrap(z3.simplify(ti(k) + s)), *[SI(p) for p in ps])), (f, ps, s)))
                    else:
                        out.append(('%s@%d' % (h.name, s), (lambda k, h=h, s=s: h.fn(wrap(z3.simplify(ti(k) + s)))), ('h', h, s)))
            if isinstance(v0, (int, SI)):
                for c in (1, -1, 2): out.append(('cnt%+d' % c, lambda k, c=c: wrap(z3.simplify(ti(v0) + c * ti(k))), None))
            def hv(k, v0=v0):
                E.tainted = True; E.notes.add('havoc %s %s' % (self.lid, ck))
                if isinstance(v0, (int, SI)) and (self.key, ck, 'intsort') not in E.refuted: return SI(E.fresh_int('hv'))
                return SR(E.fresh_real('hv'))
            out.append(('havoc', hv, 'havoc'))
        elif isinstance(v0, (bool, SB)):
            def hb(k):
                E.tainted = True; E.notes.add('havoc %s %s' % (self.lid, ck))
                return SB(E.fresh_bool('hvb'))
            out.append(('havoc', hb, 'havoc'))
        out.append(('poison', lambda k: Poison(), 'poison'))
        return out
    def pick(self, ck, v0):
        E = core.E
        cands = self.candidates(ck, v0); pref = E.prefer.get((self.key, ck))
        if pref: cands.sort(key=lambda c: (c[0] != 'same', c[0] not in pref, c[0] in ('havoc', 'poison')))
        for tid, at, aux in cands:
            key = (self.key, ck, tid)
            if key in E.refuted: continue
            if tid != 'same' and pref is None and E.fast and isnumlike(v0) and not isinstance(v0, bool) and len(cands) > 4:
                # an arbitrary value first, to see what an iteration does with it
                E.probing.add((self.key, ck)); E.probed = True
                return 'probe', lambda k: SI(E.fresh_int('pr')) if isinstance(v0, (int, SI)) else SR(E.fresh_real('pr')), None
            if tid in ('same', 'havoc', 'poison') or tid.startswith('cnt'): return tid, at, aux
            bk = (tuple(E.prefix[:E.pos]), key)
            if bk in E.basecache: ok = E.basecache[bk]
            else:
                p0 = E.pos
                try: ok = same_val(at(0), v0)
                except (PathEnd, ZeroDivisionError): ok = False
                # decisions taken while evaluating belong to the path: only decision-free answers are remembered
                if E.pos == p0: E.basecache[bk] = ok
            if ok: return tid, at, aux
        raise Unsupported("no invariant candidate left for %s in %s" % (ck, self.lid))
    def pick_list(self, ck, o, v0):
        E = core.E
        cands = [('same', None)]
        if v0[0] is None: cands.append(('elems', None))
        for h in E.hints:
            if isinstance(h, ListHint): cands.append(('list:' + h.name, h))
        for h in E.hints:
            if isinstance(h, PrefixHint) and h.target is None: cands.append(('pre:' + h.name, h))
        if isinstance(self.elem, SSeq):
            for h in E.hints:
                if isinstance(h, MapHint): cands.append(('list:map:' + h.name, ListHint(h.name, lambda i, h=h: h.fn(self.elem.fn(i)))))
        for x, L in self.listlocals:
            for h in E.hints:
                if isinstance(h, MapHint): cands.append(('list:map:%s:%s' % (h.name, x), ListHint(h.name, lambda i, h=h, L=L: h.fn(L.fn(i)))))
        for tid, h in cands:
            if (self.key, ck, tid) not in E.refuted: return tid, h
        raise Unsupported("no list invariant for %s in %s" % (ck, self.lid))
    # --- entry
    def enter_while(self, locs): return self.enter(locs, 0)
    def enter(self, locs, mode=None):
        E = core.E
        self.k = None
        self.frame_locals_entry = {x: locs[x] for x in self.names if x in locs}
        roots = [(k, v) for k, v in locs.items() if k != 'dv__']
        cells = walk(roots, E.heap)
        self.listlocals = [(x, L.seq()) for x, L in locs.items() if isinstance(L, GList) and L.pre is not None and any(isinstance(h, MapHint) for h in E.hints)]
        self.cells = []
        ctx = tuple(E.prefix[:E.pos])
        if mode is None: mode = E.choose(2)
        E.loops[self.lid] = E.loops.get(self.lid, 0) + 1
        if mode == 0:
            k = E.fresh_int('k')
            E.assume(z3.And(k >= 0, k < ti(self.n)) if self.n is not None else k >= 0)
            if not E.feasible():
                E.inv_body.add((self.key, ctx))      # no iteration at all: any invariant is preserved
                raise PathEnd()
        else:
            if self.n is None: raise Unsupported("loop without bound")
            k = ti(self.n)
            E.assume(k >= 0)
            if not E.feasible(): raise PathEnd()
        kk = wrap(z3.simplify(k))
        self.k = k; self.mode = mode
        # choose templates
        for x, v0 in self.frame_locals_entry.items():
            tid, at, aux = self.pick('L:' + x, v0)
            self.cells.append(['num', 'L:' + x, x, tid, at, aux, v0])
        for c in cells:
            if c.kind == 'fam' and hasattr(c, 'loop'): c.loop = self
            v0 = c.get()
            if c.kind == 'list':
                tid, h = self.pick_list(c.key, c.set, v0)
                self.cells.append(['list', c.key, c.set, tid, h, None, v0])
                if tid == 'elems':
                    for i, x in enumerate(v0[1]):
                        t2, at, aux = self.pick('%s[%d]' % (c.key, i), x)
                        self.cells.append(['lelem', '%s[%d]' % (c.key, i), (c.set, i), t2, at, aux, x])
            elif c.kind == 'dict':
                self.cells.append(['dict', c.key, c.set, 'keys', None, None, v0])
                for kx, x in v0.items():
                    t2, at, aux = self.pick('%s{%s}' % (c.key, kx), x)
                    self.cells.append(['delem', '%s{%s}' % (c.key, kx), (c.set, kx), t2, at, aux, x])
            elif c.kind == 'plist':
                self.cells.append(['plist', c.key, c.set, 'same', None, None, v0])
            elif c.kind == 'np':
                for i, x in enumerate(v0):
                    t2, at, aux = self.pick('%s<%d>' % (c.key, i), x)
                    self.cells.append(['npelem', '%s<%d>' % (c.key, i), (c.set, i), t2, at, aux, x])
            elif c.kind == 'fam':
                tid, h = self.pick_fam(c, v0)
                self.cells.append(['fam', c.key, c, tid, h, None, v0])
        # the invariant assumed after the loop is the one the arbitrary iteration preserves
        (E.inv_body if mode == 0 else E.inv_exit).update((self.key, ctx, c[1], c[3]) for c in self.cells)
        # install
        self.vals = {}
        for c in self.cells:
            kind, ck, tgt, tid, at, aux, v0 = c
            if tid in ('same', 'keys', 'elems'): continue
            if kind == 'list':
                if tid.startswith('list:'):
                    hl = HList(v0[0], v0[1], at, k)
                    tgt.pre = hl; tgt.tail = []; c[5] = hl
                    if isinstance(hl.n, int): tgt.pre, tgt.tail = None, [hl.fn(i) for i in range(hl.n)]
                else:
                    g = GList(); g.pre, g.tail = v0[0], list(v0[1])
                    s = g.seq(); h = at
                    ns = SSeq(s.n, lambda j, s=s, h=h, k=k: ite(ti(j) < k, h.fn(j), s.fn(j)) if True else None)
                    tgt.pre = ns; tgt.tail = []; c[5] = (ns, s)
                continue
            if kind == 'fam':
                c[5] = c[2].install(at, k, v0, tid)
                continue
            val = at(kk)
            if tid == 'probe': c[5] = val
            if kind == 'num': self.vals[tgt] = val
            elif kind == 'lelem': tgt[0].tail[tgt[1]] = val
            elif kind == 'delem': tgt[0][tgt[1]] = val
            elif kind == 'npelem': tgt[0].flat[tgt[1]] = val
        if mode == 0:
            E.loopstack.append(self)
        return mode
    def pick_fam(self, c, v0):
        E = core.E
        cands = [('same', None)] + [('fam:' + h.name, h) for h in E.hints if isinstance(h, PrefixHint) and h.target == c.fam_target]
        for tid, h in cands:
            if (self.key, c.key, tid) in E.refuted: continue
            if h is not None and hasattr(c, 'base_ok') and not c.base_ok(h): continue
            return tid, h
        return 'famhavoc', None
    # --- end of the arbitrary iteration
    def leave(self, locs):
        E = core.E
        if E.vacuous(): raise PathEnd()
        k = self.k; k1 = wrap(z3.simplify(k + 1))
        for f in E.folds:
            ks = [e.k for e in E.loopstack[:-1] if e.k is not None]
            import itertools
            if not f.pint:
                for ps in list(f.used.values()):
                    for s in (0, 1, 2): f.inst(SI(z3.simplify(k + s)), [SR(p) for p in ps])
            elif f.np <= len(ks):
                for ps in itertools.permutations(ks, f.np):
                    for s in (0, 1, 2): f.inst(SI(z3.simplify(k + s)), [SI(p) for p in ps])
        batch = []; again = False
        def refute(key): E.refuted.update(batch); E.refute(key)
        for c in self.cells:
            kind, ck, tgt, tid, at, aux, v0 = c
            key = (self.key, ck, tid)
            if kind == 'num': cur = locs.get(tgt, UNBOUND)
            elif kind == 'lelem':
                if tgt[0].pre is not None or len(tgt[0].tail) <= tgt[1]: refute((self.key, ck.rsplit('[', 1)[0], 'elems'))
                cur = tgt[0].tail[tgt[1]]
            elif kind == 'delem': cur = tgt[0].get(tgt[1], UNBOUND)
            elif kind == 'npelem': cur = list(tgt[0].flat)[tgt[1]]
            elif kind == 'dict':
                if set(tgt.keys()) != set(v0.keys()):
                    raise Unsupported("dictionary keys change in a symbolic loop (%s in %s)" % (ck, self.lid))
                continue
            elif kind == 'plist':
                if len(tgt) != len(v0) or not all(same_val(a, b) for a, b in zip(tgt, v0)): raise Unsupported("plain list changed in a symbolic loop")
                continue
            elif kind == 'list':
                self.leave_list(c); continue
            elif kind == 'fam':
                if not tgt.check(at, k, v0, tid, aux): refute(key)
                continue
            if tid == 'probe':
                if cur is UNBOUND or not isnumlike(cur): E.prefer[(self.key, ck)] = set(); again = True
                elif cur is not aux and not (isinstance(cur, Sym) and cur.t.eq(aux.t)):
                    self.rank(ck, v0, cur, aux, k, k1); again = True
                continue
            if tid in ('havoc', 'poison'):
                if tid == 'havoc' and isinstance(cur, SR) and isinstance(v0, (int, SI)) and (self.key, ck, 'intsort') not in E.refuted: refute((self.key, ck, 'intsort'))
                if tid == 'havoc' and not (isnumlike(cur) or isinstance(cur, (bool, SB))): refute(key)
                continue
            if cur is UNBOUND: refute(key); continue
            want = v0 if tid == 'same' else at(k1)
            if not same_val(cur, want):
                if tid == 'same' and E.fast and isnumlike(v0) and not isinstance(v0, (bool, int, SI)):
                    batch.append(key); continue
                if (self.key, ck) not in E.prefer: self.rank(ck, v0, cur, at(wrap(z3.simplify(ti(k)))) if tid != 'same' else v0, k, k1)
                refute(key)
            E.inv_checked += 1
        if batch or again:
            E.refuted.update(batch); raise core.Restart()
    def rank(self, ck, v0, cur, h0, k, k1):
        """order the remaining candidates: those that this iteration would preserve come first (only an order: nothing is decided here)"""
        E = core.E; good = set()
        E.prefer[(self.key, ck)] = good
        if not isinstance(cur, (SR, SI)) or not isinstance(h0, (SR, SI)) or isinstance(v0, bool): return
        p0 = E.pos; cs = []
        for tid, at, aux in self.candidates(ck, v0):
            if tid in ('same', 'havoc', 'poison') or (self.key, ck, tid) in E.refuted: continue
            try: a, b = at(wrap(z3.simplify(ti(k)))), at(k1)
            except (PathEnd, ZeroDivisionError): continue
            if E.pos != p0: return
            cs.append((tid, z3.substitute(tr(cur), (tr(h0), tr(a))), tr(b)))
        nf = core.NF(E)
        def same(tid, c, b):
            if z3.is_true(z3.simplify(c == b)): return True
            try: return nf.equal(c, b)
            except (Unsupported, RecursionError, ZeroDivisionError): return False
        good.update(t for t, c, b in cs if same(t, c, b))
        if good: return
        for t, c, b in sorted(cs, key=lambda x: not ('@0' in x[0] or '@' not in x[0])):
            if E._check(E.s, 60, z3.Not(c == b)) == z3.unsat: good.add(t); return
    def leave_list(self, c):
        E = core.E
        kind, ck, o, tid, h, aux, v0 = c
        key = (self.key, ck, tid); k = self.k
        if tid == 'same':
            if o.pre is v0[0] and len(o.tail) == len(v0[1]) and all(same_val(a, b) for a, b in zip(o.tail, v0[1])): return
            E.refute(key)
        if tid == 'elems':
            if o.pre is None and len(o.tail) == len(v0[1]): return
            E.refute(key)
        if tid.startswith('list:'):
            if o.pre is not aux: E.refute(key)
            new = o.tail
            if h.pred is None:
                if len(new) != 1 or not same_val(new[0], h.fn(SI(k))): E.refute(key)
            else:
                # decide the predicate on this path
                p = h.pred(SI(k))
                p = p if isinstance(p, bool) else tb(p)
                want = len(new) == 1
                if len(new) > 1: E.refute(key)
                goal = z3.BoolVal(p) if isinstance(p, bool) else p
                if not want: goal = z3.Not(goal)
                if E.prove(goal, 1500)[0] != 'proved': E.refute(key)
                if want and not same_val(new[0], h.fn(SI(k))): E.refute(key)
            E.inv_checked += 1
            return
        # prefix template
        ns, s = aux
        cur = o.seq()
        j = E.fresh_int('j'); E.assume(z3.And(j >= 0, j < ti(s.n)))
        if same_val(wrap(z3.simplify(ti(cur.n) - ti(s.n))), 0):
            if E.fork(j == k): j = k
            want = ite(j < k + 1, h.fn(SI(j)), s.fn(SI(j)))
            if same_val(cur.fn(SI(j)), want): E.inv_checked += 1; return
        E.refute(key)

def callchain(frame):
    out = []
    f = frame
    while f is not None and len(out) < 12:
        if f.f_globals.get('dv_repo__'): out.append((f.f_code.co_name, f.f_lineno if f is not frame else 0))
        f = f.f_back
    return tuple(out)
