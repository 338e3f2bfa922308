"""shared ghost definitions: weighted moments of the hits of a bunch"""
DBL = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'mass', 'bx', 'by', 'bz', 'ex', 'ey', 'ez', 'sx', 'sy', 'sz',
       'path_length', 'proper_time', 'e_dep', 'charge', 'local_weight', 'global_weight', 'weight']

class Moments(object):
    """W = sum of weights; mom(vars, centres) = sum of weight * product of (variable - centre), over the first k hits, at the time of creation"""
    def __init__(self, V, f, n, get=None, weight=None):
        self.V, self.f, self.n = V, f, n
        self.get = get or (lambda v, i: f.gw_old(i) if v == 'global_weight' else f.weight_old(i) if v == 'weight' else f.old(v, i))
        self.w = weight or f.weight_old
        self.W = V.fold('sum_weight', 0., lambda acc, i: acc + self.w(i))
        self.folds = {}
    def fold(self, vs):
        vs = tuple(vs)
        if vs not in self.folds:
            def step(acc, i, *c):
                p = 1.
                for v, m in zip(vs, c): p = p * (self.get(v, i) - m)
                return acc + p * self.w(i)
            self.folds[vs] = self.V.fold('sum_' + '_'.join(vs), 0., step, len(vs), real_params=True)
        return self.folds[vs]
    def total(self): return self.W.at(self.n)
    def raw(self, vs, cs): return self.fold(vs).at(self.n, *cs)
    def mean(self, v): return self.raw([v], [0.]) / self.total()
    def moment(self, vs, centre=None):
        centre = centre or {}
        return self.raw(vs, [centre[v] if v in centre else self.mean(v) for v in vs]) / self.total()
    def core(self, b=None):
        """the contract of the compiled calculation (properties P09-P11 of the C++ core)"""
        V = self.V
        if V.conc: return
        def hook(core, axes, means):
            axes = [str(a) for a in axes]
            for a in axes:
                if a not in DBL: raise ValueError("not a variable of the core")
            V.eq('core-has-every-hit', core.items.length(), self.n)
            V.forall('core-in-order', self.n, lambda i: V.check('core-in-order.same-hit', same_record(V, core.items[i], self.f.core_at(i))))
            if not isinstance(means, dict): raise TypeError("means must be a dictionary")
            return self.raw(axes, [means[a] if a in means else 0. for a in axes]) / self.total()
        V.E.moment_hook = hook
        V.trust('Bunchcore.moment is the weighted sum of products over the sum of weights for the variables of the core, and raises for others (C++ contract, P09)')

def same_record(V, a, b):
    return type(a).dv_same(a, b)

class Cut(object):
    """the weights after a cut of the hits selected by sel(i): ghost table T(k) after the first k hits"""
    def __init__(self, V, f, n, sel, glob=True, name='table'):
        self.V, self.f, self.n, self.sel, self.glob = V, f, n, sel, glob
        if V.conc: return
        sh = V.E.shared
        self.lw0 = f.fields['local_weight']; self.base0 = (lambda ws, b: (lambda s, e, p: (setattr_gw(sh, ws, b, s, e, p))))(list(sh.writes), sh.base)
        ids = lambda i: (f.old('spill', i), f.old('event_number', i), f.old('particle_number', i))
        self.ids = ids
        def step(acc, i, s, e, p):
            a, b, c = ids(i)
            return V.ite(V.and_(sel(i), a == s, b == e, c == p), 0., acc) if glob else acc
        self.T = V.fold(name, lambda s, e, p: self.base0(s, e, p), step, 3, hint=False)
        self.lw = lambda i: self.lw0(i) if glob else V.ite(sel(i), 0., self.lw0(i))
        V.prefixhint('cut_local', self.lw, (f.name, 'local_weight'))
        def table(k):
            if not glob: return self.base0
            def g(s, e, p):
                for d in (0, 1, 2): self.T.inst(k - d, (s, e, p))
                return self.T.at(k, s, e, p)
            return g
        self.table = table
        V.prefixhint('cut_table', table, 'table')
    def core(self):
        V, f, n = self.V, self.f, self.n
        if V.conc: return
        def hook(core, variable, comparator, value, is_global):
            if variable not in DBL: raise ValueError("not a variable of the core")
            V.eq('core-has-every-hit', core.items.length(), n)
            V.forall('core-in-order', n, lambda i: V.check('core-in-order.same-hit', same_record(V, core.items[i], f.core_at(i))))
            def agree(i):
                x = f.gw_old(i) if variable == 'global_weight' else f.weight_old(i) if variable == 'weight' else f.rd(variable, i)
                V.check('core-selection.same-hits', bool(comparator(x, value)) == bool(self.sel(i)))
            V.forall('core-selection', n, agree)
            if is_global: V.E.shared.base = self.table(n); V.E.shared.writes = []
            else:
                lw = self.lw
                f.fields['local_weight'] = lambda j: lw(j)
        V.E.cut_hook = hook
        V.trust('Bunchcore.cut_double sets the chosen weight to zero for exactly the hits whose variable satisfies the comparison (C++ contract, P12)')

def setattr_gw(sh, ws, base, s, e, p):
    from dv.core import ti
    from dv.seqs import ite
    import z3
    v = base(s, e, p)
    for (a, b, c, w) in ws: v = ite(z3.And(ti(a) == ti(s), ti(b) == ti(e), ti(c) == ti(p)), w, v)
    return v

class Group(object):
    """the hits i < k with pred(i), in order, as a bunch: value of a dictionary at an arbitrary key"""
    def __init__(self, V, f, pred): self.V, self.f, self.pred = V, f, pred
    def make(self, k):
        from dv.loops import HList, ListHint
        from dv.core import SI, SB, ti
        from dv.seqs import GList
        b = self.V.Bunch()(); t = ti(k)
        hl = HList(None, [], ListHint('group', self.f.hit_at, self.pred), t)
        cl = HList(None, [], ListHint('group-core', self.f.core_at, self.pred), t)
        cl.fcount = hl.fcount; cl.n = SI(hl.fcount)
        hs = GList(); hs.pre = hl; cs = GList(); cs.pre = cl
        b._Bunch__hits = hs; b._Bunch__bunchcore.items = cs
        return SB(hl.fcount > 0), b
    def same(self, d, k, inst):
        from dv.loops import same_val
        import dv.core as core
        present0, b0 = inst; p = bool(self.pred(k)); b = d.slot
        hs0, cs0 = b0._Bunch__hits, b0._Bunch__bunchcore.items
        if not p: return b is b0 and d.present is present0 and not hs0.tail and not cs0.tail
        hs, cs = b._Bunch__hits, b._Bunch__bunchcore.items
        if b is b0: ok = hs0.pre is not None and cs0.pre is not None and bool(d.present)
        else:
            ok = hs.pre is None and cs.pre is None and core.E.prove(core.z3.Not(present0.t), 1500)[0] == 'proved'
        return ok and d.present is not False and len(hs.tail) == 1 and len(cs.tail) == 1 and same_val(hs.tail[0], self.f.hit_at(k)) and same_val(cs.tail[0], self.f.core_at(k))
