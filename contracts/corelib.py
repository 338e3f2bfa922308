"""contracts of the numerical core of a bunch (translated C++ in symbolic runs, the built extension in concrete ones)"""
DOUBLES = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'bx', 'by', 'bz', 'ex', 'ey', 'ez', 'sx', 'sy', 'sz', 'path_length', 'proper_time', 'e_dep', 'charge', 'mass']

class Core(object):
    """a core of n hits of which any may be empty, under an arbitrary weight table"""
    def __init__(self, V, nulls=True, heavy=True, least=0):
        self.V = V
        self.n = V.size('n', least)
        self.T = V.weights('T')
        self.bc, self.f = V.core_bunch(self.n, nulls=nulls)
        V.lib().Hitcore.set_weight_context(self.T.wc)
        self.W = V.fold('weight', 0., lambda a, i: V.ite(self.f.null(i), a, a + self.w(i)))
        self.total = self.W.at(self.n)
        if heavy: V.assume(V.absv(self.total) > (1e-3 if V.conc else 0))
    def under(self, T, name):
        """the same hits under another weight table"""
        V = self.V; D = object.__new__(Core); D.__dict__.update(self.__dict__); D.T = T; f = self.f
        D.W = V.fold(name, 0., lambda a, i: V.ite(f.null(i), a, a + D.w(i)))
        D.total = D.W.at(self.n); V.assume(V.absv(D.total) > (1e-3 if V.conc else 0))
        return D
    def gw(self, i): return self.T.at(*self.f.ident(i))
    def w(self, i): return self.gw(i) * self.f.old('local_weight', i)
    def value(self, v, i):
        if v == 'global_weight': return self.gw(i)
        if v == 'weight': return self.w(i)
        return self.f.old(v, i)
    def average(self, name, term, raw=False):
        """weighted average of term(i) over the hits; raw: also related to the sum of weight * term"""
        V, f = self.V, self.f
        S = V.fold(name, 0., lambda a, i: V.ite(f.null(i), a, a + self.w(i) / self.total * term(i)))
        if not raw: return S.at(self.n)
        R = V.fold(name + '_raw', 0., lambda a, i: V.ite(f.null(i), a, a + self.w(i) * term(i)))
        self.raw = R
        use = V.lemma(name + '-add', 5, lambda s, r, w, t, W: V.and_(W != 0, s * W == r), lambda s, r, w, t, W: (s + V.quot(w, W) * t) * W == r + w * t)
        V.induct(name + '-scaled', self.n, lambda k: S.at(k) * self.total == R.at(k), step=lambda k: None if f.null(k) else use(S.at(k), R.at(k), self.w(k), term(k), self.total))
        return S.at(self.n)
    def size(self, term):
        """rounding scale of an average (concrete runs)"""
        if not self.V.conc: return None
        r = [i for i in range(self.n) if not self.f.null(i)]
        A = sum(abs(self.w(i)) for i in r); W = abs(self.total)
        return 1e-300 + sum(abs(self.w(i)) * term(i) for i in r) / W * (1 + A / W)
    def unchanged(self):
        V, f = self.V, self.f
        def one(i):
            if V.conc and f.null(i): return
            for v in ('x', 'px', 'energy', 'mass', 'local_weight', 'station', 'spill'): V.eq('unchanged[%s]' % v, f.get(v, i), f.old(v, i), tol=0.)
        V.forall('hits', self.n, one)
