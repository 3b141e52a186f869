"""Shared by C10-C13: metrics numbered by random interpretation (rint.py).
A 'point' is a class of metric, the kind of coordinates, random coordinates and
parameters (set through the class's own parameter setters), and one consistent
choice of the comparisons met on the way."""
from util import *
import proptab
from rint import *

G = 'Gyoto::Metric::Generic'
SKIP = ('NumericalMetricLorene', 'RotStar3_1', 'Python')     # coefficients computed by other libraries
V = lambda x: lift(x).v


class Bad(Exception): pass


def inv4(A):
    n = len(A); A = [[lift(x) for x in r] + [D(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    for j in range(n):
        pv = next((i for i in range(j, n) if A[i][j].v), None)
        if pv is None: raise Redraw('singular')
        A[j], A[pv] = A[pv], A[j]
        f = inv(A[j][j]); A[j] = [mul(x, f) for x in A[j]]
        for i in range(n):
            if i != j and (A[i][j].v or any(A[i][j].d)):
                q = A[i][j]; A[i] = [add(x, mul(q, y), -1) for x, y in zip(A[i], A[j])]
    return [r[n:] for r in A]


class Ctx:
    def __init__(self, p):
        self.p = p; p.never_returns()
        M = {}
        for k, n, sig in (('gm', 'gmunu', '(double (*)[4],const double *)const'), ('gc', 'gmunu', '(const double *,int,int)const'),
                          ('um', 'gmunu_up', '(double (*)[4],const double *)const'), ('uc', 'gmunu_up', '(const double *,int,int)const'),
                          ('jac', 'jacobian', '('), ('uj', 'gmunu_up_and_jacobian', '('), ('cm', 'christoffel', '(double (*)[4][4],const double *)const'),
                          ('cc', 'christoffel', '(const double *,int,int,int)const'), ('sp', 'ScalarProd', '('), ('norm', 'norm', '('),
                          ('tdot', 'SysPrimeToTdot', '('), ('nfv8', 'normalizeFourVel', '(double *)const'), ('nfv', 'normalizeFourVel', '(const double *,double *)const'),
                          ('null1', 'nullifyCoord', '(double *)const'), ('null2', 'nullifyCoord', '(double *,double &)const'), ('zamo', 'zamoVelocity', '('),
                          ('circ', 'circularVelocity', '('), ('proj', 'projectFourVect', '('), ('mulv', 'multiplyFourVect', '('), ('addv', 'addFourVect', '('),
                          ('dual', 'dualOneForm', '('), ('gs', 'GramSchmidt', '('), ('tet', 'observerTetrad', '(const double *,double *,double *,double *,double *)const'),
                          ('nbeta', 'computeNBeta', '('), ('diff', 'diff', '(const std::vector<double, std::allocator<double>> &,std::vector<double, std::allocator<double>> &,double)const'),
                          ('diff31', 'diff31', '(const std::vector'), ('lsp', 'getSpecificAngularMomentum', '(')):
            r = [m['id'] for m in p.classes[G]['methods'] if m['n'] == n and sig in m['id'] and not m.get('deleted')]
            if len(r) == 1: M[k] = r[0]
        self.M = M
        self.minv = [f.id for f in p.fns.values() if f.n == 'matrix4Invert' and f.q == 'Gyoto::matrix4Invert']
        self.intr = {}
        for f in p.fns.values():
            if f.n == 'tellListeners': self.intr[f.id] = lambda r, t, a: None
        for i in self.minv: self.intr[i] = self._minv
        self.intr[M['jac']] = self._jac
        self.classes = sorted(c for c in p.classes if c.startswith('Gyoto::Metric::') and c != G and p.is_a(c, G) and c.split('::')[-1] not in SKIP + ('Complex', 'Shift') and c.count('::') == 2)
        self.undecided = []

    def _minv(self, r, this, a):
        m = [[a[1].b.get(a[1].o + 4 * i + j) for j in range(4)] for i in range(4)]
        v = inv4(m)
        for i in range(4):
            for j in range(4): a[0].b.c[a[0].o + 4 * i + j] = v[i][j]

    def _jac(self, r, this, a):
        """Generic::jacobian, the numerical derivative, stands for the derivative (its formula is checked in C11)"""
        g = Block('g'); f = self.p.resolve(this.cls, self.M['gm'])
        r.call(f.id, this, [Ptr(g), a[1]])
        for al in range(4):
            for q in range(16): a[0].b.c[a[0].o + 16 * al + q] = D(lift(g.get(q)).d[al])

    def m(self, cls, k):
        return self.p.resolve(cls, self.M[k]) if k in self.M else None

    def kinds(self, cls):
        """coordinate kinds the class is used with: 1 Cartesian, 2 spherical"""
        kinds = set()
        for f in self.p.fns.values():
            if f.kind == 'ctor' and f.cls == cls:
                for x in f.walk():
                    n = f.nodes[x]
                    s = n.get('d', '') if n['k'] == 'Ref' else ''
                    if n['k'] == 'Lit' and n.get('v') in (1, 2) and n.get('macro', '').startswith('GYOTO_COORDKIND'): kinds.add(n['v'])
        return kinds

    def setup(self, r, o, cls):
        for c in reversed(proptab.chain(self.p, proptab.own_table(self.p, cls))):
            if c == G or not self.p.is_a(c, G): continue
            for e in proptab.tables(self.p)[c]['entries']:
                for fn in e.funcs:
                    if fn.get('t', '').startswith('void (double)') or fn.get('t', '').startswith('void (const double)'):
                        t = self.p.resolve(cls, fn['f']) or self.p.fns.get(fn['f'])
                        if t is None: continue
                        n = len(r.order)
                        try: r.call(t.id, o, [r.rnd('par ' + e.name, r.seed % 2 == 0)])
                        except ErrPath: pass

    def pos(self, r, eq=False):
        b = Block('pos')
        for i in range(4):
            x = r.rnd('pos%d' % i, True)
            if i == 1 and not eq and r.seed % 3 == 2: x = neg(x)
            b.c[i] = D(x.v, tuple(int(j == i) for j in range(4)))
        if eq:     # equatorial plane
            b.c[2] = D(V(PI2), (0, 0, 1, 0))
        return Ptr(b)

    def point(self, cls, ck, seed, script, eq=False, extra=None, ints=None):
        r = RInt(self.p, seed, script, {**self.intr, **(extra or {})}, dict({'coordkind_': ck, '__defaultfeatures': 0, 'quadrupole_is_kerr_': True, 'keplerian_': False}, **(ints or {})))
        o = Obj(cls, 'm'); x = self.pos(r, eq)
        if cls != G: self.setup(r, o, cls)
        return r, o, x

    def call(self, r, o, k, *a):
        f = self.m(o.cls, k)
        if f is None: raise Unsupported('no ' + k)
        return r.call(f.id, o, list(a))

    def mat(self, r, o, k, x):
        b = Block(k); rv = self.call(r, o, k, Ptr(b), x); return b, rv

    def metric(self, r, o, x):
        b, _ = self.mat(r, o, 'gm', x)
        return [[lift(b.get(4 * i + j)) for j in range(4)] for i in range(4)]

    def sweep(self, name, body, npoints=3, tries=400, limit=32):
        """body(seed, script) -> RInt; raises Redraw / ErrPath / Unsupported.  Points with all
        choices of thresholds.  Returns (points, error paths, reason or None)"""
        done = err = 0; seed = 0; sigs = set()
        try:
            while done < npoints and seed < tries:
                seed += 1
                todo = [()]; n = 0
                while todo:
                    s = todo.pop(); n += 1
                    if n > limit: break
                    try: r = body(seed, s); done += 1
                    except Redraw: continue
                    except ErrPath: err += 1; r = getattr(body, 'r', None)
                    if r is None: continue
                    for j in range(len(s), len(r.order)):
                        todo.append(tuple(r.order[:j]) + (not r.order[j],))
        except Unsupported as e:
            self.undecided.append((name, str(e))); return done, err, str(e)
        if not done: self.undecided.append((name, 'no admissible point')); return 0, err, 'no admissible point'
        return done, err, None


def ctx(p):
    if not hasattr(p, '_mctx'): p._mctx = Ctx(p)
    return p._mctx


def vec(r, name, n=4, qr=False):
    b = Block(name)
    for i in range(n): b.c[i] = r.rnd(name + str(i), qr)
    return Ptr(b)


def vals(pt, n=4): return [lift(pt.b.get(pt.o + i)) for i in range(n)]


def dot(g, u, v):
    return sum(g[i][j].v * u[i].v * v[j].v for i in range(4) for j in range(4)) % P


def gamma(g, gi):
    """Levi-Civita connection of g, from its derivatives"""
    h = pow(2, P - 2, P)
    return [[[sum(gi[a][d].v * (g[d][n].d[m] + g[m][d].d[n] - g[m][n].d[d]) for d in range(4)) * h % P for n in range(4)] for m in range(4)] for a in range(4)]
