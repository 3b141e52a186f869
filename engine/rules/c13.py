"""Equations of motion.  Random interpretation of the right-hand sides the
integrators use: Metric::Generic::diff is the geodesic equation, with parallel
transport of any further vectors, for an arbitrary metric; Minkowski::diff in
Keplerian mode is Newton's law along a unit four-velocity; KerrBL::diff is
Hamilton's equations of the metric; MakeMomentum and MakeCoord are inverse of one
another and computeCst gives quantities conserved along every geodesic;
diff31 is the geodesic equation in 3+1 form, for the lapse and shift of
computeNBeta; the steppers (myrk4) agree with the solution of an arbitrary
(quadratic) differential equation to fourth order in the step."""
from metalg import *
from c11 import abstract
LEVEL = 'proof'
ASSUME = ['Real arithmetic; rounding, step-size control and stop conditions are out of scope.',
          'One-sided error probability below 1e-12 per identity (random interpretation over a 61-bit field).',
          'Paths on which the function reports failure (non-zero) are not constrained.']
M1 = P - 1
KBL = 'Gyoto::Metric::KerrBL'
SYS = 6      # dimension of the random differential system is that of the state; degree 2


def state(r, x, n, name='u'):
    v = Vec(4 + n, 'state')
    for i in range(4): v.c[i] = D(lift(x.b.get(i)).v, lift(x.b.get(i)).d)
    for i in range(n): v.c[4 + i] = r.rnd('%s%d' % (name, i), i == 0)
    return v


def out(n):
    v = Vec(n, 'dxdt')
    for i in range(n): v.c[i] = Fraction(0)
    return v


def run(p, R):
    C = ctx(p); st = {'n': 0, 'pts': 0}; ab = abstract(p, C)

    def check(tag, f, body0, cls, cks=(2,), npoints=3, extra=None, ints=None):
        if f is None: return
        res = {}
        def note(sub, ok, msg):
            if sub not in res or res[sub][0]: res[sub] = (ok, msg)
        for ck in cks:
            def body(seed, script):
                r, o, x = C.point(cls, ck, seed, script, extra=extra, ints=ints); body.r = r
                try: body0(r, o, x, note)
                except Undef as e: note('complete', False, str(e))
                return r
            d, e, why = C.sweep(tag, body, npoints); st['pts'] += d
        for sub, (ok, msg) in sorted(res.items()):
            R.ob('%s:%s' % (tag, sub), f.loc(), ok, '%s: %s' % (f.q.replace('Gyoto::', ''), msg))
        st['n'] += bool(res)

    def accel(r, o, x, u, g=None):
        g = g or C.metric(r, o, x); ch = gamma(g, inv4(g))
        return lambda v: [-sum(ch[a][i][j] * u[i] * v[j] for i in range(4) for j in range(4)) % P for a in range(4)]

    # geodesic equation and parallel transport
    def geo(nv, mass):
        def t(r, o, x, note):
            s = state(r, x, 4 * nv); d = out(4 + 4 * nv)
            rv = C.call(r, o, 'diff', s, d, Fraction(mass))
            if rv != 0: return
            u = [V(s.get(4 + i)) for i in range(4)]; A = accel(r, o, x, u)
            note('velocity', [V(d.get(i)) for i in range(4)] == u, 'the derivative of the position is not the velocity')
            for v in range(nv):
                w = [V(s.get(4 + 4 * v + i)) for i in range(4)]
                note('acceleration' if v == 0 else 'transport', [V(d.get(4 + 4 * v + i)) for i in range(4)] == A(w),
                     'not the geodesic equation of the metric' if v == 0 else 'vector %d is not parallel-transported' % v)
        return t
    for nv in (1, 2, 3):
        check('any metric:diff:%d vectors' % nv, C.m(G, 'diff'), geo(nv, 0), G, extra=ab)
    for c in C.classes:
        f = C.m(c, 'diff')
        if f is None or f.cls == G: continue
        for nv, m in ((1, 0), (3, 0), (1, 1)):
            check('%s:diff:%d vectors, mass %d' % (c.split('::')[-1], nv, m), f, geo(nv, m), c, cks=(1, 2))

    # Minkowski: Newtonian orbits
    MK = 'Gyoto::Metric::Minkowski'
    def kep(r, o, x, note):
        s = state(r, x, 4); d = out(8); g = C.metric(r, o, x)
        u = [s.get(4 + i) for i in range(4)]
        n = dot(g, [lift(q) for q in u], [lift(q) for q in u])
        if isqr(n): raise Redraw('spacelike')
        q = r.sqrt(D(P - n))
        for i in range(4): s.c[4 + i] = div(D(V(s.c[4 + i])), D(q.v))
        rv = C.call(r, o, 'diff', s, d, Fraction(1))
        if rv != 0: return
        u = [V(s.get(4 + i)) for i in range(4)]; A0 = accel(r, o, x, u, g)(u)
        A = [(V(d.get(4 + i)) - A0[i]) % P for i in range(4)]        # covariant acceleration
        note('velocity', [V(d.get(i)) for i in range(4)] == u, 'the derivative of the position is not the velocity')
        note('norm', sum(g[i][j].v * u[i] * A[j] for i in range(4) for j in range(4)) % P == 0, 'the norm of the velocity is not conserved')
        X = [V(x.b.get(i)) for i in range(4)]
        if r.ints['coordkind_'] == 2: rad, r2 = [0, X[1], 0, 0], X[1] * X[1] % P
        else: rad, r2 = [0] + X[1:], sum(q * q for q in X[1:]) % P
        for i in (1, 2, 3):     # ((A^i u^t - A^t u^i) / u^t^3)^2 = (x^i/r^3)^2 with the sign of -x^i
            lhs = (A[i] * u[0] - A[0] * u[i]) * pow(u[0], P - 4, P) % P
            note('newton:%d' % i, lhs * lhs % P * pow(r2, 3, P) % P == rad[i] * rad[i] % P, 'd2x/dt2 is not -x/r^3')
    if MK in p.classes:
        check('Minkowski:diff:keplerian', C.m(MK, 'diff'), kep, MK, cks=(1, 2), npoints=4, ints={'keplerian_': True})

    # KerrBL: Hamilton's equations
    def fn(cls, name, sig): return next((f for f in p.fns.values() if f.cls == cls and f.n == name and sig in f.id), None)
    ham = fn(KBL, 'diff', '(const double *,const double *,double *)'); mm = fn(KBL, 'MakeMomentum', '('); mc = fn(KBL, 'MakeCoord', '('); cc = fn(KBL, 'computeCst', '(')
    def t_ham(r, o, x, note):
        b = Block('coor'); cst = Block('cst'); res = Block('res')
        for i in range(4): b.c[i] = x.b.get(i)
        E, L = r.rnd('E', False), r.rnd('L', False)
        pm = [neg(E), r.rnd('pr', False), r.rnd('pth', False), L]
        for i in range(4): b.c[4 + i] = pm[i]
        for i, v in enumerate((r.rnd('mu', False), E, L, r.rnd('Q', False), r.rnd('Qm1', False))): cst.c[i] = v
        rv = r.call(ham.id, o, [Ptr(b), Ptr(cst), Ptr(res)])
        if rv != 0: return
        gi = inv4(C.metric(r, o, x)); h = pow(2, P - 2, P); pv = [V(q) for q in pm]
        for a in range(4):
            note('velocity:%d' % a, V(res.get(a)) == sum(gi[a][j].v * pv[j] for j in range(4)) % P, 'component %d of the velocity is not g^{ij}p_j' % a)
            note('force:%d' % a, V(res.get(4 + a)) == -h * sum(gi[i][j].d[a] * pv[i] * pv[j] for i in range(4) for j in range(4)) % P, 'component %d of dp/dtau is not -dH/dx' % a)
    if ham: check('KerrBL:diff', ham, t_ham, KBL)

    def cons(mass):
        def t(r, o, x, note):
            g = C.metric(r, o, x); gi = inv4(g)
            b = Block('coord')
            u = [r.rnd('v%d' % i, i == 0) for i in range(4)]
            n = dot(g, u, u)
            if mass:
                if isqr(n): raise Redraw('spacelike')
                q = D(r.sqrt(D(P - n)).v); u = [div(D(V(z)), q) for z in u]
            else:
                # null: solve for u^t
                a, bb, c = g[0][0].v, sum(g[0][i].v * u[i].v for i in (1, 2, 3)) % P, sum(g[i][j].v * u[i].v * u[j].v for i in (1, 2, 3) for j in (1, 2, 3)) % P
                dl = (bb * bb - a * c) % P
                if not isqr(dl): raise Redraw('no null direction')
                u[0] = D((-bb - r.sqrt(D(dl)).v) * pow(a, P - 2, P) % P)
            uv = [V(z) for z in u]; A = accel(r, o, x, uv, g)(uv)
            # every coordinate carries its derivative along the geodesic
            for i in range(4): b.c[i] = D(V(x.b.get(i)), (uv[i], 0, 0, 0)); b.c[4 + i] = D(uv[i], (A[i], 0, 0, 0))
            cst = Block('cst'); r.call(cc.id, o, [Ptr(b), Ptr(cst)])
            note('mass', V(cst.get(0)) == mass, 'the mass is not that of a %s particle' % ('massive' if mass else 'massless'))
            note('E', V(cst.get(1)) == -sum(g[0][j].v * uv[j] for j in range(4)) % P, 'E is not -p_t')
            note('L', V(cst.get(2)) == sum(g[3][j].v * uv[j] for j in range(4)) % P, 'L is not p_phi')
            for i, nm in ((1, 'E'), (2, 'L'), (3, 'Q')):
                note('conserved:' + nm, lift(cst.get(i)).d[0] == 0, '%s is not conserved along geodesics' % nm)
            note('1/Q', V(cst.get(4)) * V(cst.get(3)) % P == 1, 'the cached inverse is not 1/Q')
            if mm and mc:
                pb, qb = Block('mom'), Block('back')
                c2 = Ptr(cst); f = p.resolve(o.cls, mm.id) or mm
                for i in range(8): b.c[i] = D(V(b.c[i]))
                r.call(f.id, o, [Ptr(b), c2, Ptr(pb)])
                note('momentum', [V(pb.get(i)) for i in range(8)] == [V(x.b.get(i)) for i in range(4)] + [sum(g[a][j].v * uv[j] for j in range(4)) % P for a in range(4)], 'MakeMomentum does not give position and g_ij u^j')
                f = p.resolve(o.cls, mc.id) or mc
                r.call(f.id, o, [Ptr(pb), c2, Ptr(qb)])
                note('back', [V(qb.get(i)) for i in range(8)] == [V(b.c[i]) for i in range(8)], 'MakeCoord does not undo MakeMomentum')
        return t
    if cc:
        for m in (0, 1):
            check('KerrBL:constants:mass %d' % m, cc, cons(m), KBL)

    # 3+1 form
    def t31(r, o, x, note):
        s = Vec(7, 'state31'); d = out(7)
        s.c[0] = r.rnd('E'); X = [lift(x.b.get(i)) for i in range(4)]
        for i in (1, 2, 3): s.c[i] = X[i]
        for i in (4, 5, 6): s.c[i] = r.rnd('V%d' % i, False)
        rv = C.call(r, o, 'diff31', s, d, Fraction(0))
        if rv != 0: return
        g = C.metric(r, o, x); gi = inv4(g)
        N2 = neg(inv(gi[0][0])); be = [mul(N2, gi[0][i]) for i in (1, 2, 3)]
        # the code's N: either root; take the one computeNBeta returns
        nb = Block('N'); bb = Block('beta'); C.call(r, o, 'nbeta', x, Ptr(nb), Ptr(bb)); N = lift(nb.get(0))
        if N.v * N.v % P != N2.v: return
        E = V(s.c[0]); Vi = [V(s.c[i]) for i in (4, 5, 6)]
        xd = [1] + [(N.v * Vi[i] - be[i].v) % P for i in range(3)]
        for i in range(3): note('velocity', V(d.get(1 + i)) == xd[1 + i], 'dx^%d/dt is not N V - beta' % (i + 1))
        ut = E * pow(N.v, P - 2, P) % P; u = [ut * q % P for q in xd]
        acc = accel(r, o, x, u, g)(u); it = pow(ut, P - 2, P)
        dN = sum(N.d[i] * xd[i] for i in range(4)) % P
        Ed = V(d.get(0)); utd = (Ed * N.v - E * dN) * pow(N.v, P - 3, P) % P
        note('energy', utd == acc[0] * it % P, 'dE/dt is not that of a geodesic')
        for i in range(3):
            db = sum(be[i].d[j] * xd[j] for j in range(4)) % P
            uid = (utd * xd[1 + i] + ut * (dN * Vi[i] + N.v * V(d.get(4 + i)) - db)) % P
            note('acceleration:%d' % (i + 1), uid == acc[1 + i] * it % P, 'dV^%d/dt is not that of a geodesic' % (i + 1))
    for c in C.classes:
        f = C.m(c, 'diff31')
        if f is None or f.cls == G: continue
        check('%s:diff31' % c.split('::')[-1], f, t31, c)

    # steppers: fourth order on an arbitrary quadratic system
    def steppers():
        for f in sorted(p.fns.values(), key=lambda f: f.id):
            if f.n != 'myrk4' or not f.cls or not p.is_a(f.cls, G) or f.cls.split('::')[-1] in SKIP: continue
            yield f
    for f in steppers():
        cls = f.cls; vecs = 'std::vector' in f.id
        n = 8
        rng = random.Random(7)
        lin = [[rng.randrange(P) for _ in range(n)] for _ in range(n)]; quad = [[(rng.randrange(n), rng.randrange(n), rng.randrange(P)) for _ in range(2)] for _ in range(n)]
        def F(y): return [(sum(a * b for a, b in zip(lin[i], y)) + sum(c * y[j] * y[k] for j, k, c in quad[i])) % P for i in range(n)]
        def tay(y, order):
            """Taylor coefficients of the solution: (k+1) y_{k+1} = F(y)_k"""
            co = [list(y)]
            for k in range(order):
                nx = []
                for i in range(n):
                    q = sum(a * b for a, b in zip(lin[i], co[k]))
                    for j, l, c in quad[i]: q += c * sum(co[m][j] * co[k - m][l] for m in range(k + 1))
                    nx.append(q * pow(k + 1, P - 2, P) % P)
                co.append(nx)
            return co
        def dv(r, this, a):
            a = [q.b.get(q.o) if isinstance(q, Ptr) else q for q in a]
            y = [V(a[0].get(i)) for i in range(n)]
            for i, v in enumerate(F(y)): a[1].c[i] = D(v)
            return 0
        def dp(r, this, a):
            y = [V(a[0].b.get(a[0].o + i)) for i in range(n)]
            for i, v in enumerate(F(y)): a[2].b.c[a[2].o + i] = D(v)
            return 0
        def ident(r, this, a):
            for i in range(n): a[2].b.c[a[2].o + i] = a[0].b.get(a[0].o + i)
        ex = {C.M['diff']: dv}
        for h in p.fns.values():
            if h.cls and p.is_a(h.cls, G):
                if h.n == 'diff' and '(const double *,const double *,double *)' in h.id: ex[h.id] = dp
                elif h.n == 'diff' and 'std::vector' in h.id and len(h.d['params']) == 3: ex[h.id] = dv
                elif h.n in ('MakeCoord', 'MakeMomentum'): ex[h.id] = ident
        def at(seed, h, script=()):
            r = RInt(p, seed, script, {**C.intr, **ex, ('obj', 'getMass'): lambda r, o, a: Fraction(0), ('obj', 'getCst'): lambda r, o, a: Ptr(Block('cst'))},
                     {'coordkind_': 2, '__defaultfeatures': 0, 'generic_integrator_': False})
            o = Obj(cls, 'm'); y = [r.rnd('y%d' % i).v for i in range(n)]
            if vecs:
                a, b = Vec(n, 'in'), out(n)
                for i in range(n): a.c[i] = D(y[i])
                rv = r.call(f.id, o, [Obj(None, 'line'), a, D(h), b]); get = lambda: [V(b.get(i)) for i in range(n)]
            else:
                a, b = Block('in'), Block('res')
                for i in range(n): a.c[i] = D(y[i])
                rv = r.call(f.id, o, [Ptr(a), Ptr(Block('cst')), D(h), Ptr(b)]); get = lambda: [V(b.get(i)) for i in range(n)]
            return y, (get() if rv == 0 else None), r
        name = '%s:myrk4%s' % (cls.split('::')[-1], '' if vecs else ':momenta')
        def sample(h, seed):
            """the step h from the same start, on a path that succeeds"""
            todo = [()]
            while todo:
                s = todo.pop()
                y, v, r = at(seed, h, s)
                if v is not None: return y, v
                if len(s) < 12: todo += [tuple(r.order[:j]) + (not r.order[j],) for j in range(len(s), len(r.order))]
            raise Redraw('no successful path')
        K = 20; pts = []
        try:
            hs = [rng.randrange(1, P) for _ in range(K + 4)]
            for seed in range(1, 13):
                pts = []
                for h in hs:
                    try: pts.append((h,) + sample(h, seed))
                    except Redraw:
                        if not pts: break
                if len(pts) >= K: break
        except Unsupported as e: C.undecided.append((name, str(e))); continue
        if len(pts) < K: C.undecided.append((name, 'no successful path')); continue
        y = pts[0][1]; pts = pts[:K]; want = tay(y, 4)
        for i in range(n):
            # polynomial in h through the points (degree < K)
            co = interp([q[0] for q in pts], [q[2][i] for q in pts])
            got = [co[k] if k < len(co) else 0 for k in range(5)]
            if any(co[16:]): C.undecided.append((name, 'not a polynomial of the expected degree in the step')); break
            for k in range(5):
                R.ob('%s:order %d:%d' % (name, k, i), f.loc(), got[k] == want[k][i], '%s: component %d of a step differs from the solution at order %d in the step' % (f.q.replace('Gyoto::', ''), i, k))
        else: st['n'] += 1; st['pts'] += K

    for w, why in C.undecided: R.count('undecided: %s (%s)' % (w, why))
    R.need('functions decided', st['n'], 3); R.count('points', st['pts'])


def interp(xs, ys):
    """coefficients of the polynomial through the points, mod P (Newton's divided differences)"""
    n = len(xs); c = list(ys)
    for j in range(1, n):
        for i in range(n - 1, j - 1, -1):
            c[i] = (c[i] - c[i - 1]) * pow(xs[i] - xs[i - j], P - 2, P) % P
    r = [c[n - 1]]
    for i in range(n - 2, -1, -1):
        r = [0] + r
        for k in range(len(r) - 1): r[k] = (r[k] - xs[i] * r[k + 1]) % P
        r[0] = (r[0] + c[i]) % P
    return r
