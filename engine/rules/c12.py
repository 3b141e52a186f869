"""Vector algebra.  Random interpretation of the four-vector helpers, on an
arbitrary metric for the general implementations and on the metric itself for
every class that overrides one: norm, projection, dual, sums and products are
what they say; normalizeFourVel and SysPrimeToTdot give four-velocities of norm
-1 along the same direction; nullifyCoord gives null vectors with the same
spatial part, tdot2 being the other root; GramSchmidt and observerTetrad give
orthonormal tetrads; zamoVelocity is unit and orthogonal to the azimuthal
direction; circularVelocity is a unit vector without radial or polar part and,
unless the Keplerian approximation is asked for, a geodesic of the equatorial
plane; computeNBeta gives the lapse and shift of the metric."""
from metalg import *
from c11 import abstract
LEVEL = 'proof'
ASSUME = ['Real arithmetic; rounding is out of scope.',
          'One-sided error probability below 1e-12 per identity (random interpretation over a 61-bit field).',
          'The vectors given are not degenerate (non-null where a norm is divided by, timelike where a four-velocity is asked for).']
M1 = P - 1


def run(p, R):
    C = ctx(p); st = {'n': 0, 'pts': 0}
    ab = abstract(p, C)

    def check(name, key, test, classes=None, eq=False, cks=(2,), npoints=3, ints=None, own=True):
        """test(r,o,x,g,note): for the abstract metric and each class overriding key"""
        todo = [(G, 'any metric')] + [(c, c.split('::')[-1]) for c in C.classes if C.m(c, key) is not None and C.m(c, key).cls != G]
        if not own: todo = todo[1:]
        for cls, tag in todo:
            f = C.m(cls, key)
            if f is None: continue
            res = {}
            def note(sub, ok, msg):
                if sub not in res or res[sub][0]: res[sub] = (ok, msg)
            for ck in cks:
                def body(seed, script):
                    r, o, x = C.point(cls, ck, seed, script, eq=eq, extra=ab if cls == G else None, ints=ints); body.r = r
                    g = C.metric(r, o, x)
                    try: test(r, o, x, g, note)
                    except Undef as e: note('complete', False, str(e))
                    return r
                d, e, why = C.sweep(tag + ':' + name, body, npoints); st['pts'] += d
            for sub, (ok, msg) in sorted(res.items()):
                R.ob('%s:%s:%s' % (tag, name, sub), f.loc(), ok, '%s: %s' % (f.q.replace('Gyoto::', ''), msg))
            st['n'] += bool(res)

    def same(a, b): return [x.v for x in a] == [x.v for x in b]

    def t_norm(r, o, x, g, note):
        u = vec(r, 'u'); s = dot(g, vals(u), vals(u)); n = lift(C.call(r, o, 'norm', x, u))
        note('norm', n.v * n.v % P in (s, P - s), 'norm squared is not |g(u,u)|')
    check('norm', 'norm', t_norm)

    def t_mulv(r, o, x, g, note):
        u = vec(r, 'u'); a = r.rnd('a', False); w = vals(u); C.call(r, o, 'mulv', u, a)
        note('product', [q.v for q in vals(u)] == [q.v * a.v % P for q in w], 'does not multiply every component by the factor')
    check('multiplyFourVect', 'mulv', t_mulv)

    def t_addv(r, o, x, g, note):
        u, v = vec(r, 'u'), vec(r, 'v'); w = vals(u); z = vals(v); C.call(r, o, 'addv', u, v)
        note('sum', [q.v for q in vals(u)] == [(a.v + b.v) % P for a, b in zip(w, z)] and same(vals(v), z), 'does not add the second vector to the first')
    check('addFourVect', 'addv', t_addv)

    def t_dual(r, o, x, g, note):
        u = vec(r, 'u'); out = Ptr(Block('out')); C.call(r, o, 'dual', x, u, out)
        note('dual', [q.v for q in vals(out)] == [sum(g[i][j].v * lift(u.b.get(i)).v for i in range(4)) % P for j in range(4)], 'is not the one-form g(u,.)')
    check('dualOneForm', 'dual', t_dual)

    def t_proj(r, o, x, g, note):
        u, v = vec(r, 'u'), vec(r, 'v'); w = vals(u); z = vals(v); C.call(r, o, 'proj', x, u, v)
        d = [(a.v - b.v) % P for a, b in zip(vals(u), w)]
        note('orthogonal', dot(g, vals(u), z) == 0, 'the result is not orthogonal to the direction projected out')
        note('along', all(d[i] * z[j].v % P == d[j] * z[i].v % P for i in range(4) for j in range(4)), 'the vector changes by more than the direction projected out')
    check('projectFourVect', 'proj', t_proj)

    def t_tdot(r, o, x, g, note):
        v = vec(r, 'v', 3); t = lift(C.call(r, o, 'tdot', x, v))
        if t.v == 0: raise Redraw('spacelike')
        u = [t] + [mul(t, q) for q in vals(v, 3)]
        note('unit', dot(g, u, u) == M1, 'tdot(1,v) is not of norm -1')
        note('future', isqr(t.v), 'tdot is negative')
    check('SysPrimeToTdot', 'tdot', t_tdot)

    def t_nfv(r, o, x, g, note, eight=False):
        if eight:
            b = Block('coord')
            for i in range(4): b.c[i] = x.b.get(i)
            for i in range(4): b.c[4 + i] = r.rnd('u%d' % i, i == 0)
            u = Ptr(b, 4); w = vals(u); C.call(r, o, 'nfv8', Ptr(b))
        else:
            u = vec(r, 'u'); u.b.c[0] = r.rnd('u0'); w = vals(u); C.call(r, o, 'nfv', x, u)
        z = vals(u)
        if z[0].v == 0: raise Redraw('spacelike')
        note('unit', dot(g, z, z) == M1, 'the result is not of norm -1')
        note('direction', all(z[i].v * w[0].v % P == w[i].v * z[0].v % P for i in range(4)), 'the velocity changes direction')
    check('normalizeFourVel', 'nfv', t_nfv)
    check('normalizeFourVel8', 'nfv8', lambda *a: t_nfv(*a, eight=True))

    def t_null(r, o, x, g, note, two=False):
        b = Block('coord')
        for i in range(4): b.c[i] = x.b.get(i)
        for i in range(4): b.c[4 + i] = r.rnd('u%d' % i, False)
        w = vals(Ptr(b, 5), 3); pw = vals(Ptr(b), 4); q = Block('tdot2')
        if two: C.call(r, o, 'null2', Ptr(b), Ptr(q))
        else: C.call(r, o, 'null1', Ptr(b))
        u = vals(Ptr(b, 4))
        note('null', dot(g, u, u) == 0, 'the tangent vector is not null')
        note('spatial', same(vals(Ptr(b, 5), 3), w) and same(vals(Ptr(b), 4), pw), 'position or spatial components are changed')
        if two:
            u2 = [lift(q.get(0))] + u[1:]
            note('tdot2', dot(g, u2, u2) == 0, 'tdot2 is not a solution')
            note('other root', u2[0].v != u[0].v, 'tdot2 is not the other solution')
    check('nullifyCoord', 'null1', t_null)
    check('nullifyCoord2', 'null2', lambda *a: t_null(*a, two=True))

    def ortho(g, T, note, what):
        for i in range(4):
            for j in range(i):
                note('orthogonal', dot(g, T[i], T[j]) == 0, '%s %d and %d are not orthogonal' % (what, j, i))
            note('unit', dot(g, T[i], T[i]) in (1, M1), '%s %d is not of norm +-1' % (what, i))

    def t_gs(r, o, x, g, note):
        T = [vec(r, 'u%d' % i) for i in range(4)]; w = vals(T[0]); C.call(r, o, 'gs', x, *T)
        T = [vals(t) for t in T]; ortho(g, T, note, 'vectors')
        note('first', all(T[0][i].v * w[j].v % P == T[0][j].v * w[i].v % P for i in range(4) for j in range(4)), 'the first vector changes direction')
    check('GramSchmidt', 'gs', t_gs)

    def t_tet(r, o, x, g, note):
        T = [vec(r, 'fourvel')] + [Ptr(Block('screen%d' % i)) for i in (1, 2, 3)]
        # a unit four-velocity to start with
        a = dot(g, vals(T[0]), vals(T[0]))
        if isqr(a): raise Redraw('spacelike')
        s = r.sqrt(D(P - a))
        for i in range(4): T[0].b.c[i] = div(D(lift(T[0].b.get(i)).v), D(s.v))
        w = vals(T[0])
        C.call(r, o, 'tet', x, *T)
        V4 = [vals(t) for t in T]; ortho(g, V4, note, 'vectors of the tetrad')
        note('observer', all(V4[0][i].v * w[j].v % P == V4[0][j].v * w[i].v % P for i in range(4) for j in range(4)), 'the four-velocity of the observer changes direction')
    check('observerTetrad', 'tet', t_tet, cks=(1, 2))

    def t_zamo(r, o, x, g, note, cart=False):
        u = Ptr(Block('vel')); C.call(r, o, 'zamo', x, u); z = vals(u); w = dot(g, z, z)
        note('unit', w in (1, M1), 'not of norm -1')
        ph = [D(lift(x.b.get(i)).v) for i in range(4)]
        e = [D(0), D(0), D(0), D(1)] if r.ints.get('coordkind_') == 2 else [D(0), neg(ph[2]), ph[1], D(0)]
        note('orthogonal', dot(g, z, e) == 0, 'not orthogonal to the azimuthal direction')
    check('zamoVelocity', 'zamo', t_zamo, cks=(1, 2))

    gcirc = C.m(G, 'circ')
    def t_kep(r, o, x, g, note):
        # with Keplerian set, every class gives what Metric::Generic gives
        d = Fraction(1 if r.seed % 2 else -1)
        u = Ptr(Block('vel')); C.call(r, o, 'circ', x, u, d); z = vals(u)
        w = Ptr(Block('ref')); r.call(gcirc.id, o, [x, w, d])
        note('keplerian', same(z, vals(w)), 'does not return the Keplerian velocity although Keplerian is set')
        if z[0].v == 0: raise Redraw('spacelike')
        note('unit:keplerian', dot(g, z, z) == M1, 'not of norm -1')
        if r.ints['coordkind_'] == 2:
            note('circular:keplerian', z[1].v == 0 and z[2].v == 0, 'has a radial or polar part')
            note('rate:keplerian', pow(z[3].v * pow(z[0].v, P - 2, P), 2, P) == pow(mul(lift(x.b.get(1)), r.trig(x.b.get(2))[0]).v, P - 4, P), 'Omega^2 is not 1/rho^3')
            rate = z[3].v * pow(z[0].v, P - 2, P) % P; ok = isqr(lift(x.b.get(1)).v)
        else:
            X, Y = lift(x.b.get(1)).v, lift(x.b.get(2)).v; iz = pow(z[0].v, P - 2, P)
            note('circular:keplerian', z[3].v == 0 and (X * z[1].v + Y * z[2].v) % P == 0, 'has a radial or vertical part')
            rate = (X * z[2].v - Y * z[1].v) * iz % P; ok = True
            note('rate:keplerian', pow(rate, 4, P) == (X * X + Y * Y) % P, 'Omega^2 is not 1/rho^3')
        if ok and rate: note('sense:keplerian', isqr(rate) == (d > 0), 'turns in the direction opposite to the one asked for')
    cart = lambda c: c.endswith('KerrKS')
    check('circularVelocity', 'circ', t_kep, ints={'keplerian_': True}, cks=(2,), npoints=4)
    check('circularVelocity:cartesian', 'circ', t_kep, ints={'keplerian_': True}, cks=(1,), npoints=4)

    def t_geo(r, o, x, g, note):
        Z = []
        for d in (1, -1):
            u = Ptr(Block('vel')); C.call(r, o, 'circ', x, u, Fraction(d)); z = vals(u)
            if z[0].v == 0: raise Redraw('spacelike')
            note('unit', dot(g, z, z) == M1, 'not of norm -1')
            Z.append([q.v * pow(z[0].v, P - 2, P) % P for q in z])
            if cart(o.cls): continue
            note('circular', z[1].v == 0 and z[2].v == 0, 'has a radial or polar part')
            ch = gamma(g, inv4(g))
            for a in range(4):
                note('geodesic', sum(ch[a][i][j] * z[i].v * z[j].v for i in range(4) for j in range(4)) % P == 0, 'the orbit is not a geodesic (component %d of its acceleration)' % a)
        note('sense', Z[0] != Z[1], 'gives the same velocity for corotating and counterrotating orbits')
        if not cart(o.cls) and Z[0] != Z[1]:
            # roots of g_tt,r + 2 g_tp,r W + g_pp,r W^2: the corotating one is that of +sqrt
            a, b, c = g[3][3].d[1], g[0][3].d[1], g[0][0].d[1]; q = (b * b - a * c) % P
            if isqr(q) and q and a:
                W = (lift(r.sqrt(D(q))).v - b) * pow(a, P - 2, P) % P
                sense.setdefault(o.cls, []).append(1 if Z[0][3] == W else -1 if Z[1][3] == W else 0)
    sense = {}
    check('circularVelocity:equatorial', 'circ', t_geo, eq=True, cks=(2,), npoints=6, own=False)
    for c, l in sorted(sense.items()):
        if len(l) < 4 or 1 in l and -1 in l or 0 in l: R.count('undecided: sense of rotation of ' + c.split('::')[-1]); continue
        R.ob(c.split('::')[-1] + ':circularVelocity:corotating', C.m(c, 'circ').loc(), l[0] == 1, '%s: corotating and counterrotating orbits are exchanged' % c.replace('Gyoto::', ''))

    def t_nb(r, o, x, g, note):
        N = Block('N'); b = Ptr(Block('beta')); C.call(r, o, 'nbeta', x, Ptr(N), b)
        gi = inv4(g); n2 = -pow(gi[0][0].v, P - 2, P) % P
        note('lapse', V(N.get(0)) * V(N.get(0)) % P == n2, 'N^2 is not -1/g^tt')
        note('shift', all(V(b.b.get(i)) == n2 * gi[0][i + 1].v % P for i in range(3)), 'beta^i is not N^2 g^ti')
    check('computeNBeta', 'nbeta', t_nb, own=False)

    for w, why in C.undecided: R.count('undecided: %s (%s)' % (w, why))
    R.need('functions decided', st['n'], 8); R.count('points', st['pts'])
