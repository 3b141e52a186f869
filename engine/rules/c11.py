"""Connection.  For every analytic metric, gmunu is numbered together with its
partial derivatives (random interpretation over dual numbers) and: jacobian is
its gradient, gmunu_up_and_jacobian gives the inverse and the gradient,
christoffel (matrix form and component form, own or inherited) gives the
Levi-Civita connection of gmunu, completely set, symmetric, and reports success.
The default jacobian is shown to be exact on every metric affine in the
coordinates, the default christoffel and gmunu_up_and_jacobian to be right for an
arbitrary metric."""
from metalg import *
LEVEL = 'proof'
ASSUME = ['Real arithmetic; the truncation error of the numerical default jacobian and rounding are out of scope.',
          'One-sided error probability below 1e-12 per identity (random interpretation over a 61-bit field).',
          'Square roots of a visible square y*y are taken for y>0.']


def conn(C, R, tag, cls, ck, extra=None, npoints=2):
    res = {}
    def note(key, ok, k, msg):
        if key not in res or res[key][0]: res[key] = (ok, k, msg)
    def body(seed, script):
        r, o, x = C.point(cls, ck, seed, script, extra=extra); body.r = r
        try: g = C.metric(r, o, x)
        except Undef: return r
        gi = inv4(g); ch = gamma(g, gi)
        def guard(k, f):
            try: f()
            except ErrPath: pass
            except Undef as e: note('complete:' + k, False, k, str(e))
        def jac():
            J, _ = C.mat(r, o, 'jac', x)
            for a in range(4):
                for i in range(4):
                    for j in range(4): note('jacobian:%d' % a, V(J.get(16 * a + 4 * i + j)) == g[i][j].d[a], 'jac', 'jacobian[%d][%d][%d] is not the derivative of g' % (a, i, j))
        def uj():
            J = Block('J'); u = Block('u'); C.call(r, o, 'uj', Ptr(u), Ptr(J), x)
            for a in range(4):
                for i in range(4):
                    note('gmunu_up_and_jacobian:up', V(u.get(4 * a + i)) == gi[a][i].v, 'uj', 'element %d%d is not that of the inverse' % (a, i))
                    for j in range(4): note('gmunu_up_and_jacobian:jac', V(J.get(16 * a + 4 * i + j)) == g[i][j].d[a], 'uj', 'jacobian[%d][%d][%d] is not the derivative of g' % (a, i, j))
        def cm():
            c, rv = C.mat(r, o, 'cm', x)
            if rv != 0: return
            for a in range(4):
                for i in range(4):
                    for j in range(4): note('christoffel:%d%d%d' % (a, i, j), V(c.get(16 * a + 4 * i + j)) == ch[a][i][j], 'cm', 'Gamma^%d_%d%d is not that of the metric' % (a, i, j))
        def cc():
            for a in range(4):
                for i in range(4):
                    for j in range(4): note('component:%d%d%d' % (a, i, j), V(C.call(r, o, 'cc', x, a, i, j)) == ch[a][i][j], 'cc', 'christoffel(pos,%d,%d,%d) is not that of the metric' % (a, i, j))
        guard('jac', jac); guard('uj', uj); guard('cm', cm); guard('cc', cc)
        return r
    d, e, why = C.sweep(tag, body, npoints)
    for key, (ok, k, msg) in sorted(res.items()):
        f = C.m(cls, k)
        R.ob('%s:%s' % (tag, key), f.loc(), ok, '%s: %s' % (f.q.replace('Gyoto::', ''), msg))
    return d, len(res)


def abstract(p, C):
    """an arbitrary metric: symmetric coefficients with arbitrary gradients"""
    def coef(r, i, j, x=None):
        i, j = min(i, j), max(i, j)
        return D(r.rnd('g%d%d' % (i, j), False).v, tuple(r.rnd('dg%d%d%d' % (a, i, j), False).v for a in range(4)))
    def gm(r, this, a):
        for i in range(4):
            for j in range(4): a[0].b.c[a[0].o + 4 * i + j] = coef(r, i, j)
    def gc(r, this, a): return coef(r, a[1], a[2])
    return {C.M['gm']: gm, C.M['gc']: gc}


def run(p, R):
    C = ctx(p); n = pts = 0
    for cls in C.classes:
        sh = cls.split('::')[-1]
        for ck in ((1, 2) if sh == 'Minkowski' else (2,)):
            d, k = conn(C, R, sh + (':cartesian' if sh == 'Minkowski' and ck == 1 else ''), cls, ck, None, 1 if sh in ('ChernSimons', 'KerrKS') else 3 if sh == 'Hayward' else 2)
            pts += d; n += k >= 8
    d, k = conn(C, R, 'any metric', G, 2, abstract(p, C), 1); pts += d; n += k > 60
    # default numerical jacobian: exact for affine coefficients
    f = p.fns.get(C.M['jac']); bad = []
    def affine(r, this, a):
        xs = [lift(a[1].b.get(a[1].o + q)) for q in range(4)]
        for i in range(4):
            for j in range(4):
                v = r.rnd('c%d%d' % (min(i, j), max(i, j)), False)
                for q in range(4): v = add(v, mul(r.rnd('s%d%d%d' % (q, min(i, j), max(i, j)), False), xs[q]))
                a[0].b.c[a[0].o + 4 * i + j] = v
    def body(seed, script):
        intr = dict(C.intr); del intr[C.M['jac']]; intr[C.M['gm']] = affine
        r = RInt(p, seed, script, intr, {'coordkind_': 2, '__defaultfeatures': 0}); body.r = r
        o = Obj(G, 'm'); x = C.pos(r); J = Block('J')
        try:
            r.call(f.id, o, [Ptr(J), x])
            for a in range(4):
                for i in range(4):
                    for j in range(4):
                        if V(J.get(16 * a + 4 * i + j)) != r.rnd('s%d%d%d' % (a, min(i, j), max(i, j)), False).v: bad.append((a, i, j))
        except Undef as e: bad.append(str(e))
        return r
    d, e, why = C.sweep('default jacobian', body, 2); pts += d
    if d: R.ob('default jacobian', f.loc(), not bad, 'the default jacobian is not a difference quotient of gmunu: element %s' % (bad[:1],)); n += 1
    for w, why in C.undecided: R.count('undecided: %s (%s)' % (w, why))
    R.need('metrics decided', n, 4); R.count('points', pts)
