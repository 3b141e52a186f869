"""Observer and sky geometry.  Random interpretation of the Screen: base vectors,
position of the observer, sky <-> coordinate conversions, and the initial ray of
every pixel or direction (with its polarisation basis), for both kinds of
coordinates, the kinds of angles, and observers at infinity or with a local
tetrad, on the Minkowski metric and on an arbitrary diagonal one."""
from metalg import *
LEVEL = 'proof'
ASSUME = ['Real arithmetic; rounding is out of scope.',
          'One-sided error probability below 1e-12 per identity (random interpretation over a 61-bit field).',
          'The observer is not on the z axis and looks within 90 degrees of its axis; positive numbers are represented by squares of the field.']
S = 'Gyoto::Screen'
MK = 'Gyoto::Metric::Minkowski'


def run(p, R):
    C = ctx(p)
    ms = {}
    for m in p.classes[S]['methods']: ms.setdefault(m['n'], []).append(m)

    def meth(n, *sig):
        r = [m['id'] for m in ms.get(n, ()) if all(s in m['id'] for s in sig)]
        return p.fns.get(r[0]) if len(r) == 1 else None
    F = {'base': meth('computeBaseVectors'), 'get': meth('getObserverPos'), 'set': meth('setObserverPos'), 'sky': meth('coordToSky'), 'unsky': meth('skyToCoord'), 'xyz': meth('coordToXYZ'),
         'ray': meth('getRayTriad', '(double,double'), 'pix': meth('getRayTriad', 'unsigned long'), 'c2s': None}
    for k in ('base', 'get', 'set', 'sky', 'unsky', 'xyz', 'ray', 'pix'):
        R.need('Screen method ' + k, F[k] is not None, 1)
    ul = [m['id'] for m in p.classes[G]['methods'] if m['n'] == 'unitLength' and '()' in m['id']]
    st = {'n': 0, 'pts': 0}
    s_dmax = lambda r: r.rnd('dMax')

    def point(ck, seed, script, ints=None, ak=1, dangle=False, cls=MK):
        extra = {i: (lambda r, t, a: r.rnd('ul')) for i in ul}
        r = RInt(p, seed, script, {**C.intr, **extra}, dict({'coordkind_': ck, '__defaultfeatures': 0, 'keplerian_': False, 'observerkind_': 0}, **(ints or {})))
        r.ints['npix_'] = r.rnd('npix')
        g = Obj(cls, 'm'); s = Obj(S, 's')
        if cls != MK: C.setup(r, g, cls)
        def put(n, v):
            m = meth(n, '(double)') or meth(n, '(int)') or meth(n, '(unsigned long)')
            if m is None: raise Unsupported('no setter ' + n)
            r.call(m.id, s, [v])
        r.call(meth('metric', 'SmartPointer<Gyoto::Metric::Generic>)').id, s, [g])
        for n in ('distance', 'dMax', 'fieldOfView', 'azimuthalFieldOfView'): put(n, r.rnd(n))
        put('time', r.rnd('time', False))
        for i, n in enumerate(('PALN', 'inclination', 'argument')): put(n, r.rnd(n, n == 'inclination' or seed % 2 == 0))
        for n in ('dangle1', 'dangle2'): put(n, r.rnd(n, seed % 2) if dangle else Fraction(0))
        put('anglekind', ak)
        return r, g, s

    KN = {1: 'Cartesian', 2: 'spherical'}; AN = {0: 'equatorial', 1: 'rectilinear', 2: 'spherical'}
    res = {}

    def note(key, f, ok, msg):
        if key not in res or res[key][1]: res[key] = (f, ok, msg)

    def sweep(name, body, n=3):
        d, e, why = C.sweep(name, body, n, tries=3000); st['pts'] += d
        if why is None: st['n'] += 1
        return d
    sub = lambda u, v: [add(x, y, -1).v for x, y in zip(u, v)]

    def cart(r, x, v=None):
        """Cartesian position, or components at x of the vector v, from spherical ones"""
        s, c = r.trig(x[2]); sp, cp = r.trig(x[3])
        er, et, ep = [mul(s, cp), mul(s, sp), c], [mul(c, cp), mul(c, sp), neg(s)], [neg(sp), cp, Fraction(0)]
        if v is None: return [lift(mul(x[1], q)) for q in er]
        w = [v[0], mul(x[1], v[1]), mul(mul(x[1], s), v[2])]
        return [lift(add(add(mul(w[0], a), mul(w[1], b)), mul(w[2], d))) for a, b, d in zip(er, et, ep)]

    def sky(r, s, xyz, ck, x=None):
        """sky components of a Cartesian vector: by the base vectors, read off coordToSky at positions of a Cartesian metric"""
        o = Ptr(Block('o')); b = Block('b')
        r.ints['coordkind_'] = 1; g = Obj(MK, 'mc'); old = s.f[GG]; q = Block('gg'); q.c[0] = g; s.f[GG] = q
        for i in range(3): b.c[1 + i] = xyz[i]
        b.c[0] = Fraction(0)
        r.call(F['sky'].id, s, [Ptr(b), o, 1]); s.f[GG] = old; r.ints['coordkind_'] = ck
        return vals(o, 3)
    GG = next((S + '::' + fl['n'] for fl in p.classes[S]['fields'] if 'SmartPointer<Gyoto::Metric::Generic>' in fl['t']), None)
    R.need('metric of the Screen', GG is not None, 1)

    # ---- positions
    for ck in (1, 2):
        kn = KN[ck]
        def body(seed, script):
            r, g, s = point(ck, seed, script); body.r = r
            r0 = div(r.rnd('distance'), r.rnd('ul'))
            b = Ptr(Block('c')); r.call(F['get'].id, s, [b]); x = vals(b)
            o = Ptr(Block('o')); r.call(F['sky'].id, s, [b, o, 1]); k = vals(o, 3)
            note('observer:%s:on axis' % kn, F['get'], k[0].v == 0 and k[1].v == 0 and add(k[2], r0).v == 0, 'the observer is not at (0,0,-distance) of the sky frame, in %s coordinates' % kn)
            note('observer:%s:date' % kn, F['get'], mul(x[0], r.rnd('ul')).v == mul(r.rnd('time', False), Fraction(299792458)).v, 'the date of the observer is not c times the observing time, in geometrical units')
            # rotation
            v = vec(r, 'v', 4); u = vec(r, 'u', 4); vo, uo, wo = (Ptr(Block('o%d' % i)) for i in range(3))
            if ck == 2: u.b.c[1] = r.rnd('u1'); v.b.c[1] = r.rnd('v1')
            r.call(F['sky'].id, s, [v, vo, 1]); r.call(F['sky'].id, s, [u, uo, 1]); r.call(F['sky'].id, s, [v, wo, 0])
            V3, U3 = vals(vo, 3), vals(uo, 3); cv = vals(v)[1:] if ck == 1 else cart(r, vals(v)); cu = vals(u)[1:] if ck == 1 else cart(r, vals(u))
            d = lambda a, b: sum(p.v * q.v for p, q in zip(a, b)) % P
            note('coordToSky:%s:isometry' % kn, F['sky'], d(V3, U3) == d(cv, cu), 'distances and angles change between %s coordinates and the sky frame' % kn)
            note('coordToSky:%s:unit' % kn, F['sky'], [q.v for q in vals(wo, 3)] == [mul(q, r.rnd('ul')).v for q in V3], 'sky coordinates in metres are not unitLength times those in geometrical units')
            if ck == 1:
                z = vec(r, 'z', 4); zo = Ptr(Block('z')); r.call(F['sky'].id, s, [z, zo, 1])
                det = lambda a, b, c: (a[0].v * (b[1].v * c[2].v - b[2].v * c[1].v) - a[1].v * (b[0].v * c[2].v - b[2].v * c[0].v) + a[2].v * (b[0].v * c[1].v - b[1].v * c[0].v)) % P
                note('coordToSky:%s:handed' % kn, F['sky'], det(V3, U3, vals(zo, 3)) == det(cv, cu, vals(z)[1:]), 'the sky frame is a mirror image')
            for gm in (1, 0):
                o = Ptr(Block('o')); r.call(F['sky'].id, s, [v, o, gm]); w = Ptr(Block('w')); w.b.c[0] = v.b.get(0)
                r.call(F['unsky'].id, s, [o, w, gm]); cw = vals(w)[1:] if ck == 1 else cart(r, vals(w))
                note('skyToCoord:%s:%s' % (kn, 'geometrical' if gm else 'metres'), F['unsky'], sub(cw, cv) == [0, 0, 0], 'does not undo coordToSky in %s coordinates' % kn)
            o = Ptr(Block('o')); r.call(F['xyz'].id, s, [v, o])
            note('coordToXYZ:' + kn, F['xyz'], sub(vals(o, 3), cv) == [0, 0, 0], 'does not give the Cartesian position from %s coordinates' % kn)
            # setting the position
            w = vec(r, 'w', 4); w.b.c[1] = r.rnd('w1'); w.b.c[3] = r.rnd('w3'); w.b.c[2] = r.rnd('w2'); t = vals(w)
            r.call(F['set'].id, s, [w]); o = Ptr(Block('o')); r.call(F['get'].id, s, [o]); q = vals(o)
            a, b = (t[1:], q[1:]) if ck == 1 else (cart(r, t), cart(r, q))
            note('setObserverPos:%s' % kn, F['set'], sub(a, b) == [0, 0, 0], 'getObserverPos does not return the position that was set, in %s coordinates' % kn)
            note('setObserverPos:%s:date' % kn, F['set'], t[0].v == q[0].v, 'getObserverPos does not return the date that was set')
            o = Ptr(Block('o')); wb = Ptr(Block('wb'))
            for i in range(4): wb.b.c[i] = t[i]
            r.call(F['sky'].id, s, [wb, o, 1]); k = vals(o, 3)
            note('setObserverPos:%s:axis' % kn, F['set'], k[0].v == 0 and k[1].v == 0, 'the base vectors do not follow the position that was set')
            return r
        sweep('positions ' + kn, body)

    # ---- rays
    def expect(r, ak, a1, a2):
        """direction of view in the frame of the screen"""
        if ak == 0: s1, c1 = r.trig(a1); s2, c2 = r.trig(a2); return [mul(s1, c2), s2, mul(c1, c2)]
        if ak == 1: h = inv(r.sqrt(add(add(1, mul(a1, a1)), mul(a2, a2)))); return [mul(a1, h), mul(a2, h), h]
        s1, c1 = r.trig(a1); s2, c2 = r.trig(a2); return [mul(s1, c2), mul(s1, s2), c1]

    def ray(r, s, a1, a2, polar=0, f='ray'):
        c = Ptr(Block('coord')); e = Ptr(Block('Ephi')); h = Ptr(Block('Etheta'))
        r.call(F[f].id, s, [a1, a2, c, polar, e, h]); return c, e, h

    def seen(r, s, c, v, ck):
        x = vals(c, 4); v = [lift(q) for q in v]
        return sky(r, s, v if ck == 1 else cart(r, x, v), ck)

    for ck in (1, 2):
        for ak in (0, 1, 2):
            nm = '%s:%s' % (KN[ck], AN[ak])
            def body(seed, script):
                r, g, s = point(ck, seed, script, ak=ak); body.r = r
                a1, a2 = r.rnd('a1', seed % 2 == 0), r.rnd('a2', seed % 3 == 0)
                far = r.less(s_dmax(r), div(r.rnd('distance'), r.rnd('ul')))
                sc = div(div(r.rnd('distance'), r.rnd('ul')), s_dmax(r)) if far else Fraction(1)
                A1, A2 = lift(mul(a1, sc)), lift(mul(a2, sc))
                if ak == 2: r.bounds[A1.v] = ((0, PI), (-PI, 0), (PI, 2 * PI))[seed % 3]; r.bounds[A2.v] = ((0, 2 * PI), (-2 * PI, 0))[seed % 2]
                e = expect(r, ak, A1, A2)
                if ak == 0 and not isqr(lift(r.trig(mul(a2, sc))[1]).v): raise Redraw('looking backwards')
                try: c, ep, et = ray(r, s, a1, a2, 1)
                except Undef as x: note('ray:%s:complete' % nm, F['ray'], False, str(x)); return r
                x = vals(c, 4); k = vals(Ptr(c.b, 4), 4)
                n = seen(r, s, c, k[1:], ck)
                note('ray:%s:direction' % nm, F['ray'], sub([neg(q) for q in n], e) == [0, 0, 0], 'the photon does not come from the direction given by the %s angles, in %s coordinates' % (AN[ak], KN[ck]))
                note('ray:%s:null' % nm, F['ray'], k[0].v == 1, 'the photon is not a null, future-directed vector on flat space')
                ob = Ptr(Block('obs')); r.call(F['get'].id, s, [ob]); xo = vals(ob); rd = s_dmax(r) if far else div(r.rnd('distance'), r.rnd('ul'))
                xs = x[1:] if ck == 1 else cart(r, x); ps = sky(r, s, xs, ck)
                note('ray:%s:position' % nm, F['ray'], ps[0].v == 0 and ps[1].v == 0 and add(ps[2], rd).v == 0, 'the ray does not start at the observer (or, further than dMax, at dMax on the line of sight)')
                note('ray:%s:date' % nm, F['ray'], x[0].v == add(xo[0], add(div(r.rnd('distance'), r.rnd('ul')), rd, -1), -1).v, 'the date of the ray is not that of the observer, less the light travel time from dMax')
                E1, E2 = seen(r, s, c, vals(ep)[1:], ck), seen(r, s, c, vals(et)[1:], ck)
                d = lambda a, b: sum(p.v * q.v for p, q in zip(a, b)) % P
                note('polar:%s:orthonormal' % nm, F['ray'], (d(E1, E1), d(E2, E2), d(E1, E2)) == (1, 1, 0) and vals(ep)[0].v == 0 and vals(et)[0].v == 0, 'Ephi and Etheta are not orthonormal')
                note('polar:%s:transverse' % nm, F['ray'], d(E1, n) == 0 and d(E2, n) == 0, 'Ephi or Etheta is not orthogonal to the ray')
                return r
            sweep('ray ' + nm, body)
    # ---- local observers see the same sky as observers at infinity, on flat space
    for ck in (2,):
        for ak in (0, 1):
            nm = '%s:%s' % (KN[ck], AN[ak])
            def body(seed, script):
                out = []
                for ob in (0, 2):
                    r, g, s = point(ck, seed, script, ak=ak, ints={'observerkind_': ob}, dangle=True); body.r = r
                    if r.less(s_dmax(r), div(r.rnd('distance'), r.rnd('ul'))): raise Redraw('far')
                    a1, a2 = r.rnd('a1', seed % 2 == 0), r.rnd('a2', seed % 3 == 0)
                    c, ep, et = ray(r, s, a1, a2, 0); k = vals(Ptr(c.b, 4), 4)
                    out.append([k[0]] + seen(r, s, c, k[1:], ck))
                note('observers:%s' % nm, F['ray'], sub(*out) == [0] * 4, 'a static local observer does not see in flat space what an observer at infinity sees')
                return r
            sweep('observers ' + nm, body)
    # ---- pointing offsets
    det = lambda a, b, c: (a[0].v * (b[1].v * c[2].v - b[2].v * c[1].v) - a[1].v * (b[0].v * c[2].v - b[2].v * c[0].v) + a[2].v * (b[0].v * c[1].v - b[1].v * c[0].v)) % P
    d = lambda a, b: sum(p.v * q.v for p, q in zip(a, b)) % P
    ck = 1
    for ak in (0, 1, 2):
        def body(seed, script):
            r, g, s = point(ck, seed, script, ak=ak, dangle=True); body.r = r
            if r.less(s_dmax(r), div(r.rnd('distance'), r.rnd('ul'))): raise Redraw('far')
            ns, es = [], []
            for i in range(3):
                a1, a2 = r.rnd('a1%d' % i, False), r.rnd('a2%d' % i, False)
                if ak == 2:
                    A1, A2 = add(a1, r.rnd('dangle1', seed % 2)), add(a2, r.rnd('dangle2', seed % 2))
                    r.bounds[lift(A1).v] = ((0, PI), (-PI, 0))[seed % 2]; r.bounds[lift(A2).v] = ((0, 2 * PI), (-2 * PI, 0))[seed % 2]
                else: A1, A2 = a1, a2
                e = expect(r, ak, A1, A2)
                if ak == 0 and not isqr(lift(r.trig(a2)[1]).v): raise Redraw('looking backwards')
                c, ep, et = ray(r, s, a1, a2, 1); n = seen(r, s, c, vals(Ptr(c.b, 4), 4)[1:], ck)
                ns.append([neg(q) for q in n]); es.append([lift(q) for q in e])
                E1, E2 = seen(r, s, c, vals(ep)[1:], ck), seen(r, s, c, vals(et)[1:], ck)
                note('offset:%s:transverse' % AN[ak], F['ray'], d(E1, n) == 0 and d(E2, n) == 0, 'Ephi or Etheta is not orthogonal to the ray when the field of view is offset')
            if ak == 2: ok = all(sub(a, b) == [0, 0, 0] for a, b in zip(ns, es))
            else: ok = all(d(ns[i], ns[j]) == d(es[i], es[j]) for i in range(3) for j in range(3)) and det(*ns) == det(*es)
            note('offset:%s:rigid' % AN[ak], F['ray'], ok, 'the offsets dangle1 and dangle2 do not move the field of view as a whole')
            return r
        sweep('offset ' + AN[ak], body)
    for ak, which in ((0, 1), (0, 2), (1, 1), (1, 2)):
        def body(seed, script):
            r, g, s = point(ck, seed, script, ak=ak); body.r = r
            if r.less(s_dmax(r), div(r.rnd('distance'), r.rnd('ul'))): raise Redraw('far')
            dl = r.rnd('dl', seed % 2); r.call(meth('dangle%d' % which, '(double)').id, s, [dl])
            eps = r.rnd('eps', True)
            a = [Fraction(0), Fraction(0)]; a[2 - which] = eps      # off axis by the other angle, to avoid the pole of the frame
            c, ep, et = ray(r, s, a[0], a[1], 0); n = [neg(q) for q in seen(r, s, c, vals(Ptr(c.b, 4), 4)[1:], ck)]
            sd, cd = r.trig(dl); w = expect(r, ak, *a)
            i = which - 1       # component along the angle offset; the axis of the screen turns towards increasing angle
            note('offset:%s:dangle%d' % (AN[ak], which), F['ray'], lift(n[i]).v == lift(mul(sd, w[2])).v, 'dangle%d is not an increment to the angle it offsets' % which)
            return r
        sweep('dangle%d %s' % (which, AN[ak]), body)
    # ---- null on a curved metric
    for cls, ck in (('Gyoto::Metric::KerrBL', 2), ('Gyoto::Metric::KerrKS', 1)):
        if cls not in p.classes: continue
        for ob in (0,):
            def body(seed, script):
                r, g, s = point(ck, seed, script, ak=1, ints={'observerkind_': ob}, cls=cls); body.r = r
                c, ep, et = ray(r, s, r.rnd('a1', False), r.rnd('a2', False), 0)
                gm = C.metric(r, g, c); k = vals(Ptr(c.b, 4), 4)
                note('null:%s' % cls.split('::')[-1], F['ray'], dot(gm, k, k) == 0, 'the photon is not a null vector of %s' % cls.split('::')[-1])
                return r
            sweep('null %s %d' % (cls, ob), body, 1)
    # ---- pixels
    for ak in (0, 1, 2):
        def body(seed, script):
            r, g, s = point(1, seed, script, ak=ak); body.r = r
            n = r.rnd('npix'); i, j = r.rnd('i'), r.rnd('j'); fov = r.rnd('fieldOfView'); mid = mul(add(n, 1), Fraction(1, 2))
            if ak == 0: q = div(fov, n); e = mul(neg(q), add(i, mid, -1)), mul(q, add(j, mid, -1))
            elif ak == 1:
                sh, ch = r.trig(mul(fov, Fraction(1, 2))); q = div(mul(2, div(sh, ch)), n); e = mul(neg(q), add(i, mid, -1)), mul(q, add(j, mid, -1))
            else: e = mul(div(add(i, 1, -1), add(n, 1, -1)), mul(fov, Fraction(1, 2))), add(PI, mul(div(add(j, 1, -1), add(n, 1, -1)), r.rnd('azimuthalFieldOfView')), -1)
            got = []
            r.intr[F['ray'].id] = lambda r, t, a: got.append((lift(a[0]).v, lift(a[1]).v))
            ray(r, s, i, j, 0, 'pix')
            if not got: raise Unsupported('pixel rays do not go through their angles')
            note('pixel:%s' % AN[ak], F['pix'], got == [(lift(e[0]).v, lift(e[1]).v)], 'pixel (i,j) is not at its place in the field of view, with %s angles' % AN[ak])
            return r
        sweep('pixel ' + AN[ak], body)
    for (key, (f, ok, msg)) in sorted(res.items()):
        R.ob(key, f.loc(), ok, '%s: %s' % (f.q.replace('Gyoto::', ''), msg))
    for n, w in C.undecided: R.count('undecided: %s (%s)' % (n, w))
    R.counts['configurations decided'] = st['n']; R.counts['points'] = st['pts']
    R.need('configurations', st['n'], 15)
