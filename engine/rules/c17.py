"""Where objects are and how they move.  Random interpretation, with an arbitrary
object position: the location functions of every astronomical object (operator(),
deltaMax, projected radius and azimuth), the Cartesian and sky positions of world
lines and the conversion of velocities give the same answer for the same physical
point in Cartesian and in spherical coordinates; the sphere and the torus are at
their Euclidean place; normalising angles keeps the point; and four-velocities of
emitting matter are unit, future-directed vectors of any stationary axisymmetric
metric, with the Lorentz factor, sense and profile asked for."""
from metalg import *
from c15 import put, eq
import proptab
LEVEL = 'proof'
ASSUME = ['Real arithmetic; rounding is out of scope.',
          'One-sided error probability below 1e-12 per identity (random interpretation over a 61-bit field).',
          'Four-velocities: metrics of the Kerr form (only t-phi cross terms), outside ergosphere and horizon.']
A = 'Gyoto::Astrobj::Generic'
W = 'Gyoto::Worldline'
# velocities read from a table, or declared arbitrary where the matter does not shine
ARBITRARY = ('FreeStar', 'DynamicalDisk', 'DynamicalDisk3D', 'PatternDisk', 'ThinDiskIronLine', 'Disk3D', 'FlaredDiskSynchrotron', 'ThinDiskGridIntensity', 'SimBridge', 'NeutronStar')
MOTION = {'Blob': ('blobMotionType_', ('Equatorial', 'HelicalConical', 'HelicalCylindrical')), 'Plasmoid': ('flag_', ('Helical', 'Equatorial'))}
WANT = ('operator()', 'deltaMax', 'projectedRadius', 'sphericalPhi', 'getVelocity')


def reduce_add(l):
    s = Fraction(0)
    for x in l: s = add(s, x)
    return s


def run(p, R):
    C = ctx(p); st = {'n': 0, 'pts': 0}; res = {}
    def note(key, f, ok, msg):
        if key not in res or res[key][1]: res[key] = (f, ok, msg)
    def sweep(name, body, n=3, tries=600):
        d, e, why = C.sweep(name, body, n, tries=tries); st['pts'] += d
        if why is None: st['n'] += 1
        return why

    def place(r, ck, th=None):
        """the same physical point, in the kind of coordinates asked for (with velocity)"""
        R0, TH, PH = r.rnd('r'), r.rnd('th') if th is None else th, r.rnd('ph')
        s, c = r.trig(TH); sp, cp = r.trig(PH)
        b = Block('pos'); b.c[0] = r.rnd('t', False)
        v = [r.rnd('v%d' % i, False) for i in range(3)]; ut = r.rnd('ut')
        er, et, ep = [mul(s, cp), mul(s, sp), c], [mul(c, cp), mul(c, sp), neg(s)], [neg(sp), cp, Fraction(0)]
        if ck == 2: q = [R0, TH, PH]; w = v
        else:
            q = [mul(R0, x) for x in er]; h = [v[0], mul(R0, v[1]), mul(mul(R0, s), v[2])]
            w = [add(add(mul(h[0], x), mul(h[1], y)), mul(h[2], z)) for x, y, z in zip(er, et, ep)]
        for i in range(3): b.c[1 + i] = q[i]; b.c[5 + i] = w[i]
        b.c[4] = ut
        xyz = [lift(mul(R0, x)) for x in er]; h = [v[0], mul(R0, v[1]), mul(mul(R0, s), v[2])]
        vx = [lift(div(add(add(mul(h[0], x), mul(h[1], y)), mul(h[2], z)), ut)) for x, y, z in zip(er, et, ep)]
        if not isqr(lift(s).v): raise Redraw('theta')
        return Ptr(b), xyz, vx

    def rint(seed, script, ck, harm=False):
        r = RInt(p, seed, script, dict(C.intr), {'coordkind_': ck, '__defaultfeatures': 0})
        r.intr[('obj', 'coordKind')] = lambda r, o, a: ck
        r.intr[('obj', 'unitLength')] = lambda r, o, a: r.rnd('ul')
        return r
    sub = lambda u, v: [add(x, y, -1).v for x, y in zip(u, v)]

    # ---- world lines and velocities
    cv = next((p.fns[m['id']] for m in p.classes[G]['methods'] if m['n'] == 'cartesianVelocity' and m['id'] in p.fns), None)
    wl = {}
    for m in p.classes[W]['methods']:
        if m['id'] in p.fns: wl.setdefault(m['n'], []).append(p.fns[m['id']])
    gc = next((f for f in wl.get('getCartesian', ()) if len(f.d['params']) == 8), None)
    co = next((f for f in wl.get('getCoord', ()) if len(f.d['params']) >= 9), None)
    xyz3 = next((f for f in wl.get('get_xyz', ())), None); sky = next((f for f in wl.get('getSkyPos', ())), None); cpt = next((f for f in wl.get('checkPhiTheta', ())), None)
    R.need('world line conversions', sum(x is not None for x in (cv, gc, co, xyz3, sky, cpt)), 6)
    for ck in (1, 2):
        kn = {1: 'Cartesian', 2: 'spherical'}[ck]
        def body(seed, script):
            r = rint(seed, script, ck); body.r = r; x, X, VX = place(r, ck); g = Obj(G, 'm')
            o = Ptr(Block('vel')); r.call(cv.id, g, [x, o])
            note('cartesianVelocity:' + kn, cv, sub(vals(o, 3), VX) == [0, 0, 0], 'is not the derivative of the Cartesian position with respect to time, in %s coordinates' % kn)
            w = Obj(W, 'w'); put(w, p, W, 'metric_', g)
            def coord(r, t, a):
                for i, q in enumerate((1, 2, 3, 4, 5, 6, 7)):
                    if isinstance(a[2 + i], Ptr): a[2 + i].b.c[a[2 + i].o] = x.b.get(q)
            r.intr[co.id] = coord
            out = [Ptr(Block('o%d' % i)) for i in range(6)]
            t = Block('date'); t.c[0] = x.b.get(0)
            r.call(gc.id, w, [Ptr(t), 1] + out)
            note('getCartesian:%s:position' % kn, gc, sub([q.b.get(q.o) for q in out[:3]], X) == [0, 0, 0], 'is not the Cartesian position, in %s coordinates' % kn)
            note('getCartesian:%s:velocity' % kn, gc, sub([q.b.get(q.o) for q in out[3:]], VX) == [0, 0, 0], 'does not give the time derivative of the Cartesian position, in %s coordinates' % kn)
            for q, nm in enumerate(('x0_', 'x1_', 'x2_', 'x3_')):
                b = Block(nm); b.c[4] = x.b.get(q); b.c[5] = add(x.b.get(q), 1); put(w, p, W, nm, Ptr(b))
            put(w, p, W, 'imin_', 4); put(w, p, W, 'imax_', 4)
            out = [Ptr(Block('o%d' % i)) for i in range(3)]; r.call(xyz3.id, w, out)
            note('get_xyz:' + kn, xyz3, sub([q.b.get(q.o) for q in out], X) == [0, 0, 0], 'is not the Cartesian position, in %s coordinates' % kn)
            if ck == 2:
                for rt in range(6):
                    y = Block('y')
                    for q in range(8): y.c[q] = x.b.get(q)
                    th, ph = y.c[2], y.c[3]
                    y.c[2] = (add(th, 0), neg(th), add(th, 2 * PI), add(neg(th), 2 * PI), neg(add(th, 2 * PI)), add(th, 0))[rt]
                    y.c[3] = (ph, ph, ph, ph, add(ph, 2 * PI), add(ph, 2 * PI, -1))[rt]
                    if rt in (1, 3, 4): y.c[6] = neg(y.c[6])
                    r.bounds[th.v] = (Fraction(0), PI); r.bounds[lift(ph).v] = (Fraction(0), 2 * PI)
                    for q in (2, 3):
                        z = lift(y.c[q])
                    def pt(b):
                        s, c = r.trig(b.c[2]); sp, cp = r.trig(b.c[3]); R0 = b.c[1]
                        er, et, ep = [mul(s, cp), mul(s, sp), c], [mul(c, cp), mul(c, sp), neg(s)], [neg(sp), cp, Fraction(0)]
                        h = [b.c[5], mul(R0, b.c[6]), mul(mul(R0, s), b.c[7])]
                        return [lift(mul(R0, q)) for q in er] + [lift(add(add(mul(h[0], q), mul(h[1], y)), mul(h[2], z))) for q, y, z in zip(er, et, ep)]
                    old = pt(y); r.call(cpt.id, w, [Ptr(y)]); new = pt(y)
                    note('checkPhiTheta:same point', cpt, sub(old[:3], new[:3]) == [0] * 3, 'bringing the angles back to their range moves the point')
                    note('checkPhiTheta:same velocity', cpt, sub(old[3:], new[3:]) == [0] * 3, 'bringing the angles back to their range changes the velocity')
            return r
        sweep('world lines ' + kn, body)

    # ---- objects: same place in both kinds of coordinates
    classes = [c for c in sorted(p.classes) if c.startswith('Gyoto::Astrobj::') and p.is_a(c, A) and c != A]
    centre = [f for f in p.fns.values() if f.n == 'getCartesian' and len(f.d['params']) == 8]
    seenf = set(); KIND = ['any']
    for cls in classes:
        for c in [cls]:
            for m in p.classes[c]['methods']:
                f = p.fns.get(m['id'])
                if f is None or f.n not in WANT or f.id in seenf or not f.d['params'] or 'double' not in f.d['params'][0].get('t', str(f.d['params'][0])): continue
                if not any(f.nodes[i] and f.nodes[i].get('n') == 'coordKind' for i in f.walk()): continue
                seenf.add(f.id); tag = '%s::%s' % (c.split('::')[-1], f.n)
                def body(seed, script):
                    out = []
                    for ck in (1, 2):
                        r = rint(seed, script, ck); body.r = r
                        x, X, VX = place(r, ck, PI2 if ('Disk' in c and f.n != 'deltaMax') else None)
                        cc0 = c
                        if c.endswith('::UniformSphere'): cc0 = 'Gyoto::Astrobj::Star'
                        o = Obj(cc0, 'o'); g = Obj(None, 'metric'); put(o, p, cc0, 'gg_', g)
                        cen = [r.rnd('cen%d' % i, False) for i in range(3)]
                        def cart(r, t, a):
                            for i in range(3): a[2 + i].b.c[a[2 + i].o] = cen[i]
                        for q in centre: r.intr[q.id] = cart
                        r.intr[('obj', 'kind')] = lambda r, o, a: KIND[0]
                        r.intr[('obj', 'circularVelocity')] = lambda r, o, a: rec.append(('circ', a[0]))
                        rec = []; x.b.c[0] = r.rnd('t', False)
                        args = [x] + ([Ptr(Block('vel'))] if len(f.d['params']) > 1 else [])
                        r.free = True
                        try: v = r.call(f.id, o, args)
                        except Undef as e: raise Unsupported(str(e))
                        if f.n == 'getVelocity':
                            if len(rec) != 1: raise Unsupported('not circular')
                            q = vals(rec[0][1])
                            if ck == 2: s, cc = r.trig(q[2]); sp, cp = r.trig(q[3]); v = [lift(z) for z in (mul(mul(q[1], s), cp), mul(mul(q[1], s), sp), mul(q[1], cc))]
                            else: v = q[1:]
                            out.append(v)
                        else: out.append([lift(v)])
                        if f.n == 'sphericalPhi': out[-1] = [lift(q) for q in r.trig(v)]
                        if tag == 'UniformSphere::operator()':
                            k = lambda X: add(1, inv(r.sqrt(add(add(mul(X[0], X[0]), mul(X[1], X[1])), mul(X[2], X[2]))))) if KIND[0] != 'any' else Fraction(1)
                            a, b = k(X), k(cen); d2 = Fraction(0)
                            for i in range(3): q = add(mul(X[i], a), mul(cen[i], b), -1); d2 = add(d2, mul(q, q))
                            if KIND[0] == 'any' or ck == 2: note(tag + ':distance' + ('' if KIND[0] == 'any' else ':harmonic'), f, lift(v).v == lift(d2).v, 'is not the square of the distance to the centre' + ('' if KIND[0] == 'any' else ' (both measured in r+1, in harmonic coordinates)'))
                    if KIND[0] == 'any': note(tag + ':frame', f, [q.v for q in out[0]] == [q.v for q in out[1]], 'depends on whether the coordinates are Cartesian or spherical')
                    return r
                why = sweep(tag, body)
                if tag == 'UniformSphere::operator()': KIND[0] = 'SchwarzschildHarmonic'; sweep(tag + ' harmonic', body); KIND[0] = 'any'

    # ---- four-velocities of matter, in any metric of the Kerr form
    vfn = []
    for cls in classes:
        for m in p.classes[cls]['methods']:
            f = p.fns.get(m['id'])
            if f is not None and f.n == 'getVelocity' and len(f.d['params']) == 2 and f.id not in [q[0].id for q in vfn]: vfn.append((f, cls))
    R.need('velocity fields', len(vfn), 18)
    names = {1: 'first', 2: 'second'}
    decided = set()
    for f, cls in vfn:
        nm = cls.split('::')[-1]
        if nm in ARBITRARY: continue
        undl = []
        for val in range(0, 8):
            def body(seed, script):
                r = rint(seed, script, 2); body.r = r; r.free = True
                r.anyint = val; r.ints['dir_'] = 1 if val % 2 else -1
                x, X, VX = place(r, 2); o = Obj(cls, 'o'); g = Obj(None, 'metric'); put(o, p, cls, 'gg_', g)
                if nm == 'OscilTorus': put(o, p, cls, 'kerrbl_', g)
                if 'Torus' in nm and nm != 'Torus': put(o, p, cls, 'perturb_kind_', val)
                if nm == 'Jet': put(o, p, cls, 'outflowing_', bool(val & 1)); put(o, p, cls, 'parabolic_', bool(val & 2))
                mode = MOTION.get(nm)
                kindf = next((p.fns[m['id']] for m in p.classes[cls]['methods'] if m['n'] == 'motionKind' and m['id'] in p.fns and p.fns[m['id']].d['params']), None)
                if kindf: r.call(kindf.id, o, [('Radial', 'Circular', 'Mixed', 'Static')[val % 4]])
                if mode: put(o, p, cls, mode[0], mode[1][val % len(mode[1])])
                def met(a):
                    k = '%d,%d' % (lift(a.b.get(a.o + 1)).v, lift(a.b.get(a.o + 2)).v)
                    M = [[Fraction(0)] * 4 for i in range(4)]
                    for i in range(4): q = r.rnd('g%d@%s' % (i, k)); M[i][i] = mul(q, q) if i else neg(mul(q, q))
                    M[0][3] = M[3][0] = r.rnd('g03@' + k, False)
                    d = add(mul(M[0][3], M[0][3]), mul(M[0][0], M[3][3]), -1)
                    if not isqr(lift(d).v): raise Redraw('signature')
                    return M
                dotp = lambda M, u, v: reduce_add(mul(mul(M[i][j], u[i]), v[j]) for i in range(4) for j in range(4))
                vec = lambda a: [a.b.get(a.o + i) for i in range(4)]
                def gcoef(up):
                    def fn(r, o, a):
                        if len(a) == 3:
                            M = met(a[0]); M = inv4(M) if up else M
                            return M[a[1]][a[2]]
                        M = met(a[1]); M = inv4(M) if up else M
                        for i in range(16): a[0].b.c[a[0].o + i] = M[i // 4][i % 4]
                    return fn
                r.intr[('obj', 'gmunu')] = gcoef(False); r.intr[('obj', 'gmunu_up')] = gcoef(True)
                r.intr[('obj', 'ScalarProd')] = lambda r, o, a: dotp(met(a[0]), vec(a[1]), vec(a[2]))
                deleg = []
                def circ(r, o, a):
                    M = met(a[0]); w = r.rnd('Omega', False); ut = inv(r.sqrt(neg(add(add(M[0][0], mul(2, mul(w, M[0][3]))), mul(w, mul(w, M[3][3]))))))
                    for i, q in enumerate((ut, Fraction(0), Fraction(0), mul(w, ut))): a[1].b.c[a[1].o + i] = q
                    deleg.append((vec(a[0]), a[2:]))
                def zamo(r, o, a):
                    U = inv4(met(a[0])); n = r.sqrt(neg(U[0][0]))
                    for i in range(4): a[1].b.c[a[1].o + i] = div(neg(U[0][i]), n)
                def tdot(r, o, a):
                    M = met(a[0]); v = [Fraction(1)] + [a[1].b.get(a[1].o + i) for i in range(3)]
                    return inv(r.sqrt(neg(dotp(M, v, v))))
                def nfv(r, o, a):
                    q, v = a if len(a) == 2 else (a[0], Ptr(a[0].b, a[0].o + 4))
                    M = met(q); w = [v.b.get(v.o + i) for i in range(4)]; w = [div(y, w[0]) for y in w]; s = inv(r.sqrt(neg(dotp(M, w, w))))
                    for i in range(4): v.b.c[v.o + i] = mul(s, w[i])
                r.intr[('obj', 'circularVelocity')] = circ; r.intr[('obj', 'zamoVelocity')] = zamo
                r.intr[('obj', 'SysPrimeToTdot')] = tdot; r.intr[('obj', 'normalizeFourVel')] = nfv
                r.intr[('obj', 'kind')] = lambda r, o, a: 'any'
                for q in ('getRms', 'spin'): r.intr[('obj', q)] = lambda r, o, a, q=q: r.rnd(q)
                u = Ptr(Block('vel')); 
                try: r.call(f.id, o, [x, u]); v = vals(u)
                except Undef as e: raise Unsupported(str(e))
                if deleg: x = Ptr(Block('at')); x.b.c.update(enumerate(deleg[0][0]))      # rigid rotation on cylinders: the orbit below the point
                M = met(x); U = inv4(M); n2 = lift(add(dotp(M, v, v), 1)).v
                note('%s::getVelocity:unit' % nm, f, n2 == 0, 'the four-velocity of the matter is not a unit vector of a metric of the Kerr form')
                lo = [reduce_add(mul(M[i][j], v[j]) for j in range(4)) for i in range(4)]
                sgn = neg(lo[0]) if nm in ('DeformedTorus', 'OscilTorus') else v[0]
                note('%s::getVelocity:future' % nm, f, isqr(lift(sgn).v), 'the four-velocity of the matter is not future-directed')
                inward = lambda: eq(lo[0], -1) and eq(lo[3], 0) and eq(v[2], 0) and isqr(lift(neg(v[1])).v)
                if nm == 'SphericalAccretion' or (kindf and val % 4 == 0):
                    note('%s::getVelocity:radial' % nm, f, inward(), 'radial accretion is not free fall from rest at infinity (u_t=-1, u_phi=0, inwards)')
                if nm == 'PolishDoughnut' and not deleg:
                    note(nm + '::getVelocity:momentum', f, eq(lo[3], neg(mul(lo[0], r.rnd('o.%s::l0_[0]' % cls)))) and eq(v[1], 0) and eq(v[2], 0), 'the specific angular momentum is not l0')
                if nm == 'OscilTorus':
                    note(nm + '::getVelocity:momentum', f, eq(lo[3], neg(mul(lo[0], r.rnd('o.%s::lc_[0]' % cls)))), 'the specific angular momentum is not that at the centre')
                if nm == 'Jet':
                    F = lambda q: r.rnd('o.%s::%s[0]' % (cls, q)); gam = F('gammaJet_'); k = F('jetVphiOverVr_')
                    e = [mul(r.sqrt(M[i][i]), add(v[i], div(mul(v[0], U[0][i]), U[0][0]), -1)) for i in (1, 2, 3)]      # in the frame of the ZAMO
                    note('Jet::getVelocity:Lorentz', f, eq(mul(v[0], v[0]), neg(mul(U[0][0], mul(gam, gam)))), 'the Lorentz factor seen by the ZAMO is not gammaJet')
                    out, para = [r.fld(o, cls + '::' + q, 'bool')[0].get(0) for q in ('outflowing_', 'parabolic_')]
                    s, c = r.trig(x.b.get(2)); rc = mul(x.b.get(1), s)
                    note('Jet::getVelocity:azimuthal', f, eq(e[2], mul(k, e[0])) or eq(e[2], neg(mul(k, e[0]))), 'V(phi)/V(r) is not the ratio asked for')
                    if para:
                        vc, vz = add(mul(e[0], s), mul(e[1], c)), add(mul(e[0], c), mul(e[1], s), -1); q = mul(mul(2, F('jetShapeInnerParabolaParam_')), mul(rc, vc))
                        if not isqr(lift(c).v): q = neg(q)
                        note('Jet::getVelocity:sheath', f, eq(vz, q), 'the poloidal velocity is not along the parabolic sheath')
                    elif not out: note('Jet::getVelocity:inflow', f, eq(e[1], 0) and isqr(lift(neg(e[0])).v), 'an inflow does not go inwards, radially')
                decided.add(nm)
                return r
            und = len(C.undecided); why = sweep('%s::getVelocity' % nm, body, n=10 if nm == 'Jet' else 4); undl += C.undecided[und:]; del C.undecided[und:]
        if nm not in decided: C.undecided += undl[-1:]
    R.counts['velocity fields decided'] = sorted(decided)

    # ---- moving sources: the derivative of the position is the derivative of the position
    moving = []; moved = set()
    for cls in classes:
        for m in p.classes[cls]['methods']:
            f = p.fns.get(m['id'])
            if f is not None and f.n == 'getCartesian' and len(f.d['params']) == 8: moving.append((f, cls))
    for f, cls in moving:
        nm = cls.split('::')[-1]; mode = MOTION.get(nm, (None, (None,)))
        for md in mode[1]:
            def body(seed, script):
                r = rint(seed, script, 2); body.r = r; r.free = True; o = Obj(cls, 'o'); g = Obj(None, 'metric'); put(o, p, cls, 'gg_', g)
                if md: put(o, p, cls, mode[0], md)
                def circ(r, o, a):
                    for i, q in enumerate((r.rnd('ut'), Fraction(0), Fraction(0), r.rnd('up', False))): a[1].b.c[a[1].o + i] = q
                r.intr[('obj', 'circularVelocity')] = circ
                r.intr[('obj', 'normalizeFourVel')] = lambda r, o, a: None
                t = Block('date'); q = lift(r.rnd('t', False)); t.c[0] = D(q.v, (1,) + (0,) * (len(q.d) - 1))
                out = [Ptr(Block('o%d' % i)) for i in range(6)]
                try: r.call(f.id, o, [Ptr(t), 1] + out); v = [lift(q.b.get(q.o)) for q in out]
                except Undef as e: raise Unsupported(str(e))
                note('%s::getCartesian:derivative' % nm, f, [q.d[0] for q in v[:3]] == [q.v for q in v[3:]], 'the derivatives given are not those of the position%s' % (' (%s motion)' % md if md else ''))
                moved.add(nm)
                return r
            sweep('%s::getCartesian %s' % (nm, md or ''), body)
    R.counts['trajectories decided'] = sorted(moved)
    R.need('obligations decided', len(res), 45)
    for n, w in C.undecided: R.count('undecided: %s (%s)' % (n, w))
    for (key, (f, ok, msg)) in sorted(res.items()):
        R.ob(key, f.loc(), ok, '%s: %s' % (f.q.replace('Gyoto::', ''), msg))
