"""Emission coefficients, source functions and spectral channels.  Random
interpretation: the tables of coefficients a spectrum computes (radiativeQ, plain
and polarised) hold, at each frequency and in SI units, the coefficient of the same
name - not another one, not of another frequency - or its average over pitch angle;
thermal absorption obeys Kirchhoff's law for each Stokes parameter; the black body
and the generic thick spectrum follow their definition; the channels of a
spectrometer tile its band in the scale asked for and a composite spectrometer is
the concatenation of its elements."""
from metalg import *
from c15 import put, eq
LEVEL = 'proof'
ASSUME = ['Real arithmetic; rounding is out of scope.',
          'One-sided error probability below 1e-12 per identity (random interpretation over a 61-bit field).',
          'The coefficients themselves (fits to synchrotron functions) are arbitrary functions of frequency and pitch angle.']
S = 'Gyoto::Spectrum::Generic'
U = 'Gyoto::Spectrometer::Uniform'
X = 'Gyoto::Spectrometer::Complex'
COEF = ('jnuCGS', 'jQnuCGS', 'jUnuCGS', 'jVnuCGS', 'alphanuCGS', 'alphaQnuCGS', 'alphaUnuCGS', 'alphaVnuCGS', 'rQnuCGS', 'rUnuCGS', 'rVnuCGS')
NAMES = ('jI', 'jQ', 'jU', 'jV', 'aI', 'aQ', 'aU', 'aV', 'rQ', 'rU', 'rV')
J_SI, A_SI, I_SI = Fraction(1, 10), Fraction(100), Fraction(1, 1000)


def run(p, R):
    C = ctx(p); st = {'n': 0, 'pts': 0}; res = {}
    def note(key, f, ok, msg):
        if key not in res or res[key][1]: res[key] = (f, ok, msg)
    def sweep(name, body, n=3, tries=600):
        d, e, why = C.sweep(name, body, n, tries=tries); st['pts'] += d
        return why
    own = lambda cls, nm, k=None: [p.fns[m['id']] for m in p.classes[cls]['methods'] if m['n'] == nm and m['id'] in p.fns and (k is None or len(p.fns[m['id']].d['params']) == k)]
    classes = [c for c in sorted(p.classes) if c.startswith('Gyoto::Spectrum::') and p.is_a(c, S) and c != S]
    BB = 'Gyoto::Spectrum::BlackBody'; bbop = own(BB, 'operator()', 1)
    tabs = 0
    for cls in classes:
        nm = cls.split('::')[-1]; thermal = nm.startswith('Thermal') and any(f['n'] == 'spectrumBB_' for f in p.classes[cls]['fields'])
        cf = {n: own(cls, n, 1)[0] for n in COEF if own(cls, n, 1)}
        rq = own(cls, 'radiativeQ')
        def setup(r, o, flat=False, real=()):
            """coefficients: an arbitrary weight by name times an arbitrary function of frequency and angle"""
            used = []
            ang = any(f['n'] == 'angle_B_pem_' for f in p.classes[cls]['fields'])
            def coef(n):
                def fn(r, t, a):
                    th = r.fld(o, cls + '::angle_B_pem_', 'double')[0].get(0) if ang else Fraction(0)
                    used.append(th)
                    w = r.rnd('w' + n)
                    if flat: return div(w, r.trig(th)[0])
                    return mul(w, r.rnd('h|%d|%d' % (lift(a[0]).v, lift(th).v)))
                return fn
            for n, f in cf.items():
                if n not in real: r.intr[f.id] = coef(n)
            if thermal:
                b = Obj(BB, 'bb'); put(o, p, cls, 'spectrumBB_', b)
                r.intr[bbop[0].id] = lambda r, t, a: r.rnd('B|%d' % lift(a[0]).v)
            return used
        for f in rq:
            np_ = len(f.d['params'])
            if np_ not in (4, 13): continue
            tabs += 1
            nout = np_ - 2; kind = 'plain' if np_ == 4 else 'polarised'
            cn = ('jnuCGS', 'alphanuCGS') if np_ == 4 else COEF
            lab = ('j', 'alpha') if np_ == 4 else NAMES
            for mode in (0, 1, 2):          # given angle; averaged; averaged, coefficient in 1/sin
                if mode and not any(q['n'] == 'angle_averaged_' for q in p.classes[cls]['fields']): continue
                def body(seed, script):
                    r = RInt(p, seed, script, dict(C.intr), {'angle_averaged_': bool(mode)}); body.r = r; r.free = True
                    o = Obj(cls, 'o'); used = setup(r, o, flat=mode == 2)
                    th0 = r.fld(o, cls + '::angle_B_pem_', 'double')[0].get(0) if any(q['n'] == 'angle_B_pem_' for q in p.classes[cls]['fields']) else Fraction(0)
                    nu = Block('nu'); nu.c[0] = r.rnd('nu0'); nu.c[1] = r.rnd('nu1')
                    out = [Ptr(Block('out%d' % i)) for i in range(nout)]
                    try:
                        r.call(f.id, o, out + [Ptr(nu), 2]); v = [[lift(q.b.get(i)) for i in (0, 1)] for q in out]
                    except Undef as e: raise Unsupported(str(e))
                    if all(z.v == 0 for q in v for z in q): return r        # declared negligible
                    for q in range(nout):
                        si = J_SI if cn[q][0] == 'j' else A_SI; w = r.rnd('w' + cn[q]); byB = thermal and np_ == 4 and q == 1
                        for i in (0, 1):
                            # the coefficient divided by its weight and unit: the same number for all of them
                            z = v[q][i]
                            if byB: z = div(mul(z, r.rnd('B|%d' % lift(nu.c[i]).v)), mul(J_SI, r.rnd('wjnuCGS')))
                            else: z = div(z, mul(si, w))
                            if mode == 0: want = r.rnd('h|%d|%d' % (lift(nu.c[i]).v, lift(th0).v))
                            elif mode == 1:
                                want = div(v[0][i], mul(J_SI, r.rnd('wjnuCGS')))
                            else: want = mul(Fraction(1, 2), add(used[-1], used[0], -1))
                            note('%s::radiativeQ:%s:%s%s' % (nm, kind, lab[q], ('', ':averaged', ':average')[mode]), f, eq(z, want),
                                 ('%s[%d] is not the coefficient %s at the same frequency, in SI units' % (lab[q], i, cn[q]) + (" over the black body (Kirchhoff's law)" if byB else ''),
                                  'the average of %s over pitch angle is not done as that of the emission' % cn[q], '%s is not averaged over the whole range of pitch angles with weight sin/2' % cn[q])[mode])
                    return r
                sweep('%s::radiativeQ %s %d' % (nm, kind, mode), body, n=3 if mode == 0 else 2)
        # Kirchhoff's law, for each Stokes parameter
        if thermal:
            for a, j in (('alphanuCGS', 'jnuCGS'), ('alphaQnuCGS', 'jQnuCGS'), ('alphaUnuCGS', 'jUnuCGS'), ('alphaVnuCGS', 'jVnuCGS')):
                if a not in cf or j not in cf: continue
                def body(seed, script):
                    r = RInt(p, seed, script, dict(C.intr), {}); body.r = r; r.free = True
                    o = Obj(cls, 'o'); setup(r, o, real=(a,)); nu = r.rnd('nu')
                    v = r.call(cf[a].id, o, [nu]); w = r.call(cf[j].id, o, [nu])
                    note('%s:Kirchhoff:%s' % (nm, a), cf[a], eq(mul(v, r.rnd('B|%d' % lift(nu).v)), mul(w, I_SI)), "%s is not %s over the black body (Kirchhoff's law)" % (a, j))
                    return r
                sweep('%s Kirchhoff %s' % (nm, a), body)
        # emission of a slab
        for f in own(cls, 'operator()', 3):
            if not {'jnuCGS', 'alphanuCGS'} <= set(cf): continue
            def body(seed, script):
                r = RInt(p, seed, script, dict(C.intr), {}); body.r = r; r.free = True
                o = Obj(cls, 'o'); setup(r, o); nu, ds = r.rnd('nu'), r.rnd('ds')
                v = r.call(f.id, o, [nu, r.rnd('op'), ds]); j = r.call(cf['jnuCGS'].id, o, [nu]); a = r.call(cf['alphanuCGS'].id, o, [nu])
                want = mul(mul(mul(j, J_SI), ds), r.fun('exp', [neg(mul(mul(a, A_SI), ds))]))
                note('%s:slab' % nm, f, eq(v, want), 'the emission of a slab is not j ds exp(-alpha ds), in SI units')
                return r
            sweep('%s slab' % nm, body)
    R.need('tables of coefficients', tabs, 6)

    # ---- black body and thick emission
    for n in ('temperature', 'colorCorrection', 'scaling'):
        if not own(BB, n, 1): raise Bad('BlackBody::%s' % n)
    sT, sC, sS = (own(BB, n, 1)[0] for n in ('temperature', 'colorCorrection', 'scaling'))
    def body(seed, script):
        r = RInt(p, seed, script, dict(C.intr), {}); body.r = r; nu, T, f, c = r.rnd('nu'), r.rnd('T'), r.rnd('f'), r.rnd('c')
        def bb(*sets):
            o = Obj(BB, 'b%d' % len(r.memo))
            for s, v in sets: r.call(s.id, o, [v])
            return r.call(bbop[0].id, o, [nu])
        ref = bb((sS, c), (sC, Fraction(1)), (sT, mul(f, T)))
        for k, q in (('temperature last', ((sS, c), (sC, f), (sT, T))), ('correction last', ((sS, c), (sT, T), (sC, f))), ('scaling last', ((sC, f), (sT, T), (sS, c)))):
            note('BlackBody:colour:' + k, sC, eq(mul(bb(*q), ipow(f, 4)), ref), 'with colour correction f the spectrum is not B(fT)/f^4 (%s)' % k)
        o = Obj(BB, 'b'); r.call(sS.id, o, [c]); r.call(sC.id, o, [Fraction(1)]); r.call(sT.id, o, [T])
        a = r.call(bbop[0].id, o, [nu]); o2 = Obj(BB, 'b2'); k = r.rnd('k')
        r.call(sS.id, o2, [c]); r.call(sC.id, o2, [Fraction(1)]); r.call(sT.id, o2, [mul(k, T)])
        note('BlackBody:Wien', bbop[0], eq(r.call(bbop[0].id, o2, [mul(k, nu)]), mul(ipow(k, 3), a)), 'B(k nu, k T) is not k^3 B(nu, T)')
        return r
    sweep('black body', body)
    g3 = own(S, 'operator()', 3)
    for f in g3:
        def body(seed, script):
            r = RInt(p, seed, script, dict(C.intr), {}); body.r = r; nu, k, ds = r.rnd('nu'), r.rnd('k'), r.rnd('ds')
            o = Obj(BB, 'b'); r.intr[bbop[0].id] = lambda r, t, a: r.rnd('B|%d' % lift(a[0]).v)
            v = r.call(f.id, o, [nu, k, ds]); want = mul(r.rnd('B|%d' % lift(nu).v), add(1, r.fun('exp', [neg(mul(k, ds))]), -1))
            note('Generic:thick', f, eq(v, want), 'the emission of a layer is not S(1-exp(-opacity ds))')
            return r
        sweep('thick layer', body)
    PL = 'Gyoto::Spectrum::PowerLaw'
    for f in own(PL, 'operator()', 1):
        def body(seed, script):
            r = RInt(p, seed, script, dict(C.intr), {}); body.r = r; nu = r.rnd('nu'); o = Obj(PL, 'o')
            v = r.call(f.id, o, [nu]); c, e = r.rnd('o.%s::constant_[0]' % PL), r.rnd('o.%s::exponent_[0]' % PL)
            note('PowerLaw:law', f, eq(v, 0) or eq(v, mul(c, r.powr(nu, e))), 'is not constant x nu^exponent within its cutoffs and 0 outside')
            return r
        sweep('power law', body, n=4)

    # ---- spectral channels
    ks = {q: own(U, q, k) for q, k in (('kind', 1), ('nSamples', 1))}
    bd = [f for f in own(U, 'band', 1) if 'vector' not in f.id and 'double' in f.id]
    if not ks['kind'] or not ks['nSamples'] or not bd: R.need('spectrometer setters', 0, 1)
    else:
        for kind in ('freq', 'freqlog', 'wave', 'wavelog'):
            def body(seed, script):
                r = RInt(p, seed, script, dict(C.intr), {}); body.r = r; r.free = True; n = 3
                o = Obj(U, 'u')
                for q in ('boundaries_', 'chanind_', 'midpoints_', 'widths_'): put(o, p, U, q, 0)
                put(o, p, U, 'nsamples_', 0)
                b = Block('band'); b.c[0] = r.rnd('b0'); b.c[1] = r.rnd('b1')
                r.call(bd[0].id, o, [Ptr(b)]); r.call(ks['kind'][0].id, o, [kind]); r.call(ks['nSamples'][0].id, o, [n])
                F = lambda q, i: (lambda x: x.b.get(x.o + i))(next(z for k_, z in o.f.items() if k_.endswith('::' + q)).get(0))
                bnd = []
                for i in range(n + 1):
                    z = add(b.c[0], mul(Fraction(i, n), add(b.c[1], b.c[0], -1)))
                    if kind.endswith('log'): z = r.powr(Fraction(10), z)
                    if kind.startswith('wave'): z = div(Fraction(299792458), z)
                    bnd.append(z)
                f = next(iter(own(U, 'reset_')), ks['kind'][0])
                note('Uniform:%s:boundaries' % kind, f, all(eq(F('boundaries_', i), bnd[i]) for i in range(n + 1)), 'the channels do not divide the band uniformly in %s' % kind)
                ci = [[F('chanind_', 2 * i), F('chanind_', 2 * i + 1)] for i in range(n)]
                note('Uniform:%s:channels' % kind, f, ci == [[i, i + 1] for i in range(n)], 'channel i does not run from boundary i to boundary i+1')
                note('Uniform:%s:midpoints' % kind, f, all(eq(mul(2, F('midpoints_', i)), add(bnd[i], bnd[i + 1])) for i in range(n)), 'the centre of a channel is not the mean of its boundaries')
                wd = lambda i: add(bnd[i + 1], bnd[i], -1)
                note('Uniform:%s:widths' % kind, f, all(eq(F('widths_', i), wd(i)) or eq(F('widths_', i), neg(wd(i))) for i in range(n)), 'the width of a channel is not the distance of its boundaries')
                nb = next(z for k_, z in o.f.items() if k_.endswith('::nboundaries_')).get(0)
                note('Uniform:%s:count' % kind, f, nb == n + 1, 'the number of boundaries is not that of channels plus one')
                return r
            sweep('uniform ' + kind, body)
    tl = own(X, 'tell')
    GS = 'Gyoto::Spectrometer::Generic'
    for f in tl:
        def body(seed, script):
            r = RInt(p, seed, script, dict(C.intr), {}); body.r = r; r.free = True
            o = Obj(X, 'x'); sizes = (2, 3, 1); els = Block('els')
            A = {}
            for e, n in enumerate(sizes):
                # elements whose channels are in decreasing order and not contiguous
                q = Obj(U, 'e%d' % e); els.c[e] = q
                put(q, p, U, 'nsamples_', n); put(q, p, U, 'nboundaries_', 2 * n)
                for nm_, m in (('boundaries_', 2 * n), ('widths_', n), ('midpoints_', n)):
                    b = Block(nm_)
                    for i in range(m): b.c[i] = r.rnd('%s%d.%d' % (nm_, e, i))
                    put(q, p, U, nm_, Ptr(b)); A[nm_, e] = b
                b = Block('ci')
                for i in range(2 * n): b.c[i] = 2 * n - 1 - i
                put(q, p, U, 'chanind_', Ptr(b)); A['chanind_', e] = b
            put(o, p, X, 'elements_', Ptr(els)); put(o, p, X, 'cardinal_', len(sizes))
            for q in ('boundaries_', 'chanind_', 'midpoints_', 'widths_'): put(o, p, X, q, 0)
            r.call(f.id, o, [0])
            G_ = lambda q: next(z for k_, z in o.f.items() if k_.endswith('::' + q)).get(0)
            F = lambda q, i: G_(q).b.get(G_(q).o + i)
            note('Complex:count', f, G_('nsamples_') == 6 and G_('nboundaries_') == 12, 'the numbers of channels and boundaries are not the sums over the elements')
            for q, k in (('boundaries_', 2), ('widths_', 1), ('midpoints_', 1)):
                want = [A[q, e].c[i] for e, n in enumerate(sizes) for i in range(k * n)]
                note('Complex:' + q[:-1], f, all(eq(F(q, i), w) for i, w in enumerate(want)), 'the %s are not those of the elements, in order' % q[:-1])
            # through the indices, each channel has its own boundaries
            i = 0; ok = True
            for e, n in enumerate(sizes):
                for j in range(2 * n):
                    ok = ok and eq(F('boundaries_', F('chanind_', i)), A['boundaries_', e].c[A['chanind_', e].c[j]]); i += 1
            note('Complex:channels', f, ok, 'a channel is not bounded by the boundaries it has in its element')
            return r
        sweep('complex', body)
    R.need('obligations decided', len(res), 60)
    for n, w in C.undecided: R.count('undecided: %s (%s)' % (n, w))
    for (key, (f, ok, msg)) in sorted(res.items()):
        R.ob(key, f.loc(), ok, '%s: %s' % (f.q.replace('Gyoto::', ''), msg))
