"""Radiative transfer.  Random interpretation of what happens where a photon meets
an object: Generic::processHitQuantities against the transfer equation, for every
quantity alone and with the others, for any metric, emission, absorption and
spectrometer; the transmission a photon carries; the default emission,
transmission and radiativeQ, which call one another, for every subset a class may
override and every order of calls; the Mueller matrix and its exponential."""
import itertools
from metalg import *
from c11 import abstract
LEVEL = 'proof'
ASSUME = ['Real arithmetic; rounding, overflow and non-finite values are out of scope.',
          'One-sided error probability below 1e-12 per identity (random interpretation over a 61-bit field).',
          'Eigen matrices behave as matrices; the matrix exponential and the linear solver are Eigen\'s.',
          'The metric is time-orientable and the vectors not degenerate (redshift finite and non-zero).']
A = 'Gyoto::Astrobj::Generic'
PH = 'Gyoto::Photon'
NCH = 3


class Hit:
    """a photon meeting an object, with uninterpreted emission and absorption"""
    def __init__(self, p, C, ab, seed, script, polar=False, conv=False, noz=False, want=(), cls=A, own=()):
        self.r = r = RInt(p, seed, script, dict(C.intr), {})
        self.p = p; r.intr.update(ab); r.intr.update(self.intr(r))
        self.o = o = Obj(cls, 'obj'); self.g = g = Obj(G, 'metric')
        put(o, p, cls, 'gg_', g); put(o, p, cls, 'noredshift_', noz); put(o, p, cls, 'flag_radtransf_', False)
        put(o, p, cls, '__defaultfeatures', 0)
        self.ph = ph = Obj(PH, 'ph')
        self.sp = Obj(None, 'spectrometer')
        put(ph, p, PH, 'spectro_', self.sp); put(ph, p, PH, 'parallel_transport_', polar)
        self.T0 = [r.rnd('T%d' % i) for i in range(NCH)]; self.Tf = r.rnd('Tf')
        self.M0 = [Mat(4, 4, [r.rnd('M%d_%d' % (i, q), False) for q in range(16)]) for i in range(NCH)]
        tb = Block('transmission_'); tb.c = dict(enumerate(self.T0)); put(ph, p, PH, 'transmission_', Ptr(tb)); self.tb = tb
        mb = Block('transmissionMatrix_'); mb.c = {i: m.dup() for i, m in enumerate(self.M0)}; put(ph, p, PH, 'transmissionMatrix_', Ptr(mb)); self.mb = mb
        put(ph, p, PH, 'transmission_freqobs_', self.Tf)
        self.fo = r.rnd('freqobs'); put(ph, p, PH, 'freq_obs_', self.fo)
        self.nu = [r.rnd('nu%d' % i) for i in range(NCH)]
        nb = Block('midpoints'); nb.c = dict(enumerate(self.nu)); self.nb = nb
        self.bd = [r.rnd('bd%d' % i) for i in range(NCH + 1)]
        bb = Block('boundaries'); bb.c = dict(enumerate(self.bd)); self.bb = bb
        ib = Block('indices'); ib.c = {}
        for i in range(NCH): ib.c[2 * i] = i; ib.c[2 * i + 1] = i + 1
        self.ib = ib
        self.cp = Vec(16 if polar else 8, 'coord_ph'); self.cp.c = {q: r.rnd('cp%d' % q) for q in range(self.cp.n)}
        cb = Block('coord_obj'); cb.c = {q: r.rnd('co%d' % q) for q in range(8)}; self.co = cb
        self.dt = r.rnd('dt')
        self.data = d = Obj('Gyoto::Astrobj::Properties', 'data'); self.buf = {}
        self.off = 5
        for _, f in p.fields('Gyoto::Astrobj::Properties'):
            nm, t = f['n'], f['t']
            key = 'Gyoto::Astrobj::Properties::' + nm; b = Block(key); d.f[key] = b
            if t.strip() == 'double *':
                if nm in want:
                    w = Block(nm, lambda q, nm=nm: r.rnd('%s@%d' % (nm, q)))
                    if nm == 'impactcoords': w.c[0] = flit(1.7976931348623157e308)
                    self.buf[nm] = w; b.c[0] = Ptr(w)
                else: b.c[0] = 0
            elif 'Converter' in t: b.c[0] = Obj(None, nm) if conv else 0
            elif nm == 'offset': b.c[0] = self.off
            else: b.c[0] = 0
        self.conv = conv

    def v(self, nm, nu, ds): return self.r.fun(nm, [nu, ds] + self.env)

    @property
    def env(self): return [self.cp.get(q) for q in range(8)] + [self.co.get(q) for q in range(8)]

    def arg(self, cph, co):
        b = cph if isinstance(cph, Vec) else None
        if b is None: raise Unsupported('photon coordinates')
        return [b.get(q) for q in range(8)] + [co.b.get(co.o + q) for q in range(8)]

    def intr(self, r):
        p = self.p; I = {}
        def em(r, t, a): return r.fun('em', [a[0], a[1]] + self.arg(a[2], a[3]))
        def tr(r, t, a): return r.fun('tau', [a[0], a[1]] + self.arg(a[2], a[3]))
        def emv(r, t, a):
            for q in range(a[2]): a[0].b.c[a[0].o + q] = r.fun('em', [a[1].b.get(a[1].o + q), a[3]] + self.arg(a[4], a[5]))
        def rq(r, t, a):
            for q in range(a[3]):
                n = a[2].b.get(a[2].o + q); e = self.arg(a[5], a[6])
                a[0].b.c[a[0].o + q] = r.fun('em', [n, a[4]] + e); a[1].b.c[a[1].o + q] = r.fun('tau', [n, a[4]] + e)
        def rqp(r, t, a):
            for q in range(a[6]):
                n = a[5].b.get(a[5].o + q); e = self.arg(a[8], a[9])
                for j, s in enumerate(('em', 'emQ', 'emU', 'emV')): a[j].b.c[a[j].o + q] = r.fun(s, [n, a[7]] + e)
                a[4].b.c[a[4].o + q] = Mat(4, 4, [r.fun('O%d' % k, [n, a[7]] + e) for k in range(16)])
        def ie(r, t, a):
            for q in range(a[3]):
                i, j = a[2].b.get(a[2].o + 2 * q), a[2].b.get(a[2].o + 2 * q + 1)
                a[0].b.c[a[0].o + q] = r.fun('iem', [a[1].b.get(a[1].o + i), a[1].b.get(a[1].o + j), a[4]] + self.arg(a[5], a[6]))
        for f in self.p.fns.values():
            if f.cls != A: continue
            np = len(f.d['params'])
            if f.n == 'emission': I[f.id] = em if np == 4 else emv
            elif f.n == 'transmission': I[f.id] = tr
            elif f.n == 'radiativeQ': I[f.id] = rq if np == 7 else rqp
            elif f.n == 'integrateEmission' and np == 7: I[f.id] = ie
        I[('obj', 'nSamples')] = lambda r, o, a: NCH
        I[('obj', 'getMidpoints')] = lambda r, o, a: Ptr(self.nb)
        I[('obj', 'getNBoundaries')] = lambda r, o, a: NCH + 1
        I[('obj', 'getChannelBoundaries')] = lambda r, o, a: Ptr(self.bb)
        I[('obj', 'getChannelIndices')] = lambda r, o, a: Ptr(self.ib)
        I[('obj', 'operator()')] = lambda r, o, a: r.fun(o.tag, [a[0]])
        return I

    def cv(self, nm, x): return self.r.fun(nm, [x]) if self.conv else x


def put(o, p, cls, nm, v):
    for c in [cls] + list(p.linear(cls)):
        if any(f['n'] == nm for f in p.classes.get(c, {}).get('fields', ())):
            b = Block(nm); b.c[0] = v; o.f[c + '::' + nm] = b; return
    raise KeyError(nm)


def eq(a, b): return lift(a).v == lift(b).v


def omatrix(p, C, R):
    fs = [f for f in p.fns.values() if f.cls == A and f.n == 'Omatrix' and len(f.d['params']) == 10]
    n = 0
    for f in fs:
        for deg, names in (('', ()), (':unpolarised', ('aQ', 'aU', 'aV', 'rQ', 'rU', 'rV')), (':absorption only', ('rQ', 'rU', 'rV')), (':rotation only', ('aQ', 'aU', 'aV'))):
            def body(seed, script):
                r = RInt(p, seed, script, dict(C.intr), {}); body.r = r
                o = Obj(A, 'obj'); g = Obj(None, 'metric'); put(o, p, A, 'gg_', g)
                L = r.rnd('unitlength'); r.intr[('obj', 'unitLength')] = lambda r, o, a: L
                q = {k: Fraction(0) if k in names else r.rnd(k, False) for k in ('aI', 'aQ', 'aU', 'aV', 'rQ', 'rU', 'rV')}
                s2, c2 = r.trig(r.rnd('2chi', False))
                ds = r.rnd('ds'); ds = D(ds.v, (1, 0, 0, 0))
                O = r.call(f.id, o, [q['aI'], q['aQ'], q['aU'], q['aV'], q['rQ'], q['rU'], q['rV'], s2, c2, ds])
                rot = lambda x, y: (add(mul(x, c2), mul(y, s2), -1), add(mul(y, c2), mul(x, s2)))
                aQ, aU = rot(q['aQ'], q['aU']); rQ, rU = rot(q['rQ'], q['rU']); aI, aV, rV = q['aI'], q['aV'], q['rV']
                K = Mat(4, 4, [aI, aQ, aU, aV, aQ, aI, rV, neg(rU), aU, neg(rV), aI, rQ, aV, rU, neg(rQ), aI])
                body.K, body.O, body.L = K, O, L
                KO = r.mop('*', r.mop('*', K, L), O)
                bad = [k for k in range(16) if lift(O.get(k)).d[0] != (-lift(KO.get(k)).v) % P]
                R.ob('Omatrix:equation' + deg, f.loc(), not bad, 'Astrobj::Generic::Omatrix: dO/ds is not -K O (element %d,%d)%s' % (bad[0] // 4 if bad else 0, bad[0] % 4 if bad else 0, deg.replace(':', ', ')))
                return r
            k = go(p, C, R, 'Omatrix' + deg, body)
            # and O = 1 over no distance
            def body0(seed, script):
                r = RInt(p, seed, script, dict(C.intr), {}); body0.r = r
                o = Obj(A, 'obj'); g = Obj(None, 'metric'); put(o, p, A, 'gg_', g)
                r.intr[('obj', 'unitLength')] = lambda r, o, a: r.rnd('unitlength')
                q = [Fraction(0) if k in names else r.rnd(k, False) for k in ('aI', 'aQ', 'aU', 'aV', 'rQ', 'rU', 'rV')]
                s2, c2 = r.trig(r.rnd('2chi', False))
                O = r.call(f.id, o, q + [s2, c2, Fraction(0)])
                bad = [k for k in range(16) if lift(O.get(k)).v != int(k // 4 == k % 4)]
                R.ob('Omatrix:origin' + deg, f.loc(), not bad, 'Astrobj::Generic::Omatrix: O is not the identity over no distance')
                return r
            k += go(p, C, R, 'Omatrix:origin' + deg, body0); n += k
    return n


def pmatrix(p, C, R):
    """K P = 1 - exp(-K ds): the Stokes emission of a homogeneous slab, with the same K as Omatrix"""
    n = 0
    for f in [f for f in p.fns.values() if f.cls == A and f.n == 'Pmatrix' and len(f.d['params']) == 10]:
        def body(seed, script):
            r = RInt(p, seed, script, dict(C.intr), {}); body.r = r
            o = Obj(A, 'obj'); put(o, p, A, 'gg_', Obj(None, 'metric'))
            L = r.rnd('unitlength'); r.intr[('obj', 'unitLength')] = lambda r, o, a: L
            q = {k: r.rnd(k, False) for k in ('aI', 'aQ', 'aU', 'aV', 'rQ', 'rU', 'rV')}
            s2, c2 = r.trig(r.rnd('2chi', False)); ds = r.rnd('ds')
            M = r.call(f.id, o, [q['aI'], q['aQ'], q['aU'], q['aV'], q['rQ'], q['rU'], q['rV'], s2, c2, ds])
            rot = lambda x, y: (add(mul(x, c2), mul(y, s2), -1), add(mul(y, c2), mul(x, s2)))
            aQ, aU = rot(q['aQ'], q['aU']); rQ, rU = rot(q['rQ'], q['rU']); aI, aV, rV = q['aI'], q['aV'], q['rV']
            K = Mat(4, 4, [aI, aQ, aU, aV, aQ, aI, rV, neg(rU), aU, neg(rV), aI, rQ, aV, rU, neg(rQ), aI])
            I = [int(k // 4 == k % 4) for k in range(16)]; h = mul(ds, L)
            if all(lift(x).v == 0 for x in M.all()): return r            # 'ignored cell'
            KP = r.mop('*', K, M).all(); E = r.mop('*', K, neg(h))
            ex = [r.rnd('mexp|%s|%d' % ('|'.join('%d' % lift(x).v for x in E.all()), k), False) for k in range(16)]
            full = all(eq(x, add(i, e, -1)) for x, i, e in zip(KP, I, ex))
            thick = all(eq(x, i) for x, i in zip(KP, I))
            thin = all(eq(x, y) for x, y in zip(M.all(), [mul(h, add(i, mul(mul(k, h), Fraction(1, 2)), -1)) for i, k in zip(I, K.all())]))
            R.ob('Pmatrix', f.loc(), full or thick or thin, 'Astrobj::Generic::Pmatrix: neither (1-exp(-K ds))/K nor its optically thin or thick limit')
            body.kinds.add('full' if full else 'thick' if thick else 'thin' if thin else 'none')
            return r
        body.kinds = set()
        n += go(p, C, R, 'Pmatrix', body, points=4)
        if n and body.kinds: R.ob('Pmatrix:general', f.loc(), 'full' in body.kinds or 'none' in body.kinds, 'Astrobj::Generic::Pmatrix: never (1-exp(-K ds))/K')
    return n


def resets(p, C, ab, R):
    """a photon starts with full transmission in every channel"""
    n = 0
    for nm in ('resetTransmission', 'resetTransmissionMatrix'):
        for f in [f for f in p.fns.values() if f.cls == PH and f.n == nm]:
            def body(seed, script):
                h = Hit(p, C, ab, seed, script, True, False, False, ()); body.r = h.r
                r = h.r; put(h.ph, p, PH, 'transmissionMatrix_freqobs_', Mat(4, 4, [r.rnd('mf%d' % q) for q in range(16)]))
                r.call(f.id, h.ph, [])
                if nm == 'resetTransmission': ok = all(eq(h.tb.get(q), 1) for q in range(NCH)) and eq(h.ph.f[PH + '::transmission_freqobs_'].get(0), 1)
                else: ok = all(eq(x, int(k // 4 == k % 4)) for q in range(NCH) for k, x in enumerate(h.mb.get(q).all()))
                R.ob('reset:' + nm, f.loc(), ok, 'Photon::%s does not restore full transmission' % nm)
                return h.r
            n += go(p, C, R, 'reset:' + nm, body, points=1)
    return n


def go(p, C, R, name, body, tries=200, points=2):
    """interpret at `points` points along every consistent choice of comparisons"""
    done = 0
    for k in range(points):
        for a in range(tries):
            seed = 'C15|%s|%d|%d' % (name, k, a)
            def one(script):
                try: return body(seed, script)
                except ErrPath: return body.r
            try: scenarios(one); done += 1; break
            except Redraw as e:
                if __import__("os").environ.get("DBG"): print(name, e)
                continue
            except Unsupported as e:
                R.count('undecided: %s (%s)' % (name, str(e)[:60])); return done
            except Undef as e:
                R.ob(name + ':complete', '', False, '%s: %s' % (name, e)); return done
    return done



def hits(p, C, ab, R):
    """Generic::processHitQuantities against the transfer equation"""
    fs = [f for f in p.fns.values() if f.n == 'processHitQuantities' and f.cls == A and 'std::vector' in f.id]
    n = 0
    for f in fs:
        S = ('spectrum', 'stokesQ', 'stokesU', 'stokesV')
        base = [('redshift',), ('time',), ('impactcoords',), ('intensity',), ('spectrum',), ('binspectrum',), ('stokesQ',), ('stokesU', 'stokesV'),
                ('spectrum', 'binspectrum'), ('stokesQ', 'binspectrum'), S, ('redshift', 'time', 'impactcoords', 'intensity', 'binspectrum') + S]
        for want in base:
            for polar in (False, True):
                if polar and 'impactcoords' in want: want = tuple(w for w in want if w != 'impactcoords')
                if not want: continue
                for conv, noz, refined in ((False, False, False), (True, False, False), (False, True, False), (False, False, True)):
                    tag = '+'.join(want) if len(want) < 6 else 'all'
                    key = lambda w: 'hit:%s%s%s%s%s' % (w, ':refined' if refined else '', ':polarised' if polar else '', ':converted' if conv else '', ':without redshift' if noz else '')
                    def body(seed, script):
                        h = Hit(p, C, ab, seed, script, polar, conv, noz, want); r = body.r = h.r
                        old = {w: Block(w, b.fill) for w, b in h.buf.items()}
                        for w in old: old[w].c = dict(h.buf[w].c)
                        g = Block('g'); r.call(C.M['gm'], h.g, [Ptr(g), Ptr(h.cp)])
                        z = Fraction(0)
                        for i in range(4):
                            for j in range(4): z = add(z, mul(mul(g.get(4 * i + j), h.co.get(4 + i)), h.cp.get(4 + j)))
                        zm = Fraction(1) if noz else neg(z)            # nu_em / nu_obs
                        z1 = inv(lift(zm)); ds = mul(div(h.dt, h.cp.get(4)), zm)
                        ph = h.ph
                        if refined:
                            if PH + '::Refined' not in p.classes: return r
                            ph = Obj(PH + '::Refined', 'refined'); ph.f.update({k_: b_ for k_, b_ in h.ph.f.items()})
                            b = Block('tf'); b.c[0] = h.Tf; ph.f[PH + '::transmission_freqobs_'] = b
                            put(ph, p, PH + '::Refined', 'parent_', h.ph)
                        r.call(f.id, h.o, [ph, h.cp, Ptr(h.co), h.dt, h.data])
                        def ob(w, ok, msg): R.ob(key(w) + ':' + tag, f.loc(), ok, 'Astrobj::Generic::processHitQuantities (%s requested%s%s): %s' % (tag, ', polarised' if polar else '', ', no redshift' if noz else ', refined photon' if refined else '', msg))
                        if 'redshift' in want: ob('redshift', eq(h.buf['redshift'].get(0), z1), 'Redshift is not nu_obs/nu_em')
                        if 'time' in want: ob('time', eq(h.buf['time'].get(0), h.cp.get(0)), 'EmissionTime is not the date of the impact')
                        if 'impactcoords' in want:
                            ob('impactcoords', all(eq(h.buf['impactcoords'].get(q), h.co.get(q)) and eq(h.buf['impactcoords'].get(8 + q), h.cp.get(q)) for q in range(8)), 'ImpactCoords are not those of the object and of the photon')
                        def inc(w, q, v): return eq(h.buf[w].get(q), add(old[w].get(q), v))
                        if 'intensity' in want:
                            e = h.v('em', mul(h.fo, zm), ds)
                            ob('intensity', inc('intensity', 0, h.cv('intensity_converter_', mul(mul(e, h.Tf), ipow(z1, 3)))), 'Intensity is not increased by emission x transmission x (nu_obs/nu_em)^3')
                        nem = [mul(x, zm) for x in h.nu]
                        for q in range(NCH):
                            tau = h.v('tau', nem[q], ds)
                            if 'binspectrum' in want:
                                e = r.fun('iem', [mul(h.bd[q], zm), mul(h.bd[q + 1], zm), ds] + h.env)
                                ob('binspectrum', inc('binspectrum', q * h.off, h.cv('binspectrum_converter_', mul(mul(e, h.T0[q]), ipow(z1, 4)))), 'BinSpectrum is not increased by the emission integrated over the channel x transmission x (nu_obs/nu_em)^4')
                            if polar:
                                st = [h.v(s, nem[q], ds) for s in ('em', 'emQ', 'emU', 'emV')]
                                out = r.mop('*', h.M0[q], Mat(4, 1, st))
                                for k, w in enumerate(S):
                                    if w in want: ob(w, inc(w, q * h.off, h.cv('spectrum_converter_', mul(out.get(k), ipow(z1, 3)))), '%s is not increased by (transmission matrix x Stokes emission) x (nu_obs/nu_em)^3' % w)
                                if set(S) & set(want):
                                    Om = Mat(4, 4, [h.v('O%d' % k, nem[q], ds) for k in range(16)]); X = r.mop('*', h.M0[q], Om)
                                    ob('matrix', all(eq(x, y) for x, y in zip(X.all(), h.mb.get(q).all())), 'the transmission matrix is not multiplied once by that of the object')
                                if 'binspectrum' in want: ob('transmission', eq(h.tb.get(q), mul(h.T0[q], tau)), 'the transmission of the channel is not multiplied once by that of the object')
                            else:
                                if 'spectrum' in want:
                                    e = h.v('em', nem[q], ds)
                                    ob('spectrum', inc('spectrum', q * h.off, h.cv('spectrum_converter_', mul(mul(e, h.T0[q]), ipow(z1, 3)))), 'Spectrum is not increased by emission x transmission x (nu_obs/nu_em)^3')
                                if set(S + ('binspectrum',)) & set(want): ob('transmission', eq(h.tb.get(q), mul(h.T0[q], tau)), 'the transmission of the channel is not multiplied once by that of the object')
                        for w in want:
                            k = {'impactcoords': set(range(16))}.get(w, {q * h.off for q in range(NCH)} if w in S or w == 'binspectrum' else {0})
                            ob(w + ':cells', set(x for x in h.buf[w].c if h.buf[w].c[x] is not old[w].c.get(x)) <= k, '%s: other cells than those of the pixel are written' % w)
                        if 'intensity' in want: 
                            tf = lift(h.ph.f[PH + '::transmission_freqobs_'].get(0))
                            if refined: ob('freqobs:refined', eq(ph.f[PH + '::transmission_freqobs_'].get(0), tf), 'the refined photon does not carry the transmission of its parent')
                            ob('freqobs', eq(tf, mul(h.Tf, h.v('tau', mul(h.fo, zm), ds))), 'the transmission at the frequency of the observer is not multiplied once by that of the object')
                        return r
                    n += go(p, C, R, key('hit') + ':' + tag, body, points=1)
    return n


def defaults(p, C, ab, R):
    """emission, transmission, radiativeQ: any subset may be overridden, in any order of calls"""
    ids = {}
    for f in p.fns.values():
        if f.cls == A:
            k = {('emission', 4): 'es', ('emission', 6): 'ev', ('transmission', 4): 'tr', ('radiativeQ', 7): 'rq', ('radiativeQ', 10): 'rp'}.get((f.n, len(f.d['params'])))
            if k: ids[k] = f
    names = {'es': 'emission', 'ev': 'emission (vector)', 'tr': 'transmission', 'rq': 'radiativeQ', 'rp': 'polarized radiativeQ'}
    if len(ids) < 5: R.count('undecided: default emission and transmission'); return 0
    n = 0; NN = 2; flagkey = None
    for k in range(6):
        for S in itertools.combinations(sorted(ids), k):
            for first in [None] + sorted(ids):
                for thick in (False, True):
                    def body(seed, script):
                        h = Hit(p, C, ab, seed, script, False, False, False, ()); r = body.r = h.r
                        put(h.o, p, A, 'flag_radtransf_', thick)
                        for q, f in ids.items():
                            if q not in S: r.intr.pop(f.id, None)
                        r.intr[('obj', 'unitLength')] = lambda r, o, a: r.rnd('unitlength')
                        h.g.cls = None
                        def I(q, a):
                            if q == 'rp':
                                n_ = a[6]
                                for j in range(n_):
                                    nu = a[5].b.get(a[5].o + j); tau = h.v('tau', nu, a[7])
                                    for w, s_ in enumerate(('em', 'emQ', 'emU', 'emV')): a[w].b.c[a[w].o + j] = h.v(s_, nu, a[7])
                                    a[4].b.c[a[4].o + j] = Mat(4, 4, [tau] + [h.v('O%d' % z, nu, a[7]) for z in range(1, 16)])
                        if 'rp' in S: r.intr[ids['rp'].id] = lambda r, t, a: I('rp', a)
                        ds = h.dt; nu = Block('nuem'); nu.c = {j: h.nu[j] for j in range(NN)}
                        em = (lambda j: h.v('em', h.nu[j], ds)) if set(S) & {'es', 'ev', 'rq', 'rp'} else (lambda j: ds if thick else Fraction(1))
                        tau = (lambda j: h.v('tau', h.nu[j], ds)) if set(S) & {'tr', 'rq', 'rp'} else (lambda j: Fraction(int(thick)))
                        who = '+'.join(S) or 'none'
                        def ask(q, check):
                            f = ids[q]; o = [Block('out%d' % j) for j in range(5)]
                            if q == 'rp': o[4] = Block('Onu', lambda j: Mat(4, 4))
                            tail = [ds, h.cp, Ptr(h.co)]
                            call = lambda a: r.intr[f.id](r, h.o, a) if f.id in r.intr else r.call(f.id, h.o, a)
                            def ob(w, ok, msg):
                                if check: R.ob('default:%s:%s%s:%s' % (q, who, ':thick' if thick else '', w), f.loc(), ok, 'Astrobj::Generic, class providing %s%s: %s %s' % (', '.join(names[z] for z in S) or 'none of emission, transmission, radiativeQ', ', %s called before' % names[first] if first else '', names[q], msg))
                            try:
                                if q == 'es': ob('I', eq(call([h.nu[0]] + tail), em(0)), 'is not the emission of the class')
                                elif q == 'tr': ob('T', eq(call([h.nu[0]] + tail), tau(0)), 'is not the transmission of the class')
                                elif q == 'ev':
                                    call([Ptr(o[0]), Ptr(nu), NN] + tail); ob('I', all(eq(o[0].get(j), em(j)) for j in range(NN)), 'is not the emission of the class')
                                elif q == 'rq':
                                    call([Ptr(o[0]), Ptr(o[1]), Ptr(nu), NN] + tail)
                                    ob('I', all(eq(o[0].get(j), em(j)) for j in range(NN)), 'does not give the emission of the class'); ob('T', all(eq(o[1].get(j), tau(j)) for j in range(NN)), 'does not give the transmission of the class')
                                else:
                                    call([Ptr(x) for x in o] + [Ptr(nu), NN] + tail)
                                    if 'rp' in S: return
                                    ob('I', all(eq(o[0].get(j), em(j)) for j in range(NN)), 'does not give the emission of the class')
                                    ob('QUV', all(eq(o[w].get(j), 0) for w in (1, 2, 3) for j in range(NN)), 'is polarised although the class does not say so')
                                    ob('T', all(eq(o[4].get(j).get(z), tau(j) if z // 4 == z % 4 else 0) for j in range(NN) for z in range(16)), 'does not give the transmission of the class')
                            except Unsupported as e:
                                if 'recursion' not in str(e): raise
                                ob('returns', False, 'never returns')
                            except Undef as e: ob('complete', False, str(e))
                        if first: ask(first, False)
                        for q in sorted(ids): ask(q, True)
                        return r
                    n += go(p, C, R, 'default:%s:%s:%s' % ('+'.join(S), first, thick), body, points=1)
    return n


def slabs(p, C, ab, R):
    """every class that gives emission and transmission together: over a step they are those of a homogeneous slab"""
    n = 0
    fs = sorted((f for f in p.fns.values() if f.n == 'radiativeQ' and len(f.d['params']) == 7 and f.cls and f.cls != A and p.is_a(f.cls, A) and 'Python' not in f.cls), key=lambda f: f.id)
    for f in fs:
        cls = f.cls; sh = cls.split('::')[-1]; fld = p.fields(cls); ok = 0; why = ''
        def body(seed, script):
            h = Hit(p, C, ab, seed, script, False, False, False, (), cls=cls); r = body.r = h.r
            r.free = True; r.ints['coordkind_'] = 2
            for g in p.fns.values():
                if g.cls == G and g.n == 'unitLength' and not g.d['params']: r.intr[g.id] = lambda r, o, a: r.rnd('unitlength')
                if g.cls == 'Gyoto::GridData2D' and g.d.get('ret', g.d.get('rt', '')) == 'double' and g.d['params']: r.intr[g.id] = lambda r, o, a, k=g.id: r.fun(k, [x for x in a if isnum(x)] + [Fraction(len(str(a[0].b.name)) if isinstance(a[0], Ptr) else 0)])
                if g.cls == A and g.n in ('emission', 'transmission', 'radiativeQ'): r.intr.pop(g.id, None)
            for c, fl in fld:
                if 'SmartPointer<' in fl['t'] and 'Spectrum' in fl['t']:
                    b = Block(fl['n']); b.c[0] = Obj(None, fl['n']); h.o.f[c + '::' + fl['n']] = b
            def rq(r, o, a):
                if len(a) == 4:
                    for q in range(a[3]):
                        for w in (0, 1): a[w].b.c[a[w].o + q] = r.fun('%s#%d' % (o.tag, w), [a[2].b.get(a[2].o + q)])
                    return
                raise Unsupported('radiativeQ of a spectrum')
            r.intr[('obj', 'radiativeQ')] = rq
            r.intr[('obj', 'coordKind')] = lambda r, o, a: 2
            def other(r, o, a, nm, t):
                if t in ('double', 'float'): return r.fun(o.tag + '.' + nm, [x for x in a if isnum(x)] + [Fraction(0)])
                if any(isinstance(x, Ptr) for x in a): raise Unsupported('%s of an abstract object' % nm)
                return None
            r.intr[('obj', '*')] = other
            nu = Block('nu'); nu.c = {0: h.nu[0]}; out = []
            for ds in (D(h.dt.v, (1, 0, 0, 0)), D(r.rnd('dt2').v, (1, 0, 0, 0)), Fraction(0)):
                I, T = Block('Inu'), Block('Taunu')
                r.call(f.id, h.o, [Ptr(I), Ptr(T), Ptr(nu), 1, ds, h.cp, Ptr(h.co)])
                out.append((lift(I.get(0)), lift(T.get(0))))
            (I1, T1), (I2, T2), (I0, T0) = out
            ob = lambda w, c, m: R.ob('slab:%s:%s' % (sh, w), f.loc(), c, 'Astrobj::%s::radiativeQ: %s' % (sh, m))
            ob('absorption', T1.d[0] * T2.v % P == T2.d[0] * T1.v % P, 'the transmission is not an exponential of the length of the step')
            ob('emission', I1.d[0] * T2.v % P == I2.d[0] * T1.v % P, 'the emission does not grow as the transmission of what precedes it')
            ob('origin', I0.v == 0 and T0.v == 1, 'emits or absorbs over no distance')
            body.seen = body.seen + ((I1.d[0] != 0) + 2 * (T1.d[0] != 0),)
            return r
        body.seen = ()
        for seed in range(60):
            todo = [()]; m = 0
            while todo and m < 24:
                sc = todo.pop(); m += 1; body.r = None
                try: body('slab|%s|%d' % (sh, seed), sc)
                except (Redraw, ErrPath): pass
                except Unsupported as e: why = str(e); continue
                except Undef as e: why = str(e); continue
                if body.r is not None:
                    for j in range(len(sc), min(len(body.r.order), 8)): todo.insert(0, tuple(body.r.order[:j]) + (not body.r.order[j],))
            if body.seen.count(3) >= 3 or why and not body.seen and seed > 4: break
        n += len(body.seen)
        if 3 not in body.seen: R.count('undecided: slab %s (%s)' % (sh, why[:60] or 'no admissible point'))
        else: R.count('slabs decided')
    return n


def run(p, R):
    C = ctx(p); ab = abstract(p, C)
    n = omatrix(p, C, R)
    n += pmatrix(p, C, R) + resets(p, C, ab, R)
    n += hits(p, C, ab, R)
    n += defaults(p, C, ab, R)
    n += slabs(p, C, ab, R)
    R.need('points', n, 10)
