"""Metric coefficients.  For every analytic metric (and both kinds of coordinates
where it has both) the coefficients are numbered by random interpretation of
gmunu and gmunu_up, whatever class of the hierarchy implements them: all sixteen
are set, they are symmetric, the matrix form and the component form agree,
gmunu_up is the matrix inverse of gmunu, and ScalarProd is the double
contraction.  matrix4Invert and matrix4CircularInvert are shown to invert an
arbitrary matrix of their domain.  Shift and Complex are checked around an
arbitrary sub-metric."""
from metalg import *
LEVEL = 'proof'
ASSUME = ['Real arithmetic: equality as rational functions of coordinates, parameters, sines, cosines and roots; rounding is out of scope.',
          'One-sided error probability below 1e-12 per identity (random interpretation over a 61-bit field).',
          'Square roots of a visible square y*y are taken for y>0.']


def run(p, R):
    C = ctx(p); n = 0; pts = 0
    for cls in C.classes:
        sh = cls.split('::')[-1]
        for ck in ((1, 2) if sh == 'Minkowski' else (2,)):
            tag = sh + ('' if ck == 2 or sh != 'Minkowski' else ':cartesian')
            res = {}
            def note(key, ok, k, msg):
                if key not in res or res[key][0]: res[key] = (ok, k, msg)
            def body(seed, script):
                r, o, x = C.point(cls, ck, seed, script); body.r = r
                b, _ = C.mat(r, o, 'gm', x)
                try: g = [[lift(b.get(4 * i + j)) for j in range(4)] for i in range(4)]; note('complete', True, 'gm', '')
                except Undef as e: note('complete', False, 'gm', 'gmunu leaves a coefficient unset: %s' % e); return r
                gi = inv4(g)
                for i in range(4):
                    for j in range(4):
                        note('symmetric:%d%d' % (min(i, j), max(i, j)), g[i][j].v == g[j][i].v, 'gm', 'g[%d][%d] differs from g[%d][%d]' % (i, j, j, i))
                def guard(k, f):
                    try: f()
                    except ErrPath: pass
                    except Undef as e: note('complete:' + k, False, k, str(e))
                def comp():
                    for i in range(4):
                        for j in range(4): note('component:%d%d' % (i, j), V(C.call(r, o, 'gc', x, i, j)) == g[i][j].v, 'gc', 'gmunu(pos,%d,%d) differs from g[%d][%d]' % (i, j, i, j))
                def up():
                    u, _ = C.mat(r, o, 'um', x)
                    for i in range(4):
                        for j in range(4): note('inverse:%d%d' % (i, j), V(u.get(4 * i + j)) == gi[i][j].v, 'um', 'gmunu_up[%d][%d] is not that of the inverse of gmunu' % (i, j))
                def upc():
                    for i in range(4):
                        for j in range(4): note('inverse-component:%d%d' % (i, j), V(C.call(r, o, 'uc', x, i, j)) == gi[i][j].v, 'uc', 'gmunu_up(pos,%d,%d) is not that of the inverse of gmunu' % (i, j))
                def sp():
                    u, v = vec(r, 'u'), vec(r, 'v')
                    note('ScalarProd', V(C.call(r, o, 'sp', x, u, v)) == dot(g, vals(u), vals(v)), 'sp', 'ScalarProd is not g(u,v)')
                guard('gc', comp); guard('um', up); guard('uc', upc); guard('sp', sp)
                return r
            d, e, why = C.sweep(tag, body, 3 if sh == 'Hayward' else 2); pts += d
            for key, (ok, k, msg) in sorted(res.items()):
                f = C.m(cls, k)
                R.ob('%s:%s' % (tag, key), f.loc(), ok, '%s: %s' % (f.q.replace('Gyoto::', ''), msg))
            n += bool(res)
    # --- inversion helpers
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.q not in ('Gyoto::matrix4Invert', 'Gyoto::matrix4CircularInvert'): continue
        bad = []
        def body(seed, script):
            r = RInt(p, seed, script, {}); body.r = r
            a = Block('A'); o = Block('Am1')
            for i in range(4):
                for j in range(4):
                    z = 'Circular' in f.q and i != j and {i, j} != {0, 3}
                    a.c[4 * i + j] = Fraction(0) if z else r.rnd('A%d%d' % (min(i, j), max(i, j)) if 'Circular' in f.q else 'A%d%d' % (i, j), False)
            m = inv4([[a.get(4 * i + j) for j in range(4)] for i in range(4)])
            r.call(f.id, None, [Ptr(o), Ptr(a)])
            for i in range(4):
                for j in range(4):
                    try:
                        if V(o.get(4 * i + j)) != m[i][j].v: bad.append((i, j))
                    except Undef: bad.append((i, j))
            return r
        d, e, why = C.sweep(f.n, body, 30); pts += d
        if d: R.ob('invert:' + f.n, f.loc(), not bad, '%s: element %s is not that of the inverse' % (f.n, bad[:1])); n += 1
    # --- metrics made of others
    n += compound(p, C, R)
    for w, why in C.undecided: R.count('undecided: %s (%s)' % (w, why))
    R.need('metrics and helpers decided', n, 4); R.count('points', pts)


def compound(p, C, R):
    n = 0
    for cls in ('Gyoto::Metric::Shift', 'Gyoto::Metric::Complex'):
        if cls not in p.classes: continue
        sh = cls.split('::')[-1]
        for k in ('gm', 'um', 'jac'):
            f = C.m(cls, k)
            if f is None or f.cls != cls: continue
            bad = []
            def sub(i):
                """an arbitrary metric: coefficients are unknown functions of its argument"""
                def method(name):
                    def go(r, this, a):
                        xs = [V(a[1].b.get(a[1].o + q)) for q in range(4)]
                        for q in range(64 if name == 'jac' else 16):
                            a[0].b.c[a[0].o + q] = r.rnd('%s|%s|%d|%r' % (this.tag, name, q, xs), False)
                        return None
                    return go
                return method
            def body(seed, script):
                ext = {('obj', 'gmunu'): sub(0)('gm'), ('obj', 'gmunu_up'): sub(0)('um'), ('obj', 'jacobian'): sub(0)('jac')}
                r, o, x = C.point(cls, 1, seed, script, extra=ext); body.r = r
                subs = [Obj(None, 's%d' % i) for i in range(3)]
                if sh == 'Shift':
                    b = Block('submet'); b.c[0] = subs[0]; o.f[cls + '::submet_'] = b
                else:
                    arr = Block('elements')
                    for i, s in enumerate(subs): arr.c[i] = s
                    b = Block('e'); b.c[0] = Ptr(arr); 
                    fld = [fl['n'] for c, fl in p.fields(cls, True) if fl['n'] == 'elements_']
                    for c, fl in p.fields(cls, True):
                        if fl['n'] == 'elements_': o.f[c + '::elements_'] = b
                        if fl['n'] == 'cardinal_': q = Block('c'); q.c[0] = 3; o.f[c + '::cardinal_'] = q
                out = Block('out'); r.call(f.id, o, [Ptr(out), x])
                N = 64 if k == 'jac' else 16
                def s_at(i, xs, q): return r.rnd('s%d|%s|%d|%r' % (i, k, q, xs), False)
                xs = [V(x.b.get(q)) for q in range(4)]
                if sh == 'Shift':
                    off = o.f.get(cls + '::offset_')
                    if off is None: bad.append('offset not used'); return r
                    xs = [(xs[q] - V(off.get(q))) % P for q in range(4)]
                    for q in range(N):
                        if V(out.get(q)) != s_at(0, xs, q).v: bad.append('coefficient %d is not the sub-metric at pos-offset' % q)
                else:
                    for q in range(N):
                        e = sum(s_at(i, xs, q).v for i in range(3))
                        if V(out.get(q)) != e % P: bad.append('coefficient %d is not the sum over the elements' % q)
                return r
            try: d, e, why = C.sweep(sh + ':' + k, body, 1)
            except Undef as e: bad.append(str(e)); d = 1
            if d: R.ob('%s:%s' % (sh, k), f.loc(), not bad, '%s: %s' % (f.q.replace('Gyoto::', ''), bad[:1])); n += 1
    return n
