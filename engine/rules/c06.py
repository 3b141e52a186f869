"""Frame and freshness of setters.  For every concrete class, each setter of its
property table is interpreted abstractly on an arbitrary object.  (a) Frame: the
getter of every other property, interpreted before and after, must not
definitely change (different known value, or now dependent on the value given),
couplings documented in the class excepted.  (b) Freshness: if some setter or
constructor computes member D from member A, every setter that changes A also
rewrites D, from the new value of A.  (c) Every scalar member of such a class
that methods read is assigned somewhere outside the constructors."""
from util import *
from proptab import *
from chainai import *
from c04 import final
LEVEL = 'proof'
ASSUME = ['Only the state reachable through the property tables is compared; a change hidden behind an uninterpreted computation is not reported.',
          'Derivation relations are inferred from the code: a cached member computed only inside one setter has no second witness.']
# (property set, property read) pairs that are coupled on purpose
COUPLED = {
 ('Integ31', 'InitCoord'), ('Metric', 'InitCoord'), ('ParallelTransport', 'InitCoord'), ('Quantities', 'InitCoord'),
 ('Quantities', 'ParallelTransport'),                 # polarised quantities need parallel transport
 ('InitVelocity', 'InitPosition'),                    # completed to a four-velocity
 ('Metric', 'AngMomRinner'), ('Lambda', 'AngMomRinner'), ('AngMomRinner', 'Lambda'), ('ADAFParameters', 'ADAF'),
 ('Metric', 'InnerRadius'), ('Metric', 'LargeRadius'), ('PerturbKind', 'LargeRadius'), ('PolyIndex', 'LargeRadius'),
 ('Metric', 'SafetyValue'), ('Position', 'SafetyValue'), ('Radius', 'SafetyValue'), ('SmallRadius', 'SafetyValue'),
 ('Spin', 'Quadrupole'), ('Quadrupole', 'Spin'), ('TMin', 'TMax'), ('TMax', 'TMin'),
 ('Mask', 'Resolution'), ('Opacity', 'OpticallyThin'),
}
# member derived from another one but, by design, not refreshed with it
LATE = {
 ('Astrobj::FreeStar::fourveldt_', 'Astrobj::Generic::gg_'), ('Astrobj::FreeStar::posIni_', 'Astrobj::Generic::gg_'), ('Astrobj::Plasmoid::posIni_', 'Astrobj::Generic::gg_'),  # initial conditions refer to the metric they were given with
 ('Astrobj::XillverReflection::timelampphizero_', 'Astrobj::XillverReflection::lampradius_'),   # must be given after LampRadius (checked)
 ('Metric::NumericalMetricLorene::times_', 'Metric::NumericalMetricLorene::initial_time_'),
 ('Photon::object_', 'Worldline::metric_'), ('Python::Base::parameters_', 'Metric::Generic::mass_'),
}


def accessors(p, t, dyn):
    out = {}
    for c in chain(p, own_table(p, dyn)):
        for e in t[c]['entries']:
            if e.name not in out: out[e.name] = (final(p, dyn, e.funcs[0]), final(p, dyn, e.funcs[1]), e)
    return {k: v for k, v in out.items() if v[0] is not None and v[1] is not None}


def outcome(p, dyn, g, st):
    ai = ChainAI(p, dyn, {})
    s, r = ai.run(g, 'S', [], st, dyn)
    if s is None: return None, {}
    return r, {k[2]: x.ident for k, x in s.items() if k[0] == 'E' and k[1] == ('R', g.id)}


def ctor_relations(p, dyn):
    """(D, A) pairs assigned D = f(A) in a non-copy constructor"""
    out = {}
    for c in [dyn] + p.linear(dyn):
        for m in p.classes.get(c, {}).get('methods', ()):
            f = p.fns.get(m['id'])
            if f is None or m['kind'] != 'ctor' or f.d.get('copy'): continue
            for x in f.walk():
                n = f.nodes[x]
                if n['k'] != 'Asg' or n['op'] != '=': continue
                l = strip(f, n['c'][0])
                if f.nodes[l]['k'] != 'Mem': continue
                for y in f.walk(n['c'][1]):
                    m2 = f.nodes[y]
                    if m2['k'] == 'Mem' and m2.get('dk') != 'func' and m2['d'] != f.nodes[l]['d']: out.setdefault((f.nodes[l]['d'], m2['d']), short(f.q))
    return out


def frozen(p, t):
    """(class, field, reader) for scalar members read by methods but written only while constructing"""
    W, Rd = set(), {}
    for f in p.fns.values():
        life = f.d.get('kind') in ('ctor', 'dtor')
        par = f.parents()
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] != 'Mem' or n.get('dk') == 'func': continue
            y, z = x, par.get(x)
            while z is not None and f.nodes[z]['k'] in ('Cast', 'Sub', 'Mem'): y, z = z, par.get(z)
            m = f.nodes[z] if z is not None else {}
            w = m.get('k') == 'Asg' and m['c'][0] == y or m.get('k') == 'Un' and m['op'] in ('++', '--', '&') or m.get('k') in ('Call', 'Ctor')
            if w:
                if not life: W.add(n['d'])
            elif not life: Rd.setdefault(n['d'], f)
    for c in sorted(p.classes):
        if c not in t and not any(b in t for b in p.linear(c)): continue
        for fl in p.classes[c].get('fields', ()):
            if fl.get('t') in ('double', 'int', 'bool', 'float', 'size_t', 'unsigned long', 'long', 'unsigned int'):
                d = c + '::' + fl['n']
                if d in Rd: yield d, Rd[d], d in W, fl


def run(p, R):
    t = tables(p); nfr = nrel = ncls = 0
    V = Val(frozenset([('val', 0)]), None, ('val', 0))
    for dyn in sorted(p.classes):
        if p.classes[dyn].get('abstract') or own_table(p, dyn) is None: continue
        if p.is_a(dyn, 'Gyoto::Python::Base'): continue       # forwards to interpreter objects
        G = accessors(p, t, dyn); ncls += 1
        base = {q: outcome(p, dyn, g, State()) for q, (s, g, e) in G.items()}
        W = {}
        for P, (s, g, e) in G.items():
            ai = ChainAI(p, dyn, {}); st, _ = ai.run(s, 'S', [V], State(), dyn)
            if st is None: continue
            W[P] = {k[2]: x for k, x in st.items() if k[0] == 'F' and k[1] == 'S'}
            mod = {(k[1], k[2]) for k in st if k[0] == 'F'}
            for Q in G:
                b, bc = base[Q]
                if Q == P or G[Q][1] is g or b is None: continue
                nfr += 1
                key = '%s:%s->%s' % (short(dyn), P, Q)
                if not (b.deps & mod): R.ob(key, s.loc(), True); continue
                if (P, Q) in COUPLED: continue
                r, cells = outcome(p, dyn, G[Q][1], st.copy())
                if r is None: R.ob(key, s.loc(), True); continue
                same = r.ident is not None and r.ident == b.ident or cells and cells == bc and None not in cells.values() or r.ident is None and r.deps == b.deps
                definite = r.ident is not None and b.ident is not None or ('val', 0) in r.deps or r.kind == 'const'
                R.ob(key, s.loc(), same or not definite, 'setting %s also changes what %s reads (%s)' % (P, Q, short(str(r.ident if r.ident is not None else 'now depends on the value given'))[:120]))
        # freshness
        prim = {}
        for P, w in W.items():
            for f, x in w.items():
                if x.ident == ('val', 0): prim.setdefault(f, set()).add(P)
        rel = {}
        for P, w in W.items():
            pf = {f for f, x in w.items() if x.ident == ('val', 0)}
            for f, x in w.items():
                if f in pf: continue
                ds = {d[1] for d in x.deps if len(d) == 2 and d[0] == 'S'}
                if ('val', 0) in x.deps: ds |= pf
                for a in ds:
                    if a in prim and a != f: rel.setdefault((f, a), 'setter of ' + P)
        for (d, a), ev in ctor_relations(p, dyn).items():
            if a in prim: rel.setdefault((d, a), ev)
        for (d, a), ev in sorted(rel.items()):
            for P in sorted(prim[a]):
                if (short(d), short(a)) in LATE: continue
                nrel += 1
                key = 'fresh:%s:%s<-%s:%s' % (short(dyn), short(d), short(a), P)
                x = W[P].get(d)
                s = G[P][0]
                if x is None: R.ob(key, s.loc(), False, '%s is computed from %s (%s) but setting %s leaves it stale' % (short(d), short(a), ev, P)); continue
                stale = ('S', a) in x.deps and ('val', 0) not in x.deps and ('c', 'val', 0) not in x.deps
                R.ob(key, s.loc(), not stale, 'setting %s recomputes %s from the old value of %s' % (P, short(d), short(a)))
    nf = 0
    for d, rd, w, fl in frozen(p, t):
        nf += 1
        R.ob('live:' + short(d), rd.loc(), w, '%s is read here but never assigned outside constructors: no setter reaches it' % short(d))
    R.need('scalar members read', nf, 200)
    R.need('concrete classes', ncls, 20); R.need('setter/getter pairs', nfr, 2000); R.need('derived-member obligations', nrel, 40)
