"""For every concrete class and every entry of its property table (with and
without a unit): the setter is interpreted abstractly on an arbitrary object,
then the getter on the resulting state, virtual calls resolved for that class
and every enumerated case (unit literal, bool, option string, tested flag)
followed separately.  Whenever the setter returns, the getter must return, and
what it returns is the value given (symbolically identical) or, where the value
passes through an uninterpreted computation, data-dependent on it; it is never
a known different expression.  The tables themselves: getProperties() of every
class designates its own table, every ancestor's table is reachable through the
parent chain, names are unique along it,
and no two names share an accessor.
Every option name a getter reports is one its setter accepts.
The same for every other public scalar accessor pair n(v[,unit]) / n([unit])."""
from util import *
from proptab import *
from chainai import *
from reach import reach
LEVEL = 'proof'
ASSUME = ['Arithmetic is read as real arithmetic (x*c/c is x); rounding is not considered.',
          'A value that passes through a computation the domain does not interpret (loop over run-time sized tables, coordinate normalisation, file parsing) is only shown to depend on the value given.']

# (property, class or None) -> reason the entry is not a plain stored parameter
EXEMPT = {
 'UniformSphere:Alpha': 'deprecated, documented as accepted and ignored',
 'Generic:Mass@Shift': 'stored in the sub-metric, which notifies back (hook/tell)',
 '*:Instance': 'address of a Python object', '*:Module': 'imports a Python module', '*:InlineModule': 'compiles Python source', '*:Class': 'instantiates a Python class',
 '*:Parameters': 'forwarded to Python',
 'StarTrace:TMin': 'the two bounds are swapped when given in reverse order', 'StarTrace:TMax': 'same',
 'SimBridge:BoundaryConditions': 'text split into tokens and reassembled',
 'Scenery:Quantities': 'list of names parsed into flags and printed back (covered by the quantity-table property)',
 '*:Integrator=Legacy': 'selects an integrator object; the name is returned by that object',
 '*:rMax': 'the default value stands for automatic and is replaced by an estimate when read',
 'Screen:Mask=': 'the empty string discards the mask',
}

DUPOK = {'Scenery:Metric': 'its own entry comes first; the one brought by the Worldline macro calls the same accessors through a wrapper'}


def exempt(cls, name, dyn, lit):
    c, d = cls.split('::')[-1], dyn.split('::')[-1]
    ks = []
    for a in (c, d, '*'):
        b = '%s:%s' % (a, name)
        ks += [b, b + '@' + d]
        if lit is not None: ks.append('%s=%s' % (b, lit[0]))
    return next((k for k in ks if k in EXEMPT), None)


def final(p, dyn, ref):
    """function a member pointer designates for dynamic class dyn"""
    f = p.fns.get(ref['f'])
    decl = p.mdecl.get(ref['f'])
    if decl and decl[1].get('virtual'):
        r = p.resolve(dyn, ref['f'])
        return r or f
    return f


SCALAR = ('double', 'bool', 'long', 'unsigned long', 'int', 'unsigned int', 'size_t')


def accessors(p):
    """public void n(T[, string unit]) with T n([string unit]) const of the same class, T scalar"""
    def norm(t): return t.replace('const ', '').replace(' const', '').replace('&', '').strip()
    for c in sorted(p.classes):
        by = {}
        for m in p.classes[c].get('methods', ()):
            if m['id'] in p.fns and m.get('access') == 0: by.setdefault(m['n'], []).append(p.fns[m['id']])
        for n, fs in sorted(by.items()):
            for s in fs:
                if s.d.get('ret') != 'void': continue
                ps = [norm(x['t']) for x in s.d['params']]
                if not 1 <= len(ps) <= 2 or ps[0] not in SCALAR: continue
                if len(ps) == 2 and 'basic_string' not in ps[1]: continue
                for g in fs:
                    if g is not s and [norm(x['t']) for x in g.d['params']] == ps[1:] and norm(g.d['ret']) == ps[0]:
                        yield c, n, s, g, len(ps) == 2, ps[0]


def judge(ret, v, d, lit):
    """None if acceptable else message"""
    if v == 'unreadable': return 'accepted by the setter but reading it back always raises an error'
    r, cells = d
    if r.ident is not None and r.ident != ('val', 0): return 'reads back as %s, not the value set' % short(str(r.ident))[:160]
    if r.kind == 'const' and r.v is not None and not (lit is not None and r.v == lit[0]) and not isinstance(r.v, (tuple, dict)):
        return 'reads back as the constant %r%s' % (r.v, '' if lit is None else ' after setting %r' % (lit[0],))
    for k, c in sorted((cells or {}).items(), key=repr):
        if c.ident is not None and c.ident != ('el', ('val', 0), k): return 'element %s reads back as %s' % (k, short(str(c.ident))[:140])
    alld = set(r.deps)
    for c in (cells or {}).values(): alld |= set(c.deps)
    if ('val', 0) not in alld and ('c', 'val', 0) not in alld: return 'what is read back does not depend on the value set'
    if ret in SCALAR and ('val', 0) not in r.must: return 'on some path what is read back does not depend on the value set'
    return None


def show(sc):
    out = []
    for a, b in sorted(sc.items(), key=repr):
        if a == 'convs': continue
        n = a[-1] if isinstance(a, tuple) else a
        out.append('%s=%s' % (short(str(n)), short(str(b))))
    return ', '.join(out)


def returned(p, g):
    out = set(); live = {x for f, x in reach(p, g, lambda f, x: None)[0] if f is g}
    for i in g.walk():
        n = g.nodes[i]
        if n and n['k'] == 'Return':
            for j in g.walk(i):
                m = g.nodes[j]
                if m and m['k'] == 'Str' and m.get('s') and j in live: out.add(m['s'])
    return sorted(out)


def run(p, R):
    t = tables(p); npair = 0; nleaf = 0; cache = {}; nex = 0; nunk = 0; nid = 0; nopt = 0
    conc = [c for c in sorted(p.classes) if not p.classes[c].get('abstract') and own_table(p, c) is not None]
    for dyn in conc:
        own = own_table(p, dyn)
        # the table of the class itself, then of every ancestor that has one
        anc = [b for b in [dyn] + p.linear(dyn) if b in t]
        ch = chain(p, own)
        loc = t[own]['loc'] if own in t else ''
        for a in anc:
            R.ob('table:%s:%s' % (short(dyn), short(a)), t[a]['loc'], a in ch, 'properties declared by %s cannot be reached on a %s' % (short(a), short(dyn)))
        names = {}
        for c in ch:
            for e in t[c]['entries']:
                for nm in [e.name] + ([e.name_false] if e.name_false else []):
                    names.setdefault(nm, []).append((c, e))
        for nm, l in names.items():
            dup = {tuple(r['f'] for r in x[1].funcs) for x in l if x[0] == l[0][0]}
            R.ob('name:%s:%s' % (short(dyn), nm), loc, len(dup) == 1 or '%s:%s' % (short(l[0][0]), nm) in DUPOK, 'two different entries of the table of %s are called %s' % (short(l[0][0]), nm))
        seen = set()
        for c in ch:
            for e in t[c]['entries']:
                if e.name in seen: continue
                seen.add(e.name)
                for unit, k in ((False, 0),) + (((True, 2),) if len(e.funcs) == 4 else ()):
                    s, g = final(p, dyn, e.funcs[k]), final(p, dyn, e.funcs[k + 1])
                    if s is None or g is None: continue
                    npair += 1
                    ret = g.d['ret']
                    key = '%s.%s%s@%s' % (short(c), e.name, '(unit)' if unit else '', short(dyn))
                    msg = None
                    ck = (dyn, s.id, g.id, unit)
                    if ck not in cache:
                        cache[ck] = roundtrip(p, dyn, s, g, unit, ret == 'bool', 'basic_string' in ret and 'vector' not in ret)
                    for sc, lit, v, d, ai in cache[ck]:
                        nleaf += 1
                        if v in ('ok', 'refused'): nid += v == 'ok'; continue
                        if v == 'budget': nunk += 1; continue
                        if exempt(c, e.name, dyn, lit): nex += 1; continue
                        m = judge(ret, v, d, lit)
                        if m is None: nunk += 1; continue
                        msg = m + (' [%s]' % show(sc) if sc else '') + ('' if lit is None else ' [value %r]' % (lit[0],))
                        break
                    if msg is None and not unit and 'basic_string' in ret and 'vector' not in ret and not exempt(c, e.name, dyn, None):
                        # an option the getter reports by name is one the setter takes
                        for lit in returned(p, g):
                            nopt += 1
                            if run_pair(p, dyn, s, g, False, (lit,), {})[3] == 'noset': msg = 'the value %r, which it may report, is refused when given' % lit; break
                    R.ob(key, s.loc(), msg is None, '%s: %s' % (e.name, msg))
    # two names for one accessor; an accessor named after another property
    by = {}
    for c in t:
        own = {e.name.lower() for e in t[c]['entries']}
        for e in t[c]['entries']:
            for k, r in enumerate(e.funcs): by.setdefault(r['f'], {}).setdefault(e.name, e)
            a = e.funcs[0]['f'].split('(')[0].split('::')[-1].strip('_').lower()
            R.ob('bind:%s.%s' % (short(c), e.name), '%s:%d' % (e.file, e.line), a == e.name.lower() or a not in own, '%s is bound to the accessor of another property, %s' % (e.name, a))
    for f, es in by.items():
        R.ob('alias:' + short(f), '%s:%d' % (list(es.values())[-1].file, list(es.values())[-1].line), len(es) == 1, '%s are bound to the same accessor %s' % (' and '.join(sorted(es)), short(f)))
    nacc = 0
    for c, n, s, g, unit, ret in accessors(p):
        for dyn in [c] + sorted(p.derived[c]):
            if p.classes[dyn].get('abstract'): continue
            s2, g2 = final(p, dyn, {'f': s.id}), final(p, dyn, {'f': g.id})
            if (dyn, s2.id, g2.id, unit) in cache or exempt(c, n, dyn, None): continue
            msg = None; nacc += 1
            cache[(dyn, s2.id, g2.id, unit)] = rt = roundtrip(p, dyn, s2, g2, unit, ret == 'bool', False)
            for sc, lit, v, d, ai in rt:
                nleaf += 1
                if v in ('ok', 'refused', 'budget'): nid += v == 'ok'; continue
                m = judge(ret, v, d, lit)
                if m: msg = m + (' [%s]' % show(sc) if sc else ''); break
                nunk += 1
            R.ob('%s::%s%s@%s' % (short(c), n, '(unit)' if unit else '()', short(dyn)), s2.loc(), msg is None, '%s: %s' % (n, msg))
    R.need('other accessor pairs', nacc, 50)
    R.need('property tables', len(t), 20)
    R.need('concrete classes', len(conc), 20)
    R.need('setter/getter pairs', npair, 300)
    R.count('named options', nopt)
    R.count('cases followed', nleaf); R.count('cases read back identically', nid); R.count('cases shown only dependent', nunk); R.count('cases exempt by documentation', nex)
