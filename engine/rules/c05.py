"""Units.  For every To*/From* conversion function and every kind of unit (each
literal the code knows, each physical kind udunits may convert it to): the
function is interpreted in the monomial domain; To* must equal the physical
conversion written in the table below (as a product of c, the metric's unit
length, a udunits conversion and the value), From* composed after To* must be
the identity, and a unit accepted by one is accepted by the other.  unitLength
is G*mass/c^2.  The udunits wrapper hands (from, to, value) over in that order.
The physical constants satisfy the relations between them (static_assert
witness compiled against the current headers)."""
import subprocess, os, re
from util import *
from chainai import *
from facts import REPO, VERIF
import facts
LEVEL = 'proof'
ASSUME = ['Real arithmetic; udunits itself is trusted to convert correctly and to reject inconvertible units.']
C, EV, GC2 = 299792458., 2.417989348e14, 6.6743e-11 / 299792458. ** 2
NS = 'Gyoto::Units::'
# function -> {kind of unit: (exponent of cv(unit), factor, exponent of unit length)}
SPEC = {
 'Meters': {'': (1, 1., 0), 'm': (1, 1., 0), 'geometrical': (1, 1., 1), 's': (1, C, 0), 'Hz': (-1, C, 0), 'eV': (-1, C / EV, 0)},
 'Seconds': {'': (1, 1., 0), 's': (1, 1., 0), 'geometrical_time': (1, 1 / C, 1), 'm': (1, 1 / C, 0)},
 'Kilograms': {'': (1, 1., 0), 'kg': (1, 1., 0)},
 'Geometrical': {'': (1, 1., 0), 'geometrical': (1, 1., 0), 'm': (1, 1., -1), 's': (1, C, -1), 'Hz': (-1, C, -1), 'eV': (-1, C / EV, -1)},
 'GeometricalTime': {'': (1, 1., 0), 'geometrical_time': (1, 1., 0), 's': (1, C, -1), 'm': (1, 1., -1)},
 'Herz': {'': (1, 1., 0), 'Hz': (1, 1., 0), 'm': (-1, C, 0), 'eV': (1, EV, 0)},
}
KINDS = ('m', 's', 'Hz', 'eV', 'kg')
GG = ('sub', 'S', 'gg')


def mk(p, scen):
    ai = ChainAI(p, 'Gyoto::Metric::Generic', scen)
    ai.subs.add(GG); ai.subcls[GG] = 'Gyoto::Metric::Generic'
    return ai


def args(f, v, ulit, kind):
    u = Val(frozenset([('unit', 0)]), None, ('unit', 0)) if ulit is None else Val(frozenset([('unit', 0)]), None, None, EMPTY, None, 'const', ulit)
    g = Val(frozenset([('gg', 0)]), None, ('gg', 0), EMPTY, GG, None, None, frozenset([GG]))
    out = []
    for prm in f.d['params']:
        t = prm['t']
        if 'basic_string' in t: out.append(u)
        elif 'SmartPointer' in t: out.append(g)
        else: out.append(v)
    return out


def ev(p, f, v, ulit, kind):
    scen = {} if ulit is not None else {('unitconv',): kind}
    ai = mk(p, scen); st = State()
    s, r = ai.run(f, None, args(f, v, ulit, kind), st, None)
    return (None, None) if s is None else (r, ai)


def close(a, b): return a == b or abs(a - b) <= 2e-4 * max(abs(a), abs(b))


def one(p, name):
    fs = [f for f in p.fns.values() if f.q == NS + name and f.d['params'] and f.d['params'][0]['t'] == 'double']
    return fs[0] if fs else None


def run(p, R):
    ul = [f for f in p.fns.values() if f.q == 'Gyoto::Metric::Generic::unitLength' and not f.d['params']]
    R.need('unitLength', len(ul), 1)
    ai = mk(p, {}); s, r = ai.run(ul[0], GG, [], State(), 'Gyoto::Metric::Generic')
    U = term(r)
    mass = (GG, 'Gyoto::Metric::Generic::mass_')
    ok = U is not None and close(U[1], GC2) and len(U[2]) == 1 and U[2][0][1] == 1 and 'mass' in repr(U[2][0][0])
    R.ob('unitLength', ul[0].loc(), ok, 'the unit length is not G*mass/c^2 but %s' % (U,))
    if not ok: U = mono({('unknown', 'U'): 1})
    n = 0
    V = Val(frozenset([('val', 0)]), None, ('val', 0))
    for nm in sorted(SPEC):
        to, fr = one(p, 'To' + nm), one(p, 'From' + nm)
        if to is None or fr is None: continue
        lits = set(SPEC[nm])
        for _ in range(2):
            a = mk(p, {}); a.run(to, None, args(to, V, None, None), State(), None)
            lits |= {x for x in a.lits.get(('unit', 0), ())}
            a = mk(p, {}); a.run(fr, None, args(fr, V, None, None), State(), None)
            lits |= {x for x in a.lits.get(('unit', 0), ())}
        cases = [(l, None) for l in sorted(lits)] + [(None, k) for k in KINDS]
        for lit, kind in cases:
            n += 1
            what = 'unit "%s"' % lit if lit is not None else 'a unit convertible to %s' % kind
            key = '%s:%s' % (nm, lit if lit is not None else 'kind-' + kind)
            exp = SPEC[nm].get(lit if lit is not None else kind)
            r, a1 = ev(p, to, V, lit, kind)
            if lit == 'geometrical' and nm == 'Seconds': exp = SPEC[nm]['geometrical_time']
            # the right answer, in terms
            def expected(x):
                if exp is None: return None
                cvt = x if lit is not None else conv(('unit', 0), kind, x)
                return mul(mul(power(cvt, exp[0]), mono({}, exp[1])), power(U, exp[2]))
            if r is None:
                if exp is not None: R.ob('to:' + key, to.loc(), False, 'To%s rejects %s' % (nm, what))
                else:
                    r2, _ = ev(p, fr, V, lit, kind)
                    R.ob('refuse:' + key, fr.loc(), r2 is None, 'From%s accepts %s, which To%s rejects' % (nm, what, nm))
                continue
            t = term(r)
            if exp is not None:
                e = expected(term(V))
                good = t is None or (t[2] == e[2] and close(t[1], e[1]))
                R.ob('to:' + key, to.loc(), good and t is not None or t is None and ('val', 0) in r.must, 'To%s of %s is %s, expected %s' % (nm, what, show(t), show(e)))
            r2, a2 = ev(p, fr, Val(r.deps, r.must, r.ident, EMPTY, None, r.kind, r.v), lit, kind)
            if r2 is None:
                R.ob('from:' + key, fr.loc(), exp is None and False, 'From%s rejects %s, which To%s accepts' % (nm, what, nm)); continue
            t2 = term(r2)
            okk = t2 is not None and t2[2] == term(V)[2] and close(t2[1], 1.) or t2 is None and ('val', 0) in r2.must
            R.ob('from:' + key, fr.loc(), okk, 'From%s(To%s(v)) for %s is %s, not v' % (nm, nm, what, show(t2)))
    R.need('conversion cases', n, 40)
    wrapper(p, R)
    constants(R)


def show(t):
    if t is None: return 'unknown'
    return '%g%s' % (t[1], ''.join('*%s^%g' % (short(repr(a)), e) for a, e in t[2]))[:200]


def roots(p, f, i):
    """parameters an expression is made of"""
    out = set()
    for x in f.walk(i):
        m = f.nodes[x]
        if m['k'] == 'Ref' and m.get('d') in params(f): out.add(params(f).index(m['d']))
        elif m['k'] == 'Ref' and m.get('d', '').startswith('L:'):
            for e in defs(f).get(m['d'], ()): out |= roots(p, f, e)
    return out


def wrapper(p, R):
    """Units::Unit / Units::Converter over udunits: argument order"""
    k = 0
    for f in p.fns.values():
        if not f.q.startswith(NS): continue
        for x in f.walk():
            m = f.nodes[x]
            if m['k'] == 'Call' and m.get('n') == 'ut_get_converter' and 'Converter::' in f.q:
                a = [roots(p, f, y) for y in f.kids(x)]; k += 1
                R.ob('wrap:get_converter', f.loc(x), len(params(f)) == 2 and a == [{0}, {1}], 'the converter is built from (to, from) instead of (from, to)')
            if m['k'] == 'Call' and m.get('n') == 'reset' and m.get('cls') == NS + 'Converter' and len(params(f)) == 2:
                a = [roots(p, f, y) for y in f.kids(x)[1:]]
                if len(a) == 2: k += 1; R.ob('wrap:' + short(f.id), f.loc(x), a == [{0}, {1}], 'from and to units are exchanged')
            if m['k'] == 'Call' and m.get('n') == 'cv_convert_double':
                k += 1; R.ob('wrap:convert', f.loc(x), roots(p, f, f.kids(x)[1]) == {0}, 'the value converted is not the argument')
            if m['k'] == 'Call' and m.get('n') == 'ut_parse' and '::Unit::' in f.q:
                k += 1; R.ob('wrap:parse:' + short(f.id), f.loc(x), roots(p, f, f.kids(x)[1]) == {0}, 'the unit parsed is not the text given')
    R.need('udunits call sites', k, 3)


def constants(R):
    src = os.path.join(VERIF, 'witness', 'constants.cc')
    inc = [x for x in facts.flags_common()[0] if x.startswith('-I') or x.startswith('-D')]
    r = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-ferror-limit=0', '-Wno-everything', '-DGYOTO_WITNESS'] + inc + [src], capture_output=True, text=True)
    bad = re.findall(r"static assertion failed[^:]*: (.*)", r.stderr)
    other = [l for l in r.stderr.splitlines() if 'error:' in l and 'static assertion' not in l]
    if other:
        raise facts.AnalysisBroken('constants witness does not compile: ' + other[0])
    names = re.findall(r'^W\((\w+),', open(src).read(), re.M)
    for nme in names:
        R.ob('const:' + nme, 'include/GyotoDefs.h', nme not in bad, 'relation %s between physical constants does not hold' % nme)
    R.need('relations between constants', len(names), 20)
