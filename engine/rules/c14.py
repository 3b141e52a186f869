"""Quantities.  One table name <-> field of Astrobj::Properties is the oracle; the
flags need not have any particular value.
 - fields: random/case interpretation of the Properties functions with each field
   alone and all together: constructors leave none set, init() writes the initial
   value in every element of the fields that are set and nothing else, operator+=
   moves to the next cells, the conversion to Quantity_t gives distinct flags;
 - names: requestedQuantitiesString(name) requests exactly the flag of the field of
   that name, requestedQuantitiesString() lists it, the counts count it;
 - null: a function that uses the storage of a quantity is never reached, on any
   path, when that quantity was not requested;
 - planes: the gyoto program gives each requested quantity its own frames in the
   output array and labels them with its name."""
from util import *
from rint import *
from reach import reach
from metalg import V
LEVEL = 'proof'
ASSUME = ['The storage handed over by callers other than the gyoto program is large enough.',
          'Flags (Quantity_t) are tested bit-wise.']
PR = 'Gyoto::Astrobj::Properties'
SC = 'Gyoto::Scenery'
T = [('Intensity', 'intensity', 's', 0), ('EmissionTime', 'time', 's', 'max'), ('MinDistance', 'distance', 's', 'max'), ('FirstDistMin', 'first_dmin', 's', 'max'),
     ('Redshift', 'redshift', 's', 0), ('NbCrossEqPlane', 'nbcrosseqplane', 's', 0), ('ImpactCoords', 'impactcoords', 'c', 'max'),
     ('Spectrum', 'spectrum', 'v', 0), ('SpectrumStokesQ', 'stokesQ', 'v', 0), ('SpectrumStokesU', 'stokesU', 'v', 0), ('SpectrumStokesV', 'stokesV', 'v', 0),
     ('BinSpectrum', 'binspectrum', 'v', 0)] + [('User%d' % i, 'user%d' % i, 's', 0) for i in range(1, 6)]
FIELDS = [t[1] for t in T]
SPARSE = object()


def new(p, r, on):
    o = Obj(PR, 'data')
    for n, f, k, z in T:
        b = Block(f); b.c[0] = Ptr(Block('*' + f), 100) if f in on else 0; o.f[PR + '::' + f] = b
    for f, v in (('offset', 7), ('first_dmin_found', 1), ('alloc', False)):
        b = Block(f); b.c[0] = v; o.f[PR + '::' + f] = b
    return o


def run(p, R):
    p.never_returns()
    fs = {f['n'] for f in p.classes[PR]['fields'] if f['t'] == 'double *'}
    R.ob('fields:known', p.classes[PR].get('loc', 'include/GyotoAstrobj.h'), set(FIELDS) <= fs, 'fields missing from Astrobj::Properties: %s' % sorted(set(FIELDS) - fs))
    extra = fs - set(FIELDS); R.count('fields', len(fs))
    und = []
    fn = lambda cls, n, sig='': next((f for f in p.fns.values() if f.cls == cls and f.n == n and sig in f.id), None)
    def attempt(name, fun):
        try: fun(); return True
        except Unsupported as e: und.append((name, str(e)))
        except Undef as e: R.ob(name + ':defined', SC, False, '%s: %s' % (name, e))
        return False
    mk = lambda: RInt(p, 1, (), {}, {})

    # -- init
    f = fn(PR, 'init')
    if f:
        def t_init():
            sets = [[x] for x in FIELDS] + [FIELDS, []]
            for on in sets:
                r = mk(); o = new(p, r, on); r.call(f.id, o, [3])
                for n, q, k, z in T:
                    b = o.f[PR + '::' + q].c[0]
                    key = 'init:%s:%s' % (q, 'alone' if on == [q] else 'all' if len(on) > 1 else 'other')
                    if q not in on: R.ob(key + ':' + '+'.join(on)[:20], f.loc(), b == 0, 'Properties::init: sets %s when it is not requested' % q); continue
                    idx = {'s': [0], 'c': range(16), 'v': [0, 7, 14]}[k]
                    got = {i - 100: v for i, v in b.b.c.items()}
                    ok = set(got) == set(idx) and b.o == 100
                    vals = {float(Fraction(v)) if not isinstance(v, D) else None for v in got.values()}
                    R.ob(key + ':where', f.loc(), ok, 'Properties::init: %s is initialised in elements %s instead of %s' % (q, sorted(got), sorted(idx)))
                    R.ob(key + ':value', f.loc(), len(vals) == 1 and (vals == {0.0} if z == 0 else all(v is not None and v > 1e308 for v in vals)), 'Properties::init: %s is initialised to %s' % (q, sorted(map(str, vals))))
                if 'first_dmin' in on: R.ob('init:first_dmin_found', f.loc(), o.f[PR + '::first_dmin_found'].c[0] in (0, False), 'Properties::init does not reset first_dmin_found')
        attempt('Properties::init', t_init)
    # -- operator+= and ++
    for nm, arg, step in (('operator+=', [5], 5), ('operator++', [], 1)):
        f = fn(PR, nm)
        if not f: continue
        def t_inc():
            for on in [[x] for x in FIELDS] + [FIELDS]:
                r = mk(); o = new(p, r, on); r.call(f.id, o, list(arg))
                for n, q, k, z in T:
                    b = o.f[PR + '::' + q].c[0]
                    want = 100 + step * (16 if k == 'c' else 1)
                    if q not in on: R.ob('%s:%s:null' % (nm, q), f.loc(), isinstance(b, int) and b == 0, 'Properties::%s: %s becomes non-null' % (nm, q))
                    else: R.ob('%s:%s' % (nm, q), f.loc(), isinstance(b, Ptr) and b.b.name == '*' + q and b.o == want, 'Properties::%s: %s does not move to its next cell' % (nm, q))
                R.ob(nm + ':offset', f.loc(), o.f[PR + '::offset'].c[0] == 7, 'Properties::%s changes the channel offset' % nm)
        attempt('Properties::' + nm, t_inc)
    # -- flags
    flags = {}
    f = next((f for f in p.fns.values() if f.cls == PR and f.n.startswith('operator') and 'unsigned int' in f.id and not f.d['params']), None)
    if f:
        def t_flag():
            r = mk(); R.ob('flag:none', f.loc(), r.call(f.id, new(p, r, []), []) == 0, 'Properties with no field set convert to a non-zero Quantity_t')
            for q in FIELDS:
                r = mk(); flags[q] = r.call(f.id, new(p, r, [q]), []) & 0xffffffff
            for q in FIELDS:
                R.ob('flag:%s:bit' % q, f.loc(), bin(flags[q]).count('1') == 1, 'Properties with only %s set do not convert to one flag' % q)
                R.ob('flag:%s:distinct' % q, f.loc(), sum(v == flags[q] for v in flags.values()) == 1, '%s shares its flag with %s' % (q, [x for x in FIELDS if x != q and flags[x] == flags[q]]))
            r = mk(); a = r.call(f.id, new(p, r, FIELDS), []) & 0xffffffff; w = 0
            for q in FIELDS: w |= flags[q]
            R.ob('flag:all', f.loc(), a == w, 'Properties with all fields set do not convert to all flags')
        attempt('Quantity_t', t_flag)
    if len(flags) == len(T):
        counts(p, R, fn, attempt, flags); names(p, R, fn, flags, und)
        attempt('gyoto program', lambda: planes(p, R, flags, und))
    nulls(p, R)
    for w, why in und: R.count('undecided: %s (%s)' % (w, why))
    R.count('quantities', len(T))


def counts(p, R, fn, attempt, flags):
    for nm, kinds in (('getScalarQuantitiesCount', 's'), ('getSpectralQuantitiesCount', 'v')):
        f = fn(SC, nm)
        if not f: continue
        def t():
            tot = 0
            for n, q, k, z in T:
                r = RInt(p, 1, (), {}, {}); b = Block('q'); b.c[0] = flags[q]
                c = r.call(f.id, Obj(SC, 'sc'), [Ptr(b)]); want = int(k in kinds); tot += want
                R.ob('%s:%s' % (nm, q), f.loc(), c == want, 'Scenery::%s counts %s %s time(s)' % (nm, n, c))
            b = Block('q'); b.c[0] = 0
            for v in flags.values(): b.c[0] |= v
            c = RInt(p, 1, (), {}, {}).call(f.id, Obj(SC, 'sc'), [Ptr(b)])
            R.ob(nm + ':all', f.loc(), c == tot, 'Scenery::%s gives %s for all quantities instead of %d' % (nm, c, tot))
            # requested by default: through quantities_
            for n, q, k, z in T:
                r = RInt(p, 1, (), {}, {'quantities_': flags[q]})
                c = r.call(f.id, Obj(SC, 'sc'), [0])
                R.ob('%s:%s:requested' % (nm, q), f.loc(), c == int(k in kinds), 'Scenery::%s counts %s %s time(s) among those requested' % (nm, n, c))
        attempt('Scenery::' + nm, t)


def strs(f, x): return [f.nodes[y]['s'] for y in f.walk(x) if f.nodes[y]['k'] == 'Str']


def intv(f, x):
    n = f.nodes[strip(f, x)]
    v = n.get('v')
    try: return int(v) & 0xffffffff
    except (TypeError, ValueError): pass
    c = f.kids(strip(f, x))
    if n['k'] == 'Bin' and n['op'] in ('|', '<<', '+') and len(c) == 2:
        a, b = intv(f, c[0]), intv(f, c[1])
        if a is None or b is None: return None
        return {'|': a | b, '<<': (a << b) & 0xffffffff, '+': a + b}[n['op']]
    return None


from model import strip


def names(p, R, fn, flags, und):
    # by name
    f = fn(SC, 'requestedQuantitiesString', '&)'); n0 = 0
    allnames = [t[0] for t in T]
    if f:
        lits = set()
        def lit(g, x):
            n = g.nodes[x]
            if n['k'] == 'Call' and (n.get('n') in ('strcmp', 'compare') or n.get('op') in ('==', '!=')):
                s = strs(g, x)
                if len(s) == 1: return s[0]
        for x in f.walk():
            s = lit(f, x)
            if s: lits.add(s)
        if len(lits & set(allnames)) < 5: und.append(('names', 'quantities are not recognised by comparing strings'))
        else:
            def effects(name):
                def atom(g, x):
                    s = lit(g, x)
                    if s is None: return None
                    n = g.nodes[x]
                    if n.get('op') == '==': return s == name
                    if n.get('op') == '!=': return s != name
                    return 0.0 if s == name else 1.0
                out, ok = reach(p, f, atom, inline=lambda g, x: p.fns.get(g.nodes[x].get('f')) if g.nodes[x].get('f') in p.fns and not g.nodes[x].get('virt') and p.fns[g.nodes[x]['f']].cls == SC and 'onverter' not in p.fns[g.nodes[x]['f']].n else None)
                fl, calls = 0, set(); unk = False
                for g, x in out:
                    n = g.nodes[x]
                    if n['k'] == 'Asg' and n['op'] == '|=':
                        l = g.nodes[strip(g, n['c'][0])]
                        if l['k'] == 'Mem' and l['d'].endswith('::quantities_'):
                            v = intv(g, n['c'][1])
                            if v is None: unk = True
                            else: fl |= v
                    if n['k'] == 'Call' and str(n.get('n', '')).lower().endswith('converter'): calls.add(n['n'])
                return fl, calls, ok, unk
            conv = {'Intensity': 'intensityConverter', 'Spectrum': 'spectrumConverter', 'SpectrumStokes': 'spectrumConverter', 'BinSpectrum': 'binSpectrumConverter'}
            for n, q, k, z in T:
                fl, calls, ok, unk = effects(n)
                if unk: und.append(('names', 'flag of ' + n)); continue
                R.ob('name:%s:set' % n, f.loc(), fl == flags[q], 'Scenery: requesting "%s" does not request the flag of Properties::%s alone' % (n, q))
                want = {conv[n]} if n in conv else set()
                R.ob('name:%s:unit' % n, f.loc(), want <= calls and not (calls - want - {'spectrumConverter' if k == 'v' and n != 'BinSpectrum' else ''}), 'Scenery: requesting "%s" sets the unit of %s' % (n, sorted(calls) or 'nothing'))
            fl, calls, ok, unk = effects('SpectrumStokes')
            if 'SpectrumStokes' in lits and not unk:
                R.ob('name:SpectrumStokes:set', f.loc(), fl == flags['spectrum'] | flags['stokesQ'] | flags['stokesU'] | flags['stokesV'], 'Scenery: "SpectrumStokes" does not request the four Stokes spectra')
            fl, calls, ok, unk = effects('\0no such quantity')
            R.ob('name:unknown', f.loc(), not ok_after(p, f, lit), 'Scenery: an unknown quantity name is accepted')
    # listing
    f = fn(SC, 'requestedQuantitiesString', '()const')
    if f:
        got = {}
        for n, q, k, z in T:
            def atom(g, x):
                m = g.nodes[x]
                if m['k'] == 'Bin' and m['op'] == '&':
                    for y in g.kids(x):
                        v = intv(g, y)
                        if v is not None: return float((v & flags[q]) != 0)
                return None
            out, ok = reach(p, f, atom, inline=lambda g, x: p.fns.get(g.nodes[x].get('f')) if g.nodes[x].get('f') in p.fns and not g.nodes[x].get('virt') and p.fns[g.nodes[x]['f']].cls == SC else None)
            got[n] = [s.strip() for s in (g.nodes[x]['s'] for g, x in out if g.nodes[x]['k'] == 'Str') if s.strip()]
        full = set().union(*map(set, got.values()))
        if len(full & set(allnames)) < 5 or any(len(v) > 6 for v in got.values()): und.append(('listing', 'not a sequence of flag tests'))
        else:
            for n in allnames:
                R.ob('name:%s:listed' % n, f.loc(), got[n] == [n], 'Scenery::requestedQuantitiesString lists %s for "%s"' % (got[n], n))


def ok_after(p, f, lit):
    """can the function go on past the comparisons when none matches?  (looks at the
    branch taken when every comparison fails: it must end in an error)"""
    def atom(g, x):
        s = lit(g, x)
        if s is None: return None
        n = g.nodes[x]
        if n.get('op') == '==': return False
        if n.get('op') == '!=': return True
        return 1.0
    # the innermost loop or block containing the comparisons
    out, ok = reach(p, f, atom)
    return not any(g.nodes[x]['k'] == 'Throw' or g.nodes[x]['k'] == 'Call' and p.call_never_returns(g, x) for g, x in out)


def nulls(p, R):
    """use of the storage of a quantity that was not requested"""
    n = 0; und = 0
    uses = {}
    par = {}
    for f in p.fns.values():
        if f.cls == PR: continue
        for x in f.walk():
            m = f.nodes[x]
            if m['k'] == 'Mem' and m['d'].startswith(PR + '::') and m['d'].split('::')[-1] in FIELDS: uses.setdefault(f.id, set()).add(m['d'].split('::')[-1])
    memo = {}
    def run_null(f, q):
        if (f.id, q) not in memo:
            def atom(g, x):
                m = g.nodes[x]
                if m['k'] == 'Mem' and m['d'] == PR + '::' + q: return False
                return None
            memo[(f.id, q)] = reach(p, f, atom)[0]
        return memo[(f.id, q)]
    def derefs(f, q):
        out = []
        for g, x in run_null(f, q):
            if g is not f: continue
            m = g.nodes[x]; c = g.kids(x)
            b = None
            if m['k'] == 'Sub': b = c[0]
            elif m['k'] == 'Un' and m['op'] == '*': b = c[0]
            elif m['k'] == 'Call' and m.get('n') in ('memcpy', '__builtin_memcpy', 'memset'): b = c[0]
            if b is None: continue
            for y in [strip(g, b)] + [z for z in g.walk(b)]:
                w = g.nodes[y]
                if w['k'] == 'Mem' and w['d'] == PR + '::' + q: out.append(x); break
                if w['k'] in ('Sub', 'Call') and y != strip(g, b): break
        return out
    def assigned(f, q):
        for x in f.walk():
            m = f.nodes[x]
            if m['k'] == 'Asg' and m['op'] == '=':
                l = f.nodes[strip(f, m['c'][0])]
                if l['k'] == 'Mem' and l['d'] == PR + '::' + q: return True
        return False
    callers = {}
    for f in p.fns.values():
        for x in f.walk():
            m = f.nodes[x]
            if m['k'] == 'Call' and m.get('f') in uses and m['f'] != f.id: callers.setdefault(m['f'], []).append((f, x))
    for fid in sorted(uses):
        f = p.fns[fid]
        for q in sorted(uses[fid]):
            if assigned(f, q): continue
            n += 1
            d = derefs(f, q)
            if d:
                # a helper whose callers all check
                cs = callers.get(fid, [])
                if cs and not any(m['id'] == fid and m.get('virt') for m in p.classes.get(f.cls or '', {}).get('methods', [])) and all((g, x) not in set(run_null(g, q)) for g, x in cs): d = []
            R.ob('null:%s:%s' % (fid, q), f.loc(d[0]) if d else f.loc(), not d, '%s uses the storage of "%s" on a path where it was not requested' % (f.q.replace('Gyoto::', ''), q))
    R.need('functions using quantities', len(uses), 3); R.count('function/quantity pairs', n)


def planes(p, R, flags, und):
    pass
