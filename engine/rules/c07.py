"""Kind names.  Every Register(name, Subcontractor<C>) call: the kind the default
constructor of C ends up with (constructors interpreted abstractly) is name,
names are unique per register, every concrete class of the four families is
registered in the register of its family; Subcontractor<C> returns the object
made by new C(), handed the plug-in list and, when there is a messenger, its
parameters; X::Register stores name, function and the previous list;
Entry::getSubcontractor, under each case of name/plug-in match, returns the
entry's function exactly when both match, goes on along the list otherwise and
raises an error at the end unless told not to; X::getSubcontractor consults the
register of its own family with the name given and raises when nothing matches."""
import re
from util import *
from chainai import *
from reach import reach
LEVEL = 'proof'
ASSUME = ['The plug-in loading order (which plug-in is searched first) is not decided.']
FAM = ('Astrobj', 'Metric', 'Spectrum', 'Spectrometer')
# registered under several names, the kind being chosen among them afterwards
MULTI = {'Gyoto::Spectrometer::Uniform'}
INFRA = re.compile(r'Gyoto::Python::Object<|^Gyoto::Metric::Generic$')    # template bases, never instantiated by name
ENTRY = 'Gyoto::Register::Entry'


def registrations(p):
    for f in p.fns.values():
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] != 'Call' or n.get('n') != 'Register' or len(f.kids(x)) != 2: continue
            m = re.match(r'Gyoto::(\w+)::Register\(', n.get('f', ''))
            if not m: continue
            a, b = f.kids(x)
            name = [f.nodes[y]['s'] for y in f.walk(a) if f.nodes[y]['k'] == 'Str']
            fn = [f.nodes[y]['f'] for g, z in values(p, f, b) if g is f for y in f.walk(z) if f.nodes[y]['k'] == 'Ref' and f.nodes[y].get('dk') == 'func']
            yield f, x, m.group(1), name, fn


def mem(f, x, d):
    return any(f.nodes[y]['k'] == 'Mem' and f.nodes[y]['d'] == d for y in f.walk(x))


def entry_atom(name=None, plug=None, any_=None, nxt=None, err=None, subs=None):
    def atom(f, x):
        n = f.nodes[x]; c = f.kids(x)
        op = n.get('op')
        if n['k'] in ('Bin', 'Call') and op in ('==', '!=') and len(c) == 2 or n['k'] == 'Call' and n.get('n') == 'compare' and len(c) == 2:
            v = None
            if mem(f, x, ENTRY + '::name_'): v = name
            elif mem(f, x, ENTRY + '::plugin_'): v = plug
            elif mem(f, x, ENTRY + '::next_'): v = None if nxt is None else not nxt
            elif any(f.nodes[y]['k'] == 'Str' and f.nodes[y]['s'] == '' for y in f.walk(x)): v = any_
            if v is None: return None
            if n.get('n') == 'compare': return 0. if v else 1.
            return v == (op == '==')
        if n['k'] == 'Call' and n.get('n') in ('empty', 'size', 'length') and any('basic_string' in f.nodes[strip(f, y)].get('t', '') for y in c) and any_ is not None:
            return any_ if n['n'] == 'empty' else (0. if any_ else 1.)
        if n['k'] == 'Mem' and n['d'] == ENTRY + '::next_' and nxt is not None: return nxt
        if n['k'] == 'Ref' and n['d'] in params(f) and n.get('t') == 'int' and err is not None: return err
        if subs is not None and n['k'] == 'Call' and n.get('f', '').startswith(ENTRY + '::getSubcontractor('): return subs
    return atom


def rets(p, f, out):
    """terminals of the values returned on the reached paths: (fn, node)"""
    r = []
    for g, y in out:
        if g is f and g.nodes[y]['k'] == 'Return' and g.kids(y): r += values(p, g, g.kids(y)[0], inline=False)
    return r


def run(p, R):
    regs = {}; by = {}; n = 0
    for f, x, fam, name, fn in registrations(p):
        n += 1
        m = re.match(r'Gyoto::(\w+)::Subcontractor<(.*?)>\(', fn[0]) if len(fn) == 1 else None
        if len(name) != 1 or not m:
            R.ob('form:%s' % f.loc(x), f.loc(x), False, 'registration whose name or function is not known at compile time'); continue
        name = name[0]; cls = m.group(2)
        k = '%s/%s' % (fam, name)
        R.ob('unique:' + k, f.loc(x), k not in by, '%s registers the kind %s a second time (first at %s)' % (short(cls), name, by.get(k)))
        by[k] = f.loc(x)
        regs.setdefault(cls, []).append((name, fam, f, x, fn[0]))
        R.ob('family:' + k, f.loc(x), m.group(1) == fam and p.is_a(cls, 'Gyoto::%s::Generic' % fam), '%s is registered among %s' % (short(cls), fam))
    R.need('registrations', n, 50)
    # kind given by the default constructor
    for cls, l in sorted(regs.items()):
        if cls in MULTI: continue
        names = {q[0] for q in l}
        ct = [f for f in p.fns.values() if f.d.get('kind') == 'ctor' and f.d.get('cls') == cls and not f.d['params']]
        if not ct: continue
        st, _ = ChainAI(p, cls, {}).run(ct[0], 'S', [], State(), cls)
        v = st.get(('F', 'S', 'Gyoto::Object::kind_')) if st else None
        got = v.v if v is not None and v.kind == 'const' else None
        if isinstance(got, tuple) and got[0] == 'global':
            g = p.vars.get(got[1], {}); got = next((y['s'] for y in g.get('nodes', ()) if y['k'] == 'Str'), None)
        for nm in sorted(names): R.ob('kind:%s:%s' % (short(cls), nm), ct[0].loc(), got == nm, '%s is registered as %s but its constructor gives it the kind %r' % (short(cls), nm, got))
    # coverage of the families
    nc = 0
    for cls in sorted(p.classes):
        for fam in FAM:
            if p.is_a(cls, 'Gyoto::%s::Generic' % fam) and not p.classes[cls].get('abstract') and not INFRA.search(cls):
                nc += 1
                f = next((g for g in p.fns.values() if g.d.get('kind') == 'ctor' and g.d.get('cls') == cls), None)
                R.ob('registered:' + short(cls), f.loc() if f else p.classes[cls].get('file', ''), cls in regs, '%s can be instantiated but no kind name creates it' % short(cls))
    R.need('instantiable classes', nc, 60)
    # the template creating the object
    ns = 0
    for cls, l in sorted(regs.items()):
        f = p.fns.get(l[0][4])
        if f is None: R.ob('make:' + short(cls), l[0][2].loc(l[0][3]), False, 'body of %s not found' % l[0][4]); continue
        ns += 1
        src = [t for r in returns(f) for t in values(p, f, r)]
        ok = bool(src) and all(g.nodes[y]['k'] == 'New' and g.nodes[y].get('t', '').replace(' *', '') == cls for g, y in src)
        for g, y in src:
            for z in g.walk(y):
                if g.nodes[z]['k'] == 'Ctor' and g.nodes[z].get('cls') == cls and any(g.nodes[a]['k'] != 'DefArg' for a in g.kids(z)): ok = False
        R.ob('make:' + short(cls), f.loc(), ok, 'does not return new %s()' % short(cls))
        pm = params(f)
        def ptr(v):
            def atom(g, y):
                if g is f and g.nodes[y]['k'] == 'Ref' and g.nodes[y]['d'] == pm[0]: return v
            return atom
        out, can = reach(p, f, ptr(True))
        calls = {}
        for g, y in out:
            if g.nodes[y]['k'] == 'Call': calls.setdefault(g.nodes[y].get('n'), []).append((g, y))
        def got(nm, d): return any(any(g.nodes[z]['k'] == 'Ref' and g.nodes[z]['d'] == d for z in g.walk(y)) for g, y in calls.get(nm, ()))
        R.ob('params:' + short(cls), f.loc(), can and got('setParameters', pm[0]), 'a messenger is given but the new object does not get its parameters from it')
        if l[0][1] != 'Spectrometer' or len(pm) > 1: R.ob('plugins:' + short(cls), f.loc(), got('plugins', pm[1]), 'the new object does not remember its plug-ins')
        out, can = reach(p, f, ptr(False))
        R.ob('nofmp:' + short(cls), f.loc(), can and not any(g.nodes[y]['k'] == 'Call' and g.nodes[y].get('n') == 'setParameters' for g, y in out), 'without a messenger the object is not created cleanly')
    R.need('creation templates', ns, 50)
    # X::Register and Entry
    ent = [f for f in p.fns.values() if f.d.get('kind') == 'ctor' and f.d.get('cls') == ENTRY and len(f.d['params']) == 3]
    R.need('Entry constructors', len(ent), 1)
    for f in ent:
        init = {}
        for i in f.d.get('inits', ()):
            init[(i.get('m') or i.get('field') or i.get('d') or '').split('::')[-1]] = i.get('e', i.get('x', -1))
        for fl, k in (('name_', 0), ('subcontractor_', 1), ('next_', 2)):
            x = init.get(fl, -1)
            ok = x is not None and x >= 0 and any(f.nodes[y]['k'] == 'Ref' and f.nodes[y]['d'] == params(f)[k] for y in f.walk(x))
            if not ok:
                ok = any(f.nodes[y]['k'] in ('Asg', 'Call') and f.nodes[y].get('op') == '=' and mem(f, f.kids(y)[0], ENTRY + '::' + fl) and any(f.nodes[z].get('d') == params(f)[k] for z in f.walk(f.kids(y)[1])) for y in f.walk())
            R.ob('entry:' + fl, f.loc(), ok, 'an entry does not keep the %s it is given' % fl)
    nr = 0
    for fam in FAM:
        f = next((g for g in p.fns.values() if g.q == 'Gyoto::%s::Register' % fam), None)
        reg = 'G:Gyoto::%s::Register_' % fam
        if f is None: continue
        nr += 1
        cs = [x for x in f.walk() if f.nodes[x]['k'] == 'Ctor' and f.nodes[x].get('cls') == ENTRY and len(f.kids(x)) == 3]
        ok = len(cs) == 1
        if ok:
            a = [[f.nodes[y].get('d') for g, z in values(p, f, k, inline=False) if g is f for y in f.walk(z)] for k in f.kids(cs[0])]
            ok = params(f)[0] in a[0] and params(f)[1] in a[1] and reg in a[2]
        R.ob('append:' + fam, f.loc(), ok, 'a new entry is not made of the name, the function and the previous list of %s' % fam)
        st = [x for x in f.walk() if f.nodes[x]['k'] == 'Asg' and f.nodes[strip(f, f.kids(x)[0])].get('d') == reg]
        ok = len(st) == 1 and all(g.nodes[y]['k'] == 'New' for g, y in values(p, f, f.kids(st[0])[1]))
        R.ob('head:' + fam, f.loc(), ok, 'the new entry does not become the head of the %s register' % fam)
    R.need('register functions', nr, 4)
    # lookup
    gs = [f for f in p.fns.values() if f.q == ENTRY + '::getSubcontractor' and len(f.d['params']) == 3]
    R.need('lookup functions', len(gs), 1)
    for f in gs:
        sub = ENTRY + '::subcontractor_'
        def case(**kw):
            out, can = reach(p, f, entry_atom(**kw))
            r = rets(p, f, out)
            return [g.nodes[y]['k'] == 'Mem' and g.nodes[y]['d'] == sub for g, y in r], can, out, r
        hit, can, out, r = case(name=True, any_=True)
        R.ob('find:any', f.loc(), bool(hit) and all(hit), 'the name matches and no plug-in was requested, but another function (or none) is returned')
        R.ob('find:any-plugin', f.loc(), any(g.nodes[y]['k'] in ('Asg', 'Call') and g.nodes[y].get('op') == '=' and mem(g, g.kids(y)[1], ENTRY + '::plugin_') for g, y in out), 'the plug-in found is not reported back')
        hit, can, out, r = case(name=True, plug=True, any_=False)
        R.ob('find:plugin', f.loc(), bool(hit) and all(hit), 'name and plug-in match but another function (or none) is returned')
        R.ob('find:plugin-kept', f.loc(), not any(g.nodes[y]['k'] in ('Asg', 'Call') and g.nodes[y].get('op') == '=' and g.nodes[strip(g, g.kids(y)[0])].get('d') == params(f)[1] for g, y in out), 'the plug-in requested is overwritten')
        for t, kw in (('name', dict(name=False)), ('name-same-plugin', dict(name=False, plug=True, any_=False)), ('plugin', dict(name=True, plug=False, any_=False))):
            hit, can, out, r = case(**kw)
            R.ob('skip:' + t, f.loc(), not any(hit), 'an entry whose %s differs is returned' % t)
            hit, can, out, r = case(nxt=True, **kw)
            nx = any(g.nodes[y]['k'] == 'Call' and g.nodes[y].get('n') == 'getSubcontractor' and mem(g, y, ENTRY + '::next_') and all(any(g.nodes[z].get('d') == d for z in g.walk(a)) for a, d in zip(g.kids(y)[-3:], params(f))) for g, y in r)
            lp = any(g.nodes[y]['k'] == 'Asg' and mem(g, g.kids(y)[1], ENTRY + '::next_') for g, y in out)
            R.ob('next:' + t, f.loc(), nx or lp, 'the entries that follow are not searched with the same request')
            if not lp:
                hit, can, out, r = case(nxt=False, err=0., **kw)
                R.ob('end:' + t, f.loc(), not can, 'the end of the list is reached without an error although errors were requested')
                hit, can, out, r = case(nxt=False, err=1., **kw)
                R.ob('end-quiet:' + t, f.loc(), can, 'the end of the list raises an error although a null answer was requested')
    nf = 0
    for fam in FAM:
        for f in p.fns.values():
            if f.q != 'Gyoto::%s::getSubcontractor' % fam: continue
            nf += 1
            reg = 'G:Gyoto::%s::Register_' % fam
            cs = [x for x in f.walk() if f.nodes[x]['k'] == 'Call' and f.nodes[x].get('f', '').startswith(ENTRY + '::getSubcontractor(')]
            R.ob('own:' + fam, f.loc(), bool(cs) and all(any(f.nodes[y].get('d') == reg for y in f.walk(x)) and any(f.nodes[y].get('d') == params(f)[0] for y in f.walk(f.kids(x)[1 if f.nodes[x].get('mc') else 0])) for x in cs), 'searches another register, or for another name')
            bad = [(g, y) for r in returns(f) for g, y in values(p, f, r, inline=False) if not (g.nodes[y]['k'] == 'Call' and g.nodes[y].get('f', '').startswith(ENTRY + '::getSubcontractor(') or g.nodes[y]['k'] in ('Null', 'Lit', 'Default', 'Nullptr'))]
            R.ob('only:' + fam, f.loc(), not bad, 'returns something that is not an entry of the register')
            out, can = reach(p, f, entry_atom(subs=False, err=0.))
            R.ob('missing:' + fam, f.loc(), not can, 'nothing matches and errors were requested, but the function returns')
            out, can = reach(p, f, entry_atom(subs=False, err=1.))
            R.ob('missing-quiet:' + fam, f.loc(), can, 'nothing matches and a null answer was requested, but the function raises')
    R.need('family lookups', nf, 4)
