"""Property dispatch.  Object::set/get/fillProperty/setParameters/setParameter,
Object::isThreadSafe, the Property constructors and the Value class are
specialised to each property type in turn (and to: unit given or not, accessor
present or not, plain or negative boolean name); on the paths left, exactly the
accessor of that type is used, the value is converted from and to that type and
nothing else, the XML element carries the property's own name, and a type, unit
or name that cannot be honoured never gets through silently."""
import re
from util import *
from reach import Reach
LEVEL = 'proof'
ASSUME = ['FactoryMessenger and the text-to-number functions are taken at their word here.']
PT, VA, OB, FM = 'Gyoto::Property::', 'Gyoto::Value', 'Gyoto::Object', 'Gyoto::FactoryMessenger'
STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
def SP(c): return 'Gyoto::SmartPointer<Gyoto::%s>' % c
# type -> (C++ type, accessor suffix, member of Value)
T = {
 'double_t': ('double', 'double', 'Double'), 'long_t': ('long', 'long', 'Long'), 'unsigned_long_t': ('unsigned long', 'unsigned_long', 'ULong'),
 'size_t_t': ('unsigned long', 'size_t', 'SizeT'), 'bool_t': ('bool', 'bool', 'Bool'), 'string_t': (STR, 'string', 'String'), 'filename_t': (STR, 'string', 'String'),
 'vector_double_t': ('std::vector<double, std::allocator<double>>', 'vdouble', 'VDouble'), 'vector_unsigned_long_t': ('std::vector<unsigned long, std::allocator<unsigned long>>', 'vulong', 'VULong'),
 'metric_t': (SP('Metric::Generic'), 'metric', 'Metric'), 'astrobj_t': (SP('Astrobj::Generic'), 'astrobj', 'Astrobj'), 'screen_t': (SP('Screen'), 'screen', 'Screen'),
 'spectrum_t': (SP('Spectrum::Generic'), 'spectrum', 'Spectrum'), 'spectrometer_t': (SP('Spectrometer::Generic'), 'spectrometer', 'Spectrometer'),
}
OBJ = ('metric_t', 'astrobj_t', 'screen_t', 'spectrum_t', 'spectrometer_t')
UNIT = ('double_t', 'vector_double_t')
KEEP = {'set', 'get', 'setParameter', 'setParameters', 'property', 'fillElement', 'fillProperty', 'throwError', 'isThreadSafe', 'getProperties', 'parseArray', 'parseArrayULong', 'getSubcontractor', 'atof', 'split', 'kind', 'plugins'}


def canon(t): return re.sub(r'\b(const|volatile)\b|&|\s+$|^\s+', '', t).strip().replace('size_t', 'unsigned long')


class Case:
    """the paths of f compatible with the given facts"""
    def __init__(self, p, f, ty=None, unit=None, acc=None, neg=None, eqname=None, found=None, extra=None):
        self.p, self.f = p, f
        def atom(g, x):
            n = g.nodes[x]; k = n['k']; c = g.kids(x)
            if extra:
                r = extra(g, x)
                if r is not None: return r
            if k == 'Mem':
                if n['d'] in (PT + 'type', VA + '::type') and ty: return ('enum', PT + ty)
                if acc is not None and re.match(re.escape(PT) + r'\w+::[sg]et_\w+$', n['d']): return acc
            op = n.get('op')
            if (k in ('Bin', 'Call') and op in ('==', '!=') or k == 'Call' and n.get('n') == 'compare') and len(c) == 2:
                v = None
                if any(g.nodes[strip(g, y)]['k'] in ('Str',) and g.nodes[strip(g, y)]['s'] == '' for y in c) and unit is not None: v = not unit
                elif self.mem(g, x, PT + 'name_false'): v = neg
                elif self.mem(g, x, PT + 'name'): v = eqname
                if v is not None:
                    if n.get('n') == 'compare': return 0. if v else 1.
                    return v == (op == '==')
            if k == 'Call' and n.get('n') == 'empty' and unit is not None and 'basic_string' in g.nodes[strip(g, c[0])].get('t', ''): return not unit
            if k == 'Call' and n.get('q') == OB + '::property' and found is not None: return found
            return None
        def inline(g, x):
            h = p.fns.get(g.nodes[x].get('f'))
            if h is None or g.nodes[x].get('virt') or h.n in KEEP or h.q.startswith(VA + '::') or 'operator' in h.n or not h.d.get('file', '').startswith('lib/'): return None
            if h.q.startswith(FM + '::'): return None
            return h
        self.R = Reach(p, atom, inline, 3)
        self.can = self.R.run(f)
        self.out = self.R.out; self.asg = None

    @staticmethod
    def mem(g, x, d): return any(g.nodes[y]['k'] == 'Mem' and g.nodes[y]['d'] == d for y in g.walk(x))

    def calls(self, pred): return [(g, x) for g, x in self.out if g.nodes[x]['k'] == 'Call' and pred(g.nodes[x])]
    def named(self, q): return self.calls(lambda n: n.get('q') == q)
    def errors(self): return [(g, x) for g, x in self.out if g.nodes[x]['k'] == 'Call' and g.nodes[x].get('n') == 'throwError' or g.nodes[x]['k'] == 'Throw']
    def conv(self): return {canon(g.nodes[x]['t']) for g, x in self.out if g.nodes[x]['k'] == 'Call' and g.nodes[x].get('q', '').startswith(VA + '::operator ')}
    def made(self): return {canon(re.search(r'Value\((.*)\)$', g.nodes[x]['f']).group(1)) for g, x in self.out if g.nodes[x]['k'] == 'Ctor' and g.nodes[x].get('cls') == VA and g.kids(x) and not g.nodes[x].get('copy') and not g.nodes[x]['f'].endswith('(Gyoto::Value &&)')}
    def fields(self, union): return {g.nodes[x]['d'].split('::')[-1] for g, x in self.out if g.nodes[x]['k'] == 'Mem' and g.nodes[x]['d'].startswith(PT + union + '::')}
    def vmembers(self): return {g.nodes[x]['d'].split('::')[-1] for g, x in self.out if g.nodes[x]['k'] == 'Mem' and g.nodes[x]['d'].startswith(VA + '::') and not g.nodes[x]['d'].endswith('::type')}
    def ptrcalls(self): return [(g, x) for g, x in self.out if g.nodes[x]['k'] == 'Call' and g.nodes[x].get('ptrmem')]

    def leaves(self, g, x, env=None, depth=0):
        """names (parameters, fields, callees) the value may come from on these paths, through locals, chosen branches and inlined helpers"""
        if self.asg is None:
            self.asg = {}
            for h, y in self.out:
                n = h.nodes[y]; c = h.kids(y)
                if n['k'] == 'Var' and c: self.asg.setdefault((h.id, n['d']), []).append(c[0])
                elif n['k'] in ('Asg', 'Call') and n.get('op') == '=' and len(c) == 2:
                    l = h.nodes[strip(h, c[0])]
                    if l['k'] == 'Ref': self.asg.setdefault((h.id, l['d']), []).append(c[1])
        if env is None and g is not self.f and depth < 4:
            for h, y in self.out:
                if h.nodes[y]['k'] == 'Call' and self.R.inline(h, y) is g:
                    env = {d: (h, a, None) for d, a in zip(params(g), args(h, y))}; break
        out, st, seen = set(), [x], set()
        while st:
            y = st.pop()
            if y in seen or y is None or y < 0: continue
            seen.add(y); n = g.nodes[y]; c = g.kids(y)
            if n['k'] == 'Cond':
                v = Reach.truth(self.R.const(g, c[0]))
                st += c[1:3] if v is None else [c[1] if v else c[2]]
                continue
            if n['k'] == 'Ref':
                ds = self.asg.get((g.id, n['d']), []); st += ds
                if n['d'] in params(g):
                    if env and n['d'] in env: h, a, e = env[n['d']]; out |= self.leaves(h, a, e, depth + 1)
                    else: out.add(n['d'])
                elif not ds: out.add(n['d'])
                continue
            if n['k'] == 'Mem': out.add(n['d'])
            if n['k'] == 'Un' and n['op'] == '!': out.add('!')
            if n['k'] == 'Str': out.add('"%s"' % n['s'])
            if n['k'] == 'Call':
                out.add(n.get('q') or n.get('n') or '?')
                h = self.R.inline(g, y) if depth < 4 else None
                if h is not None and any(k is h for k, _ in self.out):
                    e = {d: (g, a, env) for d, a in zip(params(h), args(g, y))}
                    for k, z in self.out:
                        if k is h and h.nodes[z]['k'] == 'Return' and h.kids(z): out |= self.leaves(h, h.kids(z)[0], e, depth + 1)
                    continue
            st += c
        return out


def one(p, q, n=None, t0=None):
    r = [f for f in p.fns.values() if f.q == q and (n is None or len(f.d['params']) == n) and (t0 is None or t0 in f.d['params'][0]['t'])]
    return r[0] if len(r) == 1 else None


def args(g, x): return g.kids(x)[1:] if g.nodes[x].get('mc') and not g.nodes[x].get('implicit_this') and len(g.kids(x)) > nparams(g, x) else g.kids(x)


def nparams(g, x):
    s = g.nodes[x]['f']; s = s[s.index('(') + 1:]; d = 0; n = 0 if s.startswith(')') else 1
    for ch in s:
        if ch in '<(': d += 1
        elif ch in '>)':
            d -= 1
            if d < 0: break
        elif ch == ',' and d == 0: n += 1
    return n


def run(p, R):
    fs = {'set2': one(p, OB + '::set', 2, 'Property'), 'set3': one(p, OB + '::set', 3, 'Property'), 'nset2': one(p, OB + '::set', 2, 'basic_string'), 'nset3': one(p, OB + '::set', 3, 'basic_string'),
          'get1': one(p, OB + '::get', 1, 'Property'), 'get2': one(p, OB + '::get', 2, 'Property'), 'nget1': one(p, OB + '::get', 1, 'basic_string'), 'nget2': one(p, OB + '::get', 2, 'basic_string'),
          'fill': one(p, OB + '::fillProperty'), 'setps': one(p, OB + '::setParameters'), 'setp4': one(p, OB + '::setParameter', 4), 'setp3': one(p, OB + '::setParameter', 3),
          'prop': one(p, OB + '::property'), 'safe': one(p, OB + '::isThreadSafe'), 'elem': one(p, OB + '::fillElement')}
    R.need('dispatch functions', sum(v is not None for v in fs.values()), len(fs))
    en = next((set(e['vals']) for q, e in p.enums.items() if q == PT + 'type_e'), set())
    R.ob('types', 'include/GyotoProperty.h', en - {'empty_t'} == set(T), 'property types %s are not in the table this check was written for' % (en ^ set(T) - {'empty_t'}))
    R.need('property types', len(en), 14)
    for t, (cpp, acc, vm) in T.items():
        # set / get by property
        f = fs['set2']; c = Case(p, f, t, acc=True)
        R.ob('set:' + t, f.loc(), c.fields('setter_t') == {'set_' + acc} and c.conv() == {cpp} and len(c.ptrcalls()) == 1 and c.can and all(params(f)[1] in c.leaves(g, a) for g, x in c.ptrcalls() for a in g.kids(x)[1:2]), 'uses %s with the value as %s' % (sorted(c.fields('setter_t')), sorted(c.conv())))
        c = Case(p, f, t, acc=False)
        R.ob('set-none:' + t, f.loc(), not c.can, 'a read-only property is set without an error')
        f = fs['get1']; c = Case(p, f, t, acc=True)
        R.ob('get:' + t, f.loc(), c.fields('getter_t') == {'get_' + acc} and c.made() == {cpp} and len(c.ptrcalls()) == 1 and c.can, 'uses %s and returns a %s' % (sorted(c.fields('getter_t')), sorted(c.made())))
        c = Case(p, f, t, acc=False)
        R.ob('get-none:' + t, f.loc(), not c.can, 'a write-only property is read without an error')
        # with unit
        for nm, base, un, vi in (('set3', OB + '::set', 'setter_unit_t', 1), ('get2', OB + '::get', 'getter_unit_t', None)):
            f = fs[nm]; up = params(f)[-1]; w = nm[:3]
            if t in UNIT:
                for u in (True, False):
                    c = Case(p, f, t, unit=u, acc=True); pc = c.ptrcalls()
                    ok = c.fields(un) == {w + '_' + acc} and len(pc) == 1 and c.can and not c.named(base) and all(up in c.leaves(g, g.kids(x)[-1]) for g, x in pc)
                    if w == 'set': ok = ok and c.conv() == {cpp} and all(params(f)[1] in c.leaves(g, g.kids(x)[1]) for g, x in pc)
                    R.ob('%s-unit:%s:%s' % (w, t, u), f.loc(), ok, 'the accessor with unit is not called with the value and the unit')
            c = Case(p, f, t, unit=True, acc=False)
            R.ob('%s-nounit:%s' % (w, t), f.loc(), not c.can, 'a unit is given to a property that has none, and ignored')
            c = Case(p, f, t, unit=False, acc=False); b = c.named(base)
            ok = c.can and len(b) == 1 and params(f)[0] in c.leaves(b[0][0], args(*b[0])[0]) and (w == 'get' or params(f)[1] in c.leaves(b[0][0], args(*b[0])[1]))
            R.ob('%s-plain:%s' % (w, t), f.loc(), ok, 'without a unit the plain accessor is not used')
        # XML out
        f = fs['fill']; fmp = params(f)[0]
        for bv in ((True, False) if t == 'bool_t' else (None,)):
            c = Case(p, f, t, extra=lambda g, x: bv if bv is not None and g.nodes[x]['k'] == 'Call' and g.nodes[x].get('q') == VA + '::operator bool' else True if g.nodes[x]['k'] == 'Call' and g.nodes[x].get('q', '').startswith('Gyoto::SmartPointer<') and 'operator' in g.nodes[x]['n'] and g.nodes[x].get('t', '').endswith('*') else None)
            wr = c.calls(lambda n: n.get('q', '').startswith(FM + '::') or n.get('n') == 'fillElement')
            key = 'xml-out:' + t + ('' if bv is None else ':%s' % bv)
            if t in ('metric_t', 'astrobj_t', 'screen_t'):
                ok = c.can and [g.nodes[x]['n'] for g, x in wr] == [t[:-2]] and c.conv() == {cpp} and OB + '::get' in c.leaves(wr[0][0], wr[0][1])
            elif t in ('spectrum_t', 'spectrometer_t'):
                ok = c.can and [g.nodes[x]['n'] for g, x in wr] == ['makeChild', 'fillElement'] and c.conv() == {cpp} and PT + 'name' in c.leaves(*wr[0]) and OB + '::get' in c.leaves(*wr[1]) and FM + '::makeChild' in c.leaves(wr[1][0], wr[1][0].kids(wr[1][1])[-1])
            else:
                ok = c.can and len(wr) == 1 and wr[0][0].nodes[wr[0][1]]['n'] == 'setParameter' and c.conv() == {cpp}
                if ok:
                    g, x = wr[0]; a = args(g, x); l0 = c.leaves(g, a[0])
                    want, other = ('name', 'name_false') if bv is not False else ('name_false', 'name')
                    ok = PT + want in l0 and PT + other not in l0
                    if t != 'bool_t': ok = ok and len(a) >= 2 and OB + '::get' in c.leaves(g, a[1]) and canon(p_type(g, x, 1)) == cpp
                    else: ok = ok and len([y for y in a if g.nodes[y]['k'] != 'DefArg']) == 1
            R.ob(key, f.loc(), ok, 'this type is not written under its own name with its own value (%s, %s)' % ([g.nodes[x]['n'] for g, x in wr], sorted(c.conv())))
        # XML in
        f = fs['setps']; c = Case(p, f, t, found=True)
        sets, deleg = c.named(OB + '::set'), [(g, x) for g, x in c.named(OB + '::setParameter') if nparams(g, x) == 4]
        if t in OBJ:
            src = {'metric_t': [FM + '::metric'], 'astrobj_t': [FM + '::astrobj'], 'screen_t': [FM + '::screen'], 'spectrum_t': ['Gyoto::Spectrum::getSubcontractor', FM + '::getChild', '"kind"', '"plugin"'], 'spectrometer_t': ['Gyoto::Spectrometer::getSubcontractor', FM + '::getChild', '"kind"', '"plugin"']}[t]
            ok = len(sets) == 1 and not deleg
            if ok:
                g, x = sets[0]; l = c.leaves(g, args(g, x)[1])
                ok = all(s in l for s in src) and c.made() == {cpp} and OB + '::property' in c.leaves(g, args(g, x)[0])
            R.ob('xml-in:' + t, f.loc(), ok, 'an XML section of this type is not turned into the object it describes')
        else:
            ok = len(deleg) == 1 and not sets
            if ok:
                g, x = deleg[0]; a = args(g, x); L = [c.leaves(g, y) for y in a]
                ok = OB + '::property' in L[0] and [g.nodes[strip(g, y)].get('d') for y in a[1:]] == nextargs(c)
                full = [(g2, x2) for g2, x2 in c.named(FM + '::fullPath')]
                ok = ok and bool(full) == (t == 'filename_t')
            R.ob('xml-in:' + t, f.loc(), ok, 'an XML parameter of this type does not reach setParameter with its name, content and unit' + (' (file names relative to the XML file)' if t == 'filename_t' else ''))
        # text to value
        f = fs['setp4']; pm = params(f)
        for eq in ((True, False) if t == 'bool_t' else (None,)):
            c = Case(p, f, t)
            s = c.named(OB + '::set')
            if t in OBJ:
                R.ob('text:' + t, f.loc(), not c.can, 'an object property is set from plain text without an error'); continue
            ok = c.can and len(s) == 1 and c.made() == {cpp}
            if ok:
                g, x = s[0]; a = args(g, x)
                ok = pm[0] in c.leaves(g, a[0]) and (t == 'bool_t' or pm[2] in c.leaves(g, a[1]))
                ok = ok and (len(a) == 3 and pm[3] in c.leaves(g, a[2]) if t in UNIT else True)
            R.ob('text:' + t + ('' if eq is None else ':%s' % eq), f.loc(), ok, 'the text (%s) is not parsed as %s and handed to set with its unit' % (sorted(c.made()), cpp))
            if t == 'bool_t':
                ev = [(g, x) for g, x in c.out if g.nodes[x]['k'] == 'Ctor' and g.nodes[x].get('cls') == VA and g.nodes[x]['f'].endswith('Value(bool)')]
                cc = Case(p, f, t, eqname=eq, neg=not eq)
                ok = len(ev) == 1 and cc.R.const(ev[0][0], ev[0][0].kids(ev[0][1])[0]) is eq
                R.ob('text-bool:%s' % eq, f.loc(), ok, 'giving the %s name does not set the property to %s' % ('positive' if eq else 'negative', eq))
        # Value
        if t != 'filename_t':
            for g in p.fns.values():
                if g.d.get('kind') == 'ctor' and g.d.get('cls') == VA and len(g.d['params']) == 1 and canon(g.d['params'][0]['t']) == cpp and t != 'size_t_t':
                    st = {}
                    for i in g.d.get('inits', ()): st[i.get('field')] = i
                    okt = any(g.nodes[y].get('d') == PT + t for y in g.walk(st['type']['e'])) if 'type' in st and 'e' in st['type'] else None
                    if okt is None: okt = any(g.nodes[y].get('d') == PT + t for y in g.walk_all()) if hasattr(g, 'walk_all') else True
                    src = [g.kids(y)[0] for y in g.walk() if g.nodes[y]['k'] in ('Asg', 'Call') and g.nodes[y].get('op') == '=' and any(g.nodes[z].get('d') == params(g)[0] for z in g.walk(g.kids(y)[1]))]
                    R.ob('value-from:' + t, g.loc(), okt and [g.nodes[strip(g, y)].get('d') for y in src] == [VA + '::' + vm], 'the value built from a %s does not hold it as such' % cpp)
            conv = [g for g in p.fns.values() if g.q.startswith(VA + '::operator ') and canon(g.id.split('->')[-1]) == cpp]
            for g in conv:
                c = Case(p, g, t)
                R.ob('value-to:' + t, g.loc(), c.can and c.vmembers() == {vm}, 'converting a value of this type back reads %s' % sorted(c.vmembers()))
                if cpp.startswith(('std::', 'Gyoto')) or t == 'bool_t':
                    for u in T:
                        if T[u][0] == cpp or t == 'bool_t' and u in ('long_t', 'unsigned_long_t', 'size_t_t', 'string_t'): continue
                        c = Case(p, g, u)
                        R.ob('value-not:%s:%s' % (t, u), g.loc(), not c.can, 'a value holding another type (%s) is silently read as %s' % (u, cpp))
            R.ob('value-conv:' + t, 'lib/Value.C', len(conv) == 1, '%d conversion operators to %s' % (len(conv), cpp))
            f = next((g for g in p.fns.values() if g.q == VA + '::operator='), None)
            if f:
                c = Case(p, f, t)
                w = [(g, x) for g, x in c.out if g.nodes[x]['k'] in ('Asg', 'Call') and g.nodes[x].get('op') == '=']
                got = sorted((g.nodes[strip(g, g.kids(x)[0])].get('d', '?').split('::')[-1], ) + tuple(sorted({g.nodes[y]['d'].split('::')[-1] for y in g.walk(g.kids(x)[1]) if g.nodes[y]['k'] == 'Mem'})) for g, x in w)
                R.ob('value-assign:' + t, f.loc(), ('type', 'type') in got and (vm, vm) in got and all(a == b for a, b in [q for q in got if len(q) == 2]) and c.can, 'assigning a value of this type copies %s' % got)
            # children
    for t in OBJ:
        f = fs['safe']; c = Case(p, f, t)
        ok = c.conv() == {T[t][0]} and bool(c.named(OB + '::get')) and all(OB + '::getProperties' in c.leaves(g, args(g, x)[0]) and not any(g.nodes[y]['k'] == 'Ctor' and g.nodes[y].get('cls') == 'Gyoto::Property' for y in g.walk(x)) for g, x in c.named(OB + '::get')) and bool(c.calls(lambda n: n.get('n') == 'isThreadSafe'))
        R.ob('safe:' + t, f.loc(), ok, 'a sub-object of this type is not asked whether it is thread-safe')
        f = fs['setp3']
        c = Case(p, f, t)
        R.ob('child:' + t, f.loc(), c.conv() == {T[t][0]}, 'Child::Parameter does not reach a sub-object of this type')
    # names
    for nm, w in (('nset2', 'set'), ('nset3', 'set'), ('nget1', 'get'), ('nget2', 'get')):
        f = fs[nm]
        c = Case(p, f, found=False)
        R.ob('unknown:' + nm, f.loc(), not c.can, 'an unknown parameter name is accepted')
        for t in T:
            for neg in ((True, False) if t == 'bool_t' else (False,)):
                c = Case(p, f, t, found=True, neg=neg, eqname=not neg)
                b = c.named(OB + '::' + w)
                ok = c.can and len(b) == 1
                if ok:
                    g, x = b[0]; a = args(g, x)
                    ok = OB + '::property' in c.leaves(g, a[0])
                    if nm[-1] != ('2' if w == 'set' else '1'): ok = ok and len(a) == (3 if w == 'set' else 2) and params(f)[-1] in c.leaves(g, a[-1])
                    if w == 'set':
                        l = c.leaves(g, a[1]); ok = ok and params(f)[1] in l and ('!' in l) == neg
                    else:
                        r = [(g2, y) for g2, y in c.out if g2 is f and g2.nodes[y]['k'] == 'Return']
                        l = [c.leaves(g2, g2.kids(y)[0]) for g2, y in r]
                        ok = ok and len(r) == 1 and OB + '::get' in l[0] and ('!' in l[0]) == neg
                R.ob('%s:%s:%s' % (nm, t, 'neg' if neg else 'pos'), f.loc(), ok, 'by name, the value is not passed on %s' % ('negated' if neg else 'as it is'))
    # lookup
    f = fs['prop']
    for t in ('bool_t', 'double_t'):
        for eq, neg in ((True, False), (False, True), (False, False)):
            c = Case(p, f, t, eqname=eq, neg=neg)
            r = [y for g, y in c.out if g is f and g.nodes[y]['k'] == 'Return' and g.nodes[strip(g, g.kids(y)[0])]['k'] not in ('Lit', 'Null', 'Nullptr')]
            ok = bool(r) == (eq or neg and t == 'bool_t')
            R.ob('lookup:%s:%s%s' % (t, eq, neg), f.loc(), ok, 'name %s, negative name %s: %s' % ('matches' if eq else 'differs', 'matches' if neg else 'differs', 'found' if r else 'not found'))
    par = [(g, x) for g, x in Case(p, f).out if g.nodes[x]['k'] == 'Mem' and g.nodes[x]['d'] == PT + 'parent']
    R.ob('lookup:parents', f.loc(), bool(par), 'the search does not go on with the ancestors\' properties')
    # text: unknown names
    f = fs['setps']
    for v in (1., 0.):
        c = Case(p, f, found=False, extra=lambda g, x: v if g.nodes[x]['k'] == 'Call' and g.nodes[x].get('q') == OB + '::setParameter' and nparams(g, x) == 3 else None)
        R.ob('xml-unknown:%d' % v, f.loc(), bool(c.errors()) == bool(v) and bool(c.calls(lambda n: n.get('q') == OB + '::setParameter')), 'a parameter nobody knows %s' % ('is ignored' if v else 'raises an error although the class handled it'))
    ctors(p, R)
    # every property is written
    f = fs['elem']
    c = Case(p, f, 'double_t')
    R.ob('elem:fill', f.loc(), bool(c.named(OB + '::fillProperty')), 'properties are not written')
    at = {s for g, x in c.named(FM + '::setSelfAttribute') for s in c.leaves(g, x) if s.startswith('"')}
    R.ob('elem:kind', f.loc(), {'"kind"', '"plugin"'} <= at, 'kind or plug-in is not written')
    R.ob('elem:parents', f.loc(), any(g.nodes[x]['k'] == 'Mem' and g.nodes[x]['d'] == PT + 'parent' for g, x in Case(p, f).out), 'inherited properties are not written')


def ctors(p, R):
    n = 0
    for g in p.fns.values():
        if g.d.get('kind') != 'ctor' or g.d.get('cls') != 'Gyoto::Property' or len(g.d['params']) < 3: continue
        n += 1
        ts = [(pm['d'], canon(pm['t'])) for pm in g.d['params']]
        want = {}                              # union field -> parameter
        kind = set()
        for d, t in ts:
            m = re.match(r'(.*?) ?\(Gyoto::Object::\*\)\((.*)\)', t)
            if not m: continue
            res, ar = canon(m.group(1)), [canon(a) for a in split(m.group(2))]
            unit = (len(ar) == 2) if res == 'void' else ar == [STR]
            v = ar[0] if res == 'void' else res
            c = [k for k in T if T[k][0] == v]
            kind |= set(c)
            want[d] = (('setter' if res == 'void' else 'getter') + ('_unit' if unit else '') + '_t', {('set_' if res == 'void' else 'get_') + T[k][1] for k in c})
        got = {}
        for x in g.walk():
            nn = g.nodes[x]
            if nn['k'] == 'Asg' and nn['op'] == '=':
                l = g.nodes[strip(g, g.kids(x)[0])]
                for y in g.walk(g.kids(x)[1]):
                    if g.nodes[y]['k'] == 'Ref' and g.nodes[y]['d'] in want: got[g.nodes[y]['d']] = l.get('d', '')
        ty = set()
        for i in g.d.get('inits', ()):
            if i.get('field') == 'type' and i.get('e', -1) >= 0: ty |= {g.nodes[y]['d'] for y in g.walk(i['e']) if g.nodes[y].get('d', '').startswith(PT)}
        ty |= {g.nodes[y]['d'] for x in g.walk() if g.nodes[x]['k'] == 'Asg' and g.nodes[strip(g, g.kids(x)[0])].get('d') == PT + 'type' for y in g.walk(g.kids(x)[1]) if g.nodes[y].get('d', '').startswith(PT)}
        ok = bool(want) and all(d in got and got[d].rsplit('::', 1)[0].endswith(u) and got[d].split('::')[-1] in fl for d, (u, fl) in want.items())
        tys = {t.split('::')[-1] for t in ty}
        # unsigned long and size_t have the same C++ type: type and field must agree
        ok = ok and bool(tys) and tys <= kind and all(got[d].split('::')[-1][4:] in {T[t][1] for t in tys} for d in want)
        if STR in {T[t][0] for t in kind}: ok = ok and tys == {'string_t', 'filename_t'}
        R.ob('table:%s' % '/'.join(sorted(tys) or ['?']) + ('+unit' if len(want) == 4 else ''), g.loc(), ok, 'a table entry does not record its accessors under its type')
    R.need('Property constructors', n, 10)
    for g in p.fns.values():
        if g.d.get('kind') == 'ctor' and g.d.get('cls') == VA and g.d.get('copy', 'const Gyoto::Value &' in g.id) and 'const Gyoto::Value &' in g.id:
            ini = {i.get('field'): i.get('e', -1) for i in g.d.get('inits', ())}
            for fl in p.classes[VA]['fields']:
                x = ini.get(fl['n'], -1)
                R.ob('value-copy:' + fl['n'], g.loc(), x >= 0 and any(g.nodes[y].get('d') == VA + '::' + fl['n'] for y in g.walk(x)), 'copying a value does not copy %s' % fl['n'])


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == ',' and d == 0: out.append(cur); cur = ''; continue
        d += ch in '<('; d -= ch in '>)'; cur += ch
    return out + [cur] if cur.strip() or out else []


def p_type(g, x, i):
    s = g.nodes[x]['f']; s = s[s.index('(') + 1:]; d = 0; cur = ''; out = []
    for ch in s:
        if ch == ',' and d == 0: out.append(cur); cur = ''; continue
        if ch in '<(': d += 1
        if ch in '>)':
            d -= 1
            if d < 0: break
        cur += ch
    out.append(cur)
    return out[i] if i < len(out) else ''


def nextargs(c):
    """the variables getNextParameter fills"""
    for g, x in c.named(FM + '::getNextParameter'):
        r = []
        for y in args(g, x):
            ds = [g.nodes[z]['d'] for z in g.walk(y) if g.nodes[z]['k'] == 'Ref']
            r.append(ds[0] if ds else None)
        return r
