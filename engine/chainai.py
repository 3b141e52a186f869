"""Value-provenance domain on top of DepAI.

A scalar value is abstracted by a *term*: a monomial  prod atom^exponent  whose
atoms are the value given by the caller, numeric constants, members of the
object, results of side-effect-free calls, unit conversions  cv(from,to)(term)
or invertible functions of a term; anything else is unknown.  Joins keep a term
only if both sides agree.  Strings, enumerators and flags are propagated as
constants.  A function is analysed once per *scenario*: a choice of the constant
an argument holds among the constants the code compares it with (plus one value
different from all of them), of the physical kind a unit converts to, and of
members the code branches on.  Nothing is executed and no constraint is solved."""
from depai import *
from model import strip

UNIT_ALIAS = {'meter': 'm', 'second': 's', 'kilogram': 'kg', 'metre': 'm', 'radian': 'rad'}
INVERSE = {'log10': 'pow10', 'pow10': 'log10', 'acos': 'cos', 'cos': 'acos', 'asin': 'sin', 'sin': 'asin', 'log': 'exp', 'exp': 'log', 'not': 'not'}


def mono(d, k=1.0):
    """canonical monomial from dict atom->exp and numeric factor"""
    it = tuple(sorted(((a, e) for a, e in d.items() if abs(e) > 1e-12), key=repr))
    k = float('%.13g' % k)
    return ('m', 1.0 if abs(k - 1) < 1e-9 else k, it)


def term(v):
    """term of a Val or None"""
    i = v.ident
    if i is not None:
        if i[0] == 'm': return i
        return mono({i: 1})
    if v.kind == 'const' and isinstance(v.v, (int, float)) and not isinstance(v.v, bool): return mono({}, float(v.v))
    return None


def mul(a, b, s=1):
    if a is None or b is None: return None
    d = dict(a[2])
    for x, e in b[2]: d[x] = d.get(x, 0) + s * e
    if s < 0 and b[1] == 0: return None
    return mono(d, a[1] * b[1] if s > 0 else a[1] / b[1])


def power(a, e):
    if a is None or a[1] < 0 and e != int(e): return None
    if a[1] == 0 and e < 0: return None
    return mono({x: y * e for x, y in a[2]}, a[1] ** e)


def simple(t):
    """('m',1,((atom,1),)) -> atom, else the term itself"""
    if t is not None and t[0] == 'm' and t[1] == 1.0 and len(t[2]) == 1 and t[2][0][1] == 1: return t[2][0][0]
    return t


def conv(a, b, t):
    """unit conversion of term t from a to b"""
    if t is None: return None
    if a == b: return t
    s = simple(t)
    if s[0] == 'cv':
        if s[2] == a:
            if s[1] == b: return s[3]
            return mono({('cv', s[1], b, s[3]): 1})
    return mono({('cv', a, b, t): 1})


def fn1(name, t):
    if t is None: return None
    s = simple(t)
    if s[0] == 'fn' and INVERSE.get(name) == s[1]: return s[2]
    return mono({('fn', name, t): 1})


class Dead(Exception):
    """the callee never returns in this scenario"""


class ChainAI(DepAI):
    MAXDEPTH = 9
    def callee_dead(self, t): raise Dead()

    def __init__(self, p, dyn, scen=None):
        DepAI.__init__(self, p); self.dyn = dyn; self.budget = 300000
        self.scen = scen or {}      # ('S',member)/('unitconv',) -> constant
        self.subs = {'S'}; self.subcls = {}; self.poly = set()
        self.splits = {}            # undecided branch atom -> set of constants compared with
        self.lits = {}              # parameter token -> string literals compared with

    def tracked_objs(self): return self.subs
    def dyn_of(self, fr, obj):
        if obj in self.subcls: return self.subcls[obj]
        if obj == 'S': return self.dyn
        if isinstance(obj, tuple) and obj[0] == 'U': return 'Gyoto::Units::Unit'
        return fr.dyn

    # ---------------------------------------------------------- constants
    def source(self, loc):
        tok = (loc[1], loc[2])
        if tok in self.scen:
            v = self.scen[tok]
            return Val(frozenset([tok]), None, None, frozenset([loc]), None, 'const', v)
        return DepAI.source(self, loc)

    def read(self, loc, st):
        return DepAI.read(self, loc, st)

    def ukey(self, v):
        """unit designated by a value: literal text or symbolic token"""
        if v is None: return None
        if isinstance(v.obj, tuple) and v.obj[0] == 'U': return v.obj[1]
        if v.kind == 'const' and isinstance(v.v, str): return UNIT_ALIAS.get(v.v, v.v)
        if v.ident is not None: return simple(term(v))
        return None

    def truth(self, v):
        if v.kind == 'const' and isinstance(v.v, (bool, int, float)): return bool(v.v)
        return None

    def const_cond(self, fr, i, v, st=None):
        t = self.truth(v)
        if t is not None: return t
        x = strip(fr.fn, i)
        n = fr.fn.nodes[x]
        # metric / sub-object present
        ty = n.get('t', '')
        if v.ident is not None and v.ident[0] != 'm':
            sm = v.alias or 'SmartPointer' in ty or ty.endswith('*')
            if sm: return True
            if v.ident in self.scen: return bool(self.scen[v.ident])
            self.splits.setdefault(v.ident, set()).update([True, False])
        return None

    def cmp(self, fr, i, op, a, b):
        """decide a comparison between abstract values, else None"""
        a0, b0 = a, b
        if a.ident is not None and a.ident in self.scen: a = Val(kind='const', v=self.scen[a.ident])
        if b.ident is not None and b.ident in self.scen: b = Val(kind='const', v=self.scen[b.ident])
        for x, y in ((a, b), (b, a)):
            if x.kind == 'const' and y.kind == 'const' and x.v is not None and y.v is not None:
                r = x.v == y.v
                if isinstance(x.v, str) != isinstance(y.v, str) and ('other',) not in (x.v, y.v): return None
                if op == '==': return r
                if op == '!=': return not r
                if isinstance(x.v, (int, float)) and isinstance(y.v, (int, float)) and x is a:
                    return {'<': a.v < b.v, '>': a.v > b.v, '<=': a.v <= b.v, '>=': a.v >= b.v}.get(op)
                return None
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if y.kind == 'const' and y.v is not None and x.ident is not None:
                    atom = simple(term(x))
                    if atom in self.scen:
                        r = self.scen[atom] == y.v
                        return r if op == '==' else not r
                    if atom[0] in ('val', 'unit') and isinstance(y.v, str):
                        self.lits.setdefault(atom, set()).add(y.v)
                        if atom in self.assume_other: return op == '!='
                    elif isinstance(y.v, (str, tuple)) or atom[0] == 'q' and isinstance(y.v, int):
                        self.splits.setdefault(atom, set()).add(y.v)
        return None
    assume_other = frozenset([('unit', 0)])

    def bval(self, b, *vs):
        u = self.union(vs)
        return Val(u.deps, u.must, None, EMPTY, None, 'const', bool(b))

    # ---------------------------------------------------------- sub-objects, cells
    def sub_class(self, t):
        t = t.replace('const ', '')
        if t.startswith('Gyoto::SmartPointer<'):
            t = t[len('Gyoto::SmartPointer<'):-1]
        return t if t in self.p.classes else None

    def lval(self, fr, i, st):
        fn = fr.fn; n = fn.nodes[i]; k = n['k']; c = fn.kids(i)
        if k == 'Sub' or (k == 'Call' and n.get('op') == '[]' and n.get('mc')):
            b = self.ev(fr, c[1], st)
            if b.kind == 'const' and isinstance(b.v, int):
                base = self.base_locs(fr, c[0], st)
                return [('E', l, b.v) for l in base]
        return DepAI.lval(self, fr, i, st)

    def pointee(self, t):
        t = t.replace('const ', '').rstrip(' *&')
        return t if t in self.p.classes else None

    def may_inline(self, fr, i, t):
        # receiver of unknown dynamic type: only if the callee cannot be overridden differently
        n = fr.fn.nodes[i]
        if n.get('virt') and not n.get('qual') and n.get('mc'):
            r = self.ev(fr, fr.fn.kids(i)[0], self.cur)
            if r.obj in self.poly:
                cls = self.subcls[r.obj]
                ts = {getattr(self.p.resolve(d, n['f']), 'id', None) for d in [cls] + list(self.p.derived[cls]) if not self.p.classes[d].get('abstract')}
                return len(ts - {None}) <= 1
        return True

    def base_locs(self, fr, i, st):
        """array locations an array/vector/pointer expression designates"""
        fn = fr.fn; x = strip(fn, i); n = fn.nodes[x]
        t = n.get('t', '')
        v = self.ev(fr, x, st)
        if t.endswith(']') or 'vector<' in t:
            return self.lval(fr, x, st)
        out = [l for l in v.refs if l[0] in ('F', 'L')]
        if n['k'] == 'Ref' and not out: out = self.lval(fr, x, st)
        return out if len(out) == 1 else out[:1] if len(set(out)) == 1 else []

    def cell_read(self, l, st):
        v = st.get(l)
        if v is not None: return v
        b = st.get(('B', l[1]))
        if b is None: b = self.read(l[1], st)
        idt = simple(term(b)) if b.ident is not None else None
        if b.kind in ('const', 'uninit', 'new') and b.ident is None: return Val(b.deps, b.must)
        return Val(b.deps, b.must, ('el', idt, l[2]) if idt is not None else None)

    def read(self, loc, st):
        if loc[0] == 'E': return self.cell_read(loc, st)
        return DepAI.read(self, loc, st)

    def assign(self, fr, loc, v, st, node, strong=True):
        if isinstance(loc, tuple) and loc[0] == 'E':
            if ('B', loc[1]) not in st: st[('B', loc[1])] = self.read(loc[1], st)
            if strong: st[loc] = Val(v.deps, v.must, v.ident, EMPTY, None, v.kind, v.v)
            else:
                o = self.cell_read(loc, st); st[loc] = Val(o.deps | v.deps, o.must & v.must)
            b = loc[1]; v = Val(v.deps, v.must, v.ident, EMPTY, None, v.kind, v.v)
            if b[0] == 'F': DepAI.assign(self, fr, b, v, st, node, False)
            else:
                o = st.get(b) or Val(); st[b] = Val(o.deps | v.deps, o.must | v.must, None, o.refs, o.obj, o.kind)
            return
        # a new array value: earlier cells are gone, cells of the assigned value follow
        if not isinstance(loc, frozenset):
            for k in [k for k in st if k[0] in 'EB' and k[1] == loc]: del st[k]
        DepAI.assign(self, fr, loc, v, st, node, strong)

    def default(self, loc):
        if loc[0] in 'EB': return Val()
        return DepAI.default(self, loc)

    def join(self, a, b, cond=EMPTY):
        if a is None: return b
        if b is None: return a
        for x, y in ((a, b), (b, a)):
            for k in [k for k in x if k[0] == 'E' and k not in y]:
                y[k] = self.cell_read(k, y)
        for x, y in ((a, b), (b, a)):
            for k in [k for k in x if k[0] == 'B' and k not in y]:
                y[k] = self.read(k[1], y)
        return DepAI.join(self, a, b, cond)

    def move_cells(self, st, src, dst):
        """copy of a whole array/vector: element cells follow"""
        for k in [k for k in st if k[0] == 'E' and k[1] == src]:
            st[('E', dst, k[2])] = st[k]

    def src_of(self, fr, i, st):
        """array location a whole-array expression copies from"""
        fn = fr.fn; x = strip(fn, i); n = fn.nodes[x]
        while n['k'] == 'Ctor' and len(fn.kids(x)) >= 1 and ('vector' in n.get('cls', '')): x = strip(fn, fn.kids(x)[0]); n = fn.nodes[x]
        if n['k'] in ('Ref', 'Mem'):
            l = self.lval(fr, x, st)
            if len(l) == 1:
                # a pointer variable designates another array
                t = n.get('t', '')
                if t.endswith('*') or t.endswith('*const'):
                    r = [y for y in self.ev(fr, x, st).refs if y[0] in ('F', 'L')]
                    if len(r) == 1: return r[0]
                return l[0]
        if n['k'] == 'Call':
            return ('R', n.get('f'))
        return None

    def store(self, fr, i, v, st, node):
        fn = fr.fn; n = fn.nodes[i]
        if n['k'] == 'Sub' or (n['k'] == 'Call' and n.get('op') == '[]' and n.get('mc')):
            ls = self.lval(fr, i, st)
            if len(ls) == 1 and ls[0][0] == 'E':
                self.assign(fr, ls[0], v, st, node); return
        m = fn.nodes[node]
        if n['k'] == 'Mem':
            ls = self.lval(fr, i, st)
            if ls and all(l[0] == 'F' and isinstance(l[1], tuple) and l[1] in self.subs for l in ls):
                for l in ls: self.assign(fr, l, v, st, node, len(ls) == 1)
                return
        src = None
        if n['k'] in ('Ref', 'Mem') and m['k'] in ('Asg', 'Call') and m.get('op') == '=' and len(fn.kids(node)) == 2:
            src = self.src_of(fr, fn.kids(node)[1], st)
        DepAI.store(self, fr, i, v, st, node)
        if src is not None:
            for d in self.lval(fr, i, st):
                if d != src: self.move_cells(st, src, d)

    # ---------------------------------------------------------- expressions
    def ev0(self, fr, i, st):
        if i is None or i < 0: return Val()
        fn = fr.fn; n = fn.nodes[i]; k = n['k']; c = fn.kids(i)
        if k == 'Sub' or (k == 'Call' and n.get('op') == '[]' and n.get('mc')):
            ls = self.lval(fr, i, st)
            if len(ls) == 1 and ls[0][0] == 'E':
                v = self.cell_read(ls[0], st)
                return v
        if k == 'Mem' and n.get('dk') != 'func' and 'SmartPointer' not in n.get('t', '') and n.get('t', '').replace('const ', '') in self.p.classes:
            os_ = self.objs(fr, c[0], st)
            if len(os_) == 1: 
                self.subs.add(('sub', os_[0], n['d'])); self.subcls[('sub', os_[0], n['d'])] = n['t'].replace('const ', '')
                return Val(obj=('sub', os_[0], n['d']))
        if k == 'Un' and n['op'] == '*' or k == 'Call' and n.get('mc') and len(c) == 1 and 'SmartPointer<' in n.get('cls', '') and n.get('op') in ('->', '*'):
            v = self.ev(fr, c[0], st)
            if v.obj is None and v.ident is not None and (v.ident[0] == 'S' or v.ident[0] in self.subs):
                cls = self.pointee(n.get('t', ''))
                if cls:
                    o = ('sub', v.ident[0], v.ident[1])
                    self.subs.add(o); self.subcls[o] = cls; self.poly.add(o)
                    return Val(v.deps, v.must, None, v.refs, o)
        if k == 'Un' and n['op'] in ('++', '--'):
            ov = self.ev(fr, c[0], st)
            if ov.kind == 'const' and isinstance(ov.v, int) and not isinstance(ov.v, bool):
                nv = Val(ov.deps, ov.must, None, EMPTY, None, 'const', ov.v + (1 if n['op'] == '++' else -1))
                self.store(fr, c[0], nv, st, i)
                return ov if n.get('post') else nv
        if k == 'Ref' and n['dk'] == 'enum': return Val(kind='const', v=('enum', n['d']))
        if k == 'Lit' and n.get('t') == 'bool': return Val(kind='const', v=str(n.get('v')).lower() in ('1', 'true'))
        if k == 'Lit' and isinstance(n.get('v'), str):
            try: return Val(kind='const', v=float(n['v']) if n.get('t') in ('double', 'float') else int(float(n['v'])))
            except ValueError: pass
        if k == 'Bin':
            op = n['op']
            if op in ('&&', '||'):
                a = self.ev(fr, c[0], st); ta = self.const_cond(fr, c[0], a, st)
                if ta is not None and ta == (op == '||'): return self.bval(ta, a)
                b = self.ev(fr, c[1], st); tb = self.const_cond(fr, c[1], b, st)
                if ta is not None and tb is not None: return self.bval(ta and tb if op == '&&' else ta or tb, a, b)
                if tb is not None and tb == (op == '||'): return self.bval(tb, a, b)
                if ta is not None: return b
                return Val(a.deps | b.deps, a.must, None)
            if op in ('*', '/'):
                a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
                if op == '*' or 'int' not in (n.get('t') or '') and 'long' not in (n.get('t') or ''):
                    return self.val(a, b, mul(term(a), term(b), 1 if op == '*' else -1))
            if op in ('==', '!=', '<', '>', '<=', '>='):
                a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
                r = self.cmp(fr, i, op, a, b)
                if r is not None: return self.bval(r, a, b)
                return Val(a.deps | b.deps, a.must | b.must)
            if op in ('+', '-'):
                a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
                for x, y in ((a, b), (b, a)):
                    ty = term(y)
                    if ty is not None and ty[1] == 0 and (op == '+' or y is b): return Val(x.deps, x.must, x.ident, x.refs, x.obj, x.kind, x.v, x.alias)
                ta, tb = term(a), term(b)
                if ta is not None and tb is not None:
                    if not ta[2] and not tb[2]: return self.val(a, b, mono({}, ta[1] + tb[1] if op == '+' else ta[1] - tb[1]))
                    # shift by a known amount: keep as an invertible step
                    if tb is not None and not isinstance(term(a), type(None)):
                        s = simple(ta)
                        if s[0] == 'sh' and s[2] == tb and s[1] != op: r = s[3]
                        else: r = mono({('sh', op, tb, ta): 1})
                        z = Val(a.deps | b.deps, a.must | b.must, simple(r), a.refs | b.refs, None, None, None, a.alias | b.alias)
                        return z
                v = DepAI.ev0(self, fr, i, st)
                return v
        if k == 'Un' and n['op'] == '!':
            a = self.ev(fr, c[0], st); t = self.const_cond(fr, c[0], a, st)
            if t is not None: return self.bval(not t, a)
            r = fn1('not', term(a)) if a.ident is not None and n.get('t') == 'bool' else None
            return Val(a.deps, a.must, simple(r) if r else None)
        if k == 'Un' and n['op'] == '-':
            a = self.ev(fr, c[0], st)
            return self.val(a, Val(), mul(mono({}, -1.), term(a)))
        if k == 'Cond':
            g = self.ev(fr, c[0], st); t = self.const_cond(fr, c[0], g, st)
            if t is not None: return self.ev(fr, c[1] if t else c[2], st)
            a = self.ev(fr, c[1], st); b = self.ev(fr, c[2], st)
            if self.truth(a) is True and self.truth(b) is False and g.ident is not None: return g
            return join(a, b, g.deps)
        if k == 'Asg' and n['op'] in ('*=', '/='):
            a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
            v = self.val(a, b, mul(term(a), term(b), 1 if n['op'] == '*=' else -1))
            self.store(fr, c[0], v, st, i)
            return v
        if k == 'Cast':
            v = self.ev(fr, c[0], st)
            t = n.get('t', '')
            if v.ident is not None and t in ('int', 'long', 'unsigned int', 'unsigned long', 'float', 'char', 'short') and fn.nodes[c[0]].get('t') in ('double', 'float'):
                return Val(v.deps, v.must, None, v.refs, None, None)   # truncation
            return v
        if k == 'Ref' and n['dk'] == 'global':
            u = self.unit_globals().get(n['d'])
            if u is not None: return Val(obj=('U', u))
            return Val(frozenset([('global', n['d'])]), None, None, EMPTY, None, 'const', ('global', n['d'])) if self.const_global(n['d']) else DepAI.ev0(self, fr, i, st)
        return DepAI.ev0(self, fr, i, st)

    def const_global(self, d):
        v = self.p.vars.get(d)
        return v is not None and 'const' in v.get('t', '')

    def val(self, a, b, t):
        ident = None; kind = None; v = None
        if t is not None:
            s = simple(t)
            if not t[2]: kind = 'const'; v = t[1]
            else: ident = s
        return Val(a.deps | b.deps, a.must | b.must, ident, EMPTY, None, kind, v)

    def unit_globals(self):
        g = getattr(self.p, '_unit_globals', None)
        if g is None:
            g = {}; seen = {}
            for f in self.p.fns.values():
                for x in f.walk():
                    n = f.nodes[x]
                    if n['k'] in ('Asg', 'Call') and n.get('op') == '=' and len(f.kids(x)) == 2:
                        l = strip(f, n['c'][0])
                        if f.nodes[l]['k'] == 'Ref' and f.nodes[l].get('dk') == 'global':
                            r = strip(f, n['c'][1])
                            while f.nodes[r]['k'] == 'Ctor' and len(f.kids(r)) == 1: r = strip(f, f.kids(r)[0])
                            if f.nodes[r]['k'] == 'New' and f.nodes[r].get('at') == 'Gyoto::Units::Unit':
                                s = [f.nodes[y]['s'] for y in f.walk(r) if f.nodes[y]['k'] == 'Str']
                                if len(s) == 1:
                                    d = f.nodes[l]['d']
                                    if d in g and g[d] != s[0]: g[d] = None
                                    else: g[d] = UNIT_ALIAS.get(s[0], s[0])
            self.p._unit_globals = g
        return g

    def ctor(self, fr, i, st):
        fn = fr.fn; n = fn.nodes[i]; c = fn.kids(i)
        cls = n.get('cls', '')
        if cls == 'Gyoto::Units::Unit' and len(c) == 1 and not n.get('copy'):
            v = self.ev(fr, c[0], st); k = self.ukey(v)
            if k is not None: return Val(v.deps, v.must, obj=('U', k))
        if cls == 'Gyoto::Units::Converter' and len(c) == 2:
            a, b = self.ev(fr, c[0], st), self.ev(fr, c[1], st)
            ka, kb = self.ukey(a), self.ukey(b)
            if ka is not None and kb is not None: return Val(a.deps | b.deps, None, ('conv', ka, kb))
        v = DepAI.ctor(self, fr, i, st)
        if 'SmartPointer<' in cls and len(c) == 1 and v.kind == 'const': return Val(kind='const', v=0)
        if 'basic_string' in cls and len(c) >= 1 and v.ident is None:
            a = self.ev(fr, c[0], st)
            if a.ident is not None: return Val(v.deps, v.must, a.ident, EMPTY, None, a.kind, a.v)
            if a.kind == 'const': return Val(v.deps, v.must, None, EMPTY, None, 'const', a.v)
        if not c and 'basic_string' in cls: return Val(kind='const', v='')
        return v

    PURE = {'log10', 'exp', 'log', 'cos', 'sin', 'acos', 'asin'}

    def call(self, fr, i, st):
        fn = fr.fn; n = fn.nodes[i]; c = fn.kids(i); op = n.get('op'); q = n.get('q', '') or ''; nm = n.get('n')
        if op in ('==', '!=') and len(c) == 2:
            a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
            r = self.cmp(fr, i, op, a, b)
            if r is not None: return self.bval(r, a, b)
            return Val(a.deps | b.deps, a.must | b.must)
        if n.get('mc') and nm in ('empty',) and len(c) == 1:
            a = self.ev(fr, c[0], st)
            r = self.cmp(fr, i, '==', a, Val(kind='const', v=''))
            if r is not None: return self.bval(r, a)
        if n.get('mc') and nm == 'compare' and len(c) == 2:
            a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
            r = self.cmp(fr, i, '!=', a, b)
            if r is not None: return self.bval(r, a, b)
        if n.get('mc') and len(c) == 1 and (nm or '').startswith('operator '):
            r = self.ev(fr, c[0], st)
            if isinstance(r.obj, tuple) and r.obj[0] == 'U':
                if 'basic_string' in n.get('t', ''):
                    k = r.obj[1]
                    return Val(r.deps, r.must, None, EMPTY, None, 'const', k) if isinstance(k, str) else Val(r.deps | {k}, None, k)
                return r
        if q.endswith('Units::areConvertible') and len(c) == 2:
            a, b = [self.ukey(self.ev(fr, x, st)) for x in c]
            for x, y in ((a, b), (b, a)):
                if x == ('unit', 0):
                    self.splits.setdefault(('unitconv',), set()).add(y)
                    if ('unitconv',) in self.scen: return Val(kind='const', v=self.scen[('unitconv',)] == y)
                    return Val()
            if isinstance(a, str) and isinstance(b, str): return Val(kind='const', v=a == b)
        if op == '()' and n.get('cls') == 'Gyoto::Units::Converter' or (op == '()' and len(c) == 2):
            cv = self.ev(fr, c[0], st)
            if cv.ident is not None and cv.ident[0] == 'conv':
                a = self.ev(fr, c[1], st)
                return self.val(a, cv, conv(cv.ident[1], cv.ident[2], term(a)))
        if not n.get('mc') and len(c) == 1 and nm in self.PURE:
            a = self.ev(fr, c[0], st)
            t = fn1(nm, term(a))
            return self.val(a, Val(), t) if t is not None and term(a)[2] else Val(a.deps, a.must)
        if not n.get('mc') and nm == 'sqrt' and len(c) == 1:
            a = self.ev(fr, c[0], st); return self.val(a, Val(), power(term(a), .5))
        if not n.get('mc') and nm == 'pow' and len(c) == 2:
            a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st); ta, tb = term(a), term(b)
            if ta is not None and not ta[2] and ta[1] == 10.: return self.val(b, Val(), fn1('pow10', tb))
            if tb is not None and not tb[2]: return self.val(a, Val(), power(ta, tb[1]))
            return Val(a.deps | b.deps, a.must | b.must)
        if not n.get('mc') and op in ('+',) and len(c) == 2:
            a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
            if a.kind == b.kind == 'const' and isinstance(a.v, str) and isinstance(b.v, str): return Val(a.deps | b.deps, None, None, EMPTY, None, 'const', a.v + b.v)
        self.cur = st
        v = DepAI.call(self, fr, i, st)
        # result of an opaque const query on a sub-object: a stable factor
        if v.ident is None and v.obj is None and v.kind is None and n.get('mc') and not op and len(c) == 1 and n.get('cst', n.get('f', '').endswith('const')):
            r = self.ev(fr, c[0], st)
            if r.ident is not None and r.obj is None and r.ident[0] in ('S', 'val', 'q', 'param'):
                return Val(v.deps, v.must, ('q', r.ident, nm), v.refs, None, None, None, v.alias)
        return v

    def ex(self, fr, i, st):
        if i is None or i < 0 or st is None: return st
        d = len(fr.guard), len(fr.brk), len(fr.cont)
        try: return self.ex1(fr, i, st)
        except Dead:
            del fr.guard[d[0]:], fr.brk[d[1]:], fr.cont[d[2]:]
            return None

    def ex1(self, fr, i, st):
        fn = fr.fn; n = fn.nodes[i]
        if n['k'] == 'Var':
            st = DepAI.ex(self, fr, i, st)
            c = fn.kids(i)
            if c and st is not None:
                src = self.src_of(fr, c[0], st); dst = ('L', fr.fid, n['d'])
                x = strip(fn, c[0])
                if fn.nodes[x]['k'] == 'IList':
                    for j, y in enumerate(fn.kids(x)):
                        v = self.ev(fr, y, st); st[('E', dst, j)] = Val(v.deps, v.must, v.ident, EMPTY, None, v.kind, v.v)
                elif src is not None and src != dst and not n['t'].endswith('*') and '&' not in n['t']: self.move_cells(st, src, dst)
            return st
        if n['k'] == 'Return' and fn.kids(i) and 'vector' in fn.d['ret']:
            src = self.src_of(fr, fn.kids(i)[0], st)
            nr = len(fr.rets)
            out = DepAI.ex(self, fr, i, st)
            if len(fr.rets) > nr:
                s = fr.rets[-1][0]
                if src != ('R', fn.id):
                    for k in [k for k in s if k[0] == 'E' and k[1] == ('R', fn.id)]: del s[k]
                    if src is not None: self.move_cells(s, src, ('R', fn.id))
            return out
        if n['k'] == 'For':
            st = self.ex(fr, n['init'], st)
            s = st.copy(); ok = False
            for _ in range(33):
                if n['cond'] < 0: break
                cv = self.ev(fr, n['cond'], s); t = self.truth(cv)
                if t is None: break
                if t is False: ok = True; break
                fr.brk.append([]); fr.cont.append([])
                b = self.ex(fr, n['body'], s)
                cs = fr.cont.pop(); bs = fr.brk.pop()
                if bs or b is None and not cs: break
                for cc in cs: b = self.join(b, cc)
                s = b
                if n['inc'] >= 0: self.ev(fr, n['inc'], s)
            if ok: return s
            # loop-carried scalars are not constants
            for y in fn.walk(i):
                m = fn.nodes[y]
                tgt = m['c'][0] if m['k'] in ('Asg',) or m['k'] == 'Un' and m['op'] in ('++', '--') else None
                if tgt is None: continue
                tn = fn.nodes[strip(fn, tgt)]
                if tn['k'] == 'Ref' and tn.get('dk') in ('local', 'param'):
                    l = ('L', fr.fid, tn['d']); o = st.get(l)
                    if o is not None and o.kind == 'const': st[l] = Val(o.deps, o.must)
            return DepAI.ex(self, fr, i, st)
        if n['k'] == 'Switch':
            cv = self.ev(fr, n['cond'], st)
            if not (cv.kind == 'const' and cv.v is not None) and cv.ident is not None:
                at = simple(term(cv))
                if at in self.scen: cv = Val(cv.deps, cv.must, None, EMPTY, None, 'const', self.scen[at])
                else:
                    for y in fn.walk(n['body']):
                        if fn.nodes[y]['k'] == 'Case':
                            l = self.ev(fr, fn.kids(y)[0], st)
                            if l.kind == 'const': self.splits.setdefault(at, set()).add(l.v)
            if cv.kind == 'const' and cv.v is not None:
                body = n['body']; active = False; hit = False
                ks = fn.kids(body) if fn.nodes[body]['k'] == 'Block' else [body]
                for want_default in (False, True):
                    if hit: break
                    fr.brk.append([]); s = st.copy(); active = False
                    for c in ks:
                        while fn.nodes[c]['k'] in ('Case', 'Default'):
                            if fn.nodes[c]['k'] == 'Default':
                                if want_default: active = hit = True
                            elif not want_default:
                                l = self.ev(fr, fn.kids(c)[0], st)
                                if l.kind == 'const' and l.v == cv.v: active = hit = True
                            c = fn.kids(c)[-1]
                        if active and s is not None: s = self.ex(fr, c, s)
                    bs = fr.brk.pop()
                    if hit:
                        for b in bs: s = self.join(s, b)
                        return s
                return st
        return DepAI.ex(self, fr, i, st)


def run_pair(p, dyn, s, g, unit, lit, scen):
    """abstract setter then getter; returns (ai, state, Val|None, 'noset'|'noget'|None)"""
    sc = dict(scen); ulit = sc.pop('unit', None)
    ai = ChainAI(p, dyn, sc)
    if lit is None: v = Val(frozenset([('val', 0)]), None, ('val', 0))
    else: v = Val(frozenset([('val', 0)]), None, None, EMPTY, None, 'const', lit[0])
    if ('val', 0) in sc: ai.assume_other = ai.assume_other | {('val', 0)}
    if ulit is None: u = Val(frozenset([('unit', 0)]), None, ('unit', 0))
    else: u = Val(frozenset([('unit', 0)]), None, None, EMPTY, None, 'const', ulit)
    s2, _ = ai.run(s, 'S', [v, u] if unit else [v], State(), dyn)
    if s2 is None: return ai, None, None, 'noset'
    sset = s2.copy()
    s3, r = ai.run(g, 'S', [u] if unit else [], s2.copy(), dyn)
    if s3 is None: return ai, sset, None, 'noget'
    cells = {k[2]: x for k, x in s3.items() if k[0] == 'E' and k[1] == ('R', g.id)}
    return ai, sset, (r, cells), None


def ok_result(r, cells, lit):
    if r.ident == ('val', 0): return True
    if lit is not None and r.kind == 'const' and r.v == lit[0] and type(r.v) == type(lit[0]): return True
    if cells and all(c.ident == ('el', ('val', 0), k) for k, c in cells.items()): return True
    return False


def roundtrip(p, dyn, s, g, unit, isbool, isstr, budget=60):
    """enumerate scenarios; yield (scenario, lit, verdict, detail)"""
    out = []; todo = [({}, None)]; seen = set()
    while todo and budget > 0:
        budget -= 1
        scen, lit = todo.pop()
        ai, st, res, err = run_pair(p, dyn, s, g, unit, lit, scen)
        if err == 'noset': out.append((scen, lit, 'refused', None, ai)); continue
        good = res is not None and ok_result(res[0], res[1], lit)
        if good: out.append((scen, lit, 'ok', None, ai)); continue
        new = []
        if unit and 'unit' not in scen and ('unitconv',) not in scen:
            ls = ai.lits.get(('unit', 0), set())
            for l in sorted(ls): new.append((dict(scen, unit=l), lit))
            cs = sorted(x for x in ai.splits.get(('unitconv',), ()) if isinstance(x, str))
            for c in cs + ['another unit']: new.append((dict(scen, **{}) | {('unitconv',): c}, lit))
        elif lit is None and isbool and ('val', 0) in ai.splits:
            new = [(scen, (True,)), (scen, (False,))]
        elif lit is None and isstr and ai.lits.get(('val', 0)) and ('val', 0) not in scen:
            new = [(scen, (l,)) for l in sorted(ai.lits[('val', 0)])] + [(dict(scen) | {('val', 0): '\0other'}, None)]
        elif ('unitconv',) in scen and set(x for x in ai.splits.get(('unitconv',), ()) if isinstance(x, str)) - scen.get('convs', frozenset([scen[('unitconv',)]])) and 'convs' not in scen:
            cs = sorted(x for x in ai.splits[('unitconv',)] if isinstance(x, str))
            new = [(dict(scen) | {('unitconv',): c, 'convs': frozenset(cs)}, lit) for c in cs + ['another unit']]
        else:
            for at, vs in sorted(ai.splits.items(), key=repr):
                if at in scen or at[0] in ('val', 'unit', 'unitconv', 'fn', 'm', 'sh', 'cv'): continue
                vals = sorted(vs, key=repr)
                if set(vals) - {True, False}: vals = [x for x in vals if not isinstance(x, bool)] + [('other',)]
                new = [(dict(scen) | {at: x}, lit) for x in vals]
                break
        fresh = []
        for sc, l in new:
            k = (tuple(sorted(sc.items(), key=repr)), l)
            if k not in seen: seen.add(k); fresh.append((sc, l))
        if fresh: todo += fresh
        else: out.append((scen, lit, 'bad' if err is None else 'unreadable', res, ai))
    if todo: out.append(({}, None, 'budget', None, None))
    return out
