"""shared by the clone rules: abstract copy of every clonable class"""
from model import strip
from depai import DepAI, Val, State, UNINIT


def short(q): return q.replace('Gyoto::', '')


def copy_ctors(p):
    out = []
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.kind == 'ctor' and f.d.get('copy') and p.is_a(f.cls, 'Gyoto::SmartPointee'):
            out.append(f)
    return out


def field_reads(p):
    """qualified member -> True when some function other than a copy
    constructor reads it (not merely assigns it)."""
    r = set()
    for f in p.fns.values():
        if f.kind == 'ctor' and (f.d.get('copy') or f.d.get('move')): continue
        if f.d.get('implicit'): continue
        par = f.parents()
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] != 'Mem' or n.get('dk') == 'func' or 'd' not in n: continue
            if n['d'] in r: continue
            y = par.get(x)
            w = y is not None and f.nodes[y]['k'] == 'Asg' and f.nodes[y]['op'] == '=' and f.nodes[y]['c'][0] == x
            w = w or (y is not None and f.nodes[y]['k'] == 'Call' and f.nodes[y].get('op') == '=' and f.nodes[y]['c'][0] == x)
            if not w: r.add(n['d'])
    return r


def abstract_copy(p, f):
    ai = DepAI(p)
    ai.budget = 3000000
    st, _ = ai.run(f, 'this', [Val(obj='o')], State())
    return ai, st


def is_scalar(t):
    return t in ('double', 'float', 'int', 'unsigned int', 'long', 'unsigned long', 'bool', 'char', 'unsigned char', 'short',
                 'unsigned short', 'unsigned long long', 'long long') or t.startswith('Gyoto::') and '<' not in t and not t.endswith('*') or t.startswith('std::basic_string<char') and not t.endswith('*')


class CloneAI(DepAI):
    """follows the object made by the new-expression of a clone() function"""
    def __init__(self, p):
        DepAI.__init__(self, p); self.made = {}; self.budget = 3000000

    def tracked_objs(self): return self.made

    def dyn_of(self, fr, obj): return self.made.get(obj, fr.dyn)

    def default(self, loc):
        if loc[0] == 'F' and loc[1] in self.made: return UNINIT
        return DepAI.default(self, loc)

    def ev(self, fr, i, st):
        n = fr.fn.nodes[i] if i is not None and i >= 0 else None
        if n is not None and n['k'] == 'New' and not n.get('arr') and n['at'] in self.p.classes:
            c = [y for y in fr.fn.kids(i) if fr.fn.nodes[y]['k'] == 'Ctor']
            t = self.p.fns.get(fr.fn.nodes[c[0]].get('f')) if c else None
            if t is not None and len(self.stack) < 10:
                o = 'N:%s:%d' % (fr.fn.id, i)
                self.made[o] = n['at']
                args = [DepAI.ev(self, fr, a, st) for a in fr.fn.kids(c[0])]
                s2, _ = self.run(t, o, args, st.copy(), n['at'], fr.depth + 1)
                if s2 is not None: st.clear(); st.update(s2)
                return Val(obj=o, kind='new')
        return DepAI.ev(self, fr, i, st)


def abstract_clone(p, f):
    """final state of the object(s) a clone() function makes from source 'o'"""
    ai = CloneAI(p)
    st, rv = ai.run(f, 'o', None, State())
    return ai, st, rv
