"""The property tables (static arrays Class::properties) as data."""
from model import strip, Fn


class PEntry:
    __slots__ = ('cls', 'name', 'name_false', 'ctor', 'funcs', 'line', 'file', 'isfile', 'type')


def tables(p):
    """class -> {'entries':[PEntry], 'parent': class or None, 'loc':..., 'title':...}"""
    if hasattr(p, '_ptab'): return p._ptab
    out = {}
    for q, v in p.vars.items():
        if not q.endswith('::properties') or 'nodes' not in v or not v['t'].startswith('const Gyoto::Property'): continue
        cls = q[2:-len('::properties')]
        N = v['nodes']
        d = {'id': q, 'q': q, 'n': 'properties', 'nodes': N, 'kind': 'var', 'file': v['file'], 'l': v['l'], 'cls': cls, 'body': v['init'], 'params': []}
        f = Fn(d, p)
        root = v['init']
        ents = [x for x in f.kids(root)]
        res = {'entries': [], 'parent': None, 'loc': '%s:%d' % (v['file'], v['l']), 'title': None, 'extra': [], 'fn': f}
        for e in ents:
            e = strip(f, e)
            while N[e]['k'] == 'Ctor' and (N[e].get('copy') or N[e].get('move')) and f.kids(e): e = strip(f, f.kids(e)[0])
            n = N[e]
            if n['k'] != 'Ctor': res['extra'].append(e); continue
            strs, funcs, lits, refs = [], [], [], []
            for a in f.kids(e):
                a0 = a
                if N[a]['k'] == 'DefArg': continue
                sub = list(f.walk(a))
                fr = [N[y] for y in sub if N[y]['k'] == 'Ref' and N[y].get('dk') == 'func']
                if fr: funcs.append(fr[0]); continue
                ss = [N[y]['s'] for y in sub if N[y]['k'] == 'Str']
                if ss: strs.append(ss[0]); continue
                rf = [N[y].get('d') for y in sub if N[y]['k'] == 'Ref' and N[y].get('d', '').endswith('::properties')]
                if rf: refs.append(rf[0]); continue
                lits += [N[y].get('v') for y in sub if N[y]['k'] == 'Lit']
            sig = n['f']
            if funcs:
                pe = PEntry(); pe.cls = cls; pe.name = strs[0]; pe.funcs = funcs; pe.ctor = sig; pe.line = n['l']; pe.file = v['file']
                pe.name_false = strs[1] if '(bool)' in sig and 'Property(std::basic_string<char, std::char_traits<char>, std::allocator<char>>,std::basic_string' in sig and len(strs) > 1 else None
                pe.isfile = None
                res['entries'].append(pe)
            elif refs: res['parent'] = refs[0][2:-len('::properties')]; res['pline'] = n['l']
            elif strs: res['title'] = strs[0]
            else: res['extra'].append(e)
        out[cls] = res
    p._ptab = out
    return out


def chain(p, cls):
    """classes whose tables are searched, in order, for an object whose table is cls"""
    t = tables(p); out = []
    while cls and cls in t and cls not in out:
        out.append(cls); cls = t[cls]['parent']
    return out


def own_table(p, cls):
    """class whose table getProperties() of dynamic class cls returns"""
    mid = 'Gyoto::Object::getProperties()const'
    f = p.resolve(cls, mid)
    if f is None: return None
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] == 'Ref' and n.get('d', '').endswith('::properties'): return n['d'][2:-len('::properties')]
    return None
