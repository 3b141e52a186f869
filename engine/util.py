"""Small reusable analyses over the fact model."""
from model import strip


def short(q): return q.replace('Gyoto::', '')


def defs(f):
    """local variable -> list of expressions assigned/initialising it (flow-insensitive)"""
    d = f._desc.get('defs')
    if d is None:
        d = {}
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] == 'Var':
                d.setdefault(n['d'], [])
                c = f.kids(x)
                if c: d[n['d']].append(c[0])
            elif n['k'] == 'Asg' and n['op'] == '=':
                l = strip(f, n['c'][0])
                if f.nodes[l]['k'] == 'Ref': d.setdefault(f.nodes[l]['d'], []).append(n['c'][1])
            elif n['k'] == 'Call' and n.get('op') == '()' and lam_of(f, x) is not None:
                for q, a in zip(f.nodes[lam_of(f, x)].get('params', ()), f.kids(x)[1:]): d.setdefault(q, []).append(a)
            elif n['k'] == 'Call' and n.get('op') == '=' and len(f.kids(x)) == 2:
                l = strip(f, f.kids(x)[0])
                if f.nodes[l]['k'] == 'Ref': d.setdefault(f.nodes[l]['d'], []).append(f.kids(x)[1])
        f._desc['defs'] = d
    return d


def lam_of(f, x):
    """the Lambda node a call invokes, when it is made in the same function"""
    n = f.nodes[x]
    if n['k'] != 'Call' or n.get('op') != '()' or not n.get('mc'): return None
    t = n.get('cls', '')
    m = f._desc.get('lams')
    if m is None:
        m = {f.nodes[y].get('t'): y for y in f.walk() if f.nodes[y]['k'] == 'Lambda'}
        f._desc['lams'] = m
    return m.get(t)


def in_lambda(f):
    """nodes inside the body of a lambda"""
    s = f._desc.get('inlam')
    if s is None:
        s = set()
        for y in f.walk():
            if f.nodes[y]['k'] == 'Lambda':
                st = list(f.kids(y))
                while st:
                    z = st.pop()
                    if z in s or z is None or z < 0: continue
                    s.add(z); st.extend(f.kids(z))
        f._desc['inlam'] = s
    return s


def lam_returns(f, y):
    """returned expressions of lambda node y (not of lambdas inside it)"""
    out = []; st = list(f.kids(y))
    while st:
        z = st.pop(); n = f.nodes[z]
        if n['k'] == 'Lambda': continue
        if n['k'] == 'Return':
            if f.kids(z): out.append(f.kids(z)[0])
            continue
        st.extend(f.kids(z))
    return out


def params(f): return [pm['d'] for pm in f.d['params']]


def returns(f):
    il = in_lambda(f)
    return [f.kids(x)[0] for x in f.walk() if f.nodes[x]['k'] == 'Return' and f.kids(x) and x not in il]


def values(p, f, i, depth=4, seen=None, inline=True):
    """terminal expressions (fn,node) the value of node i may come from:
    through casts, conditionals, comma, locals and callees' returns."""
    seen = set() if seen is None else seen
    out = []
    st = [i]
    while st:
        x = strip(f, st.pop())
        if (f.id, x) in seen: continue
        seen.add((f.id, x))
        n = f.nodes[x]; k = n['k']; c = f.kids(x)
        if k == 'Cond': st.extend(c[1:3]); continue
        if k == 'Bin' and n['op'] == ',': st.append(c[1]); continue
        if k == 'Asg' and n['op'] == '=': st.append(c[1]); continue
        if k == 'Ref' and n['d'].startswith('L:'):
            ds = defs(f).get(n['d'])
            if ds and n['d'] not in params(f): st.extend(ds); continue
        if k == 'Ctor' and n.get('cls', '').startswith('Gyoto::SmartPointer<') and len(c) == 1: st.append(c[0]); continue
        if k == 'Call' and lam_of(f, x) is not None: st.extend(lam_returns(f, lam_of(f, x))); continue
        if k == 'Call' and inline and depth > 0 and not n.get('virt'):
            g = p.fns.get(n.get('f'))
            if g is not None and returns(g):
                for r in returns(g): out += values(p, g, r, depth - 1, seen)
                continue
        out.append((f, x))
    return out
