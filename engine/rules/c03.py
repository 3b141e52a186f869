"""For every class objects are created of (new-expression, smart-pointer
factory) and that has a clone operation: the final overrider is the class's own
(resolved through the vtable model), every value it can return is a fresh
`new Same(*this)` built by the copy constructor, and the clone is not altered
between copying and returning."""
from util import *
LEVEL = 'proof'


def copy_of_this(p, f, x):
    """x: New node; is it new C(*this) through the copy constructor?"""
    n = f.nodes[x]
    if n['k'] != 'New' or n.get('arr'): return None
    c = [y for y in f.kids(x) if f.nodes[y]['k'] == 'Ctor']
    if not c: return None
    ct = f.nodes[c[0]]
    g = p.fns.get(ct.get('f'))
    if g is not None and not g.d.get('copy'): return None
    if g is None and not ct.get('copy'): return None
    a = f.kids(c[0])
    if not a: return None
    a = strip(f, a[0])
    if f.nodes[a]['k'] == 'Un' and f.nodes[a]['op'] == '*':
        b = strip(f, f.kids(a)[0])
        for (g2, y) in values(p, f, b):
            if g2.nodes[y]['k'] != 'This': return None
        return n['at']
    return None


def touched_after(p, f):
    """modification of a freshly made copy inside clone()"""
    loc = {d for d, v in defs(f).items() if any(f.nodes[strip(f, e)]['k'] == 'New' for e in v)}
    par = f.parents()
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] == 'Ref' and n.get('d') in loc:
            y = par.get(x)
            while y is not None and f.nodes[y]['k'] in ('Cast', 'Mem', 'Sub') or (y is not None and f.nodes[y]['k'] == 'Un' and f.nodes[y]['op'] == '*'):
                x, y = y, par.get(y)
            if y is None: continue
            m = f.nodes[y]
            if m['k'] == 'Asg' and m['c'][0] == x and f.nodes[strip(f, x)]['k'] != 'Ref': return y
            if m['k'] == 'Un' and m['op'] in ('++', '--'): return y
            if m['k'] == 'Call' and m.get('mc') and f.kids(y)[0] == x:
                t = p.fns.get(m.get('f'))
                if m.get('f', '').endswith('const'): continue
                if t is not None and not effects(t): continue
                return y
    return None


def effects(f):
    return any(f.nodes[x]['k'] in ('Asg', 'Delete', 'Call') or f.nodes[x]['k'] == 'Un' and f.nodes[x]['op'] in ('++', '--') for x in f.walk())


def created(p):
    """classes instantiated on the heap or by a registered factory"""
    out = {}
    for f in p.fns.values():
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] == 'New' and not n.get('arr'): out.setdefault(n['at'], f.loc(x))
    return out


def run(p, R):
    made = created(p)
    n = 0
    for q in sorted(p.classes):
        chain = [q] + p.ancestors(q)
        mids = [m['id'] for a in chain for m in p.classes.get(a, {}).get('methods', ()) if m['n'] == 'clone' and not m.get('np')]
        if not mids: continue
        if p.classes[q].get('abstract') or q not in made: continue
        n += 1
        own = [m for m in p.classes[q]['methods'] if m['n'] == 'clone']
        key = short(q)
        if not own:
            r = p.resolve(q, mids[-1])
            R.ob(key, '%s:%s' % (p.classes[q]['file'], p.classes[q]['l']), False,
                 'class %s is instantiated (%s) but inherits clone() from %s: its clones lose their type' % (key, made[q], short(r.cls) if r else 'an ancestor'))
            continue
        virt = [a for a in chain[1:] for m in p.classes.get(a, {}).get('methods', ()) if m['n'] == 'clone']
        for m in own:
            f = p.fns.get(m['id'])
            if f is None:
                R.ob(key, p.classes[q]['file'], False, 'clone() has no body'); continue
            if virt and not m.get('ovr'):
                R.ob(key, f.loc(), False, 'clone() of %s hides instead of overriding the clone() of its base: cloning through the base slices' % key); continue
            rs = returns(f)
            bad = None
            if not rs: bad = (f, -1, 'returns nothing')
            for r in rs:
                for (g, y) in values(p, f, r):
                    t = copy_of_this(p, g, y)
                    if t is None and f.d['params'] and g.nodes[y]['k'] == 'New': t = g.nodes[y]['at']  # clone for a new parent; content decided by C01
                    if t != q: bad = (g, y, 'may return %s instead of a new %s copied from itself' % (g.text(y), key)); break
            if not bad and not f.d['params']:
                y = touched_after(p, f)
                if y is not None: bad = (f, y, 'modifies the clone after copying: ' + f.text(y))
            R.ob(key, bad[0].loc(bad[1]) if bad else f.loc(), not bad, 'clone() of %s %s' % (key, bad[2]) if bad else '')
    R.need('clonable instantiated classes', n, 60)
