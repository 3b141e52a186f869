"""Path-specialised reachability: the expressions a function may evaluate when
given facts decide some of its conditions.  `atom(f, x)` returns the constant an
expression is assumed to hold (or None)."""
from model import strip
from util import defs, params, lam_of, lam_returns

STOP = object()


class Reach:
    lret = None

    def __init__(self, p, atom, inline=None, depth=3):
        p.never_returns(); self.p = p; self.atom = atom; self.out = []; self.inline = inline; self.depth = depth; self.stack = []; self.seen = set(); self.busy = set(); self.penv = {}

    def const(self, f, x):
        x = strip(f, x); n = f.nodes[x]
        a = self.atom(f, x)
        if a is not None: return a
        k = n['k']
        if k == 'Ref' and n.get('dk') == 'enum': return ('enum', n['d'])
        if k == 'Lit' and n.get('t') == 'bool': return str(n.get('v')).lower() in ('1', 'true')
        if k == 'Lit':
            try: return float(n['v'])
            except (ValueError, TypeError, KeyError): return None
        c = f.kids(x)
        if k == 'Bin' and n['op'] in ('==', '!=') or k == 'Call' and n.get('op') in ('==', '!=') and len(c) == 2:
            a, b = self.const(f, c[0]), self.const(f, c[1])
            if a is not None and b is not None and (isinstance(a, tuple) == isinstance(b, tuple)): return (a == b) == (n['op'] == '==')
            return None
        if k == 'Bin' and n['op'] in ('&&', '||'):
            a, b = self.truth(self.const(f, c[0])), self.truth(self.const(f, c[1]))
            if n['op'] == '&&': return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if k == 'Un' and n['op'] == '!':
            a = self.truth(self.const(f, c[0])); return None if a is None else not a
        if k == 'Cond':
            a = self.truth(self.const(f, c[0]))
            return None if a is None else self.const(f, c[1] if a else c[2])
        if k == 'Ref' and (f.id, n['d']) in self.penv: return self.penv[(f.id, n['d'])]
        if k == 'Ref' and n['d'].startswith('L:') and n['d'] not in params(f):
            ds = defs(f).get(n['d'])
            if ds and (f.id, n['d']) not in self.busy and not self.mutated(f, n['d']):
                self.busy.add((f.id, n['d']))
                vs = [self.const(f, y) for y in ds]
                self.busy.discard((f.id, n['d']))
                if vs[0] is not None and all(v == vs[0] for v in vs): return vs[0]
            return None
        if k == 'Call' and lam_of(f, x) is not None and n.get('t') in ('bool', 'int'):
            y = lam_of(f, x)
            if ('lc', f.id, y) not in self.busy:
                self.busy.add(('lc', f.id, y))
                r = Reach(self.p, self.atom, None, 0); r.busy = self.busy; r.penv = self.penv; r.lret = []; r.body(f, y)
                vs = [r.const(f, f.kids(z)[0]) for z in r.lret if f.kids(z)]
                self.busy.discard(('lc', f.id, y))
                if vs and vs[0] is not None and all(v == vs[0] for v in vs): return vs[0]
            return None
        if k == 'Call' and n.get('f') in self.p.fns and not n.get('virt') and n.get('t') in ('bool', 'int') and n['f'] not in self.busy:
            g = self.p.fns[n['f']]
            self.busy.add(g.id)
            r = Reach(self.p, self.atom, None, 0); r.busy = self.busy; r.penv = dict(self.penv); r.penv.update(self.bound(f, x, g)); r.run(g)
            vs = [r.const(g, g.kids(y)[0]) for h, y in r.out if h is g and g.nodes[y]['k'] == 'Return' and g.kids(y)]
            self.busy.discard(g.id)
            if vs and vs[0] is not None and all(v == vs[0] for v in vs): return vs[0]
        return None

    def bound(self, f, x, g, env=None):
        """what the given facts say of the parameters of g in call x"""
        ps = params(g); c = f.kids(x); out = {}
        if len(c) < len(ps): return out
        for d, a in zip(ps, c[len(c) - len(ps):]):
            if d in defs(g) or self.mutated(g, d): continue
            cur = self.penv
            if env is not None: self.penv = env
            v = self.const(f, a); self.penv = cur
            if v is not None: out[(g.id, d)] = v
        return out

    @staticmethod
    def mutated(f, d):
        """local d is changed other than by plain assignment"""
        m = f._desc.get('mutd')
        if m is None:
            m = set(); par = f.parents()
            for x in f.walk():
                n = f.nodes[x]
                if n['k'] == 'Un' and n['op'] in ('++', '--', '&') or n['k'] == 'Asg' and n['op'] != '=':
                    l = strip(f, f.kids(x)[0])
                    if f.nodes[l]['k'] == 'Ref': m.add(f.nodes[l]['d'])
            f._desc['mutd'] = m
        return d in m

    @staticmethod
    def truth(v): return v if isinstance(v, bool) else bool(v) if isinstance(v, float) else None

    def ev(self, f, x):
        """record x and its evaluated sub-expressions; False if it never completes"""
        if x is None or x < 0: return True
        n = f.nodes[x]; k = n['k']; c = f.kids(x)
        if k == 'Lambda':
            self.out.append((f, x)); return True
        if k == 'Call' and lam_of(f, x) is not None:
            for y in c:
                if not self.ev(f, y): return False
            self.out.append((f, x))
            return self.body(f, lam_of(f, x))
        if k == 'Cond' or k == 'Bin' and n['op'] in ('&&', '||'):
            if not self.ev(f, c[0]): return False
            a = self.truth(self.const(f, c[0]))
            if k == 'Cond':
                if a is not False and c[1:2]: r1 = self.ev(f, c[1])
                else: r1 = None
                r2 = self.ev(f, c[2]) if a is not True and c[2:3] else None
                self.out.append((f, x))
                return any(r for r in (r1, r2)) if (r1, r2) != (None, None) else True
            if a is None or a == (n['op'] == '&&'): self.ev(f, c[1])
            self.out.append((f, x)); return True
        for y in c:
            if not self.ev(f, y): return False
        if k == 'Call':
            for y in c:
                z = strip(f, y)
                if f.nodes[z]['k'] == 'Ref' and f.nodes[z].get('t', '').startswith('(lambda'):
                    z = next((w for w in defs(f).get(f.nodes[z]['d'], ()) if f.nodes[strip(f, w)]['k'] == 'Lambda'), z)
                if f.nodes[strip(f, z)]['k'] == 'Lambda': self.body(f, strip(f, z))      # handed to a function that may call it
        self.out.append((f, x))
        if k == 'Throw': return False
        if k == 'Call':
            if self.p.call_never_returns(f, x): return False
            if self.inline:
                t = self.inline(f, x)
                if t is not None and t.id not in self.stack and len(self.stack) < self.depth:
                    old = self.penv; self.penv = dict(old)
                    for d in params(t): self.penv.pop((t.id, d), None)
                    self.penv.update(self.bound(f, x, t, old))
                    self.stack.append(t.id); r = self.run(t); self.stack.pop()
                    self.penv = old
                    return r
        return True

    def body(self, f, y):
        """body of lambda y; its returns are not those of the function"""
        if ('lam', f.id, y) in self.busy: return True
        self.busy.add(('lam', f.id, y)); self.inlam = getattr(self, 'inlam', 0) + 1
        r = self.ex(f, f.kids(y)[0], [])
        self.inlam -= 1; self.busy.discard(('lam', f.id, y))
        return bool(r & {'n', 'r'})

    def run(self, f):
        """True if the function can return"""
        self.ret = getattr(self, 'ret', [])
        r = self.ex(f, f.body(), [])
        return bool(r & {'n', 'r'})

    def ex(self, f, i, _):
        """set of ways to leave: n normal, r return, b break, c continue"""
        if i is None or i < 0: return {'n'}
        n = f.nodes[i]; k = n['k']
        if k in ('Block', 'Decl'):
            out = set()
            for c in f.kids(i):
                r = self.ex(f, c, _)
                out |= r - {'n'}
                if 'n' not in r: return out
            return out | {'n'}
        if k == 'Var':
            for c in f.kids(i):
                if not self.ev(f, c): return set()
            self.out.append((f, i))
            return {'n'}
        if k == 'If':
            for c in f.kids(i):
                if c not in (n['cond'], n['then'], n['else']):
                    self.ex(f, c, _)
            if not self.ev(f, n['cond']): return set()
            b = self.truth(self.const(f, n['cond']))
            out = set()
            if b is not False: out |= self.ex(f, n['then'], _)
            if b is not True: out |= self.ex(f, n['else'], _) if n['else'] >= 0 else {'n'}
            return out
        if k in ('For', 'While', 'Do', 'ForRange'):
            out = set()
            if k == 'For': self.ex(f, n['init'], _)
            if k == 'ForRange':
                for c in f.kids(i):
                    if c != n['body']: self.ex(f, c, _)
            cond = n.get('cond', -1) if k != 'ForRange' else -1
            if k != 'Do' and cond >= 0:
                if not self.ev(f, cond): return set()
                if self.truth(self.const(f, cond)) is False: return {'n'}
            r = self.ex(f, n['body'], _)
            if k == 'For' and n.get('inc', -1) >= 0 and r & {'n', 'c'}: self.ev(f, n['inc'])
            if k == 'Do' and cond >= 0 and r & {'n', 'c'}: self.ev(f, cond)
            out |= r & {'r'}
            forever = k != 'ForRange' and (cond < 0 or self.truth(self.const(f, cond)) is True)
            if not forever or 'b' in r: out.add('n')
            if k == 'Do' and not r & {'n', 'c', 'b'}: out.discard('n')
            return out
        if k == 'Switch':
            if not self.ev(f, n['cond']): return set()
            v = self.const(f, n['cond'])
            body = n['body']; ks = f.kids(body) if f.nodes[body]['k'] == 'Block' else [body]
            labels = []   # (position, label const or None for default)
            flat = []
            for c in ks:
                while f.nodes[c]['k'] in ('Case', 'Default'):
                    labels.append((len(flat), None if f.nodes[c]['k'] == 'Default' else self.const(f, f.kids(c)[0])))
                    c = f.kids(c)[-1]
                flat.append(c)
            if v is not None and all(l is None or True for _, l in labels):
                st = [pos for pos, l in labels if l is not None and l == v]
                if not st: st = [pos for pos, l in labels if l is None][:1]
                if not st: return {'n'}
                starts = st[:1]
            else:
                starts = sorted({pos for pos, l in labels})
            out = set()
            if v is None and not any(l is None for _, l in labels): out.add('n')
            done = set()
            for s in starts:
                alive = True
                for pos in range(s, len(flat)):
                    r = self.ex(f, flat[pos], _)
                    out |= r & {'r', 'c'}
                    if 'b' in r: out.add('n')
                    if 'n' not in r: alive = False; break
                if alive: out.add('n')
            return out
        if k == 'Return':
            for c in f.kids(i):
                if not self.ev(f, c): return set()
            if not getattr(self, 'inlam', 0): self.out.append((f, i))
            elif self.lret is not None: self.lret.append(i)
            return {'r'}
        if k == 'Break': return {'b'}
        if k == 'Continue': return {'c'}
        if k == 'Try':
            ks = f.kids(i); out = self.ex(f, ks[0], _)
            for c in ks[1:]: out |= self.ex(f, f.kids(c)[0], _)
            return out
        if k in ('Case', 'Default', 'Label'): return self.ex(f, f.kids(i)[-1], _)
        if k in ('Null', 'Goto'): return {'n'}
        return {'n'} if self.ev(f, i) else set()


def reach(p, f, atom, inline=None, depth=3):
    """(nodes evaluated [(fn,node)], can return?)"""
    r = Reach(p, atom, inline, depth)
    ok = r.run(f)
    return r.out, ok
