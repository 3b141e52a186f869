"""Forward symbolic walk: every integer expression becomes a polynomial over
opaque atoms (members, parameters, callee results).  Structured (walks the
statement tree), joins by introducing a fresh atom where branches disagree,
loop-modified variables become fresh atoms, canonical counting loops get an
induction atom with its range.  No solver and no path condition: two sizes are
'equal' only when their polynomials are syntactically equal after
normalisation."""
from model import strip
from fractions import Fraction


class Poly(dict):
    """monomial (sorted tuple of atoms) -> coefficient"""
    def key(self): return tuple(sorted(((str(k), v) for k, v in self.items() if v), key=str))
    def __eq__(self, o): return o is not None and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __ne__(self, o): return not self == o

    def const(self):
        d = {k: v for k, v in self.items() if v}
        if not d: return 0
        if len(d) == 1 and () in d: return d[()]
        return None

    def __repr__(self):
        if not any(self.values()): return '0'
        return ' + '.join(('%s' % v if v != 1 or not k else '') + ('*' if v != 1 and k else '') + '*'.join(show(a) for a in k)
                          for k, v in sorted(self.items(), key=str) if v)


def show(a):
    if isinstance(a, tuple):
        if a[0] == 'F': return '%s%s' % ('' if a[1] == 'this' else str(a[1]) + '.', a[2].split('::')[-1])
        if a[0] in ('P', 'L'): return str(a[-1]).replace('L:', '').split('@')[0]
        if a[0] == 'call': return '%s(%s)' % (a[1].split('(')[0].split('::')[-1], ','.join(map(repr, a[2])))
        if a[0] == 'ix': return '%s[%s]' % (show(a[1]), a[2])
        return str(a[0]) + '#' + str(a[1])
    return str(a)


def C(v): return Poly({(): v})
def A(a): return Poly({(a,): 1})


def add(a, b, s=1):
    r = Poly(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0: del r[k]
    return r


def mul(a, b):
    r = Poly()
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=str))
            r[m] = r.get(m, 0) + v * w
            if r[m] == 0: del r[m]
    return r


class Walk:
    """subclass and override on_* ; env: location -> Poly
    locations: ('L',decl) , ('F',obj,member) , ('ix', loc, Poly)"""
    def __init__(self, p):
        self.p = p; self.fresh = 0; self.ranges = {}; self.depth = 0; self.stack = []; self.loops = []
        self.conds = []
        p.never_returns()

    def new(self, tag='?'):
        self.fresh += 1
        return A(('u', '%s%d' % (tag, self.fresh)))

    # hooks ------------------------------------------------------------
    def on_call(self, f, x, env): pass
    def on_assign(self, f, x, loc, val, env): pass
    def on_new(self, f, x, size, env): return None
    def on_delete(self, f, x, env): pass
    def on_sub(self, f, x, base, idx, env): pass

    # ------------------------------------------------------------------
    def run(self, f, env=None, this='this', args=None):
        env = {} if env is None else env
        old = getattr(self, 'this', None); self.this = this
        for i, pm in enumerate(f.d['params']):
            env[('L', f.id, pm['d'])] = args[i] if args and i < len(args) and args[i] is not None else A(('P', f.id, pm['d']))
        self.stack.append(f.id)
        self.rets = []
        if f.kind == 'ctor': self.inits(f, env)
        e = self.st(f, f.body(), env)
        self.stack.pop()
        self.this = old
        return e

    def inits(self, f, env):
        for it in f.d.get('inits', ()):
            if 'field' in it:
                v = self.ex(f, it['e'], env)
                self.assign(f, it['e'], ('F', self.this, f.cls + '::' + it['field']), v, env)
            else:
                e = it['e']; n = f.nodes[e]
                if n['k'] != 'Ctor': continue
                av = [self.ex(f, a, env) for a in f.kids(e)]
                t = self.p.fns.get(n.get('f'))
                if t is not None and len(self.stack) < 8:
                    ol = self.loops; self.loops = []
                    self.run(t, env, self.this, av)
                    self.loops = ol

    def st(self, f, i, env):
        """returns env or None if the end is unreachable"""
        if i is None or i < 0 or env is None: return env
        n = f.nodes[i]; k = n['k']
        if k in ('Block', 'Decl', 'Label'):
            for c in f.kids(i):
                env = self.st(f, c, env)
                if env is None: return None
            return env
        if k == 'Var':
            c = f.kids(i)
            if c:
                v = self.ex(f, c[0], env)
                if n.get('t', '').endswith('&'):
                    l = self.loc(f, c[0], env)
                    if l: env[('A', f.id, n['d'])] = l; return env
                self.assign(f, i, ('L', f.id, n['d']), v, env)
            else:
                env[('L', f.id, n['d'])] = A(('L', f.id, n['d']))
            return env
        if k == 'If':
            for c in f.kids(i):
                if c not in (n['cond'], n['then'], n['else']): env = self.st(f, c, env)
            self.ex(f, n['cond'], env)
            self.conds.append((f, n['cond'], True))
            a = self.st(f, n['then'], dict(env))
            self.conds[-1] = (f, n['cond'], False)
            b = self.st(f, n['else'], dict(env)) if n['else'] >= 0 else env
            self.conds.pop()
            return self.join(a, b)
        if k in ('For', 'While', 'Do', 'ForRange'): return self.loop(f, i, env)
        if k == 'Switch':
            kids = f.kids(i)
            self.ex(f, n['cond'], env) if 'cond' in n else None
            body = kids[-1]
            res = dict(env)
            cur = None
            for c in (f.kids(body) if f.nodes[body]['k'] == 'Block' else [body]):
                m = f.nodes[c]
                if m['k'] in ('Case', 'Default'): cur = self.join(cur, dict(env))
                cur = self.st(f, c, cur) if cur is not None else None
                if cur is None: continue
            self.kill_assigned(f, body, res)
            return res
        if k in ('Case', 'Default'):
            c = f.kids(i)
            return self.st(f, c[-1], env) if c else env
        if k == 'Return':
            c = f.kids(i)
            if c:
                v = self.ex(f, c[0], env)
                self.rets.append(v)
            return None
        if k in ('Break', 'Continue', 'Goto'): return None
        if k == 'Try':
            c = f.kids(i)
            env0 = dict(env)
            e = self.st(f, c[0], env)
            self.kill_assigned(f, c[0], env0)
            for h in c[1:]:
                e = self.join(e, self.st(f, h, dict(env0)))
            return e
        if k == 'Catch':
            for c in f.kids(i): env = self.st(f, c, env)
            return env
        if k == 'Null': return env
        self.ex(f, i, env)
        m = f.nodes[strip(f, i)]
        if m['k'] == 'Throw' or m['k'] == 'Call' and self.p.call_never_returns(f, strip(f, i)): return None
        return env

    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                if k[0] == 'F': out[k] = x if x is not None and x == A(k) else (y if y is not None and y == A(k) else self.new('j'))
                else: out[k] = x if x is not None else y
            else: out[k] = x if x == y or x is y else (self.new('j') if k[0] != 'A' else x)
        return out

    def kill_assigned(self, f, i, env):
        for x in f.walk(i):
            n = f.nodes[x]
            l = None
            if n['k'] == 'Asg': l = n['c'][0]
            elif n['k'] == 'Un' and n['op'] in ('++', '--'): l = n['c'][0]
            elif n['k'] == 'Un' and n['op'] == '&': l = n['c'][0]
            elif n['k'] == 'Call' and n.get('op') in ('=', '+=', '++', '--', '>>'): l = f.kids(x)[-1 if n['op'] == '>>' else 0]
            if l is None: continue
            lo = self.loc(f, l, env)
            if lo and lo[0] in ('L', 'F'): env[lo] = self.new('k')

    def loop(self, f, i, env):
        n = f.nodes[i]; k = n['k']
        if k == 'For': env = self.st(f, n['init'], env)
        iv = self.induction(f, i, env)
        body = n.get('body', f.kids(i)[-1] if f.kids(i) else -1)
        self.kill_assigned(f, body, env)
        if k == 'For' and n.get('inc', -1) is not None and n.get('inc', -1) >= 0: self.kill_assigned(f, n['inc'], env)
        if n.get('cond', -1) is not None and n.get('cond', -1) >= 0: self.kill_assigned(f, n['cond'], env)
        if iv:
            loc, lo, hi, step = iv
            at = ('iv', '%s@%d' % (str(loc[-1]).replace('L:', '').split('@')[0], f.nodes[i]['l']))
            env[loc] = A(at); self.ranges[at] = (lo, hi, step)
        self.loops.append((f, i, iv))
        e = dict(env)
        if n.get('cond', -1) is not None and n.get('cond', -1) >= 0: self.ex(f, n['cond'], e)
        if k == 'ForRange':
            for c in f.kids(i)[:-1]: e = self.st(f, c, e)
            e = self.st(f, f.kids(i)[-1], e)
        else:
            e = self.st(f, body, e)
        if e is not None and k == 'For' and n.get('inc', -1) >= 0: self.ex(f, n['inc'], e)
        self.loops.pop()
        out = dict(env)
        if iv: out[iv[0]] = self.new('end')
        # arrays/pointers assigned in the loop stay as left by one iteration
        if e is not None:
            for kk, v in e.items():
                if kk not in out: out[kk] = v
        return out

    def induction(self, f, i, env):
        """(loc, lo, hi_exclusive, step) of a canonical counting loop"""
        n = f.nodes[i]
        if n['k'] != 'For' or n.get('cond', -1) < 0 or n.get('inc', -1) < 0: return None
        c = f.nodes[strip(f, n['cond'])]
        if c['k'] != 'Bin' or c['op'] not in ('<', '<=', '!='): return None
        inc = f.nodes[strip(f, n['inc'])]
        if inc['k'] == 'Bin' and inc['op'] == ',':
            cands = [strip(f, y) for y in f.kids(strip(f, n['inc']))]
        else: cands = [strip(f, n['inc'])]
        l = self.loc(f, c['c'][0], env)
        if not l: return None
        for y in cands:
            m = f.nodes[y]
            step = None
            if m['k'] == 'Un' and m['op'] == '++': step = 1
            elif m['k'] == 'Asg' and m['op'] == '+=':
                step = self.ex(f, m['c'][1], dict(env)).const()
            if step and self.loc(f, m['c'][0], env) == l:
                lo = env.get(l)
                if lo is None: return None
                e2 = dict(env); e2[l] = A(('self',))
                hi = self.ex(f, c['c'][1], e2)
                if c['op'] == '<=': hi = add(hi, C(1))
                # bound must not change in the body
                for x in f.walk(n['body']):
                    q = f.nodes[x]
                    if q['k'] == 'Asg' or q['k'] == 'Un' and q['op'] in ('++', '--'):
                        if self.loc(f, q['c'][0], env) == l: return None
                return l, lo, hi, step
        return None

    # ---------------------------------------------------------------- lvalues
    def loc(self, f, i, env):
        i = strip(f, i); n = f.nodes[i]; k = n['k']; c = f.kids(i)
        if k == 'Ref':
            a = env.get(('A', f.id, n.get('d')))
            if a: return a
            if n.get('dk') == 'func': return None
            if str(n.get('d', '')).startswith('L:'): return ('L', f.id, n['d'])
            return ('G', n.get('d'))
        if k == 'Mem' and n.get('dk') != 'func' and 'd' in n:
            o = self.obj(f, c[0], env)
            return ('F', o, n['d'])
        if k == 'Sub':
            b = self.loc(f, c[0], env)
            if b is None: return None
            return ('ix', b, self.ex(f, c[1], env))
        if k == 'Un' and n['op'] == '*':
            b = self.loc(f, c[0], env)
            if b is None: return None
            return ('ix', b, C(0))
        if k == 'Call' and n.get('op') == '[]' and len(c) == 2:
            b = self.loc(f, c[0], env)
            if b is None: return None
            return ('ix', b, self.ex(f, c[1], env))
        return None

    def obj(self, f, i, env):
        """name of the object an expression designates"""
        i = strip(f, i); n = f.nodes[i]; c = f.kids(i)
        if n['k'] == 'This': return self.this
        if n['k'] == 'Un' and n['op'] in ('*', '&') and c: return self.obj(f, c[0], env)
        if n['k'] == 'Call' and n.get('op') in ('->', '*', '()') and c: return self.obj(f, c[0], env)
        if n['k'] == 'Ref' and str(n.get('d', '')).startswith('L:'):
            v = env.get(('L', f.id, n['d']))
            if v is not None and len(v) == 1:
                (mono, co), = v.items()
                if co == 1 and len(mono) == 1: return self.alias(mono[0])
            return ('L', f.id, n['d'])
        l = self.loc(f, i, env)
        return l if l else ('x', f.id, i)

    def alias(self, atom): return atom

    # ---------------------------------------------------------------- exprs
    def ex(self, f, i, env):
        if i is None or i < 0: return C(0)
        n = f.nodes[i]; k = n['k']; c = f.kids(i)
        if isinstance(n.get('v'), int) and k not in ('Ref', 'Mem') or k == 'Lit':
            try: return C(int(n['v']))
            except Exception:
                try: return C(Fraction(str(n['v'])))
                except Exception: return A(('lit', str(n.get('v'))))
        if k == 'SizeOf': return A(('sizeof', n.get('at', n.get('s', n.get('t')))))
        if k in ('Cast', 'DefArg', 'DefInit'): return self.ex(f, c[0], env) if c else self.new('c')
        if k == 'IList' and len(c) == 1: return self.ex(f, c[0], env)
        if k in ('Ref', 'Mem', 'Sub'):
            if k == 'Sub':
                b = self.ex(f, c[0], env); ix = self.ex(f, c[1], env)
                self.on_sub(f, i, c[0], ix, env)
            elif k == 'Mem' and c: self.ex(f, c[0], env)
            l = self.loc(f, i, env)
            if l is None: return A(('x', f.id, i))
            v = env.get(l)
            if v is None:
                if isinstance(n.get('v'), int): return C(n['v'])
                return A(l)
            return v
        if k == 'This': return A(('this', str(self.this)))
        if k == 'Str': return A(('str', n['s']))
        if k == 'Asg':
            v = self.ex(f, n['c'][1], env)
            l = self.loc(f, n['c'][0], env)
            if f.nodes[strip(f, n['c'][0])]['k'] in ('Sub', 'Un'): self.ex(f, n['c'][0], env)
            if n['op'] != '=' and l is not None:
                o = env.get(l)
                if o is None: o = A(l)
                op = n['op'][:-1]
                v = add(o, v) if op == '+' else add(o, v, -1) if op == '-' else mul(o, v) if op == '*' else self.new('o')
            self.assign(f, i, l, v, env)
            return v
        if k == 'Un':
            op = n['op']
            if op in ('++', '--'):
                l = self.loc(f, c[0], env)
                o = self.ex(f, c[0], env)
                v = add(o, C(1), 1 if op == '++' else -1)
                self.assign(f, i, l, v, env)
                return o if n.get('post') else v
            if op == '-': return mul(C(-1), self.ex(f, c[0], env))
            if op == '+': return self.ex(f, c[0], env)
            if op == '&':
                l = self.loc(f, c[0], env)
                self.ex(f, c[0], env)
                return A(('addr', l)) if l else self.new('a')
            if op == '*':
                self.ex(f, c[0], env)
                l = self.loc(f, i, env)
                if l is None: return self.new('d')
                return env.get(l, A(l))
            a = self.ex(f, c[0], env)
            return A(('un', op, a))
        if k == 'Bin':
            a = self.ex(f, c[0], env); b = self.ex(f, c[1], env) if len(c) > 1 else C(0)
            op = n['op']
            if op == '+': return add(a, b)
            if op == '-': return add(a, b, -1)
            if op == '*': return mul(a, b)
            if op == ',': return b
            return A(('op', op, a, b))
        if k == 'Cond':
            g = self.ex(f, c[0], env)
            a = self.ex(f, c[1], env); b = self.ex(f, c[2], env)
            return a if a == b else A(('cond', g, a, b))
        if k == 'New':
            sz = None
            for j, y in enumerate(c):
                v = self.ex(f, y, env)
                if n.get('arr') and j == 0: sz = v
            r = self.on_new(f, i, sz, env)
            return r if r is not None else A(('new', f.id, i))
        if k == 'Delete':
            for y in c: self.ex(f, y, env)
            self.on_delete(f, i, env)
            return C(0)
        if k == 'Ctor':
            vs = [self.ex(f, y, env) for y in c]
            if len(vs) == 1: return vs[0]
            return A(('ctor', n.get('cls', ''), tuple(vs)))
        if k == 'Call': return self.call(f, i, env)
        if k == 'Lambda': return self.new('lam')
        for y in c: self.ex(f, y, env)
        return self.new('e')

    def call(self, f, i, env):
        n = f.nodes[i]; c = f.kids(i); op = n.get('op')
        if op == '=' and len(c) == 2:
            v = self.ex(f, c[1], env)
            self.assign(f, i, self.loc(f, c[0], env), v, env)
            self.on_call(f, i, env)
            return v
        vs = [self.ex(f, y, env) for y in c]
        self.on_call(f, i, env)
        if op == '[]' and len(c) == 2:
            self.on_sub(f, i, c[0], vs[1], env)
            l = self.loc(f, i, env)
            if l: return env.get(l, A(l))
        if op in ('->', '()') and len(c) == 1 and n.get('cls', '').startswith('Gyoto::SmartPointer'): return vs[0]
        # inline getters and small helpers
        t = self.p.fns.get(n.get('f')) if not (n.get('virt') and not n.get('qual') and not self.this_call(f, i)) else None
        if n.get('virt') and not n.get('qual') and self.this_call(f, i): t = self.p.fns.get(n.get('f'))
        if t is not None and t.id not in self.stack and len(self.stack) < 6 and self.inline(t):
            args = vs[1:] if n.get('mc') else vs
            th = self.obj(f, c[0], env) if n.get('mc') else self.this
            saved = self.rets
            s_this = self.this
            e2 = self.run(t, env, th, args)
            rs = self.rets; self.rets = saved; self.this = s_this
            if rs and all(r == rs[0] for r in rs): return rs[0]
            if rs: return self.new('r')
            return self.new('v')
        # pointer out-arguments become unknown
        for y in c:
            m = f.nodes[strip(f, y)]
            if m['k'] == 'Un' and m['op'] == '&':
                l = self.loc(f, m['c'][0], env)
                if l: env[l] = self.new('o')
        return A(('call', n.get('f') or n.get('q') or '?', tuple(vs)))

    def this_call(self, f, i):
        c = f.kids(i)
        return bool(c) and f.nodes[strip(f, c[0])]['k'] == 'This'

    def inline(self, t): return sum(1 for _ in t.walk()) < 40

    def assign(self, f, x, loc, v, env):
        if loc is None: return
        env[loc] = v
        # a changed variable invalidates element facts indexed through it: they keep old polynomials (values), fine
        self.on_assign(f, x, loc, v, env)
