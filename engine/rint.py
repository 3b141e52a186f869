"""Random interpretation (Gulwani and Necula, POPL 2003): value numbering of
straight-line real arithmetic.  Every real quantity is numbered by an element of
the finite field F_p (with its four partial derivatives with respect to the
coordinates), the unknowns by random ones.  Two expressions that are equal as
rational functions of the unknowns get the same number; two that are not get
different ones except with probability ~ degree/p per draw.  Nothing of the
program is executed: loops over concrete indices are unrolled, calls are inlined
(virtual ones resolved for the class at hand), comparisons between reals are
free choices, enumerated consistently, and paths that raise an error are dropped.

sin and cos of an unknown are a random rational point of the unit circle (so
sin^2+cos^2=1 and the derivative rules hold), sqrt is the root that is itself a
square (p = 3 mod 4, so 'being a square' behaves like a positive sign), cube
roots are unique (p = 2 mod 3); other functions of an unknown are fresh unknowns
memoised by argument, with their derivative rule."""
from fractions import Fraction
import random, hashlib, re, math

P = (1 << 61) - 1
# a prime = 11 mod 12 near 2^61
def _isp(n):
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        d = n - 1; s = 0
        while d % 2 == 0: d //= 2; s += 1
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
# ... such that small positive constants are squares, as positive numbers should be
while not (P % 12 == 11 and all(pow(q, (P - 1) // 2, P) == 1 for q in (2, 3, 5, 7, 11, 13)) and _isp(P)): P -= 1
ND = 4
PI = Fraction('3.141592653589793')
PI2 = PI / 2


def flit(v):
    """exact value of a floating literal; multiples of pi are made multiples of the same number"""
    if not isinstance(v, float): return Fraction(str(v))
    if v and v == v and abs(v) < 1e6:
        for d in (1, 2, 3, 4, 6, 180):
            n = round(v * d / math.pi)
            if n and (abs(n) <= 12 or d == 180 and n == 1) and abs(v - n * math.pi / d) <= 3e-16 * abs(v): return PI * n / d
        n = round(v * math.pi)
        if n and abs(n) <= 2 and abs(v - n / math.pi) <= 3e-16 * abs(v): return n / PI
    return Fraction(repr(v))


class Unsupported(Exception): pass
class Lam:
    def __init__(s, f, i, n, this, v, ty): s.f, s.i, s.n, s.this, s.v, s.ty = f, i, n, this, v, ty
class ErrPath(Exception): pass
class Redraw(Exception): pass
class Undef(Exception): pass


class D:
    __slots__ = ('v', 'd')
    def __init__(s, v, d=(0,) * ND): s.v = v % P; s.d = d
    def __eq__(s, o): return isinstance(o, D) and s.v == o.v and s.d == o.d
    def __repr__(s): return 'D(%d)' % s.v


def lift(x):
    if isinstance(x, D): return x
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return D(x)
    if isinstance(x, Fraction): return D(x.numerator * pow(x.denominator, P - 2, P))
    raise Unsupported('not a number: %r' % (x,))


def isnum(x): return isinstance(x, (int, Fraction, D))


def add(a, b, s=1):
    if not isinstance(a, D) and not isinstance(b, D): return Fraction(a) + s * Fraction(b)
    a, b = lift(a), lift(b)
    return D(a.v + s * b.v, tuple((x + s * y) % P for x, y in zip(a.d, b.d)))


def mul(a, b):
    if not isinstance(a, D) and not isinstance(b, D): return Fraction(a) * Fraction(b)
    if not isinstance(a, D) and a == 0 or not isinstance(b, D) and b == 0: return Fraction(0)
    a, b = lift(a), lift(b)
    return D(a.v * b.v, tuple((x * b.v + a.v * y) % P for x, y in zip(a.d, b.d)))


def inv(b):
    if not isinstance(b, D):
        if b == 0: raise ErrPath('division by zero')
        return 1 / Fraction(b)
    if b.v == 0: raise ErrPath('division by zero')
    i = pow(b.v, P - 2, P); i2 = -i * i
    return D(i, tuple(x * i2 % P for x in b.d))


def div(a, b): return mul(a, inv(b))
def neg(a): return mul(a, -1)
def isqr(v): return v == 0 or pow(v, (P - 1) // 2, P) == 1


def chain(x, v, dv):
    """f(x) with value v and derivative dv"""
    return D(v, tuple(y * dv % P for y in x.d))


def ipow(a, n):
    if n < 0: return ipow(inv(a), -n)
    if not isinstance(a, D): return Fraction(a) ** n
    if n == 0: return Fraction(1)
    return chain(a, pow(a.v, n, P), n * pow(a.v, n - 1, P))


def dims(t):
    t = t.replace('const ', '').replace(' const', '').strip()
    m = re.match(r'^(.*?)((?:\[\d+\])+)$', t)
    if m and '(*' not in t: return m.group(1).strip(), [int(x) for x in re.findall(r'\d+', m.group(2))]
    m = re.match(r'^(double|float|int|size_t|unsigned long)\s*\[[^\[\]]*[A-Za-z_][^\[\]]*\]$', t)
    if m: return m.group(1), [-1]         # variable length
    return t, []


def size(t):
    n = 1
    for d in dims(t)[1]: n *= d
    return n


class Block:
    __slots__ = ('c', 'fill', 'name')
    def __init__(s, name='', fill=None): s.c = {}; s.fill = fill; s.name = name
    def get(s, o):
        if o not in s.c:
            if s.fill is None: raise Undef('%s[%s] read before it is set' % (s.name, o))
            s.c[o] = s.fill(o)
        return s.c[o]


class Ptr:
    __slots__ = ('b', 'o')
    def __init__(s, b, o=0): s.b = b; s.o = o
    def __eq__(s, x): return isinstance(x, Ptr) and s.b is x.b and s.o == x.o


class Vec(Block):
    __slots__ = ('n',)
    def __init__(s, n, name='', fill=None): Block.__init__(s, name, fill); s.n = n


class Mat(Block):
    """an Eigen matrix"""
    __slots__ = ('n', 'm', 'pos')
    def __init__(s, n, m, e=None, fill=None):
        Block.__init__(s, 'matrix', fill); s.n, s.m = n, m
        if e is not None: s.c = dict(enumerate(e))
    def all(s): return [s.get(q) for q in range(s.n * s.m)]
    def dup(s):
        w = Mat(s.n, s.m, None, s.fill); w.c = dict(s.c); return w


def mshape(t):
    m = re.search(r'Matrix<double, (\d+), (\d+)', t)
    return (int(m.group(1)), int(m.group(2))) if m else None


class Obj:
    __slots__ = ('cls', 'f', 'tag')
    def __init__(s, cls, tag=''): s.cls = cls; s.f = {}; s.tag = tag
    def copy(s):
        o = Obj(s.cls, s.tag)
        for k, b in s.f.items():
            w = Block(b.name if hasattr(b, 'name') else k, b.fill); w.c = {q: v.copy() if isinstance(v, Obj) else v for q, v in b.c.items()}; o.f[k] = w
        return o


class Opaque:
    def __init__(s, w=''): s.w = w
    def __repr__(s): return '?' + s.w


class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Cont(Exception): pass


class RInt:
    anyint = None          # value of integer members nobody set

    def __init__(self, prog, seed, script=(), intrinsics=None, ints=None):
        self.p = prog; self.rng = random.Random(seed); self.seed = seed
        self.sq = {}; self.bounds = {}; self.script = list(script); self.signs = []; self.order = []; self.memo = {('t', 0): (0, 1)}
        self.intr = intrinsics or {}; self.ints = ints or {}
        self.steps = 0; self.depth = 0; self.used = set(); self.free = False

    # ---- unknowns
    def signed(self, key, qr):
        i = 0
        while True:
            v = self.rnd('%s|%d' % (key, i), False)
            if isqr(v.v) == qr: return v
            i += 1

    def rnd(self, key, qr=True):
        h = hashlib.sha256(('%s|%s' % (self.seed, key)).encode()).digest()
        r = random.Random(h)
        while True:
            v = r.randrange(2, P)
            if not qr or isqr(v): return D(v)

    def trig(self, x):
        """(sin, cos) of x, consistent under x -> -x and integer multiples of a known angle"""
        if not isinstance(x, D):
            if x == 0: return Fraction(0), Fraction(1)
            x = lift(x)
        for k in (1, -1, 2, -2):
            for q in (0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7, 8, -8):
                # x = k*known + q*pi/2
                b = mul(add(x, PI2 * q, -1), Fraction(1, k))
                if ('t', b.v) in self.memo:
                    s, c = self.memo[('t', b.v)]
                    if abs(k) == 2: s, c = 2 * s * c % P, (c * c - s * s) % P
                    if k < 0: s = -s % P
                    for _ in range(q % 4): s, c = c, -s % P
                    return chain(x, s, c), chain(x, c, -s % P)
        r = random.Random(hashlib.sha256(('%s|trig|%d' % (self.seed, x.v)).encode()).digest())
        while True:
            t = r.randrange(2, P); q = (1 + t * t) % P
            if q == 0: continue
            qi = pow(q, P - 2, P); s = 2 * t * qi % P; c = (1 - t * t) * qi % P
            if isqr(s): break
        self.memo[('t', x.v)] = (s, c)
        return chain(x, s, c), chain(x, c, -s % P)

    def atan2(self, y, x):
        y, x = lift(y), lift(x)
        h2 = add(mul(x, x), mul(y, y)); h = self.sqrt(h2)
        v = self.signed('atan2|%d|%d' % (y.v, x.v), isqr(y.v)).v; self.bounds[v] = (Fraction(0), PI) if isqr(v) else (-PI, Fraction(0))
        i = pow(h2.v, P - 2, P); hi = pow(h.v, P - 2, P)
        self.memo[('t', v)] = (y.v * hi % P, x.v * hi % P)
        return D(v, tuple((x.v * b - y.v * a) * i % P for a, b in zip(x.d, y.d)))

    def acos(self, c):
        c = lift(c); s = self.sqrt(add(1, mul(c, c), -1))
        v = self.rnd('acos|%d' % c.v).v; self.bounds[v] = (Fraction(0), PI)
        self.memo[('t', v)] = (s.v, c.v)
        return chain(c, v, -pow(s.v, P - 2, P))

    def asin(self, s):
        s = lift(s); c = self.sqrt(add(1, mul(s, s), -1))
        v = self.signed('asin|%d' % s.v, isqr(s.v)).v; self.bounds[v] = (Fraction(0), PI2) if isqr(v) else (-PI2, Fraction(0))
        self.memo[('t', v)] = (s.v, c.v)
        return chain(s, v, pow(c.v, P - 2, P))

    def atan(self, t):
        t = lift(t); c = inv(self.sqrt(add(1, mul(t, t)))); s = mul(t, c)
        v = self.signed('atan|%d' % t.v, isqr(t.v)).v; self.bounds[v] = (Fraction(0), PI2) if isqr(v) else (-PI2, Fraction(0))
        self.memo[('t', v)] = (s.v, c.v)
        return chain(t, v, c.v * c.v % P)

    def sqrt(self, x):
        if not isinstance(x, D):
            f = Fraction(x)
            if f < 0: raise ErrPath('sqrt of a negative constant')
            import math
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator: return Fraction(n, d)
            x = lift(f)
        if x.v == 0:
            if not any(x.d): return Fraction(0)
            raise Redraw('sqrt(0)')
        if x.v in self.sq:     # root of a perfect square: its absolute value
            if not isqr(self.sq[x.v].v): raise Redraw('root of the square of a negative quantity')
        if not isqr(x.v): raise Redraw('sqrt of a non-square')
        r = pow(x.v, (P + 1) // 4, P)
        if not isqr(r): r = P - r
        return chain(x, r, pow(2 * r, P - 2, P))

    def cbrt(self, x):
        x = lift(x)
        r = pow(x.v, (2 * P - 1) // 3, P)
        return chain(x, r, pow(3 * r * r, P - 2, P))

    def powr(self, a, b):
        if isinstance(b, D):
            if isinstance(a, D) or True:
                # a^b = exp(b log a): unknown memoised
                return self.fun('pow', [lift(a), b])
        b = Fraction(b)
        if b.denominator == 1:
            m = ipow(a, int(b))
            if b == 2 and isinstance(a, D): self.sq.setdefault(m.v, a)
            return m
        if b.denominator == 2: return ipow(self.sqrt(a), b.numerator)
        if b.denominator == 3: return ipow(self.cbrt(a), b.numerator)
        return self.fun('pow', [lift(a), lift(b)])

    def fun(self, name, args):
        args = [lift(a) for a in args]
        k = (name,) + tuple(a.v for a in args)
        v = self.rnd('fun|%r' % (k,)).v
        if name == 'exp':
            w = self.memo.get(('e', P - args[0].v))
            if w is not None: v = pow(w, P - 2, P)
            self.memo[('e', args[0].v)] = v
            return chain(args[0], v, v)
        if name in ('log', 'log10'):
            return chain(args[0], v, pow(args[0].v, P - 2, P))
        d = [0] * ND
        for j, a in enumerate(args):
            pj = self.rnd('dfun|%d|%r' % (j, k), False).v
            for i in range(ND): d[i] = (d[i] + pj * a.d[i]) % P
        return D(v, tuple(d))

    # ---- comparisons between reals.  'Positive' means being a square, so that
    # products and roots of positive numbers are positive; thresholds other than
    # zero are free choices, consistent for each quantity.
    def less(self, a, b):
        if not isinstance(a, D) and not isinstance(b, D): return Fraction(a) < Fraction(b)
        x = add(lift(b), a, -1).v            # a < b iff b - a > 0
        if x == 0: return False
        if isinstance(a, D) and isinstance(b, D):
            r = isqr(x); self.signs.append(r); return r
        q, k, lt = (a, Fraction(b), True) if isinstance(a, D) else (b, Fraction(a), False)   # q < k / k < q
        if q.v == 0: return 0 < k if lt else k < 0
        if q.v not in self.bounds:     # known up to a multiple of pi
            for j in sorted((Fraction(z, 2) for z in range(-8, 9) if z), key=abs):
                w = add(q, PI * j, -1).v
                if w in self.bounds:
                    lo, hi = self.bounds[w]
                    if lo is None and hi is None: continue
                    self.bounds[q.v] = (None if lo is None else lo + PI * j, None if hi is None else hi + PI * j); break
        if k == 0:
            lo, hi = self.bounds.get(q.v, (None, None))
            if hi is not None and hi <= 0: return lt
            if lo is not None and lo >= 0: return not lt
            if q.v not in self.bounds: self.bounds[q.v] = (Fraction(0), None) if isqr(q.v) else (None, Fraction(0))
            elif (lo is not None and lo < 0) and (hi is None or hi > 0) or hi is not None and hi > 0:
                n = len(self.order); below = (self.script[n] if n < len(self.script) else True) == lt
                self.order.append(below == lt); self.bounds[q.v] = (lo, Fraction(0)) if below else (Fraction(0), hi)
                return below == lt
            r = isqr(q.v) != lt; self.signs.append(r); return r
        if q.v not in self.bounds:
            m = P - q.v
            if m in self.bounds: lo, hi = self.bounds[m]; self.bounds[q.v] = (None if hi is None else -hi, None if lo is None else -lo)
            else: self.bounds[q.v] = (Fraction(0), None) if isqr(q.v) else (None, Fraction(0))
        lo, hi = self.bounds[q.v]
        if hi is not None and hi <= k: return lt
        if lo is not None and lo >= k: return not lt
        n = len(self.order)
        below = (self.script[n] if n < len(self.script) else True) == lt
        self.order.append(below == lt)
        self.bounds[q.v] = (lo, k) if below else (k, hi)
        return below == lt

    def pick(self, key):
        """a free choice, the same each time it is met"""
        k = ('pick',) + key
        if k not in self.memo:
            n = len(self.order)
            self.memo[k] = self.script[n] if n < len(self.script) else False
            self.order.append(self.memo[k])
        return self.memo[k]

    def equal(self, a, b):
        if not isinstance(a, D) and not isinstance(b, D): return a == b
        return lift(a).v == lift(b).v

    # ---- interpretation
    def call(self, fid, this, args, cls=None):
        f = self.p.fns.get(fid)
        if f is None: raise Unsupported('no body: ' + fid)
        if f.id in self.intr: return self.intr[f.id](self, this, args)
        self.used.add(f.id)
        self.depth += 1
        if self.depth > 40: raise Unsupported('recursion in ' + f.q)
        fr = {'f': f, 'this': this, 'v': {}, 'ty': {}}
        for pm, a in zip(f.d['params'], args):
            b = Block(pm['d']); b.c[0] = a; fr['v'][pm['d']] = b; fr['ty'][pm['d']] = pm.get('t', '')
            if pm.get('t', '').rstrip().endswith('&') and isinstance(a, Ptr): fr['v'][pm['d']] = a   # reference: alias
        try:
            self.st(fr, f.body()); r = None
        except Ret as e: r = e.v
        finally: self.depth -= 1
        return r

    def calllam(self, lam, fr, av):
        n = lam.n
        self.depth += 1
        if self.depth > 40: raise Unsupported('recursion in a lambda')
        nf = {'f': lam.f, 'this': lam.this, 'v': lam.v, 'ty': lam.ty}
        new = {}
        for d, t, x in zip(n['params'], n['pt'], av):
            b = Block(d)
            l = self.lv(fr, x) if t.rstrip().endswith('&') else None
            if l: new[d] = Ptr(*l)
            else: b.c[0] = self.conv(self.ev(fr, x), t); new[d] = b
        nf['v'] = dict(lam.v); nf['v'].update(new)
        try:
            self.st(nf, n['c'][0]); r = None
        except Ret as e: r = e.v
        finally: self.depth -= 1
        return r

    def callval(self, fn, args):
        """call a lambda or function on values"""
        if isinstance(fn, tuple) and fn[0] == 'fn':
            if fn[1] in self.p.fns: return self.call(fn[1], None, args)
            return self.ext(fn[1].split('(')[0].split('::')[-1], args)
        if not isinstance(fn, Lam): raise Unsupported('callable')
        nf = {'f': fn.f, 'this': fn.this, 'v': dict(fn.v), 'ty': fn.ty}
        for d, t, a in zip(fn.n['params'], fn.n['pt'], args):
            b = Block(d); b.c[0] = a[0].get(a[1]) if isinstance(a, tuple) else a
            nf['v'][d] = Ptr(*a) if isinstance(a, tuple) and t.rstrip().endswith('&') else b
        try: self.st(nf, fn.n['c'][0])
        except Ret as e: return e.v

    def st(self, fr, i):
        if i is None or i < 0: return
        f = fr['f']; n = f.nodes[i]; k = n['k']; c = n.get('c', ())
        self.steps += 1
        if self.steps > 3000000: raise Unsupported('too long')
        if k == 'Block':
            for x in c: self.st(fr, x)
        elif k == 'Decl':
            for x in c: self.st(fr, x)
        elif k == 'Var':
            t = n.get('t', '')
            b = Block(n['d']); fr['v'][n['d']] = b; fr['ty'][n['d']] = t
            if c and c[0] >= 0:
                x = c[0]
                if f.nodes[x]['k'] == 'IList' and not dims(t)[1] and '<' in t:
                    m = re.match(r'^(?:const )?(?:std::)?array<(?:const )?double, (\d+)', t)
                    if not m: raise Unsupported('initialiser of ' + t)
                    el = [x]
                    while len(el) == 1 and f.nodes[el[0]]['k'] == 'IList': el = f.kids(el[0])
                    w = Vec(int(m.group(1))); w.c = {q: Fraction(0) for q in range(w.n)}
                    for q, y in enumerate(el): w.c[q] = self.ev(fr, y)
                    b.c[0] = w
                elif f.nodes[x]['k'] == 'IList':
                    if not dims(t)[1]: b.c[0] = self.ev(fr, f.kids(x)[0]) if f.kids(x) else Fraction(0)
                    else: self.ilist(fr, x, b, 0, t)
                elif t.rstrip().endswith('&'):
                    l = self.lv(fr, x); fr['v'][n['d']] = Ptr(*l) if l else b
                    if not l: b.c[0] = self.ev(fr, x)
                else:
                    b.c[0] = self.conv(self.ev(fr, x), t)
        elif k == 'If':
            if n.get('cond', -1) >= 0 and self.truth(self.ev(fr, n['cond'])): self.st(fr, n.get('then', -1))
            else: self.st(fr, n.get('else', -1))
        elif k == 'For':
            self.st(fr, n.get('init', -1)); m = 0
            while n.get('cond', -1) < 0 or self.truth(self.ev(fr, n['cond'])):
                try: self.st(fr, n['body'])
                except Brk: break
                except Cont: pass
                if n.get('inc', -1) >= 0: self.ev(fr, n['inc'])
                m += 1
                if m > 2000: raise Unsupported('unbounded loop')
        elif k == 'ForRange': self.forrange(fr, n)
        elif k in ('While', 'Do'):
            m = 0
            while True:
                if (k == 'While' or m) and not self.truth(self.ev(fr, n['cond'])): break
                try: self.st(fr, n['body'])
                except Brk: break
                except Cont: pass
                m += 1
                if m > 300: raise Unsupported('unbounded loop')
        elif k == 'Switch':
            v = self.ev(fr, n['cond'])
            if not isinstance(v, int): raise Unsupported('switch on unknown')
            body = f.nodes[n['body']]
            flat = []
            def fl(x):
                m = f.nodes[x]
                if m['k'] == 'Case':
                    flat.append(('case', m['v'])); [fl(y) for y in m['c'][1:]]
                elif m['k'] == 'Default': flat.append(('default', None)); [fl(y) for y in m['c']]
                else: flat.append(('s', x))
            for x in f.kids(n['body']) if body['k'] == 'Block' else [n['body']]: fl(x)
            s = [j for j, (a, b) in enumerate(flat) if a == 'case' and b == v] or [j for j, (a, b) in enumerate(flat) if a == 'default']
            if s:
                try:
                    for a, b in flat[s[0]:]:
                        if a == 's': self.st(fr, b)
                except Brk: pass
        elif k == 'Return':
            raise Ret(self.ev(fr, c[0]) if c and c[0] >= 0 else None)
        elif k == 'Break': raise Brk()
        elif k == 'Continue': raise Cont()
        elif k == 'Null': pass
        elif k == 'Throw': raise ErrPath('throw')
        elif k == 'Try':
            self.st(fr, c[0])
        else: self.ev(fr, i)

    def forrange(self, fr, n):
        f = fr['f']; rng = var = es = None
        for x in n['c']:
            m = f.nodes[x] if x >= 0 else None
            if m and m['k'] == 'Decl' and f.kids(x):
                v = f.kids(x)[0]; vn = f.nodes[v]
                if '__range' in vn.get('d', ''): rng = f.kids(v)[0]
                elif '__begin' not in vn.get('d', '') and '__end' not in vn.get('d', ''): var = (v, vn)
        if rng is None or var is None: raise Unsupported('range-for')
        il = rng
        while f.nodes[il]['k'] in ('Cast', 'Paren', 'Ctor', 'Other', 'StdInit') and len(f.kids(il)) == 1: il = f.kids(il)[0]
        if f.nodes[il]['k'] == 'IList':
            b = Block('list')
            for j, y in enumerate(f.kids(il)): b.c[j] = self.ev(fr, y)
            cnt = len(f.kids(il)); o = 0
        else: b = self.ev(fr, rng); cnt = None
        if isinstance(b, Vec): cnt = b.n; o = 0
        elif isinstance(b, Ptr):
            bt, ds = dims(f.nodes[rng].get('t', '').replace('&', '').strip())
            if ds and ds[0] >= 0:
                cnt = ds[0]; b, o = b.b, b.o
                if len(ds) > 1:
                    es = size(bt + ''.join('[%d]' % d for d in ds[1:]))
                    if not var[1].get('t', '').rstrip().endswith('&') and '(&' not in var[1].get('t', ''): raise Unsupported('range-for')
        if cnt is None: raise Unsupported('range-for')
        for j in range(cnt):
            if es: fr['v'][var[1]['d']] = Ptr(b, o + j * es)
            elif var[1].get('t', '').rstrip().endswith('&'): fr['v'][var[1]['d']] = Ptr(b, o + j)
            else:
                w = Block(var[1]['d']); w.c[0] = b.get(o + j); fr['v'][var[1]['d']] = w
            try: self.st(fr, n['body'])
            except Brk: break
            except Cont: pass

    def ilist(self, fr, x, b, off, t):
        base, ds = dims(t)
        sub = base + ''.join('[%d]' % d for d in ds[1:])
        es = size(sub)
        f = fr['f']; ks = f.kids(x)
        for j in range(ds[0]):
            if j < len(ks):
                if f.nodes[ks[j]]['k'] == 'IList' and len(ds) > 1: self.ilist(fr, ks[j], b, off + j * es, sub)
                elif len(ds) > 1: raise Unsupported('initialiser')
                else: b.c[off + j] = self.ev(fr, ks[j])
            else:
                for q in range(es): b.c[off + j * es + q] = Fraction(0)

    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, D): return v.v != 0
        if isinstance(v, (Ptr, Obj, Vec)) or isinstance(v, str) and v[:1] == '\0': return True
        if v is None: return False
        raise Unsupported('branch on %r' % (v,))

    def conv(self, v, t):
        b = t.replace('const ', '').strip()
        if b in ('int', 'long', 'unsigned long', 'size_t', 'unsigned int'):
            if isinstance(v, Fraction): return int(v)
            if isinstance(v, bool): return int(v)
            if isinstance(v, D): raise Unsupported('real to integer')
        elif b in ('double', 'float'):
            if isinstance(v, (bool, int)): return Fraction(int(v))
        elif b == 'bool' and isnum(v): return self.truth(v)
        return v

    def fld(self, o, n, t):
        """(block, offset) of field n of object o"""
        if not isinstance(o, Obj): raise Unsupported('field %s of %r' % (n, o))
        if n not in o.f:
            tag = o.tag + '.' + n
            base, ds = dims(t)
            if base in ('double', 'float'): b = Block(tag, lambda q, tag=tag: self.rnd('%s[%s]' % (tag, q)))
            elif base in ('double *', 'double *const'):
                inner = Block(tag + '*', lambda q, tag=tag: self.rnd('%s[%s]' % (tag, q)))
                b = Block(tag); b.c[0] = Ptr(inner)
            elif base == 'bool' or base in ('int', 'long', 'unsigned long', 'size_t', 'unsigned int') or base.startswith('enum') or 'CoordKind' in base:
                b = Block(tag)
                key = n.split('::')[-1]
                if key in self.ints: b.c[0] = self.ints[key]
                elif self.free and base == 'bool': b.c[0] = self.pick(('bool', tag))
                elif base != 'bool' and self.anyint is not None: b.c[0] = self.anyint
            else: b = Block(tag, lambda q, tag=tag: Opaque(tag))
            o.f[n] = b
        return o.f[n], 0

    def lv(self, fr, i):
        f = fr['f']; n = f.nodes[i]; k = n['k']; c = f.kids(i)
        if k == 'Ref' and n['dk'] in ('local', 'param', 'static', 'global') or k == 'Ref' and n['d'] in fr['v']:
            b = fr['v'].get(n['d'])
            if b is None: return None
            if isinstance(b, Ptr): return b.b, b.o
            return b, 0
        if k == 'Mem' and n.get('dk') != 'func':
            o = self.ev(fr, c[0]) if c else fr['this']
            if isinstance(o, Opaque): return None
            return self.fld(o, n['d'], n.get('t', ''))
        if k == 'Sub':
            b = self.ev(fr, c[0]); j = self.ev(fr, c[1])
            if isinstance(b, int) and isinstance(j, Ptr): b, j = j, b
            if isinstance(b, int) and b == 0: raise Undef('%s: null pointer %s is used' % (f.loc(i), f.text(c[0])))
            if not isinstance(b, Ptr): raise Unsupported('subscript of %r in %s' % (b, f.q))
            if isinstance(j, Fraction) and j.denominator == 1: j = int(j)
            if not isinstance(j, int): raise Unsupported('unknown index')
            return b.b, b.o + int(j) * size(n.get('t', ''))
        if k == 'Un' and n['op'] == '*':
            b = self.ev(fr, c[0])
            if isinstance(b, Ptr): return b.b, b.o
            if isinstance(b, int) and b == 0: raise Undef('%s: null pointer %s is used' % (f.loc(i), f.text(c[0])))
            raise Unsupported('dereference of %r' % (b,))
        if k == 'Un' and n['op'] in ('++', '--'):
            self.ev(fr, i)
            return self.lv(fr, c[0])
        if k == 'Asg':
            self.ev(fr, i); return self.lv(fr, c[0])
        if k in ('Cast', 'Paren') and c: return self.lv(fr, c[0])
        if k == 'Call' and 'Eigen::' in str(n.get('f')) and n.get('op') in ('()', '[]'):
            b = self.ev(fr, c[0]); j = [self.ev(fr, x) for x in c[1:]]
            if not isinstance(b, Mat) or not all(isinstance(x, int) for x in j): raise Unsupported('matrix element')
            q = j[0] * b.m + j[1] if len(j) == 2 else j[0]
            if not 0 <= q < b.n * b.m: raise Undef('element %s of a matrix' % j)
            return b, q
        if k == 'Call' and n.get('op') == '[]' and n.get('mc') or k == 'Call' and n.get('n') == 'at' and n.get('mc'):
            b = self.ev(fr, c[0]); j = self.ev(fr, c[1])
            if isinstance(b, Vec) and isinstance(j, int):
                if not 0 <= j < b.n: raise Undef('index %d of a vector of size %d' % (j, b.n))
                return b, j
            if isinstance(b, Ptr) and isinstance(j, int): return b.b, b.o + j
            raise Unsupported('operator[]')
        if k == 'Call' and n.get('f') in self.p.fns and n.get('t', '').rstrip().endswith('&'):
            return None
        return None

    def store(self, l, v):
        l[0].c[l[1]] = v

    def ev(self, fr, i):
        f = fr['f']; n = f.nodes[i]; k = n['k']; c = f.kids(i)
        self.steps += 1
        t = n.get('t', '')
        if k == 'Lit':
            v = n.get('v')
            if t == 'bool': return str(v).lower() in ('1', 'true')
            if dims(t)[0] in ('double', 'float', 'long double'): return flit(v)
            if isinstance(v, str):
                try: return int(v)
                except ValueError: return v
            return v
        if k == 'Str': return n.get('s', '')
        if k == 'This': return fr['this']
        if k == 'Ref':
            if n['dk'] == 'enum': return n.get('v', Opaque(n['d']))
            if n['dk'] == 'func': return ('fn', n['d'])
            b = self.lv(fr, i)
            if b is None:
                if 'v' in n and n['v'] is not None:
                    return flit(n['v']) if isinstance(n['v'], float) else n['v']
                if n['dk'] in ('var', 'global', 'static', 'svar') and ('char *' in t or t.endswith('kind_t')): return '\0' + n['d']      # a constant name
                return Opaque(n['d'])
            if dims(t)[1]: return Ptr(*b)
            return b[0].get(b[1])
        if k in ('Mem', 'Sub') or k == 'Un' and n['op'] == '*':
            if k == 'Mem' and n.get('dk') == 'func': return Opaque('method')
            if k == 'Un':
                o = self.ev(fr, c[0])
                if isinstance(o, (Obj, Opaque)): return o
                if isinstance(o, Ptr): return Ptr(o.b, o.o) if dims(t)[1] else o.b.get(o.o)
                if isinstance(o, int) and o == 0: raise Undef('%s: null pointer %s is used' % (f.loc(i), f.text(c[0])))
                raise Unsupported('dereference of %r' % (o,))
            l = self.lv(fr, i)
            if l is None: return Opaque(n.get('n', ''))
            if dims(t)[1]: return Ptr(*l)
            return l[0].get(l[1])
        if k == 'Cast':
            v = self.ev(fr, c[0])
            return self.conv(v, t)
        if k == 'Paren': return self.ev(fr, c[0])
        if k == 'Cond':
            q = [x for x in n['c']]
            return self.conv(self.ev(fr, q[1]) if self.truth(self.ev(fr, q[0])) else self.ev(fr, q[2]), t)
        if k == 'Asg':
            op = n['op']
            if op == '=':
                v = self.ev(fr, c[1]); l = self.lv(fr, c[0])
                if l is None: return v
                v = self.conv(v, t); self.store(l, v); return v
            l = self.lv(fr, c[0])
            if l is None: return Opaque('asg')
            a = l[0].get(l[1]); b = self.ev(fr, c[1])
            v = self.conv(self.bin(fr, op[:-1], a, b, t), t)
            self.store(l, v); return v
        if k == 'Un':
            op = n['op']
            if op == '&':
                l = self.lv(fr, c[0])
                if l: return Ptr(*l)
                return self.ev(fr, c[0])
            if op in ('++', '--'):
                l = self.lv(fr, c[0]); a = l[0].get(l[1])
                d = 1 if op == '++' else -1
                if isinstance(a, Ptr): b = Ptr(a.b, a.o + d * size(self.pointee(f.nodes[c[0]].get('t', ''))))
                else: b = a + d if not isinstance(a, D) else add(a, d)
                self.store(l, b); return a if n.get('post') else b
            v = self.ev(fr, c[0])
            if op == '!': return not self.truth(v)
            if op == '-': return -v if isinstance(v, (int, Fraction)) else neg(v) if isnum(v) else v
            if op == '+': return v
            if op == '~' and isinstance(v, int): return ~v
            raise Unsupported('unary ' + op)
        if k == 'Bin':
            op = n['op']
            if op == ',':
                self.ev(fr, c[0]); return self.ev(fr, c[1])
            if op == '&&':
                return self.truth(self.ev(fr, c[0])) and self.truth(self.ev(fr, c[1]))
            if op == '||':
                return self.truth(self.ev(fr, c[0])) or self.truth(self.ev(fr, c[1]))
            a = self.ev(fr, c[0]); b = self.ev(fr, c[1])
            return self.bin(fr, op, a, b, t, f.nodes[c[0]].get('t', ''), f.nodes[c[1]].get('t', ''))
        if k == 'Call': return self.ecall(fr, i, n, c, t)
        if k == 'Ctor' and n.get('cls', '').startswith('boost::multiprecision::'):
            v = self.ev(fr, c[0]) if c else Fraction(0)
            return Fraction(v) if isinstance(v, int) else v
        if k == 'Ctor' and n.get('cls', '').startswith('Eigen::'):
            sh = mshape(n['cls'])
            if not sh: raise Unsupported('Eigen object ' + n['cls'][:60])
            a = [self.ev(fr, x) for x in c if f.nodes[x]['k'] != 'DefArg']
            if not a: return Mat(*sh)
            if len(a) == 1 and isinstance(a[0], Mat): return a[0].dup()
            if len(a) == sh[0] * sh[1] and all(isnum(x) for x in a): return Mat(sh[0], sh[1], a)
            raise Unsupported('Eigen constructor')
        if k == 'Ctor':
            if n.get('cls', '').startswith('std::vector<double') or n.get('cls', '').startswith('std::array<double'):
                a = [self.ev(fr, x) for x in c if f.nodes[x]['k'] != 'DefArg']
                if len(a) == 1 and isinstance(a[0], Vec): w = Vec(a[0].n); w.c = dict(a[0].c); return w
                if a and isinstance(a[0], int):
                    w = Vec(a[0]); w.c = {q: (a[1] if len(a) > 1 else Fraction(0)) for q in range(a[0])}; return w
                if not a: return Vec(0)
                raise Unsupported('vector constructor')
            cl = n.get('cls', '')
            if cl in self.p.classes and not cl.startswith('Gyoto::'):
                if (n.get('copy') or n.get('move')) and c:
                    v = self.ev(fr, c[0])
                    if isinstance(v, Obj): return v.copy()
                    return v
                self.nobj = getattr(self, 'nobj', 0) + 1
                o = Obj(cl, '%s#%d' % (cl, self.nobj))
                g = self.p.fns.get(n.get('f'))
                if g is not None:
                    nf = {'f': g, 'this': o, 'v': {}, 'ty': {}}
                    for pm, x in zip(g.d['params'], c):
                        ty = pm.get('t', ''); b = Block(pm['d']); nf['ty'][pm['d']] = ty
                        l = self.lv(fr, x) if ty.rstrip().endswith('&') and not ty.startswith('const') else None
                        if l: nf['v'][pm['d']] = Ptr(*l)
                        else: b.c[0] = self.conv(self.ev(fr, x), ty); nf['v'][pm['d']] = b
                    ft = {q['n']: q['t'] for q in self.p.classes[cl].get('fields', ())}
                    for it in g.d.get('inits', ()):
                        if 'field' not in it: raise Unsupported('constructor of ' + cl)
                        x = it.get('e', it.get('init', -1)); bt = ft.get(it['field'], '')
                        b = Block(cl + '::' + it['field'])
                        if x >= 0 and g.nodes[x]['k'] == 'IList' and dims(bt)[1]: self.ilist(nf, x, b, 0, bt)
                        elif x >= 0 and bt.rstrip().endswith('&'): raise Unsupported('reference member')
                        elif x >= 0: b.c[0] = self.conv(self.ev(nf, x), bt)
                        o.f[cl + '::' + it['field']] = b
                    try: self.st(nf, g.body())
                    except Ret: pass
                elif c: raise Unsupported('constructor of ' + cl)
                return o
            return self.ev(fr, c[0]) if len(c) >= 1 and ('basic_string' in n.get('cls', '') or len(c) == 1) else Opaque(n.get('cls', ''))
        if k == 'New' and n.get('arr') and c:
            m = self.ev(fr, c[0])
            if isinstance(m, int):
                sh = mshape(n.get('at', '') or t)
                return Ptr(Block('new %s[%d]' % (n.get('at', ''), m), (lambda q, sh=sh: Mat(*sh)) if sh else None))
        if k == 'Lambda':
            v = dict(fr['v'])
            for q in n.get('caps', ()):
                if 'init' in q:
                    b = Block(q['d']); b.c[0] = self.ev(fr, q['init']); v[q['d']] = b
                elif not q['ref'] and q['d'] in v:
                    l = v[q['d']]; b0, o0 = (l.b, l.o) if isinstance(l, Ptr) else (l, 0)
                    if isinstance(b0, Vec): w = Vec(b0.n); w.c = dict(b0.c)
                    else:
                        w = Block(q['d'], b0.fill and (lambda j, b0=b0, o0=o0: b0.get(o0 + j))); w.c = {j - o0: x for j, x in b0.c.items()}
                        if isinstance(w.c.get(0), Vec): u = Vec(w.c[0].n); u.c = dict(w.c[0].c); w.c[0] = u
                    v[q['d']] = w
            return Lam(f, i, n, fr['this'], v, fr['ty'])
        if k in ('DefArg', 'Other', 'Sizeof', 'New', 'Delete', 'Null'):
            if n.get('v') is not None and isinstance(n['v'], (int, float)): return n['v']
            if k == 'DefArg' and c: return self.ev(fr, c[0])
            return Opaque(k)
        if n.get('v') is not None: return n['v']
        if k == 'IList' and not c: return Fraction(0)
        raise Unsupported('node %s in %s' % (k, f.q))

    def pointee(self, t):
        t = t.replace('const ', '').strip()
        if t.endswith('const'): t = t[:-5].strip()
        m = re.match(r'^(.*?)\s*\(\*\s*(?:const)?\)((?:\[\d+\])+)$', t)
        if m: return m.group(1) + m.group(2)
        if t.endswith('*'): return t[:-1].strip()
        b, ds = dims(t)
        if ds: return b + ''.join('[%d]' % d for d in ds[1:])
        return t

    def bin(self, fr, op, a, b, t, ta='', tb=''):
        if isinstance(a, Ptr) and isinstance(b, int) and op in '+-':
            return Ptr(a.b, a.o + (b if op == '+' else -b) * size(self.pointee(ta)))
        if isinstance(b, Ptr) and isinstance(a, int) and op == '+': return Ptr(b.b, b.o + a * size(self.pointee(tb)))
        if isinstance(a, (Ptr, Obj, type(None))) or isinstance(b, (Ptr, Obj, type(None))):
            if op in ('==', '!='):
                same = (a is b) or a == b
                if isinstance(a, int) or isinstance(b, int): same = False
                return same == (op == '==')
            raise Unsupported('pointer arithmetic')
        if isinstance(a, str) or isinstance(b, str):
            if op == '==': return a == b
            if op == '!=': return a != b
            return Opaque('str')
        if not isnum(a) or not isnum(b): 
            if op in ('+', '-', '*', '/', '<<'): return Opaque('op')
            raise Unsupported('%r %s %r' % (a, op, b))
        if op == '<': return self.less(a, b)
        if op == '>': return self.less(b, a)
        if op == '<=': return self.equal(a, b) or self.less(a, b)
        if op == '>=': return self.equal(a, b) or self.less(b, a)
        if op == '==': return self.equal(a, b)
        if op == '!=': return not self.equal(a, b)
        a_, b_ = (int(a) if isinstance(a, bool) else a), (int(b) if isinstance(b, bool) else b)
        if isinstance(a_, int) and isinstance(b_, int):
            if op == '+': return a_ + b_
            if op == '-': return a_ - b_
            if op == '*': return a_ * b_
            if op == '/':
                if b_ == 0: raise ErrPath('0')
                q = abs(a_) // abs(b_); return q if (a_ < 0) == (b_ < 0) else -q
            if op == '%': return a_ - b_ * int(Fraction(a_, b_))
            if op == '&': return a_ & b_
            if op == '|': return a_ | b_
            if op == '^': return a_ ^ b_
            if op == '<<': return a_ << b_
            if op == '>>': return a_ >> b_
        if op == '+': return add(a_, b_)
        if op == '-': return add(a_, b_, -1)
        if op == '*':
            m = mul(a_, b_)
            if isinstance(a_, D) and isinstance(b_, D) and a_.v == b_.v: self.sq.setdefault(m.v, a_)
            return m
        if op == '/': return div(a_, b_)
        raise Unsupported('operator ' + op)

    def ecall(self, fr, i, n, c, t):
        f = fr['f']; nm = n.get('n'); fid = n.get('f')
        if str(fid).startswith('Eigen::') or 'Eigen::' in str(n.get('cls', '')): return self.eigen(fr, i, n, c, t)
        if str(fid).startswith('boost::multiprecision::'):     # extended precision is the same real arithmetic
            op = n.get('op')
            if op and op.endswith('=') and op not in ('==', '!=', '<=', '>=') and len(c) == 2:
                v = self.ev(fr, c[1]); l = self.lv(fr, c[0])
                if op != '=': v = self.bin(fr, op[:-1], l[0].get(l[1]), v, 'double')
                self.store(l, v); return v
            a = [self.ev(fr, x) for x in c]
            if op and len(a) == 2: return self.bin(fr, op, a[0], a[1], 'double')
            if op in ('-', '+') and len(a) == 1: return neg(a[0]) if op == '-' else a[0]
            if nm in ('convert_to',) or (nm or '').startswith('operator ') or nm == 'static_cast': return a[0]
            return self.ext(nm, a)
        if n.get('op') == '->' or (n.get('op') == '*' and len(c) == 1) or n.get('op') == '()' and len(c) == 1 and 'SmartPointer<' in f.nodes[c[0]].get('t', ''):
            v = self.ev(fr, c[0])
            if n.get('op') != '()' and isinstance(v, int) and v == 0: raise Undef('%s: null pointer %s is used' % (f.loc(i), f.text(c[0])))
            return v
        if n.get('mc') and c and 'SmartPointer<' in f.nodes[c[0]].get('t', '') and (nm or '').startswith('operator '):
            return self.ev(fr, c[0])
        if (n.get('op') == '=' or nm == 'operator=') and len(c) == 2 and 'SmartPointer<' in f.nodes[c[0]].get('t', ''):
            v = self.ev(fr, c[1]); self.store(self.lv(fr, c[0]), v); return v
        if n.get('op') in ('<<',) or nm in ('operator<<', 'setprecision'): return Opaque('stream')
        if f.prog.call_never_returns(f, i): raise ErrPath(f.loc(i))
        if nm == 'debug': return False
        if nm == 'verbose': return 0
        if n.get('mc'):
            o = self.ev(fr, c[0]) if c else fr['this']
            av = c[1:]
            if isinstance(o, Obj) and (n.get('op') == '=' or nm == 'operator=') and fid not in self.p.fns and av:
                v = self.ev(fr, av[0])
                if not isinstance(v, Obj): raise Unsupported('assignment of an object')
                o.f = v.copy().f; return o
            if isinstance(o, Lam):
                if nm == 'operator()' or n.get('op') == '()': return self.calllam(o, fr, av)
                raise Unsupported('lambda ' + str(nm))
            if n.get('op') == '[]' or nm == 'at':
                l = self.lv(fr, i); return l[0].get(l[1])
            if isinstance(o, Vec):
                if nm == 'size': return o.n
                if nm in ('data', 'begin', 'cbegin'): return Ptr(o)
                if nm in ('end', 'cend'): return Ptr(o, o.n)
                if nm in ('fill', 'assign') and len(av) in (1, 2):
                    a = [self.ev(fr, x) for x in av]
                    if len(a) == 2:
                        if not isinstance(a[0], int): raise Unsupported('assign')
                        o.n = a[0]
                    for q in range(o.n): o.c[q] = a[-1]
                    return None
                if nm in ('front', 'back') and o.n: return o.get(0 if nm == 'front' else o.n - 1)
                if nm == 'empty': return o.n == 0
                if nm == 'resize' and len(av) >= 1:
                    m = self.ev(fr, av[0]); 
                    if not isinstance(m, int): raise Unsupported('resize')
                    for q in range(o.n, m): o.c[q] = Fraction(0)
                    o.n = m; return None
                w = self.ev(fr, av[0]) if nm == 'operator=' else None
                if isinstance(w, Vec):
                    o.n = w.n; o.c = dict(w.c); return o
                raise Unsupported('vector ' + str(nm))
        else: o = None; av = c
        target = fid
        if n.get('mc') and isinstance(o, Obj) and fid in self.p.fns or (n.get('mc') and isinstance(o, Obj)):
            if fid in self.intr: target = fid
            if not n.get('qual'):
                r = self.p.resolve(o.cls, fid)
                if r: target = getattr(r, 'id', r)
        if n.get('mc') and isinstance(o, Obj) and o.cls is None:
            args = [self.ev(fr, x) for x in av]
            if ('obj', nm) in self.intr: return self.intr[('obj', nm)](self, o, args)
            if ('obj', '*') in self.intr: return self.conv(self.intr[('obj', '*')](self, o, args, nm, t), t)
            raise Unsupported('%s of an abstract object' % nm)
        if target in self.intr or target in self.p.fns:
            pt = []
            g = self.p.fns.get(target)
            args = []
            for j, x in enumerate(av):
                ty = g.d['params'][j].get('t', '') if g and j < len(g.d['params']) else ''
                if ty.rstrip().endswith('&') and not ty.startswith('const'):
                    l = self.lv(fr, x); args.append(Ptr(*l) if l else self.ev(fr, x))
                else: args.append(self.conv(self.ev(fr, x), ty))
            return self.conv(self.call(target, o, args), t) if target in self.p.fns else self.intr[target](self, o, args)
        if n.get('mc'): 
            for x in av:
                v = self.ev(fr, x)
                if isinstance(v, (Lam, Vec)) or isinstance(v, Ptr) and self.mutptr(f.nodes[x].get('t', '')):
                    raise Unsupported('call of %s in %s' % (nm, f.q))
            return Opaque(nm or '')
        if nm in ('sincos',):
            a = [self.ev(fr, x) for x in av]; s, co = self.trig(a[0])
            self.store((a[1].b, a[1].o), s); self.store((a[2].b, a[2].o), co); return None
        if nm in ('operator==', 'operator!='):
            a, b = self.ev(fr, av[0]), self.ev(fr, av[1])
            if isinstance(a, str) and isinstance(b, str): return (a == b) == (nm == 'operator==')
            if self.free and isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)):
                if isinstance(a, str): a, b = b, a
                return self.pick(('str', a.w if isinstance(a, Opaque) else '', str(b))) == (nm == 'operator==')
            raise Unsupported('comparison of objects')
        if nm == 'operator+': return Opaque('str')
        if nm in ('memcpy', '__builtin_memcpy'):
            a, b = self.ev(fr, av[0]), self.ev(fr, av[1]); m = self.ev(fr, av[2])
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(m, int)): raise Unsupported('memcpy')
            for q in range(m // 8):
                if b.o + q in b.b.c or b.b.fill: a.b.c[a.o + q] = b.b.get(b.o + q)
            return a
        if nm in ('swap', 'std::swap') and len(av) == 2:
            a, b = self.lv(fr, av[0]), self.lv(fr, av[1])
            if not a or not b or dims(f.nodes[av[0]].get('t', ''))[1]: raise Unsupported('swap')
            x, y = a[0].get(a[1]), b[0].get(b[1]); self.store(a, y); self.store(b, x); return None
        a = [self.ev(fr, x) for x in av]
        r = self.alg((nm or '').replace('std::', '').replace('__builtin_', ''), a)
        if r is not NotImplemented: return r
        for x, v in zip(av, a):
            if isinstance(v, (Lam, Vec)) or isinstance(v, Ptr) and self.mutptr(f.nodes[x].get('t', '')):
                raise Unsupported('call of %s in %s' % (nm, f.q))
        return self.ext(nm, a)

    def eigen(self, fr, i, n, c, t):
        f = fr['f']; nm = n.get('n'); op = n.get('op')
        if op in ('()', '[]') and c:
            l = self.lv(fr, i); return l[0].get(l[1])
        if op in ('=', '+=', '-=', '*=', '/=') or nm in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
            op = op or nm[8:]
            l = self.lv(fr, c[0]); v = self.ev(fr, c[1])
            if l is None: raise Unsupported('matrix assignment')
            if op != '=': v = self.mop(op[0], l[0].get(l[1]), v)
            if not isinstance(v, Mat): raise Unsupported('matrix assignment')
            v = v.dup(); self.store(l, v); return v
        if nm in ('Zero', 'Identity', 'Ones'):
            sh = mshape(n.get('cls', '') + str(n.get('f')) + t)
            if not sh: raise Unsupported(nm)
            return Mat(sh[0], sh[1], [Fraction(int(nm == 'Ones' or nm == 'Identity' and q // sh[1] == q % sh[1])) for q in range(sh[0] * sh[1])])
        a = [self.ev(fr, x) for x in c if f.nodes[x]['k'] != 'DefArg']
        if not a: raise Unsupported('Eigen ' + str(nm))
        if nm == 'operator<<':
            if isinstance(a[0], Mat): m = a[0]; m.pos = 1; m.c[0] = self.conv(a[1], 'double'); return m
            return Opaque('stream')
        if nm == 'operator,' and isinstance(a[0], Mat) and isnum(a[1]):
            m = a[0]; m.c[m.pos] = self.conv(a[1], 'double'); m.pos += 1; return m
        if nm in ('finished', 'eval', 'matrix', 'noalias') and isinstance(a[0], Mat): return a[0]
        if op in ('+', '-', '*', '/') or nm in ('operator+', 'operator-', 'operator*', 'operator/'):
            op = op or nm[8:]
            if len(a) == 1: return Mat(a[0].n, a[0].m, [neg(lift(x)) for x in a[0].all()]) if isinstance(a[0], Mat) else self.bad('Eigen')
            return self.mop(op, a[0], a[1])
        m = a[0]
        if isinstance(m, Mat):
            if nm == 'transpose': return Mat(m.m, m.n, [m.get(j * m.m + q) for q in range(m.m) for j in range(m.n)])
            if nm == 'inverse': return ('solver', m, 'inv') and self.minverse(m)
            if nm in ('fullPivLu', 'partialPivLu', 'lu'): return ('solver', m)
            if nm == 'exp':
                k = '|'.join('%d' % lift(x).v for x in m.all())
                return Mat(m.n, m.m, [self.rnd('mexp|%s|%d' % (k, q), False) for q in range(m.n * m.m)])
            if nm in ('norm', 'squaredNorm', 'determinant', 'maxCoeff', 'minCoeff'): return self.fun('m' + nm, m.all())
            if nm == 'trace': 
                v = Fraction(0)
                for q in range(m.n): v = add(v, m.get(q * m.m + q))
                return v
            if nm in ('array', 'isNaN', 'abs', 'hasNaN', 'allFinite'): return ('arr', m) if nm not in ('hasNaN', 'allFinite') else nm == 'allFinite'
            if nm in ('setZero', 'setIdentity'):
                for q in range(m.n * m.m): m.c[q] = Fraction(int(nm == 'setIdentity' and q // m.m == q % m.m))
                return m
            if nm in ('rows', 'cols', 'size'): return {'rows': m.n, 'cols': m.m, 'size': m.n * m.m}[nm]
        if isinstance(m, tuple) and m[0] == 'solver' and nm == 'solve' and isinstance(a[1], Mat): return self.mop('*', self.minverse(m[1]), a[1])
        if isinstance(m, tuple) and m[0] == 'arr':
            if nm in ('any',): return False        # not finite, out of range: exceptional values are out of scope
            return m
        if op in ('>', '<', '>=', '<=') and any(isinstance(x, tuple) and x[0] == 'arr' for x in a): return ('arr', None)
        raise Unsupported('Eigen %s' % nm)

    def bad(self, m): raise Unsupported(m)

    def minverse(self, m):
        n = m.n; A = [[lift(m.get(i * n + j)) for j in range(n)] + [D(int(i == j)) for j in range(n)] for i in range(n)]
        for j in range(n):
            pv = next((i for i in range(j, n) if A[i][j].v), None)
            if pv is None: raise Redraw('singular')
            A[j], A[pv] = A[pv], A[j]
            g = inv(A[j][j]); A[j] = [mul(x, g) for x in A[j]]
            for i in range(n):
                if i != j:
                    q = A[i][j]; A[i] = [add(x, mul(q, y), -1) for x, y in zip(A[i], A[j])]
        return Mat(n, n, [x for r in A for x in r[n:]])

    def mop(self, op, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op in '+-' and (a.n, a.m) == (b.n, b.m): return Mat(a.n, a.m, [add(x, y, 1 if op == '+' else -1) for x, y in zip(a.all(), b.all())])
            if op == '*' and a.m == b.n:
                e = []
                for i in range(a.n):
                    for j in range(b.m):
                        v = Fraction(0)
                        for k in range(a.m): v = add(v, mul(a.get(i * a.m + k), b.get(k * b.m + j)))
                        e.append(v)
                return Mat(a.n, b.m, e)
        elif isinstance(a, Mat) and isnum(b) and op in '*/': return Mat(a.n, a.m, [mul(x, b) if op == '*' else div(x, b) for x in a.all()])
        elif isinstance(b, Mat) and isnum(a) and op == '*': return Mat(b.n, b.m, [mul(x, a) for x in b.all()])
        raise Unsupported('matrix operation ' + op)

    def mutptr(self, t):
        return not re.match(r'^(const (double|char|float|int|void|unsigned)|(double|char) const)', t)

    def alg(self, nm, a):
        rng = lambda x, y: isinstance(x, Ptr) and isinstance(y, Ptr) and x.b is y.b
        if nm == 'fill' and len(a) == 3 and rng(a[0], a[1]):
            for q in range(a[0].o, a[1].o): a[0].b.c[q] = a[2]
            return None
        if nm == 'fill_n' and len(a) == 3 and isinstance(a[0], Ptr) and isinstance(a[1], int):
            for q in range(a[1]): a[0].b.c[a[0].o + q] = a[2]
            return Ptr(a[0].b, a[0].o + a[1])
        if nm == 'copy' and len(a) == 3 and rng(a[0], a[1]) and isinstance(a[2], Ptr):
            m = a[1].o - a[0].o
            for q, v in enumerate([a[0].b.get(a[0].o + q) for q in range(m)]): a[2].b.c[a[2].o + q] = v
            return Ptr(a[2].b, a[2].o + m)
        if nm == 'copy_n' and len(a) == 3 and isinstance(a[0], Ptr) and isinstance(a[2], Ptr) and isinstance(a[1], int):
            for q, v in enumerate([a[0].b.get(a[0].o + q) for q in range(a[1])]): a[2].b.c[a[2].o + q] = v
            return Ptr(a[2].b, a[2].o + a[1])
        if nm == 'memset' and len(a) == 3 and isinstance(a[0], Ptr) and a[1] == 0 and isinstance(a[2], int):
            for q in range(a[2] // 8): a[0].b.c[a[0].o + q] = Fraction(0)
            return a[0]
        if nm == 'memmove' and len(a) == 3 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and isinstance(a[2], int):
            for q, v in enumerate([a[1].b.get(a[1].o + q) for q in range(a[2] // 8)]): a[0].b.c[a[0].o + q] = v
            return a[0]
        if nm == 'accumulate' and len(a) == 3 and rng(a[0], a[1]):
            v = a[2]
            for q in range(a[0].o, a[1].o): v = add(v, a[0].b.get(q))
            return v
        if nm == 'inner_product' and len(a) == 4 and rng(a[0], a[1]) and isinstance(a[2], Ptr):
            v = a[3]
            for q in range(a[1].o - a[0].o): v = add(v, mul(a[0].b.get(a[0].o + q), a[2].b.get(a[2].o + q)))
            return v
        if nm == 'transform' and len(a) in (4, 5) and rng(a[0], a[1]) and isinstance(a[-2], Ptr):
            for q in range(a[1].o - a[0].o):
                v = [a[0].b.get(a[0].o + q)] + ([a[2].b.get(a[2].o + q)] if len(a) == 5 else [])
                a[-2].b.c[a[-2].o + q] = self.callval(a[-1], v)
            return None
        if nm == 'for_each' and len(a) == 3 and rng(a[0], a[1]):
            for q in range(a[0].o, a[1].o): self.callval(a[2], [(a[0].b, q)])
            return None
        if nm in ('begin', 'cbegin') and len(a) == 1 and isinstance(a[0], Vec): return Ptr(a[0])
        if nm in ('end', 'cend') and len(a) == 1 and isinstance(a[0], Vec): return Ptr(a[0], a[0].n)
        return NotImplemented

    def ext(self, nm, a):
        nm = (nm or '').replace('__builtin_', '').replace('std::', '')
        if a and all(isnum(x) for x in a):
            if nm == 'sqrt': return self.sqrt(a[0])
            if nm == 'cbrt': return self.cbrt(a[0])
            if nm == 'pow': return self.powr(a[0], a[1])
            if nm == 'sin': return self.trig(a[0])[0]
            if nm == 'cos': return self.trig(a[0])[1]
            if nm == 'atan2': return self.atan2(a[0], a[1])
            if nm == 'acos': return self.acos(a[0])
            if nm == 'asin': return self.asin(a[0])
            if nm == 'atan': return self.atan(a[0])
            if nm == 'tan': s, c = self.trig(a[0]); return div(s, c)
            if nm == 'exp' and lift(a[0]).v == 0: return Fraction(1)
            if nm in ('cosh', 'sinh', 'tanh'):
                if lift(a[0]).v == 0: return Fraction(int(nm == 'cosh'))
                e = self.fun('exp', [a[0]]); i = inv(e); co = mul(add(e, i), Fraction(1, 2)); si = mul(add(e, i, -1), Fraction(1, 2))
                return co if nm == 'cosh' else si if nm == 'sinh' else div(si, co)
            if nm == 'hypot':
                h = Fraction(0)
                for x in a: h = add(h, mul(x, x))
                return self.sqrt(h)
            if nm == 'fma' and len(a) == 3: return add(mul(a[0], a[1]), a[2])
            if nm == 'log1p': return self.fun('log', [add(a[0], 1)])
            if nm == 'expm1': return add(self.ext('exp', a), 1, -1)
            if nm in ('fabs', 'abs'): return neg(a[0]) if self.less(a[0], 0) else a[0]
            if nm in ('max', 'fmax'): return a[1] if self.less(a[0], a[1]) else a[0]
            if nm in ('min', 'fmin'): return a[0] if self.less(a[0], a[1]) else a[1]
            if nm in ('isnan', 'isinf'): return False
            if nm == 'floor' and not isinstance(a[0], D): import math; return Fraction(math.floor(a[0]))
            return self.fun(nm, a)
        return Opaque(nm)


def scenarios(run, limit=256):
    """run(script) -> RInt after a run; enumerate all consistent choices"""
    todo = [()]; n = 0
    while todo:
        s = todo.pop(); r = run(s); n += 1
        if r is None: continue
        if n > limit: raise Unsupported('more than %d combinations of comparisons' % limit)
        for j in range(len(s), len(r.order)):
            todo.append(tuple(r.order[:j]) + (not r.order[j],))
    return n
