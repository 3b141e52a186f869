"""whole-array copying in copy constructors (used by C01)"""
from sym import *
from util import short

SZ = {'double': 8, 'float': 4, 'char': 1, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'bool': 1, 'unsigned char': 1}


def esize(t):
    t = t.replace('const ', '').strip()
    return 8 if t.endswith('*') else SZ.get(t)


def subst(pl, at, by):
    r = Poly()
    for mono, c in pl.items():
        t = C(c)
        for a in mono: t = mul(t, by if a == at else A(a))
        r = add(r, t)
    return r


class CopyWalk(Walk):
    def __init__(self, p):
        Walk.__init__(self, p); self.alloc = {}; self.copies = []; self.fixed = {}

    def alias(self, atom):
        if isinstance(atom, tuple) and atom[0] == 'P' and atom[1] == self.top and atom[2] == self.src: return 'o'
        return atom

    def on_new(self, f, x, size, env):
        a = ('new', f.id, x, len(self.stack))
        n = f.nodes[x]
        if size is not None: self.alloc[a] = (size, n['at'], f, x)
        return A(a)

    def base(self, f, i, env):
        """(array location, offset poly) of a pointer expression"""
        i = strip(f, i); n = f.nodes[i]
        if n['k'] == 'Bin' and n['op'] in '+-':
            l, o = self.base(f, n['c'][0], env)
            v = self.ex(f, n['c'][1], dict(env))
            return l, add(o, v, 1 if n['op'] == '+' else -1)
        if n['k'] == 'Un' and n['op'] == '&':
            l = self.loc(f, n['c'][0], env)
            if l and l[0] == 'ix': return l[1], l[2]
        return self.loc(f, i, env), C(0)

    def on_call(self, f, x, env):
        n = f.nodes[x]; c = f.kids(x)
        q = n.get('n')
        if q in ('memcpy', 'memmove') and len(c) == 3:
            d = self.base(f, c[0], env); s = self.base(f, c[1], env)
            self.copies.append(('mem', f, x, d, s, self.ex(f, c[2], dict(env)), dict(env), f.nodes[strip(f, c[0])].get('t', '')))
        elif q == 'copy' and len(c) == 3:
            s = self.base(f, c[0], env); e = self.base(f, c[1], env); d = self.base(f, c[2], env)
            if s[0] == e[0]: self.copies.append(('cnt', f, x, d, s, add(e[1], s[1], -1), dict(env), ''))

    def on_assign(self, f, x, loc, v, env):
        if loc[0] == 'ix' and loc[1][0] == 'F':
            self.copies.append(('elt', f, x, (loc[1], loc[2]), None, v, dict(env), bool(self.conds)))


def src_of(l):
    """member an array location belongs to (outermost dimension)"""
    while l and l[0] == 'ix': l = l[1]
    return l


def check_copy_ctor(p, f, R, keyf):
    w = CopyWalk(p)
    w.top = f.id; w.src = f.d['params'][0]['d']
    env = {('A0',): None}
    env.pop(('A0',))
    # constructor argument is a reference: its members are 'o'
    w.run(f, env)
    n = 0
    seen_dim = {}
    for kind, g, x, d, s, size, e, extra in w.copies:
        dl, doff = d
        m = src_of(dl)
        if not m or m[0] != 'F' or m[1] != 'this': continue
        al = None
        v = e.get(dl)
        if v is not None and len(v) == 1:
            (mono, co), = v.items()
            if co == 1 and len(mono) == 1 and mono[0] in w.alloc: al = w.alloc[mono[0]]
        cnt = None; et = None
        if al: cnt, et = al[0], al[1]
        else:
            fx = fixed_dim(p, m[2]) if dl == m else None
            if fx: cnt, et = C(fx[0]), fx[1]
        key = keyf(m[2])
        if kind in ('mem', 'cnt'):
            sl, soff = s
            sm = src_of(sl)
            if sm and sm[0] == 'F' and sm[1] == 'o':
                n += 1
                R.ob(key + '#source', g.loc(x), sm[2] == m[2] and doff == soff,
                     'array %s is copied from %s of the source (offset %r into offset %r)' % (short(m[2]), short(sm[2]), soff, doff))
            if cnt is None or doff.const() != 0: continue
            es = esize(et)
            if es is None: continue
            want = mul(cnt, C(es)) if kind == 'mem' else cnt
            n += 1
            R.ob(key + '#extent', g.loc(x), size == want, 'array %s holds %r elements (%r bytes) but %r %s are copied' % (
                short(m[2]), cnt, want, size, 'bytes' if kind == 'mem' else 'elements'))
        else:
            if cnt is None: continue
            # element-wise: collect covered index set
            seen_dim.setdefault((m[2], dl, repr(cnt)), [cnt, g, x, [], key])[3].append((doff, extra, w.ranges))
    for (m, dl, _), (cnt, g, x, cov, key) in seen_dim.items():
        consts = set(); full = False; unknown = False; always = set()
        for off, guarded, rng in cov:
            before = set(consts)
            c = off.const()
            if c is not None:
                consts.add(c)
                if not guarded: always.add(c)
                continue
            ivs = [a for mono in off for a in mono if isinstance(a, tuple) and a[0] == 'iv']
            if len(ivs) == 1 and off == add(A(ivs[0]), add(off, A(ivs[0]), -1)):
                rest = add(off, A(ivs[0]), -1)
                if ivs[0] in rng:
                    lo, hi, st = rng[ivs[0]]
                    if st != 1: unknown = True; continue
                    lo = add(lo, rest); hi = add(hi, rest)
                    lc, hc = lo.const(), hi.const()
                    if lc == 0 and hi == cnt: full = True
                    elif lc is not None and hc is not None: consts |= set(range(int(lc), int(hc)))
                    elif lc == 0 and hi != cnt: consts.add(('range', repr(hi)))
                    else: unknown = True
                else: unknown = True
            else: unknown = True
            if not guarded: always |= consts - before
        if unknown and not full: continue
        n += 1
        k = cnt.const()
        ok = full or (k is not None and set(range(int(k))) <= consts and not any(isinstance(c, int) and c >= k for c in always))
        R.ob(key + '#elements', g.loc(x), ok, 'array %s holds %r elements but only %s are copied' % (short(m), cnt, sorted(map(str, consts))))
    return n


def fixed_dim(p, member):
    cls, nm = member.rsplit('::', 1)
    for f in p.classes.get(cls, {}).get('fields', ()):
        if f['n'] == nm:
            import re
            m = re.match(r'^(.*?) ?\[(\d+)\]$', f['t'])
            if m: return int(m.group(2)), m.group(1)
    return None
