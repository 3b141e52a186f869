"""Program model on top of the extracted facts: functions, class hierarchy,
call graph with virtual dispatch, small AST helpers, CFG dataflow."""
import sys, collections, functools
from facts import load, AnalysisBroken


class Fn:
    __slots__ = ('d', 'nodes', 'id', 'q', 'n', 'cls', 'kind', 'file', 'line', '_par', '_cfg', 'prog', '_desc')

    def __init__(self, d, prog):
        self.d = d; self.nodes = d['nodes']; self.id = d['id']; self.q = d['q']; self.n = d['n']
        self.cls = d.get('cls'); self.kind = d['kind']; self.file = d['file']; self.line = d['l']
        self._par = None; self._cfg = None; self.prog = prog; self._desc = {}

    def k(self, i): return self.nodes[i]['k']
    def kids(self, i): return [c for c in self.nodes[i].get('c', ()) if c >= 0]
    def body(self): return self.d['body']

    def walk(self, i=None, into_lambda=True):
        """pre-order over sub-tree (default: initialisers then body)."""
        if i is None:
            for it in self.d.get('inits', ()):
                yield from self.walk(it['e'])
            yield from self.walk(self.d['body'])
            return
        if i is None or i < 0:
            return
        st = [i]
        while st:
            x = st.pop()
            yield x
            c = self.nodes[x].get('c')
            if c:
                st.extend(y for y in reversed(c) if y >= 0)

    def parents(self):
        if self._par is None:
            p = {}
            for i, n in enumerate(self.nodes):
                for c in n.get('c', ()):
                    if c >= 0 and c not in p:
                        p[c] = i
            self._par = p
        return self._par

    def calls(self, i=None):
        for x in self.walk(i):
            if self.nodes[x]['k'] in ('Call', 'Ctor'):
                yield x

    def loc(self, i=None):
        return '%s:%d' % (self.file, self.nodes[i]['l'] if i is not None and i >= 0 else self.line)

    def text(self, i, depth=0):
        """readable rendering of an expression"""
        if i is None or i < 0: return ''
        n = self.nodes[i]; k = n['k']; c = self.kids(i)
        T = lambda j: self.text(j, depth + 1)
        if depth > 12: return '...'
        if k == 'Ref': return n.get('d', n.get('q', '?')).split('@')[0].replace('L:', '').replace('G:', '')
        if k == 'Mem':
            nm = n.get('n', n.get('q', '?'))
            return ('' if self.nodes[c[0]]['k'] == 'This' else T(c[0]) + ('->' if n.get('arrow') else '.')) + nm
        if k == 'This': return 'this'
        if k == 'Lit': return 'NULL' if n.get('null') else str(n.get('v'))
        if k == 'Str': return '"%s"' % n['s']
        if k in ('Bin', 'Asg'): return '%s%s%s' % (T(c[0]), n['op'], T(c[1])) if len(c) > 1 else '?'
        if k == 'Un': return (T(c[0]) + n['op']) if n.get('post') else n['op'] + T(c[0])
        if k == 'Sub': return '%s[%s]' % (T(c[0]), T(c[1]))
        if k == 'Cond': return '%s?%s:%s' % tuple(T(x) for x in c[:3])
        if k == 'Cast': return T(c[0])
        if k == 'DefArg': return ''
        if k == 'Call':
            if n.get('op') and len(c) == 2 and n['op'] != '[]': return '%s%s%s' % (T(c[0]), n['op'], T(c[1]))
            if n.get('op') == '[]': return '%s[%s]' % (T(c[0]), T(c[1]))
            if n.get('op') and len(c) == 1: return (T(c[0]) if n['op'] == '->' else n['op'] + T(c[0]))
            if n.get('mc'): return '%s.%s(%s)' % (T(c[0]), n.get('n'), ','.join(T(x) for x in c[1:]))
            if n.get('indirect'): return '(*%s)(%s)' % (T(c[0]), ','.join(T(x) for x in c[1:]))
            return '%s(%s)' % (n.get('n'), ','.join(T(x) for x in c))
        if k == 'Ctor': return '%s(%s)' % (n.get('n'), ','.join(T(x) for x in c))
        if k == 'New': return 'new %s%s' % (n['at'], '[%s]' % T(c[0]) if n.get('arr') and c else '(..)')
        if k == 'Delete': return 'delete%s %s' % ('[]' if n.get('arr') else '', T(c[0]))
        if k == 'Return': return 'return ' + (T(c[0]) if c else '')
        if k == 'Var': return n['d'].split('@')[0].replace('L:', '') + (('=' + T(c[0])) if c else '')
        return k

    # ---- CFG
    def cfg(self):
        if self._cfg is None:
            c = self.d.get('cfg')
            if not c:
                self._cfg = False
            else:
                self._cfg = CFG(self, c)
        return self._cfg or None


class CFG:
    def __init__(self, fn, c):
        self.fn = fn; self.entry = c['entry']; self.exit = c['exit']
        self.b = {x['id']: x for x in c['b']}
        self.succ = {x['id']: [s for s in x['s'] if s >= 0] for x in c['b']}
        self.pred = collections.defaultdict(list)
        for u, vs in self.succ.items():
            for v in vs:
                self.pred[v].append(u)
        self.where = {}
        for bid, x in self.b.items():
            for j, e in enumerate(x['e']):
                if isinstance(e, int):
                    self.where.setdefault(e, (bid, j))

    def rpo(self):
        seen, out = set(), []
        st = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); st.append((v, iter(self.succ[v]))); break
            else:
                out.append(u); st.pop()
        return out[::-1]


class Prog:
    def __init__(self, groups=None):
        P = load(groups)
        self.raw = P
        self.classes = P['classes']; self.vars = P['vars']; self.enums = P['enums']; self.tus = P['tus']
        self.fns = {i: Fn(d, self) for i, d in P['funcs'].items()}
        self.by_q = collections.defaultdict(list)
        self.by_cls = collections.defaultdict(list)
        for f in self.fns.values():
            self.by_q[f.q].append(f)
            if f.cls: self.by_cls[f.cls].append(f)
        self.bases = {q: [b['q'] for b in c['bases']] for q, c in self.classes.items()}
        self.derived = collections.defaultdict(set)
        for q in self.classes:
            for a in self.ancestors(q):
                self.derived[a].add(q)
        # overriding map: method id -> ids of direct overriders
        self.overriders = collections.defaultdict(set)
        self.mdecl = {}
        for q, c in self.classes.items():
            for m in c['methods']:
                self.mdecl[m['id']] = (q, m)
                for o in m.get('ovr', ()):
                    self.overriders[o].add(m['id'])
        self._never = None

    def ancestors(self, q):
        out, st = [], list(self.bases.get(q, ()))
        while st:
            b = st.pop()
            if b in out: continue
            out.append(b); st.extend(self.bases.get(b, ()))
        return out

    def is_a(self, q, base):
        return q == base or base in self.ancestors(q)

    def allover(self, mid):
        out, st = set(), [mid]
        while st:
            x = st.pop()
            for y in self.overriders.get(x, ()):
                if y not in out:
                    out.add(y); st.append(y)
        return out

    def targets(self, fn, i, this_cls=None):
        """Possible callee functions (bodies in the repo) of call node i."""
        n = fn.nodes[i]
        f = n.get('f')
        if not f: return []
        res = []
        if n.get('virt') and not n.get('qual'):
            ids = {f} | self.allover(f)
            # receiver static type narrowing when calling through this in a known dynamic class
            if this_cls and n['k'] == 'Call' and fn.kids(i) and fn.nodes[fn.kids(i)[0]]['k'] == 'This':
                r = self.resolve(this_cls, f)
                return [r] if r else []
            for x in ids:
                if x in self.fns: res.append(self.fns[x])
        else:
            if f in self.fns: res.append(self.fns[f])
        return res

    def resolve(self, cls, mid):
        """final overrider of virtual method mid for dynamic class cls"""
        ids = {mid} | self.allover(mid)
        for c in [cls] + self.linear(cls):
            for m in self.classes.get(c, {}).get('methods', ()):
                if m['id'] in ids:
                    return self.fns.get(m['id'])
        return None

    def linear(self, cls):
        """bases breadth-first"""
        out, q = [], collections.deque(self.bases.get(cls, ()))
        while q:
            b = q.popleft()
            if b not in out:
                out.append(b); q.extend(self.bases.get(b, ()))
        return out

    def fields(self, cls, inherited=True):
        out = []
        for c in [cls] + (self.linear(cls) if inherited else []):
            for f in self.classes.get(c, {}).get('fields', ()):
                out.append((c, f))
        return out

    # ---- functions that never return normally (all paths throw / abort)
    def never_returns(self):
        if self._never is not None: return self._never
        nev = set(f.id for f in self.by_q['Gyoto::throwError'])
        ext = {'abort', 'exit', '_exit', 'std::terminate', 'std::abort', 'std::exit', 'y_error', 'yerror', 'y_errorq', 'y_errorn', 'YError'}
        changed = True
        self._never = nev
        self._never_ext = ext
        cand = {i: f for i, f in self.fns.items() if any(f.nodes[x]['k'] == 'Throw' or (f.nodes[x]['k'] == 'Call') for x in f.walk())}
        while changed:
            changed = False
            for i, f in cand.items():
                if i in nev: continue
                g = f.cfg()
                if not g: continue
                if not self._exit_reachable(f, g):
                    nev.add(i); changed = True
        return nev

    def call_never_returns(self, f, x):
        n = f.nodes[x]
        if n['k'] == 'Throw': return True
        if n['k'] != 'Call': return False
        if n.get('noret'): return True
        if n.get('q') in self._never_ext: return True
        fid = n.get('f')
        if fid in self._never:
            if n.get('virt') and not n.get('qual'):
                return all(y in self._never for y in self.allover(fid) if y in self.fns)
            return True
        return False

    def _exit_reachable(self, f, g):
        seen, st = {g.entry}, [g.entry]
        while st:
            u = st.pop()
            if u == g.exit: return True
            blk = g.b[u]
            dead = False
            for e in blk['e']:
                if isinstance(e, int) and self.call_never_returns(f, e):
                    dead = True; break
            if dead: continue
            for v in g.succ[u]:
                if v not in seen:
                    seen.add(v); st.append(v)
        return False

    def edges(self, f):
        """CFG successors with blocks cut after a call that never returns. Returns (succ, cutpos)"""
        self.never_returns()
        g = f.cfg()
        succ, cut = {}, {}
        for u, blk in g.b.items():
            c = None
            for j, e in enumerate(blk['e']):
                if isinstance(e, int) and self.call_never_returns(f, e):
                    c = j; break
            cut[u] = c
            succ[u] = [] if c is not None else g.succ[u]
        return succ, cut


def strip(fn, i):
    """look through explicit casts / default-arg wrappers"""
    while i >= 0 and fn.nodes[i]['k'] in ('Cast', 'DefArg', 'DefInit'):
        c = fn.kids(i)
        if not c: return i
        i = c[0]
    return i
