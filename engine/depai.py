"""Structured abstract interpreter computing, for every member of the receiver
object, what its final value depends on (may / must dependence), whether it is
an identity copy of another location, and which locations a pointer may reach.

It walks the type-checked statement tree of a function, joins at branches,
iterates loops to a fixpoint of the finite dependence lattice, dispatches
`this` calls on the class under construction and inlines callees with bodies
(bounded depth).  Nothing is executed and no path condition is solved."""
from model import strip

EMPTY = frozenset()


class Val:
    __slots__ = ('deps', 'must', 'ident', 'refs', 'obj', 'kind', 'v', 'alias')

    def __init__(self, deps=EMPTY, must=None, ident=None, refs=EMPTY, obj=None, kind=None, v=None, alias=EMPTY):
        self.alias = alias; self.deps = deps; self.must = deps if must is None else must
        self.ident = ident; self.refs = refs; self.obj = obj; self.kind = kind; self.v = v

    def key(self): return (self.deps, self.must, self.ident, self.refs, self.obj, self.kind, self.alias, self.v)
    def __eq__(self, o): return self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return 'Val(deps=%s,must=%s,id=%s,kind=%s)' % (sorted(map(str, self.deps)), sorted(map(str, self.must)), self.ident, self.kind)


UNINIT = Val(kind='uninit')


def sig(fid):
    """parameter types of a function id"""
    if not fid: return []
    e = fid.rfind(')'); d = 0
    if e < 0: return []
    for b in range(e, -1, -1):
        d += fid[b] == ')'; d -= fid[b] == '('
        if d == 0: break
    out = []; d = 0; cur = ''
    for ch in fid[b + 1:e]:
        if ch in '<([{': d += 1
        if ch in '>)]}': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def ctl(cond):
    """control-dependence atoms"""
    return frozenset(t if t[0] == 'c' else ('c',) + t for t in cond) if cond else cond


def join(a, b, cond=EMPTY):
    if a == b: return a
    cond = ctl(cond)
    kinds = {a.kind, b.kind}
    kind = a.kind if a.kind == b.kind else 'opaque' if 'opaque' in kinds else ('mixed' if 'uninit' not in kinds and 'mixed-uninit' not in kinds else 'mixed-uninit')
    return Val(a.deps | b.deps | cond, (a.must & b.must) | cond, a.ident if a.ident == b.ident else None,
               a.refs | b.refs, a.obj if a.obj == b.obj else None, kind, None, a.alias | b.alias)


class State(dict):
    __slots__ = ()
    def copy(self): return State(self)


class Frame:
    __slots__ = ('fn', 'this', 'env', 'rets', 'retv', 'dyn', 'depth', 'brk', 'cont', 'fid', 'guard')


class DepAI:
    MAXDEPTH = 7

    def __init__(self, prog, roots=None, inline=None, pure_external=True):
        self.p = prog; prog.never_returns()
        self.stack = []; self.lstack = []
        self.nfr = 0
        self.trace = {}          # location -> list of (fn, node, Val, strong)
        self.calls_seen = set()
        self.inlined = set()
        self.budget = 200000

    # ------------------------------------------------------------ running
    def run(self, fn, this='this', args=None, st=None, dyn=None, depth=0, argnodes=None):
        """returns (exit_state or None, return Val)"""
        fr = Frame(); self.nfr += 1
        fr.fn = fn; fr.this = this; fr.rets = []; fr.retv = None; fr.dyn = dyn or fn.cls; fr.depth = depth
        fr.brk = []; fr.cont = []; fr.fid = self.nfr; fr.guard = []
        st = st if st is not None else State()
        for i, pm in enumerate(fn.d['params']):
            v = args[i] if args and i < len(args) else Val(frozenset([('param', i)]))
            st[('L', fr.fid, pm['d'])] = v
        self.stack.append(fn.id)
        self.inlined.add(fn.id)
        try:
            if fn.kind == 'ctor':
                st = self.ctor_inits(fr, st)
            if st is not None:
                st = self.ex(fr, fn.body(), st)
            outs = fr.rets + ([st] if st is not None else [])
            res = None
            for s, g in [(o, EMPTY) if not isinstance(o, tuple) else o for o in outs]:
                res = s if res is None else self.join(res, s, g)
            return res, (fr.retv or Val())
        finally:
            self.stack.pop()

    def ctor_inits(self, fr, st):
        fn = fr.fn
        for it in fn.d.get('inits', ()):
            if 'field' in it:
                v = self.ev(fr, it['e'], st)
                loc = ('F', fr.this, fn.cls + '::' + it['field'])
                self.assign(fr, loc, v, st, it['e'])
            elif 'deleg' in it or 'base' in it:
                self.base_init(fr, it, st)
        return st

    def base_init(self, fr, it, st):
        # inline the base constructor on the same object
        fn = fr.fn
        e = it['e']; n = fn.nodes[e]
        if n['k'] != 'Ctor': return
        args = [self.ev(fr, a, st) for a in fn.kids(e)]
        t = self.p.fns.get(n.get('f'))
        if t and len(self.stack) < 14:
            s2, _ = self.run(t, fr.this, args, st.copy(), t.cls, fr.depth)
            if s2 is not None:
                st.clear(); st.update(s2)

    # ------------------------------------------------------------ joins
    def join(self, a, b, cond=EMPTY):
        if a is None: return b
        if b is None: return a
        out = State()
        for k in a.keys() | b.keys():
            x, y = a.get(k), b.get(k)
            if x is None: x = self.default(k)
            if y is None: y = self.default(k)
            out[k] = x if x is y else join(x, y, cond)
        return out

    def default(self, loc):
        if loc[0] == 'F':
            if loc[1] == 'this': return UNINIT
            return self.source(loc)
        return UNINIT

    def source(self, loc):
        """value of a member of an object that is not under construction"""
        tok = (loc[1], loc[2])
        return Val(frozenset([tok]), None, tok, frozenset([loc]), None, None, None, frozenset([tok]))

    def read(self, loc, st):
        v = st.get(loc)
        if v is None: v = self.default(loc)
        if loc not in v.refs:
            v = Val(v.deps, v.must, v.ident, v.refs | {loc}, v.obj, v.kind, v.v, v.alias)
        return v

    def assign(self, fr, loc, v, st, node, strong=True):
        if isinstance(loc, frozenset):
            for l in loc: self.assign(fr, l, v, st, node, strong and len(loc) == 1)
            return
        if loc[0] == 'F' and loc[1] != 'this' and loc[1] not in self.tracked_objs():
            self.escape_write(fr, loc, v, st, node)
            return
        self.trace.setdefault(loc, []).append((fr.fn, node, v, strong))
        if strong:
            nv = v if v.kind != 'uninit' else Val(v.deps, v.must, v.ident, v.refs, v.obj, None, None, v.alias)
            st[loc] = nv
        else:
            o = self.read(loc, st)
            st[loc] = Val(o.deps | v.deps, o.must | v.must, None if o.ident and v.deps - o.deps else o.ident, o.refs | v.refs, o.obj,
                          'elem' if o.kind in ('uninit', None, 'elem') else o.kind, None, o.alias | v.alias)

    def tracked_objs(self): return ()
    def escape_write(self, fr, loc, v, st, node): pass

    # ------------------------------------------------------------ statements
    def ex(self, fr, i, st):
        if i is None or i < 0 or st is None: return st
        fn = fr.fn; n = fn.nodes[i]; k = n['k']
        if k == 'Block':
            for c in fn.kids(i):
                st = self.ex(fr, c, st)
                if st is None: return None
            return st
        if k == 'Decl':
            for c in fn.kids(i): st = self.ex(fr, c, st)
            return st
        if k == 'Var':
            c = fn.kids(i)
            v = self.ev(fr, c[0], st) if c else UNINIT
            if c and '&' in n['t'] and self.lval(fr, c[0], st):
                st[('A', fr.fid, n['d'])] = Val(refs=frozenset(self.lval(fr, c[0], st)))
            st[('L', fr.fid, n['d'])] = v
            return st
        if k == 'If':
            for c in fn.kids(i):
                if c not in (n['cond'], n['then'], n['else']): st = self.ex(fr, c, st)
            cv = self.ev(fr, n['cond'], st)
            b = self.const_cond(fr, n["cond"], cv, st)
            if b is True: return self.ex(fr, n['then'], st)
            if b is False: return self.ex(fr, n['else'], st) if n['else'] >= 0 else st
            fr.guard.append(cv.deps)
            a = self.ex(fr, n['then'], st.copy())
            e = self.ex(fr, n['else'], st.copy()) if n['else'] >= 0 else st
            fr.guard.pop()
            if a is None: return e
            if e is None: return a
            return self.join(a, e, cv.deps)
        if k in ('For', 'While', 'Do', 'ForRange'):
            if k == 'For':
                st = self.ex(fr, n['init'], st)
            if k == 'ForRange':
                kids = fn.kids(i)
                el = self.range_list(fn, i)
                if el is not None: return self.unroll(fr, i, el, st)
                for c in kids[:-1]:
                    if c != n['body']: st = self.ex(fr, c, st)
            entry = st.copy()
            cd = EMPTY
            for _ in range(6):
                s = entry.copy()
                if k in ('For', 'While') and n['cond'] >= 0:
                    cd = cd | self.ev(fr, n['cond'], s).deps
                fr.brk.append([]); fr.cont.append([])
                fr.guard.append(cd)
                b = self.ex(fr, n['body'], s)
                for c in fr.cont.pop(): b = self.join(b, c, cd)
                brks = fr.brk.pop(); fr.guard.pop()
                if b is not None:
                    if k == 'For' and n['inc'] >= 0: self.ev(fr, n['inc'], b)
                    if k == 'Do': cd = cd | self.ev(fr, n['cond'], b).deps
                if k == 'Do':
                    new = b
                    for c in brks: new = self.join(new, c, cd)
                    if new is None: return None
                    merged = self.join(entry, new, cd)
                    if merged == entry: return new
                    last = new; entry = merged
                    continue
                new = self.join(entry, b, cd) if b is not None else entry
                for c in brks: new = self.join(new, c, cd)
                if new == entry: break
                entry = new
            return entry if k != 'Do' else last
        if k == 'Switch':
            cv = self.ev(fr, n['cond'], st)
            fr.brk.append([])
            body = n['body']; entry = st; cur = None; hasdef = False
            fr.guard.append(cv.deps)
            for c in (fn.kids(body) if fn.nodes[body]['k'] == 'Block' else [body]):
                while fn.nodes[c]['k'] in ('Case', 'Default'):
                    if fn.nodes[c]['k'] == 'Default': hasdef = True
                    cur = self.join(cur, entry.copy(), cv.deps)
                    c = fn.kids(c)[-1]
                if cur is not None:
                    cur = self.ex(fr, c, cur)
            fr.guard.pop()
            out = cur
            for b in fr.brk.pop(): out = self.join(out, b, cv.deps)
            if not hasdef: out = self.join(out, entry, cv.deps)
            return out
        if k == 'Return':
            c = fn.kids(i)
            g = EMPTY
            for x in fr.guard: g = g | x
            v = self.ev(fr, c[0], st) if c else Val()
            fr.retv = v if fr.retv is None else join(fr.retv, v, g)
            if c and fr.fn.d['ret'].endswith('&'):
                lv = self.lval(fr, c[0], st)
                if lv: fr.retv = Val(fr.retv.deps, fr.retv.must, fr.retv.ident, fr.retv.refs | frozenset(lv), fr.retv.obj, fr.retv.kind, None, fr.retv.alias)
            fr.rets.append((st, g))
            return None
        if k == 'Break':
            if fr.brk: fr.brk[-1].append(st)
            return None
        if k == 'Continue':
            if fr.cont: fr.cont[-1].append(st)
            return None
        if k == 'Try':
            kids = fn.kids(i)
            s0 = st.copy()
            a = self.ex(fr, kids[0], st)
            for c in kids[1:]:
                b = self.ex(fr, fn.kids(c)[0], self.join(s0.copy(), a if a is not None else None))
                a = self.join(a, b) if b is not None else a
            return a
        if k in ('Case', 'Default', 'Label'):
            return self.ex(fr, fn.kids(i)[-1], st)
        if k in ('Null', 'Goto'): return st
        # expression statement
        self.ev(fr, i, st)
        if self.dead(fr, i): return None
        return st

    @staticmethod
    def range_list(fn, i):
        """(loop variable node, elements) of a range-for over a braced list"""
        n = fn.nodes[i]; vs = []
        for c in fn.kids(i):
            if c == n['body']: continue
            if fn.nodes[c]['k'] == 'Decl': vs += fn.kids(c)
            elif fn.nodes[c]['k'] == 'Var': vs.append(c)
        if not vs: return None
        x = fn.kids(vs[0])
        x = strip(fn, x[0]) if x else None
        if x is None or fn.nodes[x]['k'] != 'IList': return None
        return vs[-1], fn.kids(x)

    def unroll(self, fr, i, el, st):
        fn = fr.fn; n = fn.nodes[i]; var, es = el; d = fn.nodes[var]['d']; out = None
        for e in es:
            v = self.ev(fr, e, st); st[('L', fr.fid, d)] = v; st.pop(('A', fr.fid, d), None)
            fr.brk.append([]); fr.cont.append([])
            b = self.ex(fr, n['body'], st)
            for c in fr.cont.pop(): b = self.join(b, c)
            for c in fr.brk.pop(): out = self.join(out, c)
            st = b
            if st is None: return out
        return self.join(out, st)

    def run_lambda(self, fr, lfr, li, argn, vs, st):
        """body of a lambda, in the frame that created it"""
        n = lfr.fn.nodes[li]; key = (lfr.fn.id, li)
        if key in self.lstack or len(self.lstack) > 8: return self.union(vs)
        nf = Frame(); nf.fn = lfr.fn; nf.this = lfr.this; nf.env = None; nf.rets = []; nf.retv = None; nf.dyn = lfr.dyn; nf.depth = lfr.depth + 1
        nf.brk = []; nf.cont = []; nf.fid = lfr.fid; nf.guard = []
        for q in n.get('caps', ()):
            if 'init' in q: st[('L', lfr.fid, q['d'])] = self.ev(lfr, q['init'], st)
        bind = []
        for j, d in enumerate(n.get('params', ())):
            v = vs[j] if j < len(vs) else self.union(vs)
            t = n['pt'][j]; ls = None
            if t.endswith('&') and not v.obj:
                ls = self.lval(fr, argn[j], st) if argn is not None and j < len(argn) else [r for r in v.refs if r[0] in 'FL']
            bind.append((d, v, ls))
        for d, v, ls in bind:
            st.pop(('A', lfr.fid, d), None); st[('L', lfr.fid, d)] = v
            if ls: st[('A', lfr.fid, d)] = Val(refs=frozenset(ls))
        self.lstack.append(key)
        b = self.ex(nf, lfr.fn.kids(li)[0], st.copy())
        self.lstack.pop()
        res = b
        for o, g in nf.rets: res = o if res is None else self.join(res, o, g)
        if res is not None: st.clear(); st.update(res)
        return nf.retv or Val()

    def dead(self, fr, i):
        """expression statement that never returns (throw, throwError)"""
        fn = fr.fn; n = fn.nodes[i]
        if n['k'] == 'Throw': return True
        if n['k'] == 'Call' and self.p.call_never_returns(fn, i): return True
        return False

    def const_cond(self, fr, i, v, st=None):
        n = fr.fn.nodes[i]
        return None

    # ------------------------------------------------------------ expressions
    def union(self, vs):
        d, m, r = EMPTY, EMPTY, EMPTY
        for v in vs:
            d |= v.deps; m |= v.must; r |= v.refs
        return Val(d, m, None, r)

    def lval(self, fr, i, st):
        """set of locations an lvalue expression may denote: list of (loc)"""
        fn = fr.fn; n = fn.nodes[i]; k = n['k']; c = fn.kids(i)
        if k == 'Ref':
            d = n.get('d')
            if d is None: return []
            if n['dk'] in ('local', 'param'):
                a = st.get(('A', fr.fid, d))
                if a is not None: return list(a.refs)
                return [('L', fr.fid, d)]
            return [('G', d)]
        if k == 'Mem':
            if 'n' not in n or n.get('dk') == 'func': return []
            out = []
            for o in self.objs(fr, c[0], st):
                out.append(('F', o, n['d']))
            return out
        if k == 'Cast': return self.lval(fr, c[0], st)
        if k == 'Cond': return self.lval(fr, c[1], st) + self.lval(fr, c[2], st)
        if k == 'Bin' and n['op'] == ',': return self.lval(fr, c[1], st)
        if k == 'Bin' and n['op'] in ('.*', '->*'):
            pm = [r[1] for r in self.ev(fr, c[1], st).refs if r[0] == 'PM']
            return [('F', o, d) for o in self.objs(fr, c[0], st) for d in pm]
        if k == 'Asg': return self.lval(fr, c[0], st)
        if k == 'Un' and n['op'] in ('++', '--') : return self.lval(fr, c[0], st)
        return []

    def objs(self, fr, i, st):
        """abstract objects an expression (object or pointer to it) denotes"""
        fn = fr.fn; n = fn.nodes[i]; k = n['k']; c = fn.kids(i)
        if k == 'This': return [fr.this]
        v = self.ev(fr, i, st)
        if v.obj is not None: return [v.obj]
        out = []
        for r in v.refs:
            if r[0] == 'F': out.append(('sub', r[1], r[2]))
        if not out:
            for l in self.lval(fr, i, st):
                if l[0] == 'F': out.append(('sub', l[1], l[2]))
                elif l[0] == 'L': out.append(('loc', l[1], l[2]))
        return out[:4]

    def content_locs(self, fr, i, st):
        """locations whose content is reached through pointer/array expr i"""
        v = self.ev(fr, i, st)
        return v.refs

    def ev(self, fr, i, st):
        v = self.ev0(fr, i, st)
        if v.alias:
            t = fr.fn.nodes[i].get('t', '')
            if not (t.endswith('*') or 'SmartPointer' in t or t.endswith('*const') or t.endswith(']')):
                v = Val(v.deps, v.must, v.ident, v.refs, v.obj, v.kind, v.v)
        return v

    def ev0(self, fr, i, st):
        if i is None or i < 0: return Val()
        self.budget -= 1
        fn = fr.fn; n = fn.nodes[i]; k = n['k']; c = fn.kids(i)
        if k == 'Lit' or k == 'Str' or k == 'SizeOf' or k == 'Zero':
            return Val(kind='const', v=n.get('v', n.get('s')))
        if k in ('DefArg', 'DefInit'): return self.ev(fr, c[0], st)
        if k == 'This': return Val(EMPTY, obj=fr.this)
        if k == 'Ref':
            if n['dk'] in ('enum', 'func'): return Val(kind='const')
            if n['dk'] == 'global': return self.read_global(fr, i, st)
            a = st.get(('A', fr.fid, n['d']))
            if a is not None:
                vs = [self.read(l, st) for l in a.refs]
                return vs[0] if len(vs) == 1 else self.union(vs)
            v = st.get(('L', fr.fid, n['d']))
            return v if v is not None else Val()
        if k == 'Mem':
            if n.get('dk') == 'func': return self.ev(fr, c[0], st)
            ls = self.lval(fr, i, st)
            base = None
            if not ls:
                b = self.ev(fr, c[0], st)
                return Val(b.deps, b.must, None, b.refs)
            vs = [self.read_mem(fr, l, st) for l in ls]
            return vs[0] if len(vs) == 1 else self.union(vs)
        if k == 'Asg':
            rv = self.ev(fr, c[1], st)
            if n['op'] != '=':
                ov = self.ev(fr, c[0], st)
                rv = Val(rv.deps | ov.deps, rv.must | ov.must, None, rv.refs)
            self.store(fr, c[0], rv, st, i)
            return rv
        if k == 'Un':
            if n['op'] in ('++', '--'):
                ov = self.ev(fr, c[0], st)
                nv = Val(ov.deps, ov.must, None, ov.refs, None, ov.kind)
                self.store(fr, c[0], nv, st, i)
                return ov
            if n['op'] == '&':
                m = fn.nodes[c[0]]
                if m['k'] == 'Ref' and m.get('dk') == 'field': return Val(kind='const', refs=frozenset([('PM', m['d'])]))
                ls = self.lval(fr, c[0], st)
                v = self.ev(fr, c[0], st)
                rf = frozenset(ls) | v.refs
                exact = len(rf) == 1 and len(ls) == 1 and ls[0][0] in 'FL' and not m.get('t', '').endswith(']')
                return Val(v.deps, v.must, None, rf, v.obj, 'addr' if exact else None)
            if n['op'] == '*':
                v = self.ev(fr, c[0], st)
                if v.obj is not None: return v
                return self.deref(v, st)
            v = self.ev(fr, c[0], st)
            return Val(v.deps, v.must, None, EMPTY, None, v.kind)
        if k == 'Bin' and n['op'] in ('.*', '->*'):
            vs = [self.read_mem(fr, l, st) for l in self.lval(fr, i, st)]
            return vs[0] if len(vs) == 1 else self.union(vs)
        if k == 'Bin':
            a = self.ev(fr, c[0], st)
            if n['op'] in ('&&', '||'):
                b = self.ev(fr, c[1], st)
                return Val(a.deps | b.deps, a.must, None)
            b = self.ev(fr, c[1], st) if len(c) > 1 else Val()
            if n['op'] == ',': return b
            return Val(a.deps | b.deps, a.must | b.must, None, a.refs | b.refs if n['op'] in '+-' else EMPTY, None,
                       'const' if a.kind == b.kind == 'const' else None, None, a.alias | b.alias)
        if k == 'Cond':
            g = self.ev(fr, c[0], st); a = self.ev(fr, c[1], st); b = self.ev(fr, c[2], st)
            return join(a, b, g.deps)
        if k == 'Sub':
            a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
            d = self.deref(a, st)
            return Val(d.deps | b.deps, d.must | b.must, d.ident, d.refs, None, None, None, a.alias)
        if k == 'Cast': return self.ev(fr, c[0], st)
        if k == 'New':
            vs = [self.ev(fr, x, st) for x in c]
            u = self.union(vs)
            return Val(u.deps, u.must, None, EMPTY, None, 'new')
        if k == 'Delete':
            self.ev(fr, c[0], st); return Val()
        if k == 'IList':
            vs = [self.ev(fr, x, st) for x in c]
            if len(vs) == 1: return vs[0]
            u = self.union(vs); u.kind = 'const' if not u.deps else None
            return u
        if k == 'Ctor': return self.ctor(fr, i, st)
        if k == 'Call': return self.call(fr, i, st)
        if k == 'Throw': return Val()
        if k == 'Lambda': return Val(kind='lambda', v=('lam', fr, i))
        if k == 'Decl' or k == 'Var':
            self.ex(fr, i, st); return Val()
        return self.union([self.ev(fr, x, st) for x in c])

    def read_mem(self, fr, loc, st): return self.read(loc, st)
    def read_global(self, fr, i, st):
        d = fr.fn.nodes[i]['d']
        return st.get(('G', d)) or Val(frozenset([('global', d)]), None, None, EMPTY)

    def deref(self, v, st):
        """value obtained through a pointer: dependence of pointed-to locations"""
        d, m = v.deps, v.must
        for r in v.refs:
            x = self.read(r, st)
            d = d | x.deps
            if len(v.refs) == 1: m = m | x.must
        idt = None
        if v.ident is not None: idt = v.ident
        return Val(d, m, idt, v.refs, None, None, None, v.alias)

    def store(self, fr, i, v, st, node):
        """assignment to lvalue expression i"""
        fn = fr.fn; n = fn.nodes[i]; k = n['k']; c = fn.kids(i)
        if k == 'Ref':
            a = st.get(('A', fr.fid, n.get('d')))
            if a is not None:
                for l in a.refs: self.assign(fr, l, v, st, node, len(a.refs) == 1)
                return
            if n.get('dk') == 'global':
                self.write_global(fr, n['d'], v, st, node); return
            st[('L', fr.fid, n.get('d'))] = v
            if v.kind == 'uninit': st[('L', fr.fid, n.get('d'))] = Val(v.deps, v.must, v.ident, v.refs, v.obj)
            # reference parameter bound to caller location
            return
        if k == 'Mem' or k == 'Bin' and n['op'] in ('.*', '->*'):
            ls = self.lval(fr, i, st)
            for l in ls:
                if isinstance(l[1], tuple) and l[1][0] == 'sub':
                    self.assign(fr, ('F', l[1][1], l[1][2]), v, st, node, False)
                elif isinstance(l[1], tuple) and l[1][0] == 'loc':
                    o = st.get(('L', l[1][1], l[1][2])) or Val()
                    st[('L', l[1][1], l[1][2])] = Val(o.deps | v.deps, o.must | v.must, None, o.refs, o.obj)
                else:
                    self.assign(fr, l, v, st, node, len(ls) == 1)
            return
        if k == 'Sub' or (k == 'Un' and n['op'] == '*'):
            bv = self.ev(fr, c[0], st)
            idx = self.ev(fr, c[1], st) if k == 'Sub' else Val()
            if bv.kind == 'addr' and k == 'Un' and len(bv.refs) == 1:
                l, = bv.refs
                if l[0] == 'F': self.assign(fr, l, v, st, node, True)
                else: st[l] = v
                return
            self.write_through(fr, bv, v, st, node, c[0])
            return
        if k in ('Cast',): return self.store(fr, c[0], v, st, node)
        if k == 'Cond':
            self.store(fr, c[1], v, st, node); self.store(fr, c[2], v, st, node); return
        if k == 'Call':
            rv = self.ev(fr, i, st)
            self.write_through(fr, rv, v, st, node, c[0] if n.get('op') == '[]' and c else i)
            return
        if k == 'Asg' or (k == 'Un' and n['op'] in ('++', '--')):
            self.store(fr, c[0], v, st, node)

    def write_through(self, fr, bv, v, st, node, basei):
        """weak update of everything pointer value bv may reach"""
        if bv.obj is not None: return
        for l in bv.refs:
            if l[0] == 'F': self.assign(fr, l, v, st, node, False)
            elif l[0] == 'L':
                o = st.get(l) or Val(); st[l] = Val(o.deps | v.deps, o.must | v.must, None, o.refs, o.obj)
        # local array / pointer variable itself
        fn = fr.fn; x = strip(fn, basei)
        while fn.nodes[x]['k'] in ('Sub', 'Bin') and fn.kids(x):
            x = strip(fn, fn.kids(x)[0])
        if fn.nodes[x]['k'] == 'Ref' and fn.nodes[x].get('dk') in ('local', 'param'):
            l = ('L', fr.fid, fn.nodes[x]['d']); o = st.get(l) or Val()
            st[l] = Val(o.deps | v.deps, o.must | v.must, None, o.refs, o.obj, None if o.kind == 'uninit' else o.kind)
        elif fn.nodes[x]['k'] == 'Mem':
            for l in self.lval(fr, x, st):
                if l[0] == 'F' and l not in bv.refs: self.assign(fr, l, v, st, node, False)

    def write_global(self, fr, d, v, st, node): st[('G', d)] = v

    # ------------------------------------------------------------ calls
    def ctor(self, fr, i, st):
        fn = fr.fn; n = fn.nodes[i]; c = fn.kids(i)
        vs = [self.ev(fr, x, st) for x in c]
        if (n.get('copy') or n.get('move')) and len(vs) >= 1:
            v = vs[0]
            return Val(v.deps, v.must, v.ident, v.refs, v.obj, v.kind, v.v, v.alias)
        if not vs: return Val(kind='const')
        if n['n'] in ('SmartPointer',) and len(vs) == 1:
            v = vs[0]; return Val(v.deps, v.must, v.ident, v.refs, None, v.kind, None, v.alias)
        u = self.union(vs)
        return Val(u.deps, u.must, None, EMPTY, None, 'const' if all(v.kind == 'const' for v in vs) else None, vs[0].v)

    PURE_READ = {'strlen', 'sizeof'}

    def call(self, fr, i, st):
        fn = fr.fn; n = fn.nodes[i]; c = fn.kids(i); op = n.get('op'); q = n.get('q', '') or ''
        if n.get('indirect') or n.get('ptrmem'):
            vs = [self.ev(fr, x, st) for x in c]
            u = self.union(vs)
            self.havoc_args(fr, i, c, vs, u, st)
            return Val(u.deps, u.must)
        cls = n.get('cls', '')
        if op == '()' and n.get('mc') and c:
            lv = self.ev(fr, c[0], st)
            if isinstance(lv.v, tuple) and lv.v and lv.v[0] == 'lam':
                return self.run_lambda(fr, lv.v[1], lv.v[2], c[1:], [self.ev(fr, x, st) for x in c[1:]], st)
        if op == '=' and n.get('mc'):
            y = strip(fn, c[0])
            if fn.nodes[y]['k'] == 'Call' and fn.nodes[y].get('n') == 'tie':
                rv = self.ev(fr, c[1], st)
                for x in fn.kids(y):
                    for l in self.lval(fr, x, st): self.assign_opaque(fr, l, rv, st, i)
                return rv
        # operator= on tracked lvalue
        if op == '=' and n.get('mc'):
            rv = self.ev(fr, c[1], st)
            t = self.p.fns.get(n.get('f'))
            ov = self.ev(fr, c[0], st)
            if ov.obj is not None and rv.obj is not None and t is not None and not self.toodeep(t):
                s2, r = self.run(t, ov.obj, [rv], st.copy(), None, fr.depth + 1)
                if s2 is not None: st.clear(); st.update(s2)
                return ov
            self.store(fr, c[0], rv, st, i)
            return rv
        if n.get('mc') and len(c) == 1 and 'SmartPointer<' in cls and (op in ('->', '*', '()') or n.get('n', '').startswith('operator ') or n.get('n') == 'address'):
            v = self.ev(fr, c[0], st)
            return v
        if op == '()' and 'SmartPointer' in cls:
            return self.ev(fr, c[0], st)
        if op in ('[]',) and n.get('mc') and self.ev(fr, c[0], st).obj is None:
            a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
            d = self.deref(a, st)
            return Val(d.deps | b.deps, d.must | b.must, d.ident, d.refs, None, None, None, a.alias)
        if op in ('+=', '-=', '*=', '/=', '<<') and len(c) == 2 and n.get('mc') or (op in ('<<', '>>') and len(c) == 2):
            a = self.ev(fr, c[0], st); b = self.ev(fr, c[1], st)
            if op != '<<' or 'stringstream' in (fn.nodes[c[0]].get('t') or '') or True:
                for l in a.refs:
                    if l[0] in ('F', 'L') and op != '>>': self.assign_weak_any(fr, l, b, st, i)
                if op == '>>':
                    for l in self.lval(fr, c[1], st): self.assign_any(fr, l, Val(a.deps, a.must), st, i)
            return Val(a.deps | b.deps, a.must | b.must, None, a.refs)
        # method on this / tracked object, or free function
        recv = None; args = c
        if n.get('mc') and not n.get('op'):
            rnode = c[0]; args = c[1:]
            rv = self.ev(fr, rnode, st)
            recv = rv
        elif n.get('mc'):
            rv = self.ev(fr, c[0], st); recv = rv; args = c[1:]; rnode = c[0]
        vs = []
        for x in args:
            v = self.ev(fr, x, st)
            vs.append(v)
        hook = self.hook_call(fr, i, recv, args, vs, st)
        if hook is not None: return hook
        fid = n.get('f')
        target = None
        if recv is not None and recv.obj is not None:
            if n.get('virt') and not n.get('qual'):
                target = self.p.resolve(self.dyn_of(fr, recv.obj), fid)
            else:
                target = self.p.fns.get(fid)
        elif recv is None or n.get('stat'):
            target = self.p.fns.get(fid)
            if target is not None and not self.interesting(vs): target = None
        if target is not None and not self.toodeep(target) and self.may_inline(fr, i, target):
            avs = []
            for x, v, pm in zip(args, vs, target.d['params']):
                if pm['t'].endswith('&') and not v.obj:
                    ls = self.lval(fr, x, st)
                    if ls: v = Val(v.deps, v.must, v.ident, v.refs | frozenset(ls), v.obj, v.kind, v.v, v.alias)
                avs.append(v)
            st2 = st.copy()
            this = recv.obj if recv is not None else fr.this
            s2, r = self.run_with_refs(fr, target, this, avs, st2, self.dyn_of(fr, this) if recv is not None else None, args, st)
            if s2 is not None:
                st.clear(); st.update(s2)
            else: self.callee_dead(target)
            return r if r is not None else Val()
        u = self.union(vs + ([recv] if recv is not None else []))
        for v in vs:
            if isinstance(v.v, tuple) and v.v and v.v[0] == 'lam':
                s0 = st.copy()
                ptr = Val(u.deps, u.must, None, u.refs)
                self.run_lambda(fr, v.v[1], v.v[2], None, [ptr] * len(v.v[1].fn.nodes[v.v[2]].get('params', ())), st)
                j = self.join(s0, st); st.clear(); st.update(j)
        if not (n.get('f') or '').startswith('Gyoto::') and (n.get('f') or '').find(' &') >= 0:
            for x, t in zip(args, sig(n['f'])):
                if t.endswith(' &') and not t.startswith('const ') and 'stream' not in t:
                    for l in self.lval(fr, x, st):
                        if l[0] in 'FL': self.assign_opaque(fr, l, u, st, i)
        # unknown effect: out-arguments and the receiver absorb argument dependence
        if recv is not None and recv.obj is None and not n.get('cst'):
            au = self.union(vs)
            if vs:
                for l in recv.refs:
                    if l[0] in ('F', 'L'): self.assign_weak_any(fr, l, au, st, i)
                for l in self.lval(fr, rnode, st):
                    if l not in recv.refs and l[0] in ('F', 'L'): self.assign_weak_any(fr, l, au, st, i)
        self.havoc_args(fr, i, args, vs, u, st)
        idt = None
        if recv is not None and n.get('n') in ('clone',): idt = None
        if not n.get('op') and recv is not None and recv.obj is None and n.get('n') in ('c_str', 'data', 'get', 'address'):
            idt = recv.ident
        return Val(u.deps, u.must, idt, recv.refs if recv is not None and (n.get('t', '').endswith('*') or n.get('t', '').endswith('&')) and n.get('n') not in ('clone',) else EMPTY,
                   None, None, None, recv.alias if recv is not None and n.get('n') not in ('clone',) else EMPTY)

    def run_with_refs(self, fr, target, this, avs, st2, dyn, args, st):
        # bind reference parameters to caller locations
        fid = self.nfr + 1
        for x, v, pm in zip(args, avs, target.d['params']):
            if pm['t'].endswith('&') and not v.obj:
                ls = self.lval(fr, x, st)
                if ls: st2[('A', fid, pm['d'])] = Val(refs=frozenset(ls))
        return self.run(target, this, avs, st2, dyn, fr.depth + 1)

    def dyn_of(self, fr, obj): return fr.dyn
    def callee_dead(self, t): pass
    def interesting(self, vs): return True
    def may_inline(self, fr, i, t): return True
    def toodeep(self, t): return t.id in self.stack or len(self.stack) >= self.MAXDEPTH or self.budget <= 0 or t.kind == 'ctor'
    def hook_call(self, fr, i, recv, args, vs, st): return None

    def assign_opaque(self, fr, l, u, st, node):
        """l was given a value by something not interpreted"""
        o = self.read(l, st)
        v = Val(u.deps | o.deps, u.must & o.must, None, u.refs | o.refs - {l}, None, 'opaque', None, u.alias | o.alias)
        if l[0] == 'L': st[l] = v
        elif l[0] == 'F': self.assign(fr, l, v, st, node, True)

    def assign_any(self, fr, l, v, st, node):
        if l[0] == 'L': st[l] = v
        elif l[0] == 'F': self.assign(fr, l, v, st, node, True)

    def assign_weak_any(self, fr, l, v, st, node):
        if l[0] == 'L':
            o = st.get(l) or Val(); st[l] = Val(o.deps | v.deps, o.must | v.must, None, o.refs, o.obj)
        elif l[0] == 'F': self.assign(fr, l, v, st, node, False)

    def havoc_args(self, fr, i, args, vs, u, st):
        fn = fr.fn; n = fn.nodes[i]
        for x, v in zip(args, vs):
            t = fn.nodes[x].get('t', '')
            isptr = t.endswith('*') or t.endswith(']') or fn.nodes[x]['k'] == 'Un' and fn.nodes[x]['op'] == '&'
            if not isptr: continue
            if t.startswith('const '): continue
            for l in v.refs:
                if l[0] in ('F', 'L'): self.assign_weak_any(fr, l, u, st, i)
            y = strip(fn, x)
            if fn.nodes[y]['k'] == 'Ref' and fn.nodes[y].get('dk') in ('local', 'param'):
                l = ('L', fr.fid, fn.nodes[y]['d']); o = st.get(l) or Val()
                st[l] = Val(o.deps | u.deps, o.must | u.must, None, o.refs, o.obj, None)
