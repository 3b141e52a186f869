"""Definite initialisation.  Every constructor of every class of the library that
is not a copy (base-class constructors, member initialisers, in-class
initialisers and the functions it calls inlined) is interpreted abstractly: at its
end every number, flag, enumerator, raw pointer and fixed-size array member, own
or inherited, that some function reads has been given a value on every path.
Members that belong to a computation and are set at its start are listed with the
function that sets them, which must still do so on every path that completes."""
from util import *
from cloning import field_reads, is_scalar
from depai import DepAI, State, UNINIT
LEVEL = 'proof'
ASSUME = ['Members of class type are initialised by their own constructors.',
          'An array member counts as initialised when a loop or call of the constructor writes it.']
# member -> function that sets it before each use, and why
LATE = {
 'Gyoto::Worldline::stopcond': ('Gyoto::Photon::hit', 'state of one integration'),
 'Gyoto::Factory::impl_': (None, 'set by the constructors that create a document; only they use it'),
 'Gyoto::Worldline::IntegState::Generic::adaptive_': ('Gyoto::Worldline::IntegState::Generic::init', 'read from the worldline'),
 'Gyoto::Worldline::IntegState::Generic::parallel_transport_': ('Gyoto::Worldline::IntegState::Generic::init', 'read from the worldline'),
 'Gyoto::Worldline::IntegState::Generic::check_basis_': ('Gyoto::Worldline::IntegState::Generic::init', 'read from the worldline'),
 'Gyoto::Worldline::IntegState::Generic::delta_': ('Gyoto::Worldline::IntegState::Generic::init', 'state of one integration'),
 'Gyoto::Worldline::IntegState::Generic::norm_': ('Gyoto::Worldline::IntegState::Generic::init', 'state of one integration'),
 'Gyoto::Worldline::IntegState::Generic::normref_': ('Gyoto::Worldline::IntegState::Generic::init', 'state of one integration'),
 'Gyoto::Astrobj::SimBridge::emisInFile_': ('Gyoto::Astrobj::SimBridge::filename', 'describes the files once given'),
 'Gyoto::Astrobj::SimBridge::absInFile_': ('Gyoto::Astrobj::SimBridge::filename', 'describes the files once given'),
 'Gyoto::Astrobj::SimBridge::rotInFile_': ('Gyoto::Astrobj::SimBridge::filename', 'describes the files once given'),
}


def writes(f, m):
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] == 'Asg':
            l = strip(f, n['c'][0])
            while f.nodes[l]['k'] == 'Sub': l = strip(f, f.kids(l)[0])
            if f.nodes[l].get('d') == m: return True
    return False


def plain(t):
    t = t.replace('const ', '')
    return t.endswith('*') or '[' in t or is_scalar(t) and not t.startswith('std::')


def run(p, R):
    reads = field_reads(p); nf = 0; nc = 0; und = 0; need = set()
    enums = set(p.enums)
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.kind != 'ctor' or f.d.get('copy') or f.d.get('move') or f.d.get('implicit') or not f.cls.startswith('Gyoto::'): continue
        ai = DepAI(p); ai.budget = 3000000
        st, _ = ai.run(f, 'this', None, State())
        if st is None: continue
        nc += 1
        for c, fl in p.fields(f.cls, True):
            m = c + '::' + fl['n']; t = fl['t']
            if m not in reads or not (plain(t) and (not t.startswith('Gyoto::') or t.endswith('*')) or t.replace('const ', '') in enums): continue
            if fl.get('dinit'): continue
            nf += 1
            v = st.get(('F', 'this', m), UNINIT)
            bad = v.kind in ('uninit', 'mixed-uninit')
            if bad and '[' not in t and any(not q[3] for q in ai.trace.get(('F', 'this', m), ())): und += 1; continue     # written through a pointer
            if bad and m in LATE: need.add(m); continue
            if bad and v.kind == 'mixed-uninit' and '[' in t: bad = False
            R.ob('%s:%s' % (f.id.split('(')[0].replace('Gyoto::', '') + '/%d' % len(f.d['params']), short(m)), f.loc(), not bad, 'this constructor leaves %s uninitialised%s, and it is read elsewhere' % (short(m), ' on some path' if v.kind == 'mixed-uninit' else ''))
    for m in sorted(need):
        q = LATE[m][0]
        if q is None: continue
        gs = [g for g in p.fns.values() if g.q == q]
        R.ob('late:' + short(m), gs[0].loc() if gs else '', any(writes(g, m) for g in gs), '%s is neither initialised by the constructors nor by %s' % (short(m), short(q)))
    R.need('constructors', nc, 100); R.need('members examined', nf, 2000)
    R.counts['members written through a pointer (undecided)'] = und
