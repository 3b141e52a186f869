"""For every copy constructor of a clonable (SmartPointee-derived) class, and
every data member own or inherited: on every path to the end of construction
the member's final value is data-dependent on the same member of the source
object (scalars and strings: on all paths, or under a branch deciding on that
same source member; arrays/pointers: on some path, the others being guarded by
source data).  Scalars are equal to the source member (identity flow).  Arrays:
the symbolic number of elements or bytes copied equals the number allocated, from
the same member at the same offset.  Members that nothing reads are unobservable and skipped."""
from cloning import *
from arrcopy import check_copy_ctor
from facts import AnalysisBroken
LEVEL = 'proof'
ASSUME = ['A callee without body in the repository (libc, STL, Eigen, Lorene) makes its result and out-arguments depend on its arguments only.',
          'Numbers, flags and strings are shown equal to those of the source; for the contents of arrays and tables the size, the source and the offset of the copy are decided.']

# member -> (reason, source member(s) its copy must derive from, or None)
EXEMPT = {
    'Gyoto::SmartPointee::refCount': ('a new object starts its own reference count', None),
    'Gyoto::SmartPointee::mutex_': ('a new object owns its own lock', None),
    'Gyoto::Scenery::nprocesses_': ('worker processes belong to the original; the clone starts without', None),
    'Gyoto::Scenery::mpi_team_': ('worker processes belong to the original; the clone starts without', None),
    'Gyoto::Hook::Teller::listeners_': ('listeners subscribed to the original, not to the copy', None),
    'Gyoto::Worldline::metric_@Gyoto::Astrobj::Star': ('a Star keeps a single metric in both roles', 'Gyoto::Astrobj::Generic::gg_'),
    'Gyoto::Astrobj::Generic::gg_@Gyoto::Astrobj::NeutronStar': ('typed view and generic view of one metric', 'Gyoto::Astrobj::NeutronStar::gg_'),
    'Gyoto::Spectrometer::Generic::boundaries_@Gyoto::Spectrometer::Uniform': ('recomputed from band, count and kind', 'Gyoto::Spectrometer::Uniform::band_'),
    'Gyoto::Spectrometer::Generic::midpoints_@Gyoto::Spectrometer::Uniform': ('recomputed from band, count and kind', 'Gyoto::Spectrometer::Uniform::band_'),
    'Gyoto::Spectrometer::Generic::widths_@Gyoto::Spectrometer::Uniform': ('recomputed from band, count and kind', 'Gyoto::Spectrometer::Uniform::band_'),
    'Gyoto::Spectrometer::Generic::chanind_@Gyoto::Spectrometer::Uniform': ('recomputed from the number of samples', 'Gyoto::Spectrometer::Generic::nsamples_'),
    'Gyoto::Astrobj::OscilTorus::kerrbl_': ('typed view of the metric member', 'Gyoto::Astrobj::Generic::gg_'),
    'Gyoto::Metric::RotStar3_1::star_': ('reloaded from the file name', 'Gyoto::Metric::RotStar3_1::filename_'),
}
for _m in 'lapse_tab_ shift_tab_ gamcov_tab_ gamcon_tab_ kij_tab_ times_ nb_times_ nssurf_tab_ vsurf_tab_ accel_tab_ lorentz_tab_ hor_tab_'.split():
    EXEMPT['Gyoto::Metric::NumericalMetricLorene::' + _m] = ('reloaded from the directory name', 'Gyoto::Metric::NumericalMetricLorene::filename_')

# worldline-bound integration states: settings a clone keeps (everything else is
# recomputed from the worldline by init())
STATE_CONFIG = {'Gyoto::Worldline::IntegState::Generic': {'kind_': 'numerical scheme', 'integ_31_': '4D or 3+1 equations'}}
# extent of a computed trajectory; the copy may keep a sub-range
NOT_IDENT = {'Gyoto::Worldline::imin_', 'Gyoto::Worldline::imax_', 'Gyoto::Worldline::i0_'}


def run(p, R):
    cts = copy_ctors(p)
    reads = field_reads(p)
    nf = nst = na = und = 0
    for f in cts:
        ai, st = abstract_copy(p, f)
        R.funcs |= ai.inlined
        na += check_copy_ctor(p, f, R, lambda m: short(f.cls) + '<-' + short(m))
        if st is None:
            R.ob(short(f.cls) + '#copy', f.loc(), False, 'copy constructor cannot complete on any path'); continue
        for c, fl in p.fields(f.cls, True):
            m = c + '::' + fl['n']
            nf += 1
            key = '%s<-%s' % (short(f.cls), short(m))
            if m not in reads: continue
            v = st.get(('F', 'this', m), UNINIT)
            where = f.loc()
            tr = ai.trace.get(('F', 'this', m))
            if tr: where = tr[-1][0].loc(tr[-1][1])
            ex = EXEMPT.get(m)
            for a in [f.cls] + p.ancestors(f.cls):
                ex = ex or EXEMPT.get(m + '@' + a)
            if ex and ('o', m) not in v.deps:
                src = ex[1]
                if src is None: continue
                R.ob(key, where, ('o', src) in v.deps or ('c', 'o', src) in v.deps, 'member %s of the clone is no longer derived from the source\'s %s' % (short(m), short(src)))
                continue
            ex = None
            if m == 'Gyoto::Object::kind_' and ('o', m) not in v.deps and v.kind == 'const' and v.v and v.v in kinds(p, f.cls):
                R.ob(key, where, True); continue
            if v.kind == 'opaque': und += 1; continue
            if ('o', m) not in v.deps:
                got = ', '.join(sorted(short(d[1]) for d in v.deps if d[0] != 'c')) or ('never set' if v.kind == 'uninit' else 'a constant')
                R.ob(key, where, False, 'clone of %s: member %s does not come from the source\'s %s (comes from: %s)' % (short(f.cls), fl['n'], fl['n'], got))
                continue
            if is_scalar(fl['t']) and ('o', m) not in v.must and ('c', 'o', m) not in v.must and not lorene_reload(m):
                R.ob(key, where, False, 'clone of %s: on some path member %s does not come from the source' % (short(f.cls), fl['n']))
                continue
            if is_scalar(fl['t']) and m not in NOT_IDENT and not lorene_reload(m) and v.ident != ('o', m):
                R.ob(key, where, False, 'clone of %s: member %s is computed from, but not equal to, the source\'s %s' % (short(f.cls), fl['n'], fl['n']))
                continue
            R.ob(key, where, True)
    # integration states are cloned for another worldline by a non-copy constructor
    for q, members in STATE_CONFIG.items():
        for d in sorted(p.derived[q]):
            for f in p.by_cls[d]:
                if f.n != 'clone': continue
                ai, st, rv = abstract_clone(p, f)
                if rv.obj is None: R.ob(short(d) + '#clone', f.loc(), False, 'clone() does not return the object it makes'); continue
                for c, fl in p.fields(d, True):
                    m = c + '::' + fl['n']
                    if fl['n'] not in members: continue
                    nst += 1
                    v = st.get(('F', rv.obj, m), UNINIT)
                    R.ob('%s<-%s' % (short(d), short(m)), f.loc(), v.ident == ('o', m), 'the clone of a %s does not take %s from the original' % (short(d), fl['n']))
    R.need('array copies', na, 200)
    R.counts['members set by code not interpreted'] = und
    R.need('integration state settings', nst, 3)
    R.need('copy constructors', len(cts), 70)
    R.need('members examined', nf, 900)
    R.counts['functions interpreted'] = len(R.funcs)


def kinds(p, cls):
    """kind names the other constructors of the class give to a fresh object"""
    out = set()
    for g in p.by_cls[cls]:
        if g.kind == 'ctor' and not g.d.get('copy') and not g.d.get('move'):
            ai = DepAI(p)
            st, _ = ai.run(g, 'this', None, State())
            if st is not None:
                v = st.get(('F', 'this', 'Gyoto::Object::kind_'))
                if v is not None and v.kind == 'const' and v.v: out.add(v.v)
    return out


def lorene_reload(m):
    # re-derived while the directory is re-read
    return m in ('Gyoto::Metric::NumericalMetricLorene::risco_', 'Gyoto::Metric::NumericalMetricLorene::rmb_')
