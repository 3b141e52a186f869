"""For every copy constructor of a clonable class: no raw-pointer or
SmartPointer member of the copy (nor an element of a pointer array) may hold,
on any path, the very pointer held by the source object; it must be cloned,
re-allocated or re-derived."""
from cloning import *
LEVEL = 'proof'
ASSUME = ['Units::Converter objects are immutable once built and may be shared.',
          'Python object pointers are reference counted by the interpreter (their counting is decided by another property).']
SHARE_OK = {
    'Gyoto::Spectrometer::Generic::kindid_': 'address of a static identifier string, compared by address',
}


def pointerish(t): return t.endswith('*') or 'SmartPointer<' in t or t.endswith('*]') or '*[' in t


def run(p, R):
    cts = copy_ctors(p); n = 0
    for f in cts:
        ai, st = abstract_copy(p, f)
        if st is None: continue
        for c, fl in p.fields(f.cls, True):
            t = fl['t']
            if not pointerish(t): continue
            m = c + '::' + fl['n']
            if m in SHARE_OK or t == '_object *' or 'Units::Converter' in t: continue
            n += 1
            v = st.get(('F', 'this', m), UNINIT)
            al = sorted(a for a in v.alias if a[0] == 'o')
            where = f.loc()
            tr = ai.trace.get(('F', 'this', m))
            if tr: where = tr[-1][0].loc(tr[-1][1])
            R.ob('%s::%s' % (short(f.cls), short(m)), where, not al,
                 'the copy shares %s with the original (same pointer as source %s)' % (fl['n'], ', '.join(short(a[1]) for a in al)))
    R.need('copy constructors', len(cts), 70)
    R.need('pointer members examined', n, 300)
