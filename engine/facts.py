"""Build the extractor, run it over every translation unit of /repo's working
tree, and load the merged facts.  Results are cached under /verif/.cache keyed
by the contents of every input, so an edit to /repo always re-analyses."""
import os, re, sys, json, hashlib, subprocess, pickle, time, glob, gc
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GYOTO_REPO', '/repo')
CACHE = os.environ.get('GYOTO_VERIF_CACHE', os.path.join(VERIF, '.cache'))
SRC = os.path.join(VERIF, 'tool', 'extract.cc')


class AnalysisBroken(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    key = sha(rd(SRC))[:16]
    exe = os.path.join(CACHE, 'gyfacts-' + key)
    if os.path.exists(exe):
        return exe
    cxxf = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    cxxf = [f for f in cxxf if not f.startswith('-std') and not f.startswith('-O')]
    ldf = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs'], text=True).split()
    lib = '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1'
    if not os.path.exists(lib):
        lib = glob.glob('/usr/lib/*/libclang-cpp.so.18*')[0]
    tmp = exe + '.%d' % os.getpid()
    r = subprocess.run(['clang++-18', '-O1', '-std=c++17', '-fno-rtti', SRC, '-o', tmp] + cxxf + [lib] + ldf,
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build extractor:\n' + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def am_list(path, var_re):
    """Source lists from a Makefile.am (variable name regex)."""
    t = rd(path).decode()
    t = t.replace('\\\n', ' ')
    out = []
    for m in re.finditer(r'^(?:%s)\s*\+?=\s*(.*)$' % var_re, t, re.M):
        for w in m.group(1).split():
            if w.endswith('.C'):
                out.append(w)
    return out


def flags_common():
    b = os.path.join(REPO, '_build')
    gen = b if os.path.exists(os.path.join(b, 'include', 'GyotoConfig.h')) and os.path.exists(os.path.join(b, 'config.h')) \
        else os.path.join(VERIF, 'config', 'gen')
    f = ['-xc++', '-std=c++17', '-DHAVE_CONFIG_H', '-DGYOTO_NO_DEPRECATED', '-w', '-ferror-limit=5',
         '-I' + gen, '-I' + gen + '/include', '-I' + REPO + '/include', '-I' + REPO + '/lib',
         '-I/usr/include/eigen3',
         '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
         '-DGYOTO_PKGLIBDIR="/usr/local/lib/gyoto"']
    return f, gen


def tus():
    com, gen = flags_common()
    L = []
    am = os.path.join(REPO, 'lib', 'Makefile.am')
    for s in am_list(am, r'libgyoto@FEATURES@_la_SOURCES'):
        L.append(('lib/' + s, com, 'core'))
    for s in am_list(am, r'libgyoto_stdplug_la_SOURCES|cfitsio_stdplug_sources'):
        L.append(('lib/' + s, com + ['-DGYOTO_PLUGIN=stdplug'], 'stdplug'))
    for s in am_list(am, r'libgyoto_lorene_la_SOURCES'):
        L.append(('lib/' + s, com + ['-I/usr/lib/x86_64-linux-gnu/lorene/C++/Include', '-DGYOTO_PLUGIN=lorene'], 'lorene'))
    pam = os.path.join(REPO, 'plugins/python/lib/Makefile.am')
    pyi = ['-I' + REPO + '/plugins/python/include', '-I/usr/include/python3.12',
           '-I/usr/lib/python3/dist-packages/numpy/core/include', '-DGYOTO_PREFIX="/usr/local"', '-DGYOTO_PLUGIN=python3.12']
    for s in am_list(pam, r'libgyoto_@pluginname@_la_SOURCES'):
        L.append(('plugins/python/lib/' + s, com + pyi, 'python'))
    nam = os.path.join(REPO, 'plugins/null/lib/Makefile.am')
    if os.path.exists(nam):
        for s in am_list(nam, r'\S+_SOURCES'):
            L.append(('plugins/null/lib/' + s, com + ['-DGYOTO_PLUGIN=null', '-I' + REPO + '/plugins/null/include'], 'null'))
    for s in ('bin/gyoto.C', 'bin/gyoto-mpi-worker.C'):
        L.append((s, com + ['-I' + REPO + '/bin'], 'bin'))
    if os.path.isdir('/usr/lib/yorick/include'):
        objs = set()
        for mk in ('yorick/Makefile.in', 'yorick/stdplug/Makefile.in'):
            objs |= set(re.findall(r'(\w+)\.o\b', rd(os.path.join(REPO, mk)).decode()))
        for p in sorted(glob.glob(REPO + '/yorick/*.C')) + sorted(glob.glob(REPO + '/yorick/stdplug/*.C')):
            if os.path.basename(p)[:-2] not in objs:
                continue
            L.append((os.path.relpath(p, REPO), com + ['-I/usr/lib/yorick/include', '-I' + REPO + '/yorick', '-DYLIB_H', '-Wno-everything'], 'yorick'))
    seen, R = set(), []
    for s, f, g in L:
        if s in seen:
            continue
        seen.add(s)
        if not os.path.exists(os.path.join(REPO, s)):
            raise AnalysisBroken('source listed in the build but missing: ' + s)
        R.append((s, f, g))
    return R, gen


INC = re.compile(rb'^[ \t]*#[ \t]*include(?:_next)?[ \t]*["<]([^">]+)[">]', re.M)
INCM = re.compile(rb'^[ \t]*#[ \t]*include[ \t]+[A-Za-z_]', re.M)


def header_hash(gen):
    """function: source file -> hash of every header of the repository it may include
    (textual closure over all #include lines, conditional or not, by base name)"""
    byname = {}
    for d in ('include', 'lib', 'plugins/python/include', 'plugins/python/lib', 'plugins/null/include', 'plugins/null/lib', 'bin', 'yorick', 'yorick/stdplug'):
        for f in glob.glob(os.path.join(REPO, d, '*')):
            if os.path.isfile(f):
                byname.setdefault(os.path.basename(f), []).append(f)
    for f in (gen + '/config.h', gen + '/include/GyotoConfig.h'):
        byname.setdefault(os.path.basename(f), []).append(f)
    info = {}

    def direct(f):
        if f not in info:
            t = rd(f)
            allf = bool(INCM.search(t))        # computed include: assume it may be any header
            ns = [n for n in byname if n.endswith(('.h', '.icpp'))] if allf else {m.decode().split('/')[-1] for m in INC.findall(t)}
            info[f] = (hashlib.sha256(t).hexdigest(), [g for n in ns for g in byname.get(n, ())])
        return info[f]

    def closure(f):
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g in seen: continue
            seen.add(g); todo += direct(g)[1]
        return sha(*['%s %s' % (g, info[g][0]) for g in sorted(seen)])
    return closure


def extract(groups=None, verbose=False):
    exe = build_tool()
    L, gen = tus()
    hh = header_hash(gen)
    tool = sha(rd(SRC))
    jobs = []
    for s, f, g in L:
        if groups and g not in groups:
            continue
        key = sha(tool, s, ' '.join(f), hh(os.path.join(REPO, s)), REPO)[:24]
        jobs.append((s, f, g, os.path.join(CACHE, 'tu', key + '.json')))
    os.makedirs(os.path.join(CACHE, 'tu'), exist_ok=True)

    def run(j):
        s, f, g, out = j
        if os.path.exists(out):
            return None
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run([exe, '--root=' + REPO, '--out=' + tmp, os.path.join(REPO, s), '--'] + f,
                           capture_output=True, text=True)
        if not os.path.exists(tmp):
            return 'cannot analyse %s:\n%s' % (s, r.stderr[-2000:])
        os.replace(tmp, out)
        return None
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(run, jobs) if e]
    if errs:
        raise AnalysisBroken('\n'.join(errs))
    return jobs


def _slim(j):
    with open(j[3]) as fh:
        d = json.load(fh)
    p = j[3][:-5] + '.pkl'
    tmp = p + '.%d' % os.getpid()
    with open(tmp, 'wb') as fh:
        pickle.dump(d, fh, protocol=5)
    os.replace(tmp, p)
    return p


def load(groups=None):
    jobs = extract(groups)
    key = sha(*[j[3] for j in jobs])[:20]
    allp = os.path.join(CACHE, 'all-' + key + '.pkl')
    gc.disable()
    if os.path.exists(allp):
        with open(allp, 'rb') as fh:
            P = pickle.load(fh)
    else:
        P = {'funcs': {}, 'classes': {}, 'vars': {}, 'enums': {}, 'tus': []}
        for s, f, g, out in jobs:
            with open(out) as fh:
                d = json.load(fh)
            P['tus'].append((s, g))
            for x in d['funcs']:
                x['grp'] = g; x['tu'] = s
                P['funcs'].setdefault(x['id'], x)
            for x in d['classes']:
                if x['q'] not in P['classes'] or len(x['methods']) > len(P['classes'][x['q']]['methods']):
                    x['grp'] = g
                    P['classes'][x['q']] = x
            for x in d['vars']:
                o = P['vars'].get(x['id'])
                if o is None or (x.get('def') and not o.get('def')) or ('init' in x and 'init' not in o):
                    x['grp'] = g
                    P['vars'][x['id']] = x
            for x in d['enums']:
                P['enums'].setdefault(x['q'], x)
        for old in glob.glob(os.path.join(CACHE, 'all-*.pkl')):
            try:
                os.remove(old)
            except OSError:
                pass
        tmp = allp + '.%d' % os.getpid()
        with open(tmp, 'wb') as fh:
            pickle.dump(P, fh, protocol=5)
        os.replace(tmp, allp)
    gc.enable()
    return P


if __name__ == '__main__':
    t = time.time()
    P = load()
    print(len(P['tus']), 'TUs', len(P['funcs']), 'functions', len(P['classes']), 'classes', len(P['vars']), 'vars', '%.1fs' % (time.time() - t))
