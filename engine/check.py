#!/usr/bin/env python3
"""check.py ID : decide one property on /repo's current working tree.
exit 0 held, exit 1 + VIOLATION line, exit 3 analysis broken."""
import os, sys, json, time, re, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules'))
sys.setrecursionlimit(20000)
from facts import VERIF, REPO, AnalysisBroken


class Report:
    def __init__(self, pid):
        self.pid = pid; self.obs = {}; self.viol = []; self.mins = {}; self.counts = {}; self.assume = []; self.rule = ''
        self.funcs = set()

    def ob(self, key, loc, ok, msg='', detail=None):
        """one obligation: key identifies the construct independently of line numbers"""
        if key in self.obs and not self.obs[key][1]:
            return
        self.obs[key] = (loc, bool(ok), msg)
        if not ok:
            self.viol.append({'key': key, 'loc': loc, 'msg': msg, 'detail': detail})

    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, n, minimum):
        """vacuity guard: fewer instances than confirmed by hand -> analysis broken"""
        self.counts[name] = n
        if n < minimum:
            raise AnalysisBroken('%s: only %d instances of "%s" found (confirmed minimum %d)' % (self.pid, n, name, minimum))


def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+)\s+(.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    R = Report(pid)
    try:
        from model import Prog
        prog = Prog(getattr(mod, 'GROUPS', None))
        R.counts['translation units'] = len(prog.tus)
        R.counts['functions in scope'] = len(prog.fns)
        mod.run(prog, R)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 3
    kn = dict(known(pid))
    new, old = [], []
    for v in R.viol:
        (old if v['key'] in kn else new).append(v)
    for v in old:
        print('KNOWN-FINDING: property=%s %s (%s) %s' % (pid, v['key'], v['loc'], kn[v['key']]))
    ed = os.path.join(VERIF, 'evidence'); os.makedirs(os.path.join(ed, 'replay'), exist_ok=True)
    nob = len(R.obs); bad = len({v['key'] for v in R.viol})
    samples = []
    for k in sorted(R.obs)[:: max(1, nob // 12)][:14]:
        l, ok, m = R.obs[k]
        samples.append('%s @ %s : %s' % (k, l, 'holds' if ok else m))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
          'coverage': {'obligations': nob, 'discharged': nob - bad,
                       'checker_cmd': 'python3 /verif/engine/check.py ' + pid,
                       'trusted_base': ['clang 18 front end (AST, name lookup, overload resolution, CFG)',
                                        '/verif/tool/extract.cc fact extractor', '/verif/engine (analysis code)'] + getattr(mod, 'TRUSTED', []),
                       'rule': mod.__doc__.strip() if mod.__doc__ else '',
                       'analysed': R.counts, 'samples': samples,
                       'known_findings': [v['key'] for v in old]},
          'assumptions': getattr(mod, 'ASSUME', []) + R.assume,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    rc = 0
    seen = set()
    for i, v in enumerate(new):
        if v['key'] in seen: continue
        seen.add(v['key'])
        rp = os.path.join(ed, 'replay', '%s-%d.txt' % (pid, i))
        with open(rp, 'w') as fh:
            fh.write('property %s\nconstruct %s\nlocation %s\n%s\n' % (pid, v['key'], v['loc'], v['msg']))
            if v['detail']: fh.write('%s\n' % v['detail'])
            fh.write('rule: %s\nre-run: python3 /verif/engine/check.py %s\n' % ((mod.__doc__ or '').strip(), pid))
        if len(seen) <= 40:
            print('%s: %s: %s' % (v['loc'], v['key'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    with open(os.path.join(ed, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %d discharged, %d known finding(s), %d violation(s); %s; %.1fs' % (
        pid, nob, nob - bad, len({v['key'] for v in old}), len(seen), ', '.join('%s=%s' % kv for kv in R.counts.items()), time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
