"""Driver: decides one property from the current sources of /repo.

exit 0  every obligation of the property is discharged
exit 1  VIOLATION line: some construct breaks the property
exit 2  the analysis is broken or could not decide (never a pass, never an alarm)
"""
import os, sys, json, time, importlib, shutil, traceback, re, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
import eqn
from eqn import AnalysisError
from common import Result, Finding

KNOWN = os.path.join(VERIF, 'known_findings.txt')

# equation properties: witness files, and the least number of obligations and
# of repository functions that must take part (vacuity guard)
EQ = json.load(open(os.path.join(VERIF, 'witness', 'registry.json')))


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run_eq(pid, d, tier):
    spec = EQ[pid]
    res = Result()
    fns = set()
    nob = nok = ninstr = ncalls = njoins = 0
    per = {}
    for src in spec['files']:
        rs, st = eqn.run_file(os.path.join(VERIF, 'witness', src), d)
        fns |= st['functions_analysed']
        ninstr += st['instructions']
        ncalls += st['calls']
        njoins += st['joins']
        for n, ob, r, txt, locs in rs:
            nob += 1
            per.setdefault(n, [0, 0])[0] += 1
            if r[0] == 'ok':
                nok += 1
                per[n][1] += 1
                continue
            label = ob.label if ob else '?'
            key = eqn.obkey(n, label)
            if r[0] == 'undecided':
                res.undecided.append('%s: %s' % (key, r[1]))
                continue
            where = []
            dm = eqn.demangle([s for (f, s) in locs if s and f != 'call'])
            for (f, s), l in sorted(locs.items(), key=str):
                if f != 'call':
                    where.append('%s:%s %s' % (f.split('/repo/')[-1], ','.join(map(str, sorted(l)[:12])), dm.get(s, s)))
            res.findings.append(Finding('equation', key, '', 0,
                                        'the law "%s" does not hold: %s' % (label, txt), where))
    if any(f.key not in eqn.KNOWN_KEYS for f in res.findings):
        spec = {'min_obligations': 0, 'min_functions': 0, 'files': spec['files']}   # the run stops early once a law is broken
    if nob < spec['min_obligations']:
        raise AnalysisError('%s: %d obligations, expected at least %d' % (pid, nob, spec['min_obligations']))
    if len(fns) < spec['min_functions']:
        raise AnalysisError('%s: %d repository functions took part, expected at least %d' % (pid, len(fns), spec['min_functions']))
    dm = eqn.demangle(sorted(fns))
    res.coverage = {
        'rule': 'algebraic value numbering of the compiler IR of the functions below; every law of the equation files %s must reduce to an identity of normal forms on every gated branch' % ', '.join(spec['files']),
        'laws': len(per), 'obligations': nob, 'discharged': nok,
        'ir_instructions_numbered': ninstr, 'phi_and_memory_joins': njoins, 'calls_followed': ncalls,
        'repository_functions': len(fns), 'functions': sorted(dm.get(f, f) for f in fns)[:400],
        'obligations_per_law': {k: v[0] for k, v in sorted(per.items())},
    }
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    d = eqn.scratch()
    try:
        parts = []
        eqn.KNOWN_KEYS |= set(known_findings(pid))
        if pid in EQ:
            parts.append(run_eq(pid, d, tier))
        mp = os.path.join(VERIF, 'rules', pid + '.py')
        if os.path.exists(mp):
            mod = importlib.import_module('rules.' + pid)
            parts.append(mod.run(d, tier))
        if not parts:
            print('ANALYSIS ERROR: no rule for property %s' % pid)
            return 2
    except AnalysisError as e:
        print('ANALYSIS ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS ERROR property=%s internal error' % pid)
        return 2
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = Result.merge(parts)
    kn = known_findings(pid)
    new, old = [], []
    for f in res.findings:
        (old if f.key in kn else new).append(f)
    seen = set()
    for f in old:
        if f.key not in seen:
            seen.add(f.key)
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[f.key], f.key))
    wall = time.time() - t0
    cov = dict(res.coverage)
    cov['explanation'] = cov.pop('rule', '')
    cov['known_findings_seen'] = len(seen)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(new),
          'assumptions': res.assumptions or ASSUME}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if new:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as o:
            o.write('property %s\n' % pid)
            for f in new:
                o.write(f.text() + '\n')
        for f in new[:12]:
            print(f.text())
        if len(new) > 12:
            print('... %d more in %s' % (len(new) - 12, rp))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if res.undecided:
        for u in res.undecided[:20]:
            print('UNDECIDED property=%s %s' % (pid, u))
        return 2
    nums = {k: v for k, v in cov.items() if isinstance(v, int)}
    print('OK property=%s %s (%.1fs)' % (pid, ' '.join('%s=%s' % kv for kv in sorted(nums.items())), wall))
    return 0


ASSUME = ['real arithmetic: floating-point rounding, overflow and NaN are not modelled',
          'clang-18 lowers the sources as g++ does (no miscompilation, no undefined behaviour exploited)',
          'KDL::epsilon lies in [1e-12, 1e-3]']

if __name__ == '__main__':
    sys.exit(main())
