"""C30: memory is used inside of live objects, and released once.

The value numbering of lib/gvn.py, with the rules of lib/memcheck.py on: along
the equation functions listed below (which build chains, trees, solvers, paths,
profiles, trajectories and texts and use them in every way the laws need), for
every size and value they leave open,
 rule `bounds`   every read and write lies inside of the object it is made in,
 rule `trap`     no fixed-size array is indexed outside of its range,
 rule `null`     nothing is read or written through a null pointer,
 rule `released` nothing is used after its release, `twice` released twice,
                 `mismatch` or in another way than it was made, `foreign` that
                 was not made by an allocation,
 rule `leak`     nothing that the library made is left over at the end.
"""
import os, time, signal, multiprocessing, shutil
from concurrent.futures import ProcessPoolExecutor, as_completed, TimeoutError
import eqn
from eqn import AnalysisError
from common import Result, Finding

# equation files, functions of them (regular expression), whether they release what they are given
FILES = [('C23', None, True), ('C20', None, True), ('C22', None, True), ('C18', '^w_(?!givens7|pinv7)', True), ('C24', None, True), ('C20b', None, True), ('C14', None, True), ('C17', None, True), ('C16', None, True), ('C13', None, True),
         ('C28', None, False), ('C17b', None, True), ('C17c', None, True), ('C25', None, True), ('C26', None, True), ('C19b', None, True), ('C27', None, True), ('C19', None, True), ('C12', None, True), ('C10', None, False), ('C15', None, True), ('C30', None, True)]
MIN_ACCESSES, MIN_ALLOCATIONS = 700000, 3500


def group():
    os.setpgid(0, 0)                # so that it can be stopped with its children


def one(f, want, d):
    sub = os.path.join(d, f)
    os.makedirs(sub)
    try:
        return f, eqn.run_mem_file(os.path.join(eqn.VERIF, 'witness', f + '.cpp'), sub, want), time.time()
    finally:
        shutil.rmtree(sub, ignore_errors=True)


def results(d, tier):
    """(file, results) as they come; the rest is stopped when no more are asked for"""
    os.environ['VP_JOBS'] = '3'
    ex = ProcessPoolExecutor(3, mp_context=multiprocessing.get_context('fork'), initializer=group)
    try:
        fut = {ex.submit(one, f, want, d): f for f, want, _ in FILES}
        try:
            for x in as_completed(fut, timeout=max(1, eqn.TOTAL_LIMIT + 60 - (time.time() - eqn.T_START))):
                f = fut.pop(x)
                yield f, x.result()[1]
        except TimeoutError:
            for f in fut.values():
                yield f, [AnalysisError(f + ': time limit')]
    finally:
        for p in list(ex._processes.values()):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def run(d, tier):
    res = Result()
    eqn.MEM = True
    tot = dict(accesses=0, unknown=0, allocations=0, releases=0, instructions=0)
    fns = set()
    und, open_facts, nfun, per = [], 0, 0, {}
    seen = set()
    owns = {f: leaks for f, _, leaks in FILES}
    for f, got in results(d, tier):
        leaks = owns[f]
        for o in got:
            if isinstance(o, Exception):
                und.append(str(o)[-300:])
                continue
            n, evs, st, why = o
            nfun += 1
            per['%s/%s' % (f, n)] = st['accesses']
            for k in tot:
                tot[k] += st[k]
            fns |= st['functions_analysed']
            if why:
                und.append('%s/%s: %s' % (f, n, why))
            for what, verdict, detail, cond, chain, fn in evs:
                repo = [(x, l, s) for x, l, s in chain if x and '/orocos_kdl/' in x]
                if what == 'leak' and not leaks:
                    continue
                if f != 'C30' and not repo and '_ZN3KDL' not in fn and '_ZNK3KDL' not in fn:
                    continue            # the equation file's own doing (those of C30 do nothing wrong)
                if verdict == 'undecided':
                    open_facts += 1
                    continue
                x, l, s = repo[0] if repo else ('', 0, fn)
                dm = eqn.demangle([s])
                key = '%s/%s/%s' % (n, what, dm.get(s, s).split('(')[0].replace(' ', '_'))
                if (x, l, what) in seen:
                    continue
                seen.add((x, l, what))
                res.findings.append(Finding(what, key, x.split('/repo/')[-1], l, 'in %s: %s, when %s' % (dm.get(s, s), detail, cond[:300]),
                                            ['%s:%d' % (y.split('/repo/')[-1], m) for y, m, _ in chain if y][:8]))
        if any(f.key not in eqn.KNOWN_KEYS for f in res.findings):
            break
    res.coverage = {
        'rule': 'value numbering of the IR of the functions below with every memory access, allocation and release checked against the extent and the life of the object it is made in',
        'equation_functions': nfun, 'accesses_checked': tot['accesses'] - tot['unknown'], 'accesses_of_unknown_extent': tot['unknown'],
        'allocations': tot['allocations'], 'releases': tot['releases'], 'ir_instructions_numbered': tot['instructions'],
        'facts_left_open': open_facts, 'not_analysed': und,
        'repository_functions': len(fns), 'functions': sorted(eqn.demangle(sorted(fns)).values())[:600], 'accesses_per_function': per}
    if not res.findings and (tot['accesses'] - tot['unknown'] < MIN_ACCESSES or tot['allocations'] < MIN_ALLOCATIONS):
        res.undecided.append('%d accesses and %d allocations analysed, expected at least %d and %d; %s' % (
            tot['accesses'], tot['allocations'], MIN_ACCESSES, MIN_ALLOCATIONS, '; '.join(und)[:1500]))
    return res
