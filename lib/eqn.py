"""Equation checker: compiles an equation file and decides its obligations."""
import os
import shlex, sys, re, subprocess, tempfile, shutil, time, json
import signal, traceback, multiprocessing
from fractions import Fraction
import irparse, gvn, refute, memcheck
from alg import Rat, Poly, Undecided, BITS
from gvn import Engine, Leaf, G, Ptr, Opaque, Obligation

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
CXX = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
LINK = '/usr/bin/llvm-link-18'
EQFLAGS = ['-std=gnu++17', '-O2', '-g', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
           '-fno-math-errno', '-fno-jump-tables', '-DEIGEN_DONT_VECTORIZE', '-mllvm', '-inline-threshold=200000',
           '-mllvm', '-inlinehint-threshold=200000', '-mllvm', '-unroll-threshold=20000',
           '-fno-strict-aliasing', '-fno-access-control', '-w']


# for the memory rules: the sanitizer's checks of fixed-size arrays become calls to a
# trap; allocations are not optimised away
MEMFLAGS = EQFLAGS + ['-fno-builtin', '-fsanitize=bounds,return,integer-divide-by-zero', '-fsanitize-trap=all']
MEM = False


class AnalysisError(Exception):
    pass


def scratch():
    d = tempfile.mkdtemp(prefix='vp_', dir=os.environ.get('TMPDIR', '/tmp'))
    return d


def make_config(d):
    """generated headers of the build, derived from the committed templates"""
    inc = os.path.join(d, 'inc')
    os.makedirs(inc, exist_ok=True)
    tpl = os.path.join(REPO, 'orocos_kdl/src/config.h.in')
    if os.path.exists(tpl):
        out = []
        for ln in open(tpl):
            m = re.match(r'\s*#cmakedefine\s+(\w+)', ln)
            if m:
                on = m.group(1) in ('HAVE_STL_CONTAINER_INCOMPLETE_TYPES',)
                out.append('#define %s\n' % m.group(1) if on else '/* #undef %s */\n' % m.group(1))
            else:
                out.append(re.sub(r'@\w+@', '0', ln))
        open(os.path.join(inc, 'config.h'), 'w').write(''.join(out))
    k = os.path.join(inc, 'kdl')
    if not os.path.exists(k):
        os.symlink(os.path.join(REPO, 'orocos_kdl/src'), k)
    return inc


def compile_one(src, d, out, flags, extra, inc, text=False, keep=()):
    cmd = [CXX] + flags + ['-I' + os.path.join(VERIF, 'witness'),
           '-I' + inc, '-I' + os.path.join(REPO, 'orocos_kdl/src'), '-I/usr/include/eigen3'] + list(extra) + \
          (['-S'] if text else ['-c']) + ['-emit-llvm', '-o', out, src]
    if MEM:
        mid = out + '.mid.ll'
        opts = [x for x in flags if x.startswith('-inl') or x.startswith('-unroll')]
        cmd[cmd.index('-o') + 1] = mid
        cmd = cmd + ['-S', '-Xclang', '-disable-llvm-passes']
        cmd.remove('-c') if '-c' in cmd else None
        sh = ' '.join(map(shlex.quote, cmd)) + " && sed -E -i -e 's/^(attributes #[0-9]+ = \\{.*) builtin /\\1 /;s/^(attributes #[0-9]+ = \\{) builtin /\\1 /;s/(allockind\\([^)]*\\)|alloc-family\"=\"[^\"]*\"|allocsize\\([^)]*\\))//g'"
        if keep:
            sh += ' -e ' + shlex.quote('s/^(define .*@(%s)\\(.*\\)[^(]*) (#[0-9]+)/\\1 noinline \\3/' % '|'.join(keep))
        sh += ' ' + mid + ' && ' + ' '.join([OPT, '-O2', '-vectorize-loops=false', '-vectorize-slp=false'] + opts + ['-o', out, mid]) + ' && rm ' + mid
        return subprocess.Popen(['bash', '-c', sh], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, universal_newlines=True)
    if keep:
        # calls to the functions `keep` stay visible (they are replaced by the
        # summaries of the equation file): lower, mark them noinline, optimise
        mid = out + '.mid.ll'
        opts = [x for x in flags if x.startswith('-inl') or x.startswith('-unroll')]
        cmd[cmd.index('-o') + 1] = mid
        cmd = cmd + ['-S', '-Xclang', '-disable-llvm-passes']
        cmd.remove('-c') if '-c' in cmd else None
        ed = 's/^(define .*@(%s)\\(.*\\)[^(]*) (#[0-9]+)/\\1 noinline \\3/' % '|'.join(keep)
        sh = ' '.join(map(shlex.quote, cmd)) + ' && sed -E -i ' + shlex.quote(ed) + ' ' + mid + \
             ' && ' + ' '.join([OPT, '-O2', '-vectorize-loops=false', '-vectorize-slp=false'] + opts + ['-o', out, mid]) + ' && rm ' + mid
        return subprocess.Popen(['bash', '-c', sh], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, universal_newlines=True)
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, universal_newlines=True)


def compile_ir(src, d, flags=None, extra=()):
    """the equation file and every repository source it names (as
    #include "x.cpp"), compiled separately and linked into one IR module"""
    inc = make_config(d)
    flags = flags if flags is not None else MEMFLAGS if MEM else EQFLAGS
    units = []
    lines = []
    for ln in expand(src):
        m = re.match(r'\s*#include "([\w/]+)\.(cpp|cxx)"', ln)
        if not m:
            lines.append(ln)
            continue
        u = os.path.join(REPO, 'orocos_kdl/src', m.group(1) + '.' + m.group(2))
        if not os.path.exists(u):
            raise AnalysisError('%s is gone' % u)
        if u not in units:
            units.append(u)
        for h in ('.hpp', '.h'):
            if os.path.exists(os.path.join(REPO, 'orocos_kdl/src', m.group(1) + h)):
                lines.append('#include "%s"\n' % (m.group(1) + h))
                break
    for ln in lines:
        m = re.match(r'// vp:before-all (\w+\.hpp)', ln)
        if m:   # a header of the equation files that every source is compiled after
            extra = list(extra) + ['-include', os.path.join(VERIF, 'witness', m.group(1))]
    w = os.path.join(d, os.path.basename(src))
    open(w, 'w').write(''.join(lines))
    keep = sorted(set(re.findall(r'\bvp_sub_(\w+)', ''.join(lines))))
    jobs = []
    for k, u in enumerate([w] + units):
        o = os.path.join(d, '%s.%d.bc' % (os.path.basename(src), k))
        jobs.append((u, o))
    running = []
    errs = []

    def reap(n):
        while len(running) > n:
            u, p = running.pop(0)
            e = p.communicate()[1]
            if p.returncode:
                errs.append('compiling %s failed:\n%s' % (u, e[:3000]))
    for u, o in jobs:
        reap(7)
        running.append((u, compile_one(u, d, o, flags, extra, inc, keep=keep)))
    reap(0)
    if errs:
        raise AnalysisError(errs[0])
    out = os.path.join(d, os.path.basename(src) + '.ll')
    p = subprocess.run([LINK, '-S', '-o', out] + [o for _, o in jobs], stderr=subprocess.PIPE, universal_newlines=True)
    if p.returncode:
        raise AnalysisError('linking %s failed:\n%s' % (src, p.stderr[:2000]))
    return out


def expand(src, seen=None):
    """the lines of an equation file with the equation headers expanded"""
    seen = set() if seen is None else seen
    out = []
    for n, ln in enumerate(open(src)):
        m = re.match(r'\s*#include "([\w/]+\.hpp)"', ln)
        h = os.path.join(VERIF, 'witness', m.group(1)) if m else None
        if h and os.path.exists(h) and m.group(1) != 'vp.hpp':
            if h not in seen:
                seen.add(h)
                out += expand(h, seen)
            continue
        out.append(ln)
    return out


def cstring(E, g):
    """text of a string literal pointer"""
    v = E.single(g)
    if not isinstance(v, Ptr) or not v.b.startswith('@'):
        return '?'
    raw = E.mod.globals.get(v.b[1:], '')
    m = re.search(r'c"((?:[^"\\]|\\[0-9A-F]{2})*)\\00"', raw)
    return re.sub(r'\\([0-9A-F]{2})', lambda k: chr(int(k.group(1), 16)), m.group(1)) if m else '?'


def cint(E, g):
    v = E.single(g)
    if isinstance(v, Rat) and v.const() is not None:
        return int(v.const())
    raise AnalysisError('non-constant id in an equation file')


class Hooks(object):
    def __init__(self, E):
        self.E = E
        R = E.R
        h = E.hooks
        h['vp_c'] = lambda E, F, I, env, st, r: E.rat(R.rat_of(R.atom('c%d' % self.arg(env, I, 0))))
        h['vp_pos'] = self.pos
        h['vp_f'] = lambda E, F, I, env, st, r: E.rat(self.fatom(self.arg(env, I, 0), self.arg(env, I, 1)))
        h['vp_q'] = lambda E, F, I, env, st, r: E.rat(self.quat(self.arg(env, I, 0))[self.arg(env, I, 1)])
        h['vp_qm'] = lambda E, F, I, env, st, r: E.rat(self.mquat(self.arg(env, I, 0))[self.arg(env, I, 1)])
        h['vp_qw'] = lambda E, F, I, env, st, r: E.rat(self.fatom('w%d_%d' % (self.arg(env, I, 0), self.arg(env, I, 1)), self.arg(env, I, 2)))
        h['vp_int'] = lambda E, F, I, env, st, r: E.rat(R.rat_of(R.atom('i%d' % self.arg(env, I, 0))))
        h['vp_ramp'] = self.ramp
        for k in ('vp_eq', 'vp_ddt', 'vp_cont'):
            h[k] = lambda E, F, I, env, st, r, k=k: self.obl(k, F, I, env, r)
        h['vp_true'] = self.true
        h['vp_reached'] = self.reached
        h['vp_dt'] = self.dt
        h['vp_assume'] = self.assume

    def arg(self, env, I, k):
        return cint(self.E, self.E.operand(env, I.ops[k], 'i32'))

    def pos(self, E, F, I, env, st, r):
        a = E.R.atom('p%d' % self.arg(env, I, 0))
        a.lo = 0
        a.x = 'pos'
        return E.rat(E.R.rat_of(a))

    def dt(self, E, F, I, env, st, r):
        def f(x):
            if not isinstance(x, Rat):
                return E.opq('derivative of an unknown value')
            try:
                return E.leaf(x.ddt())
            except Undecided as e:
                return E.opq(str(e))
        return E.ap1(f, E.operand(env, I.ops[0], 'double'))

    def ramp(self, E, F, I, env, st, r):
        a = E.R.atom('t%d' % self.arg(env, I, 0))
        a.deriv = E.R.R1
        return E.rat(E.R.rat_of(a))

    def fatom(self, i, k):
        R = self.E.R
        n = 'f%s' % i + ("'" * k if k < 4 else '^(%d)' % k)
        a = R.atom(n)
        if a.deriv is None:
            a.deriv = lambda: self.fatom(i, k + 1)
        return R.rat_of(a)

    def quat(self, i):
        R = self.E.R
        q = [R.atom('q%d%s' % (i, s)) for s in 'xyzw']      # w youngest
        for a in q:
            a.lo, a.hi = -1, 1
        x, y, z, w = [R.rat_of(a) for a in q]
        if q[3].sq is None:
            R.relate(q[3], (R.R1 - x * x - y * y - z * z).n)
        return [w, x, y, z]

    def mquat(self, i):
        R = self.E.R
        q = [R.atom('m%d%s' % (i, s)) for s in 'xyzw']
        x, y, z, w = [R.rat_of(a) for a in q]
        if q[3].sq is None:
            R.relate(q[3], (R.R1 - x * x - y * y - z * z).n)
            h = R.const(Fraction(1, 2))
            om = lambda c: self.fatom('w%d_%d' % (i, c), 0)
            q[3].deriv = lambda: -(h * (om(0) * x + om(1) * y + om(2) * z))
            q[0].deriv = lambda: h * (om(0) * w + om(1) * z - om(2) * y)
            q[1].deriv = lambda: h * (om(1) * w + om(2) * x - om(0) * z)
            q[2].deriv = lambda: h * (om(2) * w + om(0) * y - om(1) * x)
        return [w, x, y, z]

    def obl(self, kind, F, I, env, r):
        E = self.E
        a, b = E.operand(env, I.ops[0], 'double'), E.operand(env, I.ops[1], 'double')
        E.obl.append(Obligation(kind, cstring(E, E.operand(env, I.ops[2])), a, b, E.b_and(r, E.assume),
                                E.mod.loc(I.dbg), I, F))

    def true(self, E, F, I, env, st, r):
        c = E.boolv(E.operand(env, I.ops[0], 'i1'))
        E.obl.append(Obligation('vp_true', cstring(E, E.operand(env, I.ops[1])), c, None, E.b_and(r, E.assume),
                                E.mod.loc(I.dbg), I, F))

    def reached(self, E, F, I, env, st, r):
        E.obl.append(Obligation('vp_true', cstring(E, E.operand(env, I.ops[0])), r, None, E.assume,
                                E.mod.loc(I.dbg), I, F))

    def assume(self, E, F, I, env, st, r):
        c = E.boolv(E.operand(env, I.ops[0], 'i1'))
        E.assume = E.b_and(E.assume, E.b_or(E.b_not(r), c))


def subst_eqs(E, path, v, depth=0):
    """use equality predicates of the leaf's path: replace an atom that occurs
    linearly with a constant coefficient"""
    R = E.R
    sub_any = False
    rats = [E.conds[i].rat for i, b in path if b and E.conds[i].kind == 'eq']
    # p >= 0 and p <= 0  ->  p == 0
    keys = {}
    for i, b in path:
        c = E.conds[i]
        if c.kind == 'gt' and not b:
            k = c.rat.n.key()
            nk = R.pscale(c.rat.n, -1).key()
            if nk in keys:
                rats.append(c.rat)
            keys[k] = 1
    for e in rats:
        tgt = None
        for m, c in sorted(e.n.t.items()):
            ex = R.expo(m)
            if len(ex) == 1 and ex[0][1] == 1 and R.atoms[ex[0][0]].sq is None:
                i = ex[0][0]
                if all(mm == m or not (mm >> (BITS * i)) & 1023 for mm in e.n.t):
                    tgt = (i, m, c)
                    break
        if tgt is None:
            # sum of even squares == 0 -> every atom is zero
            lo, hi = R.interval(e.n)
            if lo == 0 and all(all(x % 2 == 0 for _, x in R.expo(m)) and m for m in e.n.t):
                s = {}
                for m in e.n.t:
                    ex = R.expo(m)
                    if len(ex) == 1:
                        s[ex[0][0]] = R.R0
                v = v.subst(s)
            continue
        i, m, c = tgt
        rest = Rat(R, Poly({mm: cc for mm, cc in e.n.t.items() if mm != m}), {})
        v = v.subst({i: -(rest / R.const(c))})
    return v


def slice_locs(mod, F, I, which=(0, 1), limit=4000):
    """source locations (repo files) the observed operands flow through"""
    defs = {}
    stores = {}
    for b in F.blocks:
        for J in b.ins:
            if J.res:
                defs[J.res] = J
    seen = set()
    work = [I.ops[k].val for k in which if k < len(I.ops) and I.ops[k].kind == 'local']
    locs = {}
    while work and len(seen) < limit:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        J = defs.get(n)
        if J is None:
            continue
        for f, l, s in chain_locs(mod, J.dbg):
            if f and '/orocos_kdl/' in f:
                locs.setdefault((f, s), set()).add(l)
        for o in J.ops:
            if o.kind == 'local':
                work.append(o.val)
        if J.op == 'call' and J.x['callee'].kind == 'global':
            locs.setdefault(('call', J.x['callee'].val), set()).add(0)
    return locs


def chain_locs(mod, dbg):
    out = []
    n = 0
    while dbg and n < 20:
        n += 1
        d = mod.mdnode(dbg)
        if not d:
            break
        sc = d.get('scope')
        f = mod._scope_file(sc)
        s = sc
        name = None
        k = 0
        while s and k < 40:
            k += 1
            sd = mod.mdnode(s)
            if not sd:
                break
            if sd['_kind'] == 'DISubprogram':
                name = sd.get('name', '').strip('"')
                lk = sd.get('linkageName')
                if lk:
                    name = lk.strip('"')
                break
            s = sd.get('scope')
        out.append((f, int(d.get('line', 0)), name))
        dbg = d.get('inlinedAt')
    return out


def demangle(names):
    if not names:
        return {}
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, universal_newlines=True)
    return dict(zip(names, p.stdout.split('\n')))


class Text(object):
    def __init__(self, t):
        self.t = t

    def short(self):
        return self.t


def decide(E, ob):
    """-> ('ok', nleaves) | ('bad', path, residual) | ('undecided', why)"""
    R = E.R
    reach = E.prune(ob.reach) if E.size(ob.reach) < 500 else ob.reach
    if reach is E.F:
        return ('undecided', 'unreachable obligation')
    n = [0]
    worst = None
    if ob.kind == 'vp_true':
        g = E.ite(reach, ob.a, E.T)
        for path, v in E.leaves_of(g):
            n[0] += 1
            if v is not True:
                if any(E.conds[i].kind == 'o' for i, _ in path):
                    return ('undecided', 'opaque predicate on the path: ' + ' & '.join(E.condstr(i, b) for i, b in path))
                if refute.empty(E, path):
                    continue
                return ('bad', path, None)
        return ('ok', n[0])
    if ob.kind == 'vp_cont':
        return decide_cont(E, ob, reach)
    if ob.kind == 'vp_ddt':
        def f(x, y):
            for z in (x, y):
                if isinstance(z, Opaque):
                    return E.leaf(z)
                if not isinstance(z, Rat):
                    return E.opq('not a number')
            try:
                return E.leaf(x.ddt() - y)
            except Undecided as e:
                return E.opq(str(e))
    else:
        def f(x, y):
            for z in (x, y):
                if isinstance(z, Opaque):
                    return E.leaf(z)
                if not isinstance(z, Rat):
                    return E.opq('not a number')
            try:
                return E.leaf(x - y)
            except Undecided as e:
                return E.opq(str(e))
    zero = E.num(0)
    a, b = E.ite(reach, ob.a, zero), E.ite(reach, ob.b, zero)
    und = None
    # when the two sides have few gates a direct product is fine
    d = E.ap2(f, a, b)
    for path, v in E.leaves_of(d):
        n[0] += 1
        if isinstance(v, Opaque):
            if v.why.startswith('uninitialised') and not any(E.conds[i].kind == 'o' for i, _ in path) and not refute.empty(E, path):
                return ('bad', path, Text('a value that was never written (%s)' % v.why))
            if und is None:
                und = ('undecided', v.why + ' when ' + (' & '.join(E.condstr(i, b) for i, b in path) or 'always'))
            continue
        if v.iszero():
            continue
        try:
            if ob.kind == 'vp_ddt':
                # derivative on an equality leaf is not meaningful: the
                # predicate holds at isolated times only
                if isolated(E, path):
                    continue
            w = subst_eqs(E, path, v)
        except Undecided:
            w = v
        if w.iszero():
            continue
        if any(E.conds[i].kind == 'o' for i, _ in path):
            und = ('undecided', 'opaque predicate: ' + ' & '.join(E.condstr(i, b) for i, b in path))
            continue
        if refute.empty(E, path) or refute.zero_on(E, path, w):
            continue
        return ('bad', path, w)
    if und:
        return und
    return ('ok', n[0])


def merge_copies(E):
    """join the copies of a continuity obligation that the compiler has
    duplicated into the branches of the code"""
    out = []
    for ob in E.obl:
        if ob.kind == 'vp_cont':
            for o in out:
                if o.kind == ob.kind and o.label == ob.label and o.loc == ob.loc and o.b is ob.b and \
                        E.prune(E.b_and(o.reach, ob.reach)) is E.F:
                    o.a = E.ite(ob.reach, ob.a, o.a)
                    o.reach = E.b_or(o.reach, ob.reach)
                    break
            else:
                out.append(ob)
        else:
            out.append(ob)
    E.obl[:] = out


def isolated(E, path):
    """does the path pin down the time (an equality on something moving)?"""
    R = E.R
    les = {}
    for i, b in path:
        c = E.conds[i]
        if c.kind == 'eq' and b and not c.rat.ddt().iszero():
            return True
        if c.kind == 'gt' and not b and not c.rat.ddt().iszero():
            if R.pscale(c.rat.n, -1).key() in les:
                return True
            les[c.rat.n.key()] = 1
    return False


def decide_cont(E, ob, reach):
    R = E.R
    t = E.single(ob.b)
    (m, c), = t.n.t.items()
    ti = (m.bit_length() - 1) // BITS
    n = 0
    leaves = list(E.leaves_of(E.ite(reach, ob.a, E.num(0))))
    # adjacent leaves: paths differing in the value of exactly one gate on t
    for i in range(len(leaves)):
        for j in range(i + 1, len(leaves)):
            pa, pb = dict(leaves[i][0]), dict(leaves[j][0])
            diff = [k for k in pa if k in pb and pa[k] != pb[k]]
            if len(diff) != 1:
                continue
            k = diff[0]
            cnd = E.conds[k]
            if cnd.kind == 'o':
                return ('undecided', 'opaque gate')
            # solve the gate for t: n = A t + B
            A, B = {}, {}
            for mm, x in cnd.rat.n.t.items():
                e = (mm >> (BITS * ti)) & ((1 << BITS) - 1)
                if e == 0:
                    B[mm] = x
                elif e == 1:
                    A[mm - (1 << (BITS * ti))] = x
                else:
                    return ('undecided', 'gate not linear in time')
            if not A:
                continue
            tv = -(Rat(R, Poly(B), {}) / Rat(R, Poly(A), {}))
            # both regions must touch the knot
            other = [(a, v) for a, v in leaves[i][0] if a != k] + [(a, v) for a, v in leaves[j][0] if a != k]
            x, y = leaves[i][1], leaves[j][1]
            if not (isinstance(x, Rat) and isinstance(y, Rat)):
                return ('undecided', 'opaque value at a knot')
            n += 1
            if not touch(E, other, ti, tv):
                continue
            d = (x - y).subst({ti: tv})
            if not d.iszero():
                cl = closure(E, other, ti, tv)
                if refute.empty(E, cl) or refute.zero_on(E, cl, d):
                    continue
                return ('bad', leaves[i][0], d)
    return ('ok', n)


def touch(E, path, ti, tv):
    """can the remaining predicates hold (weakly) at t = tv ?"""
    q = []
    for i, v in path:
        c = E.conds[i]
        if c.kind == 'o':
            continue
        if not any((m >> (BITS * ti)) & 1023 for m in c.rat.n.t):
            q.append((i, v))                # does not depend on time: holds as it stands
            continue
        r = c.rat.subst({ti: tv})
        if c.kind == 'gt':
            # weak form at the knot: closure of the region
            k = r.const()
            if k is not None:
                if v and k < 0 or (not v and k > 0):
                    return False
                continue
            lo, hi = r.interval()
            if v and hi is not None and hi < 0:
                return False
            if not v and lo is not None and lo > 0:
                return False
            # closure: r >= 0  == not(-r > 0)
            g = E.gt0(-r) if v else E.gt0(r)
            if isinstance(g, Leaf):
                if g.v is True:
                    return False
                continue
            q.append((g.c, False))
    return E.feasible(tuple(q))


def closure(E, path, ti, tv):
    """the predicates of the path at t = tv, those on t in weak form"""
    q = []
    for i, v in path:
        c = E.conds[i]
        if c.kind == 'o':
            continue
        if not any((m >> (BITS * ti)) & 1023 for m in c.rat.n.t):
            q.append((i, v))
        elif c.kind == 'gt':
            r = c.rat.subst({ti: tv})
            g = E.gt0(-r) if v else E.gt0(r)
            if isinstance(g, G):
                q.append((g.c, False))
    return tuple(q)


class Plain(object):
    """what remains of an obligation outside of the process that decided it"""
    def __init__(self, label, kind):
        self.label, self.kind = label, kind


OB_LIMIT = int(os.environ.get('VP_OB_LIMIT', '150'))
BAD_GRACE = 20          # seconds: how long to go on after the first violation
TOTAL_LIMIT = int(os.environ.get('VP_TOTAL_LIMIT', '760'))
T_START = time.time()
KNOWN_KEYS = set()
FN_LIMIT = int(os.environ.get('VP_FN_LIMIT', '420'))


def alarm(sig, frame):
    raise Undecided('time limit')


def obkey(fn, label):
    return (fn + '/' + label).replace(' ', '_')


def run_one(mod, n, verbose=False):
    """decides the obligations of one equation function"""
    res = []
    stats = {'functions_analysed': set(), 'instructions': 0, 'joins': 0, 'calls': 0}
    F = irparse.body(mod.functions[n])
    t0 = time.time()
    E = Engine(mod)
    Hooks(E)
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, FN_LIMIT, 3)
    try:
        args = []
        for k, (t, pn, at) in enumerate(F.params):
            if t == 'ptr':
                args.append(E.leaf(Ptr('a%d' % k, 0)))
            elif t == 'double' or re.match(r'^i\d+$', t):
                args.append(E.rat(E.R.rat_of(E.R.atom('arg%d' % k))))
            else:
                args.append(E.opq('arg'))
        E.run(F, args, {}, E.T)
        if not E.obl:
            raise AnalysisError('equation %s carries no obligation' % n)
        merge_copies(E)
    except Undecided as e:
        return [(n, None, ('undecided', str(e)), None, None)], stats
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    decided = []
    tbad = None
    for ob in E.obl:
        if tbad is not None and time.time() - tbad > BAD_GRACE:
            decided.append((ob, ('undecided', 'not looked at: a violation was found before')))
            continue
        if time.time() - t0 > FN_LIMIT:
            decided.append((ob, ('undecided', 'time limit')))
            continue
        signal.setitimer(signal.ITIMER_REAL, OB_LIMIT, 3)
        try:
            r = decide(E, ob)
        except Undecided as e:
            r = ('undecided', str(e))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if r[0] == 'bad' and tbad is None and obkey(n, ob.label) not in KNOWN_KEYS:
            tbad = time.time()
        decided.append((ob, r))
    # the compiler may duplicate an obligation into a branch that cannot
    # be taken; it counts as long as a copy of it is reachable
    live = set((ob.label, ob.kind) for ob, r in decided if not (r[0] == 'undecided' and r[1] == 'unreachable obligation'))
    for ob, r in decided:
        if r[0] == 'undecided' and r[1] == 'unreachable obligation' and (ob.label, ob.kind) in live:
            continue
        txt = None
        locs = None
        if r[0] == 'bad':
            cond = ' & '.join(E.condstr(i, b) for i, b in r[1]) or 'always'
            txt = 'residual %s  when %s' % (r[2].short() if r[2] is not None else 'false', cond)
            locs = slice_locs(mod, ob.fn, ob.instr)
            r = ('bad', txt)
        res.append((n, Plain(ob.label, ob.kind), (r[0], str(r[1]) if len(r) > 1 else ''), txt, locs))
    stats['instructions'] += E.stats['instrs']
    stats['joins'] += E.stats['joins']
    stats['calls'] += E.stats['calls']
    stats['functions_analysed'] |= repo_functions(mod, F, E)
    if verbose:
        sys.stdout.write('%-28s %4d obligations %6d instrs %.2fs\n' % (n, len(E.obl), E.stats['instrs'], time.time() - t0))
        sys.stdout.flush()
    return res, stats


def run_mem(mod, n, verbose=False):
    """decides the memory rules along one equation function"""
    F = irparse.body(mod.functions[n])
    t0 = time.time()
    E = Engine(mod)
    Hooks(E)
    for k in ('vp_eq', 'vp_ddt', 'vp_cont', 'vp_true', 'vp_reached'):
        E.hooks[k] = lambda E, F, I, env, st, r: None
    M = E.memc = memcheck.Mem(E, gvn)
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, FN_LIMIT, 3)
    out = []
    why = None
    try:
        args = []
        for k, (t, pn, at) in enumerate(F.params):
            if t == 'ptr':
                args.append(E.leaf(Ptr('a%d' % k, 0)))
            elif t == 'double' or re.match(r'^i\d+$', t):
                args.append(E.rat(E.R.rat_of(E.R.atom('arg%d' % k))))
            else:
                args.append(E.opq('arg'))
        v, st, rr = E.run(F, args, {}, E.T)
        M.finish(st, rr)
        for ev, verdict, cond in M.decide():
            out.append((ev.what, verdict, ev.detail, cond, chain_locs(mod, ev.I.dbg), ev.F.name))
    except Undecided as e:
        why = str(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    st = {'accesses': M.accesses, 'unknown': M.unknown, 'allocations': M.allocs, 'releases': M.frees,
          'instructions': E.stats['instrs'], 'functions_analysed': repo_functions(mod, F, E)}
    if verbose:
        sys.stdout.write('%-28s %6d accesses (%d unknown) %5d allocations %5d releases %6d instrs %.2fs %s\n' % (
            n, M.accesses, M.unknown, M.allocs, M.frees, E.stats['instrs'], time.time() - t0, why or ''))
        sys.stdout.flush()
    return n, out, st, why


def mem_child(a):
    try:
        return run_mem(run_child.mod, *a)
    except Exception:
        return AnalysisError('%s: %s' % (a[0], traceback.format_exc()))


def run_child(a):
    try:
        return run_one(run_child.mod, *a)
    except AnalysisError as e:
        return e
    except Exception:
        return AnalysisError('%s: %s' % (a[0], traceback.format_exc()))


def run_file(src, d, want=None, verbose=False):
    ll = os.environ.get("VP_LL") or compile_ir(src, d)
    mod = irparse.parse_module(open(ll).read())
    names = sorted(n for n in mod.functions if n.startswith('w_') and not (want and not re.search(want, n)))
    if not names:
        raise AnalysisError('no equations in ' + src)
    res = []
    stats = {'functions_analysed': set(), 'instructions': 0, 'joins': 0, 'calls': 0}
    run_child.mod = mod
    jobs = int(os.environ.get('VP_JOBS', '8'))
    if jobs > 1 and len(names) > 1:
        with multiprocessing.get_context('fork').Pool(min(jobs, len(names)), maxtasksperchild=4) as pool:
            outs = []
            it = pool.imap_unordered(run_child, [(n, verbose) for n in names], chunksize=1)
            tbad = None
            done = set()
            for _ in names:
                now = time.time()
                left = TOTAL_LIMIT - (now - T_START)
                if tbad is not None:
                    left = min(left, 3 * BAD_GRACE - (now - tbad))
                try:
                    o = it.next(timeout=max(left, 0.05))
                except multiprocessing.TimeoutError:
                    pool.terminate()
                    break
                outs.append(o)
                if not isinstance(o, Exception):
                    done.add(o[0][0][0] if o[0] else None)
                    if tbad is None and any(r[2][0] == 'bad' and obkey(r[0], r[1].label) not in KNOWN_KEYS for r in o[0]):
                        tbad = time.time()
            if len(outs) < len(names):
                outs.append(([(n, None, ('undecided', 'time limit' if tbad is None else 'not looked at: a violation was found before'), None, None)
                              for n in names if n not in done], {k: (set() if k == 'functions_analysed' else 0) for k in stats}))
            outs.sort(key=lambda o: '' if isinstance(o, Exception) or not o[0] else o[0][0][0])
    else:
        outs = [run_child((n, verbose)) for n in names]
    for o in outs:
        if isinstance(o, Exception):
            res.append(('analysis', None, ('undecided', str(o)), None, None))
            continue
        res += o[0]
        for k in stats:
            if k == 'functions_analysed':
                stats[k] |= o[1][k]
            else:
                stats[k] += o[1][k]
    return res, stats


def repo_functions(mod, F, E):
    """repository functions whose code was analysed (inlined or called)"""
    out = set()
    cache = {}
    for fn in [F.name] + list(E.trace_fns):
        FF = mod.functions[fn]
        for b in FF.blocks:
            for I in b.ins:
                if I.dbg and I.dbg not in cache:
                    cache[I.dbg] = 1
                    for f, l, s in chain_locs(mod, I.dbg):
                        if f and '/orocos_kdl/' in f and s:
                            out.add(s)
    return out


def run_mem_file(src, d, want=None, verbose=False):
    global MEM
    MEM = True
    ll = os.environ.get("VP_LL") or compile_ir(src, d)
    mod = irparse.parse_module(open(ll).read())
    names = sorted(n for n in mod.functions if n.startswith('w_') and not (want and not re.search(want, n)))
    if not names:
        raise AnalysisError('no equations in ' + src)
    run_child.mod = mod
    jobs = int(os.environ.get('VP_JOBS', '8'))
    with multiprocessing.get_context('fork').Pool(min(jobs, len(names)), maxtasksperchild=4) as pool:
        it = pool.imap_unordered(mem_child, [(n, verbose) for n in names], chunksize=1)
        out = []
        for _ in names:
            try:
                out.append(it.next(timeout=max(TOTAL_LIMIT - (time.time() - T_START), 0.05)))
            except multiprocessing.TimeoutError:
                pool.terminate()
                out.append(AnalysisError('%s: %d functions left: time limit' % (os.path.basename(src), len(names) - len(out))))
                break
        return out


if __name__ == '__main__':
    d = scratch()
    if os.environ.get('VP_MEM'):
        try:
            for o in run_mem_file(sys.argv[1], d, sys.argv[2] if len(sys.argv) > 2 else None, True):
                if isinstance(o, Exception):
                    print(o)
                    continue
                for ev in o[1]:
                    if ev[1] == 'bad' or os.environ.get('VP_ALL'):
                        print(o[0], ev[0], ev[1], ev[2], '|', ev[3][:200], '|', [(f.split('/')[-1] if f else f, l, demangle([s]).get(s, s)[:60] if s else s) for f, l, s in ev[4]][:5], ev[5][:40])
        finally:
            shutil.rmtree(d)
        sys.exit()
    try:
        res, st = run_file(sys.argv[1], d, sys.argv[2] if len(sys.argv) > 2 else None, True)
        bad = 0
        for n, ob, r, txt, locs in res:
            if r[0] == 'ok':
                continue
            bad += 1
            if bad > int(os.environ.get('VP_SHOW', '4')):
                continue
            print(r[0].upper(), n, ob.label if ob else '', txt or r[1])
            if locs:
                dm = demangle([s for (f, s) in locs if s])
                for (f, s), l in sorted(locs.items(), key=str):
                    print('      ', f.split('/orocos_kdl/')[-1], dm.get(s, s), sorted(l)[:8])
        print('%d obligations, %d not discharged; %d instrs, %d repo functions' % (len(res), bad, st['instructions'], len(st['functions_analysed'])))
    finally:
        shutil.rmtree(d)
