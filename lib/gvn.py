"""Gated value numbering over LLVM IR in the algebraic domain of alg.py.

A forward, path-insensitive dataflow analysis: blocks are visited once in
reverse post order; every SSA value and every memory cell is mapped to a
*gated value*, a decision diagram whose inner nodes are branch predicates in
normal form and whose leaves are algebraic normal forms.  Joins build the
gating node from the edge predicates (gated SSA), calls are summarised by
analysing the callee in the caller's state, loops that the compiler did not
unroll are havocked.  Nothing is executed and no path is enumerated or
handed to a solver; predicates are opaque except for interval reasoning.
"""
import copy, struct, re, math
from fractions import Fraction
import irparse
import memcheck
import os
from alg import exact_div, exact_sqrt, fconst, Ring, Rat, Poly, Undecided, BITS

MAXNODES = 60000


class G(object):
    __slots__ = ('c', 'h', 'l', 'id')


class Leaf(object):
    __slots__ = ('v', 'id')


class Ptr(object):
    __slots__ = ('b', 'o')

    def __init__(self, b, o):
        self.b, self.o = b, o

    def __repr__(self):
        return '&%s+%s' % (self.b, self.o)


class Opaque(object):
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'opaque(%s)' % self.why


class Bits(Opaque):
    """an integer of which the bits in km are known to be those of kv"""
    __slots__ = ('km', 'kv')

    def __init__(self, km, kv):
        self.km, self.kv = km, kv
        self.why = 'bits %x/%x' % (kv, km)


class Agg(object):
    __slots__ = ('el',)       # list of gated values

    def __init__(self, el):
        self.el = el


class Cond(object):
    __slots__ = ('kind', 'rat', 'name', 'i')


class Obligation(object):
    def __init__(self, kind, label, a, b, reach, loc, instr, fn):
        self.kind, self.label, self.a, self.b, self.reach, self.loc = kind, label, a, b, reach, loc
        self.instr = instr
        self.fn = fn


MAXITER = 40
TRACE = os.environ.get('VP_TRACE')


class Engine(object):
    def __init__(self, mod, ring=None):
        self.refuted = {}
        self.mod = mod
        self.R = ring or Ring()
        self.posfacs = ([], set())
        self.havocking = []
        self.leaves = {}
        self.nodes = {}
        self.conds = []
        self.condkey = {}
        self.nid = 0
        self.memo = {}
        self.T = self.leaf(True)
        self.F = self.leaf(False)
        self.obl = []
        self.assume = self.T
        self.epsatom = None
        self._strc = {}
        self.nobj = 0
        self.depth = 0
        self.trace_fns = set()
        self.stats = {'instrs': 0, 'calls': 0, 'joins': 0, 'blocks': 0}
        self.intrins = {}
        self.globals_mem = {}
        self.hooks = {}
        self.havocked = set()   # objects that code we do not see may have written
        self.noret = 0          # ways that do not return, seen so far
        self.returning = None
        self.memc = None        # the memory rules (memcheck.py), when they are being decided

    # ---- diagrams --------------------------------------------------------
    def leaf(self, v):
        if isinstance(v, Rat):
            k = ('r', v.key())
        elif isinstance(v, bool):
            k = ('b', v)
        elif isinstance(v, Ptr):
            k = ('p', v.b, v.o)
        elif isinstance(v, Opaque):
            k = ('o', v.why)
        elif isinstance(v, Agg):
            k = ('a', tuple(e.id for e in v.el))
        else:
            raise TypeError(v)
        n = self.leaves.get(k)
        if n is None:
            n = Leaf()
            n.v = v
            self.nid += 1
            n.id = self.nid
            self.leaves[k] = n
        return n

    def node(self, c, h, l):
        if h is l:
            return h
        k = (c, h.id, l.id)
        n = self.nodes.get(k)
        if n is None:
            if len(self.nodes) > MAXNODES * 20:
                raise Undecided('too many gates')
            n = G()
            n.c, n.h, n.l = c, h, l
            self.nid += 1
            n.id = self.nid
            self.nodes[k] = n
        return n

    def num(self, c):
        return self.leaf(self.R.const(c))

    def rat(self, r):
        return self.leaf(r)

    def opq(self, why):
        return self.leaf(Opaque(why))

    def ap1(self, f, a, memo=None):
        if isinstance(a, Leaf):
            return f(a.v)
        if memo is None:
            memo = {}
        r = memo.get(a.id)
        if r is None:
            r = self.node2(a.c, self.ap1(f, a.h, memo), self.ap1(f, a.l, memo))
            memo[a.id] = r
        return r

    def ap2(self, f, a, b, memo=None):
        """f(leafval, leafval) -> gated value (may itself be gated)"""
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            return f(a.v, b.v)
        if memo is None:
            memo = {}
        k = (a.id, b.id)
        r = memo.get(k)
        if r is None:
            if len(memo) > MAXNODES:
                raise Undecided('gate product too large')
            ca = a.c if isinstance(a, G) else 1 << 60
            cb = b.c if isinstance(b, G) else 1 << 60
            c = min(ca, cb)
            ah, al = (a.h, a.l) if ca == c else (a, a)
            bh, bl = (b.h, b.l) if cb == c else (b, b)
            r = self.node2(c, self.ap2(f, ah, bh, memo), self.ap2(f, al, bl, memo))
            memo[k] = r
        return r

    def node2(self, c, h, l):
        """node whose children may (rarely) mention conditions <= c"""
        if (isinstance(h, G) and h.c <= c) or (isinstance(l, G) and l.c <= c):
            return self.ite(self.node(c, self.T, self.F), h, l)
        return self.node(c, h, l)

    def ite(self, c, a, b):
        if a is b:
            return a
        if isinstance(c, Leaf):
            if c.v is True:
                return a
            if c.v is False:
                return b
            # opaque condition: a fresh predicate
            c = self.condnode('o', None, 'opaque:%s' % c.v.why)
        k = ('ite', c.id, a.id, b.id)
        r = self.memo.get(k)
        if r is None:
            cs = [x.c for x in (c, a, b) if isinstance(x, G)]
            m = min(cs)

            def sp(x):
                if isinstance(x, G) and x.c == m:
                    return x.h, x.l
                return x, x
            ch, cl = sp(c)
            ah, al = sp(a)
            bh, bl = sp(b)
            r = self.node(m, self.ite(ch, ah, bh), self.ite(cl, al, bl))
            self.memo[k] = r
        return r

    def b_and(self, a, b):
        return self.ite(a, b, self.F)

    def b_or(self, a, b):
        return self.ite(a, self.T, b)

    def b_not(self, a):
        return self.ite(a, self.F, self.T)

    # ---- predicates ------------------------------------------------------
    def condnode(self, kind, rat, name):
        k = (kind, rat.key() if rat is not None else name)
        i = self.condkey.get(k)
        if i is None:
            c = Cond()
            c.kind, c.rat, c.name = kind, rat, name
            c.i = len(self.conds)
            self.conds.append(c)
            i = self.condkey[k] = c.i
        return self.node(i, self.T, self.F)

    def normsign(self, r, keepsign):
        """positive rescaling of r to a canonical form with the same sign (or
        up to sign when not keepsign)"""
        R = self.R
        d = {}
        for f, e in r.d.items():
            if e % 2 == 0 or R.fpos(f):
                continue
            d[f] = 1
        n = r.n
        # drop positive even monomial content
        com = None
        for m in n.t:
            ex = dict(R.expo(m))
            com = ex if com is None else {i: min(e, ex[i]) for i, e in com.items() if i in ex}
            if not com:
                break
        if com:
            mm = 0
            for i, e in com.items():
                if self.atompos(R.atoms[i]):
                    mm += e << (BITS * i)
            if mm:
                n = Poly({m - mm: c for m, c in n.t.items()})
        n = self.dropfactors(n)
        lc = n.t[max(n.t)]
        k = abs(Fraction(lc))
        if not keepsign and lc < 0:
            k = -k
        n = R.pscale(n, 1 / k)
        if d:
            # sign(n/d) = sign(n*d)
            for f in d:
                n = R.pmul(n, R.fac(f))
            return self.normsign(Rat(R, n, {}), keepsign)
        return Rat(R, n, {})

    def dropfactors(self, n):
        """divide out polynomial factors that are certainly positive"""
        R = self.R
        if not 2 < len(n.t) <= 60:
            return n
        pf = self.posfacs
        if len(pf[1]) != len(R.facs):
            for k in list(R.facs):
                if k not in pf[1]:
                    pf[1].add(k)
                    if isinstance(k, tuple) and k[0] == 'p' and 1 < len(R.facs[k].t) <= 8:
                        p = R.facs[k]
                        if self.strictsign(Rat(R, p, {})) > 0 and not any(R.atoms[i].sq is not None for m in p.t for i, _ in R.expo(m)):
                            pf[0].append(p)
        for p in pf[0]:
            while len(n.t) >= len(p.t) and len(n.t) > 2:
                q = exact_div(R, n, p)
                if q is None:
                    break
                n = q
        return n

    def gt0(self, r):
        c = r.const()
        if c is not None:
            return self.leaf(bool(c > 0))
        lo, hi = r.interval()
        if lo is not None and lo > 0 or self.strictsign(r) > 0:
            return self.T
        if hi is not None and hi <= 0:
            return self.F
        n = self.normsign(r, True)
        z = self.intgt0(n)
        if z is not None:
            return z
        return self.condnode('gt', n, None)

    def intgt0(self, n):
        """p > 0 for a polynomial in integers: one predicate for p > 0, p >= 1 and not(1-p > 0)"""
        R = self.R
        t = dict(n.n.t)
        c = Fraction(t.pop(0, 0))
        if not t:
            return None
        for m, k in t.items():
            if Fraction(k).denominator != 1 or not all(R.atoms[i].name[0] == 'i' and R.atoms[i].name[1:].isdigit() for i, _ in R.expo(m)):
                return None
        if t[max(t)] > 0:                   # L + c > 0  <=>  L > floor(-c)
            c = -math.floor(-c)
            neg = False
        else:                               # -L + c > 0  <=>  not L > ceil(c) - 1
            t = {m: -k for m, k in t.items()}
            c = 1 - math.ceil(c)
            neg = True
        if c:
            t[0] = c
        g = self.condnode('gt', Rat(R, Poly(t), {}), None)
        return self.b_not(g) if neg else g

    def eq0(self, r):
        c = r.const()
        if c is not None:
            return self.leaf(bool(c == 0))
        lo, hi = r.interval()
        if lo is not None and lo > 0 or hi is not None and hi < 0 or self.strictsign(r):
            return self.F
        n = self.normsign(r, False)
        return self.condnode('eq', n, None)

    def condstr(self, i, v):
        c = self.conds[i]
        if c.kind == 'gt':
            return '%s %s 0' % (c.rat.short(), '>' if v else '<=')
        if c.kind == 'eq':
            return '%s %s 0' % (c.rat.short(), '==' if v else '!=')
        return ('' if v else '!') + str(c.name)

    def feasible(self, path):
        """interval reasoning on predicates over the same polynomial (up to
        scale and constant); True unless shown empty"""
        R = self.R
        box = {}
        for i, v in path:
            c = self.conds[i]
            if c.kind == 'o':
                continue
            t = dict(c.rat.n.t)
            k0 = t.pop(0, 0)
            if not t:
                continue
            lc = t[max(t)]
            key = frozenset((m, Fraction(x) / lc) for m, x in t.items())
            lo, ls, hi, hs, ne = box.get(key, (None, False, None, False, ()))
            b = -Fraction(k0) / lc
            # constraint  lc*(p - b)  op 0
            if c.kind == 'eq':
                if v:
                    if lo is None or b > lo:
                        lo, ls = b, False
                    elif b == lo and ls:
                        return False
                    if hi is None or b < hi:
                        hi, hs = b, False
                    elif b == hi and hs:
                        return False
                    if lo is not None and (b < lo) or hi is not None and b > hi:
                        return False
                else:
                    ne = ne + (b,)
            else:
                pos = (lc > 0) == v        # p - b > 0 (or >= 0 when v False)
                strict = v
                if pos:
                    if lo is None or b > lo or (b == lo and strict):
                        lo, ls = b, strict
                else:
                    if hi is None or b < hi or (b == hi and strict):
                        hi, hs = b, strict
            if lo is not None and hi is not None:
                if lo > hi or (lo == hi and (ls or hs or lo in ne)):
                    return False
            box[key] = (lo, ls, hi, hs, ne)
        for key, (lo, ls, hi, hs, ne) in list(box.items()):
            if all(x.denominator == 1 and all(R.atoms[i].name[0] == 'i' and R.atoms[i].name[1:].isdigit() for i, _ in R.expo(m)) for m, x in key):
                # integers
                if lo is not None:
                    lo = math.floor(lo) + 1 if ls else math.ceil(lo)
                    while lo in ne:
                        lo += 1
                if hi is not None:
                    hi = math.ceil(hi) - 1 if hs else math.floor(hi)
                    while hi in ne:
                        hi -= 1
                if lo is not None and hi is not None and lo > hi:
                    return False
                box[key] = (None if lo is None else Fraction(lo), False, None if hi is None else Fraction(hi), False, ne)
        for key, (lo, ls, hi, hs, ne) in box.items():
            l, h = R.interval(Poly(dict(key)))
            if hi is not None and l is not None and (hi < l or (hi == l and hs)):
                return False
            if lo is not None and h is not None and (lo > h or (lo == h and ls)):
                return False
        return self.fm(box)

    def fm(self, box):
        """Fourier-Motzkin on the (few) linear facts over monomials"""
        cons = []
        for key, (lo, ls, hi, hs, ne) in box.items():
            p = dict(key)
            if lo is not None:
                cons.append(({m: x for m, x in p.items()}, -lo, ls))      # p - lo >= 0
            if hi is not None:
                cons.append(({m: -x for m, x in p.items()}, hi, hs))
        if not cons or len(cons) > 60:
            return True
        ms = set(m for c in cons for m in c[0])
        extra = self.sqrt_facts(ms, box)
        cons += extra
        for c in extra:
            ms |= set(c[0])
        sign = self.atom_signs(box)
        for m in list(ms):
            sg = self.mono_sign(m, sign)
            if sg and len(self.R.expo(m)) > 1:
                cons.append(({m: Fraction(sg)}, Fraction(0), False))
        ea = self.epsatom
        if ea is not None:
            for m in list(ms):
                if (m >> (BITS * ea.i)) & 1023 == 1:
                    cf = m - (1 << (BITS * ea.i))
                    sg = self.mono_sign(cf, sign) if cf else 1
                    if cf and sg:
                        cons.append(({cf: Fraction(sg) * Fraction(ea.hi), m: Fraction(-sg)}, Fraction(0), False))
                        ms.add(cf)
        for m in ms:
            l, h = self.R.interval(Poly({m: 1}))
            if l is not None:
                cons.append(({m: Fraction(1)}, -Fraction(l), l == 0 and self.strictpos(m)))
            if h is not None:
                cons.append(({m: Fraction(-1)}, Fraction(h), False))
        left = set(ms)
        while left:
            m = min(left, key=lambda k: (sum(1 for c in cons if c[0].get(k, 0) > 0) * sum(1 for c in cons if c[0].get(k, 0) < 0), k))
            left.discard(m)
            pos = [c for c in cons if c[0].get(m, 0) > 0]
            neg = [c for c in cons if c[0].get(m, 0) < 0]
            rest = [c for c in cons if not c[0].get(m, 0)]
            if len(pos) * len(neg) > 900:
                return True
            seen = set()
            for a in pos:
                for b in neg:
                    ka, kb = -b[0][m], a[0][m]
                    t = {}
                    for mm, x in a[0].items():
                        t[mm] = t.get(mm, 0) + ka * x
                    for mm, x in b[0].items():
                        t[mm] = t.get(mm, 0) + kb * x
                    t = {mm: x for mm, x in t.items() if x != 0}
                    c0 = ka * a[1] + kb * b[1]
                    s = a[2] or b[2]
                    if not t:
                        if c0 < 0 or (c0 == 0 and s):
                            return False
                        continue
                    kk = (frozenset(t.items()), c0, s)
                    if kk in seen:
                        continue
                    seen.add(kk)
                    rest.append((t, c0, s))
            cons = rest
            if len(cons) > 400:
                return True
        return True

    def atom_signs(self, box):
        R = self.R
        sign = {}
        for key, (lo, ls, hi, hs, ne) in box.items():
            if len(key) == 1:
                (m, c), = key
                ex = R.expo(m)
                if len(ex) == 1 and ex[0][1] == 1:
                    if lo is not None and lo >= 0:
                        sign[ex[0][0]] = 1
                    if hi is not None and hi <= 0:
                        sign[ex[0][0]] = -1
        return sign

    def mono_sign(self, m, sign):
        sg = 1
        for j, e in self.R.expo(m):
            if e % 2 == 0:
                continue
            b = self.R.atoms[j]
            if b.lo is not None and b.lo >= 0:
                continue
            if b.hi is not None and b.hi <= 0:
                sg = -sg
            elif j in sign:
                sg *= sign[j]
            else:
                return 0
        return sg

    def sqrt_facts(self, ms, box):
        """s = sqrt(sum of squares) >= |each root|, also scaled by a factor of
        known sign"""
        R = self.R
        out = []
        sign = self.atom_signs(box)
        for m in ms:
            for i, e in R.expo(m):
                a = R.atoms[i]
                if e != 1 or a.kind != 'sqrt' or a.sq is None:
                    continue
                rest = m - (1 << (BITS * i))
                sg = self.mono_sign(rest, sign)
                if not sg:
                    continue
                ok = all(c > 0 and all(x % 2 == 0 for _, x in R.expo(mm)) for mm, c in a.sq.t.items())
                if not ok:
                    continue
                for mm, c in a.sq.t.items():
                    f = Fraction(c)
                    n, d = int(math.isqrt(f.numerator)), int(math.isqrt(f.denominator))
                    if n * n != f.numerator or d * d != f.denominator:
                        continue
                    root = rest
                    for j, x in R.expo(mm):
                        root += (x // 2) << (BITS * j)
                    for k in (1, -1):
                        t = {m: Fraction(sg)}
                        t[root] = t.get(root, 0) + k * Fraction(n, d)
                        c0 = t.pop(0, Fraction(0))
                        out.append((t, c0, False))
        return out

    def strictsign(self, r):
        """1 / -1 when every term of the numerator has that sign and one is
        never zero (the denominator's factors must have a known sign); else 0"""
        for f, e in r.d.items():
            if e % 2 and not self.R.fpos(f):
                return 0
        sg = 0
        strict = False
        for m, c in r.n.t.items():
            if m == 0:
                s = 1
            else:
                s = 1
                for i, e in self.R.expo(m):
                    a = self.R.atoms[i]
                    if e % 2 and not (a.lo is not None and a.lo >= 0):
                        return 0
            s = s if c > 0 else -s
            if sg and s != sg:
                return 0
            sg = s
            if m == 0 or self.strictpos(m):
                strict = True
        return sg if strict else 0

    def strictpos(self, m):
        for i, e in self.R.expo(m):
            a = self.R.atoms[i]
            if not self.atompos(a):
                return False
        return True

    def atompos(self, a):
        if a.lo is not None and (a.lo > 0 or a.x == 'pos'):
            return True
        return a.kind == 'sqrt' and a.sq is not None and self.strictsign(Rat(self.R, a.sq, {})) > 0

    def leaves_of(self, g, path=()):
        """feasible (path, leaf value) pairs"""
        st = [(g, tuple(path))]
        n = 0
        while st:
            x, p = st.pop()
            if isinstance(x, Leaf):
                yield p, x.v
                continue
            for child, v in ((x.l, False), (x.h, True)):
                q = p + ((x.c, v),)
                n += 1
                if n > MAXNODES:
                    raise Undecided('too many leaves')
                if self.feasible(q):
                    st.append((child, q))

    def prune(self, g, path=()):
        if isinstance(g, Leaf):
            return g
        ph, pl = path + ((g.c, True),), path + ((g.c, False),)
        fh, fl = self.feasible(ph), self.feasible(pl)
        if not fh:
            return self.prune(g.l, path)
        if not fl:
            return self.prune(g.h, path)
        return self.node(g.c, self.prune(g.h, ph), self.prune(g.l, pl))

    def size(self, g, cap=100000):
        seen = set()
        st = [g]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if isinstance(x, G):
                st += [x.h, x.l]
            if len(seen) > cap:
                break
        return len(seen)

    # ---- arithmetic ------------------------------------------------------
    def arith(self, op, a, b):
        E = self

        def f(x, y):
            if isinstance(x, Opaque):
                return E.leaf(x)
            if isinstance(y, Opaque):
                return E.leaf(y)
            if isinstance(x, bool):
                x = E.R.const(int(x))
            if isinstance(y, bool):
                y = E.R.const(int(y))
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if isinstance(x, Ptr) and isinstance(y, Ptr) and op == '-' and x.b == y.b:
                    return E.num(x.o - y.o)
                return E.opq('pointer arithmetic')
            try:
                if op == '+':
                    r = x + y
                elif op == '-':
                    r = x - y
                elif op == '*':
                    r = x * y
                else:
                    if y.iszero():
                        return E.opq('division by zero')
                    r = x / y
                return E.leaf(r)
            except Undecided as e:
                return E.opq(str(e))
        return self.ap2(f, a, b)

    def cmp(self, op, a, b):
        """op in gt, eq over the difference a-b"""
        E = self

        def f(x, y):
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                return E.condnode('o', None, 'cmp-opaque#%d' % E.fresh())
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                return E.ptrcmp(op, x, y)
            if isinstance(x, bool):
                x = E.R.const(int(x))
            if isinstance(y, bool):
                y = E.R.const(int(y))
            d = x - y
            return E.gt0(d) if op == 'gt' else E.eq0(d)
        return self.ap2(f, a, b)

    def ptrcmp(self, op, x, y):
        def isnull(p):
            return isinstance(p, Rat) and p.iszero()
        if op == 'eq':
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.b == y.b:
                    return self.leaf(bool(x.o == y.o))
                if not (self.maybeany(x.b) and self.maybeany(y.b)):
                    return self.F
                return self.condnode('o', None, 'ptr %s==%s' % (x, y))
            p, q = (x, y) if isinstance(x, Ptr) else (y, x)
            if isnull(q):
                if self.maybeany(p.b):
                    return self.condnode('o', None, 'null %s' % (p,))
                return self.F
        if op == 'gt' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.b == y.b:
            return self.leaf(bool(x.o > y.o))
        return self.condnode('o', None, 'ptrcmp#%d' % self.fresh())

    def maybeany(self, b):
        return b.startswith('*')

    def fresh(self):
        self.nobj += 1
        return self.nobj

    def fun1(self, name, a):
        E = self
        R = self.R

        def f(x):
            if isinstance(x, Opaque):
                return E.leaf(x)
            if isinstance(x, bool) or isinstance(x, Ptr):
                return E.opq('fun of non-number')
            try:
                return E.fun1r(name, x)
            except Undecided as e:
                return E.opq(str(e))
        return self.ap1(f, a)

    def fun1r(self, name, x):
        R = self.R
        if name == 'neg':
            return self.leaf(-x)
        if name == 'fabs':
            lo, hi = x.interval()
            if lo is not None and lo >= 0:
                return self.leaf(x)
            if hi is not None and hi <= 0:
                return self.leaf(-x)
            return self.ite(self.gt0(-x), self.leaf(-x), self.leaf(x))
        if name == 'sqrt':
            # sqrt(N/(f^2k ...)) = sqrt(N/...)/|f|^k
            ev = [f for f, e in x.d.items() if e % 2 == 0 and not R.fpos(f)]
            if ev:
                rest = Rat(R, x.n, {f: e for f, e in x.d.items() if f not in ev})
                r = self.fun1r('sqrt', rest)
                for f in ev:
                    fa = self.fun1r('fabs', Rat(R, R.fac(f), {}))
                    for _ in range(x.d[f] // 2):
                        r = self.arith('/', r, fa)
                return r
            # sqrt(c*m^2*...) of a single squared monomial
            if not x.d and len(x.n.t) == 1:
                (m, c), = x.n.t.items()
                ex = R.expo(m)
                odd = [i for i, e in ex if e % 2 == 0 and not (R.atoms[i].lo is not None and R.atoms[i].lo >= 0)]
                if odd and all(e % 2 == 0 for i, e in ex):
                    k = self.leaf(R.sqrt(R.const(c)))
                    for i, e in ex:
                        fa = self.fun1r('fabs', R.rat_of(R.atoms[i]))
                        for _ in range(e // 2):
                            k = self.arith('*', k, fa)
                    return k
            if not x.d:
                q = exact_sqrt(R, x.n)
                if q is not None:
                    return self.fun1r('fabs', Rat(R, q, {}))
            return self.leaf(R.sqrt(x))
        if name in ('sin', 'cos', 'tan'):
            s, c = self.sincos(x)
            return self.leaf(s if name == 'sin' else c if name == 'cos' else s / c)
        if name in ('exp', 'log', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'rint', 'trunc', 'round'):
            c = x.const()
            if c == 0:
                if name in ('exp', 'cosh'):
                    return self.num(1)
                if name != 'acos':
                    return self.num(0)
            if name == 'tanh':
                return self.leaf(self.hyp(x)[0] / self.hyp(x)[1])
            if name in ('sinh', 'cosh'):
                return self.leaf(self.hyp(x)[0 if name == 'sinh' else 1])
            c = x.const()
            if name in ('asin', 'acos', 'atan') and c is not None and c in (-1, 0, 1):
                k = {'asin': c * 2, 'atan': c, 'acos': (1 - c) * 2}[name]
                return self.leaf(fconst(R, math.pi) * R.const(Fraction(k, 4)))
            a = R.fn(name, [x])
            v = R.rat_of(a)
            if a.deriv is None and name not in ('floor', 'ceil', 'rint', 'trunc', 'round'):
                if name == 'exp':
                    a.deriv = lambda: v * x.ddt()
                    a.lo = 0
                elif name == 'log':
                    a.deriv = lambda: x.ddt() / x
                elif name == 'asin':
                    a.deriv = lambda: x.ddt() / R.sqrt(R.R1 - x * x)
                elif name == 'acos':
                    a.deriv = lambda: -(x.ddt() / R.sqrt(R.R1 - x * x))
                elif name == 'atan':
                    a.deriv = lambda: x.ddt() / (R.R1 + x * x)
            return self.leaf(v)
        raise Undecided('function ' + name)

    def hyp(self, x):
        R = self.R
        a = R.fn('sinh', [x])
        b = R.fn('cosh', [x])
        sr, cr = R.rat_of(a), R.rat_of(b)
        if b.sq is None:
            R.relate(b, R.padd(R.ONE, R.pmul(sr.n, sr.n)))
            b.lo = 1
            a.deriv = lambda: cr * x.ddt()
            b.deriv = lambda: sr * x.ddt()
        return sr, cr

    def sincos(self, x):
        """sin/cos with the inverse functions resolved"""
        R = self.R
        if not x.d and len(x.n.t) == 1:
            (m, c), = x.n.t.items()
            ex = R.expo(m)
            if len(ex) == 1 and ex[0][1] == 1:
                a = R.atoms[ex[0][0]]
                if a.kind in ('asin', 'acos', 'atan', 'atan2') and abs(c) == 1:
                    if a.kind == 'asin':
                        s = a.arg[0]
                        co = R.sqrt(R.R1 - s * s)
                    elif a.kind == 'acos':
                        co = a.arg[0]
                        s = R.sqrt(R.R1 - co * co)
                    elif a.kind == 'atan':
                        t = a.arg[0]
                        co = R.R1 / R.sqrt(R.R1 + t * t)
                        s = t * co
                    else:
                        y, xx = a.arg
                        h = R.sqrt(xx * xx + y * y)
                        s, co = y / h, xx / h
                    return (s if c == 1 else -s), co
        return R.sincos(x)

    def fun2(self, name, a, b):
        E = self
        R = self.R

        def f(x, y):
            for z in (x, y):
                if isinstance(z, Opaque):
                    return E.leaf(z)
                if not isinstance(z, Rat):
                    return E.opq('fun of non-number')
            try:
                if name == 'pow':
                    c = y.const()
                    if c is not None:
                        c = Fraction(c)
                        if c.denominator == 1 and abs(c) <= 16:
                            r = R.R1
                            for _ in range(abs(int(c))):
                                r = r * x
                            return E.leaf(r if c >= 0 else R.R1 / r)
                        if c == Fraction(1, 2):
                            return E.leaf(R.sqrt(x))
                    at = R.fn('pow', [x, y])
                    v = R.rat_of(at)
                    if at.deriv is None:
                        # x^y: d = y x^(y-1) x' (constant exponent)
                        def dv():
                            d = y * v / x * x.ddt()
                            dy = y.ddt()
                            if not dy.iszero():
                                d = d + v * R.rat_of(R.fn('log', [x])) * dy
                            return d
                        at.deriv = dv
                    return E.leaf(v)
                if name == 'atan2':
                    if x.iszero() and y.const() is not None and y.const() > 0:
                        return E.num(0)
                    at = R.fn('atan2', [x, y])
                    if at.deriv is None:
                        at.deriv = lambda: (x.ddt() * y - x * y.ddt()) / (x * x + y * y)
                        at.lo, at.hi = Fraction(-3142, 1000), Fraction(3142, 1000)
                    return E.leaf(R.rat_of(at))
                if name in ('fmod', 'hypot', 'ldexp'):
                    if name == 'hypot':
                        return E.leaf(R.sqrt(x * x + y * y))
                    return E.leaf(R.rat_of(R.fn(name, [x, y])))
                if name in ('fmax', 'fmin'):
                    g = E.gt0(x - y)
                    return E.ite(g, E.leaf(x if name == 'fmax' else y), E.leaf(y if name == 'fmax' else x))
                if name == 'copysign':
                    ax = E.fun1r('fabs', x)
                    return E.ap1(lambda v: E.ite(E.gt0(-y), E.leaf(-v), E.leaf(v)), ax)
            except Undecided as e:
                return E.opq(str(e))
            return E.opq('function ' + name)
        return self.ap2(f, a, b)

    # ---- memory ----------------------------------------------------------
    # state: dict base -> dict off -> (size, gated)
    def mload(self, mem, base, off, ty):
        size = self.mod.sizeof(ty)
        obj = mem.get(base)
        if obj is not None:
            c = obj.get(off)
            if c is not None and c[0] == size:
                return c[1]
            if c is not None and c[0] > size:
                z = c[1]
                if isinstance(z, Leaf) and isinstance(z.v, Rat) and z.v.iszero():
                    return z
                if isinstance(z, Leaf) and isinstance(z.v, Rat) and z.v.const() is not None and \
                        ty.startswith('i') and Fraction(z.v.const()).denominator == 1:
                    return self.num(int(z.v.const()) & ((1 << (8 * size)) - 1))
            for o, (s, v) in obj.items():
                if o < off + size and off < o + s:
                    if isinstance(v, Leaf) and isinstance(v.v, Rat) and v.v.iszero():
                        # zero fill: the whole accessed range must be zero
                        if self.zero_range(obj, off, size):
                            return self.num(0)
                    return self.opq('partial load')
        if base.startswith('%'):
            return self.opq('%s %s+%d' % ('unknown' if base in self.havocked else 'uninitialised', base, off))
        return self.fresh_load(mem, base, off, ty)

    def zero_range(self, obj, off, size):
        cov = 0
        for o, (s, v) in obj.items():
            if o < off + size and off < o + s:
                if not (isinstance(v, Leaf) and isinstance(v.v, Rat) and v.v.iszero()):
                    return False
                cov += min(o + s, off + size) - max(o, off)
        return cov == size

    def fresh_load(self, mem, base, off, ty):
        if base.startswith('@'):
            v = self.const_global(base[1:], off, ty)
            if v is not None:
                return v
        if ty == 'ptr':
            v = self.leaf(Ptr('*%s+%d' % (base, off), 0))
        elif ty in ('double', 'float') or re.match(r'^i\d+$', ty):
            a = self.R.atom('[%s+%d]' % (base, off))
            if base == '@' + EPSNAME:
                a.lo = 0
                a.x = 'pos'
                a.lo = Fraction(1, 10 ** 12)
                a.hi = Fraction(1, 1000)
                self.epsatom = a
            if ty in ('i1', 'i8'):
                if a.lo is None:
                    a.lo, a.hi = 0, 255
            v = self.rat(self.R.rat_of(a))
        else:
            return self.opq('load of ' + ty)
        mem.setdefault(base, {})[off] = (self.mod.sizeof(ty), v)
        # make the lazily created cell visible to every later state
        self.globals_mem.setdefault(base, {})[off] = (self.mod.sizeof(ty), v)
        return v

    def const_global(self, name, off, ty):
        raw = self.mod.globals.get(name)
        if raw is None:
            return None
        m = re.match(r'^((?:[a-z_]+(?:\([^)]*\))? )*)(constant|global) (.*)$', raw)
        if not m or m.group(2) != 'constant' or 'external' in m.group(1):
            return None
        c = irparse.Cur(m.group(3))
        t = c.type()
        try:
            init = c.value(t)
        except irparse.IRError:
            return None
        return self.const_at(t, init, off, ty)

    def const_at(self, t, init, off, ty):
        mod = self.mod
        if init.kind == 'agg' and init.val == 'zeroinitializer':
            return self.num(0)
        if t == ty or not (t.startswith(('{', '[', '%', '<'))):
            if off != 0:
                return None
            return self.operand(None, init, ty)
        if init.kind == 'str':
            return self.str_at(init.val, off, ty)
        parts = irparse.split_top(init.val.strip()[1:-1] if not init.val.startswith('<{') else init.val[2:-2])
        for k, p in enumerate(parts):
            o, et = mod.elem(t, k)
            if o <= off < o + max(1, mod.sizeof(et)):
                cc = irparse.Cur(p)
                tt = cc.type()
                v = cc.value(tt)
                return self.const_at(tt, v, off - o, ty)
        return None

    def str_at(self, raw, off, ty):
        # the bytes of c"..." with \\hh escapes, read as an integer (little endian)
        if ty not in ('i8', 'i16', 'i32', 'i64'):
            return None
        b, i = [], 0
        while i < len(raw):
            if raw[i] == '\\' and raw[i + 1] == '\\':
                b.append(92)
                i += 2
            elif raw[i] == '\\':
                b.append(int(raw[i + 1:i + 3], 16))
                i += 3
            else:
                b.append(ord(raw[i]))
                i += 1
        n = int(ty[1:]) // 8
        if off < 0 or off + n > len(b):
            return None
        return self.num(int.from_bytes(bytes(b[off:off + n]), 'little', signed=True))

    def mstore(self, mem, base, off, size, v):
        obj = mem.get(base)
        obj = dict(obj) if obj is not None else {}
        mem[base] = obj
        for o in list(obj):
            s, old = obj[o]
            if o != off and o < off + size and off < o + s or (o == off and s != size):
                del obj[o]
                # keep zero remainders of a fill
                if isinstance(old, Leaf) and isinstance(old.v, Rat) and old.v.iszero():
                    if o < off:
                        obj[o] = (off - o, old)
                    if o + s > off + size:
                        obj[off + size] = (o + s - off - size, old)
                elif o < off or o + s > off + size:
                    # partially overwritten value: remaining bytes unknown
                    if o < off:
                        obj[o] = (off - o, self.opq('partial overwrite'))
                    if o + s > off + size:
                        obj[off + size] = (o + s - off - size, self.opq('partial overwrite'))
        obj[off] = (size, v)

    def overlapping(self, offs):
        end = None
        for k, z in sorted(offs):
            if end is not None and k < end:
                return True
            end = k + z if end is None else max(end, k + z)
        return False

    def join_cells(self, obj, offs):
        """adjacent cells holding integer constants, joined where other states have one cell"""
        out = obj
        for k, z in sorted(offs, key=lambda x: -x[1]):
            if z > 8 or (k in out and out[k][0] >= z):
                continue
            o, n = k, 0
            while o < k + z and o in out and o + out[o][0] <= k + z:
                s, v = out[o]
                c = v.v.const() if isinstance(v, Leaf) and isinstance(v.v, Rat) else None
                if c is None or Fraction(c).denominator != 1:
                    break
                n |= (int(c) & ((1 << (8 * s)) - 1)) << (8 * (o - k))
                o += s
            if o == k + z:
                if out is obj:
                    out = dict(obj)
                x = k
                while x < k + z:
                    s = out.pop(x)[0]
                    x += s
                out[k] = (z, self.num(n - (1 << (8 * z)) if n >> (8 * z - 1) else n))
        return out

    def split_cells(self, obj, offs):
        """cells holding integer constants, cut where other states have smaller cells"""
        cuts = sorted(set(k for k, z in offs) | set(k + z for k, z in offs))
        out = dict(obj)
        for o, (s, v) in obj.items():
            if isinstance(v, Leaf) and isinstance(v.v, Rat) and v.v.const() is not None and s <= 4096:
                c = Fraction(v.v.const())
                if c != 0 and (c.denominator != 1 or s > 8):
                    continue
                ins = [x for x in cuts if o < x < o + s]
                if ins:
                    n = int(c) & ((1 << (8 * s)) - 1) if c else 0
                    del out[o]
                    for a, b in zip([o] + ins, ins + [o + s]):
                        m = (n >> (8 * (a - o))) & ((1 << (8 * (b - a))) - 1)
                        out[a] = (b - a, self.num(m - (1 << (8 * (b - a))) if m >> (8 * (b - a) - 1) else m))
        return out

    def mmerge(self, conds_states):
        """[(edgecond, state)] -> state; the last one is the default"""
        if len(conds_states) == 1:
            return {b: o for b, o in conds_states[0][1].items()}
        bases = set()
        for _, s in conds_states:
            bases |= set(s)
        out = {}
        for b in bases:
            objs = [s.get(b) for _, s in conds_states]
            if all(o is objs[0] for o in objs):
                out[b] = objs[0]
                continue
            offs = set()
            for o in objs:
                if o:
                    offs |= set((k, v[0]) for k, v in o.items())
            if len(set(k for k, z in offs)) < len(offs) or self.overlapping(offs):
                objs = [self.join_cells(o, offs) if o else o for o in objs]
                offs = set((k, v[0]) for o in objs if o for k, v in o.items())
            if len(set(k for k, z in offs)) < len(offs) or self.overlapping(offs):
                objs = [self.split_cells(o, offs) if o else o for o in objs]
                offs = set((k, v[0]) for o in objs if o for k, v in o.items())
            res = {}
            for off, size in sorted(offs):
                vals = []
                for o in objs:
                    c = o.get(off) if o else None
                    if c is not None and c[0] == size:
                        vals.append(c[1])
                    elif b == '%live':
                        vals.append(self.F)
                    else:
                        lazy = self.globals_mem.get(b, {}).get(off)
                        if c is None and lazy is not None and lazy[0] == size and not (
                                o and any(x < off + size and off < x + s for x, (s, _) in o.items())):
                            vals.append(lazy[1])
                        elif c is None and not b.startswith('%') and not b.startswith('new') and not (
                                o and any(x < off + size and off < x + s for x, (s, _) in o.items())):
                            vals.append(self.fresh_load({}, b, off, 'double' if size == 8 else 'i%d' % (8 * size)))
                        else:
                            vals.append(self.opq('%s %s+%d' % ('unknown' if b in self.havocked else 'uninitialised', b, off)))
                v = vals[-1]
                for (ec, _), x in reversed(list(zip(conds_states, vals))[:-1]):
                    v = self.ite(ec, x, v)
                res[off] = (size, v)
            out[b] = res
        self.stats['joins'] += 1
        return out

    # ---- operands --------------------------------------------------------
    def operand(self, env, o, ty=None):
        k = o.kind
        if k == 'local':
            v = env.get(o.val)
            if v is None:
                return self.opq('undefined %s' % o.val)
            return v
        t = o.ty or ty
        if k == 'const':
            s = o.val
            if t in ('double', 'float'):
                if s.startswith('0x'):
                    x = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
                else:
                    x = float(s)
                try:
                    return self.rat(self.R.const(x))
                except Undecided as e:
                    if x in (float('inf'), float('-inf')):
                        a = self.R.atom('inf')
                        a.lo = 10 ** 300
                        r = self.R.rat_of(a)
                        return self.rat(r if x > 0 else -r)
                    return self.opq(str(e))
            if t == 'i1':
                return self.leaf(s in ('1', 'true', '-1'))
            return self.num(int(s))
        if k == 'null':
            return self.num(0)
        if k == 'undef':
            return self.opq('undef')
        if k == 'global':
            return self.leaf(Ptr('@' + o.val, 0))
        if k == 'cexpr':
            g = irparse.parse_cexpr_gep(self.mod, o)
            if g is not None:
                return self.leaf(Ptr('@' + g[0], g[1]))
            return self.opq('constant expression')
        if k == 'agg':
            if o.val == 'zeroinitializer':
                return self.num(0)
            if t and t.startswith('{'):
                el = []
                for p in irparse.split_top(o.val.strip()[1:-1]):
                    c = irparse.Cur(p)
                    el.append(self.operand(env, c.typed()))
                return self.leaf(Agg(el))
        return self.opq('operand ' + k)

    # ---- functions -------------------------------------------------------
    def call_fn(self, name, args, mem, reach):
        F = self.mod.functions.get(name)
        if F is None:
            return None
        if self.depth > 40:
            raise Undecided('call depth')
        irparse.body(F)
        self.depth += 1
        self.stats['calls'] += 1
        self.trace_fns.add(name)
        try:
            return self.run(F, args, mem, reach)
        finally:
            self.depth -= 1

    def loops(self, F):
        """header -> set of blocks (natural loops)"""
        out = {}
        order = irparse.rpo(F)
        inr = set(order)
        for b in order:
            for s in b.succ:
                if irparse.dominates(F, s, b):
                    body = out.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += [p for p in x.pred if p in inr]
        return out

    def run(self, F, args, mem, reach):
        inst = self.fresh()
        env = {}
        for (t, n, at), v in zip(F.params, args):
            env[n] = v
        info = getattr(F, '_loopinfo', None)
        if info is None:
            order = irparse.rpo(F)
            info = F._loopinfo = (order, self.loops(F))
        order, loops = info
        rets = []
        self.region(F, inst, order, None, loops, env, [(reach, dict(mem), None)], rets)
        if not rets:
            return (self.opq('no return'), mem, self.F)
        rr = self.F
        for r, _, _ in rets:
            rr = self.b_or(rr, r)
        st = self.mmerge([(r, s) for r, _, s in rets])
        v = None
        for r, x, _ in reversed(rets):
            if x is not None:
                v = x if v is None else self.ite(r, x, v)
        return (v, st, rr)

    def literals(self, g):
        """literals that hold whenever g does (those at the root of it)"""
        out = ()
        while isinstance(g, G):
            if g.l is self.F:
                out += ((g.c, True),)
                g = g.h
            elif g.h is self.F:
                out += ((g.c, False),)
                g = g.l
            else:
                break
        return out

    def region(self, F, inst, order, head, loops, env, entry, rets):
        """number the blocks of `order` (the whole function, or the body of
        the loop with header `head`) once.  entry: (condition, state, pred)
        of the edges into the first block; a loop inside is repeated while its
        back edge can be taken, or havocked when that does not end.
        Returns the edges that leave the region (and those back to `head`)."""
        edge = {}            # (from, to) -> (condition including reach, state)
        inside = set(order)
        done = set()
        for b in order:
            if b in done:
                continue
            self.stats['blocks'] += 1
            if b is order[0]:
                ins = [e for e in entry if e[0] is not self.F]
            else:
                ins = [edge[(p, b)] + (p,) for p in b.pred if (p, b) in edge and edge[(p, b)][0] is not self.F]
            if not ins:
                continue
            if b in loops and b is not head:
                L = loops[b]
                done |= L
                for k, v in self.loop(F, inst, [x for x in order if x in L], b, loops, env, ins, rets).items():
                    edge[k] = v
                continue
            r = self.F
            for e, _, _ in ins:
                r = self.b_or(r, e)
            if self.size(r, 400) >= 400:
                r = self.prune(r)
            if r is self.F:
                continue
            st = self.mmerge([(e, s) for e, s, _ in ins])
            phis = []
            for I in b.ins:
                if I.op != 'phi':
                    break
                if self.havocking and b is head and self.havocking[-1] is b:
                    v = self.opq('loop-carried %s in %s' % (I.res, F.name[:40]))
                else:
                    byb = {n: o for o, n in I.x['inc']}
                    v = None
                    for e, _, p in reversed(ins):
                        x = self.operand(env, byb[p.name], I.ty)
                        v = x if v is None else self.ite(e, x, v)
                phis.append((I.res, v))
            for n, v in phis:
                env[n] = v
            for I in b.ins:
                if I.op == 'phi':
                    continue
                self.stats['instrs'] += 1
                self.step(F, inst, I, env, st, r)
                if self.returning is not None:
                    r, self.returning = self.returning, None
                    if self.size(r, 400) >= 400:
                        r = self.prune(r)
                    if r is self.F:
                        break
                if TRACE and I.res and I.res in env:
                    v = env[I.res]
                    if isinstance(v, Leaf) and isinstance(v.v, Opaque) or (isinstance(v, G) and self.conds[v.c].kind == 'o'):
                        l = self.mod.loc(I.dbg)
                        if self.stats.setdefault('traced', 0) < int(TRACE):
                            self.stats['traced'] += 1
                            print('TRACE', F.name[:60], I.raw[:110] if I.raw else I.op, '|', (l[0] or '')[-40:] if l else '', l[1] if l else '', '|', v.v.why[:80] if isinstance(v, Leaf) else self.condstr(v.c, True)[:80])
                if I.op == 'ret':
                    rets.append((r, self.operand(env, I.ops[0]) if I.ops else None, st))
            T = b.term
            if T.op in ('unreachable', 'resume'):
                self.noret += 1
            if r is self.F:
                continue
            if T.op == 'br':
                if T.ops:
                    c = self.boolv(self.operand(env, T.ops[0], 'i1'))
                    if isinstance(c, G) and self.assume is not self.T and self.size(c, 12) < 12:
                        c = self.prune(c, self.literals(self.assume) + self.literals(r))
                    s = [F.bmap[x] for x in T.x['succ']]
                    if s[0] is s[1]:
                        edge[(b, s[0])] = (r, st)
                    else:
                        edge[(b, s[0])] = (self.b_and(r, c), st)
                        edge[(b, s[1])] = (self.b_and(r, self.b_not(c)), st)
                else:
                    edge[(b, F.bmap[T.x['succ'][0]])] = (r, st)
            elif T.op == 'switch':
                v = self.operand(env, T.ops[0])
                rest = r
                for cv, tgt in T.x['cases']:
                    c = self.cmp('eq', v, self.num(cv))
                    e = self.b_and(rest, c)
                    k = (b, F.bmap[tgt])
                    edge[k] = (self.b_or(edge[k][0] if k in edge else self.F, e), st)
                    rest = self.b_and(rest, self.b_not(c))
                k = (b, F.bmap[T.x['default']])
                edge[k] = (self.b_or(edge[k][0] if k in edge else self.F, rest), st)
            elif T.op == 'invoke':
                edge[(b, F.bmap[T.x['succ'][0]])] = (r, st)
        return {k: v for k, v in edge.items() if k[1] not in inside or k[1] is head}

    def loop(self, F, inst, order, head, loops, env, entry, rets):
        """-> {exit edge: (condition, state)}"""
        L = loops[head]
        env0 = dict(env)
        rets0 = list(rets)
        nob = len(self.obl)
        exits = []                        # (key, cond, state, env) in order of time
        ins = entry
        n = 0
        ok = True
        while True:
            n += 1
            if n > MAXITER:
                ok = False
                break
            out = self.region(F, inst, order, head, loops, env, ins, rets)
            ins = []
            snap = None
            for (p, x), (c, st) in out.items():
                if x is head:
                    if c is not self.F:
                        if not isinstance(c, Leaf) and self.size(c, 60) < 60:
                            c = self.prune(c)
                        if c is not self.F:
                            ins.append((c, st, p))
                elif c is not self.F:
                    if snap is None:
                        snap = dict(env)
                    exits.append(((p, x), c, st, snap))
            if not ins:
                break
            if n >= 3 and any(self.opaque_cond(c) for c, _, _ in ins):
                ok = False
                break
        if not ok:
            env.clear()
            env.update(env0)
            del rets[len(rets0):]
            del self.obl[nob:]
            st = self.mmerge([(c, s) for c, s, _ in entry])
            st = {k: v for k, v in st.items()}
            self.havoc_loop(F, L, st, env)
            r = self.F
            for c, _, _ in entry:
                r = self.b_or(r, c)
            self.havocking.append(head)
            try:
                out = self.region(F, inst, order, head, loops, env, [(r, st, entry[0][2])], rets)
            finally:
                self.havocking.pop()
            self.stats['havocked'] = self.stats.get('havocked', 0) + 1
            # whether and when the loop is left is not known
            return {k: (self.b_and(r, self.condnode('o', None, 'exit of a loop in %s#%d' % (F.name[:40], self.fresh()))) if len([1 for q in out if q[1] is not head]) > 1 else r, v[1])
                    for k, v in out.items() if k[1] is not head}
        # join the exits of the iterations
        names = self.live_out(F, head, L)
        groups = {}
        for k, c, st, e in exits:
            groups.setdefault(k, []).append((c, st, e))
        if len(exits) > 1:
            for nm in names:
                v = None
                for k, c, st, e in reversed(exits):
                    x = e.get(nm)
                    if x is None:
                        continue
                    v = x if v is None else self.ite(c, x, v)
                if v is not None:
                    env[nm] = v
        elif exits:
            e = exits[0][3]
            for nm in names:
                if nm in e:
                    env[nm] = e[nm]
        res = {}
        for k, l in groups.items():
            c = self.F
            for cc, _, _ in l:
                c = self.b_or(c, cc)
            res[k] = (c, self.mmerge([(cc, s) for cc, s, _ in l]) if len(l) > 1 else l[0][1])
        return res

    def opaque_cond(self, g):
        seen = set()
        st = [g]
        while st:
            x = st.pop()
            if x.id in seen or isinstance(x, Leaf):
                continue
            seen.add(x.id)
            if self.conds[x.c].kind == 'o':
                return True
            st += [x.h, x.l]
        return False

    def live_out(self, F, head, L):
        """values defined in the loop and used outside of it"""
        c = getattr(F, '_liveout', None)
        if c is None:
            c = F._liveout = {}
        if head not in c:
            defs = set(I.res for b in L for I in b.ins if I.res)
            use = set()
            for b in F.blocks:
                for I in b.ins:
                    if I.op == 'phi':
                        for o, n in I.x['inc']:
                            if o.kind == 'local' and o.val in defs and (b not in L or b is head):
                                use.add(o.val)
                    elif b not in L:
                        for o in I.ops:
                            if o.kind == 'local' and o.val in defs:
                                use.add(o.val)
                        if I.op == 'call' or I.op == 'invoke':
                            o = I.x['callee']
                            if o.kind == 'local' and o.val in defs:
                                use.add(o.val)
            c[head] = use
        return c[head]

    def boolv(self, c):
        E = self

        def f(x):
            if isinstance(x, bool):
                return E.leaf(x)
            if isinstance(x, Opaque):
                return E.condnode('o', None, 'opaque:%s' % x.why)
            if isinstance(x, Rat):
                return E.b_not(E.eq0(x))
            return E.condnode('o', None, 'bool#%d' % E.fresh())
        return self.ap1(f, c)

    def havoc_loop(self, F, body, st, env):
        for b in body:
            for I in b.ins:
                if I.op in ('store', 'call', 'invoke'):
                    if I.op == 'store':
                        p = I.ops[1]
                        base = self.static_base(F, p, env)
                        if base is not None:
                            for bb in base:
                                if bb in st:
                                    st[bb] = {o: (s, self.opq('loop store')) for o, (s, v) in st[bb].items()}
                            continue
                    else:
                        n = I.x['callee'].val
                        if isinstance(n, str) and (n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n in PURE):
                            continue
                    for bb in self.bases(st):
                        st[bb] = {o: (s, self.opq('loop store')) for o, (s, v) in st[bb].items()}

    def static_base(self, F, p, env):
        """object(s) a pointer operand may point into, if known before the loop"""
        seen = 0
        while seen < 50:
            seen += 1
            if p.kind == 'global':
                return ['@' + p.val]
            if p.kind != 'local':
                return None
            if p.val in env:
                v = env[p.val]
                out = set()
                for _, x in self.leaves_of(v):
                    if not isinstance(x, Ptr):
                        return None
                    out.add(x.b)
                return sorted(out)
            d = None
            for b in F.blocks:
                for I in b.ins:
                    if I.res == p.val:
                        d = I
            if d is None or d.op not in ('getelementptr', 'bitcast'):
                return None
            p = d.ops[0]
        return None

    # ---- transfer --------------------------------------------------------
    def step(self, F, inst, I, env, st, reach):
        op = I.op
        E = self
        if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'fence'):
            return
        if op == 'alloca':
            b = '%%%s:%d:%s' % (F.name[:60], inst, I.res)
            env[I.res] = self.leaf(Ptr(b, 0))
            if self.memc is not None:
                self.memc.stack(b, I, env)
            return
        if op in ('fadd', 'add'):
            env[I.res] = self.arith('+', *self.ops2(I, env))
            return
        if op in ('fsub', 'sub'):
            env[I.res] = self.arith('-', *self.ops2(I, env))
            return
        if op in ('fmul', 'mul'):
            env[I.res] = self.arith('*', *self.ops2(I, env))
            return
        if op == 'fdiv':
            env[I.res] = self.arith('/', *self.ops2(I, env))
            return
        if op == 'frem':
            env[I.res] = self.fun2('fmod', *self.ops2(I, env))
            return
        if op == 'fneg':
            env[I.res] = self.fun1('neg', self.operand(env, I.ops[0]))
            return
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            env[I.res] = self.intop(I, env)
            return
        if op == 'icmp':
            env[I.res] = self.icmp(I, env)
            return
        if op == 'fcmp':
            a, b = self.ops2(I, env)
            p = I.x['pred']
            if p in ('true', 'ord'):
                v = self.T
            elif p in ('false', 'uno'):
                v = self.F
            else:
                p = p[1:]
                if p == 'gt':
                    v = self.cmp('gt', a, b)
                elif p == 'lt':
                    v = self.cmp('gt', b, a)
                elif p == 'ge':
                    v = self.b_not(self.cmp('gt', b, a))
                elif p == 'le':
                    v = self.b_not(self.cmp('gt', a, b))
                elif p == 'eq':
                    v = self.cmp('eq', a, b)
                else:
                    v = self.b_not(self.cmp('eq', a, b))
            env[I.res] = v
            return
        if op == 'select':
            c = self.boolv(self.operand(env, I.ops[0], 'i1'))
            env[I.res] = self.ite(c, self.operand(env, I.ops[1]), self.operand(env, I.ops[2]))
            return
        if op in ('zext', 'sext', 'bitcast', 'fpext', 'sitofp', 'uitofp', 'freeze', 'trunc', 'fptrunc', 'ptrtoint', 'inttoptr'):
            v = self.operand(env, I.ops[0])
            if op == 'trunc' and I.ty == 'i1':
                v = self.boolv(v)
            elif op in ('zext', 'uitofp', 'sext', 'sitofp') and I.ops[0].ty == 'i1':
                one = self.num(-1 if op in ('sext', 'sitofp') else 1)
                v = self.ite(self.boolv(v), one, self.num(0))
            elif op == 'trunc':
                bits = int(I.ty[1:])
                v = self.ap1(lambda x: E.num(int(x.const()) & ((1 << bits) - 1))
                             if isinstance(x, Rat) and x.const() is not None else E.leaf(x), v)
            env[I.res] = v
            return
        if op in ('fptosi', 'fptoui'):
            env[I.res] = self.ap1(lambda x: E.num(int(x.const())) if isinstance(x, Rat) and x.const() is not None
                                  else (E.rat(E.R.rat_of(E.R.fn('trunc', [x]))) if isinstance(x, Rat) else E.opq('fptoint')),
                                  self.operand(env, I.ops[0]))
            return
        if op == 'getelementptr':
            env[I.res] = self.gep(I, env)
            return
        if op == 'load':
            p = self.operand(env, I.ops[0])
            ty = I.ty
            if self.memc is not None and not self.strcode(I):
                self.memc.access(F, I, st, p, self.mod.sizeof(ty), reach, 'read')

            def f(x):
                if isinstance(x, Ptr) and isinstance(x.o, int):
                    return E.mload(st, x.b, x.o, ty)
                return E.opq('load through unknown pointer (%r)' % (x,))
            v = self.ap1(f, p)
            if ty == 'i1':
                v = self.boolv(v)
            env[I.res] = v
            return
        if op == 'store':
            if self.strcode(I):
                pv = self.single(self.operand(env, I.ops[1]))
                if not (isinstance(pv, Ptr) and isinstance(pv.o, int)):
                    return
            elif self.memc is not None:
                self.memc.access(F, I, st, self.operand(env, I.ops[1]), self.mod.sizeof(I.ops[0].ty), reach, 'write')
            self.store(st, self.operand(env, I.ops[1]), self.mod.sizeof(I.ops[0].ty), self.operand(env, I.ops[0]))
            return
        if op == 'extractvalue':
            v = self.operand(env, I.ops[0])
            for k in I.x['idx']:
                v = self.ap1(lambda x: x.el[k] if isinstance(x, Agg) else (E.leaf(x) if isinstance(x, Rat) and x.iszero() else E.opq('extractvalue')), v)
            env[I.res] = v
            return
        if op == 'insertvalue':
            a = self.operand(env, I.ops[0])
            b = self.operand(env, I.ops[1])
            k = I.x['idx'][0]
            n = len(irparse.split_top(I.ty[1:-1])) if I.ty.startswith('{') else 8

            def g(x):
                el = list(x.el) if isinstance(x, Agg) else [E.opq('undef')] * n
                el[k] = b
                return E.leaf(Agg(el))
            env[I.res] = self.ap1(g, a)
            return
        if op in ('call', 'invoke'):
            r = self.call(F, I, env, st, reach)
            if I.res:
                env[I.res] = r if r is not None else self.opq('void result')
            return
        if op == 'landingpad':
            env[I.res] = self.opq('landingpad')
            return
        if I.res:
            env[I.res] = self.opq('instruction ' + op)

    def ops2(self, I, env):
        return self.operand(env, I.ops[0], I.ty), self.operand(env, I.ops[1], I.ty)

    def strcode(self, I):
        """instruction of the inlined std::string implementation: assumed
        memory-safe, so it touches only the string object and its buffer"""
        k = I.dbg
        if k is None:
            return False
        r = self._strc.get(k)
        if r is None:
            l = self.mod.loc(k)
            f = (l[0] or '') if l else ''
            r = self._strc[k] = f.rsplit('/', 1)[-1] in STRFILES and '/c++/' in f
        return r

    def string_call(self, n, I, env, st):
        p = self.single(self.operand(env, I.ops[0])) if I.ops else None
        if n.startswith(STRK):
            return self.opq('std::string query')
        if isinstance(p, Ptr) and isinstance(p.o, int):
            obj = st[p.b] = dict(st.get(p.b, {}))
            for o in list(obj):
                if p.o <= o < p.o + 32:
                    obj[o] = (obj[o][0], self.opq('std::string contents'))
        if '9_M_create' in n:
            b = 'newstr#%d' % self.fresh()
            st[b] = {}
            return self.leaf(Ptr(b, 0))
        return self.opq('std::string result')

    def bases(self, st):
        return [b for b in st if b != '%live']

    def store(self, st, p, size, v):
        lv = list(self.leaves_of(p)) if not isinstance(p, Leaf) else [((), p.v)]
        if len(lv) == 1:
            x = lv[0][1]
            if isinstance(x, Ptr) and isinstance(x.o, int):
                self.mstore(st, x.b, x.o, size, v)
                return
            for bb in self.bases(st):
                st[bb] = {o: (s, self.opq('store through unknown pointer')) for o, (s, _) in st[bb].items()}
            return
        # gated pointer: conditional update of each target
        tg = {}
        for path, x in lv:
            if not isinstance(x, Ptr) or not isinstance(x.o, int):
                for bb in self.bases(st):
                    st[bb] = {o: (s, self.opq('store through unknown pointer')) for o, (s, _) in st[bb].items()}
                return
            c = self.T
            for i, val in path:
                n = self.node(i, self.T, self.F)
                c = self.b_and(c, n if val else self.b_not(n))
            tg[(x.b, x.o)] = self.b_or(tg.get((x.b, x.o), self.F), c)
        for (b, o), c in tg.items():
            old = self.mload(st, b, o, 'double' if size == 8 else 'i%d' % (8 * size))
            self.mstore(st, b, o, size, self.ite(c, v, old))

    def gep(self, I, env):
        E = self
        base = self.operand(env, I.ops[0])
        off = self.num(0)
        cur = I.x['ety']
        for k, o in enumerate(I.ops[1:]):
            if k == 0:
                sc = self.mod.sizeof(cur)
                off = self.arith('+', off, self.arith('*', self.operand(env, o), self.num(sc)))
            elif cur.startswith(('%', '{', '<{')):
                d, cur = self.mod.elem(cur, int(o.val))
                off = self.arith('+', off, self.num(d))
            else:
                n, et = irparse.array_parts(cur)
                off = self.arith('+', off, self.arith('*', self.operand(env, o), self.num(self.mod.sizeof(et))))
                cur = et

        def f(b, d):
            if isinstance(b, Ptr) and isinstance(d, Rat) and d.const() is not None and isinstance(b.o, int):
                c = int(d.const())
                if c >= 1 << 63:
                    c -= 1 << 64
                return E.leaf(Ptr(b.b, b.o + c))
            if isinstance(b, Ptr):
                return E.opq('variable index')
            if isinstance(b, Opaque):
                return E.leaf(b)
            if isinstance(b, Rat) and isinstance(d, Rat) and b.const() is not None and d.const() is not None:
                return E.leaf(b + d)
            return E.opq('gep of non-pointer')
        return self.ap2(f, base, off)

    def intop(self, I, env):
        E = self
        op = I.op
        a, b = self.ops2(I, env)
        if I.ty == 'i1':
            a, b = self.boolv(a), self.boolv(b)
            if op == 'and':
                return self.b_and(a, b)
            if op == 'or':
                return self.b_or(a, b)
            if op == 'xor':
                return self.ite(a, self.b_not(b), b)
        bits = int(I.ty[1:]) if re.match(r'^i\d+$', I.ty) else 64

        def f(x, y):
            if isinstance(x, bool):
                x = E.R.const(int(x))
            if isinstance(y, bool):
                y = E.R.const(int(y))
            if isinstance(x, Rat) and isinstance(y, Rat):
                cx, cy = x.const(), y.const()
                if cx is not None and cy is not None:
                    cx, cy = int(cx), int(cy)
                    m = (1 << bits) - 1
                    if op == 'shl':
                        r = (cx << cy) & m
                    elif op == 'lshr':
                        r = (cx & m) >> cy
                    elif op == 'ashr':
                        r = cx >> cy
                    elif op == 'and':
                        r = cx & cy
                    elif op == 'or':
                        r = cx | cy
                    elif op == 'xor':
                        r = cx ^ cy
                    elif cy == 0:
                        return E.opq('integer division by zero')
                    elif op in ('sdiv', 'udiv'):
                        r = abs(cx) // abs(cy) * (1 if cx * cy >= 0 else -1)
                    else:
                        r = abs(cx) % abs(cy) * (1 if cx >= 0 else -1)
                    return E.num(r)
                if cy == 0 and op in ('or', 'xor', 'shl', 'lshr', 'ashr'):
                    return E.leaf(x)
                if cx == 0 and op in ('or', 'xor'):
                    return E.leaf(y)
                if op == 'shl' and cy is not None:
                    return E.leaf(x * E.R.const(1 << int(cy)))
                if op == 'and' and cy == 1:
                    return E.leaf(E.R.rat_of(E.R.fn('bit0', [x])))
            if isinstance(x, Ptr) and op == 'or':
                return E.opq('pointer or')
            if op in ('and', 'or', 'xor'):
                m = (1 << bits) - 1

                def kb(v):
                    if isinstance(v, Bits):
                        return v.km, v.kv
                    if isinstance(v, Rat) and v.const() is not None:
                        return m, int(v.const()) & m
                    return 0, 0
                (ka, va), (kc, vc) = kb(x), kb(y)
                if op == 'and':
                    k = ka & kc | ka & ~va | kc & ~vc
                    v = va & vc
                elif op == 'or':
                    k = ka & kc | ka & va | kc & vc
                    v = va | vc
                else:
                    k = ka & kc
                    v = va ^ vc
                k &= m
                v &= k
                if k == m:
                    return E.num(v - (1 << bits) if v >> (bits - 1) else v)
                if k:
                    return E.leaf(Bits(k, v))
            return E.opq('integer op ' + op)
        return self.ap2(f, a, b)

    def icmp(self, I, env):
        a, b = self.ops2(I, env)
        t = I.ops[0].ty
        p = I.x['pred']
        if t == 'i1':
            a, b = self.boolv(a), self.boolv(b)
            x = self.ite(a, self.b_not(b), b)
            if p == 'ne':
                return x
            if p == 'eq':
                return self.b_not(x)
        if p == 'eq':
            return self.cmp('eq', a, b)
        if p == 'ne':
            return self.b_not(self.cmp('eq', a, b))
        if p[0] == 'u' and t != 'ptr':
            # order of the unsigned values: negative numbers stand for large ones
            zero = self.num(0)

            def neg(v):
                return self.cmp('gt', zero, v)

            def lt(x, y):
                nx, ny = neg(x), neg(y)
                same = self.b_or(self.b_and(nx, ny), self.b_and(self.b_not(nx), self.b_not(ny)))
                return self.b_or(self.b_and(same, self.cmp('gt', y, x)), self.b_and(self.b_not(nx), ny))
            if p == 'ult':
                return lt(a, b)
            if p == 'ugt':
                return lt(b, a)
            if p == 'ule':
                return self.b_not(lt(b, a))
            return self.b_not(lt(a, b))
        q = p[1:]
        if q == 'gt':
            return self.cmp('gt', a, b)
        if q == 'lt':
            return self.cmp('gt', b, a)
        if q == 'ge':
            return self.b_not(self.cmp('gt', b, a))
        return self.b_not(self.cmp('gt', a, b))

    # ---- calls -----------------------------------------------------------
    def call(self, F, I, env, st, reach):
        callee = I.x['callee']
        if callee.kind == 'global':
            names = [callee.val]
        elif callee.kind == 'local':
            v = self.operand(env, callee)
            lv = list(self.leaves_of(v))
            if len(lv) == 1 and isinstance(lv[0][1], Ptr) and lv[0][1].b.startswith('@'):
                names = [lv[0][1].b[1:]]
            elif 1 < len(lv) <= 16:
                return self.split_call(F, I, env, st, reach, lv)
            else:
                return self.havoc_call(I, env, st, 'indirect call')
        else:
            return self.havoc_call(I, env, st, 'inline asm')
        n = names[0]
        n = self.mod.aliases.get(n, n)
        if 'vp_sub_' + n in self.mod.functions:
            n = 'vp_sub_' + n
        h = self.hooks.get(n)
        if h is None and n.startswith('llvm.'):
            h = self.hooks.get('.'.join(n.split('.')[:2]))
        if h is not None:
            return h(self, F, I, env, st, reach)
        if n.startswith((STR, STRK)):
            return self.string_call(n, I, env, st)
        if n.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')) and self.strcode(I):
            nn = self.single(self.operand(env, I.ops[2]))
            if not (isinstance(nn, Rat) and nn.const() is not None):
                for _, x in self.leaves_of(self.operand(env, I.ops[0])):
                    if isinstance(x, Ptr) and isinstance(x.o, int) and not x.b.startswith('new'):
                        obj = st[x.b] = dict(st.get(x.b, {}))
                        for o in list(obj):
                            if x.o <= o < x.o + 16:
                                obj[o] = (obj[o][0], self.opq('std::string buffer'))
                return self.operand(env, I.ops[0])
        r = self.builtin(n, F, I, env, st, reach)
        if r is not NotImplemented:
            return r
        if n in self.mod.functions:
            args = [self.operand(env, o) for o in I.ops]
            # byval / sret are plain pointers here
            k = self.noret
            v, m2, rr = self.call_fn(n, args, st, reach)
            if self.noret != k:
                self.returning = rr        # some way through the callee does not return
            st.clear()
            st.update(m2)
            return v
        if n in PURE:
            return self.opq('result of ' + n)
        return self.havoc_call(I, env, st, 'external ' + n)

    def given(self, g, lits):
        """g, under the literals lits"""
        while isinstance(g, G) and g.c in lits:
            g = g.h if lits[g.c] else g.l
        if isinstance(g, Leaf):
            return g
        h, l = self.given(g.h, lits), self.given(g.l, lits)
        return g if h is g.h and l is g.l else self.node(g.c, h, l)

    def split_call(self, F, I, env, st, reach, lv):
        """a call to one of several functions (or of one function on several
        grounds): each where it applies"""
        out = []
        rr = self.F
        noret = False
        v = None
        ways = []
        for path, x in lv:
            c = self.T
            for k, b in reversed(path):
                c = self.node(k, c, self.F) if b else self.node(k, self.F, c)
            here = self.b_and(reach, c)
            g = self.b_and(here, self.assume)
            if self.size(g, 400) < 400:
                g = self.prune(g)
            if g is self.F:
                continue
            if not (isinstance(x, Ptr) and x.b.startswith('@')):
                return self.havoc_call(I, env, st, 'indirect call')
            ways.append((path, x, c, here))
        for path, x, c, here in ways:
            lits = dict(path)
            env2 = dict(env)
            for o in I.ops:
                if o.kind == 'local':
                    env2[o.val] = self.given(self.operand(env, o), lits)
            st2 = {b: o for b, o in st.items()}
            J = copy.copy(I)
            J.x = dict(I.x)
            J.x['callee'] = irparse.Op('global', x.b[1:])
            k = self.noret
            r = self.call(F, J, env2, st2, here)
            if self.returning is not None:
                here, self.returning = self.returning, None
                noret = True
            rr = self.b_or(rr, here)
            out.append((c, st2))
            if r is not None:
                v = r if v is None else self.ite(c, r, v)
        if not out:
            return self.opq('call in a way that cannot be taken')
        if noret:
            self.returning = rr
        new = self.mmerge(list(reversed(out)))
        st.clear()
        st.update(new)
        return v

    def havoc_call(self, I, env, st, why):
        # objects reachable from the arguments
        seen = set()
        work = []
        for o in I.ops:
            v = self.operand(env, o)
            work.append(v)
        while work:
            v = work.pop()
            for _, x in self.leaves_of(v):
                if isinstance(x, Ptr) and x.b not in seen and not (x.b.startswith('@') and self.isconst(x.b[1:])):
                    seen.add(x.b)
                    for o, (s, c) in st.get(x.b, {}).items():
                        work.append(c)
        for b in seen:
            self.havocked.add(b)
            if b in st:
                st[b] = {o: (s, self.opq(why)) for o, (s, _) in st[b].items()}
        return self.opq(why)

    def isconst(self, g):
        raw = self.mod.globals.get(g, '')
        return ' constant ' in ' ' + raw[:120]

    def builtin(self, n, F, I, env, st, reach):
        A = lambda k: self.operand(env, I.ops[k])
        if n.startswith('llvm.'):
            p = n.split('.')
            f = p[1]
            if f in ('trap', 'ubsantrap') and self.memc is not None:
                self.memc.trap(F, I, reach)
                return None
            if f in ('dbg', 'lifetime', 'assume', 'experimental', 'invariant', 'prefetch', 'stacksave', 'stackrestore', 'trap', 'ubsantrap'):
                return None
            if f in ('fabs', 'sqrt', 'sin', 'cos', 'exp', 'log', 'floor', 'ceil', 'rint', 'trunc', 'round'):
                return self.fun1(f, A(0))
            if f == 'pow':
                return self.fun2('pow', A(0), A(1))
            if f == 'powi':
                return self.fun2('pow', A(0), A(1))
            if f in ('maxnum', 'minnum', 'maximum', 'minimum'):
                return self.fun2('fmax' if f.startswith('max') else 'fmin', A(0), A(1))
            if f == 'copysign':
                return self.fun2('copysign', A(0), A(1))
            if f in ('smax', 'smin', 'umax', 'umin'):
                a, b = A(0), A(1)
                g = self.cmp('gt', a, b)
                return self.ite(g, a if f.endswith('max') else b, b if f.endswith('max') else a)
            if f == 'abs':
                return self.fun1('fabs', A(0))
            if f == 'fmuladd' or f == 'fma':
                return self.arith('+', self.arith('*', A(0), A(1)), A(2))
            if f in ('memcpy', 'memmove'):
                self.memaccess(F, I, env, st, reach, True)
                return self.memcpy(st, A(0), A(1), A(2))
            if f == 'memset':
                self.memaccess(F, I, env, st, reach, False)
                return self.memset(st, A(0), A(1), A(2))
            if f in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and p[2] == 'with':
                o = {'mul': '*', 'add': '+', 'sub': '-'}[f[1:]]
                return self.leaf(Agg([self.arith(o, A(0), A(1)), self.F]))
            if f == 'expect':
                return A(0)
            if f in ('is', 'objectsize'):
                return self.opq(n)
            return NotImplemented
        if n in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'fabs', 'floor', 'ceil', 'round', 'trunc'):
            return self.fun1(n, A(0))
        if n in ('pow', 'atan2', 'fmod', 'hypot', 'fmax', 'fmin'):
            return self.fun2(n, A(0), A(1))
        if n in ('memcpy', 'memmove'):
            self.memaccess(F, I, env, st, reach, True)
            self.memcpy(st, A(0), A(1), A(2))
            return A(0)
        if n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t'):
            b = 'new#%d' % self.fresh()
            st[b] = {}
            if self.memc is not None:
                self.memc.alloc(b, A(0), memcheck.MAKERS[n], F, I, st, reach)
            return self.leaf(Ptr(b, 0))
        if n == 'calloc':
            b = 'new#%d' % self.fresh()
            st[b] = {}
            p = self.leaf(Ptr(b, 0))
            if self.memc is not None:
                self.memc.alloc(b, self.arith('*', A(0), A(1)), 'malloc', F, I, st, reach)
            self.memset(st, p, self.num(0), self.arith('*', A(0), A(1)))
            return p
        if n in ('_ZNSt9exceptionD2Ev', '__cxa_end_catch', '__cxa_guard_release', '__cxa_atexit'):
            return None
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t'):
            p = self.single(A(0))
            if self.memc is not None:
                self.memc.release(A(0), memcheck.RELEASERS[n], F, I, st, reach)
            if isinstance(p, Ptr) and p.b.startswith('new#') and p.b in st:
                st[p.b] = {}           # nothing is known about it any more
            return None
        if n == 'realloc':
            p = self.single(A(0))
            b = 'new#%d' % self.fresh()
            if self.memc is not None:
                self.memc.release(A(0), 'malloc', F, I, st, reach)
                self.memc.alloc(b, A(1), 'malloc', F, I, st, reach)
            if isinstance(p, Ptr) and p.b.startswith('new#') and p.o == 0:
                st[b] = dict(st.get(p.b, {}))
                st[p.b] = {}
                return self.leaf(Ptr(b, 0))
            if isinstance(p, Rat) and p.iszero():
                st[b] = {}
                return self.leaf(Ptr(b, 0))
            return NotImplemented
        if n == '__cxa_allocate_exception':
            return self.leaf(Ptr('new#%d' % self.fresh(), 0))
        return NotImplemented

    def memaccess(self, F, I, env, st, reach, both):
        if self.memc is None or self.strcode(I):
            return
        k = self.memc.const(self.operand(env, I.ops[2]))
        self.memc.access(F, I, st, self.operand(env, I.ops[0]), k, reach, 'write')
        if both:
            self.memc.access(F, I, st, self.operand(env, I.ops[1]), k, reach, 'read')

    def memcpy(self, st, d, s, n):
        ds = self.single(d)
        ss = self.single(s)
        nn = self.single(n)
        if not (isinstance(ds, Ptr) and isinstance(ss, Ptr) and isinstance(nn, Rat) and nn.const() is not None):
            if isinstance(ds, Ptr) and ds.b in st:
                st[ds.b] = {o: (s_, self.opq('memcpy')) for o, (s_, _) in st[ds.b].items()}
            elif not isinstance(ds, Ptr):
                for bb in self.bases(st):
                    st[bb] = {o: (s_, self.opq('memcpy')) for o, (s_, _) in st[bb].items()}
            return None
        k = int(nn.const())
        src = dict(st.get(ss.b, {}))
        cells = []
        pos = ss.o
        end = ss.o + k
        while pos < end:
            c = src.get(pos)
            if c is not None and pos + c[0] <= end:
                cells.append((pos - ss.o, c[0], c[1]))
                pos += c[0]
                continue
            nxt = min([o for o in src if o > pos] + [end])
            # a zero fill cell straddling?
            strad = [(o, v) for o, v in src.items() if o < pos < o + v[0] or (o == pos and o + v[0] > end)]
            if strad:
                o, (s_, v) = strad[0]
                e = min(o + s_, end)
                if isinstance(v, Leaf) and isinstance(v.v, Rat) and v.v.iszero():
                    cells.append((pos - ss.o, e - pos, v))
                else:
                    cells.append((pos - ss.o, e - pos, self.opq('partial copy')))
                pos = e
                continue
            step = 8 if pos % 8 == 0 and nxt - pos >= 8 else (4 if pos % 4 == 0 and nxt - pos >= 4 else 1)
            if not ss.b.startswith('%') and not ss.b.startswith('new'):
                v = self.fresh_load(st, ss.b, pos, 'double' if step == 8 else 'i%d' % (8 * step))
                cells.append((pos - ss.o, step, v))
            pos += step
        # clear destination range then write
        obj = dict(st.get(ds.b, {}))
        st[ds.b] = obj
        for o in list(obj):
            if o >= ds.o and o + obj[o][0] <= ds.o + k:
                del obj[o]
        for o, s_, v in cells:
            self.mstore(st, ds.b, ds.o + o, s_, v)
        return None

    def memset(self, st, d, c, n):
        ds, cc, nn = self.single(d), self.single(c), self.single(n)
        if isinstance(ds, Ptr) and isinstance(nn, Rat) and nn.const() is not None:
            k = int(nn.const())
            if k == 0:
                return None
            if isinstance(cc, Rat) and cc.iszero():
                obj = dict(st.get(ds.b, {}))
                st[ds.b] = obj
                for o in list(obj):
                    if o >= ds.o and o + obj[o][0] <= ds.o + k:
                        del obj[o]
                pos = ds.o
                end = ds.o + k
                while pos < end:
                    s_ = 8 if end - pos >= 8 else 1
                    self.mstore(st, ds.b, pos, s_, self.num(0))
                    pos += s_
                return None
            if ds.b in st:
                st[ds.b] = {o: (s_, self.opq('memset')) for o, (s_, _) in st[ds.b].items()}
            return None
        if isinstance(ds, Ptr):
            if ds.b in st:
                st[ds.b] = {o: (s_, self.opq('memset')) for o, (s_, _) in st[ds.b].items()}
            return None
        for bb in self.bases(st):
            st[bb] = {o: (s_, self.opq('memset')) for o, (s_, _) in st[bb].items()}
        return None

    def single(self, g):
        if isinstance(g, Leaf):
            return g.v
        lv = [x for _, x in self.leaves_of(g)]
        ids = set(self.leaf(x).id for x in lv)
        if len(ids) == 1:
            return lv[0]
        return None


EPSNAME = '_ZN3KDL7epsilonE'
PURE = set(['strlen', 'memcmp', 'strcmp', 'bcmp'])
STR = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
STRK = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
STRFILES = ('basic_string.h', 'basic_string.tcc', 'char_traits.h', 'new_allocator.h', 'allocator.h', 'alloc_traits.h')
