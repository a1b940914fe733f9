"""Algebraic value domain for the value-numbering analysis.

Values are rational functions over *atoms*, kept in a normal form:

  * a polynomial is a dict {monomial: coefficient}; a monomial packs 10 bits of
    exponent per atom into one int, so a product of monomials is an addition;
  * some atoms carry a relation  a^2 = P  (quaternion scalar part, square roots,
    cosines).  P only mentions older atoms, the leading terms are coprime, so
    the relations are a Groebner basis and reduction gives a canonical form:
    an identity modulo the relations holds iff the reduced numerator is empty;
  * a rational function is (numerator, {denominator factor: power}).

No floating point and no evaluation at points is involved.
"""
from fractions import Fraction
import math

BITS = 10
FMASK = (1 << BITS) - 1
MAXTERMS = 400000


class Undecided(Exception):
    """the domain cannot express / afford this value"""


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly(object):
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def iszero(self):
        return not self.t

    def const(self):
        """constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and 0 in self.t:
            return self.t[0]
        return None


class Atom(object):
    __slots__ = ('i', 'name', 'sq', 'deriv', 'kind', 'arg', 'lo', 'hi', 'dname', 'x')

    def __init__(self, i, name):
        self.i = i
        self.name = name
        self.sq = None       # Poly: atom^2 == sq
        self.deriv = None    # callable -> Rat or None (=0)
        self.kind = 'in'
        self.arg = None
        self.lo = None
        self.hi = None
        self.x = None


class Ring(object):
    def __init__(self):
        self.atoms = []
        self.byname = {}
        self.fn_atoms = {}      # kind -> list of (arg key, arg, atom)
        self.m2 = 0             # mask of bits >=1 of exponents of algebraic atoms
        self.sqcache = {}
        self.ZERO = Poly({})
        self.ONE = Poly({0: 1})
        self.R0 = Rat(self, self.ZERO, {})
        self.R1 = Rat(self, self.ONE, {})
        self.angle = {}
        self.facs = {}

    # ---- atoms -----------------------------------------------------------
    def atom(self, name, **kw):
        a = self.byname.get(name)
        if a is None:
            a = Atom(len(self.atoms), name)
            self.atoms.append(a)
            self.byname[name] = a
            for k, v in kw.items():
                setattr(a, k, v)
        return a

    def rat_of(self, a):
        return Rat(self, Poly({1 << (BITS * a.i): 1}), {})

    def relate(self, a, poly):
        a.sq = poly
        self.m2 |= (FMASK & ~1) << (BITS * a.i)

    def const(self, c):
        if type(c) is float:
            c = fconst(self, c)
            if isinstance(c, Rat):
                return c
        c = _norm(c)
        if c == 0:
            return self.R0
        return Rat(self, Poly({0: c}), {})

    # ---- polynomials -----------------------------------------------------
    def padd(self, a, b, k=1):
        if not b.t:
            return a
        if not a.t and k == 1:
            return b
        if len(a.t) < len(b.t) and k == 1:
            a, b = b, a
        t = dict(a.t)
        for m, c in b.t.items():
            v = t.get(m, 0) + (c if k == 1 else c * k)
            if v == 0:
                del t[m]
            else:
                t[m] = v
        return Poly(t)

    def pscale(self, a, k):
        if k == 0:
            return self.ZERO
        if k == 1:
            return a
        return Poly({m: _norm(c * k) for m, c in a.t.items()})

    def pmul(self, a, b):
        if not a.t or not b.t:
            return self.ZERO
        if len(a.t) > len(b.t):
            a, b = b, a
        if len(a.t) == 1:
            (ma, ca), = a.t.items()
            if ma == 0:
                return self.pscale(b, ca)
        t = {}
        if len(a.t) * len(b.t) > 4000000:
            raise Undecided('polynomial product too large')
        g = t.get
        for ma, ca in a.t.items():
            for mb, cb in b.t.items():
                m = ma + mb
                t[m] = g(m, 0) + ca * cb
        return self.reduce(t)

    def reduce(self, t):
        m2 = self.m2
        bad = [m for m in t if m & m2]
        if bad:
            out = {}
            for m, c in t.items():
                if not (m & m2):
                    out[m] = c
            for m in bad:
                c = t[m]
                if c == 0:
                    continue
                r = self.redmono(m)
                for mm, cc in r.t.items():
                    out[mm] = out.get(mm, 0) + c * cc
            t = out
        if len(t) > MAXTERMS:
            raise Undecided('polynomial too large (%d terms)' % len(t))
        return Poly({m: _norm(c) for m, c in t.items() if c != 0})

    def redmono(self, m):
        r = self.sqcache.get(m)
        if r is not None:
            return r
        x = m & self.m2
        # youngest algebraic atom with exponent >= 2
        i = (x.bit_length() - 1) // BITS
        e = (m >> (BITS * i)) & FMASK
        rest = m - (e << (BITS * i)) + ((e & 1) << (BITS * i))
        sq = self.atoms[i].sq
        p = sq
        for _ in range(e // 2 - 1):
            p = self.pmul(p, sq)
        t = {}
        for mm, cc in p.t.items():
            k = mm + rest
            t[k] = t.get(k, 0) + cc
        r = self.reduce(t)
        self.sqcache[m] = r
        return r

    def ppow(self, a, n):
        r = self.ONE
        for _ in range(n):
            r = self.pmul(r, a)
        return r

    def lead(self, p):
        return max(p.t)

    def expo(self, m):
        out = []
        i = 0
        while m:
            e = m & FMASK
            if e:
                out.append((i, e))
            m >>= BITS
            i += 1
        return out

    def pstr(self, p, limit=12):
        if not p.t:
            return '0'
        parts = []
        for k, m in enumerate(sorted(p.t, reverse=True)):
            if k >= limit:
                parts.append('... (%d terms)' % len(p.t))
                break
            c = p.t[m]
            s = '*'.join(self.atoms[i].name + ('^%d' % e if e > 1 else '') for i, e in self.expo(m))
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            parts.append(s)
        return ' + '.join(parts).replace('+ -', '- ')

    # ---- derivative ------------------------------------------------------
    def datom(self, a):
        if a.deriv is None:
            return self.R0
        d = a.deriv
        return d() if callable(d) else d

    def pderiv(self, p):
        """time derivative of a polynomial -> Rat"""
        byatom = {}
        for m, c in p.t.items():
            for i, e in self.expo(m):
                if self.atoms[i].deriv is None:
                    continue
                mm = m - (1 << (BITS * i))
                d = byatom.setdefault(i, {})
                d[mm] = d.get(mm, 0) + c * e
        r = self.R0
        for i, t in byatom.items():
            da = self.datom(self.atoms[i])
            if da.iszero():
                continue
            r = r + Rat(self, self.reduce(t), {}) * da
        return r

    # ---- functions -------------------------------------------------------
    def fn(self, kind, args):
        """uninterpreted-function atom, congruent on equal arguments"""
        lst = self.fn_atoms.setdefault((kind, len(args)), [])
        for old, a in lst:
            if all((x - y).iszero() for x, y in zip(old, args)):
                return a
        a = self.atom('%s(%s)' % (kind, ', '.join(x.short() for x in args)) + ('#%d' % len(self.atoms)))
        a.kind = kind
        a.arg = args
        lst.append((args, a))
        return a

    def sqrt(self, x):
        c = x.const()
        if c is not None:
            if c < 0:
                raise Undecided('sqrt of negative')
            f = Fraction(c)
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return self.const(Fraction(n, d))
        # pull out perfect-square denominators / sqrt(N)/sqrt(D) not applied:
        # sqrt(N/D) = sqrt(N*D)/D with every D factor sign-unknown -> only even powers
        den = {}
        N = x.n
        for f, e in x.d.items():
            if e % 2 == 0 and self.fpos(f):
                den[f] = e // 2
            else:
                den = None
                break
        if den is None:
            if not x.d:
                raise Undecided('sqrt')
            # sqrt(N/D) = sqrt(N*D)/D   for D>0 (even powers or positive factors)
            if not all(self.fpos(f) for f in x.d):
                a = self.fn('sqrtq', [x])
                if a.lo is None:
                    a.lo = 0
                    a.deriv = (lambda a=a, x=x: x.ddt() / (self.rat_of(a) * self.const(2)))
                return self.rat_of(a)
            D = self.ONE
            for f, e in x.d.items():
                D = self.pmul(D, self.ppow(self.fac(f), e))
            return self.sqrt(Rat(self, self.pmul(N, D), {})) / Rat(self, D, {})
        # monomial content with even exponents of nonnegative atoms
        if len(N.t) == 1:
            (m, c), = N.t.items()
            if c > 0:
                f = Fraction(c)
                n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                ok = n * n == f.numerator and d * d == f.denominator
                half = 0
                for i, e in self.expo(m):
                    if e % 2 or not (self.atoms[i].lo is not None and self.atoms[i].lo >= 0):
                        ok = False
                        break
                    half += (e // 2) << (BITS * i)
                if ok:
                    return Rat(self, Poly({half: _norm(Fraction(n, d))}), den)
        # even monomial content of nonnegative atoms, square numeric content
        else:
            com = None
            for m in N.t:
                ex = {i: e for i, e in self.expo(m) if self.atoms[i].lo is not None and self.atoms[i].lo >= 0}
                com = ex if com is None else {i: min(e, ex[i]) for i, e in com.items() if i in ex}
                if not com:
                    break
            num = den_ = 0
            fr = [Fraction(c) for c in N.t.values()]
            num = math.gcd(*[abs(f.numerator) for f in fr])
            den_ = math.lcm(*[f.denominator for f in fr])
            qn = max([k for k in range(1, 13) if num % (k * k) == 0]) if num else 1
            qd = math.isqrt(den_)
            if qd * qd != den_:
                qd = 1
            half = full = 0
            for i, e in (com or {}).items():
                half += (e // 2) << (BITS * i)
                full += (e // 2 * 2) << (BITS * i)
            if full or qn > 1 or qd > 1:
                k = Fraction(qn, qd)
                rest = Poly({m - full: _norm(Fraction(c) / (k * k)) for m, c in N.t.items()})
                return self.sqrt(Rat(self, rest, {})) * Rat(self, Poly({half: _norm(k)}), den)
        base = Rat(self, N, {})
        a = self.fn('sqrt', [base])
        if a.sq is None:
            a.lo = 0
            self.relate(a, N)
            a.deriv = (lambda a=a, b=base: b.ddt() / (self.rat_of(a) * self.const(2)))
        return Rat(self, self.rat_of(a).n, den)

    def sincos(self, x):
        """(sin, cos) of a Rat; angle sums and integer multiples of half the
        base angles are expanded"""
        if x.iszero():
            return self.R0, self.R1
        s, c = self.R0, self.R1
        for base, k in self.angle_terms(x):
            bs, bc = self._angle_atom(base)
            ks, kc = self._multi(bs, bc, abs(k))
            if k < 0:
                ks = -ks
            s, c = s * kc + c * ks, c * kc - s * ks
        return s, c

    def angle_terms(self, x):
        out = []
        if x.d:
            # find existing base equal up to a half-integer multiple
            for b in list(self.angle.values()):
                if b[0].d:
                    q = x / b[0]
                    cc = q.const_by_cancel()
                    if cc is not None and Fraction(cc).denominator == 1:
                        return [(b[0], int(cc))]
            return [(x * self.const(Fraction(1, 2)), 2)]
        for m, c in x.n.t.items():
            k = Fraction(c) * 2
            if k.denominator == 1:
                out.append((Rat(self, Poly({m: Fraction(1, 2)}), {}), int(k)))
            else:
                out.append((Rat(self, Poly({m: _norm(Fraction(1, k.denominator) / 2)}), {}), int(k.numerator)))
        return out

    def _angle_atom(self, base):
        k = (base.n.key(), frozenset(base.d.items()))
        r = self.angle.get(k)
        if r is None:
            if not base.d and len(base.n.t) == 1 and self.byname.get('pi') is not None:
                (m, c), = base.n.t.items()
                if m == 1 << (BITS * self.byname['pi'].i):
                    q = Fraction(c) * 2          # base = q * pi/2
                    if q.denominator == 1:
                        t = [(0, 1), (1, 0), (0, -1), (-1, 0)][int(q) % 4]
                        r = (base, self.const(t[0]), self.const(t[1]))
                    elif q == Fraction(1, 2):
                        h = self.sqrt(self.const(Fraction(1, 2)))
                        r = (base, h, h)
            if r is None:
                nm = base.short()
                s = self.atom('sin(%s)#%d' % (nm, len(self.atoms)))
                s.lo, s.hi = -1, 1
                c = self.atom('cos(%s)#%d' % (nm, len(self.atoms)))
                c.lo, c.hi = -1, 1
                sr, cr = self.rat_of(s), self.rat_of(c)
                self.relate(c, self.padd(self.ONE, self.pmul(sr.n, sr.n), -1))
                s.deriv = lambda: cr * base.ddt()
                c.deriv = lambda: -(sr * base.ddt())
                r = (base, sr, cr)
            self.angle[k] = r
        return r[1], r[2]

    def _multi(self, s, c, k):
        rs, rc = self.R0, self.R1
        for _ in range(k):
            rs, rc = rs * c + rc * s, rc * c - rs * s
        return rs, rc

    # ---- denominator factors --------------------------------------------
    def facid(self, p):
        k = p.key()
        r = self.facs.get(k)
        if r is None:
            r = self.facs[k] = k
            self.facs[('p', k)] = p
        return k

    def fac(self, f):
        return self.facs[('p', f)]

    def fpos(self, f):
        """is the factor known to be positive (given it is nonzero)?"""
        return self.interval(self.fac(f))[0] is not None and self.interval(self.fac(f))[0] >= 0

    # ---- intervals -------------------------------------------------------
    def interval(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            l = h = 1
            for i, e in self.expo(m):
                a = self.atoms[i]
                al, ah = a.lo, a.hi
                if e % 2 == 0:
                    if al is not None and ah is not None:
                        mx = max(abs(al), abs(ah)) ** e
                    else:
                        mx = None
                    mn = 0
                    if al is not None and al > 0:
                        mn = al ** e
                    al, ah = mn, mx
                elif e > 1:
                    al = None if al is None else al ** e
                    ah = None if ah is None else ah ** e
                l, h = imul((l, h), (al, ah))
            if c < 0:
                l, h = (None if h is None else h * c), (None if l is None else l * c)
            else:
                l, h = (None if l is None else l * c), (None if h is None else h * c)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return lo, hi


def imul(a, b):
    INF = float('inf')
    al = -INF if a[0] is None else a[0]
    ah = INF if a[1] is None else a[1]
    bl = -INF if b[0] is None else b[0]
    bh = INF if b[1] is None else b[1]

    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y
    ps = [m(al, bl), m(al, bh), m(ah, bl), m(ah, bh)]
    l, h = min(ps), max(ps)
    return (None if l == -INF else l), (None if h == INF else h)


PI_RATIOS = {}
for _d in (1, 2, 3, 4, 6, 8, 12, 180, 360):
    for _n in range(1, 4 * _d + 1):
        PI_RATIOS.setdefault(math.pi * _n / _d, Fraction(_n, _d))
for _n in (1, 2, 4, 8, 12, 360, 180):
    PI_RATIOS.setdefault(_n / math.pi, ('inv', Fraction(_n)))


def fconst(R, c):
    if c != c or c in (float('inf'), float('-inf')):
        raise Undecided('nan/inf constant')
    r = PI_RATIOS.get(abs(c))
    if r is not None and abs(c) > 1e-3:
        pi = R.atom('pi')
        pi.lo, pi.hi = Fraction(314, 100), Fraction(315, 100)
        v = R.rat_of(pi)
        if isinstance(r, tuple):
            v = R.const(r[1]) / v
        else:
            v = v * R.const(r)
        return v if c > 0 else -v
    f = Fraction(c)
    if f.denominator > (1 << 20):
        g = Fraction(repr(c))
        if float(g) == c:
            f = g
    return _norm(f)


class Rat(object):
    __slots__ = ('R', 'n', 'd', '_k')

    def __init__(self, R, n, d):
        self.R = R
        self.n = n
        self.d = d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.n.key(), frozenset(self.d.items()))
        return self._k

    def iszero(self):
        return not self.n.t

    def const(self):
        if not self.n.t:
            return 0
        if self.d:
            return None
        return self.n.const()

    def const_by_cancel(self):
        """constant value of N/D when N == k*D, else None"""
        c = self.const()
        if c is not None:
            return c
        D = self.R.ONE
        for f, e in self.d.items():
            D = self.R.pmul(D, self.R.ppow(self.R.fac(f), e))
        if not D.t or len(D.t) != len(self.n.t):
            return None
        m = max(D.t)
        if m not in self.n.t:
            return None
        k = Fraction(self.n.t[m]) / D.t[m]
        if self.R.padd(self.n, self.R.pscale(D, k), -1).iszero():
            return _norm(k)
        return None

    def short(self):
        s = self.R.pstr(self.n, 4)
        if self.d:
            s = '(%s)/(%s)' % (s, '*'.join(self.R.pstr(self.R.fac(f), 3) + ('^%d' % e if e > 1 else '')
                                             for f, e in self.d.items()))
        return s

    def __neg__(self):
        return Rat(self.R, self.R.pscale(self.n, -1), self.d)

    def __add__(self, o):
        return self._add(o, 1)

    def __sub__(self, o):
        return self._add(o, -1)

    def _add(self, o, k):
        R = self.R
        if not o.n.t:
            return self
        if not self.n.t:
            return o if k == 1 else -o
        if self.d == o.d:
            return mk(R, R.padd(self.n, o.n, k), self.d)
        L = dict(self.d)
        for f, e in o.d.items():
            if L.get(f, 0) < e:
                L[f] = e
        a, b = self.n, o.n
        for f, e in L.items():
            x = e - self.d.get(f, 0)
            if x:
                a = R.pmul(a, R.ppow(R.fac(f), x))
            x = e - o.d.get(f, 0)
            if x:
                b = R.pmul(b, R.ppow(R.fac(f), x))
        return mk(R, R.padd(a, b, k), L)

    def __mul__(self, o):
        R = self.R
        if not self.n.t or not o.n.t:
            return R.R0
        a, b = self, o
        if a.d or b.d:
            an, bd = cancel(R, a.n, b.d)
            bn, ad = cancel(R, b.n, a.d)
            d = dict(ad)
            for f, e in bd.items():
                d[f] = d.get(f, 0) + e
            return mk(R, R.pmul(an, bn), d)
        return Rat(R, R.pmul(a.n, b.n), {})

    def inv(self):
        R = self.R
        n = self.n
        if not n.t:
            raise Undecided('division by zero')
        c = n.const()
        num = R.ONE
        for f, e in self.d.items():
            num = R.pmul(num, R.ppow(R.fac(f), e))
        if c is not None:
            return Rat(R, R.pscale(num, Fraction(1) / c), {})
        d = {}
        if len(n.t) == 1:
            (m, c), = n.t.items()
            num = R.pscale(num, Fraction(1) / c)
            for i, e in R.expo(m):
                d[R.facid(Poly({1 << (BITS * i): 1}))] = e
        else:
            # common monomial content
            com = None
            for m in n.t:
                ex = dict(R.expo(m))
                com = ex if com is None else {i: min(e, ex[i]) for i, e in com.items() if i in ex}
                if not com:
                    break
            if com:
                mm = sum(e << (BITS * i) for i, e in com.items())
                n = Poly({m - mm: c for m, c in n.t.items()})
                for i, e in com.items():
                    d[R.facid(Poly({1 << (BITS * i): 1}))] = e
            lc = n.t[max(n.t)]
            num = R.pscale(num, Fraction(1) / lc)
            n = R.pscale(n, Fraction(1) / lc)
            d[R.facid(n)] = 1
        return mk(R, num, d)

    def __truediv__(self, o):
        return self * o.inv()

    def ddt(self):
        R = self.R
        dn = R.pderiv(self.n)
        if not self.d:
            return dn
        r = dn * Rat(R, R.ONE, dict(self.d))
        for f, e in self.d.items():
            df = R.pderiv(R.fac(f))
            if df.iszero():
                continue
            dd = dict(self.d)
            dd[f] = dd[f] + 1
            r = r - Rat(R, R.pscale(self.n, e), dd) * df
        return r

    def subst(self, sub):
        """replace atoms (dict atom index -> Rat)"""
        R = self.R
        v = psubst(R, self.n, sub)
        for f, e in self.d.items():
            g = psubst(R, R.fac(f), sub)
            for _ in range(e):
                v = v / g
        return v

    def interval(self):
        lo, hi = self.R.interval(self.n)
        if not self.d:
            return lo, hi
        sgn = 1
        for f, e in self.d.items():
            if e % 2 == 0:
                continue
            l, h = self.R.interval(self.R.fac(f))
            if l is not None and l >= 0:
                continue
            if h is not None and h <= 0:
                sgn = -sgn
                continue
            return None, None
        if sgn < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        # only signs survive a division by an unknown positive quantity
        return (0 if lo is not None and lo >= 0 else None), (0 if hi is not None and hi <= 0 else None)


def psubst(R, p, sub):
    r = R.R0
    for m, c in p.t.items():
        term = R.const(c)
        keep = 0
        for i, e in R.expo(m):
            if i in sub:
                for _ in range(e):
                    term = term * sub[i]
            else:
                keep += e << (BITS * i)
        if keep:
            term = term * Rat(R, Poly({keep: 1}), {})
        r = r + term
    return r


def cancel(R, n, d):
    """cheap cancellation of polynomial n against the factors d"""
    if not d or not n.t:
        return n, d
    out = None
    for f in list(d):
        e = d[f]
        p = R.fac(f)
        while e > 0:
            q = None
            if len(p.t) == 1:
                (m, c), = p.t.items()
                i = (m.bit_length() - 1) // BITS
                if all((mm >> (BITS * i)) & FMASK for mm in n.t):
                    q = Poly({mm - m: cc for mm, cc in n.t.items()})
                elif R.atoms[i].sq is not None:
                    pass
            if q is None and len(p.t) > 1 and len(p.t) == len(n.t):
                m = max(p.t)
                c = n.t.get(m)
                if c is not None:
                    k = Fraction(c) / p.t[m]
                    if all(n.t.get(mm) == cc * k for mm, cc in p.t.items()):
                        q = Poly({0: _norm(k)})
            if q is None and len(p.t) > 1 and len(n.t) >= len(p.t) and not any(R.atoms[i].sq is not None for m in p.t for i, _ in R.expo(m)):
                q = exact_div(R, n, p)
            if q is None:
                break
            n = q
            e -= 1
            if out is None:
                out = dict(d)
            out[f] = e
    if out is None:
        return n, d
    return n, {f: e for f, e in out.items() if e > 0}


def exact_sqrt(R, n):
    """q with q*q == n as polynomials, or None"""
    if not 2 < len(n.t) <= 60:
        return None
    def root(m, c):
        f = Fraction(c)
        if f <= 0 or any(e % 2 for _, e in R.expo(m)):
            return None
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a != f.numerator or b * b != f.denominator:
            return None
        return m // 2, Fraction(a, b)
    lm = max(n.t)
    l0 = root(lm, n.t[lm])
    if l0 is None or root(min(n.t), n.t[min(n.t)]) is None:
        return None
    le = R.expo(l0[0])
    q = {l0[0]: l0[1]}
    rem = {m: Fraction(c) for m, c in n.t.items() if m != lm}
    while rem:
        m = max(rem)
        for i, e in le:
            if (m >> (BITS * i)) & FMASK < e:
                return None
        qm, qc = m - l0[0], rem[m] / (2 * l0[1])
        if qm >= min(q) or len(q) > 12:
            return None
        for x, c in list(q.items()):
            v = rem.get(x + qm, 0) - 2 * c * qc
            if v == 0:
                rem.pop(x + qm, None)
            else:
                rem[x + qm] = v
        v = rem.get(2 * qm, 0) - qc * qc
        if v == 0:
            rem.pop(2 * qm, None)
        else:
            rem[2 * qm] = v
        q[qm] = qc
    return Poly({m: _norm(c) for m, c in q.items()})


def exact_div(R, n, p):
    """exact multivariate division (lex by packed int); p free of algebraic
    atoms so the quotient-ring division is an ordinary one"""
    if len(n.t) > 4000:
        return None
    lm = max(p.t)
    lc = p.t[lm]
    le = R.expo(lm)
    rem = dict(n.t)
    q = {}
    while rem:
        m = max(rem)
        for i, e in le:
            if (m >> (BITS * i)) & FMASK < e:
                return None
        k = _norm(Fraction(rem[m]) / lc)
        qm = m - lm
        q[qm] = k
        for mm, cc in p.t.items():
            x = mm + qm
            v = rem.get(x, 0) - k * cc
            if v == 0:
                del rem[x]
            else:
                rem[x] = v
        if len(q) > 2000:
            return None
    return Poly(q)


def mk(R, n, d):
    if not n.t:
        return R.R0
    if d:
        # s^2 in the denominator of an algebraic atom s  ->  its square
        for f in list(d):
            e = d[f]
            if e >= 2:
                p = R.fac(f)
                if len(p.t) == 1:
                    (m, c), = p.t.items()
                    i = (m.bit_length() - 1) // BITS
                    a = R.atoms[i]
                    if a.sq is not None and m == 1 << (BITS * i):
                        d = dict(d)
                        if e & 1:
                            d[f] = 1
                        else:
                            del d[f]
                        iv = Rat(R, a.sq, {}).inv()
                        r = Rat(R, n, d)
                        for _ in range(e // 2):
                            r = r * iv
                        return r
        n, d = cancel(R, n, d)
    return Rat(R, n, d)
