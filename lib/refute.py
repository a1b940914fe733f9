"""Emptiness of a region described by polynomial inequalities.

The abstract domain is: linear combinations of the facts, of products of two
facts, and of products of a fact with an atom of known sign.  A region is
empty when some nonnegative combination of them vanishes identically although
a strict one takes part.  Multipliers are found by linear programming and then
recomputed and checked in exact rational arithmetic, so an answer `empty` is
never wrong; `False` only means not shown.
"""
from fractions import Fraction
from alg import exact_div, Poly, Rat, BITS, Undecided


def facts_of(E, path):
    out = []
    for i, v in path:
        c = E.conds[i]
        if c.kind == 'o':
            continue
        p = c.rat.n
        if c.kind == 'gt':
            out.append((p, True) if v else (E.R.pscale(p, -1), False))
        elif c.kind == 'eq' and v:
            out.append((p, False))
            out.append((E.R.pscale(p, -1), False))
    return out


def reduce_signs(E, base):
    """atoms whose sign follows from one fact (x > something positive); the
    other facts are divided by them."""
    R = E.R
    signs = {}

    def sgn(i):
        if i in signs:
            return signs[i], True
        a = R.atoms[i]
        if a.lo is not None and a.lo >= 0:
            return 1, E.atompos(a)
        return 0, False

    def msign(m):
        """(sign, strict) of a monomial; sign 0: unknown"""
        g, st = 1, True
        for i, e in R.expo(m):
            s, z = sgn(i)
            if e % 2:
                if not s:
                    return 0, False
                g *= s
            st = st and z
        return g, st
    for _ in range(4):
        change = False
        for p, s in base:
            odd, rest = None, s
            for m, c in p.t.items():
                if m == 0:
                    g, z = 1, True
                else:
                    g, z = msign(m)
                g = g if c > 0 else -g
                if msign(m)[0] and g < 0:
                    rest = rest or z
                elif odd is None and not msign(m)[0]:
                    odd = (m, 1 if c > 0 else -1)
                else:
                    odd = None
                    break
            else:
                if odd and rest and len(p.t) > (0 if s else 1):
                    ex = [(i, e) for i, e in R.expo(odd[0]) if e % 2 and not sgn(i)[0]]
                    if len(ex) == 1:
                        g = odd[1]
                        for i, e in R.expo(odd[0]):
                            if e % 2 and i != ex[0][0]:
                                g *= sgn(i)[0]
                        signs[ex[0][0]] = g
                        change = True
        if not change:
            break
    if not signs:
        return base, signs
    out = []
    for p, s in base:
        com = None
        for m in p.t:
            ex = dict(R.expo(m))
            com = ex if com is None else {i: min(e, ex[i]) for i, e in com.items() if i in ex}
        mm, g = 0, 1
        for i, e in (com or {}).items():
            z = sgn(i)
            if z[1]:
                mm += e << (BITS * i)
                if e % 2:
                    g *= z[0]
        if mm and len(p.t) > 1:
            p = Poly({m - mm: c * g for m, c in p.t.items()})
        out.append((p, s))
    for i, g in signs.items():
        out.append((Poly({1 << (BITS * i): g}), True))
    return out, signs


def empty(E, path, extra=(), maxrows=900):
    R = E.R
    base = facts_of(E, path) + [(r.n, s) for r, s in extra]
    base, signs = reduce_signs(E, base)
    if not base:
        return False
    # facts that share no atom do not bear on each other
    groups = []
    for p, s in base:
        at = set(i for m in p.t for i, e in R.expo(m))
        for i in list(at):
            a = R.atoms[i]
            if a.kind == 'sqrt' and a.sq is not None:
                at |= set(j for m in a.sq.t for j, e in R.expo(m))
        fs = [(p, s)]
        rest = []
        for g, f in groups:
            if g & at:
                at |= g
                fs = f + fs
            else:
                rest.append((g, f))
        groups = rest + [(at, fs)]
    for at, fs in groups:
        k = frozenset((frozenset(p.t.items()), s) for p, s in fs)
        if k not in E.refuted:
            E.refuted[k] = empty1(E, fs, signs, maxrows)
        if E.refuted[k]:
            return True
    return False


def empty1(E, base, signs, maxrows):
    R = E.R
    signs = {i: g for i, g in signs.items() if any(e for p, s in base for m in p.t for j, e in R.expo(m) if j == i)}
    if len(base) > 16 + len(signs):
        return False
    atoms = set()
    for p, s in base:
        for m in p.t:
            for i, e in R.expo(m):
                atoms.add(i)
    if len(atoms) > 14:
        return False
    pos = []
    for i in sorted(atoms):
        a = R.atoms[i]
        b = Poly({1 << (BITS * i): 1})
        if i in signs:
            pos.append((b if signs[i] > 0 else R.pscale(b, -1), True))
        elif a.lo is not None and a.lo >= 0:
            pos.append((b, E.atompos(a)))
        elif a.hi is not None and a.hi <= 0:
            pos.append((R.pscale(b, -1), a.hi < 0))
        if a.hi is not None and a.hi > 0:
            pos.append((Poly({0: Fraction(a.hi), 1 << (BITS * i): -1}), False))
    rows = []
    seen = set()

    def add(p, s):
        if not p.t or len(p.t) > 60:
            return
        lc = abs(Fraction(p.t[max(p.t)]))
        k = (frozenset((m, Fraction(c) / lc) for m, c in p.t.items()), s)
        if k in seen:
            return
        seen.add(k)
        rows.append((p, s))
    for i in sorted(atoms):                # s = sqrt(Q), a >= 0:  Q <= a^2  ->  s <= a
        a = R.atoms[i]
        if a.kind != 'sqrt' or a.sq is None:
            continue
        for p, st in list(base):
            for m in p.t:
                ex = R.expo(m)
                if len(ex) != 1 or ex[0][1] != 2 or ex[0][0] == i:
                    continue
                b = R.atoms[ex[0][0]]
                if b.lo is None or b.lo < 0:
                    continue
                k = Fraction(p.t[m])
                rest = R.padd(p, Poly({m: -k}))
                if rest.t and R.padd(rest, a.sq, k).iszero():
                    sg = 1 if k > 0 else -1
                    base.append((Poly({1 << (BITS * b.i): sg, 1 << (BITS * i): -sg}), st))
    gens = base + pos
    try:
        for p, s in gens:
            add(p, s)
        for i, (p, s) in enumerate(gens):
            for q, t in gens[i:]:
                add(R.pmul(p, q), s and t)
                if len(rows) > maxrows:
                    break
        for p, s in base:                  # squares times atoms, atoms twice
            for i, (a, sa) in enumerate(pos):
                for b, sb in pos[i:]:
                    if len(rows) < maxrows and len(pos) <= 6:
                        add(R.pmul(p, R.pmul(a, b)), s and sa and sb)
    except Undecided:
        return False
    add(Poly({0: 1}), True)
    ms = set()
    for p, s in rows:
        ms |= set(p.t)
    for m in list(ms):                     # monomials of known sign
        if m and all(R.atoms[i].lo is not None and R.atoms[i].lo >= 0 or e % 2 == 0 for i, e in R.expo(m)):
            add(Poly({m: 1}), E.strictpos(m))
    return farkas(rows)


def zero_on(E, path, v):
    """does v vanish wherever the path holds?"""
    if len(v.n.t) > 40:
        return False
    R = E.R
    for p, s in facts_of(E, path):
        # p >= 0, but p > 0 is impossible: p == 0 here
        if not s and not any(R.atoms[i].sq is not None for m in p.t for i, _ in R.expo(m)):
            if exact_div(R, v.n, p) is not None and empty(E, path, [(Rat(R, p, {}), True)]):
                return True
    return empty(E, path, [(Rat(R, v.n, {}), True)]) and empty(E, path, [(Rat(R, R.pscale(v.n, -1), {}), True)])


def farkas(rows):
    import numpy as np
    from scipy.optimize import linprog
    from scipy.sparse import csr_matrix
    ms = {}
    for p, s in rows:
        for m in p.t:
            ms.setdefault(m, len(ms))
    r, c, v = [], [], []
    for j, (p, s) in enumerate(rows):
        sc = max(abs(float(x)) for x in p.t.values())
        for m, x in p.t.items():
            r.append(ms[m]); c.append(j); v.append(float(x) / sc)
        if s:
            r.append(len(ms)); c.append(j); v.append(1.0)
    A = csr_matrix((v, (r, c)), shape=(len(ms) + 1, len(rows)))
    b = np.zeros(len(ms) + 1)
    b[-1] = 1.0
    try:
        res = linprog(np.ones(len(rows)), A_eq=A, b_eq=b, bounds=(0, None), method='highs-ds', options={'time_limit': 20})
    except Exception:
        return False
    if res.status != 0:
        return False
    sup = [j for j in range(len(rows)) if res.x[j] > 1e-9]
    # exact multipliers on the support
    eqs = []
    for m in ms:
        row = [Fraction(rows[j][0].t.get(m, 0)) for j in sup]
        if any(row):
            eqs.append(row + [Fraction(0)])
    eqs.append([Fraction(1 if rows[j][1] else 0) for j in sup] + [Fraction(1)])
    n = len(sup)
    piv = []
    k = 0
    for col in range(n):
        pr = next((i for i in range(k, len(eqs)) if eqs[i][col]), None)
        if pr is None:
            continue
        eqs[k], eqs[pr] = eqs[pr], eqs[k]
        d = eqs[k][col]
        eqs[k] = [x / d for x in eqs[k]]
        for i in range(len(eqs)):
            if i != k and eqs[i][col]:
                f = eqs[i][col]
                eqs[i] = [x - f * y for x, y in zip(eqs[i], eqs[k])]
        piv.append(col)
        k += 1
    if any(not any(e[:n]) and e[n] for e in eqs):
        return False
    lam = [Fraction(0)] * n
    for i, col in enumerate(piv):
        lam[col] = eqs[i][n]
    return all(x >= 0 for x in lam)
