"""Memory rules on top of the value numbering: every access stays inside a
live object, every object is released once, the way it was made, and nothing
is left over.  The engine reports accesses, allocations and releases with the
condition under which they happen; facts that cannot hold are proved so."""
import re
from fractions import Fraction
from alg import Rat, Undecided
import irparse, refute

LIVE = '%live'
MAKERS = {'_Znwm': 'new', '_Znam': 'new[]', 'malloc': 'malloc', '_ZnwmSt11align_val_t': 'aligned new', 'calloc': 'malloc', 'realloc': 'malloc'}
RELEASERS = {'_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', 'free': 'malloc', '_ZdlPvSt11align_val_t': 'aligned new'}


class Event(object):
    def __init__(self, what, F, I, cond, detail):
        self.what, self.F, self.I, self.cond, self.detail = what, F, I, cond, detail


class Mem(object):
    def __init__(self, E, gvn):
        self.E, self.gvn = E, gvn
        self.size = {}           # object -> bytes (int), or absent
        self.made = {}           # object -> (how, F, I)
        self.num = {}            # object -> cell of LIVE
        self.events = {}
        self.accesses = self.unknown = self.allocs = self.frees = 0

    def event(self, what, F, I, cond, detail):
        E = self.E
        cond = E.b_and(cond, E.assume)
        if cond is E.F:
            return
        k = (what, F.name, id(I))
        if k in self.events:
            ev = self.events[k]
            ev.cond = E.b_or(ev.cond, cond)
        else:
            self.events[k] = Event(what, F, I, cond, detail)

    def const(self, g):
        v = self.E.single(g)
        if isinstance(v, Rat) and v.const() is not None and Fraction(v.const()).denominator == 1:
            return int(v.const())
        return None

    def way(self, path):
        E = self.E
        c = E.T
        for k, b in reversed(path):
            c = E.node(k, c, E.F) if b else E.node(k, E.F, c)
        return c

    def leaves(self, p):
        if isinstance(p, self.gvn.Leaf):
            return [((), p.v)]
        return list(self.E.leaves_of(p))

    def access(self, F, I, st, p, size, reach, what):
        E, gvn = self.E, self.gvn
        self.accesses += 1
        if size is None:
            self.unknown += 1
            return
        if size <= 0:
            return
        for path, x in self.leaves(p):
            if isinstance(x, Rat) and x.iszero():
                self.event('null', F, I, E.b_and(reach, self.way(path)), 'a %s through a null pointer' % what)
                continue
            if not isinstance(x, gvn.Ptr) or not isinstance(x.o, int):
                self.unknown += 1
                continue
            n = self.size.get(x.b)
            if n is None and x.b.startswith('@'):
                n = self.size[x.b] = self.extent(x.b[1:])
            if n is None:
                if x.b not in self.num:
                    self.unknown += 1
                    continue
            elif x.o < 0 or x.o + size > n:
                self.event('bounds', F, I, E.b_and(reach, self.way(path)),
                           'a %s of %d bytes at byte %d of an object of %d bytes' % (what, size, x.o, n))
                continue
            k = self.num.get(x.b)
            if k is not None:
                c = st.get(LIVE, {}).get(k)
                l = c[1] if c is not None else E.T
                if l is not E.T:
                    self.event('released', F, I, E.b_and(E.b_and(reach, self.way(path)), E.b_not(E.boolv(l))),
                               'a %s of an object that was released before' % what)

    def stack(self, b, I, env):
        n = self.E.mod.sizeof(I.x['aty'])
        if I.ops:
            k = self.const(self.E.operand(env, I.ops[0]))
            if k is None:
                return
            n *= k
        self.size[b] = n

    def extent(self, name):
        """bytes of a global object; None if its type is not seen"""
        raw = self.E.mod.globals.get(self.E.mod.aliases.get(name, name))
        m = re.match(r'^(?:[a-z_]+(?:\([^)]*\))? )*(?:constant|global) (.*)$', raw or '')
        if not m:
            return None
        try:
            return self.E.mod.sizeof(irparse.Cur(m.group(1)).type())
        except Exception:
            return None

    def alloc(self, b, n, how, F, I, st, reach):
        self.allocs += 1
        k = self.num[b] = len(self.num)
        self.made[b] = (how, F, I)
        c = self.const(n)
        if c is not None:
            self.size[b] = c
        o = dict(st.get(LIVE, {}))
        o[k] = (1, self.E.T)
        st[LIVE] = o

    def release(self, p, how, F, I, st, reach):
        E, gvn = self.E, self.gvn
        self.frees += 1
        for path, x in self.leaves(p):
            if isinstance(x, Rat) and x.iszero():
                continue
            way = self.way(path)
            here = E.b_and(reach, way)
            if not isinstance(x, gvn.Ptr):
                self.unknown += 1
                continue
            k = self.num.get(x.b)
            if k is None:
                if x.b in self.size or x.b.startswith('@'):
                    self.event('foreign', F, I, here, 'the release of an object that was not allocated')
                else:
                    self.unknown += 1
                continue
            if x.o != 0:
                self.event('foreign', F, I, here, 'the release of an object from the middle of it')
                continue
            if self.made[x.b][0] != how:
                self.event('mismatch', F, I, here, 'an object made by %s is released as if by %s' % (self.made[x.b][0], how))
            o = dict(st.get(LIVE, {}))
            l = E.boolv(o[k][1]) if k in o else E.T
            if l is not E.T:
                self.event('twice', F, I, E.b_and(here, E.b_not(l)), 'an object is released a second time')
            o[k] = (1, E.b_and(l, E.b_not(way)))
            st[LIVE] = o

    def trap(self, F, I, reach):
        self.accesses += 1
        self.event('trap', F, I, reach, 'an index outside of an array of fixed size, a division of whole numbers by zero, or a function that ends without its result')

    def finish(self, st, reach):
        """objects still live at the end that no global variable leads to"""
        E, gvn = self.E, self.gvn
        seen = set()
        work = [b for b in st if b.startswith('@')]
        while work:
            b = work.pop()
            for o, (s, v) in st.get(b, {}).items():
                for _, x in E.leaves_of(v):
                    if isinstance(x, gvn.Ptr) and x.b not in seen:
                        seen.add(x.b)
                        work.append(x.b)
        live = st.get(LIVE, {})
        for b, k in self.num.items():
            if b in seen or k not in live:
                continue
            l = E.b_and(reach, E.boolv(live[k][1]))
            if l is not E.F:
                how, F, I = self.made[b]
                self.event('leak', F, I, l, 'an object made here is never released')

    def decide(self):
        """-> [(event, 'bad' | 'undecided', condition)]"""
        E = self.E
        out = []
        for ev in self.events.values():
            g = E.prune(ev.cond) if E.size(ev.cond, 3000) < 3000 else ev.cond
            if g is E.F:
                continue
            und = bad = None
            try:
                for path, v in E.leaves_of(g):
                    if v is not True:
                        continue
                    if any(E.conds[i].kind == 'o' for i, _ in path):
                        und = und or 'opaque predicate: ' + ' & '.join(E.condstr(i, b) for i, b in path)[:200]
                        continue
                    if refute.empty(E, path):
                        continue
                    bad = ' & '.join(E.condstr(i, b) for i, b in path) or 'always'
                    break
            except Undecided as e:
                und = str(e)
            if bad:
                out.append((ev, 'bad', bad))
            elif und:
                out.append((ev, 'undecided', und))
        return out
