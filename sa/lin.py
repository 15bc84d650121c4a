"""Linear integer expressions, atoms and a goal-directed entailment check.

Lin = (const, ((atom, coef), ...)) with atoms sorted.  A fact is a Lin meaning  lin >= 0.
"""
from math import gcd

ZERO = (0, ())
ONE = (1, ())
U64 = (1 << 64) - 1
ISZ = (1 << 63) - 1


def const(c):
    return (c, ())


def atom_lin(a):
    return (0, ((a, 1),))


def add(x, y, k=1):
    """x + k*y"""
    if not y[1]:
        return (x[0] + k * y[0], x[1])
    if not x[1] and k == 1:
        return (x[0] + y[0], y[1])
    d = dict(x[1])
    for a, c in y[1]:
        n = d.get(a, 0) + k * c
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return (x[0] + k * y[0], tuple(sorted(d.items())))


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return ZERO
    return (x[0] * k, tuple((a, c * k) for a, c in x[1]))


def addc(x, c):
    return (x[0] + c, x[1])


def subst(x, m):
    """replace atoms by Lins"""
    hit = False
    for a, _ in x[1]:
        if a in m:
            hit = True
            break
    if not hit:
        return x
    r = (x[0], tuple((a, c) for a, c in x[1] if a not in m))
    for a, c in x[1]:
        if a in m:
            r = add(r, m[a], c)
    return r


class Atoms:
    def __init__(self):
        self.ids = {}
        self.names = []
        self.lo = []
        self.hi = []
        self.axioms = {}  # atom -> list of facts that always hold

    def get(self, name, lo, hi):
        i = self.ids.get(name)
        if i is None:
            i = len(self.names)
            self.ids[name] = i
            self.names.append(name)
            self.lo.append(lo)
            self.hi.append(hi)
        return i

    def axiom(self, f):
        for a, _ in f[1]:
            self.axioms.setdefault(a, [])
            if f not in self.axioms[a]:
                self.axioms[a].append(f)


class FactSet:
    """facts keyed by coefficient vector; persistent via copy"""
    __slots__ = ("f", "idx", "bad")

    def __init__(self, f=None):
        self.f = dict(f) if f else {}
        self.idx = None
        self.bad = False

    def copy(self):
        n = FactSet.__new__(FactSet)
        n.f = dict(self.f)
        n.idx = None
        n.bad = self.bad
        return n

    def add(self, x):
        c, co = x
        if not co:
            if c < 0:
                self.bad = True
            return
        g = 0
        for _, k in co:
            g = gcd(g, k)
        if g > 1:
            co = tuple((a, k // g) for a, k in co)
            c = c // g
        o = self.f.get(co)
        if o is None or c < o:
            self.f[co] = c
            if self.idx is not None:
                if o is None:
                    for a, k in co:
                        self.idx.setdefault((a, k > 0), []).append(co)

    def index(self):
        if self.idx is None:
            idx = {}
            for co in self.f:
                for a, k in co:
                    idx.setdefault((a, k > 0), []).append(co)
            self.idx = idx
        return self.idx

    def items(self):
        return [(c, co) for co, c in self.f.items()]

    def has(self, x):
        c, co = x
        if not co:
            return c >= 0
        o = self.f.get(co)
        return o is not None and o <= c


class Prover:
    def __init__(self, atoms):
        self.A = atoms
        self.queries = 0

    def lower(self, g, fs):
        """interval lower bound of g, or None"""
        t = g[0]
        lo, hi, f = self.A.lo, self.A.hi, fs.f
        for a, k in g[1]:
            if k > 0:
                b = lo[a]
                u = f.get(((a, 1),))
                if u is not None and (b is None or -u > b):
                    b = -u
            else:
                b = hi[a]
                u = f.get(((a, -1),))
                if u is not None and (b is None or u < b):
                    b = u
            if b is None:
                return None
            t += k * b
        return t

    def upper_atom(self, a, fs):
        b = self.A.hi[a]
        u = fs.f.get(((a, -1),))
        if u is not None and (b is None or u < b):
            b = u
        return b

    def lower_atom(self, a, fs):
        b = self.A.lo[a]
        u = fs.f.get(((a, 1),))
        if u is not None and (b is None or -u > b):
            b = -u
        return b

    def prove(self, g, fs, budget=400, depth=7):
        """fs |= g >= 0 ?"""
        self.queries += 1
        if fs.bad:
            return True
        if not g[1]:
            return g[0] >= 0
        seen = set()
        cnt = [budget]
        return self._p(g, fs, depth, seen, cnt)

    def _p(self, g, fs, depth, seen, cnt):
        b = self.lower(g, fs)
        if b is not None and b >= 0:
            return True
        if depth == 0 or g in seen:
            return False
        cnt[0] -= 1
        if cnt[0] < 0:
            return False
        seen.add(g)
        idx = fs.index()
        ax = self.A.axioms
        # direct fact hit
        o = fs.f.get(g[1])
        if o is not None and o <= g[0]:
            return True
        # order atoms: negative coefficients with the weakest bound first
        order = sorted(g[1], key=lambda ac: self._badness(ac, fs), reverse=True)
        for a, k in order[:4]:
            pos = k > 0
            cands = [(fs.f[co], co) for co in idx.get((a, pos), ()) if len(co) > 1]
            for f in ax.get(a, ()):
                if len(f[1]) > 1:
                    for x, kk in f[1]:
                        if x == a and (kk > 0) == pos:
                            cands.append(f)
            cands.sort(key=lambda f: len(f[1]))
            for f in cands:
                kf = dict(f[1])[a]
                m, n = abs(kf), abs(k)
                q = gcd(m, n)
                m //= q
                n //= q
                # m*g = g2 + n*f   with g2 = m*g - n*f
                g2 = add(scale(g, m), f, -n)
                if len(g2[1]) > 7:
                    continue
                gg = 0
                for _, kk in g2[1]:
                    gg = gcd(gg, kk)
                if gg > 1:
                    g2 = (-((-g2[0]) // gg) if False else g2[0], g2[1])
                if not g2[1]:
                    if g2[0] >= 0:
                        return True
                    continue
                if self._p(g2, fs, depth - 1, seen, cnt):
                    return True
        return False

    def _badness(self, ac, fs):
        a, k = ac
        if k < 0:
            h = self.upper_atom(a, fs)
            if h is None:
                return float("inf")
            return abs(k) * h
        l = self.lower_atom(a, fs)
        if l is None:
            return float("inf")
        return -k * l if l < 0 else 0
