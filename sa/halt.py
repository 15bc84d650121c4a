"""Termination: every loop of a body is given a measure that each way round brings closer to its bound."""
import multiprocessing as mp, time
from pan import Pan, Budget
from table import TableLimit, k
from model import op_fn
import lin as L


class Halt(Pan):
    """collects, for each loop of the analysed body, the loops no measure was found for"""
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.verdicts = {}

    def leaves(self, x, y, out, n=0):
        """(old, new) of the quantities a measure may be made of"""
        if not isinstance(x, tuple) or not isinstance(y, tuple) or not x or not y or n > 6:
            return
        if x[0] == "agg" and y[0] == "agg" and x[1:3] == y[1:3] and len(x[3]) == len(y[3]):
            for p, q in zip(x[3], y[3]):
                self.leaves(p, q, out, n + 1)
        if x[0] == "slc" and y[0] == "slc":
            out.append((L.sub(self.end(x), self.start(x)), L.sub(self.end(y), self.start(y))))
            if x[1] == y[1]:
                self.leaves(x[2], y[2], out, n + 1)
                self.leaves(x[3], y[3], out, n + 1)
        elif self.base(x) in self.lsyms and y[0] not in ("agg", "clo", "lref", "slc"):
            out.append((self.lt.lin(x), self.lt.lin(y)))

    def base(self, x):
        while isinstance(x, tuple) and x and x[0] in ("fld", "as"):
            x = x[1]
        return x

    def start(self, r):
        return self.lt.lin(r[2])

    def regions_of(self, v, n=0):
        if isinstance(v, tuple) and v and n < 4:
            if v[0] == "slc":
                yield v
            elif v[0] == "agg":
                for y in v[3]:
                    yield from self.regions_of(y, n + 1)

    def holds(self, g, fs, n=0):
        """g >= 0; a minimum counts as each of its arguments"""
        if self.lt.entails(g, fs):
            return True
        if n < 3:
            for a, c in g[1]:
                t = self.lt.term.get(a)
                if c > 0 and t is not None and t[0] == "call" and t[1].rsplit("::", 1)[-1] == "min" and len(t[2]) == 2:
                    return all(self.holds(L.subst(g, {a: self.lt.lin(x)}), fs, n + 1) for x in t[2])
        return False

    def syms(self, v, out):
        if isinstance(v, tuple) and v:
            if v[0] == "sym" and len(v) == 2:
                out.add(v)
            else:
                for x in v:
                    self.syms(x, out)
        return out

    def on_loop(self, body, h, env, hv, e1, backs):
        ways = []
        self.lsyms = self.syms(tuple(self.loopsyms), set())
        for it in backs:
            fs = self.lt.facts(it[3])
            if self.lt.infeasible(fs):
                continue
            d = []
            for key in hv:
                if key in it[2]:
                    self.leaves(e1[key], it[2][key], d)
            ways.append((fs, d))
        bounds = self.bounds_in(env, hv)
        ls = {a for v in self.lsyms for a, _ in self.lt.lin(v)[1]}
        for key in hv:
            for x in self.regions_of(e1[key]):
                b = self.avail(x)
                if b not in bounds and not any(a in ls for a, _ in b[1]):
                    bounds.append(b)
        for fs, d in ways:
            for f in fs.f:
                for a, c in f:
                    t = self.lt.term.get(a)
                    if t is not None and t[0] == "len" and not (self.syms(t, set()) & self.lsyms) and self.lt.lin(t) not in bounds:
                        bounds.append(self.lt.lin(t))
        left = ways
        # lexicographic: a measure no way round makes worse and some make better settles those
        while left:
            cands = []
            for fs, d in left:
                for o, n in d:
                    if o not in cands:
                        cands.append(o)
            best = None
            for o in cands:
                for sign in (-1, 1):
                    settled, fine = [], True
                    for i, (fs, d) in enumerate(left):
                        n = next((n for o2, n in d if o2 == o), o)
                        diff = L.sub(n, o) if sign > 0 else L.sub(o, n)
                        ok = self.holds(L.sub(diff, L.const(1)), fs)
                        if ok and sign > 0:
                            ok = any(self.lt.entails(L.sub(b, o), fs) for b in bounds + [L.const(1 << 32)])
                        elif ok:
                            ok = self.lt.entails(n, fs)
                        if ok:
                            settled.append(i)
                        elif not self.holds(diff, fs):
                            fine = False
                            break
                    if fine and settled and (best is None or len(settled) > len(best)):
                        best = settled
            if best is None:
                break
            left = [w for i, w in enumerate(left) if i not in best]
        v = self.verdicts.setdefault((body.id, h), [0, 0, ""])
        v[0] += len(ways)
        v[1] += len(left)
        if left:
            v[2] = "; ".join("%s -> %s" % (self.show_lin(o), self.show_lin(n)) for o, n in left[0][1] if o != n)[:1500]

    def show_lin(self, x):
        try:
            return self.show(("lin", x))
        except Exception:
            return str(x)[:80]


ST = {}


def task(bid):
    F, K, cst, kw = ST["F"], ST["K"], ST["cost"], ST["kw"]
    b = F.bodies[bid]
    why = None
    for kk in (K, 100, 12, 0):
        T = Halt(F, lambda x: cst(x) <= kk, **kw)
        try:
            T.analyse(b)
            return bid, {h: v for (x, h), v in T.verdicts.items() if x == bid}, None
        except (Budget, TableLimit, RecursionError) as e:
            why = "%s: %s" % (type(e).__name__, e)
    return bid, {}, why


def measure(F, bids, K, cost, jobs=8, **kw):
    ST.update(F=F, K=K, cost=cost, kw=kw)
    with mp.get_context("fork").Pool(jobs) as P:
        return {b: (v, e) for b, v, e in P.imap_unordered(task, bids, chunksize=1)}
