"""Runs the panic analysis over all bodies: every body on arbitrary arguments; sites of private functions that need their
callers are judged again in every caller, up the call graph, until they are shown or an entry point is reached."""
import multiprocessing as mp
import re
import time
from pan import Pan, Budget
from table import TableLimit

STATE = {}


def cost_fn(F):
    cost = {}

    def cst(b, stk=()):
        if b.id in cost:
            return cost[b.id]
        if b.id in stk:
            return 10 ** 6
        n = len(b.reachable())
        for blk, t, c in b.calls():
            if c is None:
                continue
            for x in F.resolve(c):
                n += cst(x, stk + (b.id,))
        for bk, kd, x in F.edges(b):
            if kd == "closure":
                n += cst(x, stk + (b.id,))
        cost[b.id] = n
        return n
    return cst


def task(job):
    bid, force = job
    F, K, cst = STATE["F"], STATE["K"], STATE["cost"]
    b = F.bodies[bid]
    t0 = time.time()
    last = None
    for kk in ((100, 12, 0) if force else (K, 100, 12, 0)):
        T = Pan(F, lambda x: cst(x) <= kk, force=force, **STATE.get("kw", {}))
        T.want_pre = bid in STATE["private"] and not force
        try:
            rec, n = T.analyse(b)
            return job, {s: (m, [w for w in list(bad)[:3]]) for s, (m, bad) in rec.items()}, set(T.bodies_seen), None, time.time() - t0, T.steps, T.new_pre
        except (Budget, TableLimit, RecursionError) as e:
            last = "%s: %s" % (type(e).__name__, e)
    return job, {}, set(), last, time.time() - t0, 0, {}


def field_writers(F, shared=False):
    """{(adt, field): bodies that assign it, or borrow it for writing, after construction}; shared: of a value reached by a reference"""
    hit = {}

    def scan(b, p, what):
        t = b.locals[p[0]]["ty"]
        T = F.types
        for e in p[1:]:
            ty = T[t]
            if e == "*":
                t = ty["t"] if "t" in ty else ty["a"][0] if ty.get("a") else t
            elif isinstance(e, dict) and "f" in e:
                if ty.get("k") == "adt":
                    if not shared or "*" in p[1:]:
                        hit.setdefault((ty["p"], e["f"]), []).append(b)
                if "t" in e:
                    t = e["t"]
                else:
                    return
            elif isinstance(e, dict) and ("i" in e or "ci" in e) and "t" in ty:
                t = ty["t"]
            elif isinstance(e, dict) and "v" in e:
                continue
            else:
                return
    for b in F.bodies.values():
        for blk in b.blocks:
            for s in blk["s"]:
                if s["s"] != "=":
                    continue
                if len(s["p"]) > 1:
                    scan(b, s["p"], "=")
                r = s["r"]
                if r["r"] in ("ref", "rawptr") and (r.get("m") or r["r"] == "rawptr" or r.get("bk") not in (None, "shared", "Shared")) and len(r["p"]) > 1:
                    scan(b, r["p"], "&mut")
            t = blk["t"]
            if t["t"] == "call" and len(t["d"]) > 1:
                scan(b, t["d"], "call")
    return hit


def fixed_fields(F):
    """fields of the crate's structs that nothing assigns, or borrows for writing, after construction: {adt: [field]}"""
    hit = field_writers(F)
    out = {}
    for p, a in F.adts.items():
        if a["kind"] != "struct" or not a.get("local") or not a["vs"]:
            continue
        ok_ = [i for i, f in enumerate(a["vs"][0]["fs"]) if (p, i) not in hit and not (a.get("exported") and f.get("pub"))]
        if ok_:
            out[p] = ok_
    return out


def candidates(F):
    fixed = fixed_fields(F)
    P = Pan(F, lambda b: False)

    def leaves(p, pre=(), depth=0):
        out = []
        for i in fixed.get(p, ()):
            f = F.adts[p]["vs"][0]["fs"][i]
            t = F.types[f["ty"]]
            s = P.strip(f["ty"])
            if t["k"] == "int" and t["n"][0] == "u":
                out.append((pre + (i,), "int"))
            elif P.bytesy(s) and s["k"] != "array":
                out.append((pre + (i,), "len"))
            elif t["k"] == "adt" and depth < 1 and t["p"] in fixed:
                out += leaves(t["p"], pre + (i,), depth + 1)
        return out
    inv = {}
    for p in fixed:
        ls = leaves(p)
        if len(ls) > 12:
            continue
        cs = [(1, a) for a, kd in ls] + [(a, b) for a, ka in ls for b, kb in ls if a != b and not (len(a) > 1 and len(b) > 1 and a[0] == b[0])]
        if cs:
            inv[p] = cs
    return inv


def builders(F, inv):
    out = []
    for b in F.product():
        if any(s["s"] == "=" and s["r"]["r"] == "agg" and s["r"].get("p") in inv for blk in b.blocks for s in blk["s"]):
            out.append(b)
    return out


def inv_task(bid):
    F, K, cst = STATE["F"], STATE["K"], STATE["cost"]
    for kk in (K, 12, 0):
        T = Pan(F, lambda x: cst(x) <= kk, inv=STATE["inv"])
        try:
            T.analyse(F.bodies[bid])
            return bid, T.inv_bad, T.inv_seen, None
        except (Budget, TableLimit, RecursionError) as e:
            last = str(e)
    return bid, set(), set(), last


class Run:
    verbose = False

    def __init__(self, F, K=400, jobs=8, ups=4):
        self.F, self.K, self.jobs, self.ups = F, K, jobs, ups
        self.res = {}
        self.cost = cost_fn(F)
        self.callers = {}
        for b in F.product():
            for blk, kd, x in F.edges(b):
                if x.id != b.id:
                    self.callers.setdefault(x.id, set()).add(b.id)

    def do(self, jobs):
        jobs = sorted(j for j in set(jobs) if j not in self.res)
        if not jobs:
            return
        STATE.update(F=self.F, K=self.K, cost=self.cost, kw={"inv": self.inv, "pres": self.pres}, private=self.private)
        with mp.get_context("fork").Pool(self.jobs) as P:
            for job, rec, seen, exc, dt, steps, pre in P.imap_unordered(task, jobs, chunksize=1):
                self.res[job] = (rec, seen, exc, dt, steps, pre)
                if dt > 5 and self.verbose:
                    print('%.1f' % dt, self.F.bodies[job[0]].path, len(job[1]), steps, exc, flush=True)
        if self.verbose:
            print('batch', len(jobs), flush=True)

    def infer(self):
        """struct invariants a <= b that every construction keeps, assuming them elsewhere: the largest inductive set of the candidates"""
        inv = candidates(self.F)
        bs = builders(self.F, inv)
        built = {}
        for b in bs:
            for blk in b.blocks:
                for s in blk["s"]:
                    if s["s"] == "=" and s["r"]["r"] == "agg" and s["r"].get("p") in inv:
                        built.setdefault(s["r"]["p"], set()).add(b.id)
        while True:
            STATE.update(F=self.F, K=self.K, cost=self.cost, inv=inv)
            drop = set()
            with mp.get_context("fork").Pool(self.jobs) as P:
                for bid, bad, seen, exc in P.imap_unordered(inv_task, [b.id for b in bs], chunksize=1):
                    drop |= bad
                    if exc:
                        drop |= {(p, c) for p in inv if bid in built.get(p, ()) for c in inv[p]}
            if not drop:
                return inv
            inv = {p: [c for c in cs if (p, c) not in drop] for p, cs in inv.items()}
            inv = {p: cs for p, cs in inv.items() if cs}

    inv = None

    def entry(self, b):
        return b.exported or b.d.get("exported")


    def run(self):
        import sys
        sys.setrecursionlimit(20000)
        bodies = list(self.F.product())
        if self.inv is None:
            self.inv = self.infer()
        self.private = set()
        for b in bodies:
            kinds = [(kd, c) for c in bodies for blk, kd, x in self.F.edges(c) if x.id == b.id and c.id != b.id]
            # a function used as a value may be called from anywhere, with anything
            if b.kind in ("Fn", "AssocFn") and not self.entry(b) and kinds and all(kd == "call" for kd, c in kinds) and not b.path.endswith("Buf>::buffer") and not re.search(r" as (std|core|serde|tokio|futures|alloc|_serde)", b.path):
                self.private.add(b.id)
        self.pres, self.where = {}, {}
        todo = [b.id for b in bodies]
        over = {}
        for rnd in range(12):
            for bid in todo:
                self.res.pop((bid, ()), None)
            self.do([(bid, ()) for bid in todo])
            grown = set()
            for bid in todo:
                for pt, sites in self.res[(bid, ())][5].items():
                    if pt not in self.pres.get(bid, ()):
                        if len(self.pres.get(bid, ())) >= 60:
                            over[bid] = "too many conditions on the arguments"
                            continue
                        self.pres.setdefault(bid, []).append(pt)
                        grown.add(bid)
                    self.where.setdefault((bid, pt), set()).update(sites)
            if not grown:
                break
            if rnd == 11:
                over.update({g: "conditions on the arguments keep growing" for g in grown})
            todo = sorted({c for g in grown for c in self.callers.get(g, ()) if c in self.F.bodies} | grown)
        open_ = {}      # (body, site) -> list of chains still to be judged; a chain is (root, forced...)
        self.done, self.bad, self.err = set(), {}, dict(over)
        for b in bodies:
            rec, seen, exc, dt, steps, pre = self.res[(b.id, ())]
            if exc:
                self.err[b.id] = exc
            for s, (n, why) in rec.items():
                if s[0] != b.id:
                    continue
                if why:
                    open_[s] = [((b.id, ()), why)]
                else:
                    self.done.add(s)
        for lvl in range(self.ups + 1):
            jobs, plan = [], {}
            for s, chains in open_.items():
                nxt = []
                failed = None
                for (root, force), why in chains:
                    b = self.F.bodies[root]
                    up = [c for c in self.callers.get(root, ()) if c in self.F.bodies]
                    if self.entry(b) or not up or lvl == self.ups or len(up) > 40:
                        failed = ((root, force), why)
                        break
                    f2 = tuple(sorted(set(force) | {root}))
                    nxt += [(u, f2) for u in up if u not in f2]
                if failed:
                    self.bad[s] = failed
                else:
                    plan[s] = nxt
                    jobs += nxt
            if not plan:
                break
            self.do(jobs)
            open_ = {}
            for s, nxt in plan.items():
                left = []
                for j in nxt:
                    rec, seen, exc, dt, steps, pre = self.res[j]
                    r = rec.get(s)
                    if exc or r is None and s[0] not in seen:
                        left.append((j, [exc or "not reached from " + self.F.bodies[j[0]].path]))
                    elif r is not None and r[1]:
                        left.append((j, r[1]))
                if left:
                    open_[s] = left
                else:
                    self.done.add(s)
        return self


class Built(Pan):
    """checks a condition on the fields of every value of one type that a body builds"""
    def rvalue(self, body, env, st, r):
        v = super().rvalue(body, env, st, r)
        if r["r"] == "agg" and r.get("p") == self.adt:
            vs = self.F.adts[self.adt]["vs"]
            fs = [f["n"] for f in vs[r.get("v") or 0]["fs"]]
            x = dict(zip(fs, [self.operand(body, env, st, o) for o in r["o"]]))
            g = self.cond(self, vs[r.get("v") or 0]["n"], x)
            if g is not None:
                facts = self.lt.facts(st)
                gs = g["all"] if isinstance(g, dict) else g if isinstance(g, list) else [g]
                ok = (all if isinstance(g, dict) else any)(self.lt.entails(g, facts) for g in gs) or self.lt.infeasible(facts)
                self.found.append((body, ok, "" if ok else self.show(("lin", gs[0]))))
        return v


def built(F, adt, cond, K=200):
    """[(body, holds, text)] for each place a value of the type is built; cond(analysis, fields) gives a linear form, None when out of scope"""
    out, cst = [], cost_fn(F)
    for b in builders(F, {adt: 1}):
        if b.path.endswith("Clone>::clone"):
            continue
        for kk in (K, 100, 12, 0):
            T = Built(F, lambda x: cst(x) <= kk)
            T.adt, T.cond, T.found = adt, cond, []
            try:
                T.analyse(b)
                break
            except (Budget, TableLimit, RecursionError):
                if not kk:
                    raise
        out += [x for x in T.found if x[0].id == b.id]
    return out
