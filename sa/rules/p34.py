"""P34: no undefined behaviour. Every operation that the compiler does not check itself (the content of unsafe blocks, unsafe
functions, unsafe impls) is enumerated; the only kind accepted is the conversion of an integer to a fieldless enum, and only
where every path to it confines the integer to the declared discriminants."""
from linterm import LT
import lin as L
from model import op_place
from table import Tab, State, TableLimit
from terms import cname


class Watch(Tab):
    def __init__(self, F):
        super().__init__(F, max_paths=20000)
        self.seen = []

    def rvalue(self, body, env, st, r):
        if r.get("r") == "cast" and r["ck"] == "Transmute":
            self.seen.append((body, self.resolve_refs(self.operand(body, env, st, r["o"]), env), body.facts.types[r["ty"]], st))
        return super().rvalue(body, env, st, r)


def confined(lt, st, v, ds):
    if v[0] == "k":
        return v[1] in ds
    c = st.known(v)
    if c and c[0] == "=":
        return c[1] in ds
    fs = lt.facts(st)
    x = lt.lin(v)
    lo, hi = min(ds), max(ds)
    return set(range(lo, hi + 1)) == set(ds) and lt.entails(L.addc(x, -lo), fs) and lt.entails(L.addc(L.scale(x, -1), hi), fs)


def raw_deref(b):
    """places of the body that go through a raw pointer"""
    out = []

    def place(p):
        ty = b.d["locals"][p[0]]["ty"] if isinstance(p[0], int) and p[0] < len(b.d["locals"]) else None
        for pr in p[1:]:
            if pr == "*" and ty is not None and b.facts.types[ty].get("k") == "ptr":
                out.append(p)
            ty = pr.get("t") if isinstance(pr, dict) else None

    def rec(x):
        if isinstance(x, dict):
            for kk in ("c", "m", "p"):
                if isinstance(x.get(kk), list) and x[kk] and isinstance(x[kk][0], int):
                    place(x[kk])
            for y in x.values():
                rec(y)
        elif isinstance(x, list):
            for y in x:
                rec(y)
    rec(b.blocks)
    return out


def judge(F, root, b, ctx):
    """walks root; (number of transmutes of b understood, {type: what is not shown})"""
    T = Watch(F)
    paths = sum(1 for _ in T.walk(root, [("sym", "a%d" % i) for i in range(root.argc)], State(), 0, ()))
    ctx.count("paths of " + root.path, paths)
    lt = LT()
    done, bad = 0, {}
    for body, v, ty, st in T.seen:
        if body.id != b.id:
            continue
        ad = F.adts.get(ty.get("p")) if ty.get("k") == "adt" else None
        if ad is None or ad["kind"] != "enum" or any(x["fs"] for x in ad["vs"]):
            bad[ty["s"]] = "%s transmutes to %s, for which no condition is known" % (b.path, ty["s"])
            continue
        done += 1
        ds = [int(x["d"]) for x in ad["vs"]]
        if not confined(lt, st, v, ds):
            bad[ty["s"]] = "%s turns a number into %s without every path confining it to %s (as called by %s)" % (b.path, ty["s"], sorted(ds), root.path)
    return done, bad


def run(ctx):
    ctx.rule = ("enumeration of everything the compiler leaves unchecked (unsafe blocks, unsafe functions and impls, calls of unsafe functions, raw-pointer "
                "accesses, transmutes, static mut); each must be an integer-to-fieldless-enum conversion whose operand is confined to the discriminants on every path")
    n = 0
    for crate in ("nom_exif", "rexiftool"):
        F = ctx.facts("all", crate)
        for b in F.bodies.values():
            n += 1
            blocks = b.d.get("ublocks")
            if blocks is None:
                ctx.violation("facts/" + b.path, "no record of unsafe blocks for %s" % b.path)
                continue
            own = [m for m in blocks]
            unsafe = bool(own) or b.d.get("unsafe")
            if not unsafe:
                continue
            ctx.oblige("external", b.path, not b.d.get("exported") or not b.d.get("unsafe"), "%s is a public unsafe function: its callers' obligations cannot be seen" % b.path)
            for blk, t, c in b.calls():
                if c is None:
                    ctx.oblige("pointer-call", b.path, False, "%s calls through a pointer in unsafe code" % b.path)
                elif c.k.get("us") and not c.local:
                    ctx.oblige("unsafe-call", "%s/%s" % (b.path, c.name), c.name == "transmute", "%s calls the unsafe function %s" % (b.path, c.full))
            ctx.oblige("raw", b.path, not [p for p in raw_deref(b)], "%s reads or writes through a raw pointer" % b.path)
            if not own:
                continue
            done, bad = judge(F, b, b, ctx)
            # a private helper may leave the condition to its callers
            level, up = [b], {b.id}
            while bad and level and not any(x.d.get("exported") for x in level) and len(up) < 40:
                level = [x for x in F.bodies.values() if x.id not in up and x.kind in ("Fn", "AssocFn") and any(y in level for _, kind, y in F.edges(x) if kind == "call")]
                if not level:
                    break
                up |= {x.id for x in level}
                first, bad = bad, {}
                try:
                    for x in level:
                        bad.update(judge(F, x, b, ctx)[1])
                except (TableLimit, RecursionError):
                    bad = first
                    break
            for ty, why in bad.items():
                ctx.oblige("discriminant", "%s/%s" % (b.path, ty), False, why)
            ctx.oblige("discriminant", b.path, not bad, "see above") if not bad else None
            calls = sum(1 for blk, t, c in b.calls() if c is not None and c.k.get("us"))
            ctx.oblige("understood", b.path, done + calls >= len(own), "%s has %d unsafe blocks, of which only %d are understood" % (b.path, len(own), done + calls))
        for b in F.bodies.values():
            if b.kind.startswith("Static"):
                ctx.oblige("static-mut", b.path, "mutability: Mut" not in b.kind, "%s is a mutable static" % b.path)
        for i in F.impls:
            if i.get("us") and not i.get("mac") and not (i.get("trait") or "").endswith("TrivialClone"):
                ctx.oblige("impl", "%s for %s" % (i["trait"], F.types[i["self"]]["s"]), False, "unsafe impl of %s for %s" % (i["trait"], F.types[i["self"]]["s"]))
    ctx.floor("functions", n, 700)
