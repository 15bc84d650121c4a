"""P01: no input makes the parser panic: every operation that can panic is shown not to, or is on the reviewed list."""
import ast, json, os, re
import lin as L
from pan import Pan
from panrun import Run, built

LEVEL = "other"
LIST = os.path.join(os.path.dirname(os.path.abspath(__file__)), "p01_reviewed.json")
BOUNDS = {"index", "slice", "range", "cursor"}


def kind(s):
    """class of the site, as far as a refactoring leaves it alone"""
    kd = s[2].split(":")[0]
    if kd == "needs":
        return "needs"
    if kd in BOUNDS or kd in ("bounds",):
        return "bounds"
    if kd in ("overflow", "div0", "rem0", "shift", "neg"):
        return "arith"
    return "panic"


def owner(path):
    return re.sub(r"(::\{closure#\d+\})+$", "", path)


def goal(F, P, s):
    """what a call needs: (constant, coefficients by argument position)"""
    try:
        g = ast.literal_eval(s[4])
        names = {n: i for b in F.product() if b.path == s[3] for i, n in enumerate(P.argnames(b))}
    except (ValueError, SyntaxError):
        return 0, s[4]

    def norm(t):
        if isinstance(t, tuple):
            return ("arg", names[t[1]]) if len(t) == 2 and t[0] == "sym" and t[1] in names else tuple(norm(x) for x in t)
        return t
    return g[1], repr(sorted(norm(g[2]), key=repr))


def run(ctx):
    ctx.rule = ("Every MIR assertion (overflow, division, shift, index), every call of a standard function that panics on some arguments (index, slice, "
                "unwrap, expect, split_at, copy_from_slice ...), every explicit panic and every Range built for slicing in the crate is an obligation: on each path of "
                "the function (callees inlined up to a size, loops by inferred invariants, private callees by inferred preconditions checked at each call) "
                "the path's linear facts must exclude the panic.")
    ctx.assumptions += ["Buf::position() never exceeds the buffer (decided by P06 and P09)",
                        "sites on sa/rules/p01_reviewed.json were reviewed by hand, not proven", "64-bit target"]
    F = ctx.facts()
    R = Run(F, 200, jobs=8, ups=1).run()
    rev = json.load(open(LIST))
    left, goals, modleft = {}, {}, {}
    for e in rev:
        key = (e["fn"], e["kind"])
        left[key] = left.get(key, 0) + e["n"]
        if e["kind"] == "needs":
            goals.setdefault(e["fn"], []).extend([c, t] for c, t in e["goals"])
    open_, P = [], Pan(F, lambda b: False)
    for s in R.done:
        ctx.oblige(kind(s), "%s/%s" % (F.bodies[s[0]].path, ":".join(str(x) for x in s[1:])), True)

    def take(fn, g):
        """a reviewed condition of the same form, and no stronger"""
        for x in goals.get(fn, ()):
            if x[1] == g[1] and x[0] <= g[0]:
                goals[fn].remove(x)
                return True
        return False
    for s, ((root, force), why) in sorted(R.bad.items(), key=lambda x: (F.bodies[x[0][0]].path, x[0][1:])):
        key = (owner(F.bodies[s[0]].path), kind(s))
        if left.get(key, 0) > 0 and (key[1] != "needs" or take(key[0], goal(F, P, s))):
            left[key] -= 1
        else:
            open_.append((s, key, root, why))
    # a reviewed site that moved to another function of its module; a function taken apart turns an index into a condition, one put together the reverse
    for (fn, kd), n in left.items():
        if n:
            m = fn.split("::")[0].lstrip("<")
            modleft[(m, kd)] = modleft.get((m, kd), 0) + n
    for s, key, root, why in open_:
        m = key[0].split("::")[0].lstrip("<")
        if key[1] == "needs":
            g = goal(F, P, s)
            fn = next((fn for fn in goals if fn.split("::")[0].lstrip("<") == m and modleft.get((m, "needs"), 0) > 0 and take(fn, g)), None)
            kd = "needs" if fn else "bounds"
        else:
            kd = key[1] if modleft.get((m, key[1]), 0) > 0 else "needs" if key[1] == "bounds" else key[1]
        if modleft.get((m, kd), 0) > 0:
            modleft[(m, kd)] -= 1
            continue
        b = F.bodies[s[0]]
        ctx.oblige(key[1], "%s/%s" % (key[0], s[2]), False,
                   "%s in %s (block %d, %s) is not shown never to panic\nas seen from %s: %s" % (
                       s[2], b.path, s[1], F.where(b, s[1]) if hasattr(F, "where") else "", F.bodies[root].path, (why or ["?"])[0][:400]))
    for b, e in sorted(R.err.items()):
        ctx.oblige("followed", owner(F.bodies[b].path), False, "the analysis of %s does not finish: %s" % (F.bodies[b].path, e))
    established(ctx, F)
    ctx.floor("panic sites", len(R.done) + len(R.bad), 400)
    ctx.count("proven", len(R.done))
    ctx.count("reviewed by hand", len(R.bad))
    ctx.count("functions", len(list(F.product())))
    ctx.floor("struct invariants", sum(len(v) for v in R.inv.values()), 4)


def entries_present(T, variant, x):
    """all of an IFD's entries lie within the data"""
    if x["entry_num"][0] == "fld":
        return None     # a copy
    n = T.length(x["input"] if T.slc(x["input"]) is None else T.slc(x["input"]))
    return L.sub(L.sub(T.lt.lin(n), T.lt.lin(x["pos"])), L.scale(T.lt.lin(x["entry_num"]), 12))


def chunk_present(T, variant, x):
    """a range captured from a PNG lies within the buffer it was captured from"""
    r = x.get("0")
    if variant != "EXif" or r is None or r[0] != "agg" or len(r[3]) != 2:
        return None
    return [L.sub(T.lt.lin(("len", a)), T.lt.lin(r[3][1])) for a in sorted(T.argsym) if a[0] == "sym"]


def established(ctx, F):
    """what the reviewed sites rely on"""
    for adt, cond, least in (("exif::exif_iter::IfdIter", entries_present, 1), ("png::PngExifSource", chunk_present, 1)):
        got = built(F, adt, cond)
        for b, ok, text in got:
            ctx.oblige("established", "%s/%s" % (adt, owner(b.path)), ok, "%s may build a %s which does not keep: %s (not shown: %s >= 0)" % (b.path, adt, cond.__doc__, text))
        ctx.floor("established " + adt.rsplit("::", 1)[-1], len(got), least)
