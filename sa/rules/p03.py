"""P03: parsing always ends: every loop and every recursion of the crate has a reason to stop."""
import json, os
import re
import halt, panrun, trav
import lin as L
from model import op_fn
from rules import common as C, flow, p39
from rules.p01 import owner
from table import Tab, State, k

LEVEL = "other"
LIST = os.path.join(os.path.dirname(os.path.abspath(__file__)), "p03_reviewed.json")
ENDLESS = ("RangeFrom", "iter::Repeat", "iter::Cycle", "iter::Successors", "iter::FromFn", "iter::RepeatWith", "sync::mpsc", "Incoming", "dyn ")
POLL = {"get_context", "new_unchecked", "poll", "into_future"}
# iterators of the crate, shown to get on by the rules of P39
OWN = {trav.EI, trav.IFD}


# calls that take a step in a finite source (or fail): on every way round, they end a loop
STEPS = {"fill_buf": "parser", "clear_and_skip": "parser", "read_exact": ""}


def avoids(b, h, blocks, xs):
    """whether some way round the loop passes none of the blocks xs"""
    seen, todo = {h}, [h] if h not in xs else []
    while todo:
        y = todo.pop()
        for z in b.succ(y):
            if z == h:
                return True
            if z in blocks and z not in xs and z not in seen:
                seen.add(z)
                todo.append(z)
    return False


def origin(b, pl):
    """the place a chain of borrows in the body starts from"""
    for _ in range(8):
        if not pl:
            return pl
        defs = [s["r"] for blk in b.blocks for s in blk["s"] if s["s"] == "=" and s["p"] == [pl[0]]]
        if len(defs) != 1:
            return pl
        r = defs[0]
        if r["r"] == "ref" and pl[1:] in ([], ["*"]):
            pl = r["p"]
        elif r["r"] == "use" and (r["o"].get("m") or r["o"].get("c")) and b.locals[pl[0]].get("n") is None and pl[1:] in ([], ["*"]):
            pl = (r["o"].get("m") or r["o"].get("c")) + pl[1:]
        else:
            return pl
    return pl


def classify(F, b, h, blocks):
    """why a loop ends, from its shape alone: polling a future, or an iterator of the library that every way round advances"""
    calls = [(x, op_fn(b.blocks[x]["t"]["f"])) for x in blocks if b.blocks[x]["t"]["t"] == "call"]
    if any(b.blocks[x]["t"]["t"] == "yield" for x in blocks) and all(c is not None and c.name in POLL for _, c in calls):
        return "await"
    for x, c in calls:
        if c is not None and (c.path or "").endswith("Iterator::next") and c.full.startswith("<"):
            ty = c.full[1:].split(" as ")[0]
            if any(w in ty for w in ENDLESS):
                continue
            rec = b.blocks[x]["t"]["a"]
            if avoids(b, h, blocks, {x}):
                continue
            own = [w for w in F.own_iters if w in ty]
            if any(w not in OWN for w in own):
                continue
            # the iterator is the same one each time round
            pl = rec[0].get("m") or rec[0].get("c") if rec else None
            src = origin(b, pl) if pl else None
            if not src or any(s["s"] == "=" and s["p"][:len(src)] == src[:len(s["p"])] and s["p"][0] == src[0] and (s["p"] == src or b.locals[src[0]].get("n") is not None)
                              for y in blocks for s in b.blocks[y]["s"]):
                continue
            if any(b.blocks[y]["t"]["t"] == "call" and b.blocks[y]["t"].get("d") == src for y in blocks):
                continue
            return ("directory " if own else "iterator ") + ty.split("<")[0]
    steps = {x for x, c in calls if c is not None and c.name in STEPS and STEPS[c.name] in (c.path or "")}
    if steps and not avoids(b, h, blocks, steps) and not any(c is not None and c.name in ("seek", "rewind", "set_position", "seek_relative") for _, c in calls):
        return "step"
    return None


def loops(ctx, F, rev):
    F.own_iters = {(t.get("p") or t["s"]).split("<")[0] for t in (F.types[b.d["self"]] for b in C.impl_fns(F, "std::iter::Iterator", None, "next"))}
    why, left = {}, {}
    todo, n = set(), 0
    for b in F.product():
        if not b.blocks or " as serde" in b.path or "_serde" in b.path:
            continue
        for h, bl in b.loops().items():
            n += 1
            c = classify(F, b, h, bl)
            if c:
                why[(b.id, h)] = c
            else:
                left.setdefault(b.id, set()).add(h)
    cost = panrun.cost_fn(F)
    reason, failed = {}, {}
    for K in (200, 400, 600, 100):
        bids = sorted(left)
        if not bids:
            break
        for b, (v, e) in halt.measure(F, bids, K, cost).items():
            for h in sorted(left[b]):
                x = v.get(h)
                if e is None and (x is None or not x[1]):
                    why[(b, h)] = "measure" if x and x[0] else "never goes round"
                    left[b].discard(h)
                else:
                    failed[(b, h)] = e or (x[2] if x else "")
            if not left[b]:
                del left[b]
    for (b, h), c in sorted(why.items()):
        ctx.oblige("loop", "%s/%s/%d" % (owner(F.bodies[b].path), c.split()[0], h), True)
    allow = {}
    for e in rev["loops"]:
        allow[e["fn"]] = e["n"]
    mods = {}
    over = []
    for b in sorted(left):
        fn = owner(F.bodies[b].path)
        for h in sorted(left[b]):
            if allow.get(fn, 0) > 0:
                allow[fn] -= 1
            else:
                over.append((fn, b, h))
    for fn, m in allow.items():
        if m:
            mods[fn.split("::")[0].lstrip("<")] = mods.get(fn.split("::")[0].lstrip("<"), 0) + m
    for fn, b, h in over:
        m = fn.split("::")[0].lstrip("<")
        if mods.get(m, 0) > 0:
            mods[m] -= 1
            continue
        ctx.oblige("loop", "%s/none" % fn, False, "a loop of %s (head block %d) may never end: no quantity is shown to get closer to a bound on each way round\n%s" % (F.bodies[b].path, h, failed[(b, h)]))
    kinds = {}
    for c in why.values():
        kinds[c.split()[0]] = kinds.get(c.split()[0], 0) + 1
    ctx.floor("loops", n, 60)
    ctx.floor("loops with a measure", kinds.get("measure", 0), 10)
    ctx.floor("loops over library iterators", kinds.get("iterator", 0), 10)
    ctx.count("loops reviewed by hand", sum(len(x) for x in left.values()))


def components(F):
    """strongly connected components of the call graph"""
    g = {}
    for b in F.product():
        g[b.id] = sorted({x.id for _, kd, x in F.edges(b)})
    idx, low, st, on, out, cnt = {}, {}, [], set(), [], [0]

    def visit(root):
        work = [(root, iter(g.get(root, ())))]
        idx[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g.get(v, ()):
                        out.append(sorted(c))
    for b in g:
        if b not in idx:
            visit(b)
    return out


def types_of(F, b, generic):
    """the types a body uses a generic function at"""
    out = set()
    for m in re.finditer(r'"full": "<([^"]+?) as [^"]*>::%s(?:"|::<)' % generic.name, json.dumps(b.blocks)):
        out.add(m.group(1))
    return out


def acyclic(g):
    seen, done = set(), set()

    def go(x):
        if x in done:
            return True
        if x in seen:
            return False
        seen.add(x)
        r = all(go(y) for y in g.get(x, ()))
        done.add(x)
        return r
    return all(go(x) for x in list(g))


DERIVED = ("std::clone::Clone", "std::default::Default", "std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord", "std::hash::Hash", "std::fmt::Debug", "std::cmp::Eq")


def travel(ctx, F, b):
    """the directory walk goes deeper by one each time, up to a constant"""
    T = Tab(F, unroll=1, opaque={x.id for x in F.product() if x.id != b.id and x.kind in ("Fn", "AssocFn")} | {b.id}, events=lambda c: any(x.id == b.id for x in F.resolve(c)))
    n, ok = 0, True
    from linterm import LT
    for st, v in T.run(b):
        for e in st.events:
            if e[0] != "call" or e[1].rsplit("::", 1)[-1] != b.name:
                continue
            lt = LT()
            fs = lt.facts(st)
            fine = False
            for i in range(b.argc):
                a = ("sym", b.locals[i + 1].get("n") or "arg%d" % i)
                if i < len(e[2]) and e[2][i] != a:
                    d = L.sub(lt.lin(e[2][i]), lt.lin(a))
                    fine = fine or not d[1] and d[0] >= 1 and lt.entails(L.sub(L.const(1 << 16), lt.lin(a)), fs)
            n += 1
            ok = ok and fine
    return n and ok


def recursion(ctx, F):
    for c in components(F):
        bs = [F.bodies[x] for x in c]
        name = owner(min(b.path for b in bs))
        if all(b.path.startswith("<") and any((" as %s" % t) in b.path for t in DERIVED) for b in bs):
            # structural: each value is compared, copied ... part by part
            ctx.oblige("recursion", name, True)
            continue
        gen = [b for b in bs if re.match(r"<[A-Z]\w* as ", b.path)]
        if len(gen) == 1:
            g = {}
            for b in bs:
                m = re.match(r"<([\w:]+)[ <]", b.path)
                if b is not gen[0] and m:
                    g.setdefault(m.group(1), set()).update(types_of(F, b, gen[0]))
            ctx.oblige("recursion", name, len(g) >= 1 and acyclic(g), "boxes of these types contain each other without end: %s" % {x: sorted(y) for x, y in g.items()})
            continue
        if len(bs) == 1 and bs[0].id == C.method(F, trav.EI, "load_next_block").id:
            ctx.oblige("recursion", name, True)     # one more block each time: decided below
            continue
        ctx.oblige("recursion", name, len(bs) == 1 and travel(ctx, F, bs[0]), "%s calls itself (through %s) and no argument is shown to get closer to a bound" % (name, ", ".join(b.path for b in bs)))


def skips(T, variant, x):
    """asks to skip something"""
    if variant != "ClearAndSkip":
        return None
    return L.addc(T.lt.lin(next(iter(x.values()))), -1)


def run(ctx):
    ctx.rule = ("Every loop of the crate is an obligation: it awaits one future; or each way round takes an item of a finite library iterator, of the crate's own directory iterators (whose steps are "
                "decided as tables), or a step in the source; or some linear quantity of the loop's state gets closer to a bound on each way round, lexicographically. Every cycle of the call graph is one "
                "too: over ever smaller types, one level deeper up to a constant, or one block further.")
    ctx.assumptions += ["the source is finite and a read or seek of it returns", "library calls terminate", "loops on sa/rules/p03_reviewed.json were reviewed by hand, not proven",
                        "skipping n bytes moves n bytes forward (decided by P06)"]
    F = ctx.facts()
    rev = json.load(open(LIST))
    loops(ctx, F, rev)
    recursion(ctx, F)
    p39.steps(ctx, F, {"progress"})
    p39.dirs(ctx, F, {"progress"})
    p39.blocks(ctx, F, {"progress"})
    flow.fill_rule(ctx, F, {"progress"})
    allow = {e["fn"]: e["n"] for e in rev["skips"]}
    mods = {}
    got = panrun.built(F, "error::ParsingError", skips)
    over = []
    for b, ok, text in got:
        fn = owner(b.path)
        if not ok and allow.get(fn, 0) > 0:
            allow[fn] -= 1
        elif not ok:
            over.append((b, fn, text))
        else:
            ctx.oblige("skip", fn, True)
    for fn, m in allow.items():
        mods[fn.split("::")[0]] = mods.get(fn.split("::")[0], 0) + m
    for b, fn, text in over:
        if mods.get(fn.split("::")[0], 0) > 0:
            mods[fn.split("::")[0]] -= 1
            continue
        ctx.oblige("skip", fn, False, "%s may ask to skip nothing and be called again with the same bytes and state (not shown: %s >= 0)" % (b.path, text))
    ctx.floor("requests to skip", len(got), 4)
