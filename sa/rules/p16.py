"""P16: rendering an entry value (Serialize / Display) loses nothing."""
from table import Tab, k, isk
from terms import walk, walk_skip, contains, calls, cname, casts, ops, short, ARITH
from rules import common as C
from model import Anchor

EV = "values::EntryValue"
TRUNC = {"take", "skip", "take_while", "skip_while", "step_by", "filter", "filter_map", "truncate", "split_at", "chunks",
         "chunks_exact", "windows", "nth", "first", "last", "get", "split_off", "drain", "dedup", "retain", "map_while",
         "split_first", "split_last", "rev", "trim", "trim_end", "trim_start", "trim_matches", "to_lowercase",
         "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "date", "time", "date_naive", "naive_utc", "timestamp",
         "round", "floor", "ceil", "trunc", "abs", "saturating_sub", "wrapping_sub", "wrapping_add", "saturating_add",
         "to_utc", "with_timezone", "escape_default", "escape_debug", "replace", "clamp",
         "from_utf8_lossy", "trim_end_matches", "trim_start_matches", "strip_prefix", "strip_suffix", "unwrap_or"}
CAP = {"with_capacity", "reserve", "reserve_exact", "with_capacity_in", "size_hint"}
SCALAR = {"U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "I8": "i8", "I16": "i16", "I32": "i32", "I64": "i64",
          "F32": "f32", "F64": "f64", "Text": "str"}


def events(F, T, body, args):
    """[(state, [(callee path, args)] incl. closures applied per element, value)]"""
    for st, v in T.run(body, args):
        evs = [(e[1], e[2]) for e in st.events if e[0] == "call"]
        for t in walk(v):
            if t[0] == "call" and t[3] == 0:
                evs.append((t[1], t[2]))
        ext = []
        seen = set()
        stack = list(evs)
        while stack:
            p, a = stack.pop()
            ext.append((p, a))
            for t in walk(a):
                if t[0] == "clo" and t[1] not in seen:
                    seen.add(t[1])
                    cb = F.bodies.get(t[1])
                    if cb is None:
                        continue
                    for s2, v2 in T.run(cb, [t] + [("sym", "elem%d" % i) for i in range(cb.argc - 1)]):
                        for e in s2.events:
                            if e[0] == "call":
                                stack.append((e[1], e[2]))
                        for t2 in walk(v2):
                            if t2[0] == "call" and t2[3] == 0:
                                stack.append((t2[1], t2[2]))
        yield st, evs, ext, v


def is_err(v):
    return v[0] == "agg" and v[1] == "std::result::Result" and v[2] == 1


def judge(ctx, F, rule, vn, P, st, evs, ext, v, serialize):
    """one path of the rendering of variant vn; P is the payload term"""
    key = vn
    names = [cname(p) for p, _ in ext]
    bad = {n for n in names if n in TRUNC and n != "get"}
    bad |= {cname(p) for p, a in ext if cname(p) in ("index", "get", "get_unchecked")
            and any(t[0] == "agg" and str(t[1]).startswith("std::ops::Range") and not str(t[1]).endswith("RangeFull") for x in a for t in walk(x))}
    bad = sorted(bad)
    # `index`/`get` etc. only matter when applied to the payload or its parts
    ctx.oblige(rule + "-complete", key, not bad, "%s of %s goes through %s: part of the value can be dropped" % (rule, vn, ", ".join(bad)))
    div_ok = vn in ("URational", "IRational", "URationalArray", "IRationalArray")
    for p, a in ext:
        if cname(p) in CAP:
            continue
        for t in walk_skip(a, CAP):
            if t[0] != "op" or t[1] not in ARITH:
                continue
            if div_ok and t[1] == "Div" and not serialize:
                continue
            ctx.oblige(rule + "-value", key, False, "%s of %s renders a computed value: %s" % (rule, vn, short(F, t)))
        for t in casts(a):
            if div_ok and t[3] == "f64" and not serialize:
                continue
            if contains(t[2], P):
                ctx.oblige(rule + "-value", key, False, "%s of %s casts the value to %s before rendering it" % (rule, vn, t[3]))
    used = any(contains(a, P) for _, a in evs)
    ctx.oblige(rule + "-payload", key, used, "%s of %s does not render its payload" % (rule, vn))


def render(ctx, F, rule, body, serialize):
    adt = F.adt(EV)
    T = Tab(F, max_paths=400)
    for i, var in enumerate(adt["vs"]):
        vn = var["n"]
        P = ("sym", "payload")
        if vn in ("URational", "IRational"):
            P = ("sym", "payload")
        args = [("agg", EV, i, (P,)), ("sym", "out")]
        n = 0
        scal = False
        outs = []
        for st, evs, ext, v in events(F, T, body, args):
            if v[0] == "diverge" and v[1] != "loop" and cname(v[1]) not in ("unwrap", "expect"):
                ctx.oblige(rule + "-total", vn, False, "%s of %s can diverge: %s" % (rule, vn, v[1]))
                continue
            if is_err(v):
                continue
            n += 1
            judge(ctx, F, rule, vn, P, st, evs, ext, v, serialize)
            outs.append((evs, ext, v))
        ctx.oblige(rule + "-total", vn, n > 0, "%s of %s has no successful path" % (rule, vn))
        if serialize and vn in SCALAR:
            want = "serialize_" + SCALAR[vn]
            for evs, ext, v in outs:
                sers = [(cname(p), a) for p, a in evs if cname(p).startswith("serialize")]
                good = len(sers) == 1 and (sers[0] == (want, (("sym", "out"), P)) or (sers[0][0] == "serialize" and sers[0][1][0] == P))
                ctx.oblige(rule + "-type", vn, good, "%s is serialized through %s" % (vn, [(s, short(F, a)) for s, a in sers]))
        if not serialize and vn in SCALAR:
            for evs, ext, v in outs:
                good = any(contains(a, P) and not calls_on(a, P) for p, a in evs if cname(p) in ("fmt", "write_str", "pad", "write_fmt"))
                ctx.oblige(rule + "-type", vn, good, "%s is not displayed as itself: %s" % (vn, [(cname(p), short(F, a)) for p, a in evs][:3]))
        if vn in ("DateTime", "NaiveDateTime"):
            for evs, ext, v in outs:
                text = [(cname(p), a) for p, a in ext]
                fm = [a[1][1] for n2, a in text if n2 in ("format", "format_with_items") and len(a) > 1 and isk(a[1])]
                rf = any(n2 in ("to_rfc3339", "to_rfc3339_opts") for n2, _ in text)
                if vn == "DateTime":
                    good = rf or any(_full(f) and ("%z" in f or "%:z" in f or "%+" in f) for f in fm) or \
                        (not fm and any(n2 == "fmt" and contains(a, P) for n2, a in text))
                else:
                    good = any(_full(f) for f in fm) or (not fm and any(n2 == "fmt" and contains(a, P) for n2, a in text))
                ctx.oblige(rule + "-datetime", vn, good, "%s is rendered with %s: a date-time component is lost" % (vn, fm or [n2 for n2, _ in text]))
        if not serialize and vn in ("URational", "IRational"):
            for evs, ext, v in outs:
                flat = [a for p, a in ext if cname(p).startswith("new_display")]
                both = any(("fld", P, 0) == a[0] for a in flat) and any(("fld", P, 1) == a[0] for a in flat)
                ctx.oblige(rule + "-rational", vn, both, "display of %s does not show numerator and denominator themselves" % vn)


def calls_on(a, P):
    return [c for c in calls(a) if contains(c, P) and not cname(c[1]).startswith(("new_", "new"))]


def _full(f):
    return f in ("%+", "%c") or all(any(x in f for x in alt) for alt in
                                    (("%Y",  "%F"), ("%m", "%F", "%b"), ("%d", "%F", "%e"), ("%H", "%T"), ("%M", "%T"), ("%S", "%T")))


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("per-variant decision tables of <EntryValue as Serialize>::serialize and <EntryValue as Display>::fmt: every variant "
                "renders its own complete payload (same-width primitive, whole iteration, full date-time incl. offset), no truncating "
                "adaptor, arithmetic or cast on the way")
    ctx.floor("variants", len(F.adt(EV)["vs"]), 21)
    render(ctx, F, "serialize", C.impl_fn(F, "serde::Serialize", EV, "serialize"), True)
    render(ctx, F, "display", C.impl_fn(F, "std::fmt::Display", EV, "fmt"), False)
    # Rational: both components, by name
    rb = C.impl_fns(F, "serde::Serialize", "values::Rational", "serialize")
    if len(rb) != 1:
        raise Anchor("Serialize for Rational")
    T = Tab(F)
    okp = 0
    for st, v in T.run(rb[0], [("sym", "r"), ("sym", "out")]):
        if is_err(v):
            continue
        fs = {(e[2][1][1], e[2][2]) for e in st.events if cname(e[1]) == "serialize_field" and len(e[2]) > 2 and isk(e[2][1])}
        adt = F.adt("values::Rational")
        want = {(f["n"], ("fld", ("sym", "r"), i)) for i, f in enumerate(adt["vs"][0]["fs"])}
        okp += 1
        ctx.oblige("serialize-rational", "fields", fs == want, "Rational serializes %s" % sorted(fs, key=str))
    ctx.oblige("serialize-rational", "has-path", okp > 0)
    # element renderers are value-preserving: the closure used for arrays shows its element
    for b in F.bodies.values():
        if b.kind == "Closure" and b.path.startswith("values::") and ("to_string" in b.path):
            for st, v in Tab(F).run(b, [("sym", "self")] + [("sym", "elem")] * (b.argc - 1)):
                shown = [e for e in st.events if e[0] == "call"] + [("call", t[1], t[2]) for t in calls(v)]
                ctx.oblige("display-element", b.path, any(contains(e[2], ("sym", "elem")) for e in shown), "array element is not rendered")
                bad = [cname(e[1]) for e in shown if cname(e[1]) in TRUNC]
                ctx.oblige("display-element-complete", b.path, not bad, "array element goes through %s" % bad)
