"""shared helpers for the rules"""
from model import Anchor, op_place, op_const, op_fn
from table import isk, some, NONE, k


def method(F, adt, name):
    """inherent method `name` of local type `adt`"""
    out = []
    for b in F.bodies.values():
        if b.kind == "AssocFn" and b.name == name and not b.d.get("trait") and isinstance(b.d.get("self"), int):
            t = F.types[b.d["self"]]
            if t["k"] == "adt" and t["p"] == adt:
                out.append(b)
    if len(out) != 1:
        raise Anchor("method %s::%s: %d matches" % (adt, name, len(out)))
    return out[0]


def impl_fns(F, trait, adt, name):
    out = []
    for b in F.bodies.values():
        if b.kind == "AssocFn" and b.name == name and b.d.get("trait") == trait and isinstance(b.d.get("self"), int):
            t = F.types[b.d["self"]]
            if adt is None or t.get("p") == adt or t["s"] == adt:
                out.append(b)
    return out


def impl_fn(F, trait, adt, name, pred=None):
    out = [b for b in impl_fns(F, trait, adt, name) if pred is None or pred(b)]
    if len(out) != 1:
        raise Anchor("impl %s for %s (%s): %d matches" % (trait, adt, name, len(out)))
    return out[0]


def strip_cast(v):
    while isinstance(v, tuple) and v and v[0] in ("cast", "from"):
        v = v[2] if v[0] == "cast" else v[1]
    return v


def tag_tables(ctx, F, T, ADT, floor, codes):
    adt = F.adt(ADT)
    vs = adt["vs"]
    ctx.floor("variants", len(vs), floor)

    def unit(i):
        return ("agg", ADT, i, ())

    # name: one string per variant, injective
    nb = method(F, ADT, "name")
    names = {}
    for i, v in enumerate(vs):
        for st, r in T.run(nb, [unit(i)]):
            names.setdefault(i, set()).add(r)
        r = names[i]
        ctx.oblige("name", v["n"], len(r) == 1 and isk(next(iter(r))) and isinstance(next(iter(r))[1], str),
                   "%s::name(%s) is not one constant string: %r" % (ADT, v["n"], r))
    flat = {i: next(iter(r))[1] for i, r in names.items() if len(r) == 1 and isk(next(iter(r)))}
    rev = {}
    for i, n in flat.items():
        rev.setdefault(n, []).append(vs[i]["n"])
    for n, l in rev.items():
        ctx.oblige("name-unique", l[0], len(l) == 1, "name %r is shared by %s" % (n, l))
    for i, n in flat.items():
        ctx.oblige("name-is-variant", vs[i]["n"], n == vs[i]["n"],
                   "name of %s::%s is %r: differs from the documented tag name" % (ADT, vs[i]["n"], n))
    # Display writes exactly the name
    fb = impl_fn(F, "std::fmt::Display", ADT, "fmt")
    for i, v in enumerate(vs):
        for st, r in T.run(fb, [unit(i), ("sym", "f")]):
            ws = [e for e in st.events if e[0] == "call"]
            good = (len(ws) == 1 and ws[0][2] and ws[0][2][-1] == k(flat.get(i))
                    and ws[0][1].rsplit("::", 1)[-1] in ("write_str", "pad"))
            good = good or _display_fmt_of(ws, flat.get(i))
            ctx.oblige("display", v["n"], good, "Display of %s writes %r" % (v["n"], ws))
    # FromStr is the inverse of name; everything else is UnknownTagName(input)
    sb = impl_fn(F, "std::str::FromStr", ADT, "from_str")
    seen = set()
    default = 0
    for st, r in T.run(sb, [("sym", "s")]):
        s = st.known(("sym", "s"))
        others = [e for e in st.cons if e != ("sym", "s")]
        if others:
            ctx.oblige("from-str", "extra-test", False, "FromStr for %s tests %r besides the input string" % (ADT, others[:3]))
            continue
        if s is None:
            default += 1
            c = st.cons.get(("sym", "s"))
            ctx.oblige("from-str", "default-row", r[0] == "agg" and r[1] == "std::result::Result" and r[2] == 1
                       and c is not None and set(flat.values()) <= set(c[1])
                       and r[3][0][0] == "agg" and r[3][0][1] == "error::ConvertError"
                       and F.adt("error::ConvertError")["vs"][r[3][0][2]]["n"] == "UnknownTagName"
                       and strip_cast(r[3][0][3][0]) == ("sym", "s"),
                       "unrecognised name does not yield UnknownTagName(name) after all names were tried: %r" % (r,))
        else:
            want = [i for i, n in flat.items() if n == s]
            good = r[0] == "agg" and r[1] == "std::result::Result" and r[2] == 0 and want and r[3][0] == unit(want[0])
            if good:
                seen.add(want[0])
            ctx.oblige("from-str", str(s), good, "from_str(%r) yields %r" % (s, r))
    for i, v in enumerate(vs):
        ctx.oblige("from-str-total", v["n"], i in seen, "from_str never yields %s" % v["n"])
    ctx.oblige("from-str", "has-default", default >= 1, "no path for an unrecognised name")
    if not codes:
        return
    cb = method(F, ADT, "code")
    fc = method(F, ADT, "from_code")
    code = {}
    for i, v in enumerate(vs):
        r = {x for _, x in T.run(cb, [unit(i)])}
        good = len(r) == 1 and isk(next(iter(r))) and next(iter(r))[1] == int(v["d"])
        ctx.oblige("code", v["n"], good, "code(%s) is %r, declared 0x%x" % (v["n"], r, int(v["d"])))
        code[i] = int(v["d"])
    inv = {}
    for i, cd in code.items():
        inv.setdefault(cd, []).append(i)
    seen = set()
    for st, r in T.run(fc, [("sym", "c")]):
        others = [e for e in st.cons if e != ("sym", "c")]
        if others:
            ctx.oblige("from-code", "extra-test", False, "from_code tests %r" % (others[:3],))
            continue
        cv = st.known(("sym", "c"))
        if cv is None:
            c = st.cons.get(("sym", "c"))
            ctx.oblige("from-code", "default-row", r == NONE and c is not None and set(inv) <= set(c[1]),
                       "default row of from_code yields %r" % (r,))
        else:
            good = cv in inv and r == some(unit(inv[cv][0]))
            if good:
                seen.add(inv[cv][0])
            if cv not in inv and r == NONE:
                good = True
            ctx.oblige("from-code", "0x%04x" % cv, good, "from_code(0x%04x) yields %r" % (cv, r))
    for i, v in enumerate(vs):
        ctx.oblige("from-code-total", v["n"], i in seen, "from_code never yields %s (0x%04x)" % (v["n"], code[i]))


def _display_fmt_of(ws, name):
    # Display::fmt(name, f) / f.write_fmt(format_args!("{}", name))
    flat = str(ws)
    return len(ws) >= 1 and repr(("k", name)) in flat and ws[-1][1].rsplit("::", 1)[-1] in ("fmt", "write_fmt", "pad") \
        and not any(x in flat for x in ("lower", "upper", "trim"))


def strip_cast_none(v):
    """identity up to reflexive From"""
    while isinstance(v, tuple) and v and v[0] == "from":
        v = v[1]
    return v


def fidx(F, adt, name):
    for i, f in enumerate(F.adt(adt)["vs"][0]["fs"]):
        if f["n"] == name:
            return i
    raise Anchor("field %s.%s" % (adt, name))


def vidx(F, adt, name):
    for i, v in enumerate(F.adt(adt)["vs"]):
        if v["n"] == name:
            return i
    raise Anchor("variant %s::%s" % (adt, name))


def known_disc(F, st, expr, adt, disc=False):
    """variant names `expr` (of enum adt) can have on this path"""
    vs = F.adt(adt)["vs"]
    ds = {int(v["d"]): v["n"] for v in vs}
    c = st.cons.get(("disc", expr, adt))
    if c is None:
        return set(ds.values())
    if c[0] == "=":
        return {ds.get(c[1], "?%s" % (c[1],))}
    return {n for d, n in ds.items() if d not in c[1]}


def by_name(F, name, path=None, kinds=("Fn", "AssocFn")):
    return [b for b in F.bodies.values() if b.name == name and b.kind in kinds and (path is None or path in b.path)]


def one_fn(F, name, path=None):
    r = by_name(F, name, path)
    if len(r) != 1:
        raise Anchor("function %s (%s): %d matches" % (name, path, len(r)))
    return r[0]


def ids(F, *names):
    return {b.id for n in names for b in by_name(F, n)}


def result(v):
    """("ok"|"err"|"some"|"none"|None, payload) of a returned Result/Option term"""
    if v[0] == "agg" and v[1] == "std::result::Result":
        return ("ok", "err")[v[2]], (v[3][0] if v[3] else None)
    if v[0] == "agg" and v[1] == "std::option::Option":
        return ("none", "some")[v[2]], (v[3][0] if v[3] else None)
    return None, v


# calls that pass a value on unchanged (copies, views, conversions, fallible exact conversions, element-wise readers)
SAFE = {"to_vec", "to_owned", "into", "from", "clone", "cloned", "copied", "iter", "into_iter", "collect", "as_ref", "as_slice", "as_str",
        "as_bytes", "deref", "borrow", "index", "map", "parse", "parse_complete", "process", "many_m_n", "count", "u8", "u16", "u32", "u64", "i8", "i16", "i32",
        "f32", "f64", "be_u8", "be_u16", "be_u24", "be_u32", "be_u64", "le_u16", "le_u32", "be_i16", "be_i32", "le_i16", "le_i32",
        "try_into", "try_from", "unwrap", "expect", "chunks_exact", "array_chunks", "from_be_bytes", "from_le_bytes", "try_from_bytes",
        "first", "get", "ok_or", "ok_or_else", "map_err", "to_string", "with_capacity", "complete", "next", "ok", "push", "extend",
        "as_deref", "into_boxed_slice", "into_vec", "from_iter", "as_mut", "size_of", "new", "from_utf8", "into_string", "Some", "Ok"}


def unsafe_calls(t, extra=()):
    """names of calls in t that may change the value passed through them"""
    from terms import calls, cname
    return sorted({cname(c[1]) for c in calls(t) if cname(c[1]) not in SAFE and cname(c[1]) not in extra and not cname(c[1]).startswith("{closure")})


def partial_ranges(t):
    """range aggregates (other than `..`) used in t"""
    from terms import walk
    return [a for a in walk(t) if a[0] == "agg" and str(a[1]).startswith("std::ops::Range") and not a[1].endswith("RangeFull")]
