"""P17: typed accessors and conversions of entry values are exact or refuse."""
from table import Tab, k, isk, some, NONE
from terms import walk, contains, calls, cname, casts, ops, short, ARITH, int_fits
from rules import common as C
from model import Anchor

EV = "values::EntryValue"
AS = {"as_str": "Text", "as_u8": "U8", "as_i8": "I8", "as_u16": "U16", "as_i16": "I16", "as_u32": "U32", "as_i32": "I32",
      "as_u64": "U64", "as_i64": "I64", "as_f64": "F64", "as_f32": "F32", "as_urational": "URational", "as_irational": "IRational",
      "as_urational_slice": "URationalArray", "as_irational_slice": "IRationalArray", "as_u8_slice": "U8Array",
      "as_u16_slice": "U16Array", "as_u32_slice": "U32Array", "as_undefined": "Undefined"}
INTS = {"U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "I8": "i8", "I16": "i16", "I32": "i32", "I64": "i64"}
P = ("sym", "payload")


def rowset(T, b, arg, extra=()):
    return [(st, v) for st, v in T.run(b, [arg] + list(extra))]


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("decision tables of the EntryValue accessors, From/TryFrom conversions and Rational conversions: a value is handed out "
                "only by the accessor of its own variant, unchanged; widening is exact, anything else is refused")
    T = Tab(F, max_paths=300)
    adt = F.adt(EV)
    vs = adt["vs"]
    n = 0
    for m, want in AS.items():
        try:
            b = C.method(F, EV, m)
        except Anchor:
            if m == "as_f32":
                continue
            raise
        n += 1
        for i, v in enumerate(vs):
            for st, r in rowset(T, b, ("agg", EV, i, (P,))):
                if v["n"] == want:
                    good = r == some(P) or (r[0] == "agg" and r[2] == 1 and r[3] and is_view(r[3][0]))
                else:
                    good = r == NONE
                ctx.oblige(m, v["n"], good, "%s() of %s yields %s" % (m, v["n"], short(F, r)))
    ctx.floor("accessors", n, 18)
    # try_as_integer: exact for every integer variant, None otherwise
    b = C.method(F, EV, "try_as_integer")
    for i, v in enumerate(vs):
        rows = rowset(T, b, ("agg", EV, i, (P,)))
        for st, r in rows:
            if v["n"] not in INTS:
                good = r == NONE
            elif r == NONE:
                # refused: only allowed when the checked conversion failed
                good = not int_fits(INTS[v["n"]], "i64") and any(
                    x[0] == "disc" and contains(x, P) for x in st.cons)
            else:
                good = r[0] == "agg" and r[2] == 1 and exact_int(r[3][0], INTS[v["n"]], "i64")
            ctx.oblige("try_as_integer", v["n"], good, "try_as_integer() of %s yields %s" % (v["n"], short(F, r)))
        if v["n"] in INTS:
            ctx.oblige("try_as_integer", v["n"] + "-some", any(r != NONE for _, r in rows), "never yields a value")
    # try_as_float: exact source variant, None for non-numeric
    b = C.method(F, EV, "try_as_float")
    numeric = set(INTS) | {"F32", "F64", "URational", "IRational"}
    for i, v in enumerate(vs):
        for st, r in rowset(T, b, ("agg", EV, i, (P,))):
            if v["n"] not in numeric:
                ctx.oblige("try_as_float", v["n"], r == NONE, "try_as_float() of %s yields %s" % (v["n"], short(F, r)))
                continue
            if r == NONE:
                good = v["n"] == "U64" or v["n"] in ("URational", "IRational")
                if v["n"] in ("URational", "IRational"):
                    good = den_zero_known(st)
            else:
                x = r[3][0] if r[0] == "agg" and r[3] else None
                if v["n"] in ("URational", "IRational"):
                    good = x is not None and is_quotient(x) and den_nonzero_known(st)
                else:
                    good = x is not None and not ops(x, ARITH) and contains(x, P) and all(
                        c[3] == "f64" or int_like(c, INTS.get(v["n"])) for c in casts(x))
            ctx.oblige("try_as_float", v["n"], good, "try_as_float() of %s yields %s" % (v["n"], short(F, r)))
    # as_datetime keeps awareness
    b = C.method(F, EV, "as_datetime")
    edt = {v["n"]: i for i, v in enumerate(F.adt("values::ExifDateTime")["vs"])}
    for i, v in enumerate(vs):
        want = {"DateTime": some(("agg", "values::ExifDateTime", edt["Aware"], (P,))),
                "NaiveDateTime": some(("agg", "values::ExifDateTime", edt["Naive"], (P,)))}.get(v["n"], NONE)
        for st, r in rowset(T, b, ("agg", EV, i, (P,))):
            ctx.oblige("as_datetime", v["n"], r == want, "as_datetime() of %s yields %s" % (v["n"], short(F, r)))
    # From<T> for EntryValue wraps into the same-typed variant
    ty2v = {"u8": "U8", "u16": "U16", "u32": "U32", "u64": "U64", "i8": "I8", "i16": "I16", "i32": "I32", "i64": "I64",
            "f32": "F32", "f64": "F64", "std::string::String": "Text", "&str": "Text",
            "chrono::DateTime<chrono::FixedOffset>": "DateTime"}
    seen = 0
    for b in C.impl_fns(F, "std::convert::From", EV, "from"):
        at = F.types[b.locals[1]["ty"]]["s"]
        want = ty2v.get(at)
        if want is None:
            continue
        seen += 1
        for st, r in T.run(b, [P]):
            # `&str -> String -> EntryValue`: the inner conversion is the String impl checked here too
            ctx.oblige("from", at, (at == "&str" and r[0] == "from" and C.strip_cast_none(r) == P) or r[0] == "agg" and r[1] == EV and vs[r[2]]["n"] == want and C.strip_cast_none(r[3][0]) == P,
                       "EntryValue::from(%s) yields %s" % (at, short(F, r)))
    ctx.floor("from-impls", seen, 13)
    # IRational -> URational refuses negatives and is otherwise exact
    b = C.impl_fn(F, "std::convert::TryFrom", "values::Rational", "try_from")
    for st, r in T.run(b, [P]):
        nneg, dneg = sign(st, 0), sign(st, 1)
        if r[0] == "agg" and r[2] == 0:
            x = r[3][0]
            good = nneg is False and dneg is False and x[0] == "agg" and \
                [C.strip_cast(y) for y in x[3]] == [("fld", P, 0), ("fld", P, 1)]
        else:
            good = (nneg is True or dneg is True)
        ctx.oblige("urational-try-from", "%s%s" % (nneg, dneg), good,
                   "URational::try_from yields %s when numerator<0 is %s, denominator<0 is %s" % (short(F, r), nneg, dneg))
    # accessors of Rational and its float view
    for m, i in (("numerator", 0), ("denominator", 1)):
        for st, r in T.run(C.method(F, "values::Rational", m), [P]):
            ctx.oblige("rational", m, r == ("fld", P, i), "Rational::%s yields %s" % (m, short(F, r)))
    for st, r in T.run(C.method(F, "values::Rational", "new"), [("sym", "n"), ("sym", "d")]):
        ctx.oblige("rational", "new", r[0] == "agg" and r[3] == (("sym", "n"), ("sym", "d")), "Rational::new yields %s" % short(F, r))


def is_view(x):
    """the payload itself through identity views (as_slice, deref)"""
    return x == P or (x[0] == "call" and cname(x[1]) in ("as_slice", "as_str", "as_ref", "index", "clone", "as_bytes") and x[2] and x[2][0] == P)


def exact_int(x, src, dst):
    """x is the exact value of P (type src) in dst"""
    if x == P:
        return src == dst
    if x[0] == "cast":
        return x[2] == P and int_fits(src, x[3]) and x[3] == dst
    if x[0] == "from":
        return x[1] == P and int_fits(src, dst)
    if x[0] == "fld":   # payload of a checked conversion
        c = [c for c in calls(x)]
        return len(c) == 1 and cname(c[0][1]) in ("try_from", "try_into", "checked_into", "from") and c[0][2] == (P,)
    if x[0] == "call":
        return cname(x[1]) in ("from", "into") and x[2] == (P,) and int_fits(src, dst)
    return False


def int_like(c, src):
    return c[3] in ("i64", "i128", "u64") and src is not None and (int_fits(src, c[3]))


def is_quotient(x):
    d = ops(x, {"Div"})
    cl = calls(x)
    if len(d) == 1:
        return contains(d[0][2], ("fld", P, 0)) and not contains(d[0][2], ("fld", P, 1)) and contains(d[0][3], ("fld", P, 1)) \
            and not contains(d[0][3], ("fld", P, 0)) and not [o for o in ops(x, ARITH) if o[1] != "Div"]
    return len(cl) >= 1 and any(cname(c[1]) == "div" and contains(c[2][0], ("fld", P, 0)) and contains(c[2][1], ("fld", P, 1)) for c in cl) \
        and not ops(x, ARITH)


def _den_test(st):
    out = []
    for e, c in st.cons.items():
        if contains(e, ("fld", P, 1)) and not contains(e, ("fld", P, 0)):
            out.append((e, c))
    return out


def _truth(e, c):
    """is the tested expression an equality of the denominator with zero -> bool or None"""
    if e == ("fld", P, 1):
        if c[0] == "=":
            return c[1] == 0
        return False if 0 in c[1] else None
    eq = (e[0] == "call" and cname(e[1]) == "eq") or (e[0] == "op" and e[1] == "Eq")
    ne = (e[0] == "call" and cname(e[1]) == "ne") or (e[0] == "op" and e[1] == "Ne")
    if (eq or ne) and (any(cname(x[1]) in ("default", "zero") for x in calls(e)) or contains(e, k(0))):
        val = c[1] if c[0] == "=" else None
        if val is None:
            return None
        return bool(val) == eq
    return None


def den_zero_known(st):
    return any(_truth(e, c) is True for e, c in _den_test(st))


def den_nonzero_known(st):
    return any(_truth(e, c) is False for e, c in _den_test(st))


def sign(st, i):
    """truth of component i < 0 on this path, None if not tested"""
    f = ("fld", P, i)
    for e, c in st.cons.items():
        if e[0] == "op" and len(e) == 4 and e[2] == f and e[3] == k(0) and c[0] == "=":
            if e[1] == "Lt":
                return bool(c[1])
            if e[1] == "Ge":
                return not c[1]
        if e[0] == "op" and len(e) == 4 and e[3] == f and e[2] == k(0) and c[0] == "=":
            if e[1] == "Gt":
                return bool(c[1])
            if e[1] == "Le":
                return not c[1]
        if e[0] == "call" and cname(e[1]) == "is_negative" and e[2] == (f,) and c[0] == "=":
            return bool(c[1])
        if e[0] == "disc" and e[1][0] == "call" and cname(e[1][1]) in ("try_from", "try_into") and contains(e[1], f) and c[0] == "=":
            return c[1] == 1
    return None
