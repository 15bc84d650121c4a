"""helpers over decision-table terms"""


def walk(v):
    """all sub-terms"""
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if isinstance(x[0], str):
            yield x
            st.extend(y for y in x[1:] if isinstance(y, tuple))
        else:
            st.extend(y for y in x if isinstance(y, tuple))


def contains(v, sub):
    return any(x == sub for x in walk(v))


def ops(v, names=None):
    return [x for x in walk(v) if x[0] == "op" and (names is None or x[1] in names)]


def calls(v):
    return [x for x in walk(v) if x[0] == "call"]


def cname(p):
    return p.rsplit("::", 1)[-1]


def walk_skip(v, names):
    """sub-terms, not entering calls to the named functions"""
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if isinstance(x[0], str):
            if x[0] == "call" and cname(x[1]) in names:
                continue
            yield x
            st.extend(y for y in x[1:] if isinstance(y, tuple))
        else:
            st.extend(y for y in x if isinstance(y, tuple))


def casts(v):
    return [x for x in walk(v) if x[0] == "cast"]


def short(F, v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if not isinstance(v[0], str):
        return "[" + ",".join(short(F, x) for x in v) + "]"
    t = v[0]
    if t == "k":
        return repr(v[1])
    if t == "sym":
        return v[1]
    if t == "agg":
        a = F.adts.get(v[1])
        nm = v[1].rsplit("::", 1)[-1]
        if a and v[2] is not None:
            nm += "::" + a["vs"][v[2]]["n"]
        return nm + "(" + ",".join(short(F, x) for x in v[3]) + ")"
    if t == "call":
        return cname(v[1]) + "(" + ",".join(short(F, x) for x in v[2]) + ")"
    if t == "fld":
        return short(F, v[1]) + "." + str(v[2])
    if t == "as":
        return short(F, v[1]) + "@" + str(v[2])
    if t == "disc":
        return "disc(" + short(F, v[1]) + ")"
    if t == "op":
        return "(" + v[1] + " " + " ".join(short(F, x) for x in v[2:]) + ")"
    if t == "cast":
        return "cast<%s>(%s)" % (v[3], short(F, v[2]))
    return t + "(" + ",".join(short(F, x) if isinstance(x, tuple) else str(x) for x in v[1:]) + ")"


ARITH = {"Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Neg", "Not",
         "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked"}

INTBITS = {"u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "usize": (64, 0), "u128": (128, 0),
           "i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "isize": (64, 1), "i128": (128, 1)}


def int_fits(src, dst):
    """every value of integer type src is representable in dst"""
    if src == dst:
        return True
    a, b = INTBITS.get(src), INTBITS.get(dst)
    if not a or not b:
        return False
    if a[1] and not b[1]:
        return False
    if a[1] == b[1]:
        return a[0] <= b[0]
    return a[0] < b[0]


# ---- format strings
def fmt_parts(v):
    """flatten a formatted-string term into [text | (arg, flags, width, precision)]; None when the term is not one"""
    if v[0] == "call" and cname(v[1]) in ("must_use", "format", "to_string", "from", "into", "to_owned") and v[2]:
        return fmt_parts(v[2][0])
    if v[0] == "from":
        return fmt_parts(v[1])
    if v[0] == "k" and isinstance(v[1], str):
        return [v[1]]
    if v[0] == "call" and cname(v[1]) in ("new", "new_v1", "from_str", "new_const") and "Arguments" in v[1]:
        if v[2][0][0] == "k" and isinstance(v[2][0][1], str):
            return [v[2][0][1]]
        if v[2][0][0] != "agg":
            return None
        t = [x[1] for x in v[2][0][3]]
        args = v[2][1][3] if len(v[2]) > 1 and v[2][1][0] == "agg" else ()
        out, i, nxt = [], 0, 0
        while i < len(t):
            b = t[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out.append(bytes(t[i:i + b]).decode("utf8", "replace"))
                i += b
            elif b == 0x80:
                n = t[i] | t[i + 1] << 8
                out.append(bytes(t[i + 2:i + 2 + n]).decode("utf8", "replace"))
                i += 2 + n
            else:
                fl = w = p = None
                if b & 1:
                    fl = t[i] | t[i + 1] << 8 | t[i + 2] << 16 | t[i + 3] << 24
                    i += 4
                if b & 2:
                    w = t[i] | t[i + 1] << 8
                    i += 2
                if b & 4:
                    p = t[i] | t[i + 1] << 8
                    i += 2
                if b & 8:
                    nxt = t[i] | t[i + 1] << 8
                    i += 2
                a = args[nxt] if nxt < len(args) else ("unk", -1)
                nxt += 1
                kind = cname(a[1]) if a[0] == "call" else "?"
                a = a[2][0] if a[0] == "call" and a[2] else a
                sub = fmt_parts(a) if kind == "new_display" and fl is None and w is None and p is None else None
                if sub is not None:
                    out.extend(sub)
                else:
                    out.append((a, kind, fl, w, p))
        return merge_parts(out)
    if v[0] == "call" and cname(v[1]) in ("new", "default") and not v[2]:
        return []
    return None


def merge_parts(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


# ---- real-valued terms up to algebraic identity
def fl(n):
    import struct
    return struct.unpack("<d", struct.pack("<Q", n))[0] if n >= 1 << 52 else float(n)


def linear(t):
    """{atom: exact coefficient} of a float/integer term (atom None = constant); products of non-constants become atoms"""
    from fractions import Fraction as Q
    if t[0] == "k":
        try:
            return {None: Q(fl(t[1]))} if t[1] else {}
        except Exception:
            return {t: Q(1)}
    if t[0] in ("cast",):
        return linear(t[2])
    if t[0] == "from":
        return linear(t[1])
    if t[0] == "call" and cname(t[1]) in ("add", "sub", "mul", "div", "neg") and "ops::" in t[1]:
        return linear(("op", cname(t[1]).capitalize()) + tuple(t[2]))
    if t[0] == "op":
        if t[1] == "Neg":
            return {a: -c for a, c in linear(t[2]).items()}
        if t[1] in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
            r = dict(linear(t[2]))
            for a, c in linear(t[3]).items():
                r[a] = r.get(a, 0) + (c if t[1].startswith("Add") else -c)
            return {a: c for a, c in r.items() if c}
        if t[1] in ("Mul", "Div"):
            x, y = linear(t[2]), linear(t[3])
            if set(y) <= {None} and (y or t[1] == "Mul"):
                f = y.get(None, Q(0))
                if t[1] == "Mul":
                    return {a: c * f for a, c in x.items() if c * f}
                if f:
                    return {a: c / f for a, c in x.items()}
            if t[1] == "Mul" and set(x) <= {None}:
                f = x.get(None, Q(0))
                return {a: c * f for a, c in y.items() if c * f}
            return {(t[1], frz(x), frz(y)): Q(1)}
    if t[0] == "call" and cname(t[1]) == "mul_add" and len(t[2]) == 3:
        return linear(("op", "Add", ("op", "Mul", t[2][0], t[2][1]), t[2][2]))
    if t[0] == "call" and cname(t[1]) in ("abs", "trunc", "round", "floor", "ceil", "fract") and len(t[2]) == 1:
        n = cname(t[1])
        if n == "fract":
            x = linear(t[2][0])
            r = dict(x)
            r[("trunc", frz(x))] = r.get(("trunc", frz(x)), 0) - 1
            return r
        return {(n, frz(linear(t[2][0]))): Q(1)}
    return {t: Q(1)}


def frz(d):
    return tuple(sorted(((str(a), c) for a, c in d.items()), key=lambda x: x[0]))
