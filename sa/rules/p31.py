"""P31: IFD entry values decode to what the declared format, count and byte order say."""
from table import Tab, k, isk
from terms import walk, contains, calls, cname, casts, ops, short, ARITH, walk_skip
from rules import common as C
from model import Anchor

EV = "values::EntryValue"
DF = "values::DataFormat"
ED = "values::EntryData"
# TIFF 6.0 / Exif 2.3: format -> (code, component size, variants, native type)
FORMATS = {
    "U8": (1, 1, ("U8", "U8Array")), "Text": (2, 1, ("Text",)), "U16": (3, 2, ("U16", "U16Array")),
    "U32": (4, 4, ("U32", "U32Array")), "URational": (5, 8, ("URational", "URationalArray")), "I8": (6, 1, ("I8",)),
    "Undefined": (7, 1, ("Undefined",)), "I16": (8, 2, ("I16",)), "I32": (9, 4, ("I32",)),
    "IRational": (10, 8, ("IRational", "IRationalArray")), "F32": (11, 4, ("F32",)), "F64": (12, 8, ("F64",)),
}
NTYPE = {"U16": "u16", "U32": "u32", "I16": "i16", "I32": "i32", "F32": "f32", "F64": "f64", "U16Array": "u16", "U32Array": "u32"}
MULTI = set(NTYPE)
SCALAR_ONLY = {"I8", "I16", "I32", "F32", "F64"}
TWIST = {"swap_bytes", "to_be", "to_le", "from_be", "from_le", "reverse_bits", "rotate_left", "rotate_right", "reverse", "rev",
         "from_ne_bytes", "abs", "unsigned_abs", "wrapping_neg", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub",
         "skip", "take", "step_by", "sort", "dedup", "truncate", "pop", "filter", "filter_map", "min", "max", "clamp", "split_at", "trim",
         "to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase", "replace", "swap", "rotate", "sort_unstable"}
DATETAGS = {"DateTimeOriginal", "CreateDate", "ModifyDate"}


TEXT_OK = {"take_while", "skip_while", "from_utf8_lossy", "into_owned", "as_char", "unwrap_or_else", "position", "rposition", "split", "unwrap_or_default",
           "unwrap_or", "is_empty", "default"}


def C_nocnt(t, cnt):
    """t without conversions of the component count"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "cast" and t[2] == cnt:
        return ("k", "count")
    return tuple(C_nocnt(x, cnt) for x in t)


def reps(T, body, sym, extra_max):
    """representatives of every class of a u16/u32 argument that the body can tell apart"""
    cs = {0, 1, extra_max}
    for st, v in T.run(body, [("sym", sym)]):
        for e, c in st.cons.items():
            for t in walk(e):
                if t[0] == "k" and isinstance(t[1], int):
                    cs |= {t[1] - 1, t[1], t[1] + 1}
            vals = [c[1]] if c[0] == "=" else list(c[1])
            for x in vals:
                if isinstance(x, int):
                    cs |= {x - 1, x, x + 1}
    return sorted(x for x in cs if 0 <= x <= extra_max)


def formats(ctx, F):
    T = Tab(F)
    vs = F.adt(DF)["vs"]
    code = {v["n"]: int(v["d"]) for v in vs}
    ctx.floor("formats", len(vs), 12)
    for n, (cd, size, _) in FORMATS.items():
        ctx.oblige("format-code", n, code.get(n) == cd, "DataFormat::%s has code %s, the Exif standard says %d" % (n, code.get(n), cd))
        i = C.vidx(F, DF, n)
        for st, r in T.run(C.method(F, DF, "component_size"), [("agg", DF, i, ())]):
            ctx.oblige("component-size", n, r == k(size), "component_size of %s is %s, the standard says %d" % (n, short(F, r), size))
    b = C.impl_fn(F, "std::convert::TryFrom", DF, "try_from")
    for x in sorted(set(reps(T, b, "v", 65535)) | set(range(0, 15))):
        for st, r in T.run(b, [k(x)]):
            t, p = C.result(r)
            if t == "ok":
                got = p[1] if isk(p) else (int(vs[p[2]]["d"]) if p[0] == "agg" and p[1] == DF else None)
                if p[0] == "cast" and isk(p[2]):
                    got = p[2][1]
                ctx.oblige("format-from-code", str(x), got == x and 1 <= x <= 12, "format code %d decodes to %s" % (x, short(F, p)))
            else:
                ctx.oblige("format-from-code", str(x), t == "err" and not 1 <= x <= 12, "format code %d is rejected" % x)


def readers(ctx, F):
    T = Tab(F)
    n = 0
    for b in C.impl_fns(F, "values::TryFromBytes", None, "try_from_bytes"):
        ty = F.types[b.d["self"]]["s"]
        n += 1
        seen = set()
        for st, r in T.run(b, [("sym", "bs"), ("sym", "endian")]):
            e = st.known(("disc", ("sym", "endian"), None))
            for ex, c in st.cons.items():
                if ex[0] == "disc" and ex[1] == ("sym", "endian") and c[0] == "=":
                    e = c[1]
            t, p = C.result(r)
            if t == "err":
                short_ = [x for x, c in st.cons.items() if contains(x, ("sym", "bs"))]
                ctx.oblige("read-err", ty, bool(short_), "reading a %s fails without a length test" % ty)
                continue
            if t != "ok":
                ctx.oblige("read-total", "%s/%s" % (ty, e), e == 2, "reading a %s in byte order %s does not return" % (ty, e))
                continue
            be = [c for c in calls(p) if "_be_bytes" in c[1] or "be_" in cname(c[1])]
            le = [c for c in calls(p) if "_le_bytes" in c[1] or "le_" in cname(c[1])]
            if e is None:
                ctx.oblige("read-endian", ty, contains(p, ("sym", "endian")), "reading a %s ignores the byte order" % ty)
                seen |= {0, 1}
            else:
                seen.add(e)
                ctx.oblige("read-endian", "%s/%s" % (ty, e), (e == 0 and be and not le) or (e == 1 and le and not be),
                           "byte order %s of %s is read with %s" % ("Big" if e == 0 else "Little", ty, [cname(c[1]) for c in be + le]))
            for c in be + le:
                if "_bytes" in c[1]:
                    ctx.oblige("read-type", ty, ("impl %s>" % ty) in c[1], "%s is read through %s" % (ty, c[1]))
            bad = [cname(c[1]) for c in calls(p) if cname(c[1]) in TWIST] + [o[1] for o in ops(p, ARITH)] + ["as " + c[3] for c in casts(p)]
            ctx.oblige("read-exact", ty, not bad, "reading a %s transforms the bytes: %s" % (ty, bad))
            ctx.oblige("read-prefix", ty, contains(p, ("sym", "bs")) and at_offset(p, ("sym", "bs")) == 0,
                       "%s is not read from the start of its bytes: %s" % (ty, short(F, p)))
        ctx.oblige("read-orders", ty, {0, 1} <= seen, "only byte orders %s are implemented for %s" % (seen, ty))
    ctx.floor("readers", n, 6)
    # rationals: numerator first, denominator 4 bytes later
    b = C.one_fn(F, "decode_rational")
    T = Tab(F, opaque=C.ids(F, "try_from_bytes"))
    D = ("sym", "data")
    okp = 0
    for st, r in T.run(b, [D, ("sym", "endian")]):
        t, p = C.result(r)
        if t == "err":
            w = [c for c in calls(r) if cname(c[1]) == "try_from_bytes"] or any(e[0] == "op" and contains(e, ("len", D)) and contains(e, k(8)) for e in st.cons)
            ctx.oblige("rational-err", "witness", w, "decoding a rational fails without a short read: %s" % short(F, r))
            continue
        okp += 1
        good = p[0] == "agg" and len(p[3]) == 2
        if good:
            for i, part in enumerate(p[3]):
                c = [c for c in calls(part) if cname(c[1]) == "try_from_bytes"]
                good = len(c) == 1 and at_offset(c[0][2][0], D) == 4 * i and c[0][2][1] == ("sym", "endian") \
                    and not casts(part) and part == ("fld", ("as", c[0], 0), 0)
                ctx.oblige("rational-part", ("numerator", "denominator")[i], good,
                           "%s of a rational is %s" % (("numerator", "denominator")[i], short(F, part)))
        else:
            ctx.oblige("rational-part", "shape", False, "decode_rational yields %s" % short(F, p))
    ctx.oblige("rational-ok", "path", okp > 0)


def at_offset(t, base):
    """constant byte offset of slice term t within base; None if unknown"""
    if t == base:
        return 0
    if t[0] == "call":
        n = cname(t[1])
        if n in ("index", "get", "get_unchecked") and len(t[2]) == 2:
            o = at_offset(t[2][0], base)
            rg = t[2][1]
            if o is None:
                return None
            if rg[0] == "agg" and rg[1].startswith("std::ops::Range"):
                nm = rg[1].rsplit("::", 1)[-1]
                if nm in ("RangeTo", "RangeFull", "RangeToInclusive"):
                    return o
                if isk(rg[3][0]):
                    return o + rg[3][0][1]
            return None
        if n in ("try_into", "try_from", "from_be_bytes", "from_le_bytes", "as_ref", "as_slice", "first_chunk", "split_first_chunk",
                 "to_vec", "unwrap", "expect") and t[2]:
            return at_offset(t[2][0], base)
        if n in ("split_at", "split_at_checked"):
            return at_offset(t[2][0], base)
        for a in t[2]:
            if contains(a, base):
                return at_offset(a, base)
        return None
    if t[0] == "fld":
        # part 1 of split_at is the tail
        inner = t[1]
        if inner[0] == "fld" and inner[1][0] == "as":
            inner = inner[1][1]
        if inner[0] == "call" and cname(inner[1]) in ("split_at", "split_at_checked") and (t[1] is inner or t[1][0] == "fld"):
            o = at_offset(inner[2][0], base)
            if t[2] == 0:
                return o
            return o + inner[2][1][1] if o is not None and isk(inner[2][1]) else None
        return at_offset(t[1], base)
    if t[0] in ("as", "cast"):
        return at_offset(t[1] if t[0] == "as" else t[2], base)
    return None


def parse(ctx, F):
    b = C.method(F, EV, "parse")
    T = Tab(F, max_paths=6000, opaque=C.ids(F, "from_code", "try_from_bytes"))
    E = ("sym", "entry")
    f = {n: ("fld", E, C.fidx(F, ED, n)) for n in ("endian", "tag", "data", "data_format", "components_num")}
    data, cnt, endian, fmt = f["data"], f["components_num"], f["endian"], f["data_format"]
    vs = F.adt(EV)["vs"]
    tagadt = "exif::tags::ExifTag"
    datecodes = {int(v["d"]): v["n"] for v in F.adt(tagadt)["vs"] if v["n"] in DATETAGS}
    okv = {}
    rows = T.run(b, [E, ("sym", "tz")])
    ctx.floor("decode-paths", len(rows), 60)
    for st, r in rows:
        if r[0] == "diverge":
            if r[1] != "loop":
                ctx.oblige("decode-total", r[1], False, "decoding can diverge: %s" % r[1])
            continue
        t, p = C.result(r)
        empty = any(cname(e[1]) == "is_empty" and e[2] == (data,) and c == ("=", 1) for e, c in st.cons.items() if e[0] == "call") \
            or any(e == ("len", data) and c == ("=", 0) for e, c in st.cons.items())
        date = None
        for e, c in st.cons.items():
            if e[0] == "disc" and e[2] == tagadt and c[0] == "=" and c[1] in datecodes and \
                    any(cname(x[1]) == "from_code" and x[2] == (f["tag"],) for x in calls(e)):
                date = datecodes[c[1]]
        count = st.known(cnt)
        notone = st.cons.get(cnt) is not None and st.cons[cnt][0] == "!=" and 1 in st.cons[cnt][1]
        fs = C.known_disc(F, st, fmt, DF)
        if t == "err":
            wit = [c for c in calls(p) if cname(c[1]) in ("try_from_bytes", "parse", "parse_complete")]
            failed = [e for e, c in st.cons.items() if e[0] == "disc" and contains(e, data) and c == ("=", 1) and calls(e)
                      and cname(calls(e)[0][1]) in ("try_from_bytes", "parse", "parse_complete", "many_m_n", "get", "split_at_checked")]
            shortd = [e for e, c in st.cons.items() if e[0] == "op" and contains(e, data) and any(x[0] == "len" for x in walk(e))]
            good = empty or wit or failed or shortd or date or (notone and fs <= SCALAR_ONLY) or count == 0
            ctx.oblige("decode-err", "/".join(sorted(fs))[:60], good,
                       "a well-formed %s entry (count %s) is rejected: %s" % ("/".join(sorted(fs)), count if count is not None else "any", short(F, p)))
            continue
        if t != "ok" or p[0] != "agg" or p[1] != EV:
            ctx.oblige("decode-shape", short(F, r)[:60], False, "decoding yields %s" % short(F, r))
            continue
        vn = vs[p[2]]["n"]
        if vn in ("DateTime", "NaiveDateTime"):
            ctx.oblige("decode-date-tag", vn, date is not None, "a %s is produced for a tag that is not one of %s" % (vn, sorted(DATETAGS)))
            continue
        if date and not empty and count != 0:
            ctx.oblige("decode-date-tag", date, False, "tag %s decodes to %s" % (date, vn))
        for x in fs:
            ctx.oblige("decode-variant", x, vn in FORMATS[x][2], "format %s decodes to EntryValue::%s" % (x, vn))
        if len(fs) != 1:
            continue
        if count == 0 or empty:
            continue
        x = next(iter(fs))
        okv.setdefault(x, set()).add((vn, count))
        pay = p[3][0]
        # scalar only for count 1, array only for other counts
        if len(FORMATS[x][2]) == 2:
            lens = [(e, c) for e, c in st.cons.items() if e[0] == "len" and e != ("len", data)]
            one = count == 1 or any(c == ("=", 1) for e, c in lens)
            many = notone or any(c[0] == "!=" and 1 in c[1] for e, c in lens)
            ctx.oblige("decode-arity", vn, one if not vn.endswith("Array") else many,
                       "format %s decodes to %s although the count is %s" % (x, vn, "not known to be 1" if not vn.endswith("Array") else "not known to differ from 1"))
        # the payload
        evc = [(e[1], e[2]) for e in st.events if e[0] == "call"]
        terms = [pay] + ([("call", a, z, 0) for a, z in evc] if x in ("URational", "IRational") else [])
        if x not in ("URational", "IRational"):
            ctx.oblige("decode-source", vn, contains(pay, data), "%s does not come from the entry's data: %s" % (vn, short(F, pay)))
            bad = [o[1] for o in ops(pay, ARITH)]
            bad += ["as " + c[3] for c in casts(pay) if not (vn == "I8" and c[3] == "i8" and c[2] == ("idx", data, k(0)) or c[2] == cnt)]
            ctx.oblige("decode-exact", vn, not bad, "%s is computed with %s: %s" % (vn, bad, short(F, pay)))
            tw = C.unsafe_calls(pay, TEXT_OK if vn == "Text" else ())
            if C.partial_ranges(pay) and (vn.endswith("Array") or vn in ("Undefined", "Text") or at_offset(pay, data) != 0):
                tw.append("a sub-range of the data")
            ctx.oblige("decode-complete", vn, not tw, "%s goes through %s" % (vn, tw))
            if vn in ("U8", "I8"):
                s = C.strip_cast(pay)
                ctx.oblige("decode-first", vn, s in (("idx", data, k(0)), ("idx", data, 0)) or contains(s, data) and cname(calls(s)[0][1] if calls(s) else "") == "first",
                           "%s is not the entry's byte: %s" % (vn, short(F, pay)))
        if vn in MULTI:
            ctx.oblige("decode-endian", vn, contains(pay, endian), "%s ignores the byte order: %s" % (vn, short(F, pay)))
            rd = [c for c in calls(pay) if cname(c[1]) == "try_from_bytes"]
            for c in rd:
                ctx.oblige("decode-reader", vn, c[1].startswith("<%s as" % NTYPE[vn]) and c[2] == (data, endian),
                           "%s is read by %s(%s)" % (vn, c[1], short(F, c[2])))
            if vn.endswith("Array"):
                el = [c for c in calls(pay) if cname(c[1]) in ("u8", "u16", "u32", "u64", "i16", "i32", "be_u16", "le_u16", "be_u32", "le_u32")]
                for c in el:
                    ctx.oblige("decode-element", vn, cname(c[1]) == NTYPE[vn] and c[2] == (endian,), "elements of %s are read by %s(%s)" % (vn, cname(c[1]), short(F, c[2])))
                for c in calls(pay):
                    if cname(c[1]) in ("many_m_n", "count"):
                        ns = [C.strip_cast(a) for a in c[2] if contains(a, cnt) or isk(a)]
                        ctx.oblige("decode-count", vn, ns and all(n == cnt for n in ns), "%s reads %s elements" % (vn, short(F, c[2])))
        if x in ("URational", "IRational"):
            ctx.oblige("decode-complete", vn, not C.unsafe_calls(pay) and not casts(C_nocnt(pay, cnt)) , "%s goes through %s" % (vn, C.unsafe_calls(pay)))
            for tm in terms:
                for c in calls(tm):
                    if cname(c[1]) == "try_from_bytes" or (cname(c[1]) == "index" and c[2][0] == data):
                        for o in [o for a in c[2] for o in ops(a, ARITH)]:
                            ks = [y[1] for y in o[2:] if isk(y)]
                            nar = [y[3] for y in casts(o) if y[3] in ("u8", "u16", "i8", "i16", "i32")]
                            ctx.oblige("decode-stride-width", x, not nar, "the position of a rational component is narrowed to %s" % nar)
                            ctx.oblige("decode-stride", x, o[1] == "Mul" and ks == [8], "rational components are addressed by %s" % short(F, o))
                    if cname(c[1]) == "try_from_bytes":
                        ctx.oblige("decode-endian", x, c[2][1] == endian, "%s components are read in byte order %s" % (x, short(F, c[2][1])))
                        ctx.oblige("decode-rat-source", x, contains(c[2][0], data), "%s components do not come from the entry's data" % x)
            if vn in ("URational", "IRational"):
                cs = [c for c in calls(pay) if cname(c[1]) == "index"]
                for c in cs:
                    if not contains(c, data):
                        ctx.oblige("decode-rat-first", vn, c[2][1] == k(0), "%s is element %s" % (vn, short(F, c[2][1])))
    for x, (_, _, want) in FORMATS.items():
        got = {v for v, _ in okv.get(x, ())}
        ctx.oblige("decode-covers", x, got == set(want), "format %s can decode to %s only" % (x, sorted(got)))


def text(ctx, F):
    """ASCII values: the bytes between leading NULs and the first NUL after them"""
    for n in ("filter_zero",):
        for b in C.by_name(F, n, "values"):
            for cl in F.closures[b.id]:
                for st, v in Tab(F).run(cl, [("sym", "env")] + [("sym", "x")] * (cl.argc - 1)):
                    op = v if v[0] == "op" else None
                    good = op is not None and op[1] in ("Eq", "Ne") and set(op[2:]) == {("sym", "x"), k(0)}
                    ctx.oblige("text-nul", cl.path, good, "text is cut at %s instead of at NUL" % short(F, v))
    b = C.one_fn(F, "get_cstr", "values")
    for st, r in Tab(F).run(b, [("sym", "data")]):
        t, p = C.result(r)
        ctx.oblige("text-total", "get_cstr", t == "ok", "get_cstr fails on %s" % short(F, r))
        if p is None:
            continue
        bad = C.unsafe_calls(p, TEXT_OK)
        ctx.oblige("text-exact", "get_cstr", not bad and contains(p, ("sym", "data")), "text goes through %s" % bad)


def entry(ctx, F):
    """the 12-byte IFD entry is split into tag, format, count, value-or-offset in this order and byte order"""
    b = C.one_fn(F, "parse_tag_entry", "IfdIter")
    pe = C.one_fn(F, "parse_entry", "IfdIter")
    IT = "exif::exif_iter::IfdIter"
    S = ("sym", "self")
    endian = ("fld", ("fld", S, C.fidx(F, IT, "header")), C.fidx(F, "exif::exif_exif::TiffHeader", "endian"))
    T = Tab(F, max_paths=4000, opaque={pe.id} | C.ids(F, "from_code"))
    n = 0
    for st, r in T.run(b, [S, ("sym", "bytes")]):
        for e in st.events:
            if e[0] == "call" and cname(e[1]) == "parse_entry":
                n += 1
                args = e[2]
                tup = None
                for c in calls(args):
                    if c[2] and c[2][-1] == ("sym", "bytes") and c[2][0][0] == "agg":
                        tup = c[2][0][3]
                        src = c
                good = tup is not None and [cname(x[1]) for x in tup] == ["u16", "u16", "u32", "u32"] and all(x[2] == (endian,) for x in tup)
                ctx.oblige("entry-layout", "fields", good, "an IFD entry is read as %s" % (short(F, tup) if tup else "?"))
                if good:
                    val = lambda i: ("fld", ("fld", ("fld", ("as", src, 0), 0), 1), i)
                    got = [C.strip_cast(a) for a in args]
                    want = [S, val(0), val(1), val(2), ("sym", "bytes"), val(3)]
                    ctx.oblige("entry-layout", "order", got == want, "IFD entry fields are passed on as %s" % short(F, args)[:300])
    ctx.oblige("entry-layout", "decoded", n > 0, "parse_tag_entry never decodes an entry")
    # inline value iff it fits four bytes, otherwise at the offset
    T = Tab(F, max_paths=6000, opaque={C.method(F, EV, "parse").id} | C.ids(F, "from_code", "new_ifd_iter"))
    n = 0
    A = [S] + [("sym", x) for x in ("tag", "fmt", "cnt", "bytes", "off")]
    inp = ("fld", S, C.fidx(F, IT, "input"))
    for st, r in T.run(pe, A):
        ds = [x for x in walk(r) if x[0] == "agg" and x[1] == ED]
        for e in st.events:
            if e[0] == "call":
                ds += [x for x in walk(e[2]) if x[0] == "agg" and x[1] == ED]
        for d in ds:
            n += 1
            g = {fn: d[3][C.fidx(F, ED, fn)] for fn in ("endian", "tag", "data", "data_format", "components_num")}
            ctx.oblige("entry-data", "header", g["endian"] == endian and g["tag"] == ("sym", "tag") and g["data_format"] == ("sym", "fmt")
                       and g["components_num"] == ("sym", "cnt"), "entry data is built as %s" % short(F, d)[:300])
            sz = size_term(F, st, ("sym", "fmt"))
            x = g["data"]
            rg = [a for a in walk(x) if a[0] == "agg" and a[1] == "std::ops::Range"]
            le4 = inline_test(st, sz)
            good = False
            base, lo, hi = part(x)
            if base == ("sym", "bytes"):
                good = le4 is True and lo == [k(8)] and hi == sorted([k(8), sz], key=str)
            elif base == inp and len(rg) != 1:
                good = le4 is False and lo == [("sym", "off")] and hi == sorted([("sym", "off"), sz], key=str)
            elif contains(x, ("sym", "bytes")) and len(rg) == 1:
                good = le4 is True and rg[0][3][0] == k(8) and addends(rg[0][3][1]) == sorted([k(8), sz], key=str)
            elif contains(x, inp) and len(rg) == 1:
                good = le4 is False and C.strip_cast(rg[0][3][0]) == ("sym", "off") and \
                    [C.strip_cast(y) if y[0] == "cast" else y for y in addends(rg[0][3][1])] == sorted([("sym", "off"), sz], key=str)
            ctx.oblige("entry-bytes", "%s" % sorted(C.known_disc(F, st, ("sym", "fmt"), DF))[:1], good,
                       "value bytes of a %s entry: %s (inline test: %s)" % (sorted(C.known_disc(F, st, ("sym", "fmt"), DF)), short(F, x), le4))
    ctx.floor("entry-paths", n, 20)


def part(x):
    """(what, start, end) of a slice term, start and end as sorted summands (end None: to the end)"""
    nz = lambda ls: sorted((y for y in ls if y != k(0)), key=str)
    while x[0] in ("cast", "ref", "deref") and isinstance(x[-1], tuple):
        x = x[-1]
    c, i = x, None
    while c[0] in ("fld", "as"):
        i = c[2] if c[0] == "fld" and i is None else i
        c = c[1]
    if c[0] != "call" or len(c[2]) != 2:
        return x, [], None
    name, (b, r) = cname(c[1]), c[2]
    if name == "split_at" and x[0] == "fld" and x[1] == c:
        b, lo, hi = part(b)
        n = addends(r)
        return (b, lo, nz(lo + n)) if i == 0 else (b, nz(lo + n), hi)
    if name in ("index", "get") and r[0] == "agg" and (x == c or i == 0):
        b, lo, hi = part(b)
        if r[1] == "std::ops::Range":
            return b, nz(lo + addends(r[3][0])), nz(lo + addends(r[3][1]))
        if r[1] == "std::ops::RangeFrom":
            return b, nz(lo + addends(r[3][0])), hi
        if r[1] == "std::ops::RangeTo":
            return b, lo, nz(lo + addends(r[3][0]))
    return x, [], None


def addends(t):
    if t[0] == "op" and t[1] == "Add":
        return sorted((y for x in t[2:] for y in addends(x)), key=str)
    return [C.strip_cast(t) if t[0] == "cast" and t[2][0] == "sym" else t]


def size_term(F, st, fmt):
    ks = C.known_disc(F, st, fmt, DF)
    if len(ks) != 1:
        return None
    n = FORMATS[next(iter(ks))][1]
    return ("op", "Mul", ("cast", "IntToInt", ("sym", "cnt"), "usize"), k(n)) if True else None


def inline_test(st, sz):
    for e, c in st.cons.items():
        if e[0] == "op" and len(e) == 4 and c[0] == "=" and isk(e[3]) and _mul(e[2]) == _mul(sz):
            if e[1] == "Le" and e[3][1] == 4 or e[1] == "Lt" and e[3][1] == 5:
                return bool(c[1])
            if e[1] == "Gt" and e[3][1] == 4 or e[1] == "Ge" and e[3][1] == 5:
                return not c[1]
    return None


def _mul(t):
    if t is not None and t[0] == "op" and t[1] == "Mul":
        return ("mul",) + tuple(sorted((C.strip_cast(x) for x in t[2:]), key=str))
    return t


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("decision tables of EntryValue::parse, parse_tag_entry/parse_entry, TryFromBytes, decode_rational and DataFormat: on every path "
                "the variant, arity, source bytes, element type, byte order and offsets are those the entry's format/count/header prescribe")
    formats(ctx, F)
    readers(ctx, F)
    parse(ctx, F)
    text(ctx, F)
    entry(ctx, F)
