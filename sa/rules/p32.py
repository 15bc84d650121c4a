"""P32: track metadata of an MP4/QuickTime file is what its moov box says."""
from table import k, isk, State, NONE, some
from rules import common as C
from rules.p36 import names, fields, split, Rows, reader, full, many_of, count_ok, selfty, OKP, rdat
from terms import walk
from maps import Maps, lst
from world import World, Walker, HB, BH, BASE, HEADER
import layout as Y
import lin as L

MV, TK = "bbox::mvhd::MvhdBox", "bbox::tkhd::TkhdBox"
KB, KE = "bbox::keys::KeysBox", "bbox::keys::KeyEntry"
IB, IT = "bbox::ilst::IlstBox", "bbox::ilst::IlstItem"
TAG, EV = "video::TrackInfoTag", "values::EntryValue"
UNDER = ("from",)


def rec(F, adt, **kw):
    return ("agg", adt, None, tuple(kw.get(n, ("sym", "%s.%s" % (adt.rsplit("::", 1)[-1], n))) for n in names(F, adt)))


def ev(F, name, *xs):
    return ("agg", EV, C.vidx(F, EV, name), tuple(xs))


def tag(F, name):
    return ("agg", TAG, C.vidx(F, TAG, name), ())


def last(t):
    return t[1].rsplit("::", 1)[-1] if t[0] == "call" and isinstance(t[1], str) else None


def core(t, widths=("u64", "u128", "i64", "i128")):
    """a number behind lossless conversions"""
    while True:
        if t[0] == "from":
            t = t[1]
        elif t[0] == "cast" and t[1] == "IntToInt" and t[3] in widths:
            t = t[2]
        elif t[0] == "fld" and t[1][0] == "as" and last(t[1][1]) in ("try_from", "try_into"):
            t = t[1][1][2][0]
        elif t[0] == "call" and last(t) in ("from", "into") and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "lin" or t[0] == "num":
            return t
        else:
            return t


def ratio(t, num, den):
    """whether t is num * 1000 / den in whole numbers"""
    t = core(t)
    if t[0] == "fld" and t[1][0] == "as" and last(t[1][1]) == "checked_div":
        a, b = t[1][1][2]
    elif t[0] == "op" and t[1] == "Div":
        a, b = t[2:]
    else:
        return False
    a = core(a)
    if a[0] == "fld" and a[1][0] == "as" and last(a[1][1]) == "checked_mul":
        f = a[1][1][2]
    elif a[0] == "call" and last(a) == "saturating_mul":
        f = a[2]
    elif a[0] == "op" and a[1] == "Mul":
        f = a[2:]
    else:
        return False
    return core(b) == den and {core(f[0]), core(f[1])} == {num, k(1000)}


def is_duration(T, st, v, m):
    """the duration in milliseconds, rounded down; a constant only where the quotient does not exist or does not fit"""
    num, den = m["duration"], m["time_scale"]
    if v[0] == "agg" and v[1] == EV and len(v[3]) == 1:
        v = v[3][0]
    if ratio(v, num, den):
        return True
    if not isk(core(v)):
        return False
    for e, c in st.cons.items():
        if not isinstance(e, tuple) or not e:
            continue
        if e[0] == "disc" and last(e[1]) == "checked_div" and c == ("=", 0) and core(e[1][2][1]) == den:
            return True
        if e[0] == "disc" and last(e[1]) in ("try_from", "try_into") and c == ("=", 1):
            return True
        if core(e) == den and c == ("=", 0):
            return True
        if e[0] == "op" and e[1] in ("Eq", "Ne") and c[0] == "=" and k(0) in e[2:] and den in [core(x) for x in e[2:]] and bool(c[1]) == (e[1] == "Eq"):
            return True
    return False


def is_date(T, st, v, m):
    """creation_time seconds after the start of 1904, in UTC"""
    if not (v[0] == "agg" and v[1] == EV and len(v[3]) == 1):
        return False
    cs = {}
    for x in walk(v[3][0]):
        if isinstance(x, tuple) and x and x[0] == "call":
            cs.setdefault(last(x), set()).add(x[2])
    ymd, hms = cs.pop("from_ymd_opt", set()), cs.pop("and_hms_opt", set())
    secs = cs.pop("seconds", set()) | cs.pop("try_seconds", set())
    utc = [n for n in ("and_utc", "from_utc_datetime") if cs.pop(n, None)]
    add = [n for n in ("add", "checked_add_signed") if cs.pop(n, None)]
    cs.pop("fixed_offset", None), cs.pop("into", None), cs.pop("from", None)
    return ymd == {(k(1904), k(1), k(1))} and {h[-3:] for h in hms} == {(k(0), k(0), k(0))} and len(secs) == 1 and core(list(secs)[0][0]) == m["creation_time"] \
        and bool(utc) and bool(add) and not cs


# ---- layouts
def layouts(ctx, F):
    n = 0
    for name, adt, want in (("mvhd", MV, {0: (("creation_time", 0, 4), ("modification_time", 4, 4), ("time_scale", 8, 4), ("duration", 12, 4), ("next_track_id", 92, 4), 96),
                                          1: (("creation_time", 0, 8), ("modification_time", 8, 8), ("time_scale", 16, 4), ("duration", 20, 8), ("next_track_id", 104, 4), 108)}),
                            ("tkhd", TK, {0: (("width", 72, 2), ("height", 76, 2), 80), 1: (("width", 84, 2), ("height", 88, 2), 92)})):
        b = C.impl_fn(F, "bbox::ParseBody", adt, "parse_body")
        for ver, fs in want.items():
            T = reader(F)
            x = T.input("in")
            R = Rows(ctx, F, T, "layout", "%s v%d" % (name, ver), x[1], L.const(0))
            some_ok = False
            for st, v in T.walk(b, [x, full(F, ver)], State(), 0, ()):
                t, rest, o = split(T, v)
                if t == "ok":
                    some_ok = True
                    f = fields(F, o, adt)
                    for nm, off, w in fs[:-1]:
                        if nm not in f:
                            if nm in ("modification_time", "next_track_id"):
                                continue
                            R.say(nm, False, "the box has no %s" % nm)
                            continue
                        g = f[nm]
                        while g[0] == "fld" and g[1][0] == "as" and last(g[1][1]) in ("try_from", "try_into"):
                            g = g[1][1][2][0]
                        R.num(nm, g, off, w)
                        n += 1
                elif t == "err":
                    fit = any(isinstance(e, tuple) and e and e[0] == "disc" and last(e[1]) in ("try_from", "try_into") and c == ("=", 1) for e, c in st.cons.items())
                    R.say("refused", fit or Y.needs(T, st, L.const(fs[-1])), "a complete box is refused")
            R.say("accepted", some_ok, "no box is accepted")
    ctx.floor("movie and track header fields", n, 12)


def keys(ctx, F):
    b = C.impl_fn(F, "bbox::ParseBody", KB, "parse_body")
    T = reader(F)
    x = T.input("in")
    R = Rows(ctx, F, T, "keys", "keys", x[1], L.const(0))
    done = None
    for st, v in T.walk(b, [x, full(F, 0)], State(), 0, ()):
        t, rest, o = split(T, v)
        if t != "ok":
            continue
        f = fields(F, o, KB)
        m = many_of(T, f["entries"])
        r = T.repeats.get(m[0]) if m and m[1] is None else None
        R.say("entries", r, "the keys are not the entries read")
        if not r:
            continue
        done = r
        R.say("count", count_ok(T, r, x[1], 0, 4), "the number of keys is not the 4-byte count")
        s = T.start(r[2])
        R.say("first", s[0] == 4 and len(s[1]) <= 1, "the first key does not follow the count")
    R.say("accepted", done, "no keys box is accepted")
    if not done:
        return
    n = 0
    for st, v in done[3]:
        t, rest, o = split(T, v)
        if t != "ok":
            continue
        n += 1
        base, s = x[1], T.start(done[2])
        f = fields(F, o, KE)
        src = [y for y in walk(f["key"]) if isinstance(y, tuple) and y and T.slc(y) is not None and y[0] == "slc"]
        size = None
        for y in src:
            d = L.sub(T.end(T.slc(y)), s)
            size = d
        ok = bool(src) and all(T.slc(y)[1] == base and L.sub(T.start(T.slc(y)), s) in (L.const(4), L.const(8)) for y in src)
        R.say("text", ok, "a key is not read from the bytes behind its size")
        if ok:
            rd = [T.lt.term[a] for a, c in size[1] if c == 1 and T.lt.term[a][0] == "rd"]
            R.say("size", size[0] == 0 and len(size[1]) == 1 and len(rd) == 1 and Y.is_read(T, rd[0], base, s, 4), "a key does not end where its 4-byte size says")
            skip = [y for y in walk(f["key"]) if isinstance(y, tuple) and y and last(y) == "skip"]
            ns = {last(y) for y in walk(f["key"]) if isinstance(y, tuple) and y and y[0] == "call"} - {None}
            R.say("exact", ns <= {"from_utf8", "to_vec", "to_owned", "to_string", "into", "from", "chars", "skip", "collect", "from_iter", "into_owned", "clone", "get", "index",
                                  "unwrap_or_default", "as_str"}, "a key is not all of the text behind its namespace")
            st4 = all(L.sub(T.start(T.slc(y)), s) == L.const(8) for y in src)
            R.say("key", st4 and not skip or len(skip) == 1 and skip[0][2][1] == k(4) and not st4, "a key does not begin behind its namespace")
            R.rest("rest", rest, L.add(s, size)) if False else R.say("rest", L.sub(T.start(T.slc(rest)), s) == size, "the next key is not looked for behind this one")
    ctx.floor("key entries", n, 1)


# ---- item values
def items(ctx, F):
    b = C.method(F, IT, "parse")
    T = reader(F)
    x = T.input("in")
    rows = list(T.walk(b, [x], State(), 0, ()))
    base = x[1]
    at = {n: rdat(o, w) for n, o, w in (("size", 0, 4), ("len", 8, 4), ("code", 17, 3))}
    INT = {21: {1: "I8", 2: "I16", 3: "I32", 4: "I32", 8: "I64"}, 22: {1: "U8", 2: "U16", 3: "U32", 4: "U32", 8: "U64"}}
    codes = sorted({c for c in Y.consts(T, rows, at["code"]) if c < 1 << 24} | {0, 1, 2, 13, 14, 21, 22, 23, 24, 25, 27, 65, 0xffffff})
    judged = 0
    for code in codes:
        for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 100):
            if code in (23, 24) and n not in (4, 8) or code == 23 and n == 8 or code == 24 and n == 4:
                continue            # not a float of its type's width: either reading is allowed
            for size, ln in [(n + 24, n + 16)] + ([(n + 25, n + 16), (n + 24, n + 17), (23, 15)] if code in (1, 22) and n in (0, 4) else []):
                def asg(t):
                    for nm, v in (("size", size), ("len", ln), ("code", code)):
                        if at[nm](t):
                            return v
                    return None
                R = Rows(ctx, F, T, "item", "ilst item type=%d bytes=%d size=%d data=%d" % (code, n, size, ln), base, L.const(0))
                good = size - 24 == ln - 16 and size >= 24
                known = code == 1 or n in INT.get(code, ()) or (code, n) in ((23, 4), (24, 8))
                got = set()
                for st, v in rows:
                    if not Y.admits(T, st, asg):
                        continue
                    # the data is as long as its size says: a path on which a read inside it fails is not one of these
                    t, rest, o = split(T, v)
                    m = marker(T, st, base)
                    if m is False:
                        R.say("marker", t != "ok" or o == NONE, "something else than a data atom is taken for one")
                        continue
                    if t == "ok":
                        judged += 1
                        R.say("marker", m, "the data atom's type is not looked at")
                        R.say("accepted", good, "an item whose sizes disagree is accepted")
                        if not good:
                            continue
                        e = Y.val_lin(T, T.start(T.slc(rest)), asg)
                        R.say("rest", e == 24 + n, "the next item is not looked for behind this one")
                        f = None
                        if o[0] == "agg" and o[1] == "std::option::Option":
                            f = fields(F, o[3][0], IT) if o[2] == 1 else None
                        elif o[0] == "agg" and o[1] == IT:
                            f = fields(F, o, IT)
                        if f is None:
                            bad_text = code == 1 and any(isinstance(c, tuple) and c and c[0] == "disc" and last(c[1]) in ("from_utf8", "to_owned") and w == ("=", 1) for c, w in st.cons.items())
                            got.add("none")
                            R.say("dropped", not known or bad_text or not fits(T, st, asg, 24 + n), "the value of a supported item is dropped")
                            continue
                        got.add("some")
                        R.say("kept", known, "an item of an unsupported type gets a value")
                        R.num("index", f["index"], 4, 4)
                        if known:
                            R.say("value", item_value(T, F, f["value"], base, code, n, INT, asg), "the value is not the %d bytes of data decoded as type %d" % (n, code))
                    elif t == "err" and good:
                        R.say("refused", short(T, st, asg, 24 + n), "a complete item is refused")
                R.say("reachable", not good or got, "no item of this size and type is accepted")
                R.say("supported", not (good and known) or "some" in got, "an item of a supported type never gets a value")
    ctx.floor("items judged", judged, 100)
    # the list keeps every item that has a value
    T = Maps(F, {b.id: lambda T, c, a, st: [(st, T.nom_ok(("sym", "rest"), ("sym", "opt")))]}, max_paths=2000, depth=14)
    for st, v in T.walk(C.method(F, IB, "parse_box"), [T.input("in")], State(), 0, ()):
        t, rest, o = split(T, v)
        if t == "ok":
            it = fields(F, o, IB)["items"]
            ns = {last(y) for y in walk(it) if isinstance(y, tuple) and y and y[0] == "call"} - {None}
            ctx.oblige("item", "list", any(isinstance(y, tuple) and y and y[0] == "manyv" for y in walk(it)) and ns <= {"into_iter", "flatten", "collect", "filter_map", "from_iter"},
                       "the items of an item list are not those read")


def marker(T, st, base):
    """whether the path knows bytes 12..16 to be / not to be 'data'"""
    for e, c in st.cons.items():
        if not isinstance(e, tuple) or not e:
            continue
        x, w = e, None
        if e[0] == "op" and e[1] in ("Eq", "Ne") and len(e) == 4:
            x, w = (e[2], e[3]) if not isk(e[2]) else (e[3], e[2])
            w = w == k(b"data") and c[0] == "=" and ((e[1] == "Eq") == bool(c[1]))
            if k(b"data") not in e[2:]:
                continue
        elif c[1] == b"data" or c[0] == "!=" and b"data" in c[1]:
            w = c[0] == "="
        else:
            continue
        s = T.slc(x)
        if s is not None and s[1] == base and T.start(s) == L.const(12) and T.end(s) == L.const(16):
            return w
    return None


def fits(T, st, asg, end):
    return not short(T, st, asg, end)


def short(T, st, asg, end):
    """whether the path is one on which the input ends before `end`"""
    for e, c in st.cons.items():
        if isinstance(e, tuple) and e and e[0] == "op" and Y.lens(T, e) and e[1] in ("Ge", "Lt", "Gt", "Le"):
            q = e[2]
            if q[0] != "lin":
                continue
            s = q[1][0]
            known = True
            for a, cf in q[1][1]:
                t = T.lt.term[a]
                if t[0] == "len":
                    s += cf * end
                else:
                    v = Y.val(T, t, asg)
                    if v is None:
                        known = False
                        break
                    s += cf * v
            if known and isk(e[3]):
                full_ = {"Ge": s >= e[3][1], "Lt": s < e[3][1], "Gt": s > e[3][1], "Le": s <= e[3][1]}[e[1]]
                if c[0] == "=" and bool(c[1]) != full_:
                    return True
    return False


def item_value(T, F, v, base, code, n, INT, asg):
    if code == 1:
        if v[0] != "agg" or v[2] != C.vidx(F, EV, "Text"):
            return False
        src = [T.slc(y) for y in walk(v) if isinstance(y, tuple) and y and y[0] == "slc"]
        ns = {last(y) for y in walk(v) if isinstance(y, tuple) and y and y[0] == "call"} - {None}
        return bool(src) and all(s[1] == base and T.start(s) == L.const(24) and Y.val_lin(T, T.end(s), asg) == 24 + n for s in src) and "from_utf8" in ns and ns <= {"from_utf8", "to_vec", "to_owned", "to_string", "from", "into"}
    if code in INT:
        want = INT[code][n]
        if v[0] == "agg" and v[1] == EV:
            if v[2] != C.vidx(F, EV, want):
                return False
            v = v[3][0]
        else:
            while v[0] in ("from", "into"):
                v = v[1]
            w = width_of(v)
            if w is not None and w.upper() != want:
                return False
        while v[0] == "cast" and v[1] == "IntToInt":
            v = v[2]
        r = Y.read(T, v)
        if r is None or r[3] != base or r[4] != L.const(24) or r[1] != n or n > 1 and r[0] != "be":
            return False
        return n == 1 or (r[2] == "i") == (code == 21)
    r = [y for y in walk(v) if isinstance(y, tuple) and y and y[0] == "rd"]
    return len(r) >= 1 and all(y[1] == "be" and y[2] == n and y[3] == "f" and y[4] == base and T.lt.lin(y[5]) == L.const(24) for y in r)


def width_of(v):
    if v[0] == "cast":
        return v[3]
    if v[0] == "rd" and v[3] in "ui":
        return v[3] + str({3: 32}.get(v[2], 8 * v[2]))
    return None


# ---- what the moov box gives
SRC = {"com.apple.quicktime.make": "Make", "com.apple.quicktime.model": "Model", "com.apple.quicktime.software": "Software",
       "com.apple.quicktime.author": "Author", "com.apple.quicktime.location.ISO6709": "GpsIso6709"}
DATE = "com.apple.quicktime.creationdate"
HV, HS = b"\0" * 8 + b"vide" + b"\0" * 12, b"\0" * 8 + b"soun" + b"\0" * 12


def scenarios(F):
    """(name, boxes, keys, items, broken boxes, expected {tag: what})"""
    V = lambda i: ("sym", "val%d" % i)
    txt = ev(F, "Text", ("sym", "text"))
    mv, trak = ("mvhd", 100), lambda h: ("trak", [("tkhd", 84), ("edts", 16), ("mdia", [("mdhd", 24), ("hdlr", h)])])
    meta = ("meta", [("hdlr", 24), ("keys", 30), ("ilst", 40)])
    M = {"DurationMs": ("dur",), "CreateDate": ("date",)}
    dim = lambda p: {"Width": ("w", p), "Height": ("h", p)}
    yield "empty", [], [], [], (), {}
    yield "wide boxes", [("+free", 8), ("+mvhd", 100), ("+trak", [("+tkhd", 84), ("+mdia", [("+hdlr", HV)])]), ("+udta", [("+©xyz", 20)]), ("+meta", [("+keys", 30), ("+ilst", 40)])], \
        list(SRC)[:1], [(1, V(1))], (), {**M, **dim("trak#0/tkhd#0"), "Make": ("is", V(1)), "GpsIso6709": ("latin1", "udta#0/©xyz#0", 4)}
    yield "unrelated boxes", [("free", 8), ("iods", 12)], [], [], (), {}
    yield "mvhd", [mv], [], [], (), M
    yield "mvhd behind others", [("free", 8), trak(HS), mv], [], [], (), M
    yield "unreadable mvhd", [mv, trak(HV)], [], [], ("mvhd#0",), dim("trak#0/tkhd#0")
    yield "video track", [mv, trak(HV)], [], [], (), {**M, **dim("trak#0/tkhd#0")}
    yield "video behind audio", [mv, trak(HS), trak(HV), trak(HV)], [], [], (), {**M, **dim("trak#1/tkhd#0")}
    yield "audio only", [mv, trak(HS)], [], [], (), M
    yield "track without handler", [("trak", [("tkhd", 84)]), ("trak", [("mdia", [("minf", 8)])]), trak(HV)], [], [], (), dim("trak#2/tkhd#0")
    yield "short handler", [("trak", [("tkhd", 84), ("mdia", [("hdlr", b"\0" * 8 + b"vid")])]), trak(HV)], [], [], (), dim("trak#1/tkhd#0")
    yield "broken track", [("trak", [("bad!", 4)]), trak(HV)], [], [], (), dim("trak#1/tkhd#0")
    yield "video track without tkhd", [mv, ("trak", [("mdia", [("hdlr", HV)])])], [], [], (), M
    yield "unreadable tkhd", [mv, trak(HV)], [], [], ("trak#0/tkhd#0",), M
    for key, t in SRC.items():
        yield key, [meta, mv], [key], [(1, V(1))], (), {**M, t: ("is", V(1))}
    yield "items by index", [meta], list(SRC)[:4], [(4, V(4)), (2, V(2)), (1, V(1))], (), {"Make": ("is", V(1)), "Model": ("is", V(2)), "Author": ("is", V(4))}
    yield "indexes out of range", [mv, meta], list(SRC)[:2], [(0, V(0)), (3, V(3)), (2, V(2)), (0xffffffff, V(9))], (), {**M, "Model": ("is", V(2))}
    yield "unknown keys", [meta], ["com.apple.quicktime.content.identifier", "com.apple.quicktime.make", "com.android.version"], [(1, V(1)), (2, V(2)), (3, V(3))], (), {"Make": ("is", V(2))}
    yield "creation date key", [mv, meta], [DATE], [(1, txt)], (), {**M, "CreateDate": ("text-date", ("sym", "text"), True)}
    yield "creation date key alone", [meta], [DATE], [(1, txt)], (), {"CreateDate": ("text-date", ("sym", "text"), False)}
    yield "creation date of another type", [mv, meta], [DATE], [(1, ev(F, "U32", ("sym", "n")))], (), M
    yield "meta without keys", [mv, ("meta", [("ilst", 40)])], [], [(1, V(1))], (), M
    yield "meta without items", [mv, ("meta", [("keys", 40)])], list(SRC), [], (), M
    yield "unreadable keys", [mv, meta], list(SRC), [(1, V(1))], ("meta#0/keys#0",), M
    yield "unreadable items", [mv, meta], list(SRC), [(1, V(1))], ("meta#0/ilst#0",), M
    yield "udta location", [mv, ("udta", [("©xyz", 20)])], [], [], (), {**M, "GpsIso6709": ("latin1", "udta#0/©xyz#0", 4)}
    yield "udta location too short", [mv, ("udta", [("©xyz", 4)])], [], [], (), M
    yield "udta author", [mv, ("udta", [("auth", 20)])], [], [], (), {**M, "Author": ("utf8", "udta#0/auth#0")}
    yield "udta others", [mv, ("udta", [("name", 9), ("©mak", 12), ("©xyz", 20), ("hinf", 9)])], [], [], (), {**M, "GpsIso6709": ("latin1", "udta#0/©xyz#0", 4)}
    yield "udta and keys", [("udta", [("©xyz", 20)]), mv, meta], list(SRC)[:2], [(1, V(1)), (2, V(2))], (), {**M, "Make": ("is", V(1)), "Model": ("is", V(2)), "GpsIso6709": ("latin1", "udta#0/©xyz#0", 4)}
    yield "all", [mv, trak(HS), trak(HV), ("udta", [("auth", 12), ("©xyz", 18)]), meta], [DATE] + list(SRC)[:3], [(2, V(2)), (3, V(3)), (4, V(4)), (1, txt)], (), \
        {**M, **dim("trak#1/tkhd#0"), "Make": ("is", V(2)), "Model": ("is", V(3)), "Software": ("is", V(4)), "CreateDate": ("text-date", ("sym", "text"), True),
         "GpsIso6709": ("latin1", "udta#0/©xyz#0", 4), "Author": ("utf8", "udta#0/auth#0")}
    yield "broken box at the end", [mv, trak(HV), meta, ("bad!", 4)], ["com.apple.quicktime.make"], [(1, V(1))], (), {**M, **dim("trak#0/tkhd#0"), "Make": ("is", V(1))}


def moov(ctx, F):
    entry = C.one_fn(F, "parse_isobmff", "mov::parse_isobmff")
    PB = [b for b in F.bodies.values() if b.path == "<T as bbox::ParseBox<O>>::parse_box"]
    ilp = C.method(F, IB, "parse_box")
    total = 0
    for name, boxes, ks, its, broken, want in scenarios(F):
        W = World(boxes)
        probs = []

        def at(T, a, ty):
            w = T.where(a)
            if w is None or W.at.get(w[0], (None,))[0] != ty or w[1] != w[0] + W.at[w[0]][1]:
                probs.append("the %s box is read from another place" % ty)
                return None
            return w[0]

        def bad(off):
            return any(W.path[p] == off for p in broken)

        def pb(T, c, a, st):
            s = selfty(F, c).rsplit("::", 1)[-1]
            ty = {"MvhdBox": "mvhd", "TkhdBox": "tkhd", "KeysBox": "keys"}.get(s)
            o = at(T, a[0], ty)
            err = [(st, ("agg", OKP, 1, (("sym", "bad body"),)))]
            if o is None or bad(o):
                return err
            if ty == "keys":
                v = rec(F, KB, entries=lst([rec(F, KE, key=k(x)) for x in ks]))
            else:
                v = rec(F, MV if ty == "mvhd" else TK, **{n: ("sym", "%s@%d.%s" % (ty, o, n)) for n in names(F, MV if ty == "mvhd" else TK)})
            return [(st, T.nom_ok(("sym", "rest"), v))]

        def il(T, c, a, st):
            o = at(T, a[0], "ilst")
            if o is None or bad(o):
                return [(st, ("agg", OKP, 1, (("sym", "bad body"),)))]
            return [(st, T.nom_ok(("sym", "rest"), rec(F, IB, items=lst([rec(F, IT, index=k(i), value=v) for i, v in its]))))]
        T = Walker(F, W, {PB[0].id: pb, ilp.id: il})
        say = lambda key, cond, text: ctx.oblige("moov", "%s/%s" % (name, key), bool(cond), None if cond else "moov with %s: %s" % (name, text))
        seen = 0
        for st, v in T.walk(entry, [W.whole()], State(), 0, ()):
            if not T.possible(st) or v[0] == "diverge":
                continue
            t, p = C.result(v)
            if t != "ok":
                say("refused", False, "parsing fails")
                continue
            f = fields(F, p, "video::TrackInfo")
            m = f and f["entries"]
            if not m or m[0] != "map":
                say("known", False, "what is reported cannot be told from the boxes")
                continue
            seen += 1
            total += 1
            have = {F.adt(TAG)["vs"][y[2]]["n"]: z for y, z in m[1] if y[0] == "agg" and y[1] == TAG}
            say("tags", len(have) == len(m[1]), "an entry is reported under a tag that depends on more than the boxes")
            for tg in have:
                say("extra " + tg, tg in want, "a %s is reported that no box gives" % tg)
            for tg, how in want.items():
                say(tg, judge(T, F, st, W, how, have.get(tg)), "the %s reported is not the one its box gives" % tg)
        say("read", not probs, probs[0] if probs else "")
        say("reachable", seen, "no result")
    ctx.floor("scenarios judged", total, 40)


def judge(T, F, st, W, how, v):
    kind = how[0]
    cons = [(e, c) for e, c in st.cons.items() if isinstance(e, tuple) and e]
    if kind == "text-date":
        # the text is a date or it is not, and the path says which
        for e, c in cons:
            if e[0] == "disc" and e[1][0] == "call" and "DateTime" in e[1][1] and how[1] in e[1][2] and (last(e[1]) == "parse_from_rfc3339" or k("%+") in e[1][2]):
                if c == ("=", 0):
                    return v is not None and v[0] == "agg" and v[2] == C.vidx(F, EV, "DateTime") and v[3] == (("fld", ("as", e[1], 0), 0),)
                return judge(T, F, st, W, ("date",), v) if how[2] else v is None
        return False
    if kind == "utf8":
        a, b = W.path[how[1]], W.path[how[1]] + W.at[W.path[how[1]]][1]
        for e, c in cons:
            if e[0] == "disc" and last(e[1]) in ("from_utf8", "try_from"):
                if c != ("=", 0):
                    return v is None
                if v is None or v[0] != "agg" or v[2] != C.vidx(F, EV, "Text"):
                    return False
                src = {T.where(y) for y in walk(v) if isinstance(y, tuple) and y and y[0] == "slc"}
                und = [d == ("=", 1) for q, d in cons if last(q) == "starts_with"]
                cut = [y[2][1] for y in walk(v) if isinstance(y, tuple) and y and last(y) == "skip" and y[2][1] != k(0)]
                return src == {(a + W.head[a], b)} and (cut == [k(2)] * len(cut) and bool(cut) == und[0] if und else True)
        return False
    if v is None:
        return False
    if kind == "is":
        return v == how[1]
    if kind == "latin1":
        a = W.path[how[1]]
        while v[0] == "from":
            v = v[1]
        if v[0] != "agg" or v[2] != C.vidx(F, EV, "Text") or v[3][0][0] != "latin1":
            return False
        return T.where(v[3][0][1]) == (a + W.head[a] + how[2], a + W.at[a][1])
    if kind in ("w", "h"):
        if v[0] == "agg" and v[1] == EV:
            v = v[3][0]
        return core(v) == ("sym", "tkhd@%d.%s" % (W.path[how[1]], "width" if kind == "w" else "height"))
    o = W.path["mvhd#0"]
    m = {n: ("sym", "mvhd@%d.%s" % (o, n)) for n in names(F, MV)}
    return (is_duration if kind == "dur" else is_date)(T, st, v, m)


# ---- where the moov box is
def place(ctx, F):
    b = C.one_fn(F, "extract_moov_body_from_buf", "mov::extract_moov_body_from_buf")
    hp = C.method(F, BH, "parse")
    PE = "error::ParsingError"
    n = 0
    for name, boxes in (("first", [("moov", 50)]), ("behind ftyp", [("ftyp", 16), ("moov", 50)]), ("behind mdat", [("ftyp", 16), ("free", 0), ("mdat", 300), ("moov", 50), ("free", 9)]), ("behind wide mdat", [("ftyp", 16), ("+mdat", 300), ("+moov", 50), ("free", 9)]), ("none", [("ftyp", 16), ("mdat", 30)])):
        W = World(boxes)
        mo = W.path.get("moov#0")
        tops = sorted(W.at)
        cuts = sorted({c for o in tops for c in (o, o + 4, o + 8, o + 9, o + 16, o + W.at[o][1] - 1, o + W.at[o][1])} | {W.end})
        for cut in cuts:
            def hd(T, c, a, st):
                w = T.where(a[0])
                if w is None or w[0] not in W.at and w[0] != W.end:
                    return [(st, ("agg", OKP, 1, (("sym", "bad"),)))]
                if w[0] + W.head.get(w[0], HEADER) > w[1]:
                    need = ("agg", "nom::Err", C.vidx(F, "nom::Err", "Incomplete"), (("agg", "nom::Needed", C.vidx(F, "nom::Needed", "Size"), (("sym", "need"),)),))
                    return [(st, ("agg", OKP, 1, (need,)))]
                ty, size = W.at[w[0]]
                h = ("agg", BH, None, tuple({"box_size": k(size), "box_type": k(ty), "header_size": k(W.head[w[0]])}.get(m, ("sym", m)) for m in names(F, BH)))
                return [(st, T.nom_ok(("slc", BASE, k(w[0] + W.head[w[0]]), k(w[1])), h))]
            T = Walker(F, W, {hp.id: hd})
            say = lambda key, cond, text: ctx.oblige("place", "%s cut at %d/%s" % (name, cut, key), bool(cond), None if cond else "moov %s, %d bytes buffered: %s" % (name, cut, text))
            seen = 0
            for st, v in T.walk(b, [("slc", BASE, k(0), k(cut))], State(), 0, ()):
                if v[0] == "diverge":
                    continue
                seen += 1
                n += 1
                t, p = C.result(v)
                # the first box that is not complete in the buffer decides
                part = next((o for o in tops if o + W.at[o][1] > cut), None)
                stop = mo if mo is not None and (part is None or mo <= part) else part
                if t == "ok":
                    r = [T.lt.lin(x) for x in p[3]] if p[0] == "agg" and len(p[3]) == 2 else None
                    say("range", mo is not None and stop == mo and mo + W.at[mo][1] <= cut and r == [L.const(mo + W.head[mo]), L.const(mo + W.at[mo][1])], "the range returned is not the body of the moov box")
                    continue
                vn = F.adt(PE)["vs"][p[2]]["n"] if p[0] == "agg" and p[1] == PE and isinstance(p[2], int) else None
                if stop is not None and stop != mo and stop + W.head[stop] <= cut:
                    say("skip", vn == "ClearAndSkip" and T.lt.lin(p[3][0]) == L.const(stop + W.at[stop][1]), "an incomplete box is not skipped to its end")
                else:
                    say("need", vn == "Need" and not (mo is not None and mo + W.at[mo][1] <= cut), "no more data is asked for although the moov box is not complete")
            say("reachable", seen, "no result")
    ctx.floor("moov places", n, 30)


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("for each arrangement of boxes in a moov box, parse_isobmff is evaluated with unknown contents and every tag reported is compared with what "
                "QuickTime's layout gives it; box fields are compared with the layout of their version, and the moov box is looked for at every cut of the buffer")
    layouts(ctx, F)
    keys(ctx, F)
    items(ctx, F)
    moov(ctx, F)
    place(ctx, F)
