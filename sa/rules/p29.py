"""P29: a date-time's UTC offset is neither invented nor dropped, and its fields are those of the text."""
from table import Tab, k, isk, NONE, some
from terms import walk, contains, calls, cname, casts, ops, short, fmt_parts
from rules import common as C
from rules.p31 import DATETAGS, EV, ED
from rules.p18 import scripted

AWARE = "%Y:%m:%d %H:%M:%S %z"
NAIVE = "%Y:%m:%d %H:%M:%S"
IT = "exif::exif_iter::IfdIter"
S = ("sym", "self")
EDT = "values::ExifDateTime"


def fails(st, call):
    c = st.cons.get(("disc", call, "std::result::Result"))
    return None if c is None else c == ("=", 1) or (c[0] == "!=" and 0 in c[1])


def text_of(x, st):
    """the payload of a successful get_cstr over the entry's data"""
    return x[0] == "fld" and x[1][0] == "as" and x[1][2] == 0 and x[1][1][0] == "call" and cname(x[1][1][1]) == "get_cstr"


def decode(ctx, F):
    b = C.method(F, EV, "parse")
    T = Tab(F, max_paths=8000, opaque=C.ids(F, "from_code", "try_from_bytes", "get_cstr"))
    E, TZ = ("sym", "entry"), ("sym", "tz")
    data = ("fld", E, C.fidx(F, ED, "data"))
    tag = ("fld", E, C.fidx(F, ED, "tag"))
    tzv = ("fld", ("as", TZ, 1), 0)
    codes = {int(v["d"]): v["n"] for v in F.adt("exif::tags::ExifTag")["vs"] if v["n"] in DATETAGS}
    vs = F.adt(EV)["vs"]
    n = {"DateTime": 0, "NaiveDateTime": 0, "err": 0}
    for st, r in T.run(b, [E, TZ]):
        t, p = C.result(r)
        vn = vs[p[2]]["n"] if t == "ok" and p[0] == "agg" and p[1] == EV else None
        date = any(e[0] == "disc" and c[0] == "=" and c[1] in codes and any(cname(x[1]) == "from_code" and x[2] == (tag,) for x in calls(e))
                   for e, c in st.cons.items())
        if vn not in ("DateTime", "NaiveDateTime") and not (t == "err" and date):
            continue
        tz = C.known_disc(F, st, TZ, "std::option::Option") if "std::option::Option" in F.adts else None
        c = st.cons.get(("disc", TZ, "std::option::Option"))
        tz = None if c is None else (c == ("=", 1) or c == ("!=", frozenset({0})))
        tries = {}
        for e in list(st.cons):
            for x in calls(e):
                if cname(x[1]) == "parse_from_str":
                    tries[x[2][1][1] if isk(x[2][1]) else None] = x
        key = vn or "err"
        n[key] += 1
        bad = set(tries) - {AWARE, NAIVE}
        ctx.oblige("date-format", key, not bad, "date text is also parsed as %s" % sorted(map(str, bad)))
        if vn is None:
            if NAIVE in tries or AWARE in tries:
                ctx.oblige("date-err", "naive", NAIVE in tries and fails(st, tries[NAIVE]), "a date is refused although it was not tried as %r" % NAIVE)
            continue
        pay = p[3][0]
        src = [x for x in calls(pay) if cname(x[1]) == "parse_from_str"]
        want = AWARE if vn == "DateTime" else NAIVE
        good = len(src) == 1 and pay == ("fld", ("as", src[0], 0), 0) and src[0][2][1] == k(want)
        ctx.oblige("date-value", vn, good, "%s is %s, not the result of parsing with %r" % (vn, short(F, pay)[:300], want))
        if not good:
            continue
        arg = src[0][2][0]
        if vn == "DateTime":
            ctx.oblige("date-offset-known", vn, tz is True, "a UTC offset is attached although none is recorded")
            parts = fmt_parts(arg)
            ok = parts is not None and len(parts) >= 3 and not isinstance(parts[0], str) and text_of(parts[0][0], st) and contains(parts[0][0], data) and parts[1] == " "
            rest = parts[2:] if parts else []
            pad = any(e[0] == "op" and any(x[0] == "len" and contains(x, tzv) for x in walk(e)) for e in st.cons)
            ok = ok and not isinstance(rest[0], str) and C.strip_cast(rest[0][0]) == tzv and (len(rest) == 1 or (rest[1:] == ["0"] and pad))
            ctx.oblige("date-text", vn, ok, "the aware date is parsed from %s" % short(F, arg)[:300])
        else:
            ctx.oblige("date-offset-dropped", vn, tz is False or (tz is True and AWARE in tries and fails(st, tries[AWARE])),
                       "a recorded UTC offset is dropped without having been tried")
            a = arg
            ctx.oblige("date-text", vn, text_of(a, st) and contains(a, data), "the naive date is parsed from %s" % short(F, a)[:300])
    for x, m in n.items():
        ctx.floor("date-rows-" + x, m, 3)


def value_type(ctx, F):
    vi = {v["n"]: i for i, v in enumerate(F.adt(EDT)["vs"])}
    P = ("sym", "dt")
    T = Tab(F)

    def rows(m, v, *extra):
        return [(st, r) for st, r in T.run(C.method(F, EDT, m), [("agg", EDT, vi[v], (P,))] + list(extra))]
    for st, r in rows("aware", "Aware"):
        ctx.oblige("edt-aware", "Aware", r == some(P), "aware() of an aware value is %s" % short(F, r))
    for st, r in rows("aware", "Naive"):
        ctx.oblige("edt-aware", "Naive", r == NONE, "aware() of a naive value is %s" % short(F, r))
    for st, r in rows("into_naive", "Naive"):
        ctx.oblige("edt-naive", "Naive", r == P, "into_naive() of a naive value is %s" % short(F, r))
    for st, r in rows("into_naive", "Aware"):
        ctx.oblige("edt-naive", "Aware", r[0] == "call" and cname(r[1]) == "naive_local" and r[2] == (P,), "into_naive() of an aware value is %s" % short(F, r))
    FB = ("sym", "fallback")
    for st, r in rows("or_offset", "Aware", FB):
        ctx.oblige("edt-offset", "Aware", r == P, "or_offset() of an aware value is %s" % short(F, r))
    for st, r in rows("or_offset", "Naive", FB):
        ns = {cname(c[1]) for c in calls(r)}
        good = contains(r, P) and contains(r, FB) and ns & {"and_local_timezone", "from_local_datetime", "with_timezone", "from_utc_datetime"}
        # every date of a fixed offset maps to exactly one instant; the fallback arm is unreachable
        if "and_utc" in ns or "from_utc_datetime" in ns:
            good = good and any(c[0] in ("=", "!=") and any(cname(x[1]) in ("and_local_timezone", "from_local_datetime", "single", "earliest", "latest") for x in calls(e)) for e, c in st.cons.items())
        ctx.oblige("edt-offset", "Naive", good, "or_offset() of a naive value is %s" % short(F, r)[:200])
    # building from (naive, offset)
    b = [x for x in C.impl_fns(F, "std::convert::From", EV, "from") if "NaiveDateTime" in F.types[x.locals[1]["ty"]]["s"]]
    ctx.floor("from-pairs", len(b), 1)
    vs = F.adt(EV)["vs"]
    for x in b:
        A = ("sym", "v")
        for st, r in T.run(x, [A]):
            if r[0] == "diverge":
                continue
            if F.types[x.locals[1]["ty"]]["s"].startswith("("):
                d = [c for e, c in st.cons.items() if e[0] == "disc" and contains(e, ("fld", A, 1)) and not calls(e)]
                has = bool(d) and (d[0] == ("=", 1) or d[0] == ("!=", frozenset({0})))
                vn = vs[r[2]]["n"] if r[0] == "agg" and r[1] == EV else "?"
                good = vn == ("DateTime" if has else "NaiveDateTime") and contains(r, ("fld", A, 0)) and (not has or contains(r, ("fld", A, 1)))
                if has:
                    good = good and not any(cname(c[1]) in ("and_utc", "from_utc_datetime", "naive_utc") for c in calls(r))
                else:
                    good = good and r[3][0] == ("fld", A, 0)
                ctx.oblige("from-pair", "%s" % has, good, "a naive time %s offset becomes %s" % ("with" if has else "without", short(F, r)[:200]))


def propagate(ctx, F):
    """the offset found in the Exif sub-IFD reaches every entry decoder"""
    # 1. selection
    b = C.method(F, IT, "find_tz_offset")
    fe = C.method(F, IT, "find_exif_iter")
    names = ["OffsetTimeOriginal", "OffsetTimeDigitized", "OffsetTime", "DateTimeOriginal"]
    EVt = C.vidx(F, EV, "Text")
    VE = C.vidx(F, "exif::exif_iter::IfdEntry", "Entry")
    seqs = [(a,) for a in names] + [(a, c) for a in names for c in names if a != c] + [(), (None, "OffsetTime")] + \
        [("OffsetTime", "DateTimeOriginal", "OffsetTimeOriginal"), ("OffsetTime", "OffsetTimeDigitized", "DateTimeOriginal")]
    n = 0
    for seq in seqs:
        T = scripted(F, seq)
        T.opaque = {fe.id}
        key = "+".join(map(str, seq)) or "empty"
        for st, r in T.run(b, [S]):
            if r[0] == "diverge":
                if r[1] != "loop":
                    ctx.oblige("tz-total", key, False, "find_tz_offset can diverge: %s" % r[1])
                continue
            n += 1
            noexif = any(e[0] == "disc" and e[1][0] == "call" and cname(e[1][1]) == "find_exif_iter" and c in (("=", 0), ("!=", frozenset({1}))) for e, c in st.cons.items())
            if noexif:
                ctx.oblige("tz-none", "no-exif", r == NONE, "an offset is found without an Exif sub-IFD: %s" % short(F, r))
                continue
            t, p = C.result(r)
            strong = [i for i, x in enumerate(seq) if x in ("OffsetTimeOriginal", "OffsetTimeDigitized")]
            weak = [i for i, x in enumerate(seq) if x == "OffsetTime"]

            def text(i):
                return ("fld", ("as", ("fld", ("as", ("sym", "e%d" % i), VE), 0), EVt), 0)

            def is_text(i):
                e = ("sym", "e%d" % i)
                return C.known_disc(F, st, e, "exif::exif_iter::IfdEntry") == {"Entry"} and \
                    C.known_disc(F, st, ("fld", ("as", e, VE), 0), EV) == {"Text"}
            if t == "some":
                allowed = [text(i) for i in (strong or weak)]
                ctx.oblige("tz-source", key, C.strip_cast(p) in allowed, "entries %s give offset %s" % (key, short(F, p)[:150]))
            else:
                # dropped only if the deciding entry is not text
                ctx.oblige("tz-source", key, not any(is_text(i) for i in (strong[:1] or weak)), "entries %s give no offset" % key)
    ctx.floor("tz-rows", n, 25)
    # 2. the decoder gets the iterator's offset
    tzf = ("fld", S, C.fidx(F, IT, "tz"))
    parse = C.method(F, EV, "parse")
    ntn = C.method(F, IT, "try_new")
    pe = C.method(F, IT, "parse_entry")
    T = Tab(F, max_paths=6000, opaque={parse.id, ntn.id})
    m = 0
    for st, r in T.run(pe, [S] + [("sym", "a%d" % i) for i in range(pe.argc - 1)]):
        cs = [(e[1], e[2]) for e in st.events if e[0] == "call"] + [(x[1], x[2]) for x in calls(r)] + [(x[1], x[2]) for e in st.cons for x in calls(e)]
        for p, a in cs:
            if p == parse.path or p.endswith("EntryValue::parse"):
                m += 1
                ctx.oblige("tz-decoder", "parse_entry", tzf in a, "an entry is decoded with offset %s instead of the directory's" % short(F, a[1:]))
            if p == ntn.path or p.endswith("IfdIter::try_new"):
                m += 1
                ctx.oblige("tz-subifd", "parse_entry", tzf in a, "a sub-directory is created with offset %s" % short(F, a[-1:]))
    ctx.floor("tz-uses", m, 2)
    # 3. constructor stores it; clones keep it
    fi = C.fidx(F, IT, "tz")
    args = [("sym", "p%d" % i) for i in range(ntn.argc)]
    tzarg = [i for i in range(ntn.argc) if F.types[ntn.locals[i + 1]["ty"]]["s"] == "std::option::Option<std::string::String>"]
    okn = 0
    for st, r in Tab(F, max_paths=4000).run(ntn, args):
        t, p = C.result(r)
        if t == "ok" and p[0] == "agg":
            okn += 1
            ctx.oblige("tz-store", "try_new", len(tzarg) == 1 and p[3][fi] == args[tzarg[0]], "a directory is created with offset %s" % short(F, p[3][fi]))
    ctx.floor("tz-constructed", okn, 1)
    # 4. wherever a TIFF block becomes an iterator, the offset is looked up in its first directory
    n4 = 0
    ft = C.method(F, IT, "find_tz_offset")
    cands = [b for b in F.bodies.values() if b.kind in ("Fn", "AssocFn") and "exif::exif_iter::ExifIter" in F.types[b.locals[0]["ty"]]["s"]
             and ft.id in F.closure_of([b])]
    direct = [b for b in cands if not any(o.id != b.id and o.id in F.closure_of([b]) for o in cands)]
    for b in direct:
        n4 += 1
        EI = "exif::exif_iter::ExifIter"
        T4 = Tab(F, max_paths=4000, opaque={ft.id, ntn.id} | {x.id for x in C.by_name(F, "parse", "TiffHeader")})
        built = 0
        for st, r in T4.run(b):
            t, p = C.result(r)
            if t != "ok":
                continue
            its = [x for x in walk(p) if x[0] == "agg" and x[1] == EI]
            for it in its:
                built += 1
                v = it[3][C.fidx(F, EI, "tz")]
                ctx.oblige("tz-iter", b.path, v[0] == "call" and cname(v[1]) == "find_tz_offset", "the iterator's offset is %s" % short(F, v)[:100])
                i0 = it[3][C.fidx(F, EI, "ifd0")]
                stores = [e for e in st.events if e[0] == "store" and e[1][0] == "fld" and e[1][2] == fi and any(cname(x[1]) == "find_tz_offset" for x in calls(e[2]))]
                good = stores or any(x[0] == "agg" and x[1] == IT and any(cname(y[1]) == "find_tz_offset" for y in calls(x[3][fi])) for x in walk(i0))
                ctx.oblige("tz-ifd0", b.path, good, "the first directory does not get the offset")
        ctx.oblige("tz-iter", b.path + "/built", built > 0, "no iterator is built")
    ctx.floor("tz-lookups", n4, 1)


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("decision tables of date-time decoding, of the offset lookup over every sequence of up to three abstract offset entries, and of the places "
                "that hand the offset on: an aware value is exactly 'text + recorded offset' parsed with the Exif format, a naive one exactly the text")
    decode(ctx, F)
    value_type(ctx, F)
    propagate(ctx, F)
