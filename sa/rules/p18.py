"""P18: GPS directions, signs and components are never swapped, dropped or invented."""
from fractions import Fraction as Q
from table import Tab, k, isk, NONE, some
from terms import walk, contains, calls, cname, casts, ops, short, linear, fmt_parts, fl, frz
from rules import common as C
from model import Anchor

G = "exif::gps::"
S = ("sym", "self")
REFS = {"LatRef": {"North": "N", "South": "S"}, "LonRef": {"East": "E", "West": "W"},
        "SpeedUnit": {"KmPerHour": "K", "MilesPerHour": "M", "Knots": "N"}}
SIGN = {"North": 1.0, "South": -1.0, "East": 1.0, "West": -1.0}


def unit(adt, i):
    return ("agg", adt, i, ())


def letters(ctx, F):
    T = Tab(F)
    for a, m in REFS.items():
        adt = G + a
        vs = [v["n"] for v in F.adt(adt)["vs"]]
        ctx.oblige("ref-variants", a, set(vs) == set(m), "%s has variants %s" % (a, vs))
        for i, v in enumerate(vs):
            for st, r in T.run(C.method(F, adt, "as_char"), [unit(adt, i)]):
                ctx.oblige("ref-as-char", v, r == k(ord(m.get(v, "?"))), "%s::%s is written %s" % (a, v, short(F, r)))
            if v in SIGN:
                for st, r in T.run(C.method(F, adt, "sign"), [unit(adt, i)]):
                    ctx.oblige("ref-sign", v, isk(r) and fl(r[1]) == SIGN[v], "sign of %s::%s is %s" % (a, v, short(F, r)))
        inv = {}
        for v, ch in m.items():
            inv[ord(ch)] = v
            inv[ord(ch.lower())] = v
        fc = C.method(F, adt, "from_char")
        cs = set(range(0x20, 0x7f)) | {0, 0x130, 0x212A, 0x17F}
        for st, r in T.run(fc, [("sym", "c")]):
            for e, c in st.cons.items():
                cs |= {c[1]} if c[0] == "=" and isinstance(c[1], int) and c[1] > 1 else {x for x in c[1] if isinstance(x, int)} if c[0] == "!=" else set()
        for ch in sorted(cs):
            for st, r in T.run(fc, [k(ch)]):
                t, p = C.result(r)
                if ch in inv:
                    good = t == "some" and p[0] == "agg" and p[1] == adt and vs[p[2]] == inv[ch]
                else:
                    good = t == "none"
                if t is None and any(cname(x[1]) in ("to_ascii_uppercase", "to_ascii_lowercase", "eq_ignore_ascii_case") for x in calls(r)):
                    good = True
                ctx.oblige("ref-from-char", "%s/%r" % (a, chr(ch)), good, "%s::from_char(%r) yields %s" % (a, chr(ch), short(F, r)))


def decimal(ctx, F):
    tf = C.method(F, "values::Rational", "to_f64").id
    T = Tab(F, opaque={tf})
    LL = G + "LatLng"
    GI = G + "GPSInfo"
    part = {n: C.fidx(F, LL, n) for n in ("degrees", "minutes", "seconds")}

    def expect(base):
        d = {}
        for n, q in (("degrees", Q(1)), ("minutes", Q(1, 60)), ("seconds", Q(1, 3600))):
            d[("fld", base, part[n])] = q
        return d

    def value(r):
        """linear form over the rational fields, through to_f64"""
        out = {}
        for a, c in linear(r).items():
            if a is not None and a[0] == "fld" and a[1][0] == "as" and a[1][1][0] == "call" and cname(a[1][1][1]) == "to_f64":
                a = a[1][1][2][0]
            out[a] = c
        return out

    def table(b, base, mult, key):
        some = none = 0
        for st, r in T.run(b, [S]):
            t, p = C.result(r)
            missing = [e for e, c in st.cons.items() if e[0] == "disc" and e[1][0] == "call" and cname(e[1][1]) == "to_f64" and c == ("=", 0)]
            if t == "none":
                none += 1
                ctx.oblige("decimal-none", key, bool(missing), "%s is None although every component has a value" % key)
            elif t == "some":
                some += 1
                want = {a: c * mult(st) for a, c in expect(base).items()} if mult(st) is not None else None
                ctx.oblige("decimal-value", key, want is not None and value(p) == want and not missing,
                           "%s computes %s" % (key, short(F, p)))
            else:
                ctx.oblige("decimal-value", key, False, "%s yields %s" % (key, short(F, r)))
        ctx.oblige("decimal-paths", key, some > 0 and none > 0)

    table(C.method(F, LL, "to_decimal_degrees"), S, lambda st: Q(1), "to_decimal_degrees")
    for m, f, rf, a in (("latitude_decimal", "latitude", "latitude_ref", "LatRef"), ("longitude_decimal", "longitude", "longitude_ref", "LonRef")):
        adt = G + a
        ri = ("fld", S, C.fidx(F, GI, rf))

        def mult(st, ri=ri, adt=adt):
            ks = C.known_disc(F, st, ri, adt)
            return Q(int(SIGN[next(iter(ks))])) if len(ks) == 1 else None
        table(C.method(F, GI, m), ("fld", S, C.fidx(F, GI, f)), mult, m)
    # altitude
    AL = G + "Altitude"
    for m, base in (("meters", S), ("altitude_meters", ("fld", S, C.fidx(F, GI, "altitude")))):
        owner = AL if m == "meters" else GI
        for st, r in T.run(C.method(F, owner, m), [S]):
            ks = C.known_disc(F, st, base, AL)
            if r == NONE:
                bad = any(e[0] == "disc" and contains(e[1], base) and calls(e) and c == ("=", 0) for e, c in st.cons.items())
                ctx.oblige("altitude", m + "/none", ks == {"Unknown"} or bad, "%s of %s is None" % (m, sorted(ks)))
                continue
            s = {frozenset({"AboveSeaLevel"}): 1, frozenset({"BelowSeaLevel"}): -1}.get(frozenset(ks))
            t, p = C.result(r)
            i = C.vidx(F, AL, next(iter(ks))) if len(ks) == 1 else None
            q = ("fld", ("as", base, i), 0)
            call = [c for c in calls(r) if cname(c[1]) == "to_f64"]
            good = s is not None and len(call) == 1 and call[0][2][0] == q
            if good:
                good = (r == call[0] and s == 1) if t is None else linear(p) == {("fld", ("as", call[0], 1), 0): Q(s)}
            ctx.oblige("altitude", "%s/%s" % (m, sorted(ks)), good, "%s of %s is %s" % (m, sorted(ks), short(F, r)))
    for st, r in T.run(C.method(F, AL, "magnitude"), [S]):
        ks = C.known_disc(F, st, S, AL)
        t, p = C.result(r)
        good = (t == "none" and ks == {"Unknown"}) or (t == "some" and p[0] == "fld" and p[1][0] == "as" and p[1][1] == S and "Unknown" not in ks)
        ctx.oblige("altitude", "magnitude/%s" % sorted(ks), good, "magnitude of %s is %s" % (sorted(ks), short(F, r)))
    # decimal -> dms
    n = 0
    D = ("sym", "deg")
    A = {("abs", frz({D: Q(1)})): Q(1)}
    for st, r in Tab(F).run(C.method(F, LL, "try_from_decimal_degrees"), [D]):
        t, p = C.result(r)
        fin = [c for e, c in st.cons.items() if e[0] == "call" and cname(e[1]) == "is_finite"]
        big = [bool(c[1]) if e[1] in ("Gt", "Ge") else not c[1] for e, c in st.cons.items()
               if e[0] == "op" and isk(e[-1]) and fl(e[-1][1]) == 180.0 and linear(e[2]) == A]
        strict = all(e[1] in ("Gt", "Le") for e, c in st.cons.items() if e[0] == "op" and isk(e[-1]) and fl(e[-1][1]) == 180.0)
        if t == "err":
            ctx.oblige("dms-refuse", "err", fin == [("=", 0)] or big == [True], "a finite angle within 180 degrees is refused")
            continue
        n += 1
        ctx.oblige("dms-refuse", "ok", fin == [("=", 1)] and big == [False] and strict, "try_from_decimal_degrees accepts values it should refuse (or lacks a finiteness/range test)")
        good = p[0] == "agg" and len(p[3]) == 3 and all(x[0] == "agg" for x in p[3])
        if good:
            d = {("trunc", frz(A)): Q(1)}
            mt = sub(scale(A, 60), scale(d, 60))
            m = {("trunc", frz(mt)): Q(1)}
            s = {("round", frz(sub(scale(mt, 6000), scale(m, 6000)))): Q(1)}
            got = {nm: p[3][part[nm]] for nm in part}
            good = [linear(got[nm][3][0]) for nm in ("degrees", "minutes", "seconds")] == [d, m, s] and \
                [got[nm][3][1] for nm in ("degrees", "minutes", "seconds")] == [k(1), k(1), k(100)]
        ctx.oblige("dms-value", "formula", good, "try_from_decimal_degrees yields %s" % short(F, p)[:400])
    ctx.oblige("dms-value", "paths", n > 0)


def sub(x, y):
    r = dict(x)
    for a, c in y.items():
        r[a] = r.get(a, 0) - c
    return {a: c for a, c in r.items() if c}


def scale(x, f):
    return {a: c * f for a, c in x.items()}


def slices(ctx, F):
    LL = G + "LatLng"
    T = Tab(F)
    n = 0
    order = ["degrees", "minutes", "seconds"]
    for b in C.impl_fns(F, "std::convert::TryFrom", LL, "try_from"):
        ty = F.types[b.locals[1]["ty"]]["s"]
        V = ("sym", "v")
        n += 1
        okp = 0
        for st, r in T.run(b, [V]):
            t, p = C.result(r)
            if t == "err":
                sh = any(e[0] == "op" and contains(e, ("len", V)) and contains(e, k(3)) for e in st.cons) or \
                    any(e[0] == "len" for e in st.cons)
                neg = any(e[0] == "op" and e[1] in ("Lt", "Ge") and contains(e, V) and e[3] == k(0) and not any(x[0] == "len" for x in walk(e)) for e in st.cons)
                ctx.oblige("latlng-err", ty, sh or neg, "LatLng from %s fails without a short or negative input" % ty)
                continue
            okp += 1
            for i, f in enumerate(order):
                x = p[3][C.fidx(F, LL, f)]
                src = {t2 for t2 in walk(x) if t2[0] == "idx" or (t2[0] == "call" and cname(t2[1]) in ("index", "get"))}
                idx = {(t2[2] if not isinstance(t2[2], tuple) else (t2[2][1] if t2[0] == "idx" else t2[2][1][1])) for t2 in src}
                good = idx == {i}
                if "IRational" in ty or "i32" in ty:
                    nums = [C.strip_cast(y) for y in x[3]] if x[0] == "agg" else []
                    good = good and len(nums) == 2 and all(y[0] == "fld" and y[2] == j for j, y in enumerate(nums))
                    good = good and all(any(e[0] == "op" and e[2] == y and ((e[1] == "Lt" and c == ("=", 0)) or (e[1] == "Ge" and c == ("=", 1)))
                                            for e, c in st.cons.items()) for y in nums)
                else:
                    good = good and x[0] in ("idx", "call")
                ctx.oblige("latlng-order", "%s/%s" % (ty, f), good, "%s of LatLng from %s is %s" % (f, ty, short(F, x)))
        ctx.oblige("latlng-ok", ty, okp > 0)
    ctx.floor("latlng-conversions", n, 4)


def iso(ctx, F):
    GI = G + "GPSInfo"
    LL, AL = G + "LatLng", G + "Altitude"
    fi = {n: ("fld", S, C.fidx(F, GI, n)) for n in ("latitude_ref", "latitude", "longitude_ref", "longitude", "altitude")}
    opq = {C.method(F, LL, "to_decimal_degrees").id, C.method(F, AL, "meters").id}
    opq |= {b.id for b in C.by_name(F, "format_float")}
    n = 0
    for st, r in Tab(F, opaque=opq, max_paths=20000).run(C.method(F, GI, "to_iso6709"), [S]):
        ps = fmt_parts(r)
        if ps is None:
            ctx.oblige("iso-shape", "format", False, "to_iso6709 yields %s" % short(F, r)[:200])
            continue
        n += 1
        flat = []
        for p in ps:
            if not isinstance(p, str) and p[1] == "new_display" and isk(p[0]) and p[0][1] in (43, 45) and p[3] is None:
                p = chr(p[0][1])
            flat.append(p)
        from terms import merge_parts
        flat = merge_parts(flat)
        la = C.known_disc(F, st, fi["latitude_ref"], G + "LatRef")
        lo = C.known_disc(F, st, fi["longitude_ref"], G + "LonRef")
        key = "%s%s" % (sorted(la), sorted(lo))
        good = len(la) == 1 and len(lo) == 1 and len(flat) >= 4 and not isinstance(flat[1], str) and not isinstance(flat[3], str)
        if good:
            good = flat[0] == ("+" if la == {"North"} else "-") and flat[2] == ("+" if lo == {"East"} else "-")
            for i, f, w in ((1, "latitude", 8), (3, "longitude", 9)):
                a = flat[i]
                src = [c for c in calls(a[0]) if cname(c[1]) == "to_decimal_degrees"]
                zero = a[0] == k(0) and any(e[0] == "disc" and e[1][0] == "call" and cname(e[1][1]) == "to_decimal_degrees" and e[1][2][0] == fi[f] and c == ("=", 0)
                                            for e, c in st.cons.items())
                good = good and (zero or (len(src) == 1 and src[0][2][0] == fi[f] and linear(a[0]) == {("fld", ("as", src[0], 1), 0): Q(1)})) and a[3] == w and a[4] == 5
        ctx.oblige("iso-latlon", key, good, "to_iso6709 writes %s" % [x if isinstance(x, str) else (short(F, x[0]), x[3], x[4]) for x in flat])
        # altitude: absent, or sign + magnitude + CRS
        tail = flat[4:]
        met = [e for e, c in st.cons.items() if e[0] == "disc" and e[1][0] == "call" and cname(e[1][1]) == "meters"]
        if tail == ["/"]:
            zero = any((e[0] == "disc" and e in met and c == ("=", 0)) or (e[0] == "fld" and contains(e, fi["altitude"]) and c == ("=", 0)) for e, c in st.cons.items()) or \
                any(e[0] == "op" and e[1] in ("Eq",) and contains(e, fi["altitude"]) and c == ("=", 1) for e, c in st.cons.items())
            ctx.oblige("iso-altitude", "absent", zero, "to_iso6709 drops a known altitude")
        else:
            sg = None
            for e, c in st.cons.items():
                if e[0] == "op" and contains(e, fi["altitude"]) and e[3] == k(0) and c[0] == "=" and e[1] in ("Ge", "Lt", "Gt", "Le"):
                    sg = bool(c[1]) if e[1] in ("Ge", "Gt") else not c[1]
            sig = flat[4][0] if isinstance(flat[4], str) else None
            arg = [x for x in flat[4:] if not isinstance(x, str)]
            good = sg is not None and sig == ("+" if sg else "-") and len(arg) == 1 and contains(arg[0][0], fi["altitude"]) \
                and any(cname(c[1]) == "abs" for c in calls(arg[0][0])) and flat[-1] == "CRSWGS_84/"
            ctx.oblige("iso-altitude", "sign", good, "to_iso6709 writes altitude as %s" % [x if isinstance(x, str) else short(F, x[0]) for x in flat[4:]])
    ctx.floor("iso-paths", n, 16)
    # and back
    b = C.method(F, GI, "from_iso6709_coord")
    V = ("sym", "v")
    T = Tab(F, opaque={C.method(F, LL, "try_from_decimal_degrees").id}, max_paths=20000)
    seen = set()
    for st, r in T.run(b, [V]):
        if r[0] != "agg" or r[1] != GI:
            ctx.oblige("iso-parse", "shape", False, "from_iso6709_coord yields %s" % short(F, r)[:200])
            continue
        for f, adt, vi in (("latitude_ref", "LatRef", 0), ("longitude_ref", "LonRef", 1)):
            pos = None
            for e, c in st.cons.items():
                if e[0] == "op" and e[2] == ("fld", V, vi) and e[3] == k(0) and c[0] == "=":
                    pos = {"Ge": bool(c[1]), "Lt": not c[1]}.get(e[1])
            x = r[3][C.fidx(F, GI, f)]
            nm = F.adt(G + adt)["vs"][x[2]]["n"] if x[0] == "agg" and x[2] is not None else None
            seen.add(nm)
            ctx.oblige("iso-parse-ref", nm or f, pos is not None and SIGN.get(nm) == (1.0 if pos else -1.0), "%s is %s when the coordinate is %s" % (f, nm, "non-negative" if pos else "negative"))
        for f, vi in (("latitude", 0), ("longitude", 1)):
            x = r[3][C.fidx(F, GI, f)]
            src = [c for c in calls(x) if cname(c[1]) == "try_from_decimal_degrees"]
            refused = any(e[0] == "disc" and e[1][0] == "call" and cname(e[1][1]) == "try_from_decimal_degrees" and contains(e[1], ("fld", V, vi)) and c == ("=", 1) for e, c in st.cons.items())
            good = (len(src) == 1 and contains(src[0][2], ("fld", V, vi)) and not ops(src[0][2]) and x == ("fld", ("as", src[0], 0), 0)) or (not src and refused)
            ctx.oblige("iso-parse-coord", f, good, "%s is taken from %s" % (f, short(F, x)[:150]))
        al = r[3][C.fidx(F, GI, "altitude")]
        alt = ("fld", ("as", ("fld", V, 2), 1), 0)
        kn = al[0] == "agg" and F.adt(AL)["vs"][al[2]]["n"]
        d = st.cons.get(("disc", ("fld", V, 2), "std::option::Option"))
        if kn == "Unknown":
            ctx.oblige("iso-parse-alt", "unknown", d is not None and (d == ("=", 0) or d[0] == "!=" and 1 in d[1]), "a given altitude is dropped")
        else:
            pos = None
            for e, c in st.cons.items():
                if e[0] == "op" and e[2] == alt and e[3] == k(0) and c[0] == "=":
                    pos = {"Ge": bool(c[1]), "Gt": bool(c[1]), "Lt": not c[1], "Le": not c[1]}.get(e[1])
            good = pos is not None and kn == ("AboveSeaLevel" if pos else "BelowSeaLevel") and contains(al[3][0], alt) and any(cname(c[1]) == "abs" for c in calls(al[3][0]))
            m = al[3][0]
            good = good and m[0] == "agg" and m[3][1] == k(1000) and linear(m[3][0]) == {("trunc", frz({("abs", frz({alt: Q(1)})): Q(1000)})): Q(1)}
            ctx.oblige("iso-parse-alt", str(kn), good, "altitude %s (non-negative: %s) becomes %s" % (short(F, alt), pos, short(F, al)[:200]))
    ctx.oblige("iso-parse-ref", "all", {"North", "South", "East", "West"} <= seen, "only %s are ever produced" % seen)


GTAGS = ["GPSLatitudeRef", "GPSLatitude", "GPSLongitudeRef", "GPSLongitude", "GPSAltitudeRef", "GPSAltitude", "GPSSpeedRef", "GPSSpeed"]


def scripted(F, tags):
    """engine in which the GPS IFD yields one abstract entry e<i> per tag of `tags`"""
    TA, TOC = "exif::tags::ExifTag", "exif::tags::TagOrCode"
    items = []
    for i, t in enumerate(tags):
        tc = NONE if t is None else some(("agg", TOC, C.vidx(F, TOC, "Tag"), (("agg", TA, C.vidx(F, TA, t), ()),)))
        items.append(some(("agg", "()", None, (tc, ("sym", "e%d" % i)))))
    T = Tab(F, max_paths=20000)
    mark = ("call", "$next", ())

    def hook(c, r, st):
        if c.name == "next" and "IfdIter" in (c.full or ""):
            n = sum(1 for x in st.events if x == mark)
            return [(T.event(st, mark), items[n] if n < len(items) else NONE)]
    T.hook = hook
    return T


def ifd(ctx, F):
    """each GPS tag feeds its own field: every sequence of up to two abstract entries"""
    b = C.method(F, "exif::exif_iter::IfdIter", "parse_gps_info")
    GI, EV, IE = G + "GPSInfo", "values::EntryValue", "exif::exif_iter::IfdEntry"
    AL = G + "Altitude"
    VE = C.vidx(F, IE, "Entry")

    def ent(e):
        return ("fld", ("as", e, VE), 0)

    def kinds(st, e):
        """the value variants entry e can have on this path; "" for no value"""
        k1 = C.known_disc(F, st, e, IE)
        out = set() if "Entry" not in k1 else set(C.known_disc(F, st, ent(e), EV))
        return out | ({""} if k1 != {"Entry"} else set())

    def pay(e, v):
        return ("fld", ("as", ent(e), C.vidx(F, EV, v)), 0)

    def neg(st, x):
        """x < 0 on this path (None: not tested)"""
        for e, c in st.cons.items():
            if e[0] == "op" and e[2] == x and isk(e[3]) and e[3][1] == 0 and c[0] == "=":
                if e[1] in ("Lt", "Ge"):
                    return bool(c[1]) == (e[1] == "Lt")
        return None

    def rational(st, e):
        """(must have a value, may have a value, acceptable terms)"""
        ks = kinds(st, e)
        u, i = pay(e, "URational"), pay(e, "IRational")
        parts = [("fld", i, 0), ("fld", i, 1)]
        signs = [neg(st, x) for x in parts]
        if ks == {"URational"}:
            return True, True, u
        if ks == {"IRational"}:
            if True in signs:
                return False, False, None
            return signs == [False, False], signs == [False, False], ("agg", "values::Rational", None, tuple(parts))
        return False, False, None

    def same_rat(x, want):
        if x == want:
            return True
        return want is not None and want[0] == "agg" and x[0] == "agg" and len(x[3]) == 2 and tuple(C.strip_cast(y) for y in x[3]) == want[3]

    def text_char(st, x):
        """the character constant tested for the first char of Text entry payload x, or None"""
        for e, c in st.cons.items():
            if c[0] == "=" and isinstance(c[1], int) and c[1] > 1 and contains(e, x) and any(cname(z[1]) in ("next", "first", "chars", "nth") for z in calls(e)):
                return chr(c[1])
        return None

    def no_letter(st, x, letters):
        """the text is empty or its first character is none of `letters` (either case) on this path"""
        need = {ord(c) for c in letters} | {ord(c.lower()) for c in letters}
        for e, c in st.cons.items():
            if not contains(e, x) or not any(cname(z[1]) in ("next", "first", "nth", "chars") for z in calls(e)):
                continue
            if e[0] == "disc" and (c == ("=", 0) or c[0] == "!=" and 1 in c[1]):
                return True
            if c[0] == "!=" and need <= set(c[1]):
                return True
            if c[0] == "=" and isinstance(c[1], int) and c[1] > 1 and c[1] not in need:
                return True
        return False

    def default(x, f):
        if f == "latitude_ref":
            return x == unit(G + "LatRef", C.vidx(F, G + "LatRef", "North"))
        if f == "longitude_ref":
            return x == unit(G + "LonRef", C.vidx(F, G + "LonRef", "East"))
        if f == "altitude":
            return x == unit(AL, C.vidx(F, AL, "Unknown"))
        if f == "speed":
            return x == NONE
        return (calls(x) and cname(calls(x)[0][1]) == "default" and not contains_any(x))

    def contains_any(x):
        return any(contains(x, ("sym", "e%d" % i)) for i in range(3))

    seqs = [(a,) for a in GTAGS] + [(a, c) for a in GTAGS + ["GPSDateStamp"] for c in GTAGS + ["GPSDateStamp"] if a != c] + [(None,), ()] + [(None, a) for a in GTAGS]
    rows = 0
    for seq in seqs:
        key = "+".join(str(x) for x in seq) or "empty"
        own = {t: ("sym", "e%d" % i) for i, t in enumerate(seq) if t}
        for st, r in scripted(F, seq).run(b, [S]):
            if r[0] == "diverge":
                if r[1] != "loop":
                    ctx.oblige("gps-total", key, False, "parse_gps_info can diverge: %s" % r[1])
                continue
            rows += 1
            t, p = C.result(r)
            if not own:
                ctx.oblige("gps-none", key, t == "none", "GPS information is made up from no entry: %s" % short(F, r)[:120])
                continue
            if t != "some" or p[0] != "agg" or p[1] != GI:
                ctx.oblige("gps-some", key, False, "entries %s yield %s" % (key, short(F, r)[:120]))
                continue
            fld = {f: p[3][C.fidx(F, GI, f)] for f in ("latitude_ref", "latitude", "longitude_ref", "longitude", "altitude", "speed")}
            # a field whose entries are absent is at its default
            for f, need in (("latitude_ref", ["GPSLatitudeRef"]), ("latitude", ["GPSLatitude"]), ("longitude_ref", ["GPSLongitudeRef"]),
                            ("longitude", ["GPSLongitude"]), ("altitude", ["GPSAltitudeRef", "GPSAltitude"]), ("speed", ["GPSSpeedRef", "GPSSpeed"])):
                if not all(n in own for n in need):
                    ctx.oblige("gps-field", "%s/%s" % (f, key), default(fld[f], f), "%s is %s although the only GPS entries are %s" % (f, short(F, fld[f])[:150], key))
            # references: from the letter of their own entry
            for tag, f, adt in (("GPSLatitudeRef", "latitude_ref", "LatRef"), ("GPSLongitudeRef", "longitude_ref", "LonRef")):
                if tag in own:
                    ks = kinds(st, own[tag])
                    ch = text_char(st, pay(own[tag], "Text")) if ks == {"Text"} else None
                    want = {c: v for v, c in REFS[adt].items()}.get(ch.upper()) if ch else None
                    x = fld[f]
                    got = F.adt(x[1])["vs"][x[2]]["n"] if x[0] == "agg" and x[1] == G + adt else None
                    if ks == {"Text"} and not want:
                        ctx.oblige("gps-ref-drop", tag, no_letter(st, pay(own[tag], "Text"), REFS[adt].values()), "%s is dropped although its letter may be a known one" % tag)
                    ctx.oblige("gps-ref", "%s/%s" % (tag, ch), got == want if want else default(x, f), "%s %r gives %s" % (tag, ch, short(F, x)[:100]))
            # coordinates: components in order from their own entry
            for tag, f in (("GPSLatitude", "latitude"), ("GPSLongitude", "longitude")):
                if tag not in own:
                    continue
                x, ks = fld[f], kinds(st, own[tag])
                if x[0] == "agg" and x[1] == G + "LatLng":
                    for i, comp in enumerate(("degrees", "minutes", "seconds")):
                        y = x[3][C.fidx(F, G + "LatLng", comp)]
                        idx = {(z[2] if not isinstance(z[2], tuple) else z[2][1]) for z in walk(y) if z[0] == "idx"}
                        src = all(not contains(y, v) for t2, v in own.items() if t2 != tag) and contains(y, own[tag])
                        ctx.oblige("gps-component", "%s/%s" % (tag, comp), idx == {i} and src and ks <= {"URationalArray", "IRationalArray"},
                                   "%s of %s is %s" % (comp, tag, short(F, y)[:120]))
                elif default(x, f):
                    # refused only when the entry is no array, too short or negative
                    short_ = any(e[0] == "op" and any(z[0] == "len" and contains(z, own[tag]) for z in walk(e)) and c == ("=", 1) and e[1] == "Lt" or
                                 e[0] == "op" and any(z[0] == "len" and contains(z, own[tag]) for z in walk(e)) and c == ("=", 0) and e[1] == "Ge" for e, c in st.cons.items())
                    negs = any(e[0] == "op" and e[1] in ("Lt", "Ge") and contains(e, own[tag]) and c == ("=", 1 if e[1] == "Lt" else 0) and not any(z[0] == "len" for z in walk(e))
                               for e, c in st.cons.items())
                    ctx.oblige("gps-coord-set", tag, not ks <= {"URationalArray", "IRationalArray"} or short_ or (negs and ks == {"IRationalArray"}),
                               "%s is dropped although its entry is a %s" % (tag, sorted(ks)))
                else:
                    ctx.oblige("gps-coord-set", tag, False, "%s is %s" % (f, short(F, x)[:150]))
            # altitude: reference 0 above, 1 below, paired with the value
            if "GPSAltitudeRef" in own and "GPSAltitude" in own:
                er = own["GPSAltitudeRef"]
                ref = None
                if kinds(st, er) == {"U8"}:
                    c = st.cons.get(pay(er, "U8"))
                    ref = c[1] if c and c[0] == "=" else "other" if c and {0, 1} <= set(c[1]) else None
                must, may, want = rational(st, own["GPSAltitude"])
                x = fld["altitude"]
                vn = F.adt(AL)["vs"][x[2]]["n"] if x[0] == "agg" and x[1] == AL and x[2] is not None else "?"
                if vn == "Unknown":
                    ctx.oblige("gps-altitude", "unknown/%s" % ref, not (must and ref in (0, 1)), "altitude is dropped although reference is %s and a value is present" % ref)
                else:
                    ctx.oblige("gps-altitude", "%s/%s" % (vn, ref), may and {0: "AboveSeaLevel", 1: "BelowSeaLevel"}.get(ref) == vn and same_rat(x[3][0], want),
                               "altitude reference %s, value %s gives %s" % (ref, short(F, want) if want else None, short(F, x)[:150]))
            if "GPSSpeedRef" in own and "GPSSpeed" in own:
                er = own["GPSSpeedRef"]
                ch = text_char(st, pay(er, "Text")) if kinds(st, er) == {"Text"} else None
                unit_ = {c: v for v, c in REFS["SpeedUnit"].items()}.get(ch.upper()) if ch else None
                must, may, want = rational(st, own["GPSSpeed"])
                tt, x = C.result(fld["speed"])
                if tt == "none" and must and kinds(st, er) == {"Text"} and not unit_:
                    ctx.oblige("gps-ref-drop", "GPSSpeedRef", no_letter(st, pay(er, "Text"), REFS["SpeedUnit"].values()), "GPSSpeedRef is dropped although its letter may be a known one")
                if tt == "none":
                    ctx.oblige("gps-speed", "none/%s" % ch, not (must and unit_), "speed is dropped although unit %r and a value are present" % ch)
                else:
                    good = tt == "some" and x[0] == "agg" and may and unit_ is not None
                    if good:
                        y, v = x[3][C.fidx(F, G + "Speed", "unit")], x[3][C.fidx(F, G + "Speed", "value")]
                        good = y[0] == "agg" and F.adt(y[1])["vs"][y[2]]["n"] == unit_ and same_rat(v, want)
                    ctx.oblige("gps-speed", "some/%s" % ch, good, "speed unit %r gives %s" % (ch, short(F, fld["speed"])[:150]))
    ctx.floor("gps-entry-rows", rows, 300)


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("decision tables and exact linear forms of every GPS conversion: reference letters, signs, decimal degrees, DMS, "
                "ISO 6709 in both directions, component order and the tag-to-field mapping of the GPS IFD")
    letters(ctx, F)
    decimal(ctx, F)
    slices(ctx, F)
    iso(ctx, F)
    ifd(ctx, F)
