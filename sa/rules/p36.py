"""P36: HEIF boxes and the location of the Exif item are read as ISO/IEC 14496-12 lays them out."""
from table import k, isk, State, NONE
from rules import common as C
from terms import walk
import layout as Y
import lin as L

OKP = "std::result::Result"
FB = "bbox::FullBoxHeader"
ILOC, IINF, INFE, META = "bbox::iloc::IlocBox", "bbox::iinf::IinfBox", "bbox::iinf::InfeBox", "bbox::meta::MetaBox"
LOC, EXT, METHOD = "bbox::iloc::ItemLocation", "bbox::iloc::ItemLocationExtent", "bbox::iloc::ConstructionMethod"
BIG = 1 << 40


def names(F, adt):
    return [f["n"] for f in F.adt(adt)["vs"][0]["fs"]]


def fields(F, v, adt):
    return dict(zip(names(F, adt), v[3])) if v[0] == "agg" and v[1] == adt else None


def split(T, v):
    """('ok', rest, value) | ('err', payload)"""
    t, p = C.result(v)
    if t == "ok" and p[0] == "agg" and p[1] == "()" and len(p[3]) == 2:
        return "ok", p[3][0], p[3][1]
    return t, p, None


def at(T, x, off):
    return L.addc(x, off) if isinstance(off, int) else L.add(x, off)


class Rows:
    """judges the rows of one parser"""
    def __init__(self, ctx, F, T, rule, where, base, start):
        self.ctx, self.F, self.T, self.rule, self.where = ctx, F, T, rule, where
        self.base, self.start = base, start

    def say(self, key, cond, text):
        self.ctx.oblige(self.rule, "%s/%s" % (self.where, key), bool(cond), None if cond else "%s: %s" % (self.where, text))

    def num(self, key, t, off, width):
        self.say(key, Y.is_read(self.T, t, self.base, at(self.T, self.start, off), width),
                 "%s is not the big-endian %d-byte number at offset %s" % (key, width, off))

    def rest(self, key, rest, off):
        r = self.T.slc(rest)
        self.say(key, r is not None and r[1] == self.base and L.sub(self.T.start(r), at(self.T, self.start, off)) == L.const(0),
                 "parsing does not continue at offset %s" % (off,))

    def short(self, key, st, v, end):
        """a row that is not a success and that the description accepts: it has to be for want of bytes the description reads"""
        t, p, _ = split(self.T, v)
        self.say(key, t == "err" and Y.needs(self.T, st, at(self.T, self.start, end)), "a complete box is refused")


def reader(F, stubs=None, **kw):
    kw.setdefault("max_paths", 20000)
    kw.setdefault("depth", 14)
    return Y.Stub(F, stubs, **kw)


def rdat(off, width):
    """matches the read of `width` bytes at absolute offset `off`"""
    return lambda t: t[0] == "rd" and t[2] == width and t[5] == k(off)


# ---- box headers
def headers(ctx, F):
    for name, adt, full in (("BoxHeader", "bbox::BoxHeader", 0), ("FullBoxHeader", FB, 4)):
        T = reader(F)
        b = C.method(F, adt, "parse")
        x = T.input("in")
        rows = list(T.walk(b, [x], State(), 0, ()))
        ctx.floor("rows " + name, len(rows), 5)
        s32, s64 = rdat(0, 4), rdat(8, 8)
        cs = sorted(c for c in Y.consts(T, rows, lambda t: s32(t) or s64(t)) | {0, 1, 2, 7, 8, 9, 12, 15, 16, 20, 100, BIG} if c < 1 << 63)
        for a in [c for c in cs if c < 1 << 32] + [(1 << 32) - 1]:
            for a64 in (cs if a == 1 else [BIG]):
                asg = lambda t: a if s32(t) else a64 if s64(t) else None
                R = Rows(ctx, F, T, "header", "%s::parse size=%s%s" % (name, a, ",%s" % a64 if a == 1 else ""), x[1], L.const(0))
                hs = 16 if a == 1 else 8
                size = a64 if a == 1 else a
                refuse = 1 < a < 8 or a == 0 or size < hs + full
                some = False
                for st, v in rows:
                    if not Y.admits(T, st, asg):
                        continue
                    t, rest, o = split(T, v)
                    if t == "ok":
                        some = True
                        R.say("accepted", not refuse, "a box of this size is accepted, it cannot hold its own header")
                        f = fields(F, o, adt)
                        if not f:
                            R.say("value", False, "the header is not built from the bytes read")
                            continue
                        R.num("box_size", f["box_size"], 8 if a == 1 else 0, 8 if a == 1 else 4)
                        R.say("header_size", T.lt.lin(f["header_size"]) == L.const(hs + full), "header_size is not %d" % (hs + full))
                        ty = f["box_type"]
                        R.say("box_type", ty[0] == "latin1" and T.slc(ty[1]) is not None and T.slc(ty[1])[1:] == (x[1], k(4), k(8)), "the type is not the four bytes after the size")
                        if full:
                            R.num("version", f["version"], hs, 1)
                            R.num("flags", f["flags"], hs + 1, 3)
                        R.rest("rest", rest, hs + full)
                    elif not refuse:
                        R.short("refused", st, v, hs + full)
                R.say("reachable", some or refuse, "no complete box of this size is accepted")
        # body sizes
        T = reader(F)
        fs = names(F, adt)
        for st, v in T.walk(C.method(F, adt, "body_size"), [("agg", adt, None, tuple(("sym", n) for n in fs))], State(), 0, ()):
            ctx.oblige("header", "%s::body_size" % name, T.lt.lin(v) == L.sub(T.lt.lin(("sym", "box_size")), T.lt.lin(("sym", "header_size"))),
                       "%s::body_size is not box_size - header_size" % name)
    # the box itself
    HB = "bbox::BoxHolder"
    hp = C.method(F, "bbox::BoxHeader", "parse")
    hf = names(F, "bbox::BoxHeader")

    def stub(T, c, a, st):
        h = ("agg", "bbox::BoxHeader", None, tuple(("sym", n) for n in hf))
        return [(st, T.nom_ok(T.sub(T.slc(a[0]), T.lt.lin(("sym", "header_size"))), h)), (st, ("agg", OKP, 1, (("sym", "bad header"),)))]
    T = reader(F, {hp.id: stub})
    x = T.input("in")
    b = C.method(F, HB, "parse")
    n = 0
    size = T.lt.lin(("sym", "box_size"))
    R = Rows(ctx, F, T, "box", "BoxHolder::parse", x[1], L.const(0))
    for st, v in T.walk(b, [x], State(), 0, ()):
        t, rest, o = split(T, v)
        if t == "ok":
            n += 1
            f = fields(F, o, HB)
            d = f and T.slc(f["data"])
            R.say("data", d and d[1] == x[1] and T.start(d) == L.const(0) and T.end(d) == size, "a box's data is not the box_size bytes from its start")
            R.say("header", f and f["header"][0] == "agg" and f["header"][3] == tuple(("sym", m) for m in hf), "the header of a box is not the one parsed at its start")
            R.rest("rest", rest, size)
        elif t == "err":
            bad = any(y == ("sym", "bad header") for y in walk(v))
            R.say("refused", bad or Y.needs(T, st, size), "a complete box is refused")
    ctx.floor("boxes", n, 1)
    T = reader(F)
    box = ("agg", HB, None, tuple(("agg", "bbox::BoxHeader", None, tuple(("sym", m) for m in hf)) if m == "header" else T.input("data") for m in names(F, HB)))
    for st, v in T.walk(C.method(F, HB, "body_data"), [box], State(), 0, ()):
        if v[0] == "diverge":
            continue
        d = T.slc(v)
        ctx.oblige("box", "body_data", d is not None and d[1] == ("sym", "data") and T.start(d) == T.lt.lin(("sym", "header_size")) and T.end(d) == T.lt.lin(("len", ("sym", "data"))),
                   "the body of a box is not what follows its header")


# ---- shared by the full boxes
def full(F, version):
    return ("agg", FB, None, tuple(k(version) if n == "version" else ("sym", n) for n in names(F, FB)))


def many_of(T, t):
    """(repetition, closure or None) behind a collected list"""
    while t[0] == "from":
        t = t[1]
    if t[0] == "manyv":
        return t[1], None
    if t[0] == "call":
        n = t[1].rsplit("::", 1)[-1]
        if n in ("collect", "from_iter", "into_iter", "from") and len(t[2]) >= 1:
            return many_of(T, t[2][0])
        if n == "map" and len(t[2]) == 2:
            m = many_of(T, t[2][0])
            return (m[0], t[2][1]) if m and m[1] is None else None
    return None


def keyed(T, F, clo, item):
    """[(state, key, value)] of the closure that makes a map entry of an item"""
    out = []
    for st, v, *_ in T.apply(clo, [item], State(), 0, (), {}):
        if v[0] == "agg" and v[1] == "()" and len(v[3]) == 2:
            out.append((st, v[3][0], v[3][1]))
        else:
            out.append((st, None, None))
    return out


def filed(T, F, st, t, adt, variants=((),)):
    """how the entries of a repetition are put into a map: (repetition, [(state, entry, key, value)]) or None.
    variants: values of some fields of an entry to try"""
    m = many_of(T, t)
    if m is not None:
        if m[0] not in T.repeats or m[1] is None:
            return None
        out = []
        for fix in variants:
            fix = dict(fix)
            it = ("agg", adt, None, tuple(fix.get(n, ("sym", "item." + n)) for n in names(F, adt)))
            out += [(s, it, key, v) for s, key, v in keyed(T, F, m[1], it)]
        return m[0], out
    # an explicit loop: each entry taken from the repetition is inserted
    nx = [e for e in st.events if e[0] == "call" and e[1].rsplit("::", 1)[-1] == "next"]
    if not nx:
        return None
    src = [y for e in nx[:1] for y in walk(e[2]) if isinstance(y, tuple) and y and y[0] == "manyv"]
    if len(src) != 1:
        return None
    got = [("fld", ("as", e[1], 1), 0) for e, c in st.cons.items() if isinstance(e, tuple) and e and e[0] == "disc" and e[1][0] == "call" and e[1][1].rsplit("::", 1)[-1] == "next" and c == ("=", 1)]
    ins = [e[2] for e in st.events if e[0] == "call" and e[1].rsplit("::", 1)[-1] == "insert" and len(e[2]) == 3]
    if len(got) != len(ins):
        return None
    return src[0][1], [(st, it, i[1], i[2]) for it, i in zip(got, ins)]


def fieldof(F, adt, it, n):
    i = names(F, adt).index(n)
    return it[3][i] if it[0] == "agg" else ("fld", it, i)


def count_ok(T, r, base, off, width):
    return len(r[1]) == {"many_m_n": 2, "count": 1}.get(r[0]) and all(Y.is_read(T, c, base, L.const(off), width) for c in r[1])


# ---- iloc
def iloc(ctx, F):
    b = C.impl_fn(F, "bbox::ParseBody", ILOC, "parse_body")
    vidx = {n: C.vidx(F, METHOD, n) for n in ("FileOffset", "IdatOffset", "ItemOffset")}
    total = 0
    for ver in (0, 1, 2):
        T = reader(F)
        x = T.input("in")
        base = x[1]
        rows = list(T.walk(b, [x, full(F, ver)], State(), 0, ()))
        W = 2 if ver < 2 else 4
        where = "iloc v%d" % ver
        R = Rows(ctx, F, T, "iloc", where, base, L.const(0))
        done = None
        for st, v in rows:
            t, rest, o = split(T, v)
            if t != "ok":
                continue
            f = fields(F, o, ILOC)
            m = f and filed(T, F, st, f["items"], LOC)
            R.say("items", m and m[0] in T.repeats, "the items are not the entries read")
            if not m or m[0] not in T.repeats:
                continue
            done = T.repeats[m[0]]
            for _, it, key, value in m[1]:
                R.say("key", key is not None and strip_from(key) == fieldof(F, LOC, it, "id") and value == it, "items are not filed under their item id")
            rep = done
            R.say("count", count_ok(T, rep, base, 2, W), "the number of items is not the %d-byte count after the size nibbles" % W)
            R.say("first", L.sub(T.start(rep[2]), L.add(L.const(2 + W), L.sub(T.start(rep[2]), L.const(T.start(rep[2])[0])))) == L.const(0), "the first item does not follow the count")
        R.say("accepted", done, "no item location box is accepted")
        if done:
            total += items(ctx, F, T, ver, done, base, where, vidx)
        for st, v in rows:
            if split(T, v)[0] == "err" and not Y.needs(T, st, L.const(2 + W)):
                R.say("refused", any(e[0] == "many" for e in st.events), "a box is refused before its items are read")
    ctx.floor("iloc rows judged", total, 250)


def items(ctx, F, T, ver, rep, base, where, vidx):
    W = 2 if ver < 2 else 4
    start = T.start(rep[2])
    n = 0
    sizes = (0, 4, 8, 1, 2)
    idx = sizes if ver else (0,)
    for bo in sizes:
        for combo in [(0, 0, 0)] if bo not in (4,) else [(i, o, l) for i in idx for o in sizes for l in sizes]:
            i, o, l = combo
            for cm in (tuple(range(18)) + (0xfff1, 0xfff2) if ver and combo == (0, 4, 4) else (0,)):
                p = W + (2 if ver else 0)          # data reference index
                q = p + 2                          # base offset
                e = q + bo                         # extent count
                for ec in ((0, 1, 2, 31, 32, 33, 65535) if combo in ((0, 4, 4), (0, 0, 0)) and cm == 0 else (1,)):
                    def asg(t):
                        if t[2] == 1 and t[5] == k(0):
                            return o << 4 | l
                        if t[2] == 1 and t[5] == k(1):
                            return bo << 4 | i
                        d = L.sub(T.lt.lin(t[5]), start)
                        if t[2] == 2 and ver and d == L.const(W):
                            return cm
                        if t[2] == 2 and d == L.const(e):
                            return ec
                        return None
                    R = Rows(ctx, F, T, "iloc", "%s base=%d index=%d offset=%d length=%d method=%d" % (where, bo, i, o, l, cm), base, start)
                    refuse = bo not in (0, 4, 8) or ec > 32
                    got = False
                    for st, v in rep[3]:
                        if not Y.admits(T, st, asg):
                            continue
                        t, rest, w = split(T, v)
                        if t == "ok":
                            got = True
                            n += 1
                            f = fields(F, w, LOC)
                            R.say("accepted", not refuse, "an item with %d extents is accepted" % ec)
                            if not f or refuse:
                                R.say("value", f, "the item is not built from the bytes read")
                                continue
                            R.num("id", f["id"], 0, W)
                            R.num("data_ref_index", f["data_ref_index"], p, 2)
                            want = {1: "IdatOffset", 2: "ItemOffset"}.get(cm & 15, "FileOffset")
                            R.say("method", f["construction_method"] == ("agg", METHOD, vidx[want], ()), "the construction method is not %s" % want)
                            if bo:
                                R.num("base_offset", f["base_offset"], q, bo)
                            else:
                                R.say("base_offset", T.lt.lin(f["base_offset"]) == L.const(0), "an absent base offset is not zero")
                            m = many_of(T, f["extents"])
                            r2 = T.repeats.get(m[0]) if m and m[1] is None else None
                            R.say("extents", r2 and len(r2[1]) == 2 and all(Y.is_read(T, c, base, at(T, start, e), 2) for c in r2[1]), "the extents are not as many as the extent count says")
                            if not r2:
                                continue
                            s2 = T.start(r2[2])
                            at0 = [a for a, c in L.sub(s2, start)[1] if str(T.lt.term[a][1]).startswith("elem")]
                            R.say("extents-at", len(at0) == 1 and L.sub(s2, start)[0] == e + 2, "the extents do not follow their count")
                            R2 = Rows(ctx, F, T, "iloc", R.where + " extent", base, s2)
                            ok2 = 0
                            for st2, v2 in r2[3]:
                                if not Y.admits(T, st2, asg):
                                    continue
                                t2, rest2, x2 = split(T, v2)
                                bad = any(z not in (0, 4, 8) for z in (i, o, l))
                                if t2 == "ok":
                                    ok2 += 1
                                    g = fields(F, x2, EXT)
                                    R2.say("accepted", not bad, "a field of a size other than 0, 4 or 8 is accepted")
                                    if bad or not g:
                                        continue
                                    off = 0
                                    for nm, z in (("index", i), ("offset", o), ("length", l)):
                                        if z:
                                            R2.num(nm, g[nm], off, z)
                                        else:
                                            R2.say(nm, T.lt.lin(g[nm]) == L.const(0), "an absent %s is not zero" % nm)
                                        off += z
                                    R2.rest("rest", rest2, off)
                                elif not bad:
                                    R2.short("refused", st2, v2, i + o + l)
                            R2.say("reachable", ok2 or any(z not in (0, 4, 8) for z in (i, o, l)), "no complete extent is accepted")
                        elif not refuse and not Y.needs(T, st, at(T, start, e + 2)):
                            R.say("refused", any(z[0] == "many" and z[2] != 0 and T.slc(z[3]) and L.sub(T.start(T.slc(z[3])), at(T, start, e + 2)) == L.const(0) for z in st.events),
                                  "a complete item is refused")
                    R.say("reachable", got or refuse, "no item is accepted")
    return n


# ---- iinf / infe
def iinf(ctx, F):
    PB = [b for b in F.bodies.values() if b.path == "<T as bbox::ParseBox<O>>::parse_box"]
    ctx.floor("parse_box", len(PB), 1)

    def stub(T, c, a, st):
        return [(st, T.nom_ok(("sym", "rest"), ("boxof", selfty(F, c), a[0]))), (st, ("agg", OKP, 1, (("sym", "bad box"),)))]
    b = C.impl_fn(F, "bbox::ParseBody", IINF, "parse_body")
    for ver in (0, 1, 2):
        T = reader(F, {PB[0].id: stub})
        x = T.input("in")
        W = 4 if ver else 2
        R = Rows(ctx, F, T, "iinf", "iinf v%d" % ver, x[1], L.const(0))
        n = 0
        for st, v in T.walk(b, [x, full(F, ver)], State(), 0, ()):
            if v[0] == "diverge":
                continue
            t, rest, o = split(T, v)
            if t == "err":
                R.say("refused", Y.needs(T, st, L.const(W)) or any(e[0] == "many" for e in st.events), "a complete box is refused")
                continue
            f = t == "ok" and fields(F, o, IINF)
            some_ = lambda h: ("agg", "std::option::Option", h, (("sym", "item.type"),) if h else ())
            m = f and filed(T, F, st, f["entries"], INFE, [{"item_type": some_(0)}, {"item_type": some_(1)}])
            R.say("entries", m and m[0] in T.repeats, "the entries are not the boxes read")
            if not m or m[0] not in T.repeats:
                continue
            n += 1
            rep = T.repeats[m[0]]
            R.say("count", count_ok(T, rep, x[1], 0, W), "the number of entries is not the leading %d-byte count" % W)
            R.say("first", T.start(rep[2])[0] == W, "the first entry does not follow the count")
            els = [split(T, v2)[2] for _, v2 in rep[3] if split(T, v2)[0] == "ok"]
            R.say("element", els and all(e == ("boxof", INFE, rep[2]) for e in els), "an entry is not an item information entry box")
            for s2, it, key, value in m[1]:
                ty = fieldof(F, INFE, it, "item_type")
                if ty[0] == "agg":
                    want = ty[3][0] if ty[2] == 1 else fieldof(F, INFE, it, "item_name")
                else:
                    c = s2.cons.get(("disc", ty, "std::option::Option"))
                    want = ("fld", ("as", ty, 1), 0) if c == ("=", 1) else fieldof(F, INFE, it, "item_name") if c is not None else None
                R.say("key", want is not None and key is not None and strip_from(key) == want and value == it, "entries are not filed under their item type (their name when they have none)")
        R.say("reachable", n, "no box is accepted")
    cs = [c for c in F.bodies.values() if c.path == "utils::parse_cstr"]
    ctx.floor("parse_cstr", len(cs), 1)

    def cstr(T, c, a, st):
        T.uniq += 1
        st = T.event(st, ("cstr", a[0]))
        return [(st, T.nom_ok(("sym", "aft%d" % T.uniq), ("cstr", a[0]))), (st, ("agg", OKP, 1, (("sym", "bad name"),)))]
    b = C.impl_fn(F, "bbox::ParseBody", INFE, "parse_body")
    for ver in (0, 1, 2, 3):
        T = reader(F, {cs[0].id: cstr})
        x = T.input("in")
        W = 4 if ver > 2 else 2
        R = Rows(ctx, F, T, "infe", "infe v%d" % ver, x[1], L.const(0))
        n = 0
        for st, v in T.walk(b, [x, full(F, ver)], State(), 0, ()):
            if v[0] == "diverge":
                continue
            t, rest, o = split(T, v)
            p = W + 2
            q = p + (4 if ver >= 2 else 0)
            if t == "err":
                utf = any(e[0] == "disc" and c == ("=", 1) and "from_utf8" in repr(e) for e, c in st.cons.items() if isinstance(e, tuple))
                R.say("refused", Y.needs(T, st, L.const(q)) or any(y == ("sym", "bad name") for y in walk(v)) or (ver >= 2 and utf) or "nom-error" in repr(v) and after_name(st),
                      "a complete entry is refused")
                continue
            f = t == "ok" and fields(F, o, INFE)
            if not f:
                R.say("value", t != "ok", "the entry is not built from the bytes read")
                continue
            n += 1
            R.num("id", f["id"], 0, W)
            R.num("protection_index", f["protection_index"], W, 2)
            ty = f["item_type"]
            if ver >= 2:
                regs = [T.slc(y) for y in walk(ty) if isinstance(y, tuple) and y and y[0] == "slc"]
                R.say("item_type", ty[0] == "agg" and ty[2] == 1 and regs and all(y[1:] == (x[1], k(p), k(p + 4)) for y in regs), "the item type is not the four bytes after the protection index")
            else:
                R.say("item_type", ty == NONE, "an entry of version %d has no item type" % ver)
            nm = f["item_name"]
            r = T.slc(nm[1]) if nm[0] == "cstr" else None
            R.say("item_name", r and r[1] == x[1] and T.start(r) == L.const(q), "the item name is not the string that follows")
        R.say("reachable", n, "no entry is accepted")


def after_name(st):
    return any("cstr" in repr(e) for e in st.events)


def selfty(F, c):
    c = getattr(c, "callee", c)
    for a in [c.full or "", c.rpath or ""]:
        if a.startswith("<") and " as " in a:
            return a[1:].split(" as ")[0]
    return c.full


# ---- meta
def meta(ctx, F):
    PB = [b for b in F.bodies.values() if b.path == "<T as bbox::ParseBox<O>>::parse_box"]
    hb = C.method(F, "bbox::BoxHolder", "parse")
    HB = "bbox::BoxHolder"

    def pb(T, c, a, st):
        return [(st, T.nom_ok(("sym", "rest"), ("boxof", selfty(F, c), a[0]))), (st, ("agg", OKP, 1, (("sym", "bad box"),)))]

    def hs(T, c, a, st):
        T.uniq += 1
        s = T.event(st, ("box", T.uniq, a[0]))
        return [(s, T.nom_ok(("sym", "rest%d" % T.uniq), ("holder", a[0]))), (st, ("agg", OKP, 1, (("sym", "bad holder"),)))]
    T = reader(F, {PB[0].id: pb, hb.id: hs}, unroll=1)
    x = T.input("in")
    R = Rows(ctx, F, T, "meta", "MetaBox::parse_body", x[1], L.const(0))
    hdr = ("sym", "HDR")
    seen = {}
    for st, v in T.walk(C.impl_fn(F, "bbox::ParseBody", META, "parse_body"), [x, hdr], State(), 0, ()):
        if v[0] == "diverge":
            continue
        t, rest, o = split(T, v)
        if t == "err":
            R.say("refused", any(y in (("sym", "bad box"), ("sym", "bad holder")) for y in walk(v)), "a meta box whose boxes are sound is refused")
            continue
        f = t == "ok" and fields(F, o, META)
        if not f:
            R.say("value", False, "the meta box is not built from its boxes")
            continue
        for nm, adt in (("iinf", IINF), ("iloc", ILOC)):
            looked = [(e, c) for e, c in st.cons.items() if isinstance(e, tuple) and e and e[0] == "disc" and e[1][0] == "call" and e[1][1].rsplit("::", 1)[-1] in ("get", "remove")
                      and any(y == k(nm) or y == k(nm.encode()) for y in walk(e[1][2][1]))]
            got = f[nm]
            if got == NONE:
                R.say(nm + "/absent", looked and all(c == ("=", 0) or c[0] == "!=" and 1 in c[1] for _, c in looked), "the %s box is left out although the meta box has one" % nm)
                continue
            seen[nm] = 1
            p = got[3][0] if got[0] == "agg" and got[2] == 1 else None
            okb = p is not None and p[0] == "boxof" and p[1] == adt and len(looked) == 1
            R.say(nm + "/parsed", okb, "what is kept as %s is not the %s box of the meta box" % (nm, nm))
            if not okb:
                continue
            src = looked[0][0][1]
            held = ("fld", ("as", src, 1), 0)
            data = ("fld", held, names(F, HB).index("data"))
            R.say(nm + "/data", strip_from(p[2]) in (data, strip_from(data)), "the %s box is not parsed from the box's own bytes" % nm)
            m = filed(T, F, st, src[2][0], HB)
            if m and m[0] in T.repeats:
                rep = T.repeats[m[0]]
                els = [split(T, v2)[2] for _, v2 in rep[3] if split(T, v2)[0] == "ok"]
                R.say(nm + "/boxes", els and all(e == ("holder", rep[2]) for e in els) and T.start(rep[2])[0] == 0, "the boxes of the meta box are not those its body holds, from its start")
                for s2, v2 in rep[3]:
                    if split(T, v2)[0] == "err":
                        R.say(nm + "/stop", any(y == ("sym", "bad holder") for y in walk(v2)) or ended(T, s2, rep[2]), "reading the boxes stops before the end of the body")
                entries = m[1]
            else:
                # an explicit loop that keeps each box it reads
                place, kept = x, []
                for e in st.events:
                    if e[0] == "box":
                        R.say(nm + "/boxes", e[2] == place, "the boxes of the meta box are not those its body holds, one behind the other")
                        place = ("sym", "rest%d" % e[1])
                        kept.append(("holder", e[2]))
                R.say(nm + "/stop", ended(T, st, place), "reading the boxes stops before the end of the body")
                got = [e[2][1:] for e in st.events if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("push", "insert")]
                R.say(nm + "/list", [g[-1] for g in got] == kept, "boxes are not looked up among those of the meta box")
                it = ("agg", HB, None, tuple(("sym", "item." + z) for z in names(F, HB)))
                clos = [y for y in walk(src[2][0]) if isinstance(y, tuple) and y and y[0] == "clo"]
                entries = [(s2, it, key, value) for s2, key, value in keyed(T, F, clos[0], it)] if len(clos) == 1 else [(st, g[-1], g[0], g[-1]) for g in got if len(g) == 2]
                R.say(nm + "/keyed", entries or not kept, "boxes are not filed under their type")
            for _, it, key, value in entries:
                h = fieldof(F, HB, it, "header")
                R.say(nm + "/key", key is not None and strip_from(key) == fieldof(F, "bbox::BoxHeader", h, "box_type") and value == it, "boxes are not filed under their type")
    ctx.floor("meta boxes found", len(seen), 2)


def strip_from(t):
    while t[0] == "from":
        t = t[1]
    return t


def empty_row(T, st):
    """the path is taken only when nothing is left"""
    for e, c in st.cons.items():
        if isinstance(e, tuple) and e[0] == "op" and Y.lens(T, e):
            if e[1] in ("Eq", "Le") and c == ("=", 1) or e[1] in ("Ne", "Gt") and c == ("=", 0):
                return True
            if e[1] == "Ge" and c == ("=", 0) and T.lt.lin(e[2])[0] == -1:
                return True
        if isinstance(e, tuple) and e[0] == "lin" and Y.lens(T, e) and c == ("=", 0):
            return True
    return False


# ---- finding boxes
def same_type(F, st, box):
    """whether the path knows the box's type to be / not to be the one wanted: (other side, yes/no)"""
    hi, ti = names(F, "bbox::BoxHolder").index("header"), names(F, "bbox::BoxHeader").index("box_type")
    ty = ("fld", ("fld", box, hi), ti)
    for e, c in st.cons.items():
        if e == ty and c[0] == "=":
            return k(c[1]), True
        if e == ty and c[0] == "!=" and len(c[1]) == 1:
            return k(list(c[1])[0]), False
        if isinstance(e, tuple) and e[0] == "op" and e[1] in ("Eq", "Ne") and c[0] == "=":
            xs = [strip_from(x) for x in e[2:]]
            if ty in xs:
                o = xs[1 - xs.index(ty)]
                return o, (e[1] == "Eq") == bool(c[1])
    return None, None


def box_stub(T, c, a, st):
    T.uniq += 1
    i = T.uniq
    return [(T.event(st, ("box", i, a[0])), T.nom_ok(("sym", "rest%d" % i), ("sym", "box%d" % i))), (st, ("agg", OKP, 1, (("sym", "bad box"),)))]


def find_stub(T, c, a, st):
    T.uniq += 1
    i = T.uniq
    s = T.event(st, ("find", i, a[0], a[1]))
    return [(s, T.nom_ok(("sym", "rest%d" % i), ("agg", "std::option::Option", 1, (("sym", "box%d" % i),)))), (s, T.nom_ok(("sym", "rest%d" % i), NONE)),
            (st, ("agg", OKP, 1, (("sym", "bad box"),)))]


def ended(T, st, place):
    x = T.slc(place)
    for e, c in st.cons.items():
        if not isinstance(e, tuple):
            continue
        if e[0] == "call" and e[1].rsplit("::", 1)[-1] == "is_empty" and e[2] == (place,) and c == ("=", 1):
            return True
        if e[0] in ("len", "lin", "call") and c == ("=", 0) and (e == ("len", place) or e == ("call", "len", (place,))):
            return True
    if x is not None:
        return T.lt.entails(L.scale(T.avail(x), -1), T.lt.facts(st))
    return False


def search(ctx, F):
    hb = C.method(F, "bbox::BoxHolder", "parse")
    ft = C.one_fn(F, "find_box_by_type", "bbox::find_box_by_type")
    fb = C.one_fn(F, "find_box", "bbox::find_box")
    some = lambda v: v[3][0] if v and v[0] == "agg" and v[1] == "std::option::Option" and v[2] == 1 else None
    T = reader(F, {hb.id: box_stub}, unroll=2)
    x, want = T.input("in"), ("sym", "WANT")
    R = Rows(ctx, F, T, "search", "find_box_by_type", x[1], L.const(0))
    n = 0
    for st, v in T.walk(ft, [x, want], State(), 0, ()):
        if v[0] == "diverge":
            continue
        t, rest, o = split(T, v)
        ev = [e for e in st.events if e[0] == "box"]
        place = x
        for e in ev:
            R.say("walk", e[2] == place, "a box is not looked for right behind the one before it")
            place = ("sym", "rest%d" % e[1])
        boxes = [("sym", "box%d" % e[1]) for e in ev]
        if t == "err":
            R.say("refused", any(y == ("sym", "bad box") for y in walk(v)), "the search fails although every box is sound")
            continue
        n += 1
        hit = some(o)
        if hit is not None:
            R.say("hit", boxes and hit == boxes[-1] and same_type(F, st, hit) == (want, True), "the box found is not of the type asked for")
            boxes = boxes[:-1]
        else:
            R.say("none", o == NONE and ended(T, st, place), "the search stops before the data ends")
        for b in boxes:
            R.say("miss", same_type(F, st, b) == (want, False), "a box of the type asked for is passed over")
    ctx.floor("searches", n, 4)
    # a path of types
    T = reader(F, {ft.id: find_stub}, unroll=2)
    x = T.input("in")
    R = Rows(ctx, F, T, "search", "find_box", x[1], L.const(0))
    n = 0
    bd = C.method(F, "bbox::BoxHolder", "body_data")
    for st, v in T.walk(fb, [x, ("sym", "PATH")], State(), 0, ()):
        t, rest, o = split(T, v)
        ev = [e for e in st.events if e[0] == "find"]
        if v[0] == "diverge" or t != "ok" or not ev:
            if t == "err":
                R.say("refused", any(y == ("sym", "bad box") for y in walk(v)), "the search fails although every box is sound")
            continue
        n += 1
        place = x
        for e in ev:
            R.say("within", e[2] == place, "a box is not looked for in the body of the one named before it")
            for _, place in T.walk(bd, [("sym", "box%d" % e[1])], State(), 0, ()):
                break
        hit = some(o)
        R.say("hit", hit == ("sym", "box%d" % ev[-1][1]) if hit is not None else o == NONE, "the box found is not the last one named")
        R.say("parts", any(y[0] == "call" and y[1].rsplit("::", 1)[-1] == "split" and y[2] and y[2][0] == ("sym", "PATH") and y[2][1:] in ((k(47),), (k("/"),), (k(b"/"),)) for y in walk(ev[0][3]) if isinstance(y, tuple) and y),
              "the names looked for are not the parts of the path")
    ctx.floor("path searches", n, 2)
    # ftyp, then meta
    PB = [b for b in F.bodies.values() if b.path == "<T as bbox::ParseBox<O>>::parse_box"]
    pm = C.one_fn(F, "parse_meta_box", "heif::parse_meta_box")

    def pb(T, c, a, st):
        return [(st, T.nom_ok(("sym", "rest"), ("boxof", selfty(F, c), a[0]))), (st, ("agg", OKP, 1, (("sym", "bad box"),)))]
    T = reader(F, {PB[0].id: pb, hb.id: box_stub, fb.id: find_stub})
    x = T.input("in")
    R = Rows(ctx, F, T, "search", "parse_meta_box", x[1], L.const(0))
    n = 0
    di = names(F, "bbox::BoxHolder").index("data")
    for st, v in T.walk(pm, [x], State(), 0, ()):
        if v[0] == "diverge":
            continue
        t, rest, o = split(T, v)
        bx = [e for e in st.events if e[0] == "box"]
        fd = [e for e in st.events if e[0] == "find"]
        first = ("sym", "box%d" % bx[0][1]) if bx else None
        ty = same_type(F, st, first) if bx else (None, None)
        if t == "err":
            R.say("refused", any(y == ("sym", "bad box") for y in walk(v)) or ty in ((k("ftyp"), False), (k(b"ftyp"), False)), "a file that begins with a file type box and has a sound meta box is refused")
            continue
        n += 1
        R.say("ftyp", len(bx) == 1 and bx[0][2] == x and ty[1] is True and ty[0] in (k("ftyp"), k(b"ftyp")), "a file that does not begin with a file type box is read")
        R.say("meta", len(fd) == 1 and bx and fd[0][2] == ("sym", "rest%d" % bx[0][1]) and fd[0][3] in (k("meta"), k(b"meta")), "the meta box is not looked for behind the file type box")
        got = some(o)
        if fd and got is not None:
            R.say("parsed", got[0] == "boxof" and got[1] == META and strip_from(got[2]) == ("fld", ("sym", "box%d" % fd[0][1]), di), "what is parsed is not the meta box")
        elif o != NONE:
            R.say("parsed", False, "what is returned is not the meta box")
    ctx.floor("meta searches", n, 2)


# ---- where the Exif item is
def location(ctx, F):
    T = reader(F)
    b = C.method(F, META, "exif_data_offset")
    vidx = {n: C.vidx(F, METHOD, n) for n in ("FileOffset", "IdatOffset", "ItemOffset")}
    adt = F.adt(METHOD)
    def opt(nm, inner):
        return ("agg", "std::option::Option", 1, (inner,))
    iin = ("agg", IINF, None, tuple(("sym", "iinf." + n) for n in names(F, IINF)))
    ilo = ("agg", ILOC, None, tuple(("sym", "iloc." + n) for n in names(F, ILOC)))
    n = 0
    for hi in (0, 1):
        for hl in (0, 1):
            sel = ("agg", META, None, tuple({"iinf": opt("iinf", iin) if hi else NONE, "iloc": opt("iloc", ilo) if hl else NONE}.get(m, ("sym", m)) for m in names(F, META)))
            for st, v in T.walk(b, [sel], State(), 0, ()):
                key = "exif_data_offset iinf=%d iloc=%d" % (hi, hl)
                R = Rows(ctx, F, T, "location", key, ("sym", "x"), L.const(0))
                is_none = v == NONE
                if is_none:
                    why = None
                    for e, c in st.cons.items():
                        if isinstance(e, tuple) and e[0] == "disc":
                            if e[1][0] == "call" and e[1][1].rsplit("::", 1)[-1] in ("get", "first", "checked_add") and (c == ("=", 0) or c[0] == "!=" and 1 in c[1]):
                                why = e
                            if e[2] == METHOD and (c[0] == "=" and c[1] != vidx["FileOffset"] or c[0] == "!=" and vidx["FileOffset"] in c[1]):
                                why = e
                    R.say("none", not hi or not hl or why is not None, "the Exif item is not found although it is listed with a location in the file")
                    continue
                if v[0] == "diverge":
                    continue
                n += 1
                R.say("some", hi and hl and v[0] == "agg" and v[2] == 1, "a location is made up")
                rng = v[3][0] if v[0] == "agg" and v[3] else None
                if not rng or rng[0] != "agg" or len(rng[3]) != 2:
                    R.say("range", False, "the location is not a range of the file")
                    continue
                gets = [e[1] for e, c in st.cons.items() if isinstance(e, tuple) and e[0] == "disc" and e[1][0] == "call" and e[1][1].rsplit("::", 1)[-1] == "get"]
                ge = [g for g in gets if g[2][0] == ("sym", "iinf.entries")]
                R.say("by-type", len(ge) == 1 and strip_from(ge[0][2][1]) in (k("Exif"), k(b"Exif")), "the Exif item is not looked up by the item type \"Exif\"")
                gl = [g for g in gets if g[2][0] == ("sym", "iloc.items")]
                idt = ("fld", ("fld", ("as", ge[0], 1), 0), names(F, INFE).index("id")) if ge else None
                R.say("by-id", len(gl) == 1 and gl[0][2][1] == idt, "the location is not looked up by the item's id")
                if not gl:
                    continue
                item = ("fld", ("as", gl[0], 1), 0)
                fl = lambda o, a, nm: ("fld", o, names(F, a).index(nm))
                firsts = [e[1] for e, c in st.cons.items() if isinstance(e, tuple) and e[0] == "disc" and e[1][0] == "call" and e[1][1].rsplit("::", 1)[-1] in ("first", "get") and fl(item, LOC, "extents") in [strip_from(y) for y in e[1][2]]]
                R.say("extent", len(firsts) == 1 and (firsts[0][1].endswith("first") or firsts[0][2][1:] == (k(0),)), "the extent taken is not the item's first")
                if not firsts:
                    continue
                ex = ("fld", ("as", firsts[0], 1), 0)
                want0 = L.add(T.lt.lin(fl(item, LOC, "base_offset")), T.lt.lin(fl(ex, EXT, "offset")))
                want1 = L.add(want0, T.lt.lin(fl(ex, EXT, "length")))
                R.say("start", T.lt.lin(rng[3][0]) == want0, "the item does not start at base offset + extent offset")
                R.say("end", T.lt.lin(rng[3][1]) == want1, "the item does not end length bytes after its start")
                mt = ("disc", fl(item, LOC, "construction_method"), METHOD)
                c = st.cons.get(mt)
                R.say("method", c == ("=", vidx["FileOffset"]) or c is not None and c[0] == "!=" and {vidx["IdatOffset"], vidx["ItemOffset"]} <= set(c[1]),
                      "an offset that does not count from the start of the file is taken as one")
    ctx.floor("locations", n, 1)


# ---- taking the data
def extract(ctx, F):
    b = C.one_fn(F, "extract_exif_data", "heif::extract_exif_data")
    pm = C.one_fn(F, "parse_meta_box", "heif::parse_meta_box")
    eo = C.method(F, META, "exif_data_offset")
    S, E = ("sym", "exif_start"), ("sym", "exif_end")

    def pms(T, c, a, st):
        return [(st, T.nom_ok(("sym", "aft"), ("agg", "std::option::Option", 1, (("sym", "META"),)))),
                (st, T.nom_ok(("sym", "aft"), NONE)), (st, ("agg", OKP, 1, (("sym", "bad meta"),)))]

    def eos(T, c, a, st):
        ok1 = st.assume(("op", "Ge", ("lin", L.sub(T.lt.lin(E), T.lt.lin(S))), k(0)), 1) or st
        T.asked = a[0] == ("sym", "META")
        return [(T.event(ok1, ("located",)), ("agg", "std::option::Option", 1, (("agg", "std::ops::Range", None, (S, E)),))), (st, NONE)]
    T = reader(F, {pm.id: pms, eo.id: eos})
    buf = T.input("buf")
    PS = "parser::ParsingState"
    hv = [i for i, v in enumerate(F.adt(PS)["vs"]) if v["n"] == "HeifExifSize"][0]
    lin = T.lt.lin
    blen = lin(("len", buf[1]))
    counts = {"buffered": 0, "skipped": 0, "resumed": 0}
    R = Rows(ctx, F, T, "extract", "heif::extract_exif_data", buf[1], L.const(0))
    # from the start
    for st, v in T.walk(b, [NONE, buf], State(), 0, ()):
        if ("located",) not in st.events or v[0] == "diverge":
            continue
        t, p = C.result(v)
        facts = T.lt.facts(st)
        if t == "ok":
            counts["buffered"] += 1
            R.say("buffered/in", T.lt.entails(L.sub(blen, lin(E)), facts), "an item that is not all in the buffer is taken from it")
            judge_data(T, R, "buffered", st, p[3][0] if p[0] == "agg" else None, lin(S), L.sub(lin(E), lin(S)))
        else:
            counts["skipped"] += 1
            pes = [y for y in walk(p) if isinstance(y, tuple) and y[:2] == ("agg", "error::ParsingError")]
            cs = F.adt("error::ParsingError")
            ski = [i for i, q in enumerate(cs["vs"]) if q["n"] == "ClearAndSkip"][0]
            R.say("skip", len(pes) == 1 and pes[0][2] == ski and lin(pes[0][3][0]) == lin(S), "the data before the Exif item is not what is skipped")
            sts = [y for y in walk(p) if isinstance(y, tuple) and y[:2] == ("agg", PS)]
            R.say("size", len(sts) == 1 and sts[0][2] == hv and size_is(T, sts[0][3][0], L.sub(lin(E), lin(S)), S, E), "the size remembered across the skip is not the item's length")
            R.say("skip/when", not T.lt.entails(L.sub(blen, lin(E)), facts), "an item that is in the buffer is skipped to")
    # after the skip
    SZ = ("sym", "size")
    state = ("agg", "std::option::Option", 1, (("agg", PS, hv, (SZ,)),))
    for st, v in T.walk(b, [state, buf], State(), 0, ()):
        t, p = C.result(v)
        if v[0] == "diverge":
            continue
        if t == "ok":
            counts["resumed"] += 1
            R.say("resumed/in", T.lt.entails(L.sub(blen, lin(SZ)), T.lt.facts(st)), "an item that is not all in the buffer is taken from it")
            judge_data(T, R, "resumed", st, p[3][0] if p[0] == "agg" else None, L.const(0), lin(SZ))
        else:
            R.say("resumed/need", Y.needs(T, st, lin(SZ)), "a complete item is refused after the skip")
            R.say("resumed/state", state in list(walk(p)), "the item's size is forgotten while more data is read")
    for n, c in counts.items():
        ctx.floor("exif item " + n, c, 1)


def size_is(T, t, want, S, E):
    if T.lt.lin(t) == want:
        return True
    # Range::len
    return t in (("len", ("agg", "std::ops::Range", None, (S, E))),)


def judge_data(T, R, key, st, data, at_, length):
    """None, or the item less its 4-byte offset and the Exif marker"""
    if data == NONE:
        bad = False
        for e, c in st.cons.items():
            if isinstance(e, tuple) and e[0] == "op" and c[0] == "=" and (e[1] == "Eq" and c[1] == 0 or e[1] == "Ne" and c[1] == 1) and k(b"Exif\0\0") in e[2:]:
                o = [T.slc(y) for y in e[2:] if y[0] == "slc"]
                bad = bool(o) and o[0][1] == R.base and L.sub(T.start(o[0]), L.addc(at_, 4)) == L.const(0)
        R.say(key + "/none", bad or Y.needs(T, st, L.addc(L.add(at_, length), 0)) is not None or short_item(T, st, length), "an item that begins with the Exif marker gives no data")
        return
    d = T.slc(data[3][0]) if data and data[0] == "agg" and data[2] == 1 else None
    R.say(key + "/data", d is not None and d[1] == R.base and L.sub(T.start(d), L.addc(at_, 10)) == L.const(0) and L.sub(T.end(d), L.add(at_, length)) == L.const(0),
          "the data taken is not the item after its offset field and Exif marker")
    mk = [T.slc(y) for e, c in st.cons.items() if isinstance(e, tuple) and e[0] == "op" and e[1] == "Eq" and c == ("=", 1) and k(b"Exif\0\0") in e[2:] for y in e[2:] if y[0] == "slc"]
    R.say(key + "/marker", len(mk) == 1 and mk[0][1] == R.base and L.sub(T.start(mk[0]), L.addc(at_, 4)) == L.const(0), "the data is taken without the Exif marker after the offset field")


def short_item(T, st, length):
    """the path is for an item of fewer than 10 bytes"""
    return T.lt.entails(L.sub(L.const(9), length), T.lt.facts(st))


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("each row (path condition, result) of the box parsers is compared, for every class of the sizes, versions and counts it branches on, with the "
                "layout ISO/IEC 14496-12 gives: offset, width, byte order, count and continuation")
    headers(ctx, F)
    iloc(ctx, F)
    iinf(ctx, F)
    meta(ctx, F)
    search(ctx, F)
    location(ctx, F)
    extract(ctx, F)
