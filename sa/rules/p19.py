"""P19: the text entries and the Exif block of a PNG are those of its chunks, however the file is cut into buffer contents."""
from table import k, isk, State, NONE, some
from rules import common as C
from terms import walk
from known import Known, Lay
import lin as L

B = ("sym", "in")
SIG = b"\x89PNG\r\n\x1a\n"
PE = "error::ParsingError"
OUT, SRC = "png::PngParseOut", "png::PngExifSource"
MAX = 1 << 20
TIFF = b"II*\0\x08\0\0\0"


def names(F, adt):
    return [f["n"] for f in F.adt(adt)["vs"][0]["fs"]]


class Png:
    """a PNG of known chunk types and lengths; the bytes of chunks are unknown but for keywords and profiles"""
    def __init__(self, chunks):
        self.lay = Lay()
        self.lay.add(B, [SIG])
        self.chunks = []        # (type, offset, length)
        self.prof = {}          # offset of a text's value -> base of the profile's bytes, or None when it is not hexadecimal
        for ty, body, *prof in chunks:
            n = sum(x if isinstance(x, int) else len(x) for x in body)
            off = self.lay.size[B]
            self.lay.add(B, [n.to_bytes(4, "big") + ty] + list(body) + [4])
            self.chunks.append((ty, off, n))
            if prof:
                key = next(x for x in body if not isinstance(x, int))
                v = off + 8 + key.index(b"\0") + 1
                base = ("sym", "profile at %d" % v)
                self.prof[v] = base if prof[0] is not None else None
                if prof[0] is not None:
                    self.lay.add(base, prof[0])
        self.end = self.lay.size[B]

    def reference(self):
        text, exif, pri = [], None, 0
        for ty, off, n in self.chunks:
            if ty == b"IEND":
                return text, exif
            if ty == b"eXIf":
                exif, pri = (B, off + 8, off + 8 + n), 3
            if ty == b"tEXt" and n <= MAX:
                i = next((i for i in range(min(n, 100)) if self.lay.byte(B, off + 8 + i) == 0), None)
                if i is None:
                    continue
                key = self.lay.bytes(B, off + 8, off + 8 + i)
                text.append(((off + 8, off + 8 + i), (off + 8 + i + 1, off + 8 + n)))
                p = {b"Raw profile type APP1": 2, b"Raw profile type exif": 1}.get(key, 0)
                base = self.prof.get(off + 8 + i + 1)
                if p > pri and base is not None:
                    a = 6 if p == 2 and self.lay.bytes(base, 0, 6) == b"Exif\0\0" else 0
                    z = self.lay.size[base]
                    if self.lay.bytes(base, a, a + 8) == TIFF:
                        exif, pri = (base, a, z), p
        return text, exif


def pngs():
    ih, id_, ie = (b"IHDR", [13]), (b"IDAT", [500]), (b"IEND", [])
    t = lambda key, n: (b"tEXt", [key + b"\0", n])
    raw = lambda kind, prof: (b"tEXt", [b"Raw profile type " + kind + b"\0", 90], prof)
    ex = (b"eXIf", [60])
    yield "plain", [ih, id_, ie]
    yield "text", [ih, t(b"Title", 7), id_, t(b"Author", 0), t(b"Title", 3), t(b"", 5), ie]
    yield "text without separator", [ih, (b"tEXt", [b"Title"]), (b"tEXt", []), t(b"A", 1), ie]
    yield "text with separators", [ih, (b"tEXt", [b"K\0a\0b\0"]), ie]
    yield "Exif", [ih, ex, id_, ie]
    yield "Exif behind data", [ih, t(b"A", 2), id_, id_, ex, t(b"B", 2), ie]
    yield "two Exif", [ih, ex, id_, (b"eXIf", [70]), ie]
    yield "empty Exif", [ih, (b"eXIf", []), ie]
    yield "bytes behind the end", [ih, ie, ex, t(b"A", 1)]
    yield "other chunks", [ih, (b"zTXt", [b"K\0", 9]), (b"iTXt", [b"K\0\0\0\0\0", 9]), (b"text", [b"K\0", 9]), (b"exIf", [30]), (b"IEnd", []), (b"iEND", [3]), t(b"A", 1), ie]
    yield "large text", [ih, t(b"A", MAX - 2), t(b"B", MAX - 1), t(b"C", 3), ie]
    yield "large chunks", [ih, t(b"A", 2), (b"IDAT", [(1 << 31) - 1]), ex, (b"IDAT", [(1 << 31) - 1]), t(b"B", 2), ie]
    yield "profile", [ih, raw(b"exif", [TIFF, 30]), id_, ie]
    yield "APP1 profile", [ih, raw(b"APP1", [b"Exif\0\0" + TIFF, 30]), t(b"A", 2), ie]
    yield "APP1 profile without marker", [ih, raw(b"APP1", [TIFF, 30]), ie]
    yield "exif profile with marker", [ih, raw(b"exif", [b"Exif\0\0" + TIFF, 30]), ie]
    yield "profiles", [ih, raw(b"exif", [TIFF, 30]), raw(b"APP1", [b"Exif\0\0" + TIFF, 40]), raw(b"exif", [TIFF, 50]), id_, ie]
    yield "profiles of one kind", [ih, raw(b"exif", [TIFF, 30]), raw(b"exif", [TIFF, 50]), id_, raw(b"exif", [TIFF, 70]), ie]
    yield "profiles reversed", [ih, raw(b"APP1", [TIFF, 40]), id_, raw(b"exif", [TIFF, 50]), ie]
    yield "profile and Exif", [ih, raw(b"APP1", [TIFF, 40]), id_, ex, id_, raw(b"APP1", [TIFF, 50]), ie]
    yield "Exif and APP1 profile", [ih, ex, raw(b"APP1", [TIFF, 40]), ie]
    yield "Exif and exif profile", [ih, ex, id_, raw(b"exif", [TIFF, 40]), id_, ie]
    yield "shortest profile", [ih, raw(b"exif", [TIFF]), ie]
    yield "marker in a short profile", [ih, raw(b"APP1", [b"Exif\0\0"]), raw(b"APP1", [b"Exif\0\0" + TIFF]), ie]
    yield "broken profiles", [ih, raw(b"exif", None), raw(b"exif", [b"II*\0\x08\0\0"]), raw(b"APP1", [b"II+\0" + TIFF, 9]), id_, raw(b"exif", [TIFF, 30]), ie]
    yield "other profiles", [ih, raw(b"xmp", [TIFF, 30]), raw(b"EXIF", [TIFF, 30]), raw(b"exif ", [TIFF, 30]), ie]


def walker(F, P):
    dec = C.one_fn(F, "decode_raw_profile_value", "png::decode_raw_profile_value")
    hp = C.method(F, "exif::TiffHeader", "parse") if any(True for b in F.bodies.values() if b.path == "exif::TiffHeader::parse") else None
    bad = []

    def decode(T, c, a, st):
        v = a[0][1] if a[0][0] == "latin1" else a[0]
        w = T.where(v)
        if w is None or w[0] != B or w[1] not in P.prof:
            bad.append(str(a[0])[:80])
            return [(st, ("agg", "std::result::Result", 1, (("agg", "()", None, ()),)))]
        base = P.prof[w[1]]
        return [(st, ("agg", "std::result::Result", 1, (("agg", "()", None, ()),)) if base is None else ("agg", "std::result::Result", 0, (P.lay.region(base),)))]

    def head(T, c, a, st):
        w = T.where(a[0])
        if w is None or w[0] not in P.prof.values() or w[2] != P.lay.size[w[0]]:
            bad.append(str(a[0])[:80])
            return [(st, ("agg", "std::result::Result", 1, (("sym", "no header"),)))]
        if w[2] - w[1] >= 8 and P.lay.bytes(w[0], w[1], w[1] + 8) == TIFF:
            return [(st, T.nom_ok(("sym", "rest"), ("sym", "header")))]
        return [(st, ("agg", "std::result::Result", 1, (("sym", "no header"),)))]
    stubs = {dec.id: decode}
    for b in F.bodies.values():
        if b.path.endswith("TiffHeader::parse"):
            stubs[b.id] = head
    return Known(F, P.lay, stubs), bad


def chars(T, v):
    """the bytes of the file a string is made of, one character each: (start, end), or the constant"""
    if v[0] == "latin1":
        w = T.where(v[1])
        return (w[1], w[2]) if w and w[0] == B else None
    return v[1] if isk(v) else None


def same(T, P, v, at):
    c = chars(T, v)
    if isinstance(c, str):
        b = P.lay.bytes(B, *at)
        return b is not None and c == b.decode("latin1")
    return c == at


def explore(ctx, F, name, P):
    fn = C.one_fn(F, "extract_chunks", "png::extract_chunks")
    T, bad = walker(F, P)
    ends = [off + 12 + n for _, off, n in P.chunks]
    cuts = {0, 7, 8, P.end}
    iend = next(off for ty, off, _ in P.chunks if ty == b"IEND")
    for _, off, n in P.chunks:
        cuts |= {off, off + 1, off + 7, off + 8, off + 9, off + 8 + n, off + 11 + n, off + 12 + n}
    cuts = sorted(c for c in cuts if c <= P.end)
    text, exif = P.reference()
    todo, seen, n = [(0, NONE, ())], set(), 0
    say = lambda key, cond, msg: ctx.oblige("chunks", "%s/%s" % (name, key), bool(cond), None if cond else "PNG %s: %s" % (name, msg))
    while todo:
        start, state, hist = todo.pop()
        if (start, state) in seen:
            continue
        seen.add((start, state))
        if len(seen) > 60:
            say("states", False, "the walker carries ever new state")
            break
        for cut in cuts:
            if cut < start:
                continue
            how = "buffer %s" % " then ".join("%d..%d" % h for h in hist + ((start, cut),))
            got = 0
            for st, v in T.walk(fn, [P.lay.region(B, start, cut), state], State(), 0, ()):
                if v[0] == "diverge":
                    continue
                got += 1
                n += 1
                t, p = C.result(v)
                # the first chunk not complete in the buffer
                part = next((c for c in P.chunks if c[1] + 12 + c[2] > cut), None)
                if t == "ok":
                    say("complete", cut >= iend + 8, "a result is returned before the end of the file is seen (%s)" % how)
                    f = dict(zip(names(F, OUT), p[3])) if p[0] == "agg" else {}
                    es = f.get("text_chunks", ())
                    es = es[3] if es and es[0] == "agg" and es[1] == "[]" else None
                    ok_ = es is not None and len(es) == len(text) and all(e[0] == "agg" and len(e[3]) == 2 and same(T, P, e[3][0], a) and same(T, P, e[3][1], b) for e, (a, b) in zip(es, text))
                    say("text", ok_, "the text entries are not those of the tEXt chunks (%s)" % how)
                    say("exif", source(F, T, f.get("exif"), start) == exif, "the Exif block is not the one the chunks give (%s)" % how)
                    continue
                e = p
                f = dict(zip(names(F, "error::ParsingErrorState"), e[3])) if e[0] == "agg" and e[1] == "error::ParsingErrorState" else {}
                er, nx = f.get("err"), f.get("state")
                kind = F.adt(PE)["vs"][er[2]]["n"] if er and er[0] == "agg" and er[1] == PE and isinstance(er[2], int) else None
                amt = T.lt.lin(er[3][0]) if kind in ("Need", "ClearAndSkip") else None
                amt = amt[0] if amt and not amt[1] else None
                if kind == "Need":
                    say("need", amt is not None and amt >= 1 and cut < iend + 8 and (cut < 8 or part is not None) and cut + amt <= max(iend + 8, 8, part[1] + 12 + part[2] if part else 0),
                        "%s more bytes are asked for (%s)" % (amt, how))
                    if nx is not None and nx != state:
                        todo.append((start, nx, hist))
                elif kind == "ClearAndSkip":
                    to = None if amt is None else start + amt
                    say("skip", to in ends and to > start and to <= iend, "the walker continues at %s (%s)" % (to, how))
                    if to in ends and to <= iend and nx is not None:
                        todo.append((to, nx, hist + ((start, cut),)))
                else:
                    say("refused", False, "a well-formed file is refused (%s)" % how)
            say("total", got, "no result (%s)" % how)
    say("profile", not bad, "a profile is decoded from, or checked in, another place: %s" % bad[:1])
    return n


def source(F, T, v, start):
    """the bytes an Exif source denotes: (base, start, end)"""
    if v == NONE:
        return None
    if v is None or v[0] != "agg" or v[2] != 1 or v[3][0][0] != "agg" or v[3][0][1] != SRC:
        return "unknown"
    x = v[3][0][3][0]
    if x[0] == "agg" and x[1].endswith("Range"):
        r = [T.lt.lin(y) for y in x[3]]
        return (B, start + r[0][0], start + r[1][0]) if not r[0][1] and not r[1][1] else "unknown"
    w = T.where(x)
    return w or "unknown"


def handed(ctx, F):
    """what the parser does with the walker's result"""
    it = C.one_fn(F, "input_into_iter", "exif::exif_iter::input_into_iter")
    lp = [b for b in F.bodies.values() if b.path.rsplit("::", 1)[-1] == "load_and_parse"]
    share = [b for b in F.bodies.values() if b.path.rsplit("::", 1)[-1] == "share_buf"]
    n = 0
    for fn in ("parse_png_full", "parse_png_exif_iter"):
        b = C.one_fn(F, fn, "exif::" + fn)
        for kind in ("EXif", "Legacy", None):
            calls = []
            lay = Lay()
            lay.add(("sym", "whole"), [1000])
            lay.add(("sym", "prof"), [50])

            def load(T, c, a, st):
                src = NONE
                if kind == "EXif":
                    src = some(("agg", SRC, C.vidx(F, SRC, kind), (("agg", "std::ops::Range", None, (k(100), k(160))),)))
                if kind == "Legacy":
                    src = some(("agg", SRC, C.vidx(F, SRC, kind), (lay.region(("sym", "prof")),)))
                vals = {"exif": src, "text_chunks": ("sym", "texts")}
                return [(st, ("agg", "std::result::Result", 0, (("agg", OUT, None, tuple(vals[x] for x in names(F, OUT))),)))]

            def sh(T, c, a, st):
                return [(st, ("agg", "()", None, (lay.region(("sym", "whole")), k(300))))]

            def iter_(T, c, a, st):
                calls.append(tuple(a))
                return [(st, ("agg", "std::result::Result", 0, (("sym", "iter"),)))]
            T = Known(F, lay, {it.id: iter_, **{x.id: load for x in lp}, **{x.id: sh for x in share}})
            say = lambda key, cond, msg: ctx.oblige("handed", "%s %s/%s" % (fn, kind, key), bool(cond), None if cond else "%s with %s: %s" % (fn, kind, msg))
            seen = 0
            for st, v in T.walk(b, [("sym", "parser"), ("sym", "reader"), ("sym", "skip")], State(), 0, ()):
                if v[0] == "diverge":
                    continue
                seen += 1
                n += 1
                t, p = C.result(v)
                if fn == "parse_png_full":
                    say("result", t == "ok" and p[0] == "agg" and p[3] == (NONE if kind is None else some(("sym", "iter")), ("sym", "texts")), "the result is not the walker's Exif and text")
                else:
                    say("result", t == ("err" if kind is None else "ok") and (kind is None or p == ("sym", "iter")), "the result is not the walker's Exif")
            want = {"EXif": (("sym", "whole"), 400, 460), "Legacy": (("sym", "prof"), 0, 50)}.get(kind)
            say("bytes", {view(T, c[0]) for c in calls} == ({want} if want else set()) and all(c[1] == NONE for c in calls), "the Exif data is not the bytes the walker found")
            say("reachable", seen, "no result")
    ctx.floor("results handed on", n, 6)


def view(T, t):
    if t[0] == "call" and t[1].endswith("::slice") and len(t[2]) == 2 and t[2][1][0] == "agg":
        w = T.where(t[2][0])
        r = [T.lt.lin(x) for x in t[2][1][3]]
        return (w[0], w[1] + r[0][0], w[1] + r[1][0]) if w and not r[0][1] and not r[1][1] else None
    if t[0] == "call" and len(t[2]) == 1:
        return view(T, t[2][0])
    if t[0] == "from":
        return view(T, t[1])
    return T.where(t)


# ---- the hexadecimal text of a profile
def unhex(s):
    ls = s.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    if len(ls) < 3:
        return None
    body = "".join(x for x in ls[3:])
    body = "".join(c for c in body if c not in " \n\r\t")
    if any(c not in "0123456789abcdefABCDEF" for c in body) or len(body) % 2:
        return None
    return bytes.fromhex(body)


def legacy(ctx, F):
    fn = C.one_fn(F, "decode_raw_profile_value", "png::decode_raw_profile_value")
    ts = ["", "\n", "\nexif\n", "\nexif\n   4", "\nexif\n   4\n", "\nexif\n   4\n4949", "\nexif\n   4\n4949\n2a 00\n", "\nexif\n4\n49 49\t2a\r\n00", "\nexif\n4\n494", "\nexif\n4\n4\n9",
          "\nAPP1\n4\n45786966\n0000", "x\ny\nz\n00ff", "\n\n\nABCDEF\nabcdef", "\nexif\n4\n\n\n00"]
    ts += ["\nexif\n4\n%s0" % chr(c) for c in range(1, 128)] + ["\nexif\n4\n0%s" % chr(c) for c in range(1, 128)] + ["\nexif\n4\n00%s00" % chr(c) for c in (0, 11, 12, 160, 233, 255)]
    n = 0
    for s in ts:
        T = Known(F, Lay())
        rows = [(st, v) for st, v in T.walk(fn, [k(s)], State(), 0, ()) if v[0] != "diverge"]
        want = unhex(s)
        good = len(rows) == 1
        if good:
            t, p = C.result(rows[0][1])
            if want is None:
                good = t == "err"
            else:
                good = t == "ok" and p[0] == "agg" and p[1] == "[]" and all(isk(x) for x in p[3]) and bytes(x[1] for x in p[3]) == want
        n += 1
        ctx.oblige("hex", repr(s), good, None if good else "the profile text %r does not decode to %s" % (s, "an error" if want is None else want))
    ctx.floor("profile texts decoded", n, 200)


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = "each PNG layout is walked at every kind of cut of the buffer, carrying the state from cut to cut; every result is compared with the chunks"
    n = 0
    for name, chunks in pngs():
        n += explore(ctx, F, name, Png(chunks))
    ctx.floor("walker results", n, 500)
    handed(ctx, F)
    legacy(ctx, F)
