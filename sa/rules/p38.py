"""P38: the Exif block of a JPEG, and of the JPEG in a RAF file, is that of its first Exif segment, however the file is cut into buffer contents."""
from table import k, isk, State, NONE, some
from rules import common as C
from known import Known, Lay
from rules.p19 import view

B = ("sym", "in")
PE = "error::ParsingError"
EXIF = b"Exif\0\0"
XMP = b"http://ns.adobe.com/xap/1.0/\0"
APP1, SOS = 0xe1, 0xda


class Jpg:
    def __init__(self, segs, raf=None):
        self.lay = Lay()
        self.start = 0
        if raf is not None:
            gap, cam = raf
            self.lay.add(B, [b"FUJIFILMCCD-RAW ", 12, cam + bytes(32 - len(cam)), 24, (88 + gap).to_bytes(4, "big"), gap])
            self.start = self.lay.size[B]
        self.lay.add(B, [b"\xff\xd8"])
        self.segs = []      # (marker, start of payload, end, first bytes of the payload)
        for code, body in segs:
            n = sum(x if isinstance(x, int) else len(x) for x in body)
            o = self.lay.size[B]
            self.lay.add(B, [bytes([0xff, code]) + (n + 2).to_bytes(2, "big")] + list(body))
            self.segs.append((code, o + 4, o + 4 + n, next((x for x in body if not isinstance(x, int)), b"")))
        self.lay.add(B, [60])

    def exif(self):
        """(the end of what decides it, the Exif block)"""
        for code, a, z, head in self.segs:
            if code == SOS:
                return z, None
            if code == APP1 and head.startswith(EXIF):
                return z, (a + 6, z) if z - a > 6 else None

    def cuts(self):
        cs = {0, 1, 2, self.lay.size[B], self.start, self.start + 1, self.start + 2} | {x for x in (8, 16, 20, 60, 84, 87, 88) if x < self.start}
        for _, a, z, _ in self.segs:
            cs |= {a - 4, a - 3, a - 2, a - 1, a, a + 1, a + 6, z - 1, z}
        return sorted(c for c in cs if 0 <= c <= self.lay.size[B])

    def edges(self, cut):
        """the end of the part that is incomplete at cut"""
        return next((z for _, _, z, _ in self.segs if z > cut), None)


def jpgs():
    sos = (SOS, [b"\x01\0\0\0\x3f\0"])
    app0, dqt = (0xe0, [b"JFIF\0", 9]), (0xdb, [65])
    ex = lambda n: (APP1, [EXIF, n])
    xmp = (APP1, [XMP, 5000])
    yield "Exif first", [ex(500), dqt, sos]
    yield "JFIF first", [app0, ex(500), dqt, sos]
    yield "no Exif", [app0, dqt, sos]
    yield "only a scan", [sos]
    yield "XMP first", [xmp, ex(500), dqt, sos]
    yield "XMP twice", [app0, xmp, xmp, ex(40), dqt, sos]
    yield "XMP only", [app0, xmp, sos]
    yield "two Exif", [ex(70), ex(500), sos]
    yield "Exif behind other segments", [app0, (0xe2, [b"ICC_PROFILE\0", 3000]), dqt, (0xfe, [11]), (0xc0, [17]), (0xc4, [28]), ex(100), sos]
    yield "Exif behind the scan", [dqt, sos, ex(100), sos]
    yield "Exif in other segments", [(0xe0, [EXIF, 50]), (0xe2, [EXIF, 60]), (0xfe, [EXIF, 70]), ex(30), sos]
    yield "only in other segments", [(0xe0, [EXIF, 50]), (0xe2, [EXIF, 60]), sos]
    yield "longest segment", [ex(65527), dqt, sos]
    yield "longest in front", [(0xe2, [65533]), ex(100), sos]
    yield "empty Exif", [ex(0), dqt, sos]
    yield "one byte of Exif", [ex(1), dqt, sos]
    yield "empty segments", [(0xfe, []), (APP1, []), ex(30), sos]
    yield "short first", [(APP1, [b"Exif\0"]), (APP1, [b"Ex"]), ex(30), sos]
    yield "near marker", [(APP1, [b"exif\0\0", 20]), (APP1, [b"Exif\0\1", 20]), ex(30), sos]


def explore(ctx, F, name, P, kind):
    fn = C.one_fn(F, "extract_exif_range", "exif::extract_exif_range")
    sub = [b.id for b in F.bodies.values() if b.path.rsplit("::", 1)[-1] == "subslice_in_range"]
    mime = "file::MediaMimeImage"
    m = ("agg", mime, C.vidx(F, mime, kind), ())
    dend, want = P.exif()
    n = 0
    say = lambda key, cond, msg: ctx.oblige("located", "%s %s/%s" % (kind, name, key), bool(cond), None if cond else "%s %s: %s" % (kind, name, msg))

    def inside(T, c, a, st):
        w, x = T.where(a[0]), T.where(a[1])
        if w and x and w[0] == x[0] and w[1] <= x[1] <= x[2] <= w[2]:
            return [(st, some(("agg", "std::ops::Range", None, (k(x[1] - w[1]), k(x[2] - w[1])))))]
        return [(st, NONE)]
    for cut in P.cuts():
        T = Known(F, P.lay, {x: inside for x in sub})
        got = 0
        for st, v in T.walk(fn, [m, P.lay.region(B, 0, cut), NONE], State(), 0, ()):
            if v[0] == "diverge":
                continue
            got += 1
            n += 1
            t, p = C.result(v)
            how = "buffer 0..%d" % cut
            if t == "ok":
                say("early", cut >= dend, "a result is returned before %d (%s)" % (dend, how))
                at = None
                if p != NONE:
                    x = p[3][0] if p[0] == "agg" and p[2] == 1 else None
                    ok_ = x is not None and x[0] == "agg" and len(x[3]) == 2 and x[3][0][0] == "agg" and x[3][1] == NONE
                    at = tuple(y[1] for y in x[3][0][3]) if ok_ and all(isk(y) for y in x[3][0][3]) else "unknown"
                say("block", at == want, "the Exif block is %s, not %s (%s)" % (at, want, how))
                continue
            e = dict(zip([f["n"] for f in F.adt("error::ParsingErrorState")["vs"][0]["fs"]], p[3])) if p[0] == "agg" and p[1] == "error::ParsingErrorState" else {}
            er = e.get("err")
            ek = F.adt(PE)["vs"][er[2]]["n"] if er and er[0] == "agg" and er[1] == PE and isinstance(er[2], int) else None
            amt = T.lt.lin(er[3][0]) if ek == "Need" else None
            amt = amt[0] if amt and not amt[1] else None
            end = P.edges(cut)
            say("need", ek == "Need" and amt is not None and amt >= 1 and cut < dend and (cut + amt <= end if end is not None else False),
                "%s (%s)" % ("a well-formed file is refused" if ek != "Need" else "%s more bytes are asked for" % (str(er[3][0])[:60] if amt is None else amt), how))
        say("total", got, "no result (buffer 0..%d)" % cut)
    return n


def handed(ctx, F):
    """what becomes of the range found"""
    fn = C.one_fn(F, "range_to_iter", "exif::range_to_iter")
    it = C.one_fn(F, "input_into_iter", "exif::exif_iter::input_into_iter")
    share = [b for b in F.bodies.values() if b.path.rsplit("::", 1)[-1] == "share_buf"]
    flag = [b for b in F.bodies.values() if b.path.rsplit("::", 1)[-1] == "set_has_embedded_track"]
    lay = Lay()
    lay.add(("sym", "whole"), [1000])
    n = 0
    for found in (True, False):
        calls, flags = [], []

        def iter_(T, c, a, st):
            calls.append(tuple(a))
            return [(st, ("agg", "std::result::Result", 0, (("sym", "iter"),)))]

        def set_(T, c, a, st):
            flags.append(a[1])
            return [(st, ("agg", "()", None, ()))]
        T = Known(F, lay, {it.id: iter_, **{b.id: set_ for b in flag}, **{b.id: (lambda T, c, a, st: [(st, ("agg", "()", None, (lay.region(("sym", "whole")), k(300))))]) for b in share}})
        out = some(("agg", "()", None, (("agg", "std::ops::Range", None, (k(100), k(160))), ("sym", "header")))) if found else NONE
        rows = [C.result(v) for _, v in T.walk(fn, [("sym", "parser"), out, ("sym", "track")], State(), 0, ()) if v[0] != "diverge"]
        n += len(rows)
        say = lambda key, cond, msg: ctx.oblige("handed", "%s/%s" % ("range" if found else "none", key), bool(cond), None if cond else msg)
        if found:
            say("bytes", calls and all(view(T, c[0]) == (("sym", "whole"), 400, 460) and c[1] == ("sym", "header") for c in calls), "the Exif data is not the range found in the buffer")
            say("result", rows and all(r[0] == "ok" and "iter" in str(r[1]) for r in rows), "the result is not the iterator over the Exif data")
            say("track", flags and all(f == ("sym", "track") for f in flags), "the embedded-track flag is not the one given")
        else:
            e = "error::Error"
            say("result", rows and not calls and all(r[0] == "err" and r[1] == ("agg", e, C.vidx(F, e, "ExifNotFound"), ()) for r in rows), "no Exif data is not reported as ExifNotFound")
    ctx.floor("ranges handed on", n, 2)


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = "each layout of segments is walked at every kind of cut of the buffer; the block returned is compared with the first Exif segment in front of the first scan"
    n = 0
    for name, segs in jpgs():
        n += explore(ctx, F, name, Jpg(segs), "Jpeg")
    ctx.floor("JPEG results", n, 300)
    n = 0
    for gap, cam in ((0, b"X-T1\0"), (60, b"X-T1\0"), (40000, b"FinePix S2Pro\0"), (1 << 31, b"X\0")):
        for name, segs in jpgs():
            if name in ("Exif first", "JFIF first", "no Exif", "XMP first", "Exif behind the scan", "two Exif"):
                n += explore(ctx, F, "%s at %d" % (name, 88 + gap), Jpg(segs, (gap, cam)), "Raf")
    ctx.floor("RAF results", n, 200)
    handed(ctx, F)
