"""P21: the embedded track of a Motion Photo JPEG is the trailer its XMP declares."""
import re
from table import k, isk, State, NONE, some
from rules import common as C
from stream import run_fn
from known import Known, Lay

B = ("sym", "in")
XMP = b"http://ns.adobe.com/xap/1.0/\0"
SCAN = "jpeg::MotionPhotoScan"


def num(s):
    """u64::from_str on the text of an attribute"""
    if s is None or not re.fullmatch(rb"\+?[0-9]+", s):
        return None
    n = int(s)
    return n if n < 1 << 64 else None


def attr(x, name):
    i = x.find(name + b'="')
    if i < 0:
        return None
    i += len(name) + 2
    j = x.find(b'"', i)
    return None if j < 0 else x[i:j]


def container(x):
    i = x.find(b"<Container:Directory")
    j = x.find(b"</Container:Directory>", i) if i >= 0 else -1
    if j < 0:
        return None
    d, items, p = x[i:j], [], 0
    while True:
        p = d.find(b"<Container:Item", p)
        if p < 0:
            break
        e = d.find(b">", p)
        if e < 0:
            return None
        items.append(d[p:e])
        p = e
    at = next((n for n, t in enumerate(items) if attr(t, b"Item:Semantic") == b"MotionPhoto" or attr(t, b"Item:Mime") == b"video/mp4"), None)
    if at is None:
        return None
    total = 0
    for n, t in enumerate(items[at:], at):
        m = num(attr(t, b"Item:Length"))
        if m is None:
            return None
        total += m + ((num(attr(t, b"Item:Padding")) or 0) if n < len(items) - 1 else 0)
        if total >= 1 << 64:
            return None
    return total


def declared(x):
    """the length of the trailer an XMP packet declares"""
    if b'GCamera:MotionPhoto="1"' not in x and b'GCamera:MicroVideo="1"' not in x:
        return None
    c = container(x)
    if c is not None:
        return c
    a = attr(x, b"GCamera:MotionPhotoOffset")
    return num(a if a is not None else attr(x, b"GCamera:MicroVideoOffset"))


def xmps():
    G = 'GCamera:MotionPhoto="1"'
    it = lambda **a: "<Container:Item " + " ".join('Item:%s="%s"' % x for x in a.items()) + "/>"
    dr = lambda *its: "<Container:Directory>" + "".join(its) + "</Container:Directory>"
    im, mp = it(Mime="image/jpeg", Semantic="Primary", Length="0", Padding="7"), it(Mime="video/mp4", Semantic="MotionPhoto", Length="500", Padding="80")
    yield "nothing", ""
    yield "no signal", 'GCamera:MotionPhotoOffset="400"'
    yield "signal off", 'GCamera:MotionPhoto="0" GCamera:MotionPhotoOffset="400"'
    yield "offset", G + ' GCamera:MotionPhotoOffset="400"'
    yield "offset first", 'GCamera:MotionPhotoOffset="18446744073709551615" ' + G
    yield "offset too large", G + ' GCamera:MotionPhotoOffset="18446744073709551616"'
    yield "no offset", G
    yield "offset of letters", G + ' GCamera:MotionPhotoOffset="4x"'
    yield "offset empty", G + ' GCamera:MotionPhotoOffset=""'
    yield "offset unclosed", G + ' GCamera:MotionPhotoOffset="40'
    yield "offset negative", G + ' GCamera:MotionPhotoOffset="-4"'
    yield "micro video", 'GCamera:MicroVideo="1" GCamera:MicroVideoOffset="321"'
    yield "both offsets", G + ' GCamera:MicroVideoOffset="321" GCamera:MotionPhotoOffset="400"'
    yield "mixed", G + ' GCamera:MicroVideoOffset="321"'
    yield "container without signal", dr(im, mp)
    yield "container", G + dr(im, mp)
    yield "container over offset", G + ' GCamera:MotionPhotoOffset="400"' + dr(im, mp)
    yield "gain map in front", G + dr(im, it(Mime="image/jpeg", Semantic="GainMap", Length="900", Padding="5"), mp)
    yield "items behind", G + dr(im, mp, it(Mime="image/jpeg", Semantic="GainMap", Length="900", Padding="5"), it(Semantic="Other", Length="11"))
    yield "by type only", G + dr(im, it(Mime="video/mp4", Semantic="Video", Length="77"))
    yield "by meaning only", G + dr(im, it(Mime="video/quicktime", Semantic="MotionPhoto", Length="78"))
    yield "two videos", G + dr(mp, it(Mime="video/mp4", Length="3"))
    yield "no length", G + ' GCamera:MotionPhotoOffset="400"' + dr(im, it(Semantic="MotionPhoto"))
    yield "padding of the last", G + dr(im, mp, it(Semantic="Other", Length="11", Padding="9"))
    yield "bad padding", G + dr(it(Semantic="MotionPhoto", Length="5", Padding="x"), it(Length="6"))
    yield "no video item", G + ' GCamera:MotionPhotoOffset="400"' + dr(im)
    yield "no items", G + ' GCamera:MotionPhotoOffset="400"' + dr()
    yield "open directory", G + ' GCamera:MotionPhotoOffset="400"<Container:Directory>' + mp
    yield "item outside", G + mp + dr(im)
    yield "length overflow", G + ' GCamera:MotionPhotoOffset="400"' + dr(it(Semantic="MotionPhoto", Length="18446744073709551615"), it(Length="1"))


def segs(xs):
    """(layout of a JPEG, segments as (code, end, trailer length or None))"""
    lay, out = Lay(), []
    lay.add(B, [b"\xff\xd8"])
    for code, body in xs:
        n = sum(x if isinstance(x, int) else len(x) for x in body)
        lay.add(B, [bytes([0xff, code]) + (n + 2).to_bytes(2, "big")] + list(body))
        m = declared(body[0][len(XMP):]) if code == 0xe1 and body and not isinstance(body[0], int) and body[0].startswith(XMP) else None
        out.append((code, lay.size[B], m))
    lay.add(B, [40])
    return lay, out


def explore(ctx, F, name, xs, deep):
    fn = C.one_fn(F, "scan_motion_photo", "jpeg::scan_motion_photo")
    lay, ss = segs(xs)
    want, dend = None, None
    for code, z, m in ss:
        dend = z
        if code == 0xda:
            break
        if m is not None:
            want = m
            break
    cuts = sorted({0, 1, 2, lay.size[B]} | {z + d for _, z, _ in ss for d in ((-1, 0, 1, 3) if deep else (-1, 0))} - (set() if deep else {0, 1}))
    n = 0
    for cut in cuts:
        T = Known(F, lay, unroll=400, max_paths=400)
        rows = [v for _, v in T.walk(fn, [lay.region(B, 0, cut)], State(), 0, ()) if v[0] != "diverge"]
        n += 1
        if cut < dend:
            w = ("agg", SCAN, C.vidx(F, SCAN, "NeedMoreBytes"), ())
        elif want is None:
            w = ("agg", SCAN, C.vidx(F, SCAN, "NotPresent"), ())
        else:
            w = ("agg", SCAN, C.vidx(F, SCAN, "Found"), (k(want),))
        ctx.oblige("scan", name, rows == [w], None if rows == [w] else "JPEG %s, buffer 0..%d: the scan does not give %s" % (name, cut, w[2:]))
    return n


def layouts():
    sos, ex, app0 = (0xda, [b"\x01\0\0\0\x3f\0"]), (0xe1, [b"Exif\0\0", 20]), (0xe0, [b"JFIF\0", 9])
    x = lambda m: (0xe1, [XMP + b'GCamera:MotionPhoto="1" GCamera:MotionPhotoOffset="%d"' % m])
    plain = (0xe1, [XMP + b"<x:xmpmeta/>"])
    yield "XMP first", [x(4), ex, sos]
    yield "XMP behind other segments", [app0, ex, (0xe2, [b"ICC_PROFILE\0", 300]), (0xdb, [65]), x(5), sos]
    yield "two packets", [ex, plain, x(6), sos]
    yield "two signals", [ex, x(7), x(8), sos]
    yield "no packet", [app0, ex, sos]
    yield "packet behind the scan", [ex, sos, x(9)]
    yield "packet in another segment", [ex, (0xe2, x(3)[1]), (0xfe, x(3)[1]), sos]
    yield "other name space", [ex, (0xe1, [b"http://ns.adobe.com/xmp/extension/\0" + x(3)[1][0][29:]]), sos]
    yield "name space without end", [ex, (0xe1, [XMP[:-1] + b"   " + x(3)[1][0][29:]]), sos]
    yield "longest segment", [(0xe2, [65533]), x(2), sos]
    yield "empty segments", [(0xe1, []), (0xfe, []), x(2), sos]


OK, ERR = "std::result::Result", 1
UNITV = ("agg", "()", None, ())


def stubs(F, **by):
    """stubs by the last segment of the function's path"""
    out = {}
    for b in F.bodies.values():
        f = by.get(b.path.rsplit("::", 1)[-1])
        if f is not None:
            out[b.id] = f
    return out


def detect(ctx, F, side=""):
    """whether a track is announced: the scan is repeated on more of the file until it knows"""
    fn = C.one_fn(F, "detect_motion_photo" + side, "exif::detect_motion_photo" + side)
    kinds = ("Found", "NotPresent")
    n = 0
    lim = 256 << 10
    for kind in kinds:
        for need, left in ((0, 0), (1, 1), (1, 9000), (8192, 8192), (8193, 9000), (100000, 100001), (lim - 1, lim), (lim, lim), (1, 0), (8193, 8192), (50000, 49999)):
            have = [0, 0, 0]

            def buffer(T, c, a, st):
                return [(st, ("sym", "all %d" % have[0]))]

            def scan(T, c, a, st):
                if a[0] != ("sym", "all %d" % have[0]):
                    have[1] += 1
                v = kind if have[0] >= need else "NeedMoreBytes"
                return [(st, ("agg", SCAN, C.vidx(F, SCAN, v), (k(77),) if v == "Found" else ()))]

            def fill(T, c, a, st):
                w = T.lt.lin(a[2])
                have[2] += 1
                if w[1] or have[2] > 400:
                    return [(st, ("diverge", "fill"))]
                g = min(w[0], left - have[0])
                have[0] += g
                return [(st, ("agg", OK, 0, (k(g),)) if g > 0 else ("agg", OK, ERR, (("sym", "eof"),)))]
            T = Known(F, Lay(), stubs(F, buffer=buffer, scan_motion_photo=scan, fill_buf=fill), unroll=400)
            rows = [v for _, v in run_fn(T, fn, [("sym", "parser"), ("sym", "reader")], State())]
            n += 1
            want = kind == "Found" and need <= left
            good = len(rows) == 1 and rows[0] == k(int(want)) and not have[1]
            ctx.oblige("announced", "%s after %d of %d%s" % (kind, need, left, side.replace("_", ", ")), good,
                       None if good else "a scan that ends with %s once %d more bytes are read, of %d left, does not give %s" % (kind, need, left, want))
    ctx.floor("announcements", n, 22)


def track(ctx, F):
    """which bytes become the track"""
    fn = C.one_fn(F, "parse_jpeg_motion_photo", "parser::MediaParser::parse_jpeg_motion_photo")
    E, PE, MM = "error::Error", "error::ParsingError", "file::MediaMime"
    err = lambda n, *p: (ERR, ("agg", E, C.vidx(F, E, n), p))
    Lg, n = 5000, 0
    W = ("sym", "whole")
    for mem in (1, 0):
        for off in (None, 1, 100, Lg - 1, Lg, Lg + 1, (1 << 64) - 1):
            for sniff in (("track", "info"), ("track", "need"), ("track", "skip"), ("track", "failed"), ("image", ""), ("none", "")):
                lay = Lay()
                lay.add(W, [Lg])
                seen = []
                rec = lambda a, what: seen.append((what,) + (a[0], ) + tuple(a[1:]))

                def find(T, c, a, st):
                    rec(a, "find")
                    return [(st, NONE if off is None else some(k(off)))]

                def scan(T, c, a, st):
                    rec(a, "find")
                    return [(st, ("agg", SCAN, C.vidx(F, SCAN, "NotPresent" if off is None else "Found"), () if off is None else (k(off),)))]

                def mime(T, c, a, st):
                    rec(a, "sniff")
                    if sniff[0] == "none":
                        return [(st, ("agg", OK, ERR, (("sym", "unknown"),)))]
                    i = C.vidx(F, MM, "Track" if sniff[0] == "track" and T.where(a[0]) != (W, 0, Lg) else "Image")     # the file itself is a JPEG
                    return [(st, ("agg", OK, 0, (("agg", MM, i, (("sym", "kind"),)),)))]

                def info(T, c, a, st):
                    rec(a, "parse")
                    v = {"info": (0, ("sym", "info")), "need": (1, ("agg", PE, C.vidx(F, PE, "Need"), (k(9),))), "skip": (1, ("agg", PE, C.vidx(F, PE, "ClearAndSkip"), (k(9),))),
                         "failed": (1, ("agg", PE, C.vidx(F, PE, "Failed"), (("sym", "unit"), ("sym", "message"))))}[sniff[1]]
                    return [(st, ("agg", OK, v[0], (v[1],)))]
                whole = lambda T, c, a, st: [(st, lay.region(W))]
                ss = stubs(F, find_motion_photo_offset=find, parse_track_info=info, buffer=whole, buf_mut=whole, is_memory_mode=lambda T, c, a, st: [(st, k(mem))])
                for b in F.bodies.values():
                    if b.path.endswith("::try_from") and "MediaMime as" in b.path:
                        ss[b.id] = mime
                T = Known(F, lay, ss)
                rows = []
                for st, v in T.walk(fn, [("sym", "self"), ("sym", "reader")], State(), 0, ()):
                    if v[0] == "diverge":
                        continue
                    t, p = C.result(v)
                    if not mem and t == "err" and (not seen or p[0] != "agg" or "Io" == F.adt(E)["vs"][p[2]]["n"]):
                        continue                # reading failed, or the file is too large
                    rows.append((0 if t == "ok" else ERR, p))
                n += 1
                trail = None if off is None or off >= Lg else (W, Lg - off, Lg)
                if trail is None or sniff[0] != "track":
                    want = err("TrackNotFound")
                elif sniff[1] == "info":
                    want = (0, ("sym", "info"))
                elif sniff[1] == "failed":
                    want = err("Malformed", ("sym", "unit"), ("sym", "message"))
                else:
                    want = None
                good = bool(rows) and all(r == want if want else r[0] == ERR and r[1][2] == C.vidx(F, E, "UnexpectedEof") for r in rows)
                good &= all(T.where(x[1]) == ((W, 0, Lg) if x[0] == "find" else trail) or x[0] == "sniff" and trail is None for x in seen) and any(x[0] == "find" for x in seen)
                good &= all(("sym", "kind") in x for x in seen if x[0] == "parse") and (trail is None or sniff[0] != "track" or any(x[0] == "parse" for x in seen))
                ctx.oblige("trailer", "%s/%s/%s" % ("memory" if mem else "stream", off, "-".join(sniff)), good,
                           None if good else "a declared trailer of %s of %d bytes (sniffed as %s, parsed with %s) gives %s from %s" %
                           (off, Lg, sniff[0], sniff[1] or "-", str(rows)[:120], [(x[0], T.where(x[1])) for x in seen][:3]))
    ctx.floor("trailers", n, 80)


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = "the scan for a Motion Photo is evaluated on XMP texts and segment layouts at every kind of cut, and compared with what the XMP declares"
    n = 0
    sos = (0xda, [b"\x01\0\0\0\x3f\0"])
    for name, x in xmps():
        n += explore(ctx, F, name, [(0xe1, [XMP + x.encode()]), sos], False)
    for name, s in layouts():
        n += explore(ctx, F, name, s, True)
    ctx.floor("scans", n, 100)
    detect(ctx, F)
    detect(ctx, F, "_async")
    track(ctx, F)
