"""P30: the format is recognised from the signature and brands, with the documented priority."""
from table import k, isk, State, err
from reader import Reader, known_bytes
import lin as L
from model import Anchor

LEVEL = "other"
QT = ["qt  ", "mqt "]
AVIF = ["avif", "avis", "avio"]
HEIC = ["heic", "heix", "heim", "heis"]
HEIF = ["hevc", "hevm", "hevs", "mif1", "MiHE", "miaf", "MiHB"]
TGP = ["3gp4", "3gp5", "3gp6"]
MP4 = ["3g2a", "3g2b", "3g2c", "3ge6", "3ge7", "3gg6", "3gs7", "avc1", "mp41", "mp42", "iso2", "isom", "vfj1", "XAVC"]
CR3 = ["crx "]
BYMAJOR = {**{b: "QuickTime" for b in QT}, **{b: "Avif" for b in AVIF}, **{b: "Heic" for b in HEIC}, **{b: "Heif" for b in HEIF},
           **{b: "_3gpp" for b in TGP}, **{b: "Mp4" for b in MP4}, **{b: "Cr3" for b in CR3}}
# compatible brands, in order of priority
BYCOMPAT = [(QT, "QuickTime"), (AVIF, "Avif"), (HEIC + HEIF, "Heif"), (TGP + MP4, "Mp4")]
SIGS = {"Png": [(0, b"\x89PNG\r\n\x1a\n")], "Raf": [(0, b"FUJIFILMCCD-RAW ")], "Jpeg": [(0, b"\xff\xd8")],
        "Tiff": [(0, b"II*\0")], "Tiff ": [(0, b"MM\0*")]}
NEED = {"Png": 8, "Raf": 16, "Jpeg": 2, "Tiff": 8, "Tiff ": 8}
EBML, DOCTYPE = 0x1A45DFA3, 0x4282
ALL = [b.encode() for b in BYMAJOR]


class J(Reader):
    """joins the failing paths of each detector; what they knew is kept in `joined`"""
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.joined = []
        self.cut = {}

    def enter(self, body, a, st, depth, stack, env, ups=None):
        if depth != 1 or body.kind not in ("Fn", "AssocFn"):
            yield from super().enter(body, a, st, depth, stack, env, ups)
            return
        failed = False
        for s, v, e in super().enter(body, a, st, depth, stack, env, ups):
            if v[0] == "agg" and (v[1], v[2]) in (("std::result::Result", 1), ("std::option::Option", 0)):
                self.joined.append((body.path, s))
                failed = v
            elif v[0] == "diverge":
                self.cut[str(v[1:])] = self.cut.get(str(v[1:]), 0) + 1
            else:
                yield self.event(s, ("passed", body.path)), v, e
        if failed:
            yield self.event(st, ("failed", body.path)), (err(("sym", "failed")) if failed[1].endswith("Result") else failed), None


def bytes_at(ev):
    """evidence at constant offsets of the input: {offset: byte}"""
    m = {}
    for root, o, b in ev:
        if not o[1]:
            for i, x in enumerate(b):
                m[o[0] + i] = x
    return m


def has(m, off, b):
    return all(m.get(off + i) == x for i, x in enumerate(b))


class Row:
    def __init__(self, T, st):
        self.T, self.st = T, st
        self.eq, self.ne = known_bytes(T, st)
        self.m = bytes_at(self.eq)
        self.large = has(self.m, 0, b"\0\0\0\x01")
        self.major = 16 if self.large else 8
        self.ftyp = has(self.m, 4, b"ftyp")
        self.wide = has(self.m, 4, b"wide")
        self.found = {}
        for e, c in st.cons.items():
            if isinstance(e, tuple) and e and e[0] == "found" and c in (("=", 1), ("=", 0)):
                b = e[2][1]
                if not self.in_ftyp(e[1]):
                    continue
                self.found[b if isinstance(b, bytes) else b.encode()] = c[1]
        self.consts = {c[1] for e, c in st.cons.items() if c[0] == "=" and isinstance(c[1], (int, str)) and isinstance(e, tuple) and e[0] != "op"}
        self.nots = {x for e, c in st.cons.items() if c[0] == "!=" and isinstance(e, tuple) for x in c[1] if isinstance(x, str)}

    def in_ftyp(self, x):
        """the region holds all the compatible brands and nothing past the ftyp box"""
        T = self.T
        a, z = T.lt.lin(x[2]), T.lt.lin(x[3])
        size = T.lt.lin(T.rd(T.input("in"), L.const(8 if self.large else 0), 8 if self.large else 4, "u", "be"))
        return x[1] == T.input("in")[1] and not a[1] and self.major <= a[0] <= self.major + 8 and z == size

    def brand_is(self, b, n=4):
        """True / False / None: what the row knows about the major brand being b"""
        got = [self.m.get(self.major + i) for i in range(n)]
        if all(x is not None for x in got):
            return bytes(got) == b
        if any(x is not None and x != y for x, y in zip(got, b)):
            return False
        for root, o, x in self.ne:
            if not o[1] and o[0] == self.major and b.startswith(x):
                return False
        return None

    def chain(self):
        """offsets of the top-level boxes the row has sized, as linear forms"""
        T, out = self.T, []
        root = next((r for r, o, b in self.eq + self.ne), None)
        lo = L.ZERO
        for _ in range(6):
            out.append(lo)
            one = any(r == root and x == lo and b == b"\0\0\0\x01" for r, x, b in self.eq)
            w, d = (8, 8) if one else (4, 0)
            lo = L.add(lo, T.lt.lin(T.rd(T.input("in"), L.addc(lo, d), w, "u", "be")))
        return out


def expected(r):
    """(format or None if the evidence does not settle it, why)"""
    if r.ftyp:
        for b, fmt in BYMAJOR.items():
            if r.brand_is(b.encode()):
                return fmt, f"major brand '{b}'"
        open_ = [b for b in BYMAJOR if r.brand_is(b.encode()) is None]
        if open_:
            return None, f"the major brand may still be '{open_[0]}'"
        for bs, fmt in BYCOMPAT:
            hit = [b for b in bs if r.found.get(b.encode()) == 1]
            if hit and fmt == "Mp4":
                tg = r.brand_is(b"3gp", 3)
                if tg is None:
                    return None, "the major brand may or may not start with '3gp'"
                return ("_3gpp" if tg else "Mp4"), f"compatible brand '{hit[0]}'"
            if hit:
                return fmt, f"compatible brand '{hit[0]}'"
            miss = [b for b in bs if b.encode() not in r.found]
            if miss:
                return None, f"the compatible brands may still name '{miss[0]}'"
    if r.ftyp or r.wide:
        ch = r.chain()
        for root, o, b in r.eq:
            if b == b"mdat":
                at = L.addc(o, -4)
                if at in ch:
                    return ("Mp4" if r.ftyp else "QuickTime"), "an mdat box"
                return None, "'mdat' is looked for where no box starts"
        if not any(e[0] == "failed" for e in r.st.events):
            return None, f"neither a brand nor an mdat box is known after '{'ftyp' if r.ftyp else 'wide'}'"
    if EBML in r.consts and DOCTYPE in r.consts:
        if "webm" in r.consts:
            return "Webm", "EBML document type webm"
        if "webm" in r.nots:
            return "Matroska", "EBML document type other than webm"
        return None, "the EBML document type is not known"
    for n, sig in SIGS.items():
        if all(has(r.m, o, b) for o, b in sig):
            return n.strip(), "its signature"
    return None, "no signature is known"


def contradicts(r, off, sig):
    """the row knows that the bytes at off are not sig"""
    if any(r.m.get(off + i, x) != x for i, x in enumerate(sig)):
        return True
    for root, o, x in r.ne:
        if not o[1] and off <= o[0] and o[0] + len(x) <= off + len(sig) and sig[o[0] - off:o[0] - off + len(x)] == x:
            return True
    return False


def shorter(T, st, n):
    """the row knows that the input has fewer than n bytes"""
    return T.lt.entails(L.sub(L.const(n - 1), T.lt.lin(T.length(T.input("in")))), T.lt.facts(st))


def fmt_of(F, v):
    """Ok(mime) -> variant name"""
    if v[0] == "agg" and v[1].endswith("::Result"):
        if v[2] == 1:
            e = v[3][0]
            return "err:" + (F.adt(e[1])["vs"][e[2]]["n"] if e[0] == "agg" else "?")
        v = v[3][0]
    while v[0] == "agg" and v[3]:
        v = v[3][0]
    if v[0] == "agg" and v[1].endswith(("MediaMimeImage", "MediaMimeTrack")):
        return F.adt(v[1])["vs"][v[2]]["n"]
    return None


def run(ctx):
    ctx.rule = ("Format detection is extracted as rows (which bytes or brands were compared, with which outcome -> format); every row must be justified by a signature or brand of the table for its format, every listed "
                "signature and brand must be accepted wherever it may stand, and no detector may reject it.")
    F = ctx.facts()
    bs = [b for b in F.bodies.values() if b.path.endswith("file::MediaMime as std::convert::TryFrom<&[u8]>>::try_from")]
    if len(bs) != 1:
        raise Anchor("format detection (MediaMime::try_from(&[u8])) not found")
    b = bs[0]
    T = J(F, max_paths=60000, depth=14, unroll=2)
    rows = {}
    got = {}
    err_ok = False
    detector = {}
    n = 0
    brands_seen, compat_seen = {}, {}
    for s, v in T.walk(b, [T.input("in")], State(), 0, ()):
        n += 1
        if v[0] == "diverge":
            T.cut[str(v[1:])] = T.cut.get(str(v[1:]), 0) + 1
            continue
        f = fmt_of(F, v)
        r = Row(T, s)
        if f is None:
            ctx.oblige("result", "value", False, f"{b.path}: format detection returns something that is not a fixed format on a path")
            continue
        if f.startswith("err:"):
            ctx.oblige("unrecognised", f, f == "err:UnsupportedFormat", f"{b.path}: unrecognised input is reported as {f[4:]}, not UnsupportedFormat")
            err_ok = True
            T.joined.append((b.path, s))
            continue
        want, why = expected(r)
        key = f"{f}|{why}"
        ctx.oblige("row", key, want == f, f"{b.path}: returns {f} on a path where " + (f"{why} says {want}" if want else why))
        got[f] = got.get(f, 0) + 1
        for nme in SIGS:
            if f == nme.strip() and why == "its signature":
                ps = [e[1] for e in s.events if e[0] == "passed"]
                detector[nme] = ps[-1] if len(ps) == 1 else None
        if want == f:
            rows.setdefault((f, why), 0)
            rows[f, why] += 1
    # every listed signature and brand has a path that recognises it
    for br, fmt in BYMAJOR.items():
        ctx.oblige("recognised", f"major {br}", (fmt, f"major brand '{br}'") in rows, f"{b.path}: no path recognises major brand '{br}' as {fmt}")
    for bs_, fmt in BYCOMPAT:
        for br in bs_:
            ctx.oblige("recognised", f"compatible {br}", (fmt, f"compatible brand '{br}'") in rows, f"{b.path}: no path recognises compatible brand '{br}' as {fmt}")
    for fmt, why in (("Mp4", "an mdat box"), ("QuickTime", "an mdat box"), ("Webm", "EBML document type webm"), ("Matroska", "EBML document type other than webm"),
                     *((x.strip(), "its signature") for x in SIGS)):
        ctx.oblige("recognised", f"{fmt} by {why}", (fmt, why) in rows, f"{b.path}: no path recognises {fmt} by {why}")
    # and no detector rejects it
    for path, s in T.joined:
        r = Row(T, s)
        if r.ftyp:
            hit = [x for x in BYMAJOR if r.brand_is(x.encode())]
            ctx.oblige("rejected", f"{path} {hit[0] if hit else ''}", not hit, f"{path}: gives up on a file whose major brand is '{hit[0] if hit else ''}'")
            hit = [x.decode() for x, y in r.found.items() if y == 1 and x in ALL and x.decode() not in CR3]
            ctx.oblige("rejected", f"{path} {hit[0] if hit else ''}", not hit, f"{path}: gives up on a file with compatible brand '{hit[0] if hit else ''}'")
            looked = any(not o[1] and o[0] == r.major and len(x) >= 3 for q, o, x in r.ne)
            if looked:
                want, why = expected(r)
                openb = want is None and why.startswith(("the major", "the compat"))
                ctx.oblige("rejected", f"{path} open {why if openb else ''}", not openb, f"{path}: gives up although {why}")
        if r.ftyp or r.wide:
            hit = any(x == b"mdat" for q, o, x in r.eq)
            ctx.oblige("rejected", f"{path} mdat", not hit, f"{path}: gives up on a file with an mdat box")
        for nme, sig in SIGS.items():
            here = detector.get(nme)
            if here is not None and here != path or here is None and path != b.path:
                continue
            ok = any(contradicts(r, o, x) for o, x in sig) or shorter(T, s, NEED[nme])
            ctx.oblige("rejected", f"{path} {nme}", ok, f"{path}: may give up on input of {NEED[nme]} bytes or more that starts with the {nme.strip()} signature")
    ctx.oblige("unrecognised", "some", err_ok, f"{b.path}: no path refuses unrecognised input")
    ctx.floor("detection-rows", n, 100)
    ctx.floor("rejecting-states", len(T.joined), 80)
    ctx.count("formats", len(got))
    ctx.floor("formats-recognised", len(got), 13)
