"""P37: the metadata blocks of a CR3 file are those of the Canon box in its moov box."""
from table import k, isk, State, NONE, some
from rules import common as C
from known import Known, Lay
from rules.p19 import view
from stream import run_fn
from rules.p21 import stubs

B = ("sym", "in")
CANON = bytes.fromhex("85c0b687820f11e08111f4ce462b6a48")
TIFF = b"II*\0\x08\0\0\0"
PE = "error::ParsingError"
CMT = (b"CMT1", b"CMT2", b"CMT3")


class File:
    """boxes: (type, contents) with contents a list of bytes, numbers of unknown bytes and boxes; 'wide' in front gives a 64-bit size"""
    def __init__(self, boxes):
        self.lay, self.at, self.ends = Lay(), {}, []
        self.canon = None
        pos = 0
        for b in boxes:
            pos = self.put(b, pos, ())

    def size(self, x):
        if isinstance(x, int):
            return x
        if isinstance(x, bytes):
            return len(x)
        wide = x[0] == "wide"
        return (16 if wide else 8) + sum(self.size(y) for y in x[-1])

    def put(self, b, pos, path):
        if not isinstance(b, tuple):
            self.lay.add(B, [b])
            return pos + self.size(b)
        wide, ty, z = b[0] == "wide", b[-2], self.size(b)
        self.lay.add(B, [(1).to_bytes(4, "big") + ty + z.to_bytes(8, "big") if wide else z.to_bytes(4, "big") + ty])
        p = pos + (16 if wide else 8)
        body = p
        for x in b[-1]:
            p = self.put(x, p, path + (ty,))
        if not path:
            self.ends.append((ty, pos, p))
        first = b[-1][0] if b[-1] else b""
        if path == (b"moov",) and ty == b"uuid" and self.canon is None and first == CANON:
            self.canon = (pos, p)
        if path == (b"moov", b"uuid") and ty in CMT and self.inside(pos):
            head = first if isinstance(first, bytes) else b""
            if p - body >= 8 and (ty != b"CMT1" or head[:8] == TIFF):
                self.at[ty] = (body, p)
        return p

    def inside(self, pos):
        return self.open

    open = True


def files():
    ftyp = (b"ftyp", [b"crx \0\0\0\1crx isom"])
    mdat = (b"mdat", [4000])
    c1, c2, c3 = (b"CMT1", [TIFF, 300]), (b"CMT2", [70]), (b"CMT3", [900])
    canon = lambda *xs: (b"uuid", [CANON] + list(xs))
    moov = lambda *xs: (b"moov", list(xs))
    mvhd = (b"mvhd", [100])
    other = (b"uuid", [b"\xbe\x7a\xcf\xcb\x97\xa9\x42\xe8\x9c\x71\x99\x94\x91\xe3\xaf\xac", (b"CMT1", [TIFF, 44]), 30])
    yield "plain", [ftyp, moov(canon(c1, c2, c3), mvhd), mdat], 3
    yield "with other boxes", [ftyp, moov(mvhd, canon((b"CNCV", [30]), (b"CCTP", [84]), c1, (b"CTBO", [92]), c2, c3, (b"CMT4", [TIFF, 500]), (b"THMB", [800])), (b"trak", [600])), mdat], 3
    yield "other order", [ftyp, moov(canon(c3, c2, c1)), mdat], 3
    yield "without second", [ftyp, moov(canon(c1, c3)), mdat], 2
    yield "only first", [ftyp, moov(canon(c1)), mdat], 1
    yield "only third", [ftyp, moov(canon(c3)), mdat], 1
    yield "no blocks", [ftyp, moov(canon((b"CNCV", [30]))), mdat], 0
    yield "empty Canon box", [ftyp, moov(canon()), mdat], 0
    yield "short blocks", [ftyp, moov(canon(c1, (b"CMT2", [7]), (b"CMT3", [8]))), mdat], 2
    yield "first block no TIFF", [ftyp, moov(canon((b"CMT1", [b"II+\0\x08\0\0\0", 90]), c2)), mdat], 1
    yield "wide blocks", [ftyp, moov(canon(("wide", b"CMT1", [TIFF, 300]), c2, ("wide", b"CMT3", [20]))), mdat], 3
    yield "wide Canon box", [ftyp, moov(mvhd, ("wide", b"uuid", [CANON, c1, c2, c3])), mdat], 3
    yield "wide moov", [ftyp, ("wide", b"moov", [canon(c1, c2, c3), mvhd]), mdat], 3
    yield "boxes in front of moov", [ftyp, (b"free", [60]), (b"uuid", [CANON, (b"CMT1", [TIFF, 10])]), moov(canon(c1, c2, c3)), mdat], 3
    yield "large blocks", [ftyp, moov(canon((b"CMT1", [TIFF, 70000]), (b"CMT2", [1 << 20]), (b"CMT3", [1 << 24]))), mdat], 3


def others():
    """the Canon box behind another vendor's, which has blocks of its own; no Canon box; no moov"""
    ftyp, mdat = (b"ftyp", [b"crx \0\0\0\1crx isom"]), (b"mdat", [400])
    c1, c2 = (b"CMT1", [TIFF, 300]), (b"CMT2", [70])
    vend = (b"uuid", [b"\xbe\x7a\xcf\xcb\x97\xa9\x42\xe8\x9c\x71\x99\x94\x91\xe3\xaf\xac", (b"CMT1", [TIFF, 44]), (b"CMT3", [44])])
    yield "other vendor first", [ftyp, (b"moov", [vend, (b"uuid", [b"\x85\xc0\xb6\x87"]), (b"uuid", [CANON, c1, c2])]), mdat], 2
    near = [(b"uuid", [bytes(x ^ (1 << i % 8 if j == i else 0) for j, x in enumerate(CANON)), (b"CMT1", [TIFF, 20 + i])]) for i in range(16)]
    yield "nearly Canon's first", [ftyp, (b"moov", near + [(b"uuid", [CANON, c1, c2])]), mdat], 2
    yield "Canon box first", [ftyp, (b"moov", [(b"uuid", [CANON, c1, c2]), vend]), mdat], 2
    yield "no Canon box", [ftyp, (b"moov", [(b"mvhd", [100]), vend]), mdat], 0


class Owned(File):
    """counts only blocks in the Canon box"""
    def put(self, b, pos, path):
        if isinstance(b, tuple) and path == (b"moov",) and b[-2] == b"uuid":
            self.open = bool(b[-1]) and b[-1][0] == CANON
        return super().put(b, pos, path)


def state_error(F, p):
    e = dict(zip([f["n"] for f in F.adt("error::ParsingErrorState")["vs"][0]["fs"]], p[3])) if p[0] == "agg" and p[1] == "error::ParsingErrorState" else {}
    er = e.get("err")
    return (F.adt(PE)["vs"][er[2]]["n"], er, e.get("state")) if er and er[0] == "agg" and er[1] == PE and isinstance(er[2], int) else (None, er, None)


def explore(ctx, F, name, boxes, count):
    P = Owned(boxes)
    want = [(t.decode(), P.at[t]) for t in CMT if t in P.at]
    assert len(want) == count, (name, want)
    say = lambda key, cond, msg: ctx.oblige("blocks", "%s/%s" % (name, key), bool(cond), None if cond else "CR3 file %s: %s" % (name, msg))
    _, m0, m1 = next(e for e in P.ends if e[0] == b"moov")
    whole = P.lay.size[B]
    cuts = sorted({m0 + 1, m0 + 7, m0 + 8, m0 + 9, m0 + 16, (m0 + m1) // 2, m1 - 1, m1, m1 + 1, whole} | {x + d for a in P.at.values() for x in a for d in (-1, 0)} - set(range(m0 + 1)))
    every, one = C.one_fn(F, "extract_all_cmt_ranges", "cr3::extract_all_cmt_ranges"), C.one_fn(F, "extract_exif_data", "cr3::extract_exif_data")
    n = 0
    for cut in cuts:
        for fn, args in ((every, []), (one, [NONE])):
            T = Known(F, P.lay)
            how = "%s, buffer 0..%d of %d" % (fn.path, cut, whole)
            rows = [v for _, v in T.walk(fn, args + [P.lay.region(B, 0, cut)], State(), 0, ()) if v[0] != "diverge"]
            n += 1
            say("total", rows, "no result (%s)" % how)
            for v in rows:
                t, p = C.result(v)
                if t == "err":
                    kind, er, _ = state_error(F, p)
                    if cut < m1:
                        amt = T.lt.lin(er[3][0]) if kind == "Need" else None
                        say("need", amt is not None and not amt[1] and 1 <= amt[0] <= m1 - cut, "%s (%s)" % ("the file is refused" if kind != "Need" else "more is asked for than the moov box has", how))
                    else:
                        none = not want if fn is every else b"CMT1" not in P.at
                        say("refused", none and kind == "Failed", "%s (%s)" % ("a complete file is refused" if not none else "a file without blocks gives %s" % kind, how))
                    continue
                say("early", cut >= m1, "a result is returned before the moov box ends (%s)" % how)
                if fn is every:
                    got = ranges(F, T, p)
                    say("ranges", bool(want) and got == want, "the blocks are %s, not %s (%s)" % (str(got)[:200], want, how))
                else:
                    x = p[3][0] if p[0] == "agg" and p[1] == "()" and len(p[3]) == 2 else NONE
                    w = T.where(x[3][0]) if x[0] == "agg" and x[2] == 1 else None
                    say("first", w is not None and (w[1], w[2]) == P.at.get(b"CMT1"), "the Exif block is %s, not %s (%s)" % (w and w[1:], P.at.get(b"CMT1"), how))
    return n


def ranges(F, T, p):
    """[(name, (start, end))] of Some(Cr3CmtRanges)"""
    if p[0] != "agg" or p[2] != 1:
        return None
    r = p[3][0]
    ls = T.items(r[3][0]) if r[0] == "agg" and len(r[3]) == 1 else None
    if ls is None:
        return None
    out = []
    for e in ls:
        if not (e[0] == "agg" and len(e[3]) == 2 and isk(e[3][0]) and e[3][1][0] == "agg" and all(isk(y) for y in e[3][1][3])):
            return ls
        out.append((e[3][0][1], tuple(y[1] for y in e[3][1][3])[:2]))
    return out


def handed(ctx, F, side=""):
    """which bytes become the iterator and its further blocks"""
    fn = C.one_fn(F, "parse_cr3_exif_iter" + side, "exif::parse_cr3_exif_iter" + side)
    W, base = ("sym", "whole"), 300
    spots = {"CMT1": (100, 160), "CMT2": (170, 190), "CMT3": (200, 290)}
    back = {"CMT1": (400, 560), "CMT2": (170, 290), "CMT3": (10, 90)}
    unit = ("agg", "()", None, ())
    n = 0
    for names in (("CMT1", "CMT2", "CMT3"), ("CMT1", "CMT2"), ("CMT1", "CMT3"), ("CMT2", "CMT3"), ("CMT1",), ("CMT2",), ("CMT3",), (), None):
        for good, at in ((1, spots), (0, spots), (1, back)):
            lay = Lay()
            lay.add(W, [1000])
            seen = []
            rs = NONE if names is None else some(("agg", "cr3::Cr3CmtRanges", None, (("agg", "[]", None, tuple(
                ("agg", "()", None, (k(x), ("agg", "std::ops::Range", None, (k(at[x][0]), k(at[x][1]))))) for x in names)),)))

            def load(T, c, a, st):
                return [(st, ("agg", "std::result::Result", 0, (rs,)))]

            def share(T, c, a, st):
                return [(st, ("agg", "()", None, (lay.region(W), k(base))))]

            def begin(T, c, a, st):
                seen.append(("first", view(T, a[0]), a[1]))
                return [(st, ("agg", "std::result::Result", 0, (("sym", "iter"),)) if good else ("agg", "std::result::Result", 1, (("sym", "bad header"),)))]

            def more(T, c, a, st):
                seen.append(("more", view(T, a[2]), a[3]))
                return [(st, unit)]
            T = Known(F, lay, stubs(F, load_and_parse=load, share_buf=share, input_into_iter=begin, add_tiff_block=more))
            rows = [C.result(v) for _, v in run_fn(T, fn, [("sym", "parser"), ("sym", "reader"), ("sym", "skip")], State()) if v[0] != "diverge"]
            n += 1
            key = "%s/%s%s" % ("+".join(names) if names else names, "bad" if not good else "good" if at is spots else "backwards", side)
            part = lambda x: (W, base + at[x][0], base + at[x][1])
            if not names:
                ok_ = not seen and len(rows) == 1 and rows[0][0] == "err"
            elif not good:
                ok_ = seen == [("first", part(names[0]), NONE)] and len(rows) == 1 and rows[0][0] == "err"
            else:
                ok_ = seen == [("first", part(names[0]), NONE)] + [("more", part(x), NONE) for x in names[1:] if x != "CMT3"] and rows == [("ok", ("sym", "iter"))]
            ctx.oblige("handed", key, ok_, None if ok_ else "the blocks %s become %s (%s)" % (names, [(x[0], x[1] and x[1][1:]) for x in seen], [r[0] for r in rows]))
    ctx.floor("block lists", n, 27)


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = "the search for a CR3 file's metadata blocks is evaluated on box layouts at every kind of cut, and compared with the boxes"
    n = 0
    for src in (files, others):
        for name, boxes, count in src():
            n += explore(ctx, F, name, boxes, count)
    ctx.floor("evaluations", n, 300)
    handed(ctx, F)
    handed(ctx, F, "_async")
