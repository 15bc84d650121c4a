"""Box trees of known layout and unknown content, for evaluating code that looks for boxes.

A world is a list of (type, content): content is a list of child boxes, bytes, or a number of unknown bytes. Its boxes lie one after the
other in one input of known length; BoxHolder::parse is answered from the layout (its own reading of sizes is judged by P36), everything
that searches, walks and converts is the crate's own code."""
from table import k, isk
from maps import Maps
from rules import common as C
import lin as L

HB, BH = "bbox::BoxHolder", "bbox::BoxHeader"
HEADER = 8
BASE = ("sym", "in")


def fields_of(F, adt):
    return [f["n"] for f in F.adt(adt)["vs"][0]["fs"]]


class World:
    def __init__(self, boxes):
        self.at = {}        # offset -> (type, size)
        self.head = {}      # offset -> size of the header (16 for a box whose type is written with a leading '+')
        self.data = {}      # offset of content -> bytes
        self.path = {}      # 'a/b#i' -> offset of the i-th box of that path
        self.end = self.lay(boxes, 0, "")

    def lay(self, boxes, off, pre):
        n = {}
        for ty, body in boxes:
            start = off
            wide, ty = ty[0] == "+", ty.lstrip("+")
            h = self.head[start] = 16 if wide else HEADER
            name = "%s%s#%d" % (pre, ty, n.setdefault(ty, 0))
            n[ty] += 1
            if isinstance(body, list):
                off = self.lay(body, off + h, name + "/")
            elif isinstance(body, bytes):
                self.data[off + h] = body
                off += h + len(body)
            else:
                off += h + body
            self.at[start] = (ty, off - start)
            self.path[name] = start
        return off

    def bytes(self, a, b):
        for s, d in self.data.items():
            if s <= a and b <= s + len(d):
                return d[a - s:b - s]
        return None

    def whole(self):
        return ("slc", BASE, k(0), k(self.end))


class Walker(Maps):
    def __init__(self, F, world, stubs=None, **kw):
        kw.setdefault("max_paths", 20000)
        kw.setdefault("depth", 22)
        kw.setdefault("unroll", 40)
        stubs = dict(stubs or {})
        stubs[C.method(F, HB, "parse").id] = self.parse_box_at
        super().__init__(F, stubs, **kw)
        self.world = world
        self.hb, self.bh = fields_of(F, HB), fields_of(F, BH)

    def where(self, t):
        """(start, end) of a part of the world"""
        s = self.slc(t)
        if s is None or s[1] != BASE:
            return None
        a, b = self.start(s), self.end(s)
        return (a[0], b[0]) if not a[1] and not b[1] else None

    def holder(self, off):
        ty, size = self.world.at[off]
        h = ("agg", BH, None, tuple({"box_size": k(size), "box_type": k(ty), "header_size": k(self.world.head[off])}.get(n, ("sym", n)) for n in self.bh))
        return ("agg", HB, None, tuple({"header": h, "data": ("slc", BASE, k(off), k(off + size))}.get(n, ("sym", n)) for n in self.hb))

    def parse_box_at(self, T, c, a, st):
        w = self.where(a[0])
        bad = [(st, ("agg", "std::result::Result", 1, (("agg", "nom::Err", 1, (("sym", "bad box"),)),)))]
        if w is None or w[0] not in self.world.at:
            return bad
        ty, size = self.world.at[w[0]]
        if ty == "bad!" or w[0] + size > w[1]:
            return bad
        return [(st, T.nom_ok(("slc", BASE, k(w[0] + size), k(w[1])), self.holder(w[0])))]

    def possible(self, st):
        """whether what the path assumes of known bytes is so"""
        for e, c in st.cons.items():
            if not isinstance(e, tuple) or not e:
                continue
            w, want = None, None
            if e[0] == "op" and e[1] in ("Eq", "Ne") and len(e) == 4:
                for x, y in ((e[2], e[3]), (e[3], e[2])):
                    if isk(y) and isinstance(y[1], bytes) and self.where(x):
                        w, want = self.where(x), y[1]
                if w:
                    got = self.world.bytes(*w)
                    if got is not None and c[0] == "=" and ((got == want) == (e[1] == "Eq")) != bool(c[1]):
                        return False
                continue
            w = self.where(e) if e[0] in ("slc", "call") else None
            if w:
                got = self.world.bytes(*w)
                if got is not None and (c[0] == "=" and isinstance(c[1], bytes) and c[1] != got or c[0] == "!=" and got in c[1]):
                    return False
        return True
