"""Traces of the public parse methods: the parser object, the source and every sub-parser call, for each kind of source.

The methods are analysed with an explicit parser object (arbitrary left-over state) and an explicit media source; the calls they make to
the buffer-filling primitive and to the format parsers are recorded with a snapshot of the parser object."""
from model import Anchor
from table import Tab, State, k, isk, some, NONE, UNIT, ok, err
from terms import calls, cname, contains, walk
from rules import common as C

MP = "parser::MediaParser"
BS = "parser::BufferedParserState"
SRC = {"sync": "parser::MediaSource", "async": "parser_async::AsyncMediaSource"}
MIME = "file::MediaMime"
RD, PRE, SK, MEM = ("sym", "ms.reader"), ("sym", "ms.buf"), ("sym", "ms.skip"), ("sym", "ms.bytes")
SLOT = 900


def names(F, adt):
    return [f["n"] for f in F.adt(adt)["vs"][0]["fs"]]


def parser_obj(F, **kw):
    st = ("agg", BS, None, tuple(kw.get(n, ("sym", "old." + n)) for n in names(F, BS)))
    return ("agg", MP, None, tuple(st if n == "state" else ("sym", "old." + n) for n in names(F, MP)))


def state_of(F, o):
    """{field: value} of the parser's buffer state, or None when it is not known field by field"""
    if o[0] != "agg" or o[1] != MP:
        return None
    s = o[3][names(F, MP).index("state")]
    if s[0] != "agg":
        return None
    return dict(zip(names(F, BS), s[3]))


class Entry(Tab):
    """byte vectors are values ("vec", parts): what they contain, in order; I/O primitives fork into success and failure"""

    def __init__(self, F, subs, **kw):
        kw.setdefault("max_paths", 20000)
        kw.setdefault("depth", 16)
        super().__init__(F, **kw)
        self.subs = subs          # predicate: callee -> label of a recorded call, or None

    def call(self, c, a, st, depth, stack, env, t):
        lab = self.subs(c)
        if lab is None:
            g = self.veccall(c, a, st, env)
            yield from (g if g is not None else super().call(c, a, st, depth, stack, env, t))
            return
        r = [self.resolve_refs(x, env) for x in a]
        self.uniq += 1
        i = self.uniq
        st = self.event(st, ("sub", lab, tuple(r), i))
        env2 = dict(env)
        for x in a:
            if x[0] == "lref":
                v = self.resolve_refs(x, env)
                if state_of(self.F, v) is not None:
                    if lab != "fill_buf":
                        o = parser_obj(self.F, **{n: ("sym", "%s.after%d" % (n, i)) for n in names(self.F, BS)})
                        env2[x[1]] = self.update(env2.get(x[1]), list(x[2]), o) if x[2] else o
        yield from self.outcomes(lab, i, st, env2, r)

    def outcomes(self, lab, i, st, env, r):
        res = ("sub", lab, i)
        for v, s2 in ((("sym", "val%d" % i), st.assume(("disc", res, "std::result::Result"), 0)), (None, st.assume(("disc", res, "std::result::Result"), 1))):
            e2 = env
            if v and lab == "fill_buf":
                e2 = self.filled(env, i)
            yield s2, (ok(v) if v else err(("sym", "err%d" % i))), e2, 0

    def filled(self, env, i):
        """after a successful fill the buffer of the (only) parser object holds what it held plus fresh bytes"""
        env2 = dict(env)
        F = self.F
        bi = names(F, BS).index("buf")
        for slot, v in env.items():
            s = state_of(F, v) if isinstance(v, tuple) and v else None
            if s and s["buf"][0] == "agg" and s["buf"][3]:
                si = names(F, MP).index("state")
                nv = some(("vec", self.parts(s["buf"][3][0]) + (("fill", i),)))
                env2[slot] = self.update(v, [("f", si), ("f", bi)], nv)
        return env2

    # ---- byte vectors
    def parts(self, v):
        if v[0] == "vec":
            return v[1]
        if v[0] == "agg" and v[1] == "[]" and not v[3]:
            return ()
        return (("bytes", v),)

    def veccall(self, c, a, st, env):
        p, n = c.path or "", c.name
        full = c.full or ""
        if n in ("new", "with_capacity", "default") and (p.startswith("std::vec::Vec") if n != "default" else full.lstrip("<").startswith("std::vec::Vec")) and not c.local:
            return iter([(st, ("vec", ()), None, 0)])
        if n in ("read_to_end", "read_exact", "read") and len(a) == 2 and ("std::io::Read" in p or "AsyncRead" in p):
            return self.rte(c, a, st, env)
        if n == "by_ref" and a and ("std::io::Read" in p or "AsyncRead" in p):
            return iter([(st, a[0], None, 1)])
        if n == "next" and c.trait == "std::iter::Iterator" and a[0][0] == "lref":
            v = self.resolve_refs(a[0], env)
            if v[0] not in ("over", "call", "sym", "fld", "as"):
                return None
            if v[0] == "call" and cname(v[1]) == "into_iter":
                v = v[2][0]
            V, i = (v[1], v[2]) if v[0] == "over" else (v, 0)
            env2 = self._set(env, a[0], ("over", V, i + 1))
            if env2 is None:
                return None
            more = ("more", V, i)
            alts = [(st.assume(more, 1), some(("elem", V, i)), env2, 0), (st.assume(more, 0), NONE, env2, 0)]
            return iter([x for x in alts if x[0] is not None])
        if n in ("take", "by_ref") and len(a) == (2 if n == "take" else 1) and ("std::io::Read" in p or "AsyncRead" in p):
            return iter([(st, ("call", p, tuple(self.resolve_refs(x, env) for x in a), 0), None, 0)])
        if "std::vec::Vec" not in p or not a or a[0][0] != "lref":
            return None
        r = [self.resolve_refs(x, env) for x in a]
        cur = self.parts(r[0])
        if n in ("shrink_to", "shrink_to_fit", "reserve", "reserve_exact"):
            return iter([(st, UNIT, None, 0)])
        if n == "clear" or (n == "truncate" and r[1] == k(0)):
            return iter([(self.event(st, ("vecop", n, r[0])), UNIT, self._set(env, a[0], ("vec", ())), 0)])
        if n in ("append", "extend_from_slice"):
            env2 = self._set(env, a[0], ("vec", cur + self.parts(r[1])))
            if n == "append":
                e3 = self._set(env2, a[1], ("vec", ()))
                if e3 is None:
                    return None
                env2 = e3
            return iter([(st, UNIT, env2, 0)])
        return None

    def rte(self, c, a, st, env):
        r = [self.resolve_refs(x, env) for x in a]
        rd, lim = r[0], None
        x = rd
        while x[0] == "call" and cname(x[1]) in ("take", "by_ref"):
            if cname(x[1]) == "take":
                lim = x[2][1] if lim is None else ("call", "min", (lim, x[2][1]), 0)
            x = x[2][0]
        self.uniq += 1
        i = self.uniq
        st = self.event(st, ("read", c.name, x, lim, r[1], i))
        env2 = self._set(env, a[1], ("vec", self.parts(r[1]) + (("read", x, lim, i),)))

        def g():
            res = ("sub", "read", i)
            s2 = st.assume(("disc", res, "std::result::Result"), 0)
            yield s2, ok(("sym", "n%d" % i)), env2, 0
            s2 = st.assume(("disc", res, "std::result::Result"), 1)
            yield s2, err(("sym", "err%d" % i)), env2, 0
        return g()


def sub_label(F):
    byid = {}

    def add(lab, b):
        byid[b.id] = lab
    for b in F.bodies.values():
        if b.kind not in ("Fn", "AssocFn"):
            continue
        if b.kind == "AssocFn" and b.name == "fill_buf":
            add("fill_buf", b)
        if b.kind == "AssocFn" and b.name in ("load_and_parse", "load_and_parse_with_offset"):
            add(b.name, b)
    for n in ("parse_exif_iter", "parse_png_full", "parse_exif_iter_async", "parse_png_full_async"):
        for b in C.by_name(F, n):
            add(n.replace("_async", ""), b)

    def f(c):
        if c.rid in byid:
            return byid[c.rid]
        for b in F.resolve(c):
            if b.id in byid:
                return byid[b.id]
        return None
    return f


class Trace:
    pass


def mimes(F):
    out = []
    for vn in ("Image", "Track"):
        i = C.vidx(F, MIME, vn)
        ty = F.adt(MIME)["vs"][i]["fs"][0]["ty"]
        sub = F.types[ty]["p"]
        for j, v in enumerate(F.adt(sub)["vs"]):
            out.append((vn, v["n"], ("agg", MIME, i, (("agg", sub, j, ()),))))
    return out


PUBLIC = [("sync", "parse_exif"), ("sync", "parse_track"), ("sync", "parse_image_metadata"),
          ("async", "parse_exif_async"), ("async", "parse_track_async"), ("async", "parse_image_metadata_async")]


def traces(F, only_side=None):
    """every path of every public parse method"""
    lab = sub_label(F)
    out = []
    opq = {b.id for b in F.bodies.values() if b.kind in ("Fn", "AssocFn") and b.path.split("::")[0].lstrip("<").split(" ")[0] in
           ("jpeg", "file", "video", "exif", "png", "heif", "cr3", "mov", "raf", "bbox", "ebml") and b.name not in ("unwrap_image", "unwrap_track") and b.d.get("trait") != "std::cmp::PartialEq"}
    for side, name in PUBLIC:
        if only_side and side != only_side:
            continue
        b = C.method(F, MP, name)
        sn = names(F, SRC[side])
        for kind, mn, mime in mimes(F):
            for mode in ("stream", "memory"):
                vals = {"reader": RD, "buf": PRE, "mime": mime, "skip_by_seek": SK, "memory": some(MEM) if mode == "memory" else NONE}
                ms = ("agg", SRC[side], None, tuple(vals.get(n, ("sym", "ms." + n)) for n in sn))
                T = Entry(F, lab, opaque=opq)
                T.paths = 0
                heap = {SLOT: parser_obj(F)}
                for s, v, env in T.walk_env(b, [("lref", SLOT, ()), ms], State(), 0, (), None, heap):
                    if v[0] == "clo" and v[1] in F.bodies:
                        ends = list(T.walk_env(F.bodies[v[1]], [v], s, 1, (b.id,), v[2], dict(env)))
                    else:
                        ends = [(s, v, env)]
                    for s, v, env in ends:
                        t = Trace()
                        t.side, t.fn, t.kind, t.mime, t.mode, t.st, t.val = side, name, kind, mn, mode, s, v
                        t.subs = [e for e in s.events if e[0] == "sub"]
                        t.final = state_of(F, T.resolve_refs(env.get(SLOT, ("sym", "?")), env))
                        t.mimev = mime
                        t.T = T
                        out.append(t)
    return out


# ---- second layer: what happens between a public method and the format parsers
TRAITS = ("parser::Buf", "parser::ShareBuf", "parser::BufParser", "parser_async::AsyncBufParser")
PARSER = ("sym", "parser")


class Inner(Entry):
    """the parser is an opaque object; its trait methods are recorded; each answers with a fresh value"""

    def call(self, c, a, st, depth, stack, env, t):
        if c.trait in TRAITS and c.name in ("buffer", "position", "share_buf", "clear", "set_position"):
            self.uniq += 1
            i = self.uniq
            r = [self.resolve_refs(x, env) for x in a]
            st = self.event(st, ("sub", c.name, tuple(r), i))
            v = {"buffer": ("sym", "buffer%d" % i), "position": ("sym", "position%d" % i), "share_buf": ("agg", "()", None, (("sym", "full%d" % i), ("sym", "pos%d" % i)))}.get(c.name, UNIT)
            yield st, v, None, 0
            return
        yield from super().call(c, a, st, depth, stack, env, t)


def inner_label(F):
    def f(c):
        if c.trait in TRAITS and c.name in ("fill_buf", "load_and_parse", "load_and_parse_with_offset", "clear_and_skip"):
            return c.name
        return None
    return f


INNER = [("sync", "parse_exif_iter"), ("sync", "parse_png_full"), ("async", "parse_exif_iter_async"), ("async", "parse_png_full_async")]


def inner_traces(F, unroll=2, only=None):
    lab = inner_label(F)
    out = []
    opq = {b.id for b in F.bodies.values() if b.kind in ("Fn", "AssocFn") and b.path.split("::")[0].lstrip("<").split(" ")[0] in
           ("jpeg", "file", "video", "png", "heif", "cr3", "mov", "raf", "bbox", "ebml") and b.d.get("trait") != "std::cmp::PartialEq"}
    opq |= {b.id for b in F.bodies.values() if b.path.startswith(("exif::exif_iter::", "exif::exif_exif::", "exif::travel::")) and b.name != "set_has_embedded_track"}
    for side, name in INNER:
        b = C.one_fn(F, name)
        ps = [b.locals[i + 1].get("n") for i in range(b.argc)]
        for kind, mn, mime in mimes(F):
            if kind != "Image" or only and (mn, name.replace("_async", "")) != only:
                continue
            vals = {"parser": PARSER, "mime_img": mime[3][0], "reader": RD, "skip_by_seek": SK}
            if b.argc == 3 and mn != "Png":
                continue
            args = [PARSER, mime[3][0], RD, SK] if b.argc == 4 else [PARSER, RD, SK]
            T = Inner(F, lab, opaque=opq, unroll=unroll)
            T.paths = 0
            for s, v, env in T.walk_env(b, args, State(), 0, (), None, {}):
                ends = [(s, v, env)]
                if v[0] == "clo" and v[1] in F.bodies:
                    ends = list(T.walk_env(F.bodies[v[1]], [v], s, 1, (b.id,), v[2], {}))
                for s, v, env in ends:
                    t = Trace()
                    t.side, t.fn, t.kind, t.mime, t.mode, t.st, t.val = side, name, kind, mn, None, s, v
                    t.subs = [e for e in s.events if e[0] == "sub"]
                    t.mimev, t.final, t.T = mime, None, T
                    out.append(t)
    return out
