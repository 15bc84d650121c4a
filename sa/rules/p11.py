"""P11: rewinding or cloning an Exif iterator starts over."""
from table import k, NONE
from rules import common as C
import trav
from panrun import builders, field_writers

ITER = {"ifds", "block_ifd0", "visited_offsets", "current_block_index", "encountered_tags"}
SETS = ("visited_offsets", "encountered_tags")
BLOCK = "exif::exif_iter::TiffDataBlock"


class T11(trav.Trav):
    """records every iterator handed to a library or local iteration function"""
    def __init__(self, F, stop=(), **kw):
        super().__init__(F, **kw)
        self.stop = set(stop)
        self.seen = set()

    def walk_env(self, body, *a, **kw):
        self.seen.add(body.id)
        return super().walk_env(body, *a, **kw)

    def call2(self, c, a, st, depth, stack, env, t):
        x = self.resolve_refs(a[0], env) if a else None
        if x is not None and x[0] == "agg" and x[1] == trav.EI and (not c.local or any(b.id in self.stop for b in self.F.resolve(c))) and c.name not in ("clone", "into_iter", "drop", "by_ref") and "fmt" not in c.name \
                and not (c.path or "").startswith(("tracing", "core::fmt", "std::fmt")):
            s = self.event(st, ("iterates", c.name, x))
            e = dict(env)
            self.uniq = getattr(self, "uniq", 0) + 1
            yield s, ("call", c.name, (), self.uniq), e, 0
            return
        yield from super().call2(c, a, st, depth, stack, env, t)


def whole(F):
    """an iterator in any state, with every field of its main directory named"""
    s0 = trav.state(F)
    fs = trav.names(F, trav.EI)
    main = trav.sym_struct(F, trav.IFD, ("sym", "MAIN"))
    return fs, main, ("agg", trav.EI, None, tuple(main if n == "ifd0" else v for n, v in zip(fs, s0[3])))


def plus2(v, off):
    return v in (("op", "Add", off, k(2)), ("op", "Add", k(2), off))


def starts(ctx, F, key, st, f, o, Z, same, where):
    """f = the fields of an iterator about to start; Z = its main directory, already judged"""
    def good(sub, cond, text):
        ctx.oblige("start", "%s/%s" % (key, sub), bool(cond), None if cond else "%s: %s" % (where, text))
    good("main", f["ifd0"] == Z, "the main directory is not the one the iterator was made for")
    good("block", f["block_ifd0"] == Z, "the directory to restart at is not the main directory")
    good("open", f["ifds"] == ("stk", "none", (Z,)), "iteration does not start with exactly the main directory open: %s" % (f["ifds"],))
    for n in SETS:
        good(n, f[n][0] == "set" and f[n][1] == ("cleared",), "%s is not empty at the start" % n)
    good("blocks", f["current_block_index"] == k(0), "iteration does not start before the first further block")
    for n in same:
        good(n, f[n] == o[n], "%s is not kept" % n)


def rewound(F, main):
    """the directory with only its position reset"""
    return lambda z: z[0] == "agg" and z[1] == trav.IFD and all(
        trav.field(F, z, trav.IFD, n) == k(0) if n == "index" else plus2(trav.field(F, z, trav.IFD, n), trav.field(F, main, trav.IFD, "offset")) if n == "pos" else
        trav.field(F, z, trav.IFD, n) == trav.field(F, main, trav.IFD, n) for n in trav.names(F, trav.IFD))


def run(ctx):
    ctx.rule = ("The constructor, rewind, clone and clone_rewound are evaluated from an arbitrary state of the iterator: each must leave exactly the start state (main directory alone open, at its first entry, nothing "
                "visited, nothing handed out, no further block taken) and keep everything else; one round of iteration and loading a block, evaluated the same way, must change iteration state only.")
    ctx.assumptions += ["HashSet and Vec operations do what they document", "cloning a field's value gives an equal value"]
    F = ctx.facts()
    fs, main, obj = whole(F)
    o = dict(zip(fs, obj[3]))
    keep = [n for n in fs if n not in ITER and n != "ifd0"]
    seen = set()
    lost = lambda v: v[0] == "diverge" and v[1] != "loop"

    # the constructor
    b = C.method(F, trav.EI, "new")
    args = [("sym", "arg%d" % i) for i in range(b.argc)]
    tys = [F.types[b.locals[i + 1]["ty"]]["s"] for i in range(b.argc)]
    at = [i for i, s in enumerate(tys) if s.endswith("IfdIter")]
    ctx.oblige("new", "directory", len(at) == 1, "ExifIter::new does not take its main directory")
    if len(at) == 1:
        args[at[0]] = main
        T = T11(F)
        n = 0
        for st, v, env in T.walk_env(b, args, trav.State(), 0, (), None, {}):
            if lost(v):
                continue
            v = T.resolve_refs(v, env)
            n += 1
            if not (v[0] == "agg" and v[1] == trav.EI):
                ctx.oblige("start", "new/value", False, "ExifIter::new: what it returns is not understood")
                continue
            f = dict(zip(fs, v[3]))
            starts(ctx, F, "new", st, f, o, main, (), "ExifIter::new")
            given = [f[m] for m in ("input", "tiff_header", "tz")]
            ctx.oblige("start", "new/given", all(x[0] == "sym" and x[1].startswith("arg") for x in given) and len(set(given)) == 3, "ExifIter::new does not keep the data, header and time zone it is given")
            ctx.oblige("start", "new/none", f["additional_blocks"] == ("stk", "none", ()), "a new iterator has further blocks")
        ctx.floor("ways through ExifIter::new", n, 1)
        seen |= T.seen
    good = rewound(F, main)

    # rewind
    b = C.method(F, trav.EI, "rewind")
    T = T11(F)
    n = 0
    for st, v, f in trav.walk(T, b, obj, fs, trav.EI):
        if lost(v):
            continue
        n += 1
        if f is None or f["ifd0"][0] != "agg":
            ctx.oblige("start", "rewind/value", False, "ExifIter::rewind: the iterator's state is not understood")
            continue
        ctx.oblige("start", "rewind/rewound", good(f["ifd0"]), "ExifIter::rewind: the main directory is not back at its first entry, or changed")
        starts(ctx, F, "rewind", st, f, o, f["ifd0"], keep, "ExifIter::rewind")
    ctx.floor("ways through rewind", n, 1)
    seen |= T.seen

    # clones
    n = 0
    for b in [C.method(F, trav.EI, "clone_rewound"), C.impl_fn(F, "std::clone::Clone", trav.EI, "clone")]:
        name = b.path.rsplit("::", 1)[-1]
        T = T11(F)
        for st, v, env in T.walk_env(b, [("lref", trav.SLOT, ())], trav.State(), 0, (), None, {trav.SLOT: obj}):
            if lost(v):
                continue
            n += 1
            v = T.resolve_refs(v, env)
            after = T.resolve_refs(env.get(trav.SLOT, obj), env)
            ctx.oblige("clone", name + "/source", after == obj, "ExifIter::%s changes the iterator it clones" % name)
            if not (v[0] == "agg" and v[1] == trav.EI):
                ctx.oblige("start", name + "/value", False, "ExifIter::%s: what it returns is not understood" % name)
                continue
            f = dict(zip(fs, v[3]))
            ctx.oblige("start", name + "/rewound", good(f["ifd0"]), "ExifIter::%s: the main directory is not back at its first entry, or changed" % name)
            starts(ctx, F, name, st, f, o, f["ifd0"], keep, "ExifIter::" + name)
        seen |= T.seen
    ctx.floor("ways through the clones", n, 2)

    # iterating touches nothing a restart relies on
    T, rows = trav.rows(F)
    n = 0
    for st, v, f in rows:
        if lost(v) or f is None:
            continue
        n += 1
        s = dict(zip(fs, trav.state(F)[3]))
        ch = {x for x in fs if f[x] != s[x]} - ITER
        ctx.oblige("iterate", "next", not ch, "ExifIter::next changes %s, which rewinding relies on" % ", ".join(sorted(ch)))
    ctx.floor("rounds of ExifIter::next", n, 10)
    b = C.method(F, trav.EI, "load_next_block")
    loaded = trav.sym_struct(F, trav.EI, ("sym", "BLOCK"))
    models = {x.id: (lambda st, r: [(st, ("agg", "std::result::Result", 0, (loaded,))), (st, ("agg", "std::result::Result", 1, (("sym", "why"),)))]) for x in C.by_name(F, "input_into_iter")}
    T = trav.Trav(F, models=models)
    T.opaque.add(b.id)
    n = 0
    for st, v, f in trav.walk(T, b, trav.state(F), fs, trav.EI):
        if lost(v):
            continue
        rec = next((e for e in st.events if e[0] == "call" and "load_next_block" in e[1]), None)
        if rec is not None and rec[2][0][0] == "agg":
            f = dict(zip(fs, rec[2][0][3]))
        n += 1
        s = dict(zip(fs, trav.state(F)[3]))
        ch = {x for x in fs if f is None or f[x] != s[x]} - ITER
        ctx.oblige("iterate", "load", not ch, "loading a block changes %s, which rewinding relies on" % ", ".join(sorted(ch)))
    ctx.floor("ways through load_next_block", n, 2)
    # a step of a directory moves its position only
    fi = trav.names(F, trav.IFD)
    writers = {}
    for (adt, i), bs in field_writers(F, True).items():
        if adt == trav.IFD:
            writers[fi[i]] = bs
    step = C.impl_fn(F, "std::iter::Iterator", trav.IFD, "next")
    reach = F.closure_of([step])
    for n_ in fi:
        if n_ in ("index", "pos"):
            continue
        w = [x.path for x in writers.get(n_, ()) if x.id in reach]
        ctx.oblige("iterate", "directory/" + n_, not w, "a step of a directory changes its %s (%s)" % (n_, ", ".join(w)))
    # further blocks are kept in the order they were added
    b = C.method(F, trav.EI, "add_tiff_block")
    o2 = ("agg", trav.EI, None, tuple(("stk", "rest", ()) if n == "additional_blocks" else v for n, v in zip(fs, obj[3])))
    T = T11(F)
    n = 0
    for st, v, f in trav.walk(T, b, o2, fs, trav.EI):
        if lost(v):
            continue
        n += 1
        ab = f["additional_blocks"] if f else ("?",)
        it = ab[2][-1] if ab[0] == "stk" and ab[1] == "rest" and len(ab[2]) == 1 else None
        ctx.oblige("blocks", "order", it is not None and it[0] == "agg" and it[1] == BLOCK and it[3][C.fidx(F, BLOCK, "data")][0] == "sym" and it[3][C.fidx(F, BLOCK, "header")][0] == "sym",
                   "a further block is not appended, as it is, behind the others")
        ctx.oblige("blocks", "else", f is not None and all(f[x] == dict(zip(fs, o2[3]))[x] for x in fs if x != "additional_blocks"), "adding a block changes more than the list of blocks")
    ctx.floor("ways through add_tiff_block", n, 1)
    # looking for GPS information starts over, on a copy
    b = C.method(F, trav.EI, "parse_gps")
    T = T11(F, stop=[x.id for x in C.impl_fns(F, "std::iter::Iterator", trav.EI, "next")])
    n = 0
    ctx.oblige("gps", "shared", F.types[b.locals[1]["ty"]]["s"].startswith("&") and not F.types[b.locals[1]["ty"]]["s"].startswith("&mut"), "parse_gps can change the iterator it is called on")
    for st, v, env in T.walk_env(b, [("lref", trav.SLOT, ())], trav.State(), 0, (), None, {trav.SLOT: obj}):
        ev = [e for e in st.events if e[0] == "iterates"]
        if not ev:
            if not lost(v):
                ctx.oblige("gps", "looks", False, "parse_gps answers without looking through the entries")
            continue
        n += 1
        f = dict(zip(fs, ev[0][2][3]))
        ctx.oblige("gps", "start", f["ifd0"][0] == "agg" and f["ifds"] == ("stk", "none", (f["ifd0"],)) and good(f["ifd0"]) and f["current_block_index"] == k(0) and
                   all(f[x] == ("set", ("cleared",)) for x in SETS) and all(f[x] == o[x] for x in keep), "parse_gps looks through the entries from where iteration stands, not from the first")
    ctx.floor("ways through parse_gps", n, 2)
    seen |= T.seen
    # nobody else makes iterators
    made = 0
    for x in builders(F, {trav.EI: 1}):
        made += 1
        ctx.oblige("built", x.path, x.id in seen, "%s builds an iterator in a way that was not judged" % x.path)
    ctx.floor("places an iterator is built", made, 1)
