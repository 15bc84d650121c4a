"""One round of the Exif iterator as a table: what happens to the stack of directories, the visited offsets and the caller, per kind of step."""
from table import Tab, State, k, isk, some, NONE, UNIT
from rules import common as C
from model import Anchor

SLOT = 900
EI = "exif::exif_iter::ExifIter"
IFD = "exif::exif_iter::IfdIter"
ENTRY = "exif::exif_iter::IfdEntry"
OPT = "std::option::Option"
TOP, NEW, TAG, VAL, ERR, IFD0 = (("sym", x) for x in ("TOP", "NEW", "TAG", "VAL", "ERR", "IFD0"))


def names(F, adt):
    return [f["n"] for f in F.adt(adt)["vs"][0]["fs"]]


class Trav(Tab):
    """ifds is ("stk", base, items): items above an unknown rest (base "rest") or above nothing (base "none");
    sets are ("set", items): what was added"""

    def __init__(self, F, **kw):
        super().__init__(F, max_paths=4000, depth=12, unroll=0, **kw)
        self.step = C.impl_fns(F, "std::iter::Iterator", IFD, "next")

    def put(self, env, x, v):
        if x[0] != "lref":
            return None
        e = dict(env)
        e[x[1]] = self.update(e[x[1]], list(x[2]), v) if x[2] else v
        return e

    def call(self, c, a, st, depth, stack, env, t):
        for it in self.call2(c, a, st, depth, stack, env, t):
            if it[0] is not None:
                yield it

    def call2(self, c, a, st, depth, stack, env, t):
        r = [self.resolve_refs(x, env) for x in a]
        n = c.name
        x = r[0] if r else None
        if x is not None and x[0] == "stk" and not c.local:
            g = self.on_stack(n, a, r, st, env)
            if g is not None:
                yield from g
                return
        if x is not None and x[0] == "set" and not c.local:
            g = self.on_set(n, a, r, st, env)
            if g is not None:
                yield from g
                return
        tg = [b.id for b in self.F.resolve(c)]
        if any(b.id in tg for b in self.step):
            s = self.event(st, ("next", x))
            key = ("next-of", x)
            yield s.assume(key, "end"), NONE, None, 0
            idx = field(self.F, x, IFD, "ifd_idx")
            for kind in ("sub", "next"):
                new = fresh(self.F, kind, x)
                s2 = s.assume(key, kind)
                ni = field(self.F, new, IFD, "ifd_idx")
                for o in (("Eq", 0), ("Ne", 1)):
                    for p, q in ((ni, idx), (idx, ni)):
                        s2 = s2.assume(("op", o[0], p, q), o[1] if p != q else 1 - o[1])
                v = C.vidx(self.F, ENTRY, "IfdNew")
                yield s2, some(("agg", "()", None, (some(TAG) if kind == "sub" else NONE, ("agg", ENTRY, v, (new,))))), None, 0
            for kind, name, p in (("entry", "Entry", VAL), ("err", "Err", ERR)):
                yield s.assume(key, kind), some(("agg", "()", None, (some(TAG), ("agg", ENTRY, C.vidx(self.F, ENTRY, name), (p,))))), None, 0
            return
        if not c.local and n in ("new", "default", "with_capacity") and "HashSet" in (c.full or ""):
            yield st, ("set", ("cleared",)), None, 0
            return
        if not c.local and n in ("new", "default", "with_capacity") and "Vec" in (c.full or ""):
            yield st, ("stk", "none", ()), None, 0
            return
        if n == "box_assume_init_into_vec_unsafe":
            for s2, v, e, f in super().call(c, a, st, depth, stack, env, t):
                yield s2, ("stk", "none", v[3]) if v[0] == "agg" and v[1] == "[]" else v, e, f
            return
        if n == "clone" and x is not None and x[0] in ("stk", "set"):
            yield st, x, None, 0
            return
        if n == "clone" and x is not None:
            yield st, x, None, 0
            return
        if c.path and c.path.endswith("TagOrCode::code"):
            yield st, ("code", x), None, 0
            return
        yield from super().call(c, a, st, depth, stack, env, t)

    def on_stack(self, n, a, r, st, env):
        x = r[0]
        base, items = x[1], x[2]

        def g():
            if n == "is_empty":
                if items:
                    yield st, k(0), None, 0
                elif base == "none":
                    yield st, k(1), None, 0
                else:
                    yield st.assume("empty", 1), k(1), self.put(env, a[0], ("stk", "none", ())), 0
                    yield st.assume("empty", 0), k(0), self.put(env, a[0], ("stk", "rest", (TOP,))), 0
            elif n == "len":
                yield st, ("stklen", base, len(items)), None, 0
            elif n == "pop":
                if items:
                    yield st, some(items[-1]), self.put(env, a[0], ("stk", base, items[:-1])), 0
                elif base == "none":
                    yield st, NONE, None, 0
                else:
                    yield st.assume("empty", 1), NONE, self.put(env, a[0], ("stk", "none", ())), 0
                    yield st.assume("empty", 0), some(TOP), self.put(env, a[0], ("stk", "rest", ())), 0
            elif n == "push":
                yield st, UNIT, self.put(env, a[0], ("stk", base, items + (r[1],))), 0
            elif n == "clear":
                yield st, UNIT, self.put(env, a[0], ("stk", "none", ())), 0
            elif n in ("last", "last_mut", "first") and items:
                yield st, some(items[-1]), None, 0
            else:
                yield st, ("unk-stack", n), self.put(env, a[0], ("unk", n)), 0
        return g()

    def on_set(self, n, a, r, st, env):
        x = r[0]

        def g():
            if n in ("contains", "insert"):
                it = r[1]
                key = ("in", it)
                for v in (1, 0):
                    if it in x[1]:
                        if not v:
                            continue
                        s = st
                    else:
                        s = st.assume(key, v)
                        if s is None:
                            continue
                    if n == "contains":
                        yield s, k(v), None, 0
                    else:
                        yield s, k(1 - v), (self.put(env, a[0], ("set", x[1] + (it,))) if it not in x[1] and not v else None), 0
            elif n == "clear":
                yield st, UNIT, self.put(env, a[0], ("set", ("cleared",))), 0
            else:
                yield st, ("unk-set", n), self.put(env, a[0], ("unk", n)), 0
        return g()


def field(F, x, adt, name):
    i = C.fidx(F, adt, name)
    return x[3][i] if x[0] == "agg" else ("fld", x, i)


def sym_struct(F, adt, base, **known):
    """a struct value with a symbol per field"""
    return ("agg", adt, None, tuple(known[n] if n in known else ("fld", base, i) for i, n in enumerate(names(F, adt))))


def fresh(F, kind, parent):
    """the directory a step of the parent leads to: a sub-directory has its index, the next one the index after it"""
    i = field(F, parent, IFD, "ifd_idx")
    return sym_struct(F, IFD, NEW, ifd_idx=i if kind == "sub" else ("op", "Add", i, k(1)))


def rows(F):
    """[(state, result or "again", final fields)] of one round of ExifIter::next"""
    b = C.impl_fn(F, "std::iter::Iterator", EI, "next")
    fs = names(F, EI)
    obj = state(F)
    load = C.method(F, EI, "load_next_block")
    T = Trav(F, models={load.id: lambda st, r: [(st.assume("load", v), k(v)) for v in (0, 1)]})
    return T, walk(T, b, obj, fs, EI)


def state(F):
    """an ExifIter in any state"""
    fs = names(F, EI)
    return ("agg", EI, None, tuple(("stk", "rest", ()) if n == "ifds" else ("set", ()) if n in ("visited_offsets", "encountered_tags") else IFD0 if n == "block_ifd0" else ("sym", "self." + n) for n in fs))


def walk(T, b, obj, fs, adt):
    """[(state, result, final fields of self)]"""
    out = []
    for st, v, env in T.walk_env(b, [("lref", SLOT, ())], State(), 0, (), None, {SLOT: obj}):
        f = T.resolve_refs(env.get(SLOT), env)
        f = dict(zip(fs, f[3])) if f[0] == "agg" and f[1] == adt else None
        out.append((st, v if v[0] == "diverge" else T.resolve_refs(v, env), f))
    return out
