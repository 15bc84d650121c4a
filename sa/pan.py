"""Panic-freedom obligations over MIR: path-sensitive linear facts, loops by inductive havoc.

Every assertion the compiler emits (overflow, bounds, division) and every call with a documented panic is a site.
A site is proved in a context when on every path reaching it the condition follows from the path's facts."""
from table import Tab, TableLimit, k, isk, State, some, ok, err, NONE, UNIT, INT
from model import op_fn, op_place, op_const
from reader import Reader, CUR, lit
from linterm import NARROW, SHRINK
import lin as L

PANICKY = {"unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "slice", "slice_ref", "split_to", "split_off", "split_at", "split_at_mut",
           "advance", "copy_to_slice", "copy_from_slice", "clone_from_slice", "drain", "remove", "swap_remove", "insert", "swap", "chunks", "chunks_exact", "windows",
           "rchunks", "step_by", "with_capacity", "reserve", "copy_within", "pow", "abs", "rem_euclid", "div_euclid", "isqrt", "ilog2", "ilog10", "ilog", "clamp",
           "borrow_mut", "rotate_left", "rotate_right", "fill_with", "from_timestamp", "and_hms", "from_ymd", "from_hms", "seconds", "minutes", "hours", "days", "weeks",
           "milliseconds", "with_timezone", "naive_local", "sum", "product", "count_ones", "split_inclusive", "repeat", "join_all", "add", "sub", "mul", "div", "rem", "neg", "shl", "shr",
           "add_assign", "sub_assign", "mul_assign", "div_assign", "rem_assign", "truncate", "extend_from_within", "replace_range", "insert_str", "split_first_chunk_unchecked",
           "from_utc_datetime", "single_unwrap", "array_chunks", "as_chunks", "from_digit", "to_digit", "try_into_unwrap"}
# names above that panic only for some receivers: which callee paths count
ONLY = {"insert": ("Vec", "String", "BytesMut"), "remove": ("Vec", "String"), "swap": ("slice", "Vec"), "drain": ("Vec", "String", "VecDeque"), "slice": ("bytes::",), "abs": ("i8", "i16", "i32", "i64", "isize", "i128"),
        "pow": ("core::num", "std::num"), "clamp": ("f32", "f64", "Ord"), "repeat": ("slice", "str"), "rotate_left": ("slice",), "rotate_right": ("slice",),
        "truncate": ("String",), "add": ("chrono", "std::ops::Add", "std::time"), "sub": ("chrono", "std::ops::Sub", "std::time"), "sum": ("Iterator",), "product": ("Iterator",),
        "mul": ("std::ops",), "div": ("std::ops",), "rem": ("std::ops",), "neg": ("std::ops",), "shl": ("std::ops",), "shr": ("std::ops",),
        "seconds": ("chrono",), "minutes": ("chrono",), "hours": ("chrono",), "days": ("chrono",), "weeks": ("chrono",), "milliseconds": ("chrono",),
        "from_timestamp": ("chrono",), "advance": ("bytes", "Buf"), "windows": ("slice",), "borrow_mut": ("RefCell",), "with_capacity": ("Vec", "String", "BytesMut", "HashMap", "HashSet", "VecDeque"),
        "reserve": ("Vec", "String", "BytesMut", "HashMap"), "to_digit": ("char",), "from_digit": ("char",), "count_ones": ("nothing",), "split_inclusive": ("nothing",)}
PANICS = ("core::panicking::", "std::rt::begin_panic", "std::rt::panic", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "std::process::abort")
GETS = {"get_" + p + s for p in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "uint", "int") for s in ("", "_le", "_ne")}


def panicky(c):
    p, n = c.path or "", c.name
    if p.startswith(PANICS):
        return True
    if n in GETS and ("Buf" in p or "bytes" in p):
        return True
    if n in PANICKY:
        w = ONLY.get(n)
        full = p + " " + (c.full or "") + " " + (c.rpath or "")
        return w is None or any(x in full for x in w)
    return False


RANGE = "std::ops::Range"


class Budget(Exception):
    pass


class Pan(Reader):
    def __init__(self, F, inline, force=(), **kw):
        kw_inv, kw_pres = kw.pop("inv", None), kw.pop("pres", None)
        super().__init__(F, max_paths=kw.pop("max_paths", 4000), depth=kw.pop("depth", 14), unroll=10 ** 9, **kw)
        self.inline = inline          # body -> bool
        self.force = set(force)       # body ids analysed in place of their calls
        self.rec = [{}]
        self.site = None
        self.slot_ty = {}
        self.ref_ty = {}
        self.steps = 0
        self.max_steps = 16000
        self._loops = {}
        self.loopinfo = {}
        self.bnd = set()
        self.lt.tight = True
        self.pres = kw_pres or {}     # body -> conditions it leaves to its callers
        self.want_pre = False
        self.new_pre = {}
        self.argsym = set()
        self.inv = kw_inv or {}       # adt -> [(a, b)] meaning a <= b: field paths, or a number for a
        self.inv_done = set()
        self.inv_bad = set()
        self.inv_seen = set()
        self.loopsyms, self.entry, self.newL = set(), {}, []

    # ---- sites
    def mark(self, st, site, good, why=""):
        r = self.rec[-1].setdefault(site, [0, {}])
        r[0] += 1
        if not good:
            r[1].setdefault(why, st)

    def goal(self, st, site, what, *gs):
        """checks g >= 0 for each g and assumes it"""
        for g in gs:
            if not g[1] and g[0] >= 0:
                self.mark(st, site, True)
                continue
            fs = self.lt.facts(st)
            self.facts_for(g, fs)
            if self.lt.entails(g, fs) or self.lt.infeasible(fs):
                self.mark(st, site, True)
                continue
            pt = self.as_pre(g, fs) if self.want_pre else None
            if pt is not None:
                self.new_pre.setdefault(pt, set()).add(site)
                self.mark(st, site, True)
            else:
                self.mark(st, site, False, what + ": " + self.show(("lin", g)))
            s = st.assume(("op", "Ge", ("lin", g), k(0)), 1)
            if s is not None:
                st = s
        return st

    # ---- conditions left to the callers of a private function
    def rooted(self, t, n=0):
        """whether the term speaks about the arguments alone"""
        if not isinstance(t, tuple) or not t or n > 12:
            return False
        if t[0] == "sym":
            return t in self.argsym
        if t[0] == "k":
            return True
        if t[0] in ("fld", "as"):
            return self.rooted(t[1], n + 1)
        if t[0] == "len":
            return self.rooted(t[1], n + 1)
        if t[0] == "cast":
            return self.rooted(t[2], n + 1)
        if t[0] == "rd":
            return self.rooted(t[4], n + 1) and self.rooted(t[5], n + 1)
        if t[0] == "op":
            return all(self.rooted(x, n + 1) for x in t[2:])
        if t[0] == "lin":
            return all(self.rooted(self.lt.term.get(a), n + 1) for a, _ in t[1][1])
        return False

    def freeze(self, t):
        """a term without references to this analysis"""
        if isinstance(t, tuple) and t and t[0] == "lin":
            return ("lin*", t[1][0], tuple((self.freeze(self.lt.term[a]), c) for a, c in t[1][1]))
        if isinstance(t, tuple) and t and t[0] == "cast" and t in NARROW:
            return ("cast!", t[1], self.freeze(t[2]), t[3], t in SHRINK)
        if isinstance(t, tuple):
            return tuple(self.freeze(x) for x in t)
        return t

    def as_pre(self, g, fs):
        """g >= 0 as a condition on the arguments, with what the path knows about the quantities in it"""
        t = ("lin", g)
        if not g[1] or not self.rooted(t):
            return None
        mine = {a for a, _ in g[1]}
        cond = set()
        for co, c0 in fs.f.items():
            f = (c0, co)
            if len(f[1]) <= 3 and mine & {a for a, _ in f[1]} and not (f[0] >= 0 and all(c > 0 for _, c in f[1])) and self.rooted(("lin", f)):
                cond.add(self.freeze(("lin", f)))
        if len(cond) > 4:
            cond = sorted(cond, key=lambda x: (len(repr(x)), repr(x)))[:4]
        return ("pre", self.freeze(t), tuple(sorted(cond, key=repr)))

    def subst(self, t, m):
        if t[0] == "sym":
            return m[t[1]]
        if t[0] == "k":
            return t
        if t[0] == "fld":
            v = self.subst(t[1], m)
            if v[0] == "from":
                v = v[1]
            return self.proj1(v, ("f", t[2]))
        if t[0] == "as":
            return self.proj1(self.subst(t[1], m), ("v", t[2]))
        if t[0] == "len":
            v = self.subst(t[1], m)
            r = self.slc(v)
            return self.length(r if r is not None else v)
        if t[0] == "cast":
            return ("cast", t[1], self.subst(t[2], m), t[3])
        if t[0] == "cast!":
            w = ("cast", t[1], self.subst(t[2], m), t[3])
            NARROW.add(w)
            if t[4]:
                SHRINK.add(w)
            return w
        if t[0] == "op":
            return self.binop(t[1], self.subst(t[2], m), self.subst(t[3], m)) if len(t) == 4 else t[:2] + tuple(self.subst(x, m) for x in t[2:])
        if t[0] == "rd":
            v, off = self.subst(t[4], m), self.subst(t[5], m)
            r = self.slc(v)
            if r is None:
                return ("rd", t[1], t[2], t[3], v, self.li(self.lt.lin(off)))
            return self.rd(r, self.lt.lin(off), t[2], t[3], t[1])
        if t[0] == "lin*":
            x = L.const(t[1])
            for y, c in t[2]:
                x = L.add(x, self.lt.lin(self.subst(y, m)), c)
            return ("lin", x)
        raise KeyError(t[0])

    def check_pres(self, c, a, st, env):
        for b in self.F.resolve(c):
            for pt in self.pres.get(b.id, ()):
                names = self.argnames(b)
                m = {}
                for i, x in enumerate(a):
                    if i < len(names):
                        v = self.resolve_refs(x, env)
                        m[names[i]] = self.typed(v, b.locals[i + 1]["ty"]) if v[0] in self.OPAQUE else v
                site = self.site + ("needs", b.path, repr(pt[1]))
                try:
                    g = self.lt.lin(self.subst(pt[1], m))
                except (KeyError, TypeError, IndexError) as e:
                    self.mark(st, site, False, "a condition of %s is not understood here (%r)" % (b.path, e))
                    continue
                s2 = st
                for f in pt[2]:
                    try:
                        s3 = s2.assume(("op", "Ge", ("lin", self.lt.lin(self.subst(f, m))), k(0)), 1)
                    except (KeyError, TypeError, IndexError):
                        continue
                    if s3 is None:
                        s2 = None
                        break
                    s2 = s3
                if s2 is None:
                    self.mark(st, site, True)
                    continue
                s2 = self.goal(s2, site, "condition of " + b.path, g)
                if not pt[2]:
                    st = s2
        return st

    def argnames(self, body):
        out = []
        for i in range(body.argc):
            n = "%s" % (body.locals[i + 1].get("n") or "a%d" % i)
            out.append(n if n not in out else "%s'%d" % (n, i))
        return out

    def facts_for(self, g, fs):
        pass

    def need(self, st, what, *gs):
        return self.goal(st, self.site + (what,), what, *gs)

    def show(self, t, n=0):
        if n > 8:
            return ".."
        f = lambda x: self.show(x, n + 1)
        if not isinstance(t, tuple) or not t:
            return str(t)
        if t[0] == "lin":
            x = t[1]
            return " + ".join([("%d*" % c if c != 1 else "") + f(self.lt.term.get(a, ("sym", str(a)))) for a, c in x[1]] + ([str(x[0])] if x[0] or not x[1] else []))
        if t[0] == "k":
            return repr(t[1])
        if t[0] == "sym":
            return t[1]
        if t[0] == "len":
            return "len(%s)" % f(t[1])
        if t[0] == "rd":
            return "%s%s%d(%s@%s)" % (t[1], t[3], t[2] * 8, f(t[4]), f(t[5]))
        if t[0] == "slc":
            return "%s[%s..%s]" % (f(t[1]), f(t[2]), f(t[3]))
        if t[0] == "fld":
            return f(t[1]) + "." + str(t[2])
        if t[0] == "as":
            return f(t[1])
        if t[0] == "call":
            return t[1].rsplit("::", 1)[-1] + "(" + ",".join(f(x) for x in t[2][:3]) + ")"
        if t[0] == "agg":
            return t[1].rsplit("::", 1)[-1] + "{" + ",".join(f(x) for x in t[3][:4]) + "}"
        return "(" + " ".join(f(x) if isinstance(x, tuple) else str(x) for x in t[:5]) + ")"

    # ---- types
    def strip(self, ty):
        T = self.F.types
        t = T[ty]
        while t["k"] == "ref" or (t["k"] == "adt" and t["p"] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc") and t.get("a")):
            t = T[t["t"]] if t["k"] == "ref" else T[t["a"][0]]
        return t

    def bytesy(self, t):
        if t["k"] in ("slice", "array"):
            e = self.F.types[t["t"]]
            return e["k"] == "int" and e["n"] == "u8"
        if t["k"] == "str":
            return True
        if t["k"] == "adt":
            if t["p"] in ("bytes::Bytes", "std::string::String", "bytes::BytesMut"):
                return True
            if t["p"] == "std::vec::Vec":
                e = self.F.types[t["a"][0]]
                return e["k"] == "int" and e["n"] == "u8"
        return False

    def region(self, v, t=None):
        if t is not None and t["k"] == "array" and str(t.get("n", "")).isdigit():
            return ("slc", v, k(0), k(int(t["n"])))
        return ("slc", v, k(0), ("lin", self.lt.lin(("len", v))))

    OPAQUE = ("fld", "call", "sym", "as", "idx", "unk", "prj", "cast", "from")

    def typed(self, v, ty):
        """an opaque value seen at a type"""
        if not isinstance(v, tuple) or not v or v[0] not in self.OPAQUE:
            return v
        t = self.strip(ty)
        if t["k"] == "int":
            if v[0] == "cast":
                return v
            if t["n"][0] == "u":
                if self.lt.hi.get(v, None) is None:
                    self.lt.hi[v] = INT[t["n"]][1]
            else:
                self.lt.signed.add(v)
            return v
        if v[0] in ("cast", "from"):
            return v
        if self.bytesy(t):
            return self.region(v, t)
        if t["k"] == "adt" and t["p"] == "std::io::Cursor" and self.bytesy(self.strip(t["a"][0])):
            pos = ("fld", v, 1)
            self.lt.hi[pos] = (1 << 64) - 1
            return self.cur(self.region(("fld", v, 0)), pos)
        if t["k"] == "adt" and t["p"] == "std::ops::Range":
            e = self.F.types[t["a"][0]]
            if e["k"] == "int":
                r = ("agg", "std::ops::Range", None, tuple(self.typed(("fld", v, i), t["a"][0]) for i in (0, 1)))
                if e["n"] == "usize" and r not in self.inv_done:
                    self.inv_done.add(r)
                    for x in r[3]:
                        self.lt.hi[x] = (1 << 63) - 1
                    self.lt.A.axiom(L.sub(self.lt.lin(r[3][1]), self.lt.lin(r[3][0])))
                return r
        if t["k"] == "adt" and self.inv.get(t["p"]) and v not in self.inv_done:
            self.inv_done.add(v)
            for cand in self.inv[t["p"]]:
                g = self.inv_lin(v, t["p"], cand)
                if g is not None:
                    self.lt.A.axiom(g)
                    if len(g[1]) == 1 and g[1][0][1] == 1 and -g[0] > 0:
                        self.lt.A.lo[g[1][0][0]] = -g[0]
        return v

    def leaf(self, v, adt, path):
        """the quantity a candidate speaks about: an integer field, or the size of a byte field"""
        for i in path:
            f = self.F.adts[adt]["vs"][0]["fs"][i]
            v = self.project_path(v, (("f", i),)) if v[0] == "agg" else ("fld", v, i)
            ty = self.F.types[f["ty"]]
            v = self.typed(v, f["ty"])
            adt = ty.get("p")
        if v[0] in ("slc", "from"):
            r = self.slc(v)
            return self.avail(r) if r is not None else None
        if self.bytesy(self.strip(f["ty"])):
            return self.lt.lin(self.length(v))
        return self.lt.lin(v)

    def inv_lin(self, v, adt, cand):
        a, b = cand
        x = L.const(a) if isinstance(a, int) else self.leaf(v, adt, a)
        y = self.leaf(v, adt, b)
        return L.sub(y, x) if x is not None and y is not None else None

    def fresh(self, ty=None, name="h"):
        self.uniq += 1
        v = ("sym", "%s%d" % (name, self.uniq))
        if ty is None:
            return v
        t = self.F.types[ty]
        if t["k"] == "tuple":
            return ("agg", "()", None, tuple(self.fresh(x, name) for x in t["ts"]))
        return self.typed(v, ty)

    def tyid(self, body, p):
        """type of a place, when the projections tell"""
        t = body.locals[p[0]]["ty"]
        T = self.F.types
        for e in p[1:]:
            ty = T[t]
            if e == "*":
                if ty["k"] in ("ref", "ptr"):
                    t = ty["t"]
                elif ty["k"] == "adt" and ty.get("a"):
                    t = ty["a"][0]
                else:
                    return None
            elif isinstance(e, dict) and "f" in e and "t" in e:
                t = e["t"]
            elif isinstance(e, dict) and "v" in e:
                continue
            elif isinstance(e, dict) and ("i" in e or "ci" in e):
                if ty["k"] in ("slice", "array"):
                    t = ty["t"]
                else:
                    return None
            else:
                return None
        return t

    def operand(self, body, env, st, o):
        v = super().operand(body, env, st, o)
        pl = op_place(o)
        if pl is not None and len(pl) > 1 and v[0] in self.OPAQUE:
            ty = self.tyid(body, pl)
            if ty is not None:
                return self.typed(v, ty)
        return v

    def rvalue(self, body, env, st, r):
        if r["r"] == "cast" and r["ck"].startswith("PointerExpose"):
            return self.operand(body, env, st, r["o"])
        v = super().rvalue(body, env, st, r)
        if r["r"] == "ref":
            ty = self.tyid(body, r["p"])
            if ty is not None:
                if v[0] == "lref":
                    self.ref_ty[(id(env.get("body", body)), v[1], v[2])] = ty
                else:
                    v = self.typed(v, ty)
        if r["r"] == "agg" and v[0] == "agg" and v[1] in self.inv:
            fs = None
            for cand in self.inv[v[1]]:
                self.inv_seen.add((v[1], cand))
                if (v[1], cand) in self.inv_bad:
                    continue
                g = self.inv_lin(v, v[1], cand)
                if g is not None and not g[1] and g[0] >= 0:
                    continue
                if fs is None:
                    fs = self.lt.facts(st)
                if g is None or not self.lt.entails(g, fs) and not self.lt.infeasible(fs):
                    self.inv_bad.add((v[1], cand))
        if r["r"] == "agg" and v[0] == "agg" and v[1] == RANGE:
            e = self.F.types[r["a"][0]] if r.get("a") else None
            if e is not None and e["k"] == "int" and e["n"] == "usize":
                x, y = (self.lt.lin(z) for z in v[3])
                self.goal(st, self.site + ("range",), "range", L.sub(y, x), L.sub(L.const((1 << 63) - 1), y))
        return v

    def store(self, body, env, st, pl, v):
        if len(pl) == 1 and v[0] in self.OPAQUE:
            v = self.typed(v, body.locals[pl[0]]["ty"])
        return super().store(body, env, st, pl, v)

    def update(self, cur, path, v):
        if not path:
            return v
        p = path[0]
        if cur[0] == "agg" and p[0] == "v":
            return self.update(cur, path[1:], v)
        if cur[0] == "agg" and p[0] == "f" and len(cur[3]) <= p[1] and cur[1] != "?":
            return super().update(cur, path, v)
        if cur[0] == "agg" and p[0] in ("f", "ci"):
            return super().update(cur, path, v)
        if p[0] == "f" and p[1] < 24 and cur[0] in self.OPAQUE + ("upd",):
            fs = [("fld", cur, i) for i in range(24)]
            fs[p[1]] = self.update(fs[p[1]], path[1:], v)
            return ("agg", "?", None, tuple(fs))
        if cur[0] == "clo" and p[0] == "f" and p[1] < len(cur[2]):
            fs = list(cur[2])
            fs[p[1]] = self.update(fs[p[1]], path[1:], v)
            return cur[:2] + (tuple(fs),)
        if cur[0] == "slc":
            # an element is overwritten: same length, unknown bytes
            self.uniq += 1
            n = ("sym", "w%d" % self.uniq)
            ln = self.lt.lin(("len", n))
            return ("slc", n, k(0), self.li(self.avail(cur)))
        self.uniq += 1
        return ("unk", self.uniq)

    def lift(self, v, env, slots):
        n = set(slots)
        w = super().lift(v, env, slots)
        for s in set(slots) - n:
            b, q = slots[s]
            ty = self.ref_ty.get((id(env.get("body")), b, q))
            if ty is None and not q:
                body = env.get("body")
                ty = body.locals[b]["ty"] if body is not None and isinstance(b, int) and b < len(body.locals) else self.slot_ty.get(b)
            if ty is not None:
                self.slot_ty[s] = ty
        return w

    def scramble(self, v, ty=None):
        """the value after unknown code had mutable access to it"""
        if ty is not None and self.F.types[ty]["k"] == "ref" and not self.F.types[ty].get("m"):
            return v
        if v[0] == "agg" and v[1] == CUR:
            self.uniq += 1
            p = ("sym", "pos%d" % self.uniq)
            self.lt.hi[p] = (1 << 64) - 1
            return self.cur(v[3][0], p)
        if v[0] == "agg" and v[2] is None and v[1] in ("()", "?") or v[0] == "agg" and v[2] is None and v[1] in self.F.adts:
            a = self.F.adts.get(v[1])
            fs = a["vs"][0]["fs"] if a and a["vs"] else []
            ts = self.F.types[ty]["ts"] if ty is not None and v[1] == "()" and self.F.types[ty]["k"] == "tuple" else None
            return ("agg", v[1], None, tuple(self.scramble(x, fs[i]["ty"] if i < len(fs) else ts[i] if ts and i < len(ts) else None) for i, x in enumerate(v[3])))
        if v[0] == "lref":
            return v
        return self.fresh(ty, "u")

    def lref_ty(self, env, x):
        ty = self.ref_ty.get((id(env.get("body")), x[1], x[2]))
        if ty is None and not x[2]:
            body = env.get("body")
            ty = self.slot_ty.get(x[1]) if x[1] >= 100000 else body.locals[x[1]]["ty"] if body is not None else None
        return ty

    def cur(self, reg, pos):
        """a cursor: no operation of the crate moves one past its data (each is a site)"""
        if self.slc(reg) is not None and pos not in self.inv_done:
            self.inv_done.add(pos)
            self.lt.A.axiom(L.sub(self.avail(self.slc(reg)), self.lt.lin(pos)))
        return ("agg", CUR, None, (reg, pos))

    def cursor_call(self, c, a, r, st, env):
        x, pos = r[0][3]
        if c.name in ("set_position", "consume") and len(r) == 2 and self.slc(x) is not None:
            to = self.lt.lin(r[1]) if c.name == "set_position" else L.add(self.lt.lin(pos), self.lt.lin(r[1]))
            # moving past the end does not panic: the goal is that it does not happen, and nothing follows when it is not shown
            self.goal(st, self.site + ("cursor",), "cursor", L.sub(self.avail(x), to))
        g = super().cursor_call(c, a, r, st, env)
        if g is None and c.name == "read_exact" and len(a) == 2:
            return self.read_into(a, st, env, x, pos, self.lt.lin(self.length(r[1])))
        return g

    def read_into(self, a, st, env, x, pos, ln):
        """a read into something else than a whole array: all or nothing, of the target's length"""
        P = self.lt.lin(pos)
        for tv, s in self.when(st, L.sub(L.sub(self.avail(x), P), ln)):
            env2 = dict(env)
            self.open(a[1], env, env2)
            if not tv:
                # a failed read leaves the position at the end
                self.uniq += 1
                p = ("sym", "pos%d" % self.uniq)
                self.lt.A.axiom(L.sub(self.lt.lin(p), P))
                e = self._set(env2, a[0], self.cur(x, p))
                yield s, err(("sym", "eof")), e or env2, 0
                continue
            e = self._set(env2, a[0], ("agg", CUR, None, (x, self.li(L.add(P, ln)))))
            yield s, ok(UNIT), e or env2, 0

    # ---- calls
    def call(self, c, a, st, depth, stack, env, t):
        if c.path in ("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "std::string::String::len", "core::str::<impl str>::len", "bytes::Bytes::len", "bytes::Buf::remaining") and len(a) == 1:
            x = self.resolve_refs(a[0], env)
            if x[0] != "agg" or x[1] == "[]":
                yield st, self.length(x), None, 0
                return
        if panicky(c):
            self.mark(st, self.site + (c.name,), True)
        if c.name == "position" and (c.path or "").endswith("parser::Buf::position") and len(a) == 1:
            # a position in a buffer is at most its length: decided by the buffer rules
            yield st, self.newint("bufpos"), None, 0
            return
        if c.name == "share_buf" and (c.path or "").endswith("ShareBuf::share_buf"):
            env2 = dict(env)
            for x in a:
                self.open(x, env, env2)
            reg = self.region(self.newint("shared"))
            pos = self.newint("bufpos")
            self.lt.A.axiom(L.sub(self.avail(reg), self.lt.lin(pos)))
            yield st, ("agg", "()", None, (reg, pos)), env2, 0
            return
        g = self.lib(c, a, st, depth, stack, env)
        if g is not None:
            yield from g
            return
        tg = [x for x in self.F.resolve(c) if x.kind in ("Fn", "AssocFn")]
        local = len(tg) == 1 and c.rid == tg[0].id
        if local and not (tg[0].id in self.force or self.inline(tg[0])):
            yield self.unknown(c, a, st, env, t)
            return
        if not local or tg[0].id in stack or depth >= self.maxdepth:
            st = self.check_pres(c, a, st, env)
        for s2, v, e2, conc in super().call(c, a, st, depth, stack, env, t):
            yield s2, v, e2, 0

    def bounded(self, v, hi, *facts):
        self.lt.hi[v] = hi
        for f in facts:
            self.lt.A.axiom(f(self.lt.lin(v)))
        return v

    def newint(self, name, hi=(1 << 63) - 1):
        self.uniq += 1
        v = ("sym", "%s%d" % (name, self.uniq))
        self.lt.hi[v] = hi
        return v

    def lib(self, c, a, st, depth, stack, env):
        """library calls whose results are bounded by their arguments"""
        if c.local:
            return None
        n, lt = c.name, self.lt
        r = [self.resolve_refs(x, env) for x in a]
        one = lambda v: iter([(st, v, None, 0)])
        sl = self.slc(r[0]) if r else None
        full = (c.full or "") + " " + (c.path or "")
        if n in ("min", "max") and len(r) == 2 and all(self.intish(x) or x[0] in self.OPAQUE for x in r):
            if all(isk(x) for x in r):
                return None
            v = ("call", n, tuple(r), 0)
            x, y = lt.lin(r[0]), lt.lin(r[1])
            if n == "min":
                return one(self.bounded(v, (1 << 64) - 1, lambda z: L.sub(x, z), lambda z: L.sub(y, z)))
            return one(self.bounded(v, (1 << 64) - 1, lambda z: L.sub(z, x), lambda z: L.sub(z, y)))
        if n == "is_empty" and len(r) == 1 and r[0][0] in self.OPAQUE and sl is None and not full.startswith("std::ops"):
            return iter([(s, k(0 if tv else 1), None, 0) for tv, s in self.when(st, L.addc(lt.lin(self.length(r[0])), -1))])
        if n == "saturating_sub" and len(r) == 2:
            v = ("call", n, tuple(r), 0)
            x, y = lt.lin(r[0]), lt.lin(r[1])
            def g():
                for tv, s in self.when(st, L.sub(x, y)):
                    yield s, self.li(L.sub(x, y)) if tv else k(0), None, 0
            return g()
        if n == "leading_zeros" and r:
            w = (c.path or "").split("impl ")[-1].split(">")[0]
            return one(self.bounded(("call", n, tuple(r), 0), {"u8": 8, "u16": 16, "u32": 32, "u64": 64}.get(w, 128)))
        if n == "next" and r[0][0] == "agg" and r[0][1] == RANGE and len(r) == 1 and all(self.intish(x) or x[0] in self.OPAQUE for x in r[0][3]):
            x, y = r[0][3]
            def g():
                for tv, s in self.when(st, L.addc(L.sub(lt.lin(y), lt.lin(x)), -1)):
                    if tv:
                        e = self._set(env, a[0], ("agg", RANGE, None, (self.li(L.addc(lt.lin(x), 1)), y)))
                        yield s, some(x), e, 0
                    else:
                        yield s, NONE, None, 0
            return g()
        if n in ("from_ymd_opt", "and_hms_opt") and "chrono" in full and all(isk(x) for x in r[1 if n == "and_hms_opt" else 0:]):
            q = [x[1] for x in r[1 if n == "and_hms_opt" else 0:]]
            if n == "from_ymd_opt" and 1 <= q[1] <= 12 and 1 <= q[2] <= 28 and abs(q[0]) < 200000 or n == "and_hms_opt" and q[0] < 24 and q[1] < 60 and q[2] < 60:
                return one(some(("call", n, tuple(r), 0)))
        if n == "parse" and r and r[0][0] == "call" and r[0][1].endswith("::fail") and "nom" in r[0][1]:
            self.uniq += 1
            return one(err(("unk", self.uniq)))
        if n == "as_ptr" and sl is not None:
            p = ("sym", "ptr!%r" % (sl[1],))
            whole = lt.lin(("len", sl[1]))
            self.bounded(p, (1 << 63) - 1, lambda z: L.sub(L.sub(L.const((1 << 64) - 1), z), whole))
            return one(self.li(L.add(lt.lin(p), self.start(sl))))
        if n == "windows" and len(r) == 2:
            self.goal(st, self.site + (n,), n, L.addc(lt.lin(r[1]), -1))
            return one(("win", r[0], r[1]))
        if n == "iter" and len(r) == 1 and sl is None and r[0][0] in self.OPAQUE:
            return one(("viter", r[0]))
        if n in ("position", "rposition") and r:
            it = r[0]
            base = None
            if it[0] == "siter":
                base = L.addc(self.avail(it[1]), -1)
            elif it[0] == "win":
                base = L.sub(lt.lin(self.length(it[1])), lt.lin(it[2]))
            elif it[0] == "viter":
                base = L.addc(lt.lin(("len", it[1])), -1)
            if base is not None:
                v = self.newint("at")
                def g():
                    s = st.assume(("op", "Ge", ("lin", L.sub(base, lt.lin(v))), k(0)), 1)
                    if s is not None:
                        yield s, some(v), None, 0
                    yield st, NONE, None, 0
                return g()
        if n in ("find", "rfind") and len(r) == 2 and "str" in full and sl is not None:
            b = lit(r[1])
            m = len(b) if b is not None else 1
            v = self.newint("find")
            self.bnd.add(v)
            def g():
                s = st.assume(("op", "Ge", ("lin", L.addc(L.sub(self.avail(sl), lt.lin(v)), -m)), k(0)), 1)
                if s is not None:
                    yield s, some(v), None, 0
                yield st, NONE, None, 0
            return g()
        if n in ("index", "index_mut") and len(r) == 2:
            if ("str as std::ops::Index" in full or "String as std::ops::Index" in full) and sl is not None and r[1][0] == "agg":
                for e in r[1][3]:
                    fine = e in self.bnd or isk(e) and e[1] == 0 or lt.lin(e) == self.avail(sl)
                    self.mark(st, self.site + ("char boundary",), fine, "slicing a string at " + self.show(e))
            if sl is None and r[0][0] in self.OPAQUE and ("Vec<" in full or "slice" in full or "[" in full) and r[1][0] != "agg" and not "Map" in full:
                st = self.goal(st, self.site + (n,), n, L.addc(L.sub(lt.lin(("len", r[0])), lt.lin(r[1])), -1))
                return iter([(st, ("idx", r[0], r[1]) if a[0][0] != "lref" else ("idx", r[0], r[1]), None, 0)])
        if n in ("get", "get_mut") and len(r) == 2 and sl is None and r[0][0] in self.OPAQUE and "Map" not in full and \
                ("Vec" in full or "[T]" in full or "slice" in full) and (isk(r[1]) or self.intish(r[1]) or r[1][0] in self.OPAQUE):
            def g():
                for tv, s in self.when(st, L.addc(L.sub(lt.lin(("len", r[0])), lt.lin(r[1])), -1)):
                    yield s, some(("idx", r[0], r[1])) if tv else NONE, None, 0
            return g()
        if n in ("resize", "resize_with") and len(r) == 3 and a[0][0] == "lref" and "Vec" in full:
            e2 = dict(env)
            for x in a:
                self.open(x, env, e2)
            now = self.resolve_refs(a[0], e2)
            if now[0] in self.OPAQUE:
                for z in (1, -1):
                    d = L.sub(lt.lin(("len", now)), lt.lin(r[1]))
                    s2 = st.assume(("op", "Ge", ("lin", L.scale(d, z)), k(0)), 1)
                    st = s2 if s2 is not None else st
                return iter([(st, ("agg", "()", None, ()), e2, 0)])
        if n == "concat" and r and r[0][0] == "agg" and r[0][1] == "[]" and all(self.slc(x) is not None or lit(x) is not None for x in r[0][3]):
            v = self.newint("cat")
            ln = L.const(0)
            for x in r[0][3]:
                ln = L.add(ln, lt.lin(self.length(x)))
            return one(("slc", v, k(0), self.li(ln)))
        if n == "checked_add" and len(r) == 2 or n == "checked_sub" and len(r) == 2 or n == "checked_mul" and len(r) == 2:
            w = (c.path or "").split("impl ")[-1].split(">")[0]
            if w in ("usize", "u64", "u32", "u16", "u8"):
                x = lt.lin(("op", {"add": "Add", "sub": "Sub", "mul": "Mul"}[n[8:]], r[0], r[1]))
                def g():
                    g_ = L.sub(L.const(INT[w][1]), x) if n != "checked_sub" else x
                    for tv, s in self.when(st, g_):
                        yield s, some(self.li(x)) if tv else NONE, None, 0
                return g()
        if n == "slice" and "bytes" in full and len(r) == 2 and sl is not None:
            rg = self.range_of(sl, r[1])
            if rg is not None:
                lo, hi = rg
                st = self.goal(st, self.site + (n,), n, L.sub(hi, lo), L.sub(self.avail(sl), hi))
                return iter([(st, self.sub(sl, lo, hi), None, 0)])
        return None

    def unknown(self, c, a, st, env, t):
        r = tuple(self.resolve_refs(x, env) for x in a)
        if panicky(c):
            self.mark(st, self.site + (c.name,), False, "%s is called with %s" % (c.path, ", ".join(self.show(x) for x in r)[:200]))
        st = self.check_pres(c, a, st, env)
        env2 = dict(env)
        for x in a:
            self.open(x, env, env2)
        self.uniq += 1
        v = ("call", c.rpath or "?", (), self.uniq)
        if t.get("to") is None:
            return st, ("diverge", c.rpath), None, 0
        return st, v, env2, 0

    def open(self, x, env, env2):
        """everything reachable through mutable references in x becomes unknown"""
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "lref":
            old = self.project_path(env2.get(x[1], ("sym", "uninit")), x[2])
            nv = self.scramble(old, self.lref_ty(env, x))
            env2[x[1]] = self.update(env2[x[1]], list(x[2]), nv) if x[2] else nv
            self.open(old, env, env2) if old[0] in ("lref", "clo") else None
        elif x[0] in ("agg", "clo"):
            for y in x[-1]:
                self.open(y, env, env2)

    # ---- control flow
    def loops(self, body):
        if body.id not in self._loops:
            self._loops[body.id] = body.loops() if body.d.get("blocks") is not None and hasattr(body, "loops") else {}
        return self._loops[body.id]

    def walk_env(self, body, args, st, depth, stack, ups, init):
        self.bodies_seen.add(body.id)
        env = dict(init or {})
        env["body"] = body
        for i in range(body.argc):
            v = args[i] if i < len(args) else ("sym", "arg%d" % i)
            env[i + 1] = self.typed(v, body.locals[i + 1]["ty"]) if v[0] in self.OPAQUE else v
        if ups is not None and body.kind == "Closure":
            env[1] = ("clo", body.id, ups)
        saved = self.site
        for it in self.region_run(body, 0, env, st, None, None, depth, stack, init):
            s2 = self.site
            self.site = saved
            if it[0] == "ret":
                yield it[1], it[2], it[3]
            self.site = s2
        self.site = saved

    def region_run(self, body, blk0, env0, st0, blocks, head, depth, stack, init):
        loops = self.loops(body)
        work = [(blk0, env0, st0, True)]
        while work:
            blk, env, st, first = work.pop()
            if blocks is not None and blk not in blocks:
                yield ("out", blk, env, st)
                continue
            if blk == head and not first:
                yield ("back", blk, env, st)
                continue
            if blk in loops and blk != head:
                for it in self.do_loop(body, blk, env, st, loops[blk], depth, stack, init):
                    if it[0] == "out":
                        work.append((it[1], it[2], it[3], False))
                    else:
                        yield it
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget(body.path)
            for it in self.block(body, blk, env, st, depth, stack, init):
                if it[0] == "go":
                    work.append((it[1], it[2], it[3], False))
                else:
                    yield it

    def block(self, body, blk, env, st, depth, stack, init):
        env = dict(env)
        b = body.blocks[blk]
        self.site = (body.id, blk)
        for s in b["s"]:
            if s["s"] == "=":
                v = self.rvalue(body, env, st, s["r"])
                st = self.store(body, env, st, s["p"], v)
        t = b["t"]
        kd = t["t"]
        if kd in ("goto", "drop", "yield"):
            yield ("go", t["to"], env, st)
        elif kd == "return":
            yield ("ret", st, self.resolve_keep(env.get(0, UNIT), env, init), env)
        elif kd in ("unreachable", "resume", "terminate", "cdrop"):
            return
        elif kd == "assert":
            st = self.asserted(body, blk, env, st, t)
            if st is not None:
                yield ("go", t["to"], env, st)
        elif kd == "switch":
            d = self.operand(body, env, st, t["d"])
            for val, s2 in self.branch(st, d, [x[0] for x in t["tg"]], self.F.types[t["dt"]] if isinstance(t.get("dt"), int) else None):
                if val is None:
                    if t.get("ow") is not None:
                        yield ("go", t["ow"], env, s2)
                else:
                    yield ("go", [x[1] for x in t["tg"] if x[0] == val][0], env, s2)
        elif kd == "call":
            f = op_fn(t["f"])
            a = [self.operand(body, env, st, x) for x in t["a"]]
            here = self.site
            if f is None:
                gen = self.apply(self.operand(body, env, st, t["f"]), a, st, depth, stack, env)
            else:
                gen = self.call(f, a, st, depth, stack, env, t)
            for s2, rv, env2, conc in gen:
                self.site = here
                if isinstance(rv, tuple) and rv and rv[0] == "diverge" or t.get("to") is None:
                    nm = f.name if f is not None else "?"
                    if f is None or panicky(f) or str(rv[1] if rv[0] == "diverge" else "").rsplit("::", 1)[-1] in PANICKY:
                        fs = self.lt.facts(s2)
                        self.mark(s2, here + (nm,), self.lt.infeasible(fs), "%s can fail" % nm)
                    continue
                e3 = dict(env2 if env2 is not None else env)
                e3["body"] = body
                s2 = self.store(body, e3, s2, t["d"], rv)
                yield ("go", t["to"], e3, s2)

    def asserted(self, body, blk, env, st, t):
        mk = t["mk"]
        ops = [self.operand(body, env, st, o) for o in t["ops"]]
        site = (body.id, blk, mk)
        lt = self.lt
        if mk.startswith("overflow:"):
            ty = self.op_ty(body, t["ops"][0])
            n = ty["n"] if ty is not None and ty["k"] == "int" else "u8"
            lo, hi = INT[n]
            if mk in ("overflow:Shl", "overflow:Shr"):
                r = lt.lin(ops[1])
                return self.goal(st, site, mk, L.sub(L.const(ty["bits"] and int(ty["bits"]) - 1 if ty else 7), r), r)
            op = mk.split(":")[1]
            x = lt.lin(("op", op, ops[0], ops[1]))
            gs = []
            if op == "Mul":
                m0, m1 = lt.maxval(ops[0]), lt.maxval(ops[1])
                if lo == 0 and m0 is not None and m1 is not None and m0 * m1 <= hi:
                    self.mark(st, site, True)
                    return st
            if op in ("Add", "Mul") or lo < 0:
                gs.append(L.sub(L.const(hi), x))
            if op == "Sub" or lo < 0:
                gs.append(L.addc(x, -lo))
            return self.goal(st, site, mk, *gs)
        if mk == "bounds":
            ln = lt.lin(ops[0] if ops[0][0] != "slc" else self.length(ops[0]))
            return self.goal(st, site, mk, L.addc(L.sub(ln, lt.lin(ops[1])), -1))
        if mk in ("div0", "rem0"):
            return self.goal(st, site, mk, L.addc(lt.lin(ops[0]), -1))
        self.mark(st, site, False, mk)
        return st

    def op_ty(self, body, o):
        pl = op_place(o)
        if pl is not None:
            ty = self.tyid(body, pl)
            return self.F.types[ty] if ty is not None else None
        c = op_const(o)
        return self.F.types[c["ty"]] if c and isinstance(c.get("ty"), int) else None

    # ---- loops
    def pairs(self, a, b, out):
        """values of b standing where a has a loop symbol"""
        if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
            return
        if a in self.loopsyms:
            out.setdefault(a, b)
            return
        if a[0] == "agg" and b[0] == "agg" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
            for p, q in zip(a[3], b[3]):
                self.pairs(p, q, out)
        elif a[0] == "slc" and b[0] == "slc" and a[1] == b[1]:
            self.pairs(a[2], b[2], out)
            self.pairs(a[3], b[3], out)

    def bounds_in(self, env, hv):
        """quantities a loop counter may be bounded by: region sizes and integers the loop leaves alone"""
        out = []

        def go(v, n=0):
            if not isinstance(v, tuple) or not v or n > 4 or len(out) > 16:
                return
            if v[0] == "slc":
                for x in (self.avail(v), self.end(v)):
                    if x[1] and x not in out:
                        out.append(x)
            elif v[0] == "agg":
                for y in v[3]:
                    go(y, n + 1)
            elif v[0] in self.lt_int and self.lt.hi.get(v) is not None or v[0] == "lin":
                x = self.lt.lin(v)
                if x[1] and x not in out:
                    out.append(x)
        for key, v in env.items():
            if key != "body" and key not in hv:
                go(v)
        return out

    lt_int = ("sym", "fld", "len", "rd")

    def do_loop(self, body, h, env, st, blocks, depth, stack, init):
        hv, inv, base = {}, [], self.lt.facts(st)
        for rnd in range(24):
            e1, s1 = dict(env), st
            for key, val in hv.items():
                e1[key] = val
            for cand in inv:
                s2 = s1.assume(("op", "Ge", ("lin", cand), k(0)), 1)
                if s2 is not None:
                    s1 = s2
            self.rec.append({})
            items, grow = [], False
            try:
                backs = []
                for it in self.region_run(body, h, e1, s1, blocks, h, depth, stack, init):
                    (backs if it[0] == "back" else items).append(it)
                for it in backs:
                    e2 = it[2]
                    for key in env:
                        if key == "body" or key not in e2:
                            continue
                        if e2[key] != e1[key]:
                            self.newL = []
                            j, ch = self.joinv(e1[key], e2[key], self.env_ty(body, key))
                            if ch:
                                e1[key] = j
                                hv[key] = j
                                grow = True
                                for v, x in self.newL:
                                    self.loopsyms.add(v)
                                    if not (self.intish(x) or x[0] in self.OPAQUE) or x in self.loopsyms and x not in self.entry:
                                        continue
                                    x = self.entry.get(x, x)
                                    self.entry[v] = x
                                    V, X = self.lt.lin(v), self.lt.lin(x)
                                    for g in [L.sub(V, X), L.sub(X, V)] + [L.sub(b, V) for b in self.bounds_in(env, hv)]:
                                        g0 = L.subst(g, {V[1][0][0]: X})
                                        if g not in inv and self.lt.entails(g0, base):
                                            inv.append(g)
                if not grow:
                    # the candidate invariants must be kept by every way round
                    keep = []
                    fss = None
                    for g in inv:
                        good = True
                        if fss is None:
                            fss = []
                            for it in backs:
                                m = {}
                                for key in hv:
                                    if key in it[2]:
                                        self.pairs(e1[key], it[2][key], m)
                                fss.append((self.lt.facts(it[3]), {self.lt.lin(a)[1][0][0]: self.lt.lin(b) for a, b in m.items() if self.intish(b) or b[0] in self.OPAQUE}, m))
                        for fs, sub, m in fss:
                            g1 = L.subst(g, sub)
                            if not (self.lt.entails(g1, fs) or self.lt.infeasible(fs)):
                                good = False
                                break
                        if good:
                            keep.append(g)
                    if len(keep) < len(inv):
                        inv = keep
                        grow = True
            finally:
                rec = self.rec.pop()
            if not grow:
                for site, (n, bad) in rec.items():
                    r = self.rec[-1].setdefault(site, [0, {}])
                    r[0] += n
                    for w, s in bad.items():
                        r[1].setdefault(w, s)
                self.on_loop(body, h, env, hv, e1, backs)
                yield from items
                return
        raise Budget("loop in " + body.path)

    def on_loop(self, body, h, env, hv, e1, backs):
        pass

    def env_ty(self, body, key):
        if isinstance(key, int):
            if key >= 100000:
                return self.slot_ty.get(key)
            return body.locals[key]["ty"]
        return None

    def joinv(self, x, y, ty):
        """(value covering x and y, whether it differs from x); fresh symbols of earlier rounds are kept"""
        if x == y or self.covers(x):
            return x, False
        if x[0] == "agg" and y[0] == "agg" and x[1:3] == y[1:3] and len(x[3]) == len(y[3]) and x[1] != "[]":
            a = self.F.adts.get(x[1])
            fs = a["vs"][x[2] or 0]["fs"] if a and a["vs"] else []
            ts = None
            if ty is not None:
                t = self.strip(ty)
                if t["k"] == "tuple":
                    ts = t["ts"]
            out, ch = [], False
            for i, (p, q) in enumerate(zip(x[3], y[3])):
                fty = ts[i] if ts and i < len(ts) else fs[i]["ty"] if i < len(fs) else None
                if x[1] == CUR and i == 1 or x[1] == RANGE and self.intish(p):
                    if p != q and not self.covers(p):
                        self.uniq += 1
                        v = ("sym", "L%d" % self.uniq)
                        self.lt.hi[v] = (1 << 64) - 1
                        self.newL.append((v, p))
                        out.append(v)
                        ch = True
                    else:
                        out.append(p)
                    continue
                v, c = self.joinv(p, q, fty)
                out.append(v)
                ch = ch or c
            if x[1] == CUR and ch:
                return self.cur(*out), ch
            return ("agg", x[1], x[2], tuple(out)), ch
        if x[0] == "slc" and y[0] == "slc" and x[1] == y[1]:
            # regions of the same bytes: unknown ends
            a, z = x[2], x[3]
            if a != y[2] and not self.covers(a):
                a = self.fresh_len()
                self.newL.append((a, x[2]))
            if z != y[3] and not self.covers(z):
                z = self.fresh_len()
                self.newL.append((z, x[3]))
            r = ("slc", x[1], a, z)
            if r != x:
                self.reg_facts(r)
            return r, r != x
        if x[0] == "slc" and y[0] == "slc":
            return self.region(self.fresh(None, "L")), True
        v = self.fresh(ty, "L")
        self.newL.append((v, x))
        return v, True

    def fresh_len(self):
        self.uniq += 1
        v = ("sym", "L%d" % self.uniq)
        self.lt.hi[v] = (1 << 63) - 1
        return v

    def reg_facts(self, r):
        """start <= end <= length of the whole"""
        self.lt.A.axiom(L.sub(self.lt.lin(r[3]), self.lt.lin(r[2])))
        if r[1][0] != "agg":
            self.lt.A.axiom(L.sub(self.lt.lin(("len", r[1])), self.lt.lin(r[3])))

    def covers(self, x):
        if x[0] == "sym":
            return x[1][0] == "L" and x[1][1:].isdigit()
        if x[0] == "slc":
            return self.covers(x[1])
        if x[0] == "fld":
            return self.covers(x[1])
        if x[0] == "agg" and x[1] in (CUR, RANGE):
            return all(self.covers(y) for y in x[3])
        return False

    # ---- roots
    def root_args(self, body):
        init, args = {}, []
        names = self.argnames(body)
        for i in range(body.argc):
            l = body.locals[i + 1]
            ty = l["ty"]
            t = self.F.types[ty]
            v = ("sym", names[i])
            self.argsym.add(v)
            if t["k"] == "ref" and t.get("m"):
                self.uniq += 1
                s = 100000 + self.uniq
                self.slot_ty[s] = t["t"]
                init[s] = self.typed(v, t["t"])
                args.append(("lref", s, ()))
            else:
                args.append(self.typed(v, ty))
        return args, init

    def analyse(self, body):
        """runs the body on arbitrary arguments; returns {site: (paths, {failure: state})}"""
        args, init = self.root_args(body)
        ups = None
        if body.kind == "Closure" and args:
            ups = None
        self.rec = [{}]
        self.steps = 0
        n = 0
        self.site = (body.id, 0)
        st = State()
        for pt in self.pres.get(body.id, ()):
            if pt[2]:
                continue
            pt = pt[1]
            m = {}
            for n_, x in zip(self.argnames(body), args):
                v = self.project_path(init[x[1]], x[2]) if x[0] == "lref" else x
                m[n_] = v
            try:
                s2 = st.assume(("op", "Ge", ("lin", self.lt.lin(self.subst(pt, m))), k(0)), 1)
                st = s2 if s2 is not None else st
            except (KeyError, TypeError, IndexError):
                pass
        for s, v, e in self.walk_env(body, args, st, 0, (body.id,), ups, init):
            n += 1
        return self.rec[0], n
