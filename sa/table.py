"""Decision-table extraction.

A path-sensitive constant/value-numbering dataflow over the resolved MIR of a
function: every CFG path is followed with an abstract environment whose values
are constants, aggregates of values, or uninterpreted terms over the function's
inputs.  Local callees (and closures handed to modelled combinators) are
analysed in place, so extracting or inlining a helper does not change the table.
The result is the list of (constraints on the inputs, events, returned value)."""
import re
from model import Callee, op_place, op_const, op_fn
from linterm import NARROW, SHRINK


class TableLimit(Exception):
    pass


INT = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
       "usize": (0, 2**64 - 1), "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1),
       "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1),
       "u128": (0, 2**128 - 1), "i128": (-2**127, 2**127 - 1)}

UNIT = ("agg", "()", None, ())


def k(v):
    return ("k", v)


def isk(v):
    return isinstance(v, tuple) and v and v[0] == "k"


def some(v):
    return ("agg", "std::option::Option", 1, (v,))


NONE = ("agg", "std::option::Option", 0, ())


def ok(v):
    return ("agg", "std::result::Result", 0, (v,))


def err(v):
    return ("agg", "std::result::Result", 1, (v,))


class State:
    __slots__ = ("cons", "events", "fuel")

    def __init__(self, cons=None, events=()):
        self.cons = dict(cons or {})
        self.events = events

    def copy(self):
        return State(self.cons, self.events)

    def known(self, e):
        c = self.cons.get(e)
        return c[1] if c and c[0] == "=" else None

    def assume(self, e, val, eq=True):
        """returns a new state or None when contradictory"""
        c = self.cons.get(e)
        s = self.copy()
        if eq:
            if c and c[0] == "=" and c[1] != val:
                return None
            if c and c[0] == "!=" and val in c[1]:
                return None
            s.cons[e] = ("=", val)
        else:
            if c and c[0] == "=":
                return s if c[1] != val else None
            s.cons[e] = ("!=", (c[1] if c else frozenset()) | {val})
        return s


IDENT = {
    "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref",
    "std::borrow::Borrow::borrow", "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned",
    "std::string::String::as_str", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes",
    "std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_deref", "std::option::Option::<T>::copied",
    "std::option::Option::<T>::cloned", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::into_boxed_slice",
    "std::result::Result::<T, E>::as_ref", "core::str::<impl str>::to_owned", "core::slice::<impl [T]>::to_vec",
    "std::iter::Iterator::copied", "std::iter::Iterator::cloned",
    "std::iter::Iterator::by_ref", "std::hint::black_box",
}


class Tab:
    def __init__(self, facts, max_paths=4000, depth=12, opaque=(), events=None, unroll=1, models=None):
        self.F = facts
        self.models = models or {}     # body id -> fn(st, resolved args) yielding (state, value)
        self.hook = None               # fn(callee, resolved args, state) -> None or [(state, value)]
        self.max_paths = max_paths
        self.maxdepth = depth
        self.opaque = set(opaque)     # body ids/paths not to be entered
        self.want_event = events       # callee -> bool
        self.paths = 0
        self.uniq = 0
        self.unroll = unroll
        self.bodies_seen = set()

    # ---- public
    def run(self, body, args=None, st=None):
        if args is None:
            args = [("sym", body.locals[i + 1].get("n") or "arg%d" % i) for i in range(body.argc)]
        self.paths = 0
        out = []
        for s, v in self.walk(body, args, st or State(), 0, ()):
            out.append((s, v))
            if len(out) > self.max_paths:
                raise TableLimit(body.path)
        return out

    # ---- engine
    def walk(self, body, args, st, depth, stack, ups=None):
        """yields (state, retval or ('diverge', why))"""
        for s, v, _ in self.walk_env(body, args, st, depth, stack, ups, None):
            yield s, v

    def lift(self, v, env, slots):
        """replaces references to the caller's locals by references to fresh slots; slots: {slot: (base, path)}"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "lref":
            for s, t in slots.items():
                if t == (v[1], v[2]):
                    return ("lref", s, ())
            self.uniq += 1
            s = 100000 + self.uniq
            slots[s] = (v[1], v[2])
            return ("lref", s, ())
        if v[0] in ("agg", "clo"):
            return v[:-1] + (tuple(self.lift(x, env, slots) for x in v[-1]),)
        return v

    def slot_values(self, slots, env, seen=None):
        """current values behind lifted references; references inside them are lifted too"""
        out = {}
        todo = list(slots)
        while todo:
            s = todo.pop()
            base, path = slots[s]
            val = self.project_path(env.get(base, ("sym", "uninit")), path)
            n = len(slots)
            out[s] = self.lift(val, env, slots)
            todo += list(slots)[n:]
        return out

    def write_back(self, slots, env, cenv):
        """copies slot values of the callee's environment back into the caller's"""
        env2 = dict(env)

        def unlift(v, n=0):
            if not isinstance(v, tuple) or not v or n > 30:
                return v
            if v[0] == "lref":
                if v[1] in slots:
                    b, q = slots[v[1]]
                    return ("lref", b, q + v[2])
                return self.resolve_refs(v, cenv)
            if v[0] in ("agg", "clo"):
                return v[:-1] + (tuple(unlift(x, n + 1) for x in v[-1]),)
            return v
        for s, (base, path) in slots.items():
            nv = unlift(cenv.get(s, ("sym", "uninit")))
            env2[base] = self.update(env2.get(base, ("sym", "uninit")), list(path), nv) if path else nv
        return env2, unlift

    def enter(self, body, a, st, depth, stack, env, ups=None):
        """analyse a local callee in place; yields (state, value, caller env)"""
        slots = {}
        args = [self.lift(x, env, slots) for x in a]
        lups = None if ups is None else tuple(self.lift(x, env, slots) for x in ups)
        if not slots:
            for s2, v, _ in self.walk_env(body, args, st, depth, stack, lups, None):
                yield s2, v, None
            return
        init = self.slot_values(slots, env)
        for s2, v, cenv in self.walk_env(body, args, st, depth, stack, lups, init):
            env2, unlift = self.write_back(slots, env, cenv)
            yield s2, unlift(v), env2

    def walk_env(self, body, args, st, depth, stack, ups, init):
        self.bodies_seen.add(body.id)
        env = dict(init or {})
        for i in range(body.argc):
            env[i + 1] = args[i] if i < len(args) else ("sym", "arg%d" % i)
        if ups is not None and body.kind == "Closure":
            env[1] = ("clo", body.id, ups)
            # closures are called with (self, (args...)): MIR closures take args untupled
        work = [(0, env, st, {})]
        while work:
            blk, env, st, visits = work.pop()
            if self.paths > self.max_paths * 40:
                raise TableLimit(body.path)
            self.paths += 1
            n = visits.get(blk, 0)
            if n > 400 or (n > self.unroll and not visits.get("conc")):
                yield st, ("diverge", "loop"), env
                continue
            visits = dict(visits)
            visits[blk] = n + 1
            env = dict(env)
            b = body.blocks[blk]
            for s in b["s"]:
                if s["s"] == "=":
                    v = self.rvalue(body, env, st, s["r"])
                    st = self.store(body, env, st, s["p"], v)
                elif s["s"] == "setd":
                    pass
            t = b["t"]
            kd = t["t"]
            if kd == "goto":
                work.append((t["to"], env, st, visits))
            elif kd == "return":
                yield st, self.resolve_keep(env.get(0, UNIT), env, init), env
            elif kd in ("unreachable", "resume", "terminate", "cdrop"):
                yield st, ("diverge", kd), env
            elif kd == "drop":
                work.append((t["to"], env, st, visits))
            elif kd == "assert":
                work.append((t["to"], env, st, visits))
            elif kd == "switch":
                d = self.operand(body, env, st, t["d"])
                for val, s2 in self.branch(st, d, [x[0] for x in t["tg"]], self.F.types[t["dt"]] if isinstance(t.get("dt"), int) else None):
                    if val is None:
                        if t.get("ow") is not None:
                            work.append((t["ow"], env, s2, visits))
                    else:
                        to = [x[1] for x in t["tg"] if x[0] == val][0]
                        work.append((to, env, s2, visits))
            elif kd == "call":
                f = op_fn(t["f"])
                a = [self.operand(body, env, st, x) for x in t["a"]]
                if f is None:
                    fv = self.operand(body, env, st, t["f"])
                    gen = self.apply(fv, a, st, depth, stack, env)
                else:
                    gen = self.call(f, a, st, depth, stack, env, t)
                for s2, rv, env2, conc in gen:
                    if isinstance(rv, tuple) and rv and rv[0] == "diverge":
                        yield s2, rv, env
                        continue
                    if t.get("to") is None:
                        yield s2, ("diverge", f.rpath if f else "?"), env
                        continue
                    e3 = dict(env2 if env2 is not None else env)
                    s2 = self.store(body, e3, s2, t["d"], rv)
                    v2 = visits
                    if conc:
                        v2 = dict(visits)
                        v2["conc"] = 1
                    work.append((t["to"], e3, s2, v2))
            elif kd == "yield":
                work.append((t["to"], env, st, visits))
            else:
                yield st, ("diverge", kd), env

    def branch(self, st, d, tgts, ty):
        """yields (target value or None for otherwise, state)"""
        if isk(d):
            v = d[1]
            if isinstance(v, bool):
                v = int(v)
            sv = str(v)
            if sv in tgts:
                yield sv, st
            else:
                yield None, st
            return
        # boolean comparison terms
        neg = False
        while d[0] == "op" and d[1] == "Not":
            d = d[2]
            neg = not neg
        if d[0] == "op" and d[1] in ("Eq", "Ne") and isk(d[3]):
            if d[1] == "Ne":
                neg = not neg
            e, c = d[2], d[3][1]
            for truth in (1, 0):
                s2 = st.assume(e, c, eq=bool(truth) != neg)
                if s2 is None:
                    continue
                yield (str(truth) if str(truth) in tgts else None), s2
            return
        isbool = ty is not None and ty["k"] == "bool"
        if isbool:
            for truth in (1, 0):
                s2 = st.assume(d, truth if not neg else 1 - truth)
                if s2 is not None:
                    yield (str(truth) if str(truth) in tgts else None), s2
            return
        for tv in tgts:
            s2 = st.assume(d, int(tv))
            if s2 is not None:
                yield tv, s2
        s2 = st
        for tv in tgts:
            if s2 is not None:
                s2 = s2.assume(d, int(tv), eq=False)
        if s2 is not None:
            # finite enum: all values excluded?
            n = self.disc_universe(d)
            c = s2.cons.get(d)
            if n is not None and c and c[0] == "!=" and n <= c[1]:
                return
            yield None, s2

    def disc_universe(self, d):
        if d[0] == "disc" and len(d) > 2 and d[2]:
            a = self.F.adts.get(d[2])
            if a and a["kind"] == "enum":
                return frozenset(int(v["d"]) for v in a["vs"] if v["d"] != "")
        return None

    # ---- values
    def resolve_keep(self, v, env, keep, n=0):
        """like resolve_refs, but references to places the caller lent (slots in keep) stay references"""
        if n > 20 or not isinstance(v, tuple) or not v:
            return v
        if v[0] == "lref":
            if keep and v[1] in keep:
                return v
            return self.resolve_keep(self.project_path(env[v[1]], v[2]), env, keep, n + 1) if v[1] in env else ("sym", "uninit%s" % v[1])
        if v[0] in ("agg", "clo"):
            return v[:-1] + (tuple(self.resolve_keep(x, env, keep, n + 1) for x in v[-1]),)
        return v

    def resolve_refs(self, v, env, n=0):
        if n > 20 or not isinstance(v, tuple) or not v:
            return v
        if v[0] == "lref":
            b = env.get(v[1])
            if b is None:
                return ("sym", "uninit%s" % v[1])
            return self.resolve_refs(self.project_path(b, v[2]), env, n + 1)
        if v[0] in ("agg", "clo"):
            return v[:-1] + (tuple(self.resolve_refs(x, env, n + 1) for x in v[-1]),)
        return v

    def project_path(self, v, path):
        for p in path:
            v = self.proj1(v, p)
        return v

    def proj1(self, v, p):
        if p[0] == "v":
            if v[0] == "agg":
                return v
            return ("as", v, p[1]) if v[0] != "as" else v
        if p[0] == "f":
            i = p[1]
            if v[0] == "agg" and i < len(v[3]):
                return v[3][i]
            if v[0] == "clo" and i < len(v[2]):
                return v[2][i]
            return ("fld", v, i)
        if p[0] == "ci":
            if v[0] == "agg" and p[1] < len(v[3]):
                return v[3][p[1]]
            if isk(v) and isinstance(v[1], (bytes, tuple)) and p[1] < len(v[1]):
                return k(v[1][p[1]])
            return ("idx", v, k(p[1]))
        if p[0] == "i":
            if isk(p[1]):
                return self.proj1(v, ("ci", p[1][1]))
            return ("idx", v, p[1])
        return ("prj", v, str(p))

    def place_path(self, env, pl):
        out = []
        for e in pl[1:]:
            if e == "*":
                out.append(("*",))
            elif isinstance(e, dict) and "f" in e:
                out.append(("f", e["f"]))
            elif isinstance(e, dict) and "v" in e:
                out.append(("v", e["v"]))
            elif isinstance(e, dict) and "i" in e:
                out.append(("i", self.resolve_refs(env.get(e["i"], ("sym", "?")), env)))
            elif isinstance(e, dict) and "ci" in e:
                out.append(("ci", e["ci"]) if not e.get("fe") else ("cif", e["ci"]))
            else:
                out.append(("?", str(e)))
        return out

    def read(self, env, pl):
        v = env.get(pl[0], ("sym", "uninit%d" % pl[0]))
        for p in self.place_path(env, pl):
            if p[0] == "*":
                if isinstance(v, tuple) and v[0] == "lref":
                    v = self.project_path(env.get(v[1], ("sym", "uninit")), v[2])
                continue
            while isinstance(v, tuple) and v[0] == "lref":
                v = self.project_path(env.get(v[1], ("sym", "uninit")), v[2])
            v = self.proj1(v, p)
        return v

    def store(self, body, env, st, pl, v):
        path = self.place_path(env, pl)
        base = pl[0]
        pre = []
        cur = env.get(base)
        i = 0
        while i < len(path):
            if path[i][0] == "*":
                x = self.project_path(cur, pre) if cur is not None else None
                if isinstance(x, tuple) and x[0] == "lref":
                    base, pre = x[1], list(x[2])
                    cur = env.get(base)
                # else: transparent deref of an opaque reference
            else:
                pre.append(path[i])
            i += 1
        if not pre:
            env[base] = v
            if base != pl[0] or len(pl) > 1:
                if cur is not None and cur[0] in ("sym", "fld", "as"):
                    return self.event(st, ("store", cur, v))
            return st
        if cur is None:
            cur = ("sym", "uninit%d" % base)
        env[base] = self.update(cur, pre, v)
        root = cur
        if root[0] in ("sym", "fld", "as", "upd", "call"):
            return self.event(st, ("store", self.project_path(self.unupd(root), pre), v))
        return st

    def unupd(self, v):
        while isinstance(v, tuple) and v[0] == "upd":
            v = v[1]
        return v

    def update(self, cur, path, v):
        if not path:
            return v
        p = path[0]
        if cur[0] == "agg" and p[0] in ("f", "ci"):
            fs = list(cur[3])
            while len(fs) <= p[1]:
                fs.append(("sym", "uninit"))
            fs[p[1]] = self.update(fs[p[1]], path[1:], v)
            return ("agg", cur[1], cur[2], tuple(fs))
        if cur[0] == "agg" and p[0] == "v":
            return self.update(cur, path[1:], v)
        return cur   # opaque object: stores are events only

    def event(self, st, e):
        s = st.copy()
        s.events = st.events + (e,)
        return s

    def operand(self, body, env, st, o):
        pl = op_place(o)
        if pl is not None:
            v = self.read(env, pl)
            return v
        return self.const(body, op_const(o))

    def const(self, body, c):
        if c is None:
            return ("sym", "rt")
        if c.get("fn"):
            return ("fn", c["fn"]["id"] if "rid" not in c["fn"] else c["fn"]["rid"], Fn(c["fn"]))
        if "str" in c:
            return k(c["str"])
        if "int" in c:
            v = int(c["int"])
            ty = self.F.types[c["ty"]] if isinstance(c.get("ty"), int) else None
            if "variant" in c and ty and ty["k"] == "adt":
                return self.variant(ty["p"], c["variant"])
            return k(v)
        if "variant" in c:
            ty = self.F.types[c["ty"]]
            return self.variant(ty["p"], c["variant"])
        if "arr" in c:
            ty = self.F.types[c["ty"]] if isinstance(c.get("ty"), int) else None
            return self.arr(ty, c["arr"])
        if "prom" in c:
            for p in [body.d.get("proms") or []]:
                if c["prom"] < len(p):
                    return self.promoted(body, c["prom"])
        if c.get("zst"):
            ty = self.F.types[c["ty"]]
            if ty["k"] == "closure":
                return ("clo", ty["id"], ())
            if ty["k"] == "adt":
                a = self.F.adts.get(ty["p"])
                return ("agg", ty["p"], 0 if a and a["kind"] == "enum" else None, ())
            return UNIT
        if "def" in c:
            return self.named_const(c)
        if c.get("static"):
            return ("static", c["static"])
        return ("kx", str(sorted((a, str(b)) for a, b in c.items())))

    def arr(self, ty, vals):
        et = None
        if ty:
            t = ty
            while t["k"] == "ref":
                t = self.F.types[t["t"]]
            if t["k"] in ("array", "slice"):
                et = self.F.types[t["t"]]
        out = []
        for v in vals:
            if et and et["k"] == "adt":
                a = self.F.adts.get(et["p"])
                hit = [x["n"] for x in a["vs"] if x["d"] == str(v)] if a else []
                if hit:
                    out.append(self.variant(et["p"], hit[0]))
                    continue
            out.append(k(v) if not isinstance(v, str) or not v.lstrip("-").isdigit() else k(int(v)))
        return ("agg", "[]", None, tuple(out))

    def named_const(self, c):
        for it in self.F.items:
            if it["k"] == "const" and it["p"] == c["def"]:
                if "int" in it:
                    return k(int(it["int"]))
                if "str" in it:
                    return k(it["str"])
        bs = [b for b in self.F.by_path.get(c["def"], []) if "Const" in b.kind]
        if len(bs) == 1:
            for s, v in self.walk(bs[0], [], State(), 0, ()):
                return v
        return ("kx", c["def"])

    def promoted(self, body, i):
        p = body.d["proms"][i]
        if "blocks" not in p:
            return ("kx", "%s/prom%d" % (body.path, i))
        pb = _PromBody(body, p)
        for s, v in self.walk(pb, [], State(), 0, ()):
            return v
        return ("kx", "%s/prom%d" % (body.path, i))

    def variant(self, adt, name):
        a = self.F.adts.get(adt)
        if a:
            for i, v in enumerate(a["vs"]):
                if v["n"] == name:
                    return ("agg", adt, i, ())
        return ("kx", "%s::%s" % (adt, name))

    def disc(self, v, ty=None):
        if v[0] == "agg" and v[2] is not None:
            a = self.F.adts.get(v[1])
            if a:
                d = a["vs"][v[2]]["d"]
                if d != "":
                    return k(int(d))
            return k(v[2])
        return ("disc", v, ty)

    def rvalue(self, body, env, st, r):
        kd = r["r"]
        if kd == "use":
            return self.operand(body, env, st, r["o"])
        if kd == "ref":
            p = r["p"]
            if r.get("m"):
                # &mut local place
                path = self.place_path(env, p)
                base, pre = p[0], []
                for q in path:
                    if q[0] == "*":
                        x = self.project_path(env.get(base, ("sym", "uninit")), pre)
                        if isinstance(x, tuple) and x[0] == "lref":
                            base, pre = x[1], list(x[2])
                        else:
                            return self.read(env, p)
                    else:
                        pre.append(q)
                b = env.get(base)
                if b is not None and b[0] in ("sym", "fld", "as") and base <= body.argc:
                    return self.read(env, p)
                return ("lref", base, tuple(pre))
            return self.read(env, p)
        if kd == "rawptr":
            return self.read(env, r["p"])
        if kd == "disc":
            v = self.read(env, r["p"])
            ty = self.place_ty(body, r["p"])
            return self.disc(v, ty)
        if kd == "cast":
            if r["ck"] == "BoxDerefTransmute":
                pl = op_place(r["o"])
                v = env.get(pl[0]) if pl is not None else None
                if v is not None and v[0] == "lref":
                    return v
            v = self.operand(body, env, st, r["o"])
            if r["ck"] == "BoxDerefTransmute" and getattr(self, "boxes", False):
                return v
            ty = self.F.types[r["ty"]]
            if r["ck"] == "IntToInt" and isk(v) and isinstance(v[1], int) and ty["k"] == "char":
                return v
            if r["ck"] == "IntToInt" and isk(v) and isinstance(v[1], int) and ty["k"] == "int":
                lo, hi = INT[ty["n"]]
                x = v[1] & (hi - lo)
                if lo < 0 and x > hi:
                    x -= (hi - lo) + 1
                return k(x)
            if r["ck"].startswith("PointerCoercion") or r["ck"] in ("PtrToPtr", "Transmute"):
                return v
            if r["ck"].startswith("PointerExpose") and isk(v):
                return v
            w = ("cast", r["ck"], v, ty["s"])
            if r["ck"] == "IntToInt" and ty["k"] == "int":
                pl = op_place(r["o"])
                src = self.place_type(body, pl) if pl is not None else None
                lo, hi = INT[ty["n"]]
                if src is None or src["k"] != "int" or INT[src["n"]][0] < lo or INT[src["n"]][1] > hi:
                    NARROW.add(w)
                    if src is not None and src["k"] == "int" and INT[src["n"]][0] == 0:
                        SHRINK.add(w)
            return w
        if kd == "bin":
            a = self.operand(body, env, st, r["a"])
            b = self.operand(body, env, st, r["b"])
            return self.binop(r["op"], a, b)
        if kd == "un":
            a = self.operand(body, env, st, r["a"])
            if r["op"] == "Not":
                if isk(a) and isinstance(a[1], int) and a[1] in (0, 1):
                    return k(1 - a[1])
                return ("op", "Not", a)
            if r["op"] == "Neg" and isk(a):
                return k(-a[1])
            if r["op"] == "PtrMetadata":
                return self.length(a)
            return ("op", r["op"], a)
        if kd == "agg":
            fs = tuple(self.operand(body, env, st, o) for o in r["o"])
            ak = r.get("ak")
            if ak == "adt":
                a = self.F.adts.get(r["p"])
                en = (a and a["kind"] == "enum") or (a is None and r.get("vn") and r["p"].rsplit("::", 1)[-1] != r["vn"])
                return ("agg", r["p"], r["v"] if en else None, fs)
            if ak in ("closure", "coroutine"):
                return ("clo", r["id"], fs)
            if ak == "array":
                return ("agg", "[]", None, fs)
            return ("agg", "()", None, fs)
        if kd == "repeat":
            v = self.operand(body, env, st, r["o"])
            if r.get("n") and int(r["n"]) <= 64:
                return ("agg", "[]", None, (v,) * int(r["n"]))
            return ("rep", v, r.get("n"))
        self.uniq += 1
        return ("unk", self.uniq)

    def length(self, a):
        if a[0] == "agg" and a[1] == "[]":
            return k(len(a[3]))
        if isk(a) and isinstance(a[1], (str, bytes)):
            return k(len(a[1].encode() if isinstance(a[1], str) else a[1]))
        return ("len", a)

    def place_ty(self, body, p):
        return self.place_type(body, p).get("p")

    def place_type(self, body, p):
        t = body.locals[p[0]]["ty"]
        T = self.F.types
        for e in p[1:]:
            ty = T[t]
            if e == "*":
                if "t" in ty:
                    t = ty["t"]
            elif isinstance(e, dict) and "t" in e and "f" in e:
                t = e["t"]
            elif isinstance(e, dict) and ("i" in e or "ci" in e) and "t" in ty:
                t = ty["t"]
        return T[t]

    def binop(self, op, a, b):
        if isk(a) and not isk(b) and op in ("Eq", "Ne"):
            a, b = b, a
        if isk(a) and isk(b):
            x, y = a[1], b[1]
            try:
                if op == "Eq":
                    return k(int(x == y))
                if op == "Ne":
                    return k(int(x != y))
                if isinstance(x, int) and isinstance(y, int):
                    if op == "Lt":
                        return k(int(x < y))
                    if op == "Le":
                        return k(int(x <= y))
                    if op == "Gt":
                        return k(int(x > y))
                    if op == "Ge":
                        return k(int(x >= y))
                    fn = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                          "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y}
                    if op in fn:
                        return k(fn[op]())
                    if op.endswith("WithOverflow") and op[:3] in fn:
                        return ("agg", "()", None, (k(fn[op[:3]]()), k(0)))
                    if op in ("Div", "Rem") and y:
                        return k(x // y if op == "Div" else x % y)
            except Exception:
                pass
        if op.endswith("WithOverflow"):
            return ("agg", "()", None, (("op", op[:3], a, b), k(0)))
        return ("op", op, a, b)

    # ---- calls
    def call(self, c, a, st, depth, stack, env, t):
        """yields (state, value, env or None, concrete-iteration flag)"""
        p = c.path
        r = [self.resolve_refs(x, env) for x in a]
        if self.hook is not None:
            g = self.hook(c, r, st)
            if g is not None:
                for s2, v in g:
                    yield s2, v, None, 1
                return
        if c.full and c.full.startswith("<tracing::Level as std::cmp::PartialOrd<"):
            # logging is analysed as disabled: tracing's arguments are side-effect free (checked by P26)
            yield st, k(0), None, 0
            return
        if p and p.startswith("tracing::") and c.name not in ("instrument", "poll"):
            if c.name in ("is_disabled", "__is_enabled", "is_none"):
                yield st, k(int(c.name != "__is_enabled")), None, 0
                return
            self.uniq += 1
            yield st, ("unk", self.uniq), None, 0
            return
        if p in IDENT or (c.name in ("into_iter",) and False):
            yield st, (a[0] if a[0][0] == "lref" and p.endswith("_mut") else r[0]), None, 0
            return
        m = getattr(self, "m_" + c.name, None)
        if m is not None and (not c.local or c.name in ("poll", "call", "call_mut", "call_once")):
            g = m(c, a, r, st, depth, stack, env)
            if g is not None:
                yield from g
                return
        # local bodies
        tg = self.F.resolve(c)
        tg = [x for x in tg if x.kind in ("Fn", "AssocFn")]
        if len(tg) == 1 and c.rid == tg[0].id and tg[0].id not in self.opaque and tg[0].path not in self.opaque \
                and depth < self.maxdepth and tg[0].id not in stack:
            if self.want_event and self.want_event(c):
                st = self.event(st, ("call", c.rpath, tuple(r)))
            md = self.models.get(tg[0].id)
            if md is not None:
                for s2, v in md(st, r):
                    yield s2, v, None, 1
                return
            for s2, v, env2 in self.enter(tg[0], a, st, depth + 1, stack + (tg[0].id,), env):
                yield s2, v, env2, 0
            return
        pure = c.name in PURE_NAMES
        if not pure or (self.want_event and self.want_event(c)):
            st = self.event(st, ("call", c.rpath, tuple(r)))
        # &mut locals handed to an unknown callee become unknown
        env2 = dict(env)
        for x in a:
            if isinstance(x, tuple) and x[0] == "lref":
                self.uniq += 1
                env2[x[1]] = self.update(env2[x[1]], list(x[2]), ("unk", self.uniq)) if x[2] else ("unk", self.uniq)
        if t.get("to") is None:
            yield st, ("diverge", c.rpath), None, 0
            return
        if pure:
            yield st, ("call", c.rpath, tuple(r), 0), env2, 0
        else:
            self.uniq += 1
            yield st, ("call", c.rpath, tuple(r), self.uniq), env2, 0

    def apply(self, fv, args, st, depth, stack, env):
        raw, rargs = fv, args
        while raw[0] == "lref":
            raw = self.project_path(env.get(raw[1], ("sym", "uninit")), raw[2])
        fv = self.resolve_refs(fv, env)
        args = [self.resolve_refs(x, env) for x in args]
        if fv[0] == "clo":
            b = self.F.bodies.get(fv[1])
            if b is not None and depth < self.maxdepth and b.id not in stack:
                for s2, v, env2 in self.enter(b, [("clo", b.id, raw[2])] + list(rargs), st, depth + 1, stack + (b.id,), env, ups=raw[2]):
                    yield s2, v, env2, 0
                return
        if fv[0] == "fn":
            c = fv[2]
            if c.callee.ctor:
                yield st, self.ctor(c.callee, args), None, 0
                return
            yield from self.call(c.callee, list(args), st, depth, stack, env, {"to": 0})
            return
        self.uniq += 1
        yield self.event(st, ("call", "?", tuple([fv] + args))), ("call", "?", tuple([fv] + args), self.uniq), None, 0

    def ctor(self, c, args):
        p = c.path
        base, _, vn = p.rpartition("::")
        if p == "std::prelude::v1::Some" or vn == "Some":
            return some(args[0])
        if vn == "Ok":
            return ok(args[0])
        if vn == "Err":
            return err(args[0])
        a = self.F.adts.get(base)
        if a:
            for i, v in enumerate(a["vs"]):
                if v["n"] == vn:
                    return ("agg", base, i, tuple(args))
        return ("agg", p, None, tuple(args))

    # ---- models of std functions used in table-like code
    def _split(self, v, st, adt, n):
        """case split of an Option/Result value: yields (variant, payload, state)"""
        if v[0] == "agg" and v[2] is not None:
            yield v[2], (v[3][0] if v[3] else None), st
            return
        for i in range(n):
            s2 = st.assume(("disc", v, adt), i)
            if s2 is not None:
                yield i, ("fld", ("as", v, i), 0), s2

    def _opt(self, v, st):
        return self._split(v, st, "std::option::Option", 2)

    def _res(self, v, st):
        return self._split(v, st, "std::result::Result", 2)

    def _isopt(self, c):
        return "option::Option" in c.path

    def m_default(self, c, a, r, st, depth, stack, env):
        full = (c.full or c.path or "").lstrip("<")
        if a or c.local:
            return None
        if full.startswith("std::option::Option"):
            return iter([(st, NONE, None, 0)])
        if full.split(" ")[0] in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool"):
            return iter([(st, k(0), None, 0)])
        return None

    def m_size_of(self, c, a, r, st, depth, stack, env):
        if c.path and c.path.startswith(("std::mem", "core::mem")) and len(c.args) == 1:
            t = c.args[0]
            t = self.F.types[t["t"] if isinstance(t, dict) and "t" in t else t]["s"] if isinstance(t, (int, dict)) else str(t)
            n = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4,
                 "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}.get(t)
            if n is not None:
                return iter([(st, k(n), None, 0)])
            return iter([(st, ("call", "std::mem::size_of", (("ty", t),), 0), None, 0)])
        return None

    def m_min(self, c, a, r, st, depth, stack, env):
        if len(r) == 2 and all(isk(x) and isinstance(x[1], int) for x in r):
            return iter([(st, k(min(r[0][1], r[1][1]) if c.name == "min" else max(r[0][1], r[1][1])), None, 0)])
        return None

    m_max = m_min

    def m_eq(self, c, a, r, st, depth, stack, env):
        if c.trait != "std::cmp::PartialEq" or self.F.resolve(c):
            return None
        return iter([(st, self.struct_eq(r[0], r[1]), None, 0)])

    def m_ne(self, c, a, r, st, depth, stack, env):
        if c.trait != "std::cmp::PartialEq":
            return None
        v = self.struct_eq(r[0], r[1])
        return iter([(st, k(1 - v[1]) if isk(v) else ("op", "Not", v), None, 0)])

    def struct_eq(self, x, y):
        def norm(v):
            if v[0] == "agg" and v[1] == "[]" and all(isk(e) for e in v[3]):
                return k(bytes(e[1] for e in v[3])) if all(isinstance(e[1], int) and 0 <= e[1] < 256 for e in v[3]) else v
            return v
        x, y = norm(x), norm(y)
        if isk(x) and isk(y):
            xs = x[1].encode() if isinstance(x[1], str) else x[1]
            ys = y[1].encode() if isinstance(y[1], str) else y[1]
            return k(int(xs == ys))
        if x[0] == "agg" and y[0] == "agg" and x[2] is not None and y[2] is not None and not x[3] and not y[3]:
            return k(int(x == y))
        if x[0] == "agg" and y[0] == "agg" and x[1] == y[1] and x[1] in ("std::option::Option", "std::result::Result") and x[2] is not None and y[2] is not None:
            if x[2] != y[2]:
                return k(0)
            if len(x[3]) == 1 and len(y[3]) == 1:
                return self.struct_eq(x[3][0], y[3][0])
        return self.binop("Eq", x, y)

    def m_branch(self, c, a, r, st, depth, stack, env):
        def g():
            res = "Result" in (c.full or "").split(" as ")[0][:40] or "result::Result" in c.full
            if res:
                for i, pl, s2 in self._res(r[0], st):
                    if i == 0:
                        yield s2, ("agg", "std::ops::ControlFlow", 0, (pl,)), None, 0
                    else:
                        yield s2, ("agg", "std::ops::ControlFlow", 1, (err(pl),)), None, 0
            else:
                for i, pl, s2 in self._opt(r[0], st):
                    if i == 1:
                        yield s2, ("agg", "std::ops::ControlFlow", 0, (pl,)), None, 0
                    else:
                        yield s2, ("agg", "std::ops::ControlFlow", 1, (NONE,)), None, 0
        return g()

    def m_from_residual(self, c, a, r, st, depth, stack, env):
        v = r[0]
        if v[0] == "agg" and v[1] == "std::result::Result" and v[3]:
            # error conversion through From
            return iter([(st, err(("from", v[3][0])), None, 0)])
        return iter([(st, v, None, 0)])

    def m_from_output(self, c, a, r, st, depth, stack, env):
        return iter([(st, ok(r[0]) if "result::Result" in c.full else some(r[0]), None, 0)])

    def m_into(self, c, a, r, st, depth, stack, env):
        return iter([(st, r[0] if isk(r[0]) else ("from", r[0]), None, 0)])

    def m_from(self, c, a, r, st, depth, stack, env):
        m = WIDEN.match(c.rpath or "")
        if m is None or len(r) != 1:
            return None
        return iter([(st, r[0] if isk(r[0]) else ("cast", "IntToInt", r[0], m.group(1)), None, 0)])

    # vec![x, ..] allocates a box, writes an array through it and turns it into a vector
    def m_new_uninit(self, c, a, r, st, depth, stack, env):
        self.uniq += 1
        s = 100000 + self.uniq
        e = dict(env)
        e[s] = ("agg", "vec!", None, (UNIT, ("agg", "vec!", None, (("sym", "uninit%d" % s),))))
        return iter([(st, ("lref", s, ()), e, 0)])

    def m_box_assume_init_into_vec_unsafe(self, c, a, r, st, depth, stack, env):
        v = r[0]
        if v[0] == "agg" and v[1] == "vec!" and len(v[3]) == 2 and v[3][1][0] == "agg" and v[3][1][1] == "vec!" and v[3][1][3][0][0] == "agg":
            return iter([(st, v[3][1][3][0], None, 0)])
        return None

    def m_to_string(self, c, a, r, st, depth, stack, env):
        return iter([(st, r[0], None, 0)]) if isk(r[0]) or r[0][0] in ("sym", "fld") else None

    def m_map(self, c, a, r, st, depth, stack, env):
        if "Iterator" in c.path:
            return None
        opt = self._isopt(c)

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                if (opt and i == 1) or (not opt and i == 0):
                    for s3, v, e3, _ in self.apply(a[1], [pl], s2, depth, stack, env):
                        yield s3, (v if v[0] == "diverge" else (some(v) if opt else ok(v))), e3, 0
                else:
                    yield s2, NONE if opt else err(pl), None, 0
        return g()

    def m_map_err(self, c, a, r, st, depth, stack, env):
        def g():
            for i, pl, s2 in self._res(r[0], st):
                if i == 1:
                    for s3, v, e3, _ in self.apply(a[1], [pl], s2, depth, stack, env):
                        yield s3, (v if v[0] == "diverge" else err(v)), e3, 0
                else:
                    yield s2, ok(pl), None, 0
        return g()

    def m_and_then(self, c, a, r, st, depth, stack, env):
        opt = self._isopt(c)

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                if (opt and i == 1) or (not opt and i == 0):
                    for s3, v, e3, _ in self.apply(a[1], [pl], s2, depth, stack, env):
                        yield s3, v, e3, 0
                else:
                    yield s2, NONE if opt else err(pl), None, 0
        return g()

    def m_ok_or(self, c, a, r, st, depth, stack, env):
        def g():
            for i, pl, s2 in self._opt(r[0], st):
                yield s2, ok(pl) if i == 1 else err(r[1]), None, 0
        return g()

    def m_ok_or_else(self, c, a, r, st, depth, stack, env):
        def g():
            for i, pl, s2 in self._opt(r[0], st):
                if i == 1:
                    yield s2, ok(pl), None, 0
                else:
                    for s3, v, e3, _ in self.apply(a[1], [], s2, depth, stack, env):
                        yield s3, err(v), e3, 0
        return g()

    def m_ok(self, c, a, r, st, depth, stack, env):
        def g():
            for i, pl, s2 in self._res(r[0], st):
                yield s2, some(pl) if i == 0 else NONE, None, 0
        return g()

    def m_unwrap_or(self, c, a, r, st, depth, stack, env):
        opt = self._isopt(c)

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                yield s2, pl if (i == 1) == opt else r[1], None, 0
        return g()

    def m_unwrap_or_else(self, c, a, r, st, depth, stack, env):
        opt = self._isopt(c)

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                if (i == 1) == opt:
                    yield s2, pl, None, 0
                else:
                    for s3, v, e3, _ in self.apply(a[1], [] if opt else [pl], s2, depth, stack, env):
                        yield s3, v, e3, 0
        return g()

    def m_is_some(self, c, a, r, st, depth, stack, env):
        def g():
            for i, pl, s2 in self._opt(r[0], st):
                yield s2, k(int(i == 1)), None, 0
        return g()

    def m_is_none(self, c, a, r, st, depth, stack, env):
        def g():
            for i, pl, s2 in self._opt(r[0], st):
                yield s2, k(int(i == 0)), None, 0
        return g()

    def _std(self, c):
        return bool(c.path) and ("option::Option" in c.path or "result::Result" in c.path)

    def m_unwrap_or_default(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None
        opt = self._isopt(c)

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                if (i == 1) == opt:
                    yield s2, pl, None, 0
                else:
                    yield s2, ("call", "std::default::Default::default", (), 0), None, 0
        return g()

    def _unwrap(self, c, a, r, st):
        if not self._std(c):
            return None
        opt = self._isopt(c)
        # the unresolved aggregate, so that a reference inside it stays a reference
        x = a[0] if a[0][0] == "agg" else r[0]

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(x, st):
                yield s2, (pl if (i == 1) == opt else ("diverge", c.rpath)), None, 0
        return g()

    def m_unwrap(self, c, a, r, st, depth, stack, env):
        return self._unwrap(c, a, r, st)

    def m_expect(self, c, a, r, st, depth, stack, env):
        return self._unwrap(c, a, r, st)

    def m_as_mut(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None
        opt = self._isopt(c)
        raw = a[0]
        if raw[0] != "lref":
            return iter([(st, r[0], None, 0)])

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                ref = ("lref", raw[1], raw[2] + (("v", i), ("f", 0))) if r[0][0] == "agg" else pl
                if opt:
                    yield s2, some(ref) if i == 1 else NONE, None, 0
                else:
                    yield s2, ok(ref) if i == 0 else err(ref), None, 0
        return g()

    m_as_deref_mut = m_as_mut

    def m_is_ok(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None
        return ((s2, k(int(i == 0)), None, 0) for i, pl, s2 in self._res(r[0], st))

    def m_is_err(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None
        return ((s2, k(int(i == 1)), None, 0) for i, pl, s2 in self._res(r[0], st))

    def m_err(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None
        return ((s2, some(pl) if i == 1 else NONE, None, 0) for i, pl, s2 in self._res(r[0], st))

    def m_or(self, c, a, r, st, depth, stack, env):
        if not self._std(c) or not self._isopt(c):
            return None
        return ((s2, some(pl) if i == 1 else r[1], None, 0) for i, pl, s2 in self._opt(r[0], st))

    def m_or_else(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None
        opt = self._isopt(c)

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                if (i == 1) == opt:
                    yield s2, some(pl) if opt else ok(pl), None, 0
                else:
                    for s3, v, e3, _ in self.apply(a[1], [] if opt else [pl], s2, depth, stack, env):
                        yield s3, v, e3, 0
        return g()

    def m_map_or(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None
        opt = self._isopt(c)

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                if (i == 1) == opt:
                    for s3, v, e3, _ in self.apply(a[2], [pl], s2, depth, stack, env):
                        yield s3, v, e3, 0
                else:
                    yield s2, r[1], None, 0
        return g()

    def m_map_or_else(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None
        opt = self._isopt(c)

        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                hit = (i == 1) == opt
                for s3, v, e3, _ in self.apply(a[2] if hit else a[1], [pl] if hit or not opt else [], s2, depth, stack, env):
                    yield s3, v, e3, 0
        return g()

    def _is_and(self, c, a, r, st, depth, stack, env, variant, opt):
        def g():
            for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                if i == variant:
                    for s3, v, e3, _ in self.apply(a[1], [pl], s2, depth, stack, env):
                        yield s3, v, e3, 0
                else:
                    yield s2, k(0), None, 0
        return g()

    def m_is_some_and(self, c, a, r, st, depth, stack, env):
        return self._is_and(c, a, r, st, depth, stack, env, 1, True)

    def m_is_ok_and(self, c, a, r, st, depth, stack, env):
        return self._is_and(c, a, r, st, depth, stack, env, 0, False)

    def m_filter(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None

        def g():
            for i, pl, s2 in self._opt(r[0], st):
                if i != 1:
                    yield s2, NONE, None, 0
                    continue
                for s3, v, e3, _ in self.apply(a[1], [pl], s2, depth, stack, env):
                    for tv, s4 in self.branch(s3, v, ["0", "1"], {"k": "bool"}):
                        yield s4, some(pl) if tv == "1" else NONE, e3, 0
        return g()

    def m_transpose(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None
        OK, ERR = lambda v: ("agg", "std::result::Result", 0, (v,)), lambda v: ("agg", "std::result::Result", 1, (v,))

        def g():
            if self._isopt(c):
                for i, pl, s2 in self._opt(r[0], st):
                    if i == 0:
                        yield s2, OK(NONE), None, 0
                        continue
                    for j, q, s3 in self._res(pl, s2):
                        yield s3, OK(some(q)) if j == 0 else ERR(q), None, 0
            else:
                for j, q, s2 in self._res(r[0], st):
                    if j == 1:
                        yield s2, some(ERR(q)), None, 0
                        continue
                    for i, pl, s3 in self._opt(q, s2):
                        yield s3, some(OK(pl)) if i == 1 else NONE, None, 0
        return g()

    def m_flatten(self, c, a, r, st, depth, stack, env):
        if not self._std(c) or not self._isopt(c):
            return None
        return ((s2, pl if i == 1 else NONE, None, 0) for i, pl, s2 in self._opt(r[0], st))

    def m_then(self, c, a, r, st, depth, stack, env):
        if not (c.path or "").startswith(("std::bool", "core::bool", "bool")):
            return None

        def g():
            for tv, s2 in self.branch(st, r[0], ["0", "1"], {"k": "bool"}):
                if tv == "1":
                    for s3, v, e3, _ in self.apply(a[1], [], s2, depth, stack, env):
                        yield s3, some(v), e3, 0
                else:
                    yield s2, NONE, None, 0
        return g()

    def m_then_some(self, c, a, r, st, depth, stack, env):
        if not (c.path or "").startswith(("std::bool", "core::bool", "bool")):
            return None
        return ((s2, some(r[1]) if tv == "1" else NONE, None, 0) for tv, s2 in self.branch(st, r[0], ["0", "1"], {"k": "bool"}))

    def m_zip(self, c, a, r, st, depth, stack, env):
        if not self._std(c):
            return None

        def g():
            for i, pl, s2 in self._opt(r[0], st):
                if i != 1:
                    yield s2, NONE, None, 0
                    continue
                for j, ql, s3 in self._opt(r[1], s2):
                    yield s3, some(("agg", "()", None, (pl, ql))) if j == 1 else NONE, None, 0
        return g()

    # iterators over statically known arrays are unrolled
    def m_iter(self, c, a, r, st, depth, stack, env):
        if r and r[0][0] == "agg" and r[0][1] == "[]":
            return iter([(st, ("it", r[0][3], 0), None, 0)])
        return None

    def m_into_iter(self, c, a, r, st, depth, stack, env):
        if r and r[0][0] == "it":
            return iter([(st, r[0], None, 0)])
        return self.m_iter(c, a, r, st, depth, stack, env) or (iter([(st, r[0], None, 0)]) if r else None)

    def m_next(self, c, a, r, st, depth, stack, env):
        if r and r[0][0] == "it" and a[0][0] == "lref":
            it = r[0]
            env2 = dict(env)
            base = env2[a[0][1]]
            if it[2] < len(it[1]):
                env2[a[0][1]] = self.update(base, list(a[0][2]), ("it", it[1], it[2] + 1))
                return iter([(st, some(it[1][it[2]]), env2, 1)])
            return iter([(st, NONE, env2, 1)])
        return None

    def _find(self, r, a, st, depth, stack, env, mk, none):
        def g():
            items = r[0][1][r[0][2]:]
            states = [st]
            for e in items:
                nxt = []
                for s in states:
                    for s2, v, _, _ in self.apply(a[1], [e], s, depth, stack, env):
                        for tv, s3 in self.branch(s2, v, ["0", "1"], {"k": "bool"}):
                            if tv == "1":
                                yield s3, mk(e), None, 0
                            else:
                                nxt.append(s3)
                states = nxt
            for s in states:
                yield s, none, None, 0
        return g()

    def m_find(self, c, a, r, st, depth, stack, env):
        if r and r[0][0] == "it":
            return self._find(r, a, st, depth, stack, env, some, NONE)
        return None

    def m_any(self, c, a, r, st, depth, stack, env):
        if r and r[0][0] == "it":
            return self._find(r, a, st, depth, stack, env, lambda e: k(1), k(0))
        return None

    def m_contains(self, c, a, r, st, depth, stack, env):
        nm = r[0][1].rsplit("::", 1)[-1] if r and r[0][0] == "agg" and isinstance(r[0][1], str) else ""
        if nm.startswith("Range") and len(r) == 2:
            f = r[0][3]
            cs = []
            if nm in ("Range", "RangeInclusive", "RangeFrom"):
                cs.append(("Ge", f[0]))
            if nm in ("Range", "RangeTo"):
                cs.append(("Lt", f[1] if nm == "Range" else f[0]))
            if nm in ("RangeInclusive", "RangeToInclusive"):
                cs.append(("Le", f[1] if nm == "RangeInclusive" else f[0]))

            def g():
                cur = st
                for op, lim in cs:
                    nxt = None
                    for tv, s3 in self.branch(cur, self.binop(op, r[1], lim), ["0", "1"], {"k": "bool"}):
                        if tv == "1":
                            nxt = s3
                        else:
                            yield s3, k(0), None, 0
                    if nxt is None:
                        return
                    cur = nxt
                yield cur, k(1), None, 0
            return g()
        if r and r[0][0] == "agg" and r[0][1] == "[]":
            def g():
                states = st
                for e in r[0][3]:
                    v = self.struct_eq(r[1], e)
                    nxt = None
                    for tv, s3 in self.branch(states, v, ["0", "1"], {"k": "bool"}):
                        if tv == "1":
                            yield s3, k(1), None, 0
                        else:
                            nxt = s3
                    if nxt is None:
                        return
                    states = nxt
                yield states, k(0), None, 0
            return g()
        return None

    def _set(self, env, raw, v):
        """a copy of env in which the place behind the reference `raw` holds v; None when the reference is opaque"""
        if raw[0] != "lref":
            return None
        env2 = dict(env)
        env2[raw[1]] = self.update(env2.get(raw[1], ("sym", "uninit")), list(raw[2]), v) if raw[2] else v
        return env2

    def m_take(self, c, a, r, st, depth, stack, env):
        p = c.path or ""
        if not ("option::Option" in p or p in ("std::mem::take", "core::mem::take")) or not a:
            return None
        v = NONE if "option::Option" in p else ("call", "std::default::Default::default", (), 0)
        env2 = self._set(env, a[0], v)
        if env2 is None:
            return None
        return iter([(st, r[0], env2, 0)])

    def m_replace(self, c, a, r, st, depth, stack, env):
        p = c.path or ""
        if not ("option::Option" in p or p in ("std::mem::replace", "core::mem::replace")):
            return None
        env2 = self._set(env, a[0], some(a[1]) if "option::Option" in p else a[1])
        return None if env2 is None else iter([(st, r[0], env2, 0)])

    def _fncall(self, c, a, r, st, depth, stack, env):
        if not (c.trait or "").startswith("std::ops::Fn") or len(a) < 2 or r[1][0] != "agg":
            return None
        raw = a[1]
        while raw[0] == "lref":
            raw = self.project_path(env.get(raw[1], ("sym", "uninit")), raw[2])
        return self.apply(a[0], list(raw[3]), st, depth, stack, env)

    m_call = m_call_mut = m_call_once = _fncall

    # await: a future is polled once, to completion (suspension points do not change the value it yields)
    def m_into_future(self, c, a, r, st, depth, stack, env):
        return iter([(st, a[0], None, 0)])

    def m_instrument(self, c, a, r, st, depth, stack, env):
        return iter([(st, a[0], None, 0)])

    def m_new(self, c, a, r, st, depth, stack, env):
        if (c.path or "").startswith("std::ops::RangeInclusive") and len(r) == 2:
            return iter([(st, ("agg", "std::ops::RangeInclusive", None, (r[0], r[1], k(0))), None, 0)])
        return None

    def m_new_unchecked(self, c, a, r, st, depth, stack, env):
        return iter([(st, a[0], None, 0)]) if "Pin" in (c.path or "") else None

    def m_poll(self, c, a, r, st, depth, stack, env):
        if c.trait != "std::future::Future":
            return None
        raw = a[0]
        while raw[0] == "lref":
            raw = self.project_path(env.get(raw[1], ("sym", "uninit")), raw[2])

        def g():
            if raw[0] == "clo":
                b = self.F.bodies.get(raw[1])
                if b is not None and depth < self.maxdepth and b.id not in stack:
                    for s2, v, env2 in self.enter(b, [raw], st, depth + 1, stack + (b.id,), env, ups=raw[2]):
                        yield s2, (v if v[0] == "diverge" else ("agg", "std::task::Poll", 0, (v,))), env2, 0
                    return
            yield st, ("agg", "std::task::Poll", 0, (r[0],)), None, 0
        return g()

    def m_len(self, c, a, r, st, depth, stack, env):
        return iter([(st, self.length(r[0]), None, 0)])


# lossless conversions between integers are casts
WIDEN = re.compile(r"std::convert::num::<impl std::convert::From<[ui][0-9]+> for ([ui](?:[0-9]+|size))>::from$")
PURE_NAMES = {"len", "is_empty", "get", "first", "last", "as_str", "to_string", "format", "new", "trim", "checked_add",
              "checked_sub", "checked_mul", "from", "try_from", "try_into", "parse", "as_ptr", "fmt_args", "new_v1",
              "new_display", "new_debug", "new_const", "to_lowercase", "eq_ignore_ascii_case", "starts_with", "to_be_bytes",
              "from_be_bytes", "from_le_bytes", "min", "max", "num_seconds", "lt", "le", "gt", "ge", "cmp", "partial_cmp",
              "as_chunks", "index", "is_nan", "abs", "trunc", "round", "floor"}


class Fn:
    """hash-by-identity wrapper so that function constants can live inside value tuples"""
    __slots__ = ("callee",)

    def __init__(self, fn):
        self.callee = Callee(fn)

    def __repr__(self):
        return "fn(%s)" % self.callee.rpath

    def __eq__(self, o):
        return isinstance(o, Fn) and o.callee.rid == self.callee.rid

    def __hash__(self):
        return hash(self.callee.rid)


class _PromBody:
    kind = "Prom"

    def __init__(self, owner, p):
        self.id = owner.id + "/prom"
        self.path = owner.path
        self.blocks = p["blocks"]
        self.locals = p["locals"]
        self.argc = 0
        self.d = {"proms": owner.d.get("proms")}
