"""Abstract interpreter over MIR: relational numeric domain (linear facts), symbolic
access-path memory, per-function summaries with lifted obligations.

Nothing is executed: every function is analysed once per summary from a symbolic entry
state; loops are closed by an inductive-invariant filter; calls are replaced by the
callee's summary (or, for higher-order calls, by analysing the closure in place)."""
import sys
from collections import defaultdict
from .lin import *
from .model import *

sys.setrecursionlimit(20000)

NOINT = (None, None)


def I(l):
    return ("I", l)


def IC(c):
    return ("I", (c, ()))


class Agg:
    """struct / tuple / enum value.  fields: {(variant, idx): value}; base: Sym it overlays"""
    __slots__ = ("ty", "f", "disc", "base", "_h")

    def __init__(self, ty, f, disc=None, base=None):
        self.ty = ty
        self.f = f
        self.disc = disc
        self.base = base
        self._h = None

    def with_(self, k, v):
        n = dict(self.f)
        n[k] = v
        return Agg(self.ty, n, self.disc, self.base)

    def __eq__(self, o):
        if self is o:
            return True
        return (isinstance(o, Agg) and self.disc == o.disc and self.base == o.base
                and self.f == o.f)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "Agg(%s,%s,disc=%s)" % (self.ty, self.f, self.disc)


class State:
    __slots__ = ("mem", "fs", "cond", "excl", "ne")

    def __init__(self):
        self.mem = {}
        self.fs = FactSet()
        self.cond = {}
        self.excl = {}
        self.ne = frozenset()

    def copy(self):
        n = State.__new__(State)
        n.mem = dict(self.mem)
        n.fs = self.fs.copy()
        n.cond = dict(self.cond)
        n.excl = dict(self.excl)
        n.ne = self.ne
        return n


class Obl:
    """an unproven obligation, lifted to callers"""
    __slots__ = ("site", "kind", "msg", "goal", "hyps", "chain", "atoms")

    def __init__(self, site, kind, msg, goal, hyps, chain):
        self.site = site
        self.kind = kind
        self.msg = msg
        self.goal = goal      # Lin that must be >= 0  (None: must be unreachable)
        self.hyps = hyps      # list of Lin
        self.chain = chain


class Summary:
    def __init__(self):
        self.exits = None      # State or None (never returns)
        self.ret = None
        self.obls = []
        self.args = []
        self.frame = None
        self.writes = {}       # root -> value at exit for ('o', argpath) roots
        self.ok = True


class Cell:
    def __init__(self, **k):
        self.__dict__.update(k)


LOOPV = "phi"


class Interp:
    def __init__(self, facts, models, invariants=None, opts=None):
        self.F = facts
        self.A = Atoms()
        self.P = Prover(self.A)
        self.models = models
        self.sums = {}
        self.active = []
        self.mute = 0
        self.obls = None            # current collector
        self.stats = defaultdict(int)
        self.sites = {}             # (path, blk, kind, sub) -> status
        self.liv = {}
        self.inv = invariants or {}
        self.opts = opts or {}
        self.tyname = {}
        self.live_cache = {}
        self.addr_cache = {}
        self.loop_info = {}         # (path, head) -> info for the progress rule
        self.events = defaultdict(list)  # rule-specific observations
        self.unknown_ext = defaultdict(int)
        self.cmp_log = None
        self.cur_chain = ()

    # ------------------------------------------------------------------ types
    def ty(self, i):
        if isinstance(i, int):
            return self.F.types[i]
        return i

    def int_range(self, t):
        t = self.ty(t)
        if t is None:
            return None
        k = t["k"]
        if k == "int":
            b = t["bits"]
            if t["sg"]:
                return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            return (0, (1 << b) - 1)
        if k == "bool":
            return (0, 1)
        if k == "char":
            return (0, 0x10FFFF)
        return None

    SEQ_ADTS = ("std::vec::Vec", "std::string::String", "bytes::Bytes", "bytes::BytesMut",
                "std::boxed::Box<[T]>")

    def is_seq_ty(self, t):
        t = self.ty(t)
        if t is None:
            return False
        if t["k"] in ("slice", "str"):
            return True
        if t["k"] == "adt" and t["p"] in self.SEQ_ADTS:
            return True
        return False

    def elem_ty(self, t):
        t = self.ty(t)
        if t["k"] in ("slice", "array"):
            return t["t"]
        if t["k"] == "adt" and t.get("a"):
            if t["p"] == "std::vec::Vec":
                return t["a"][0]
        return None

    def adt_disc(self, p, v):
        a = self.F.adts.get(p)
        if a is None or v >= len(a["vs"]):
            return None
        d = a["vs"][v]["d"]
        if d == "" or d is None:
            return None
        return int(d)

    # ------------------------------------------------------------------ symbolic values
    def sym(self, name, ty):
        """materialise an unknown value of type ty named name"""
        t = self.ty(ty)
        if t is None:
            return ("Y", name, ty)
        r = self.int_range(t)
        if r is not None:
            return I(atom_lin(self.A.get(name, r[0], r[1])))
        k = t["k"]
        if self.is_seq_ty(t):
            return ("S", self.seq_len(name), ty)
        if k in ("ref", "ptr"):
            p = self.ty(t["t"])
            if p and p["k"] in ("slice", "str"):
                return ("S", self.seq_len(name), t["t"])
            return ("R", ("o", name, t["t"]), ())
        if k == "adt" and t["p"] in ("std::boxed::Box", "std::pin::Pin", "std::sync::Arc", "std::rc::Rc"):
            return ("Y", name, ty)
        if k == "tuple" and not t["ts"]:
            return Agg(ty, {})
        if k == "closure":
            return ("C", t["id"], tuple(self.sym(name + (("up", i),), u) for i, u in enumerate(t["up"])))
        if k == "fndef":
            return ("F", Callee({"id": t["id"], "p": t["p"], "full": t["p"], "a": t.get("a")}))
        if k == "adt" and t["d"] == "struct":
            inv = self.inv.get(t["p"])
            if inv:
                for f in inv(self, ("Y", name, ty), t):
                    self.A.axiom(f)
        return ("Y", name, ty)

    def seq_len(self, name):
        return atom_lin(self.A.get(name + ("#len",), 0, ISZ))

    def fresh(self, site, ty):
        return self.sym(("x",) + site, ty)

    def fresh_int(self, site, lo, hi):
        return I(atom_lin(self.A.get(("x",) + site, lo, hi)))

    # projection of a value by one step key = (variant, idx) with type t
    def project(self, v, key, t):
        if isinstance(v, Agg):
            x = v.f.get(key)
            if x is not None:
                return x
            if v.base is not None:
                return self.sym(v.base[1] + (key,), t)
            return self.sym(("undef", key), t)
        tag = v[0]
        if tag == "Y":
            return self.sym(v[1] + (key,), t)
        if tag == "C":
            i = key[1]
            return v[2][i] if i < len(v[2]) else self.sym(("undef", key), t)
        if tag == "S":
            return self.sym(("seqint", key), t)
        if tag == "R":   # Box/Pin like wrappers around refs
            return v
        return self.sym(("undef2", key), t)

    def disc_of(self, v, ty):
        """discriminant of an enum value as Lin"""
        if isinstance(v, Agg):
            if v.disc is not None:
                return v.disc
            if v.base is not None:
                return self.disc_of(v.base, ty)
            return ZERO
        if v[0] == "Y":
            t = self.ty(v[2]) if v[2] is not None else self.ty(ty)
            lo, hi = 0, U64
            if t and t["k"] == "adt":
                a = self.F.adts.get(t["p"])
                if a and a["vs"]:
                    ds = [int(x["d"]) for x in a["vs"] if x["d"] not in ("", None)]
                    if ds:
                        lo, hi = min(ds), max(ds)
            return atom_lin(self.A.get(v[1] + ("#disc",), lo, hi))
        if v[0] == "I":
            return v[1]
        return atom_lin(self.A.get(("d", repr(v)[:80]), 0, U64))

    def base_as_agg(self, v, ty=None):
        if isinstance(v, Agg):
            return v
        if v[0] == "Y":
            t = self.ty(v[2]) if v[2] is not None else None
            d = None
            if t and t["k"] == "adt" and t["d"] == "enum":
                d = self.disc_of(v, v[2])
            return Agg(v[2], {}, d, v)
        return Agg(ty, {}, None, ("Y", ("undef3",), ty))

    # ------------------------------------------------------------------ memory
    def read_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "o":
                v = self.sym(root[1] + ("*",), root[2])
            else:
                v = ("Y", ("uninit", root), None)
        return v

    def read_loc(self, st, loc):
        if loc[0] == "val":
            return loc[1]
        _, root, path = loc
        v = self.read_root(st, root)
        for key, t in path:
            v = self.project(v, key, t)
        return v

    def write_loc(self, st, loc, val):
        if loc[0] == "val":
            return
        _, root, path = loc
        if not path:
            st.mem[root] = val
            return
        v = self.read_root(st, root)
        st.mem[root] = self._wr(v, path, val)

    def _wr(self, v, path, val):
        (key, t), rest = path[0], path[1:]
        if rest:
            inner = self.project(v, key, t)
            val = self._wr(inner, rest, val)
        if key == "[]":
            return v
        if not isinstance(v, Agg):
            if v[0] == "C":
                ups = list(v[2])
                if key[1] < len(ups):
                    ups[key[1]] = val
                return ("C", v[1], tuple(ups))
            if v[0] not in ("Y",):
                return v
        a = self.base_as_agg(v)
        return a.with_(key, val)

    def loc_of(self, st, fr, place):
        """resolve a MIR place to a location"""
        loc = ("loc", ("l", fr.fid, place[0]), ())
        variant = 0
        cur_t = fr.body.locals[place[0]]["ty"]
        for e in place[1:]:
            if e == "*":
                v = self.read_loc(st, loc)
                loc = self.deref(st, v, cur_t, (fr.fid, "deref"))
                t = self.ty(cur_t) if cur_t is not None else None
                cur_t = t["t"] if t and t["k"] in ("ref", "ptr") else None
                variant = 0
                continue
            if "v" in e:
                variant = e["v"]
                continue
            if "f" in e:
                key = ((variant, e["f"]), e["t"])
                variant = 0
                cur_t = e["t"]
                if loc[0] == "val":
                    loc = ("val", self.project(loc[1], key[0], key[1]))
                else:
                    loc = ("loc", loc[1], loc[2] + (key,))
                continue
            # index / constant index / subslice
            v = self.read_loc(st, loc)
            et = self.elem_ty(cur_t) if cur_t is not None else None
            if "ss" in e:
                a, b = e["ss"] if isinstance(e["ss"], list) else (e["ss"], 0)
                ln = self.len_of(v, cur_t)
                loc = ("val", ("S", addc(ln, -(a + b)) if ln and e.get("fe") else self.seq_len(("ss", fr.fid, repr(place))), cur_t))
                continue
            idx = None
            if "ci" in e and not e.get("fe"):
                idx = e["ci"]
            elif "i" in e:
                iv = self.read_loc(st, ("loc", ("l", fr.fid, e["i"]), ()))
                if iv[0] == "I" and not iv[1][1]:
                    idx = iv[1][0]
            if idx is not None and isinstance(v, Agg) and (0, idx) in v.f:
                loc = ("loc", loc[1], loc[2] + (((0, idx), et),)) if loc[0] == "loc" else ("val", v.f[(0, idx)])
            else:
                self.tick += 1
                loc = ("val", self.sym(("el", fr.fid, fr.cur, self.tick), et))
            cur_t = et
        return loc

    tick = 0

    def deref(self, st, v, ty, site):
        if isinstance(v, Agg):
            # Box modelled transparently, Pin<&mut T> wrapping a ref
            if (0, 0) in v.f:
                return self.deref(st, v.f[(0, 0)], None, site)
            if v.base is not None:
                t = self.ty(ty) if ty is not None else None
                pt = t["t"] if t and t["k"] in ("ref", "ptr") else (t["a"][0] if t and t["k"] == "adt" and t.get("a") else None)
                return ("loc", ("o", v.base[1], pt), ())
            return ("val", v)
        if v[0] == "R":
            return ("loc", v[1], v[2])
        if v[0] == "S":
            return ("val", v)
        if v[0] == "Y":
            t = self.ty(ty) if ty is not None else None
            pt = t["t"] if t and t["k"] in ("ref", "ptr") else (t["a"][0] if t and t["k"] == "adt" and t.get("a") else None)
            return ("loc", ("o", v[1], pt), ())
        return ("val", v)

    def len_of(self, v, ty=None):
        if isinstance(v, Agg):
            t = self.ty(v.ty) if v.ty is not None else None
            if t and t["k"] == "array" and t["n"] is not None:
                return (t["n"], ())
            return None
        if v[0] == "S":
            return v[1]
        if v[0] == "Y":
            t = self.ty(v[2]) if v[2] is not None else (self.ty(ty) if ty is not None else None)
            if t and t["k"] == "array" and t["n"] is not None:
                return (t["n"], ())
        return None

    def seq_len_of(self, st, v, site=None):
        """length of whatever sequence v is or refers to"""
        for _ in range(6):
            l = self.len_of(v)
            if l is not None:
                return l
            if isinstance(v, Agg):
                if (0, 0) in v.f:
                    v = v.f[(0, 0)]
                    continue
                break
            if v[0] == "R":
                v = self.read_loc(st, ("loc", v[1], v[2]))
                continue
            break
        if site is None:
            return None
        return self.seq_len(("ul",) + site)

    # ------------------------------------------------------------------ facts
    def assume(self, st, f):
        st.fs.add(f)
        return not st.fs.bad

    def assume_eq(self, st, lin, v):
        """lin == v ; activates conditional facts.  returns feasibility"""
        d = addc(lin, -v)
        st.fs.add(d)
        st.fs.add(scale(d, -1))
        if st.fs.bad:
            return False
        if len(lin[1]) == 1 and abs(lin[1][0][1]) == 1:
            a, k = lin[1][0]
            val = (v - lin[0]) * k
            return self.activate(st, a, val)
        if not lin[1]:
            return lin[0] == v
        return True

    def activate(self, st, a, val):
        lo, hi = self.A.lo[a], self.A.hi[a]
        if lo is not None and val < lo or hi is not None and val > hi:
            return False
        if val in st.excl.get(a, ()):
            return False
        for f in st.cond.get((a, val), ()):
            if f is False:
                return False
            if f[0] == "eqv":   # nested activation: atom f[1] == f[2]
                if not self.assume_eq(st, atom_lin(f[1]), f[2]):
                    return False
                continue
            if f[0] == "nev":
                if not self.assume_ne(st, atom_lin(f[1]), f[2]):
                    return False
                continue
            if f[0] == "neq":
                if not self.assume_neq0(st, f[1]):
                    return False
                continue
            st.fs.add(f)
        if st.fs.bad:
            return False
        return True

    def assume_neq0(self, st, lin):
        """lin != 0"""
        if not lin[1]:
            return lin[0] != 0
        if self.P.prove(lin, st.fs, 60, 3):
            st.fs.add(addc(lin, -1))
        elif self.P.prove(scale(lin, -1), st.fs, 60, 3):
            st.fs.add(addc(scale(lin, -1), -1))
        else:
            st.ne = st.ne | {lin}
        return not st.fs.bad

    def assume_ne(self, st, lin, v):
        if not lin[1]:
            return lin[0] != v
        if len(lin[1]) == 1 and abs(lin[1][0][1]) == 1:
            a, k = lin[1][0]
            val = (v - lin[0]) * k
            lo = self.P.lower_atom(a, st.fs)
            hi = self.P.upper_atom(a, st.fs)
            if lo is not None and lo == hi and lo == val:
                return False
            ex = st.excl.get(a, frozenset()) | {val}
            st.excl[a] = ex
            while lo is not None and lo in ex:
                lo += 1
                st.fs.add((-lo, ((a, 1),)))
                if hi is not None and lo > hi:
                    return False
            while hi is not None and hi in ex:
                hi -= 1
                st.fs.add((hi, ((a, -1),)))
                if lo is not None and lo > hi:
                    return False
            if lo is not None and lo == hi:
                return self.activate(st, a, lo)
            return True
        return self.assume_neq0(st, addc(lin, -v))

    def infeasible(self, st):
        if st.fs.bad:
            return True
        return False

    def prove(self, st, g, budget=400):
        if not g[1]:
            return g[0] >= 0
        if self.P.prove(g, st.fs, budget):
            return True
        return False

    def prove_dead(self, st):
        """try to show the state contradictory"""
        if st.fs.bad:
            return True
        for c, co in st.fs.items():
            if len(co) >= 1 and self.P.prove((-c - 1, tuple((a, -k) for a, k in co)), st.fs, 60, 4):
                return True
        for l in st.ne:
            if self.P.prove(l, st.fs, 60, 4) and self.P.prove(scale(l, -1), st.fs, 60, 4):
                return True
        return False

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, fr, kind, goal, msg="", sub=""):
        """goal: Lin >= 0 or None (must be unreachable)"""
        if self.mute:
            return
        site = (fr.body.path, fr.cur, kind, sub)
        self.stats["obl"] += 1
        rec = self.sites.setdefault(site, [0, 0])
        rec[0] += 1
        if goal is not None and self.prove(st, goal):
            rec[1] += 1
            return
        if goal is None and self.prove_dead(st):
            rec[1] += 1
            return
        # case split over joined enum/bool atoms that guard facts relevant to the goal
        if self.split_prove(st, goal, 3):
            rec[1] += 1
            return
        hyps = self.relevant(st, goal)
        line = self.line_of(fr)
        self.obls.append(Obl(site, kind, "%s:%s %s" % (fr.body.file, line, msg), goal, hyps, (fr.body.path,)))

    def split_prove(self, st, goal, depth):
        if depth == 0:
            return False
        atoms = set(a for a, _ in goal[1]) if goal else set()
        # grow by one hop over facts
        rel = set(atoms)
        for c, co in st.fs.items():
            if any(a in atoms for a, _ in co):
                rel.update(a for a, _ in co)
        groups = defaultdict(dict)
        for (a, v), fl in st.cond.items():
            groups[a][v] = fl
        tried = 0
        for a, vs in groups.items():
            lo, hi = self.P.lower_atom(a, st.fs), self.P.upper_atom(a, st.fs)
            if lo is None or hi is None or hi - lo > 8 or lo == hi:
                continue
            touches = goal is None
            for fl in vs.values():
                for f in fl:
                    if f and f[0] not in ("eqv", "nev", "neq") and any(x in rel for x, _ in f[1]):
                        touches = True
            if not touches:
                continue
            tried += 1
            if tried > 6:
                break
            ok = True
            useful = False
            for v in range(lo, hi + 1):
                if v in st.excl.get(a, ()):
                    continue
                s2 = st.copy()
                if not self.assume_eq(s2, atom_lin(a), v):
                    continue
                if goal is not None and self.prove(s2, goal, 200):
                    useful = True
                    continue
                if goal is None and self.prove_dead(s2):
                    useful = True
                    continue
                if depth > 1 and self.split_prove(s2, goal, depth - 1):
                    continue
                ok = False
                break
            if ok:
                return True
        return False

    def relevant(self, st, goal, limit=60):
        if goal is None:
            out = [x for x in st.fs.items()]
            return out[:200]
        atoms = set(a for a, _ in goal[1])
        out = []
        items = st.fs.items()
        used = set()
        for _ in range(3):
            new = set()
            for x in items:
                if x in used:
                    continue
                if any(a in atoms for a, _ in x[1]):
                    used.add(x)
                    out.append(x)
                    new.update(a for a, _ in x[1])
            atoms |= new
            if len(out) > limit:
                break
        return out

    def line_of(self, fr):
        try:
            return fr.body.blocks[fr.cur]["t"].get("l") or fr.body.line
        except Exception:
            return fr.body.line

    # ------------------------------------------------------------------ join
    def val_atoms(self, v, out, st=None, seen=None, depth=0):
        if depth > 12:
            return
        if isinstance(v, Agg):
            if v.disc is not None:
                out.update(a for a, _ in v.disc[1])
            for x in v.f.values():
                self.val_atoms(x, out, st, seen, depth + 1)
            if v.base is not None:
                out.add(("pre", v.base[1]))
            return
        t = v[0]
        if t == "I":
            out.update(a for a, _ in v[1][1])
        elif t == "S":
            out.update(a for a, _ in v[1][1])
        elif t == "C":
            for x in v[2]:
                self.val_atoms(x, out, st, seen, depth + 1)
        elif t == "Y":
            out.add(("pre", v[1]))
        elif t == "R":
            if st is not None and seen is not None and v[1] not in seen:
                seen.add(v[1])
                if v[1] in st.mem:
                    self.val_atoms(st.mem[v[1]], out, st, seen, depth + 1)
                elif v[1][0] == "o":
                    out.add(("pre", v[1][1]))
        elif t in ("N", "IT"):
            for x in v[2:]:
                if isinstance(x, (tuple, Agg)) and x and (isinstance(x, Agg) or isinstance(x[0], str)):
                    self.val_atoms(x, out, st, seen, depth + 1)
                elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                    out.update(a for a, _ in x[1])

    def roots_atoms(self, st, roots):
        out = set()
        seen = set()
        for r in roots:
            v = st.mem.get(r)
            if v is not None:
                self.val_atoms(v, out, st, seen)
        pres = set(x[1] for x in out if isinstance(x, tuple) and x[0] == "pre")
        atoms = set(x for x in out if not isinstance(x, tuple))
        return atoms, pres

    def relevant_atoms(self, st, roots):
        """atoms reachable from live values (including atoms of symbolic values by name prefix)"""
        atoms, pres = self.roots_atoms(st, roots)
        names = self.A.names
        cand = set()
        for co in st.fs.f:
            for a, _ in co:
                cand.add(a)
        for (a, v) in st.cond:
            cand.add(a)
        for a in cand:
            if a in atoms:
                continue
            n = names[a]
            if n and n[0] == "arg":
                atoms.add(a)
                continue
            for i in range(len(n), 0, -1):
                if n[:i] in pres:
                    atoms.add(a)
                    break
        return atoms

    def join_val(self, v1, v2, name, cx, ty=None):
        if v1 is v2 or v1 == v2:
            return v1
        a1, a2 = isinstance(v1, Agg), isinstance(v2, Agg)
        if not a1 and not a2:
            if v1[0] == "I" and v2[0] == "I":
                if v1[1] == v2[1]:
                    return v1
                return I(atom_lin(self.phi(name, v1[1], v2[1], cx)))
            if v1[0] == "S" and v2[0] == "S":
                return ("S", atom_lin(self.phi(name + ("#len",), v1[1], v2[1], cx, seq=True)), v1[2])
            if v1[0] == "C" and v2[0] == "C" and v1[1] == v2[1]:
                return ("C", v1[1], tuple(self.join_val(x, y, name + (("up", i),), cx) for i, (x, y) in enumerate(zip(v1[2], v2[2]))))
            if v1[0] == "Y" and v1[1][:1] == ("uninit",):
                return v2
            if v2[0] == "Y" and v2[1][:1] == ("uninit",):
                return v1
            if v1[0] == "Y" and v2[0] == "Y":
                # two opaque enums: keep discriminant correlation
                t = self.ty(v1[2]) if v1[2] is not None else None
                if t and t["k"] == "adt" and t["d"] == "enum":
                    return self.join_agg(self.base_as_agg(v1), self.base_as_agg(v2), name, cx)
            t1 = self.val_ty(v1)
            if t1 is None:
                t1 = self.val_ty(v2)
            return self.sym(name, t1)
        if a1 and not a2 and v2[0] == "Y":
            if v2[1][:1] == ("uninit",):
                return v1
            return self.join_agg(v1, self.base_as_agg(v2), name, cx)
        if a2 and not a1 and v1[0] == "Y":
            if v1[1][:1] == ("uninit",):
                return v2
            return self.join_agg(self.base_as_agg(v1), v2, name, cx)
        if a1 and a2:
            return self.join_agg(v1, v2, name, cx)
        t = self.val_ty(v1)
        return self.sym(name, t if t is not None else self.val_ty(v2))

    def val_ty(self, v):
        if isinstance(v, Agg):
            return v.ty
        if v[0] in ("Y", "S"):
            return v[2]
        return None

    def join_agg(self, x, y, name, cx):
        if x.disc is not None or y.disc is not None:
            dx = x.disc if x.disc is not None else ZERO
            dy = y.disc if y.disc is not None else ZERO
            if dx == dy:
                d = dx
            else:
                d = atom_lin(self.phi(name + ("#disc",), dx, dy, cx, disc=True, ty=x.ty if x.ty is not None else y.ty))
        else:
            dx = dy = d = None
        f = {}
        keys = set(x.f) | set(y.f)
        for k in keys:
            kx, ky = x.f.get(k), y.f.get(k)
            if kx is None or ky is None:
                # present on one side only: other side's variant cannot be k, or symbolic base
                ox, oy = (x, y)
                if kx is None:
                    have, other, dd = ky, x, dx
                else:
                    have, other, dd = kx, y, dy
                inf = dd is not None and not dd[1] and self.variant_disc(x.ty if x.ty is not None else y.ty, k[0]) not in (None, dd[0])
                if inf or other.base is None:
                    f[k] = have
                else:
                    t = self.val_ty(have)
                    if t is None:
                        if have[0] == "I":
                            # need an int type: reuse atom range
                            o = I(atom_lin(self.A.get(other.base[1] + (k,), *self.range_of(have[1]))))
                        elif have[0] == "R":
                            o = None
                        else:
                            o = None
                    else:
                        o = self.sym(other.base[1] + (k,), t)
                    if o is None:
                        continue
                    f[k] = self.join_val(have, o, name + (k,), cx) if have is kx else self.join_val(o, have, name + (k,), cx)
                continue
            # both present
            vd = self.variant_disc(x.ty if x.ty is not None else y.ty, k[0])
            if dx is not None and not dx[1] and vd is not None and vd != dx[0]:
                f[k] = ky
            elif dy is not None and not dy[1] and vd is not None and vd != dy[0]:
                f[k] = kx
            else:
                f[k] = self.join_val(kx, ky, name + (k,), cx)
        base = None
        if x.base is not None or y.base is not None:
            if x.base == y.base:
                base = x.base
            elif x.base is not None and y.base is None and dy is not None and not dy[1]:
                # y is a concrete variant: unknown payloads belong to x
                base = x.base
            elif y.base is not None and x.base is None and dx is not None and not dx[1]:
                base = y.base
            else:
                base = ("Y", name, x.ty if x.ty is not None else y.ty)
        return Agg(x.ty if x.ty is not None else y.ty, f, d, base)

    def range_of(self, l):
        if len(l[1]) == 1:
            a = l[1][0][0]
            return self.A.lo[a], self.A.hi[a]
        return None, None

    def variant_disc(self, ty, v):
        t = self.ty(ty) if ty is not None else None
        if t and t["k"] == "adt":
            d = self.adt_disc(t["p"], v)
            return d
        if isinstance(ty, str):
            return self.adt_disc(ty, v)
        return None

    def phi(self, name, l1, l2, cx, seq=False, disc=False, ty=None):
        key = ("phi",) + name
        lo1, lo2 = self.lin_lo(l1), self.lin_lo(l2)
        hi1, hi2 = self.lin_hi(l1), self.lin_hi(l2)
        lo = None if lo1 is None or lo2 is None else min(lo1, lo2)
        hi = None if hi1 is None or hi2 is None else max(hi1, hi2)
        if seq:
            lo, hi = 0, ISZ
        # atom ids are interned by name; widen stored range if the atom is reused
        a = self.A.get(key, lo, hi)
        if self.A.lo[a] is not None and (lo is None or lo < self.A.lo[a]):
            self.A.lo[a] = lo
        if self.A.hi[a] is not None and (hi is None or hi > self.A.hi[a]):
            self.A.hi[a] = hi
        cx.phis[a] = (l1, l2)
        if disc:
            cx.discs.add(a)
        return a

    def lin_lo(self, l):
        t = l[0]
        for a, k in l[1]:
            b = self.A.lo[a] if k > 0 else self.A.hi[a]
            if b is None:
                return None
            t += k * b
        return t

    def lin_hi(self, l):
        t = l[0]
        for a, k in l[1]:
            b = self.A.hi[a] if k > 0 else self.A.lo[a]
            if b is None:
                return None
            t += k * b
        return t

    def cond_facts(self, st, lin, v):
        """facts that hold in st if lin == v; None if infeasible"""
        if not lin[1]:
            return [] if lin[0] == v else None
        if len(lin[1]) == 1 and abs(lin[1][0][1]) == 1:
            a, k = lin[1][0]
            val = (v - lin[0]) * k
            lo, hi = self.P.lower_atom(a, st.fs), self.P.upper_atom(a, st.fs)
            if (lo is not None and val < lo) or (hi is not None and val > hi):
                return None
            if val in st.excl.get(a, ()):
                return None
            out = [f for f in st.cond.get((a, val), ())]
            if False in out:
                return None
            out.append(("eqv", a, val))
            return out
        return []

    def join(self, s1, s2, name, live):
        """join two states at a program point; live: set of roots of the frame that matter"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        self.stats["joins"] += 1
        cx = Cell(phis={}, discs=set())
        st = State()
        for r in s1.mem:
            if live is not None and r[0] == "l" and r not in live and r[1] == live.fid:
                continue
            if r in s2.mem:
                st.mem[r] = self.join_val(s1.mem[r], s2.mem[r], name + (r,), cx)
            elif r[0] == "o":
                d = self.read_root(s2, r)
                st.mem[r] = self.join_val(s1.mem[r], d, name + (r,), cx)
        for r in s2.mem:
            if r in s1.mem or r[0] != "o":
                continue
            d = self.read_root(s1, r)
            st.mem[r] = self.join_val(d, s2.mem[r], name + (r,), cx)
        self.join_facts(st, s1, s2, cx, live)
        return st

    def join_facts(self, st, s1, s2, cx, live):
        A1, A2 = s1, s2
        f1, f2 = s1.fs, s2.fs
        if cx.phis:
            f1, f2 = f1.copy(), f2.copy()
            for p, (l1, l2) in cx.phis.items():
                for fs, l in ((f1, l1), (f2, l2)):
                    d = sub(atom_lin(p), l)
                    fs.add(d)
                    fs.add(scale(d, -1))
        rel = self.relevant_atoms(st, list(st.mem.keys())) | set(cx.phis)
        st.excl = {a: s1.excl[a] & s2.excl[a] for a in s1.excl if a in s2.excl and a in rel and (s1.excl[a] & s2.excl[a])}
        st.ne = frozenset(l for l in s1.ne & s2.ne)
        cands = []
        seen = set()

        def cand(x):
            if x[1] and x not in seen:
                seen.add(x)
                cands.append(x)

        for (fa, fb, i) in ((f1, f2, 0), (f2, f1, 1)):
            inv = {}
            for p, ls in cx.phis.items():
                l = ls[i]
                if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                    a, k = l[1][0]
                    # a*k + c = p  -> a = k*(p - c)
                    inv.setdefault(a, []).append((p, scale(addc(atom_lin(p), -l[0]), k)))
            for x in fa.items():
                ok = all(a in rel for a, _ in x[1])
                if ok:
                    cand(x)
                if inv:
                    hit = [a for a, _ in x[1] if a in inv]
                    for a in hit[:2]:
                        for p, l in inv[a][:4]:
                            y = subst(x, {a: l})
                            if all(b in rel for b, _ in y[1]):
                                cand(y)
                    if len(hit) == 2 and len(inv[hit[0]]) < 3 and len(inv[hit[1]]) < 3:
                        for p, l in inv[hit[0]]:
                            for q, l2 in inv[hit[1]]:
                                y = subst(x, {hit[0]: l, hit[1]: l2})
                                if all(b in rel for b, _ in y[1]):
                                    cand(y)
        for p, (l1, l2) in cx.phis.items():
            pl = atom_lin(p)
            for l in (l1, l2):
                if all(a in rel for a, _ in l[1]):
                    cand(sub(pl, l))
                    cand(sub(l, pl))
            if p not in cx.discs:
                for (fs, l) in ((f1, l1), (f2, l2)):
                    b = self.P.lower(l, fs)
                    if b is not None:
                        cand((-b, ((p, 1),)))
                    b = self.P.lower(scale(l, -1), fs)
                    if b is not None:
                        cand((-b, ((p, -1),)))
        out = st.fs
        only1, only2 = [], []
        for x in cands:
            h1 = f1.has(x)
            h2 = f2.has(x)
            if h1 and h2:
                out.add(x)
                continue
            if not h1:
                h1 = self.P.prove(x, f1, 80, 4)
            if not h2:
                h2 = self.P.prove(x, f2, 80, 4)
            if h1 and h2:
                out.add(x)
            elif h1:
                only1.append(x)
            elif h2:
                only2.append(x)
        # conditional facts
        for k in set(s1.cond) | set(s2.cond):
            c1, c2 = s1.cond.get(k), s2.cond.get(k)
            if c1 is not None and c2 is not None:
                if c1 == c2:
                    st.cond[k] = c1
                else:
                    c = tuple(x for x in c1 if x in c2)
                    if c:
                        st.cond[k] = c
            else:
                a = k[0]
                # atom known to one side only
                other = s2 if c1 is not None else s1
                if not self.atom_in(other, a):
                    st.cond[k] = c1 if c1 is not None else c2
        smalls = []
        for p, (l1, l2) in cx.phis.items():
            lo, hi = self.A.lo[p], self.A.hi[p]
            if lo is None or hi is None or hi - lo > 64:
                continue
            vals = set()
            for l in (l1, l2):
                if not l[1]:
                    vals.add(l[0])
                elif len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                    b, k = l[1][0]
                    lo2, hi2 = self.A.lo[b], self.A.hi[b]
                    if lo2 is None or hi2 is None or hi2 - lo2 > 64:
                        vals = None
                        break
                    vals.update(l[0] + k * z for z in range(lo2, hi2 + 1))
                else:
                    vals = None
                    break
            if vals is None or len(vals) > 12:
                continue
            for v in vals:
                e1 = self.cond_facts(s1, l1, v)
                e2 = self.cond_facts(s2, l2, v)
                if e1 is None and e2 is None:
                    st.cond[(p, v)] = (False,)
                    continue
                if e1 is None:
                    st.cond[(p, v)] = tuple(only2 + e2) + tuple(("eqv",) + q for q in self.other_disc(cx, p, 1, s2))
                elif e2 is None:
                    st.cond[(p, v)] = tuple(only1 + e1) + tuple(("eqv",) + q for q in self.other_disc(cx, p, 0, s1))
                else:
                    # both feasible: facts entailed by both
                    g1 = f1.copy()
                    for f in e1:
                        if f[0] not in ("eqv", "nev", "neq"):
                            g1.add(f)
                    g2 = f2.copy()
                    for f in e2:
                        if f[0] not in ("eqv", "nev", "neq"):
                            g2.add(f)
                    cc = []
                    lst = [x for x in only1 + only2]
                    lst += [f for f in e1 + e2 if f[0] not in ("eqv", "nev", "neq")]
                    n = 0
                    done = set()
                    # rewrite candidate facts through phis as well
                    for x in lst:
                        for y in self.rewrites(x, cx, rel):
                            if y in done or not y[1]:
                                continue
                            done.add(y)
                            n += 1
                            if n > 60:
                                break
                            if self.P.prove(y, g1, 60, 4) and self.P.prove(y, g2, 60, 4):
                                cc.append(y)
                    if cc:
                        st.cond[(p, v)] = tuple(cc)

    def rewrites(self, x, cx, rel):
        if all(a in rel for a, _ in x[1]):
            yield x
        for i in (0, 1):
            m = {}
            for p, ls in cx.phis.items():
                l = ls[i]
                if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                    a, k = l[1][0]
                    m[a] = scale(addc(atom_lin(p), -l[0]), k)
            y = subst(x, m)
            if y != x and all(a in rel for a, _ in y[1]):
                yield y

    def other_disc(self, cx, p, i, st):
        """other small phis are pinned too when this side is the only feasible one"""
        out = []
        for q, ls in cx.phis.items():
            if q == p:
                continue
            l = ls[i]
            if not l[1] and self.A.hi[q] is not None and self.A.lo[q] is not None and self.A.hi[q] - self.A.lo[q] <= 64:
                if q > p:   # avoid mutual recursion: only forward
                    out.append((q, l[0]))
        return out

    def atom_in(self, st, a):
        for co in st.fs.f:
            for x, _ in co:
                if x == a:
                    return True
        for (x, _) in st.cond:
            if x == a:
                return True
        return False

    # ------------------------------------------------------------------ bodies
    def liveness(self, body):
        if body.id in self.live_cache:
            return self.live_cache[body.id]
        n = len(body.blocks)
        use = [set() for _ in range(n)]
        df = [set() for _ in range(n)]
        addr = set()

        def u(b, place, isdef=False):
            if place is None:
                return
            l = place[0]
            if isdef and len(place) == 1:
                df[b].add(l)
            else:
                if l not in df[b]:
                    use[b].add(l)
            for e in place[1:]:
                if isinstance(e, dict) and "i" in e:
                    if e["i"] not in df[b]:
                        use[b].add(e["i"])

        reach = body.reachable()
        for b in reach:
            for s in body.blocks[b]["s"]:
                if s["s"] == "=":
                    r = s["r"]
                    for o in rv_operands(r):
                        u(b, op_place(o))
                    if "p" in r and isinstance(r["p"], list):
                        u(b, r["p"])
                        if r["r"] in ("ref", "rawptr") and "*" not in r["p"]:
                            addr.add(r["p"][0])
                    u(b, s["p"], True)
                elif "p" in s:
                    u(b, s["p"])
            t = body.blocks[b]["t"]
            k = t["t"]
            if k == "switch":
                u(b, op_place(t["d"]))
            elif k == "call":
                u(b, op_place(t["f"]))
                for a in t["a"]:
                    u(b, op_place(a))
                u(b, t["d"], True)
            elif k == "assert":
                u(b, op_place(t["c"]))
                for o in t.get("ops") or []:
                    u(b, op_place(o))
            elif k == "drop":
                pass
            elif k == "yield":
                u(b, op_place(t.get("o")))
            elif k == "return":
                if 0 not in df[b]:
                    use[b].add(0)
        lin = [set() for _ in range(n)]
        ch = True
        order = body.rpo()[::-1]
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in body.succ(b):
                    o |= lin[s]
                x = use[b] | (o - df[b])
                if x != lin[b]:
                    lin[b] = x
                    ch = True
        res = (lin, addr)
        self.live_cache[body.id] = res
        return res

    class Live(set):
        fid = None

    def live_roots(self, fr, b):
        lin, addr = self.liveness(fr.body)
        s = Interp.Live(("l", fr.fid, l) for l in (lin[b] | addr))
        if fr.body.kind == "Closure":
            s.add(("l", fr.fid, 1))
        s.fid = fr.fid
        return s

    def loop_forest(self, body):
        if body.id in self.liv:
            return self.liv[body.id]
        loops = body.loops()
        order = body.rpo()
        idx = {b: i for i, b in enumerate(order)}
        self.liv[body.id] = (loops, order, idx)
        return self.liv[body.id]

    def exec_body(self, body, st, args, fid):
        """analyse body in state st with actual args; returns (state, ret) or (None, None)"""
        self.stats["bodies"] += 1
        fr = Cell(body=body, fid=fid, cur=0)
        if body.d.get("intrait") is not None or True:
            for i, a in enumerate(args):
                st.mem[("l", fid, i + 1)] = a
        loops, order, idx = self.loop_forest(body)
        ins = defaultdict(list)
        ins[0].append((None, st))
        rets = []
        self.run_region(fr, set(order), ins, rets, loops, order, None)
        if not rets:
            return None, None
        out = None
        for i, s in enumerate(rets):
            # keep only _0 of this frame (plus caller state)
            for r in [r for r in s.mem if r[0] == "l" and r[1] == fid and r[2] != 0]:
                # locals may be referenced only by dead refs
                del s.mem[r]
            live = Interp.Live([("l", fid, 0)])
            live.fid = fid
            out = s if out is None else self.join(out, s, ("ret", fid, body.id), live)
        ret = out.mem.pop(("l", fid, 0), ("Y", ("unit", fid), None))
        return out, ret

    def run_region(self, fr, region, ins, rets, loops, order, head):
        """process blocks of region in rpo; head: loop head being re-entered (its back edges are collected)"""
        backs = []
        outs = defaultdict(list)
        skip = set()
        for b in order:
            if b not in region or b in skip:
                continue
            inc = ins.pop(b, None)
            if not inc:
                continue
            if b in loops and b != head:
                lp = loops[b]
                skip |= lp
                st = self.merge(fr, b, inc)
                res = self.do_loop(fr, b, lp, st, rets, loops, order)
                for (src, tgt, s) in res:
                    if tgt == head:
                        backs.append(s)
                    elif tgt in region:
                        ins[tgt].append((src, s))
                    else:
                        outs[tgt].append((src, s))
                continue
            st = self.merge(fr, b, inc)
            for (tgt, s) in self.exec_block(fr, b, st, rets):
                if tgt == head:
                    backs.append(s)
                elif tgt in region:
                    ins[tgt].append((b, s))
                else:
                    outs[tgt].append((b, s))
        return backs, outs

    def merge(self, fr, b, inc):
        live = self.live_roots(fr, b)
        st = inc[0][1]
        if len(inc) == 1:
            lr = [r for r in st.mem if r[0] == "l" and r[1] == fr.fid and r not in live]
            for r in lr:
                del st.mem[r]
            return st
        for i in range(1, len(inc)):
            st = self.join(st, inc[i][1], ("j", fr.fid, b, i), live)
        return st

    # ------------------------------------------------------------------ loops
    def do_loop(self, fr, head, lp, st0, rets, loops, order):
        """returns list of (src, tgt, state) leaving the loop"""
        self.stats["loops"] += 1
        live = self.live_roots(fr, head)
        for r in [r for r in st0.mem if r[0] == "l" and r[1] == fr.fid and r not in live]:
            del st0.mem[r]
        diff = {}     # leaf path (root, path) -> kind
        extra = set()
        dropped = set()
        cands = None
        H = None
        self.mute += 1
        conds_c = {}
        bad = set()
        deltas_done = False
        for it in range(24):
            H, phis = self.loop_head_state(fr, head, st0, diff)
            allc = self.loop_candidates(st0, H, phis, extra)
            cur = [x for x in allc if x not in dropped]
            for x in cur:
                H.fs.add(x)
            log = self.cmp_log
            self.cmp_log = []
            r2 = []
            ins = defaultdict(list)
            ins[head].append((None, H.copy()))
            backs, outs = self.run_region(fr, lp, ins, r2, loops, order, head)
            mylog = self.cmp_log
            self.cmp_log = log
            if log is not None:
                log.extend(mylog)
            changed = False
            for B in backs:
                if self.find_diffs(fr, H, B, diff, live):
                    changed = True
            if changed:
                continue
            # comparisons seen in the loop supply bound candidates
            outer = set()
            for co in st0.fs.f:
                outer.update(a for a, _ in co)
            a0, p0 = self.roots_atoms(st0, list(st0.mem))
            outer |= a0
            hatoms, _ = self.roots_atoms(H, list(H.mem))
            outer |= hatoms
            ph = set(phis)
            newx = set()
            for (l, r) in mylog:
                d = sub(r, l)
                if d[1] and all(a in outer or a in ph for a, _ in d[1]) and any(a in ph for a, _ in d[1]):
                    for x in (d, scale(d, -1)):
                        if x not in extra and x not in dropped:
                            newx.add(x)
            if not deltas_done:
                deltas_done = True
                ds = {}
                for p, info in phis.items():
                    vals = set()
                    for B in backs:
                        bl = self.leaf_lin(B, info)
                        if bl is None:
                            vals.add(None)
                            continue
                        d = sub(bl, atom_lin(p))
                        vals.add(d[0] if not d[1] else None)
                    if len(vals) == 1:
                        v = vals.pop()
                        if v is not None and v != 0:
                            ds[p] = v
                pl = list(ds)
                for i in range(len(pl)):
                    for j in range(i + 1, len(pl)):
                        p, q = pl[i], pl[j]
                        dp, dq = ds[p], ds[q]
                        e = sub(scale(sub(atom_lin(p), phis[p]["entry"]), dq), scale(sub(atom_lin(q), phis[q]["entry"]), dp))
                        for x in (e, scale(e, -1)):
                            if x not in extra and x not in dropped:
                                newx.add(x)
            if newx:
                ok = set()
                for x in newx:
                    # must hold on entry
                    y = subst(x, {p: phis[p]["entry"] for p in phis})
                    if self.P.prove(y, st0.fs, 150):
                        ok.add(x)
                    else:
                        dropped.add(x)
                if ok:
                    extra |= ok
                    continue
            drop = []
            for B in backs:
                m = {}
                for p, info in phis.items():
                    bl = self.leaf_lin(B, info)
                    m[p] = bl
                for x in cur:
                    if x in drop:
                        continue
                    ok = all(m.get(a, True) is not None for a, _ in x[1])
                    if ok:
                        y = subst(x, {a: m[a] for a, _ in x[1] if a in m})
                        ok = y == x or self.P.prove(y, B.fs, 300)
                        if not ok:
                            ok = self.split_prove(B, y, 2)
                    if not ok:
                        drop.append(x)
            if not drop:
                break
            dropped.update(drop)
        else:
            # did not stabilise: drop every candidate
            H, phis = self.loop_head_state(fr, head, st0, diff)
        self.mute -= 1
        # final run
        ins = defaultdict(list)
        ins[head].append((None, H.copy()))
        backs, outs = self.run_region(fr, lp, ins, rets, loops, order, head)
        if not self.mute:
            self.progress(fr, head, lp, H, phis, backs)
        res = []
        for tgt, l in outs.items():
            for src, s in l:
                res.append((src, tgt, s))
        return res

    def progress(self, fr, head, lp, H, phis, backs):
        """record whether some measure strictly progresses on every back edge"""
        key = (fr.body.path, head)
        best = None
        for p, info in phis.items():
            up = down = True
            for B in backs:
                bl = self.leaf_lin(B, info)
                if bl is None:
                    up = down = False
                    break
                d = sub(bl, atom_lin(p))
                if up and not self.prove(B, addc(d, -1)):
                    up = False
                if down and not self.prove(B, addc(scale(d, -1), -1)):
                    down = False
                if not (up or down):
                    break
            if down and self.A.lo[p] is not None:
                best = ("decreases", repr(info["leaf"]))
                break
            if up:
                best = ("increases", repr(info["leaf"]))
        self.loop_info.setdefault(key, []).append((best, len(backs), fr.fid))

    def leaf_lin(self, st, info):
        root, path, kind = info["leaf"]
        v = st.mem.get(root)
        if v is None:
            v = self.read_root(st, root)
        for k in path:
            if isinstance(v, Agg):
                x = v.f.get(k)
                if x is None:
                    if v.base is not None:
                        # symbolic: reconstruct by name only for ints of known atom
                        nm = v.base[1] + (k,)
                        if kind == "int" and nm in self.A.ids:
                            return atom_lin(self.A.ids[nm])
                        if kind == "len" and nm + ("#len",) in self.A.ids:
                            return atom_lin(self.A.ids[nm + ("#len",)])
                    return None
                v = x
            elif v[0] == "Y":
                v = ("Y", v[1] + (k,), None)
            elif v[0] == "C":
                if isinstance(k, tuple) and k[0] == "up" and k[1] < len(v[2]):
                    v = v[2][k[1]]
                else:
                    return None
            else:
                return None
        if kind == "int":
            if not isinstance(v, Agg) and v[0] == "I":
                return v[1]
            if not isinstance(v, Agg) and v[0] == "Y" and v[1] in self.A.ids:
                return atom_lin(self.A.ids[v[1]])
            return None
        if kind == "len":
            if not isinstance(v, Agg) and v[0] == "S":
                return v[1]
            return None
        if kind == "disc":
            if isinstance(v, Agg) and v.disc is not None:
                return v.disc
            if not isinstance(v, Agg) and v[0] == "Y":
                return self.disc_of(v, None) if v[2] is not None else None
            return None
        return None

    def find_diffs(self, fr, H, B, diff, live):
        ch = False
        for r, v in H.mem.items():
            if r[0] == "l" and r[1] == fr.fid and r not in live:
                continue
            w = B.mem.get(r)
            if w is None:
                if r[0] == "l":
                    continue
                w = self.read_root(B, r)
            if self.diff_val(r, (), v, w, diff):
                ch = True
        for r, w in B.mem.items():
            if r in H.mem or r[0] != "o":
                continue
            # object first written inside the loop
            v = self.read_root(H, r)
            if self.obj_outer(r) and self.diff_val(r, (), v, w, diff):
                ch = True
        return ch

    def obj_outer(self, r):
        return True

    def diff_val(self, root, path, v, w, diff):
        if v is w or v == w:
            return False
        a1, a2 = isinstance(v, Agg), isinstance(w, Agg)
        key = (root, path)
        if diff.get(key) == "top":
            return False
        if a1 and a2:
            ch = False
            if v.disc != w.disc:
                if diff.get((root, path + ("#d",))) is None:
                    diff[(root, path + ("#d",))] = "disc"
                    ch = True
            if v.base != w.base:
                if diff.get((root, path + ("#b",))) is None:
                    diff[(root, path + ("#b",))] = "base"
                    ch = True
            for k in set(v.f) | set(w.f):
                x, y = v.f.get(k), w.f.get(k)
                if x is None or y is None:
                    if y is None and w.base is None:
                        continue   # payload of another variant
                    if x is None and v.base is None and v.disc is not None:
                        # new variant payload appears: generalise whole value
                        if diff.get((root, path + (k,))) is None:
                            diff[(root, path + (k,))] = "new"
                            ch = True
                        continue
                    if x is None and v.base is None:
                        continue
                    t = self.val_ty(x if x is not None else y)
                    if x is None:
                        x = self.proj_like(v, k, y)
                    else:
                        y = self.proj_like(w, k, x)
                if self.diff_val(root, path + (k,), x, y, diff):
                    ch = True
            return ch
        if a1 and not a2 and w[0] == "Y" or a2 and not a1 and v[0] == "Y":
            return self.diff_val(root, path, self.base_as_agg(v), self.base_as_agg(w), diff)
        if not a1 and not a2:
            if v[0] == "Y" and v[1][:1] == ("uninit",):
                if diff.get(key) is None:
                    diff[key] = "new"
                    return True
                return False
            if w[0] == "Y" and w[1][:1] == ("uninit",):
                return False
            if v[0] == "I" and w[0] == "I":
                if diff.get(key) is None:
                    diff[key] = "int"
                    return True
                return False
            if v[0] == "S" and w[0] == "S":
                if diff.get(key) is None:
                    diff[key] = "len"
                    return True
                return False
            if v[0] == "C" and w[0] == "C" and v[1] == w[1]:
                ch = False
                for i, (x, y) in enumerate(zip(v[2], w[2])):
                    if self.diff_val(root, path + (("up", i),), x, y, diff):
                        ch = True
                return ch
        if diff.get(key) != "top":
            diff[key] = "top"
            return True
        return False

    def proj_like(self, agg, k, like):
        """project agg by k with the type of the sibling value"""
        x = agg.f.get(k)
        if x is not None:
            return x
        if agg.base is None:
            return like
        nm = agg.base[1] + (k,)
        if isinstance(like, Agg):
            return ("Y", nm, like.ty)
        if like[0] == "I":
            lo, hi = self.range_of(like[1])
            if nm in self.A.ids:
                return I(atom_lin(self.A.ids[nm]))
            return I(atom_lin(self.A.get(nm, lo, hi)))
        if like[0] == "S":
            return ("S", self.seq_len(nm), like[2])
        if like[0] in ("Y",):
            return ("Y", nm, like[2])
        return like

    def loop_head_state(self, fr, head, st0, diff):
        H = st0.copy()
        phis = {}
        byroot = defaultdict(list)
        for (root, path), kind in diff.items():
            byroot[root].append((path, kind))
        for root, lst in byroot.items():
            v = self.read_root(H, root)
            for path, kind in sorted(lst, key=lambda x: len(x[0])):
                v = self.generalise(v, path, kind, ("lp", fr.fid, head, root) + path, (root, path), phis)
            H.mem[root] = v
        # entry facts that mention no generalised leaf stay valid; others are candidates
        return H, phis

    def generalise(self, v, path, kind, name, leaf, phis):
        if path and path[0] not in ("#d", "#b"):
            k = path[0]
            if isinstance(v, Agg):
                x = v.f.get(k)
                if x is None:
                    if kind == "new":
                        return v.with_(k, ("Y", name, None)) if len(path) == 1 else v
                    if v.base is None:
                        return v
                    x = ("Y", v.base[1] + (k,), None)
                    if kind == "int" and (v.base[1] + (k,)) in self.A.ids:
                        x = I(atom_lin(self.A.ids[v.base[1] + (k,)]))
                    elif kind == "len" and len(path) == 1:
                        x = ("S", self.seq_len(v.base[1] + (k,)), None)
                return v.with_(k, self.generalise(x, path[1:], kind, name, leaf, phis))
            if v[0] == "C" and isinstance(k, tuple) and k[0] == "up":
                ups = list(v[2])
                ups[k[1]] = self.generalise(ups[k[1]], path[1:], kind, name, leaf, phis)
                return ("C", v[1], tuple(ups))
            if v[0] == "Y":
                a = self.base_as_agg(v)
                if a.f.get(k) is None and a.base is not None:
                    return self.generalise(a, path, kind, name, leaf, phis)
            return v
        root, lpath = leaf
        if path and path[0] == "#d":
            a = self.base_as_agg(v)
            d = a.disc if a.disc is not None else ZERO
            lo, hi = 0, U64
            t = self.ty(a.ty) if a.ty is not None else None
            if t and t["k"] == "adt":
                ad = self.F.adts.get(t["p"])
                if ad and ad["vs"]:
                    ds = [int(x["d"]) for x in ad["vs"] if x["d"] not in ("", None)]
                    if ds:
                        lo, hi = min(ds), max(ds)
            elif isinstance(a.ty, str):
                lo, hi = 0, 3
            p = self.A.get(("phi",) + name, lo, hi)
            phis[p] = {"leaf": (root, lpath[:-1], "disc"), "entry": d, "small": True}
            return Agg(a.ty, a.f, atom_lin(p), a.base)
        if path and path[0] == "#b":
            a = self.base_as_agg(v)
            return Agg(a.ty, a.f, a.disc, ("Y", name, a.ty))
        if kind == "int":
            if isinstance(v, Agg):
                return v
            if v[0] == "I":
                lo, hi = self.entry_range(v[1], root, lpath)
                p = self.A.get(("phi",) + name, lo, hi)
                phis[p] = {"leaf": (root, lpath, "int"), "entry": v[1]}
                return I(atom_lin(p))
            return v
        if kind == "len":
            if not isinstance(v, Agg) and v[0] == "S":
                p = self.A.get(("phi",) + name + ("#len",), 0, ISZ)
                phis[p] = {"leaf": (root, lpath, "len"), "entry": v[1]}
                return ("S", atom_lin(p), v[2])
            return v
        # top
        t = self.val_ty(v)
        if not isinstance(v, Agg) and v[0] == "R":
            return ("Y", name, None)
        return self.sym(name, t) if t is not None and not isinstance(t, str) else ("Y", name, t)

    def entry_range(self, lin, root, path):
        t = self.leaf_type(root, path)
        r = self.int_range(t) if t is not None else None
        if r:
            return r
        if len(lin[1]) == 1:
            a = lin[1][0][0]
            n = self.A.lo[a]
            h = self.A.hi[a]
            if h == U64 or h == ISZ:
                return 0, U64
        return -(1 << 127), U64

    def leaf_type(self, root, path):
        if root[0] == "l" and not path:
            b = self.frame_bodies.get(root[1])
            if b is not None:
                return b.locals[root[2]]["ty"]
        return self.leaf_types.get((root, path))

    frame_bodies = {}
    leaf_types = {}

    def loop_candidates(self, st0, H, phis, extra):
        out = []
        seen = set()

        def cand(x, check=True):
            if not x[1] or x in seen:
                return
            seen.add(x)
            if check:
                y = subst(x, {p: phis[p]["entry"] for p in phis})
                if not self.P.prove(y, st0.fs, 100, 5):
                    return
            out.append(x)

        # which entry atoms are replaced
        inv = defaultdict(list)
        for p, i in phis.items():
            e = i["entry"]
            if len(e[1]) == 1 and abs(e[1][0][1]) == 1:
                a, k = e[1][0]
                inv[a].append((p, scale(addc(atom_lin(p), -e[0]), k)))
        for x in st0.fs.items():
            # x stays in H.fs (a fact about entry-time atoms, which are immutable)
            hit = [a for a, _ in x[1] if a in inv]
            for a in hit:
                for p, l in inv[a][:4]:
                    cand(subst(x, {a: l}))
            if len(hit) == 2:
                for p, l in inv[hit[0]][:3]:
                    for q, l2 in inv[hit[1]][:3]:
                        cand(subst(x, {hit[0]: l, hit[1]: l2}))
        for a, l0 in list(inv.items()):
            for x in self.A.axioms.get(a, ()):
                for p, l in l0[:2]:
                    cand(subst(x, {a: l}))
        pl = [p for p in phis]
        lens = []
        hatoms, _ = self.roots_atoms(H, list(H.mem))
        for a in hatoms:
            n = self.A.names[a]
            if n and n[-1] == "#len":
                lens.append(a)
        for p in pl:
            e = phis[p]["entry"]
            P_ = atom_lin(p)
            cand(sub(P_, e), False)
            cand(sub(e, P_), False)
            if phis[p].get("small"):
                continue
            if not e[1]:
                pass
            for a in lens[:30]:
                if a != p:
                    cand(sub(atom_lin(a), P_))
        ints = [p for p in pl if not phis[p].get("small")]
        for i in range(len(ints)):
            for j in range(len(ints)):
                if i == j:
                    continue
                p, q = ints[i], ints[j]
                P_, Q = atom_lin(p), atom_lin(q)
                cand(sub(P_, Q))
                if i < j:
                    s = sub(add(P_, Q), add(phis[p]["entry"], phis[q]["entry"]))
                    cand(s, False)
                    cand(scale(s, -1), False)
                    s = sub(sub(P_, Q), sub(phis[p]["entry"], phis[q]["entry"]))
                    cand(s, False)
                    cand(scale(s, -1), False)
        for x in extra:
            cand(x, False)
        return out

    # ------------------------------------------------------------------ blocks
    def exec_block(self, fr, b, st, rets):
        self.stats["blocks"] += 1
        body = fr.body
        fr.cur = b
        self.frame_bodies[fr.fid] = body
        for si, s in enumerate(body.blocks[b]["s"]):
            fr.si = si
            if s["s"] == "=":
                v = self.rvalue(fr, st, s["r"], s["p"], si)
                loc = self.loc_of(st, fr, s["p"])
                self.write_loc(st, loc, v)
            elif s["s"] == "setd":
                loc = self.loc_of(st, fr, s["p"])
                v = self.base_as_agg(self.read_loc(st, loc))
                self.write_loc(st, loc, Agg(v.ty, v.f, (int(s["v"]), ()), v.base))
        t = body.blocks[b]["t"]
        k = t["t"]
        fr.cur = b
        fr.si = 1000
        if k == "goto":
            return [(t["to"], st)]
        if k == "return":
            rets.append(st)
            return []
        if k == "switch":
            return self.do_switch(fr, st, t)
        if k == "assert":
            return self.do_assert(fr, st, t)
        if k == "drop":
            return [(t["to"], st)] if t.get("to") is not None else []
        if k == "call":
            return self.do_call(fr, st, t)
        if k == "yield":
            return []   # Pending: polling again is not observable here
        if k == "unreachable":
            return []
        if t.get("to") is not None:
            return [(t["to"], st)]
        return []

    def operand(self, fr, st, o):
        p = op_place(o)
        if p is not None:
            return self.read_loc(st, self.loc_of(st, fr, p))
        return self.constant(fr, o["k"])

    def constant(self, fr, k):
        if k.get("fn"):
            return ("F", Callee(k["fn"]))
        if k.get("int") is not None:
            v = int(k["int"])
            t = self.ty(k["ty"])
            if t["k"] == "adt":
                return Agg(k["ty"], {}, (v, ()))
            return IC(v)
        if k.get("str") is not None:
            return ("S", (len(k["str"].encode("utf-8", "surrogatepass")) if isinstance(k["str"], str) else len(k["str"]), ()), k["ty"])
        t = self.ty(k["ty"]) if k.get("ty") is not None else None
        if k.get("variant") is not None and t and t["k"] == "adt":
            d = self.adt_disc(t["p"], int(k["variant"])) if not isinstance(k["variant"], dict) else None
            if d is not None:
                return Agg(k["ty"], {}, (d, ()))
        if k.get("bytes") is not None:
            return ("S", (len(k["bytes"]), ()), k["ty"])
        if t is not None:
            if t["k"] in ("closure", "fndef"):
                return self.sym(("const", k["ty"]), k["ty"])
            if t["k"] == "ref":
                it = self.ty(t["t"])
                if it["k"] == "array" and it["n"] is not None:
                    return ("S", (it["n"], ()), t["t"])
            if t["k"] == "array":
                return ("Y", ("const", repr(k)[:200]), k["ty"])
            if t["k"] == "tuple" and not t["ts"]:
                return Agg(k["ty"], {})
        if k.get("prom") is not None:
            v = self.promoted(fr, k)
            if v is not None:
                return v
        if k.get("def"):
            v = self.const_item(k)
            if v is not None:
                return v
        return self.sym(("const", fr.body.id, repr({x: y for x, y in k.items() if x != "l"})[:300]), k.get("ty"))

    def const_item(self, k):
        return None

    def promoted(self, fr, k):
        """value of a promoted constant (a small straight-line body)"""
        proms = fr.body.d.get("proms") or []
        i = k["prom"]
        if not isinstance(i, int) or i >= len(proms):
            return None
        pb = proms[i]
        key = (fr.body.id, "prom", i)
        if key in self.prom_cache:
            return self.prom_cache[key]
        self.prom_cache[key] = None
        d = dict(pb)
        d.update(id=str(key), path="%s::promoted[%d]" % (fr.body.path, i), kind="Const", phase="prom", file=fr.body.file,
                 line=fr.body.line, argc=0, proms=[])
        if len(d["blocks"]) != 1:
            return None
        b = Body(self.F, d)
        f2 = Cell(body=b, fid=key, cur=0, si=0)
        st = State()
        try:
            for si, s in enumerate(b.blocks[0]["s"]):
                if s["s"] == "=":
                    v = self.rvalue(f2, st, s["r"], s["p"], si)
                    self.write_loc(st, self.loc_of(st, f2, s["p"]), v)
        except Exception:
            return None
        v = st.mem.get(("l", key, 0))
        # deep resolve one level of reference into the promoted frame
        v = self.freeze(st, v, 0)
        self.prom_cache[key] = v
        return v

    prom_cache = {}

    def freeze(self, st, v, d):
        """replace references into a dead frame by object roots holding the value"""
        if v is None or d > 4:
            return v
        if isinstance(v, Agg):
            return Agg(v.ty, {k: self.freeze(st, x, d + 1) for k, x in v.f.items()}, v.disc, v.base)
        if v[0] == "R" and v[1][0] == "l":
            x = self.freeze(st, self.read_loc(st, ("loc", v[1], v[2])), d + 1)
            return ("K", x)
        return v

    def unK(self, st, v, site):
        return v

    def rvalue(self, fr, st, r, dest, si):
        k = r["r"]
        if k == "use":
            v = self.operand(fr, st, r["o"])
            return self.thaw(fr, st, v, si)
        if k in ("ref", "rawptr"):
            p = r["p"]
            loc = self.loc_of(st, fr, p)
            if loc[0] == "val":
                v = loc[1]
                if not isinstance(v, Agg) and v[0] == "S":
                    return v
                root = ("o", ("tmpref", fr.fid, fr.cur, si), self.val_ty(v))
                st.mem[root] = v
                return ("R", root, ())
            v = self.read_loc(st, loc)
            if not isinstance(v, Agg) and v[0] == "S":
                t = self.ty(v[2]) if v[2] is not None else None
                if t and t["k"] in ("slice", "str"):
                    return v
            return ("R", loc[1], loc[2])
        if k == "cast":
            return self.cast(fr, st, r, dest, si)
        if k == "bin":
            return self.binop(fr, st, r, dest, si)
        if k == "un":
            a = self.operand(fr, st, r["a"] if "a" in r else r["o"])
            if r["op"] == "Not":
                t = self.dest_ty(fr, dest)
                if t and t["k"] == "bool" and a[0] == "I":
                    return I(sub(ONE, a[1]))
                return self.fresh((fr.fid, fr.cur, si), self.dest_tyi(fr, dest))
            if r["op"] == "PtrMetadata":
                l = self.seq_len_of(st, a, (fr.fid, fr.cur, si))
                return I(l)
            if r["op"] == "Neg" and not isinstance(a, Agg) and a[0] == "I":
                return I(scale(a[1], -1))
            return self.fresh((fr.fid, fr.cur, si), self.dest_tyi(fr, dest))
        if k == "disc":
            loc = self.loc_of(st, fr, r["p"])
            v = self.read_loc(st, loc)
            ty = None
            if isinstance(v, tuple) and v[0] == "K":
                v = v[1]
            return I(self.disc_of(v, ty))
        if k == "agg":
            ops = [self.thaw(fr, st, self.operand(fr, st, o), (si, j)) for j, o in enumerate(r["o"])]
            ak = r["ak"]
            if ak in ("closure", "coroutine", "coroutine_closure"):
                return ("C", r["id"], tuple(ops))
            if ak == "adt":
                v = r.get("v", 0)
                a = self.F.adts.get(r["p"])
                d = None
                if a and a["kind"] == "enum":
                    d = self.adt_disc(r["p"], v)
                    d = (d, ()) if d is not None else (v, ())
                ty = self.dest_tyi(fr, dest)
                t = self.ty(ty) if ty is not None else None
                if t is None or t["k"] != "adt" or t["p"] != r["p"]:
                    ty = r["p"]
                return Agg(ty, {(v, i): x for i, x in enumerate(ops)}, d)
            return Agg(self.dest_tyi(fr, dest), {(0, i): x for i, x in enumerate(ops)})
        if k == "repeat":
            return ("Y", ("rep", fr.fid, fr.cur, si), self.dest_tyi(fr, dest))
        if k == "len":
            v = self.read_loc(st, self.loc_of(st, fr, r["p"]))
            return I(self.seq_len_of(st, v, (fr.fid, fr.cur, si)))
        return self.fresh((fr.fid, fr.cur, si), self.dest_tyi(fr, dest))

    def thaw(self, fr, st, v, si):
        if isinstance(v, tuple) and v[0] == "K":
            x = v[1]
            if not isinstance(x, Agg) and x[0] == "S":
                return x
            root = ("o", ("prom", fr.fid, fr.cur, si), self.val_ty(x))
            st.mem[root] = x
            return ("R", root, ())
        return v

    def dest_tyi(self, fr, dest):
        t = fr.body.locals[dest[0]]["ty"]
        for e in dest[1:]:
            if e == "*":
                tt = self.ty(t)
                t = tt.get("t") if tt else None
                if t is None:
                    return None
            elif "f" in e:
                t = e["t"]
            elif "v" in e:
                pass
            else:
                return None
        return t

    def dest_ty(self, fr, dest):
        i = self.dest_tyi(fr, dest)
        return self.ty(i) if i is not None else None

    # integers
    def fits(self, st, l, r):
        return self.prove(st, addc(l, -r[0]), 120) and self.prove(st, addc(scale(l, -1), r[1]), 120)

    def cast(self, fr, st, r, dest, si):
        v = self.operand(fr, st, r["o"])
        v = self.thaw(fr, st, v, si)
        t = self.ty(r["ty"])
        rng = self.int_range(t)
        if rng is not None:
            if not isinstance(v, Agg) and v[0] == "I":
                l = v[1]
            elif isinstance(v, Agg) and v.disc is not None:
                l = v.disc
            else:
                return self.fresh((fr.fid, fr.cur, si), r["ty"])
            if self.lin_in(l, rng) or self.fits(st, l, rng):
                return I(l)
            a = self.fresh((fr.fid, fr.cur, si), r["ty"])
            self.note_cast(fr, st, r, l, rng, si)
            # truncation of a non-negative value never exceeds it
            if rng[0] == 0 and self.prove(st, l, 60):
                self.assume(st, sub(l, a[1]))
            return a
        if t["k"] in ("ref", "ptr"):
            it = self.ty(t["t"])
            if it and it["k"] in ("slice", "str"):
                l = self.seq_len_of(st, v, (fr.fid, fr.cur, si))
                return ("S", l, t["t"])
            return v
        if t["k"] == "float":
            return ("Y", ("x", fr.fid, fr.cur, si), r["ty"])
        return v

    def note_cast(self, fr, st, r, l, rng, si):
        pass

    def lin_in(self, l, rng):
        lo, hi = self.lin_lo(l), self.lin_hi(l)
        return lo is not None and hi is not None and lo >= rng[0] and hi <= rng[1]

    CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}

    def binop(self, fr, st, r, dest, si):
        op = r["op"]
        a = self.operand(fr, st, r["a"])
        b = self.operand(fr, st, r["b"])
        site = (fr.fid, fr.cur, si)
        t = self.dest_ty(fr, dest)
        ints = (not isinstance(a, Agg) and a[0] == "I" and not isinstance(b, Agg) and b[0] == "I")
        if op in self.CMP:
            if not ints:
                if op in ("Eq", "Ne") and isinstance(a, Agg) and isinstance(b, Agg) and a.disc is not None and b.disc is not None and not a.f and not b.f:
                    ints = True
                    a, b = I(a.disc), I(b.disc)
                else:
                    return self.fresh_int(site, 0, 1)
            return self.compare(fr, st, op, a[1], b[1], site)
        if op.endswith("WithOverflow"):
            if not ints:
                return Agg(self.dest_tyi(fr, dest), {(0, 0): self.fresh(site + (0,), None if t is None else t["ts"][0]), (0, 1): self.fresh_int(site + (1,), 0, 1)})
            it = t["ts"][0]
            v = self.arith(fr, st, op[:-len("WithOverflow")], a[1], b[1], it, site, True)
            return Agg(self.dest_tyi(fr, dest), {(0, 0): v, (0, 1): self.fresh_int(site + (1,), 0, 1)})
        if not ints:
            return self.fresh(site, self.dest_tyi(fr, dest))
        return self.arith(fr, st, op, a[1], b[1], self.dest_tyi(fr, dest), site, False)

    def compare(self, fr, st, op, a, b, site):
        if self.cmp_log is not None:
            self.cmp_log.append((a, b))
        d = sub(a, b)
        nd = scale(d, -1)
        if op == "Lt":
            T, Fa = [addc(nd, -1)], [d]
        elif op == "Le":
            T, Fa = [nd], [addc(d, -1)]
        elif op == "Gt":
            T, Fa = [addc(d, -1)], [nd]
        elif op == "Ge":
            T, Fa = [d], [addc(nd, -1)]
        elif op == "Eq":
            T, Fa = [d, nd], [("neq", d)]
            if len(d[1]) == 1 and abs(d[1][0][1]) == 1:
                aa, k = d[1][0]
                val = -d[0] * k
                T.append(("eqv", aa, val))
                Fa = [("nev", aa, val)]
        else:
            Fa, T = [d, nd], [("neq", d)]
            if len(d[1]) == 1 and abs(d[1][0][1]) == 1:
                aa, k = d[1][0]
                val = -d[0] * k
                Fa.append(("eqv", aa, val))
                T = [("nev", aa, val)]
        if not d[1]:
            c = d[0]
            res = {"Lt": c < 0, "Le": c <= 0, "Gt": c > 0, "Ge": c >= 0, "Eq": c == 0, "Ne": c != 0}[op]
            return IC(1 if res else 0)
        # decide when provable
        if all(f[0] not in ("eqv", "nev", "neq") for f in T) and all(self.prove(st, f, 60) for f in T):
            return IC(1)
        if all(f[0] not in ("eqv", "nev", "neq") for f in Fa) and all(self.prove(st, f, 60) for f in Fa):
            return IC(0)
        p = self.A.get(("cmp",) + site, 0, 1)
        st.cond[(p, 1)] = tuple(T)
        st.cond[(p, 0)] = tuple(Fa)
        st.excl.pop(p, None)
        self.forget(st, p)
        return I(atom_lin(p))

    def forget(self, st, a):
        """atom a is redefined: drop facts on its previous incarnation"""
        bad = [co for co in st.fs.f if any(x == a for x, _ in co)]
        if bad:
            for co in bad:
                del st.fs.f[co]
            st.fs.idx = None

    def arith(self, fr, st, op, a, b, ty, site, checked):
        rng = self.int_range(ty) or (-(1 << 127), (1 << 128) - 1)
        unc = op.endswith("Unchecked")
        if unc:
            op = op[:-len("Unchecked")]
        if op in ("Add", "Sub"):
            v = add(a, b, 1 if op == "Add" else -1)
            if checked or unc or self.lin_in(v, rng) or self.fits(st, v, rng):
                return I(v)
            return self.fresh(site, ty)
        if op == "Mul":
            if not a[1]:
                v = scale(b, a[0])
            elif not b[1]:
                v = scale(a, b[0])
            else:
                # bounded product
                la, ha, lb, hb = self.lo(st, a), self.hi(st, a), self.lo(st, b), self.hi(st, b)
                if None in (la, ha, lb, hb):
                    return self.fresh(site, ty)
                c = [x * y for x in (la, ha) for y in (lb, hb)]
                x = self.A.get(("mul",) + site, min(c), max(c))
                self.forget(st, x)
                v = atom_lin(x)
                if la >= 0 and lb >= 0:
                    # x <= ha*b, x <= hb*a, x >= la*b, x >= lb*a
                    self.assume(st, sub(scale(b, ha), v))
                    self.assume(st, sub(scale(a, hb), v))
                    self.assume(st, sub(v, scale(b, la)))
                    self.assume(st, sub(v, scale(a, lb)))
                self.A.lo[x] = min(self.A.lo[x], min(c))
                self.A.hi[x] = max(self.A.hi[x], max(c))
            if checked or unc or self.lin_in(v, rng) or self.fits(st, v, rng):
                return I(v)
            return self.fresh(site, ty)
        if op in ("Div", "Rem") and not b[1] and b[0] > 0:
            c = b[0]
            if not a[1] :
                q = abs(a[0]) // c
                q = q if a[0] >= 0 else -q
                return IC(q) if op == "Div" else IC(a[0] - q * c)
            if self.prove(st, a, 60):
                hi = self.hi(st, a)
                q = self.A.get(("div",) + site, 0, hi // c if hi is not None else None)
                self.forget(st, q)
                if hi is not None and self.A.hi[q] is not None:
                    self.A.hi[q] = max(self.A.hi[q], hi // c)
                ql = atom_lin(q)
                d = sub(a, scale(ql, c))
                self.assume(st, d)
                self.assume(st, addc(scale(d, -1), c - 1))
                return I(ql) if op == "Div" else I(d)
            if op == "Rem":
                return self.fresh_int(site, -(c - 1), c - 1)
            return self.fresh(site, ty)
        if op == "Shr" and not b[1] and 0 <= b[0] < 128:
            return self.arith(fr, st, "Div", a, (1 << b[0], ()), ty, site, False)
        if op == "Shl" and not b[1] and 0 <= b[0] < 128:
            v = scale(a, 1 << b[0])
            if self.lin_in(v, rng) or self.fits(st, v, rng):
                return I(v)
            return self.fresh(site, ty)
        if op == "BitAnd":
            if not a[1] and not b[1]:
                return IC(a[0] & b[0])
            t = self.ty(ty)
            if t and t["k"] == "bool":
                p = self.A.get(("and",) + site, 0, 1)
                self.forget(st, p)
                c = []
                for l in (a, b):
                    if len(l[1]) == 1:
                        x, k = l[1][0]
                        c.append(("eqv", x, (1 - l[0]) * k))
                st.cond[(p, 1)] = tuple(c)
                st.cond.pop((p, 0), None)
                st.excl.pop(p, None)
                return I(atom_lin(p))
            hi = None
            for x, y in ((a, b), (b, a)):
                h = self.hi(st, x)
                if h is not None and self.prove(st, x, 30):
                    hi = h if hi is None else min(hi, h)
            v = self.A.get(("band",) + site, 0 if rng[0] == 0 else rng[0], hi if hi is not None else rng[1])
            self.forget(st, v)
            if hi is not None:
                self.A.hi[v] = max(self.A.hi[v], hi)
            vl = atom_lin(v)
            for x in (a, b):
                if x[1] and rng[0] == 0:
                    self.assume(st, sub(x, vl))
            return I(vl)
        if op in ("BitOr", "BitXor"):
            if not a[1] and not b[1]:
                return IC(a[0] | b[0] if op == "BitOr" else a[0] ^ b[0])
            t = self.ty(ty)
            if t and t["k"] == "bool" and op == "BitOr":
                p = self.A.get(("or",) + site, 0, 1)
                self.forget(st, p)
                c = []
                for l in (a, b):
                    if len(l[1]) == 1:
                        x, k = l[1][0]
                        c.append(("eqv", x, (0 - l[0]) * k))
                st.cond[(p, 0)] = tuple(c)
                st.cond.pop((p, 1), None)
                st.excl.pop(p, None)
                return I(atom_lin(p))
            ha, hb = self.hi(st, a), self.hi(st, b)
            if rng[0] == 0 and ha is not None and hb is not None:
                h = (1 << max(ha.bit_length(), hb.bit_length())) - 1
                return self.fresh_int(site, 0, min(h, rng[1]))
        return self.fresh(site, ty)

    def lo(self, st, l):
        return self.P.lower(l, st.fs)

    def hi(self, st, l):
        x = self.P.lower(scale(l, -1), st.fs)
        return None if x is None else -x

    # ------------------------------------------------------------------ terminators
    def do_switch(self, fr, st, t):
        v = self.operand(fr, st, t["d"])
        if isinstance(v, Agg) and v.disc is not None:
            l = v.disc
        elif not isinstance(v, Agg) and v[0] == "I":
            l = v[1]
        else:
            out = []
            for _, tgt in t["tg"]:
                out.append((tgt, st.copy()))
            if t.get("ow") is not None:
                out.append((t["ow"], st))
            return out
        if not l[1]:
            for val, tgt in t["tg"]:
                if int(val) == l[0]:
                    return [(tgt, st)]
            return [(t["ow"], st)] if t.get("ow") is not None else []
        out = []
        rest = st.copy()
        alive = True
        for val, tgt in t["tg"]:
            val = int(val)
            s = st.copy()
            if self.lin_possible(st, l, val) and self.assume_eq(s, l, val):
                out.append((tgt, s))
            if alive and not self.assume_ne(rest, l, val):
                alive = False
        if alive and t.get("ow") is not None:
            out.append((t["ow"], rest))
        return out

    def lin_possible(self, st, l, val):
        lo, hi = self.lo(st, l), self.hi(st, l)
        if lo is not None and val < lo or hi is not None and val > hi:
            return False
        return True

    def do_assert(self, fr, st, t):
        mk = t["mk"]
        ops = [self.operand(fr, st, o) for o in t.get("ops") or []]
        if mk.startswith("overflow:"):
            op = mk.split(":", 1)[1]
            vals = [o[1] if (not isinstance(o, Agg) and o[0] == "I") else None for o in ops]
            ty = None
            for o in t.get("ops") or []:
                ty = self.op_ty(fr, o)
                break
            rng = self.int_range(ty) if ty is not None else None
            if op in ("Add", "Sub", "Mul") and len(vals) == 2 and None not in vals and rng:
                if op == "Mul":
                    v = None
                    p = op_place(t["c"])
                    if p is not None and len(p) == 2:
                        tv = self.read_loc(st, self.loc_of(st, fr, [p[0], {"f": 0, "t": ty}]))
                        if tv[0] == "I":
                            v = tv[1]
                    if v is None:
                        v = scale(vals[0], vals[1][0]) if not vals[1][1] else None
                else:
                    v = add(vals[0], vals[1], 1 if op == "Add" else -1)
                if v is not None:
                    self.oblige(st, fr, "overflow", addc(v, -rng[0]), mk, "lo")
                    self.oblige(st, fr, "overflow", addc(scale(v, -1), rng[1]), mk, "hi")
                    ok = self.assume(st, addc(v, -rng[0])) and self.assume(st, addc(scale(v, -1), rng[1]))
                    return [(t["to"], st)] if ok else []
            if op in ("Shl", "Shr") and len(vals) >= 1 and vals[-1] is not None:
                bt = self.op_ty(fr, t["ops"][0])
                bits = self.ty(bt)["bits"] if bt is not None and self.ty(bt)["k"] == "int" else 8
                v = vals[-1]
                self.oblige(st, fr, "overflow", v, mk, "lo")
                self.oblige(st, fr, "overflow", addc(scale(v, -1), bits - 1), mk, "hi")
                self.assume(st, v)
                self.assume(st, addc(scale(v, -1), bits - 1))
                return [(t["to"], st)]
            if op == "Neg" and vals and vals[0] is not None and rng:
                self.oblige(st, fr, "overflow", addc(vals[0], -rng[0] - 1), mk)
                return [(t["to"], st)]
            if not vals or None in vals:
                self.oblige(st, fr, "overflow", (-1, ()), mk)
                return [(t["to"], st)]
        if mk == "bounds":
            l, i = ops[0], ops[1]
            if l[0] == "I" and i[0] == "I":
                g = addc(sub(l[1], i[1]), -1)
                self.oblige(st, fr, "bounds", g, mk)
                return [(t["to"], st)] if self.assume(st, g) else []
            self.oblige(st, fr, "bounds", (-1, ()), mk)
            return [(t["to"], st)]
        if mk.startswith("div0") or mk.startswith("rem0"):
            # condition operand: cond == expected false
            c = self.operand(fr, st, t["c"])
            if c[0] == "I" and not c[1][1]:
                if bool(c[1][0]) != bool(t["e"]):
                    self.oblige(st, fr, "div0", (-1, ()), mk)
                return [(t["to"], st)]
            s2 = st.copy()
            if c[0] == "I" and self.assume_eq(s2, c[1], 0 if t["e"] else 1):
                self.oblige(s2, fr, "div0", None, mk)
            if c[0] == "I" and not self.assume_eq(st, c[1], 1 if t["e"] else 0):
                return []
            return [(t["to"], st)]
        if mk.startswith("other"):
            return [(t["to"], st)] if t.get("to") is not None else []
        c = self.operand(fr, st, t["c"])
        if c[0] == "I" and not c[1][1] and bool(c[1][0]) == bool(t["e"]):
            return [(t["to"], st)]
        self.oblige(st, fr, mk, (-1, ()), mk)
        return [(t["to"], st)]

    def op_ty(self, fr, o):
        p = op_place(o)
        if p is None:
            return o["k"]["ty"]
        return self.dest_tyi(fr, p)

    # ------------------------------------------------------------------ calls
    def do_call(self, fr, st, t):
        c = op_fn(t["f"])
        args = [self.thaw(fr, st, self.operand(fr, st, a), (2000, i)) for i, a in enumerate(t["a"])]
        dest = t["d"]
        dty = self.dest_tyi(fr, dest)
        site = (fr.fid, fr.cur)
        cx = Cell(fr=fr, st=st, t=t, site=site, dty=dty, dest=dest, callee=c)
        if c is None:
            fv = self.operand(fr, st, t["f"])
            st, v = self.call_value(cx, st, fv, args)
        else:
            st, v = self.call_callee(cx, st, c, args)
        if st is None or t.get("to") is None:
            return []
        loc = self.loc_of(st, fr, dest)
        self.write_loc(st, loc, v)
        return [(t["to"], st)]

    def call_callee(self, cx, st, c, args):
        m = self.models.lookup(c)
        if m is not None:
            r = m(self, cx, st, c, args)
            if r is not None:
                return r
        targets = self.F.resolve(c)
        if len(targets) == 1 or (targets and c.rid == targets[0].id and not targets[0].d.get("intrait")):
            return self.call_body(cx, st, targets[0], args)
        if targets:
            if len(targets) <= 6:
                outs = []
                for i, b in enumerate(targets):
                    if b.d.get("intrait") and len(targets) > 1 and self.all_override(b, targets):
                        continue
                    s, v = self.call_body(cx, st.copy(), b, args, ("alt", i))
                    if s is not None:
                        outs.append((s, v))
                return self.join_results(cx, outs)
            return self.havoc_call(cx, st, args)
        if c.trait and not targets and c.ctor is None:
            self.unknown_ext[c.rpath] += 1
        return self.havoc_call(cx, st, args)

    def all_override(self, b, targets):
        return False

    def join_results(self, cx, outs):
        if not outs:
            return None, None
        tmp = ("o", ("tmp",) + cx.site, None)
        acc = None
        for i, (s, v) in enumerate(outs):
            s.mem[tmp] = v
            live = None
            acc = s if acc is None else self.join(acc, s, ("cj",) + cx.site + (i,), None)
        v = acc.mem.pop(tmp)
        return acc, v

    def has_fn(self, v, d=0):
        if d > 3:
            return False
        if isinstance(v, Agg):
            return any(self.has_fn(x, d + 1) for x in v.f.values())
        return v[0] in ("C", "F", "N") or (v[0] == "IT")

    def ref_to_fn(self, st, v, d=0):
        if not isinstance(v, Agg) and v[0] == "R" and d < 4:
            x = self.read_loc(st, ("loc", v[1], v[2]))
            if isinstance(x, Agg):
                return False
            if x[0] in ("C", "F", "N"):
                return True
            return self.ref_to_fn(st, x, d + 1)
        return False

    def call_body(self, cx, st, body, args, extra=()):
        if body.id in [x[0] for x in self.active]:
            self.events["recursion"].append((self.active[-1][0], body.id))
            return self.havoc_call(cx, st, args)
        if body.d.get("async") and body.kind != "Closure":
            pass
        if any(self.has_fn(a) or self.ref_to_fn(st, a) for a in args) or body.kind == "Closure":
            fid = ("i", body.id, cx.site, extra)
            if self.depth_of(fid) > 14:
                return self.havoc_call(cx, st, args)
            self.active.append((body.id, "inline"))
            save = cx.fr.cur
            try:
                s, v = self.exec_body(body, st, args, fid)
            finally:
                self.active.pop()
                cx.fr.cur = save
            return s, v
        sm = self.summary(body)
        if sm is None:
            return self.havoc_call(cx, st, args)
        return self.apply(cx, st, sm, args, extra)

    def depth_of(self, fid):
        d = 0
        while isinstance(fid, tuple) and fid and fid[0] == "i":
            d += 1
            fid = fid[2][0]
        return d

    def havoc_call(self, cx, st, args):
        for i, a in enumerate(args):
            self.havoc_reach(st, a, cx.site + ("h", i))
            self.run_closures(cx, st, a, i)
        return st, self.fresh(cx.site + ("ret",), cx.dty)

    def run_closures(self, cx, st, a, i):
        """an unknown callee may run a closure it was given, any number of times"""
        if isinstance(a, Agg):
            for k, x in a.f.items():
                self.run_closures(cx, st, x, (i, k))
            return
        if a[0] == "R":
            x = self.read_loc(st, ("loc", a[1], a[2]))
            if not isinstance(x, Agg) and x[0] == "C":
                a = x
            else:
                return
        if a[0] == "C":
            b = self.F.bodies.get(a[1])
            if b is None or b.d.get("coroutine"):
                return
            self.run_closure_any(cx, st, a, ("any", i))

    def run_closure_any(self, cx, st, clo, tag, argvals=None):
        b = self.F.bodies.get(clo[1])
        if b is None or b.id in [x[0] for x in self.active]:
            return None, None
        for j, u in enumerate(clo[2]):
            self.havoc_reach(st, u, cx.site + (tag, "up", j))
        s = st.copy()
        s2, v = self.exec_closure(cx, s, clo, argvals, tag)
        for j, u in enumerate(clo[2]):
            self.havoc_reach(st, u, cx.site + (tag, "up2", j))
        return s2, v

    def exec_closure(self, cx, st, clo, argvals, tag):
        """run closure body; argvals: list of values (None: unknown)"""
        b = self.F.bodies.get(clo[1])
        if b is None:
            return st, self.fresh(cx.site + (tag,), cx.dty)
        fid = ("i", b.id, cx.site, tag)
        if self.depth_of(fid) > 14 or b.id in [x[0] for x in self.active]:
            return st, self.fresh(cx.site + (tag, "rec"), b.locals[0]["ty"])
        selfty = self.ty(b.locals[1]["ty"]) if b.argc >= 1 else None
        if selfty and selfty["k"] == "ref":
            root = ("o", ("clo",) + cx.site + (tag,), None)
            st.mem[root] = clo
            self_v = ("R", root, ())
        else:
            self_v = clo
        args = [self_v]
        for i in range(2, b.argc + 1):
            if argvals is not None and i - 2 < len(argvals) and argvals[i - 2] is not None:
                args.append(argvals[i - 2])
            else:
                args.append(self.sym(("x",) + cx.site + (tag, "arg", i), b.locals[i]["ty"]))
        self.active.append((b.id, "inline"))
        save = cx.fr.cur
        try:
            s, v = self.exec_body(b, st, args, fid)
        finally:
            self.active.pop()
            cx.fr.cur = save
        return s, v

    def havoc_reach(self, st, v, site, depth=0):
        """forget everything mutable reachable through v (only &mut: approximated by all refs whose
        pointee holds integers/sequences and that are not shared refs)"""
        if depth > 4:
            return
        if isinstance(v, Agg):
            for k, x in v.f.items():
                self.havoc_reach(st, x, site + (k,), depth + 1)
            return
        if v[0] == "R":
            if v[1] in self.shared:
                return
            self.tick += 1
            loc = ("loc", v[1], v[2])
            old = self.read_loc(st, loc)
            if not isinstance(old, Agg) and old[0] in ("C", "F"):
                self.havoc_reach(st, old, site, depth + 1)
                return
            if v[2]:
                t = v[2][-1][1]
            elif v[1][0] == "o":
                t = v[1][2]
            else:
                b = self.frame_bodies.get(v[1][1])
                t = b.locals[v[1][2]]["ty"] if b is not None else None
            if t is None:
                t = self.val_ty(old)
            if isinstance(t, str):
                t = None
            self.write_loc(st, loc, self.sym(("hv",) + site, t))
        elif v[0] == "C":
            for j, u in enumerate(v[2]):
                self.havoc_reach(st, u, site + (("up", j),), depth + 1)

    shared = frozenset()

    def call_value(self, cx, st, fv, args):
        """call through a closure / fn value"""
        for _ in range(6):
            if isinstance(fv, tuple) and fv[0] == "R":
                fv = self.read_loc(st, ("loc", fv[1], fv[2]))
            else:
                break
        if isinstance(fv, Agg):
            return self.havoc_call(cx, st, args)
        if fv[0] == "C":
            return self.exec_closure(cx, st, fv, args, ("cv",))
        if fv[0] == "F":
            return self.call_callee(cx, st, fv[1], args)
        if fv[0] == "N":
            if args:
                return self.models.run_parser(self, cx, st, fv, args[0], ("np",))
        return self.havoc_call(cx, st, args)

    # ------------------------------------------------------------------ summaries
    def summary(self, body):
        if body.id in self.sums:
            return self.sums[body.id]
        if body.id in [x[0] for x in self.active]:
            return None
        save = (self.obls, self.mute, self.cmp_log, self.tick)
        self.obls = []
        self.mute = 0
        self.cmp_log = None
        self.active.append((body.id, "sum"))
        sm = Summary()
        fid = ("f", body.id)
        sm.frame = fid
        args = [self.sym(("arg", body.id, i), body.locals[i + 1]["ty"]) for i in range(body.argc)]
        sm.args = args
        try:
            st, ret = self.exec_body(body, State(), args, fid)
        finally:
            self.active.pop()
            obls = self.obls
            self.obls, self.mute, self.cmp_log, self.tick = save
        sm.exits = st
        sm.ret = ret
        # dedupe obligations
        seen = {}
        for o in obls:
            k = (o.site, o.goal)
            if k not in seen:
                seen[k] = o
        sm.obls = list(seen.values())
        self.sums[body.id] = sm
        return sm

    def apply(self, cx, st, sm, args, extra=()):
        """instantiate a summary in the caller's state"""
        self.stats["apply"] += 1
        tr = Translator(self, cx, st, args, cx.site + extra)
        fr = cx.fr
        if not self.mute:
            for o in sm.obls:
                self.lift(cx, st, tr, o)
        if sm.exits is None:
            return None, None
        ret = tr.val(sm.ret)
        pending = []
        for root, v in sm.exits.mem.items():
            if root[0] == "o":
                d = self.read_root_default(root)
                if v == d:
                    continue
                loc = tr.root(root)
                pending.append((loc, tr.val(v)))
        for f in sm.exits.fs.items():
            st.fs.add(tr.lin(f))
        if st.fs.bad:
            return None, None
        for (a, v), fl in sm.exits.cond.items():
            l = tr.atom(a)
            if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                na, k = l[1][0]
                nv = (v - l[0]) * k
                nf = tr.cond(fl)
                old = st.cond.get((na, nv))
                st.cond[(na, nv)] = nf if old is None else tuple(dict.fromkeys(old + nf))
            elif not l[1] and l[0] == v:
                for f in tr.cond(fl):
                    if f is False:
                        return None, None
                    if f[0] == "eqv":
                        if not self.assume_eq(st, atom_lin(f[1]), f[2]):
                            return None, None
                    elif f[0] in ("nev", "neq"):
                        pass
                    else:
                        st.fs.add(f)
        for a, ex in sm.exits.excl.items():
            l = tr.atom(a)
            for v in ex:
                self.assume_ne(st, l, v)
        for loc, v in pending:
            self.write_loc(st, loc, v)
        if st.fs.bad:
            return None, None
        return st, ret

    def read_root_default(self, root):
        return self.sym(root[1] + ("*",), root[2])

    def lift(self, cx, st, tr, o):
        rec = self.sites.setdefault(o.site, [0, 0])
        s2 = st.copy()
        for h in o.hyps:
            s2.fs.add(tr.lin(h))
        if s2.fs.bad:
            return
        g = tr.lin(o.goal) if o.goal is not None else None
        if g is not None and self.prove(s2, g):
            return
        if self.prove_dead(s2) if g is None else False:
            return
        if self.split_prove(s2, g, 2):
            return
        if g is not None and self.prove_dead(s2):
            return
        self.obls.append(Obl(o.site, o.kind, o.msg, g, self.relevant(s2, g), (cx.fr.body.path,) + o.chain))


class Translator:
    def __init__(self, ip, cx, st, args, site):
        self.ip = ip
        self.cx = cx
        self.st = st.copy()   # pre-call memory
        self.args = args
        self.site = site
        self.memo = {}
        self.vmemo = {}

    def path_value(self, name, ty=None):
        """value of ('arg', id, i, steps...) in caller pre-state; None if unknown"""
        if name in self.vmemo:
            return self.vmemo[name]
        v = self._pv(name)
        self.vmemo[name] = v
        return v

    def _pv(self, name):
        ip = self.ip
        v = self.args[name[2]] if name[2] < len(self.args) else None
        for s in name[3:]:
            if v is None:
                return None
            if s == "*":
                if isinstance(v, Agg):
                    if (0, 0) in v.f:
                        v = v.f[(0, 0)]
                        if not isinstance(v, Agg) and v[0] == "R":
                            v = ip.read_loc(self.st, ("loc", v[1], v[2]))
                        continue
                    return None
                if v[0] == "R":
                    v = ip.read_loc(self.st, ("loc", v[1], v[2]))
                elif v[0] == "S":
                    pass
                elif v[0] == "Y":
                    v = ("Y", v[1] + ("*",), None)
                else:
                    return None
            elif s in ("#len", "#disc"):
                return (s, v)
            else:
                if isinstance(v, Agg):
                    x = v.f.get(s)
                    if x is None:
                        if v.base is not None:
                            x = ("Y", v.base[1] + (s,), None)
                        else:
                            return None
                    v = x
                elif v[0] == "Y":
                    v = ("Y", v[1] + (s,), None)
                elif v[0] == "C" and s[0] == "up" and s[1] < len(v[2]):
                    v = v[2][s[1]]
                elif v[0] == "C" and isinstance(s, tuple) and s[1] < len(v[2]):
                    v = v[2][s[1]]
                elif v[0] == "R":
                    pass
                else:
                    return None
        return v

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        ip = self.ip
        name = ip.A.names[a]
        lo, hi = ip.A.lo[a], ip.A.hi[a]
        r = None
        if name[0] == "arg":
            v = self.path_value(name)
            if v is not None:
                if isinstance(v, tuple) and v[0] == "#len":
                    l = ip.seq_len_of(self.st, v[1])
                    if l is None and not isinstance(v[1], Agg) and v[1][0] == "Y":
                        l = ip.seq_len(v[1][1])
                    r = l
                elif isinstance(v, tuple) and v[0] == "#disc":
                    x = v[1]
                    if isinstance(x, Agg) and x.disc is not None:
                        r = x.disc
                    elif isinstance(x, Agg) and x.base is not None:
                        r = atom_lin(ip.A.get(x.base[1] + ("#disc",), lo, hi))
                    elif not isinstance(x, Agg) and x[0] == "Y":
                        r = atom_lin(ip.A.get(x[1] + ("#disc",), lo, hi))
                elif not isinstance(v, Agg):
                    if v[0] == "I":
                        r = v[1]
                    elif v[0] == "Y":
                        r = atom_lin(ip.A.get(v[1], lo, hi))
                elif isinstance(v, Agg) and v.disc is not None and False:
                    r = v.disc
        if r is None:
            nm = ("c",) + self.site + (a,)
            i = ip.A.get(nm, lo, hi)
            if nm not in ip.imported:
                ip.imported.add(nm)
                for f in ip.A.axioms.get(a, ()):
                    if all(x == a or x in self.memo or ip.A.names[x][0] != "arg" for x, _ in f[1]):
                        pass
            ip.forget(self.cx.st, i)
            r = atom_lin(i)
            self.memo[a] = r
            for f in list(ip.A.axioms.get(a, ())):
                self.cx.st.fs.add(self.lin(f))
            return r
        self.memo[a] = r
        return r

    def lin(self, l):
        if not l[1]:
            return l
        r = (l[0], ())
        for a, k in l[1]:
            r = add(r, self.atom(a), k)
        return r

    def cond(self, fl):
        out = []
        for f in fl:
            if f is False:
                out.append(False)
            elif f[0] in ("eqv", "nev"):
                l = self.atom(f[1])
                if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                    na, k = l[1][0]
                    out.append((f[0], na, (f[2] - l[0]) * k))
                elif not l[1]:
                    if f[0] == "eqv" and l[0] != f[2]:
                        out.append(False)
                    if f[0] == "nev" and l[0] == f[2]:
                        out.append(False)
            elif f[0] == "neq":
                l = self.lin(f[1])
                if l[1]:
                    out.append(("neq", l))
                elif l[0] == 0:
                    out.append(False)
            else:
                out.append(self.lin(f))
        return tuple(out)

    def name(self, n):
        if n and n[0] == "arg":
            return None
        return ("c",) + self.site + (self.ip.intern(n),)

    def root(self, root):
        """callee object root -> caller location"""
        nm = root[1]
        if nm and nm[0] == "arg":
            v = self.path_value(nm)
            if v is not None:
                return self.ip.deref(self.st, v if isinstance(v, Agg) or v[0] != "#len" else v[1], self.reft(root[2]), None) if not (not isinstance(v, Agg) and v[0] == "Y") else ("loc", ("o", v[1], root[2]), ())
            return ("val", None)
        if nm and nm[0] == "arg":
            return ("val", None)
        return ("loc", ("o", self.name(nm), root[2]), ())

    def reft(self, pt):
        return None

    def val(self, v):
        ip = self.ip
        if isinstance(v, Agg):
            f = {k: self.val(x) for k, x in v.f.items()}
            d = self.lin(v.disc) if v.disc is not None else None
            base = None
            if v.base is not None:
                b = self.val(v.base)
                if isinstance(b, Agg):
                    nf = dict(b.f)
                    nf.update(f)
                    return Agg(v.ty, nf, d if d is not None else b.disc, b.base)
                base = b if b[0] == "Y" else ("Y", ("c",) + self.site + ("lost", ip.intern(v.base[1])), v.ty)
            return Agg(v.ty, f, d, base)
        t = v[0]
        if t == "I":
            return I(self.lin(v[1]))
        if t == "S":
            return ("S", self.lin(v[1]), v[2])
        if t == "Y":
            if v[1] and v[1][0] == "arg":
                x = self.path_value(v[1])
                if x is not None and not (isinstance(x, tuple) and x[0] in ("#len", "#disc")):
                    if not isinstance(x, Agg) and x[0] == "Y" and x[2] is None:
                        return ("Y", x[1], v[2])
                    return x
                return ("Y", ("c",) + self.site + (ip.intern(v[1]),), v[2])
            return ("Y", self.name(v[1]), v[2])
        if t == "R":
            loc = self.root(v[1]) if v[1][0] == "o" else None
            if loc is None or loc[0] == "val":
                if loc is not None and loc[1] is not None:
                    x = loc[1]
                    for key, tt in v[2]:
                        x = ip.project(x, key, tt)
                    if not isinstance(x, Agg) and x[0] == "S":
                        return x
                    return ("Y", ("c",) + self.site + (ip.intern(("r", v[1], v[2])),), None)
                return ("Y", ("c",) + self.site + (ip.intern(("r", v[1], v[2])),), None)
            return ("R", loc[1], loc[2] + v[2])
        if t == "C":
            return ("C", v[1], tuple(self.val(x) for x in v[2]))
        if t == "IT":
            return ip.models.tr_iter(self, v)
        if t == "N":
            return v
        return v


Interp.imported = set()
Interp._intern = {}


def _intern(self, n):
    i = self._intern.get(n)
    if i is None:
        i = len(self._intern)
        self._intern[n] = i
    return ("#", i)


Interp.intern = _intern
