"""Binary reader semantics on top of the decision tables.

Byte slices are regions (root, start, end) of an input with linear start and end; integers decoded from them are
("rd", byte order, width, kind, root, offset) terms, whichever of nom, std or bytes decodes them; nom's primitives and
combinators and std's slice operations follow their documented meaning, with one path per outcome."""
import lin as L
from linterm import LT, NARROW, SHRINK
from table import Tab, State, k, isk, some, NONE, UNIT, ok, err, INT
from terms import calls, cname

BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128,
        "f32": 32, "f64": 64, "char": 32, "bool": 8}
NUM = {"u8": (1, "u"), "i8": (1, "i"), "f32": (4, "f"), "f64": (8, "f")}
for _n in (2, 3, 4, 8, 16):
    NUM["u%d" % (_n * 8)] = (_n, "u")
    NUM["i%d" % (_n * 8)] = (_n, "i")
CUR = "std::io::Cursor"
INC = "nom::Err"
ERRSYM = ("sym", "nom-error")


def lit(t):
    """a constant byte string"""
    if isk(t):
        if isinstance(t[1], bytes):
            return t[1]
        if isinstance(t[1], str):
            return t[1].encode("latin-1", "replace") if all(ord(c) < 256 for c in t[1]) else t[1].encode()
    if t[0] == "agg" and t[1] == "[]" and all(isk(e) and isinstance(e[1], int) and 0 <= e[1] < 256 for e in t[3]):
        return bytes(e[1] for e in t[3])
    return None


class RLT(LT):
    def __init__(self):
        super().__init__()
        self.term = {}
        self.shrunk = set()

    def atom(self, t):
        if t[0] == "rd" and t not in self.hi:
            if t[3] == "u":
                self.hi[t] = (1 << (8 * t[2])) - 1
            else:
                self.signed.add(t)
        elif t[0] == "len" and t not in self.hi:
            self.hi[t] = (1 << 63) - 1
        elif t[0] == "cast" and t not in self.hi and t[3] in INT:
            lo, hi = INT[t[3]]
            if lo < 0:
                self.signed.add(t)
            else:
                self.hi[t] = hi
        elif t[0] == "op" and t[1] == "BitAnd" and t not in self.hi:
            for x in t[2:]:
                if isk(x):
                    self.hi[t] = x[1]
        elif t[0] == "op" and t[1] == "Shr" and t not in self.hi and isk(t[3]):
            b = self.maxval(t[2])
            if b is not None:
                self.hi[t] = b >> t[3][1]
        x = super().atom(t)
        self.term[x[1][0][0]] = t
        return x

    def intlike(self, t):
        return t[0] == "rd" and t[3] != "f" or super().intlike(t)

    def maxval(self, t):
        if isk(t) and isinstance(t[1], int):
            return t[1] if t[1] >= 0 else None
        if t[0] == "rd":
            return (1 << (8 * t[2])) - 1 if t[3] == "u" else None
        if t[0] == "cast" and t[3] in INT:
            m = self.maxval(t[2])
            h = INT[t[3]][1]
            return m if m is not None and m <= h else h if INT[t[3]][0] == 0 else None
        if t[0] == "op" and t[1] == "BitAnd":
            ms = [m for m in (self.maxval(x) for x in t[2:]) if m is not None]
            return min(ms) if ms else None
        if t[0] == "op" and t[1] == "Shr" and isk(t[3]):
            m = self.maxval(t[2])
            return m >> t[3][1] if m is not None else None
        if t[0] == "from":
            return self.maxval(t[1])
        if t[0] == "len":
            return (1 << 63) - 1
        return None

    def lin(self, t):
        if t[0] == "cast" and t[1] == "IntToInt":
            if t not in NARROW:
                return self.lin(t[2])
            m = self.maxval(t[2])
            if m is not None and t[3] in INT and m <= INT[t[3]][1]:
                return self.lin(t[2])
            x = self.atom(t)
            if t in SHRINK and t not in self.shrunk:
                self.shrunk.add(t)
                self.A.axiom(L.sub(self.lin(t[2]), x))
            return x
        return super().lin(t)



class Reader(Tab):
    def __init__(self, facts, **kw):
        self.oob = kw.pop("oob", None)
        super().__init__(facts, **kw)
        self.lt = RLT()

    # ---- integers and regions
    def I(self, t):
        x = self.lt.lin(t)
        return k(x[0]) if not x[1] else ("lin", x)

    def li(self, x):
        return k(x[0]) if not x[1] else ("lin", x)

    def input(self, name):
        s = ("sym", name)
        return ("slc", s, k(0), ("lin", self.lt.lin(("len", s))))

    def slc(self, x):
        """x as a region, or None when it is not a byte region"""
        if x[0] == "slc":
            return x
        if x[0] == "from":
            return self.slc(x[1])
        return None

    def start(self, x):
        return self.lt.lin(x[2])

    def end(self, x):
        return self.lt.lin(x[3])

    def sub(self, x, a=None, b=None):
        """region of x from relative offset a to relative offset b"""
        s = self.start(x)
        return ("slc", x[1], self.li(L.add(s, a)) if a is not None else x[2], self.li(L.add(s, b)) if b is not None else x[3])

    def avail(self, x):
        return L.sub(self.end(x), self.start(x))

    def rd(self, x, off, w, kind, order):
        return ("rd", order if w > 1 else "be", w, kind, x[1], self.li(L.add(self.start(x), off)))

    def length(self, a):
        if a[0] == "slc":
            return self.li(self.avail(a))
        return super().length(a)

    def proj1(self, v, p):
        if v[0] == "slc" and p[0] in ("ci", "i", "cif"):
            if p[0] == "cif":
                return ("rd", "be", 1, "u", v[1], self.li(L.addc(self.end(v), -p[1])))
            off = L.const(p[1]) if p[0] == "ci" else self.lt.lin(p[1])
            return self.rd(v, off, 1, "u", "be")
        return super().proj1(v, p)

    # ---- conditions
    def when(self, st, g):
        """states in which g >= 0 holds / does not hold: [(truth, state)]"""
        if not g[1]:
            return [(g[0] >= 0, st)]
        fs = self.lt.facts(st)
        if self.lt.entails(g, fs):
            return [(True, st)]
        neg = L.addc(L.scale(g, -1), -1)
        if self.lt.entails(neg, fs):
            return [(False, st)]
        out = []
        c = ("op", "Ge", ("lin", g), k(0))
        for v in (1, 0):
            s = st.assume(c, v)
            if s is not None:
                out.append((v == 1, s))
        return out

    def need(self, st, what, *gs):
        """records an access whose bounds do not follow from the path"""
        fs = None
        for g in gs:
            if not g[1]:
                if g[0] < 0:
                    st = self.event(st, ("oob", what, ("lin", g)))
                continue
            fs = fs or self.lt.facts(st)
            if not self.lt.entails(g, fs):
                st = self.event(st, ("oob", what, ("lin", g)))
                s = st.assume(("op", "Ge", ("lin", g), k(0)), 1)
                if s is not None:
                    st = s
                fs = None
        return st

    def range_of(self, x, rng):
        """(a, b) relative offsets of a range value, None when unknown"""
        if rng[0] == "agg":
            n = rng[1].rsplit("::", 1)[-1]
            f = rng[3]
            if n == "Range":
                return self.lt.lin(f[0]), self.lt.lin(f[1])
            if n == "RangeFrom":
                return self.lt.lin(f[0]), self.avail(x)
            if n == "RangeTo":
                return L.const(0), self.lt.lin(f[0])
            if n == "RangeFull":
                return L.const(0), self.avail(x)
            if n == "RangeToInclusive":
                return L.const(0), L.addc(self.lt.lin(f[0]), 1)
            if n == "RangeInclusive":
                return self.lt.lin(f[0]), L.addc(self.lt.lin(f[1]), 1)
        return None

    CMP = {"Lt": (-1, 1, -1), "Le": (-1, 1, 0), "Gt": (1, -1, -1), "Ge": (1, -1, 0)}

    def intish(self, t):
        if t[0] in ("lin", "rd", "len"):
            return True
        if isk(t):
            return isinstance(t[1], int)
        if t[0] == "op" and t[1] in ("Add", "Sub", "Mul"):
            return self.intish(t[2]) and self.intish(t[3])
        if t[0] in ("cast", "from"):
            return self.intish(t[2] if t[0] == "cast" else t[1])
        return False

    def truth(self, st, d):
        """the value of a comparison when the path decides it, else None"""
        if d[0] != "op" or len(d) != 4:
            return None
        op, a, b = d[1:]
        if op in self.CMP and self.intish(a) and self.intish(b):
            sa_, sb, c = self.CMP[op]
            g = L.addc(L.add(L.scale(self.lt.lin(a), sa_), L.scale(self.lt.lin(b), sb)), c)
            if not g[1]:
                return g[0] >= 0
            fs = self.lt.facts(st)
            if self.lt.entails(g, fs):
                return True
            if self.lt.entails(L.addc(L.scale(g, -1), -1), fs):
                return False
            return None
        if op in ("Eq", "Ne"):
            r = None
            if self.intish(a) and self.intish(b):
                g = L.sub(self.lt.lin(a), self.lt.lin(b))
                if not g[1]:
                    r = g[0] == 0
                elif a[0] in ("lin", "len", "op") or b[0] in ("lin", "len", "op"):
                    fs = self.lt.facts(st)
                    if self.lt.entails(L.addc(g, -1), fs) or self.lt.entails(L.addc(L.scale(g, -1), -1), fs):
                        r = False
                    elif self.lt.entails(g, fs) and self.lt.entails(L.scale(g, -1), fs):
                        r = True
            else:
                if lit(a) is not None:
                    a, b = b, a
                y = lit(b)
                if a[0] == "slc" and y is not None:
                    r = self.bytes_are(st, a, y)
            return None if r is None else r == (op == "Eq")
        return None

    def bytes_are(self, st, x, y):
        """whether region x holds exactly the bytes y, when the path decides it"""
        n = self.avail(x)
        if not n[1] and n[0] != len(y):
            return False
        fs = self.lt.facts(st)
        same_len = not n[1] or (self.lt.entails(L.addc(n, -len(y)), fs) and self.lt.entails(L.addc(L.scale(n, -1), len(y)), fs))
        if not same_len and (self.lt.entails(L.addc(n, -len(y) - 1), fs) or self.lt.entails(L.addc(L.scale(n, -1), len(y) - 1), fs)):
            return False
        eq, ne = known_bytes(self, st)
        o = self.start(x)
        got = {}
        for root, off, b in eq:
            if root == x[1]:
                dd = L.sub(off, o)
                if not dd[1]:
                    for i, c in enumerate(b):
                        got[dd[0] + i] = c
        if any(got.get(i, c) != c for i, c in enumerate(y)):
            return False
        if same_len and all(i in got for i in range(len(y))):
            return True
        for root, off, b in ne:
            if root == x[1] and b == y and off == o:
                return False
        return None

    def struct_eq(self, x, y):
        if y[0] == "latin1":
            x, y = y, x
        if x[0] == "latin1":
            # a string made of a region's bytes, one character each
            b = lit(y) if isk(y) and isinstance(y[1], str) and all(ord(c) < 256 for c in y[1]) else None
            if b is not None:
                x, y = x[1], k(b)
            elif y[0] == "latin1":
                x, y = x[1], y[1]
        return super().struct_eq(x, y)

    def branch(self, st, d, tgts, ty):
        e, neg = d, False
        while e[0] == "op" and e[1] == "Not":
            e, neg = e[2], not neg
        v = self.truth(st, e)
        if v is not None:
            v = str(int(v != neg))
            yield (v if v in tgts else None), st
            return
        yield from super().branch(st, d, tgts, ty)

    def binop(self, op, a, b):
        v = super().binop(op, a, b)
        if v[0] == "op" and op in ("Add", "Sub") and (a[0] == "lin" or b[0] == "lin" or a[0] == "len" or b[0] == "len") and self.intish(a) and self.intish(b):
            x = self.lt.lin(v)
            return k(x[0]) if not x[1] else ("lin", x)
        if v[0] == "agg" and v[1] == "()" and op[:3] in ("Add", "Sub") and v[3][0][0] == "op":
            w = self.binop(op[:3], a, b)
            return ("agg", "()", None, (w, v[3][1]))
        return v

    # ---- calls
    def call(self, c, a, st, depth, stack, env, t):
        p = c.path or ""
        g = None
        if p.startswith("nom::"):
            g = self.nom_call(c, a, st, depth, stack, env)
        elif not c.local:
            g = self.std_call(c, a, st, depth, stack, env)
        if g is not None:
            yield from g
            return
        yield from super().call(c, a, st, depth, stack, env, t)

    def R(self, x, env):
        return self.resolve_refs(x, env)

    def std_call(self, c, a, st, depth, stack, env):
        n = c.name
        r = [self.R(x, env) for x in a]
        x = self.slc(r[0]) if r else None
        if r and r[0][0] == "agg" and r[0][1] == CUR:
            return self.cursor_call(c, a, r, st, env)
        if n == "new" and (c.path or "").endswith("Cursor::<T>::new") and x:
            return iter([(st, ("agg", CUR, None, (x, k(0))), None, 0)])
        if n in ("try_into", "try_from") and x and len(r) == 1:
            full = c.full or ""
            if "[u8;" in full or "; 1]" in full or "[T;" in full or ("[" in full and ";" in full):
                def g():
                    yield st, ok(x), None, 0
                    yield st.assume(("op", "Eq", ("len", x), ("sym", "array-size")), 0) or st, err(("sym", "try-from-slice-error")), None, 0
                return g()
        for pre, order in (("from_be_bytes", "be"), ("from_le_bytes", "le")):
            if n == pre and r:
                ty = (c.path or "").split("impl ")[-1].split(">")[0]
                if ty in NUM:
                    w, kd = NUM[ty]
                    if x:
                        return iter([(st, self.rd(x, L.const(0), w, kd, order), None, 0)])
                    v = r[0]
                    if v[0] == "agg" and v[1] == "[]" and len(v[3]) == w:
                        j = self.join(v[3], order, kd)
                        if j:
                            return iter([(st, j, None, 0)])
        if n in ("index", "get") and len(r) == 2 and r[0][0] == "agg" and r[0][1] == "[]" and r[1][0] == "agg":
            rn = r[1][1].rsplit("::", 1)[-1]
            f = [y[1] if isk(y) and isinstance(y[1], int) else None for y in r[1][3]]
            el = r[0][3]
            if None not in f:
                ab = {"RangeFull": lambda: (0, len(el)), "Range": lambda: (f[0], f[1]), "RangeFrom": lambda: (f[0], len(el)), "RangeTo": lambda: (0, f[0]),
                      "RangeToInclusive": lambda: (0, f[0] + 1), "RangeInclusive": lambda: (f[0], f[1] + 1)}.get(rn)
                if ab:
                    lo, hi = ab()
                    if lo <= hi <= len(el):
                        y = ("agg", "[]", None, tuple(el[lo:hi]))
                        return iter([(st, y if n == "index" else some(y), None, 0)])
        if r and r[0][0] == "siter":
            if n == "map" and len(a) == 2:
                probe = ("rd", "be", 1, "u", r[0][1][1], ("sym", "each"))
                vs = [v for _, v, _, _ in self.apply(a[1], [probe], st, depth, stack, env)]
                while len(vs) == 1 and vs[0][0] in ("from", "into"):
                    vs = [("cast", "IntToInt", vs[0][1], "char")]
                if len(vs) == 1 and (vs[0][0] == "cast" and vs[0][2] == probe and vs[0][3] == "char" or
                                     vs[0][0] == "call" and "char" in vs[0][1] and vs[0][1].endswith("::from") and vs[0][2] == (probe,)):
                    return iter([(st, ("sitchar", r[0][1]), None, 0)])
            if n in ("copied", "cloned", "into_iter", "by_ref"):
                return iter([(st, r[0], None, 0)])
        if r and r[0][0] == "sitchar" and n == "collect" and "String" in (c.full or ""):
            return iter([(st, ("latin1", r[0][1]), None, 0)])
        if r and r[0][0] == "latin1" and n in ("as_str", "deref", "as_ref", "borrow", "to_string", "to_owned", "clone", "into", "as_mut_str"):
            return iter([(st, r[0], None, 0)])
        if x is None:
            return None
        if n == "iter" and len(r) == 1:
            return iter([(st, ("siter", x), None, 0)])
        if n in ("index", "index_mut", "get", "get_unchecked") and len(r) == 2:
            rg = self.range_of(x, r[1])
            if rg is None:
                if r[1][0] == "agg":
                    return None
                off = self.lt.lin(r[1])
                v = self.rd(x, off, 1, "u", "be")
                if n == "get":
                    return iter([(s, some(v) if tv else NONE, None, 0) for tv, s in self.when(st, L.addc(L.sub(self.avail(x), off), -1))])
                return iter([(self.need(st, n, L.addc(L.sub(self.avail(x), off), -1)), v, None, 0)])
            lo, hi = rg
            y = self.sub(x, lo, hi)
            if n == "get":
                def g():
                    for tv, s in self.when(st, L.sub(self.avail(x), hi)):
                        if not tv:
                            yield s, NONE, None, 0
                            continue
                        for tv2, s2 in self.when(s, L.sub(hi, lo)):
                            yield s2, some(y) if tv2 else NONE, None, 0
                return g()
            return iter([(self.need(st, n, L.sub(hi, lo), L.sub(self.avail(x), hi)), y, None, 0)])
        if n in ("split_at", "split_at_checked") and len(r) == 2:
            m = self.lt.lin(r[1])
            y = ("agg", "()", None, (self.sub(x, None, m), self.sub(x, m)))
            if n == "split_at":
                return iter([(self.need(st, n, L.sub(self.avail(x), m)), y, None, 0)])
            return iter([(s, some(y) if tv else NONE, None, 0) for tv, s in self.when(st, L.sub(self.avail(x), m))])
        if n in ("first", "last") and len(r) == 1:
            off = L.const(0) if n == "first" else L.addc(self.avail(x), -1)
            return iter([(s, some(self.rd(x, off, 1, "u", "be")) if tv else NONE, None, 0) for tv, s in self.when(st, L.addc(self.avail(x), -1))])
        if n == "is_empty":
            return iter([(s, k(0 if tv else 1), None, 0) for tv, s in self.when(st, L.addc(self.avail(x), -1))])
        if n in ("to_vec", "to_owned", "as_slice", "as_ref", "deref", "borrow", "as_bytes", "clone", "into_boxed_slice", "into_vec", "chunk", "into", "copy_from_slice") and len(r) == 1:
            return iter([(st, x, None, 0)])
        if n == "from" and len(r) == 1 and ("Vec" in (c.full or "") or "Bytes" in (c.full or "")):
            return iter([(st, x, None, 0)])
        if n == "starts_with" and len(r) == 2:
            b = lit(r[1])
            if b is not None:
                y = self.sub(x, None, L.const(len(b)))

                def g():
                    for tv, s in self.when(st, L.addc(self.avail(x), -len(b))):
                        if not tv:
                            yield s, k(0), None, 0
                            continue
                        yield s, ("op", "Eq", y, k(b)), None, 0
                return g()
        if n == "find_substring" and len(r) == 2:
            b = lit(r[1])
            v = ("find", x, k(b) if b is not None else r[1])
            out = []
            for val in (1, 0):
                s = st.assume(("found",) + v[1:], val)
                if s is not None:
                    out.append((s, some(("fld", ("as", v, 1), 0)) if val else NONE, None, 0))
            return iter(out)
        return None

    def join(self, parts, order, kind):
        """the integer made of consecutive bytes, when they are consecutive"""
        ps = list(parts)
        if all(p[0] == "rd" and p[2] == 1 for p in ps):
            o0 = self.lt.lin(ps[0][5])
            if all(p[4] == ps[0][4] and self.lt.lin(p[5]) == L.addc(o0, i) for i, p in enumerate(ps)):
                return ("rd", order, len(ps), kind, ps[0][4], ps[0][5])
            if order == "be" and isk(ps[0], ) and ps[0][1] == 0:
                pass
        if order == "be" and len(ps) > 1 and isk(ps[0]) and ps[0][1] == 0:
            return self.join(ps[1:], order, kind)
        return None

    # ---- std::io::Cursor over a region
    def cursor_call(self, c, a, r, st, env):
        n = c.name
        x, pos = r[0][3]
        P = self.lt.lin(pos)
        raw = a[0]

        def upd(newpos, val, s=None):
            e = self._set(env, raw, ("agg", CUR, None, (x, self.li(newpos))))
            return (s or st, val, e, 0)
        left = L.sub(self.avail(x), P)
        if n == "position":
            return iter([(st, self.li(P), None, 0)])
        if n == "set_position":
            return iter([upd(self.lt.lin(r[1]), UNIT)])
        if n in ("get_ref", "into_inner"):
            return iter([(st, x, None, 0)])
        if n == "remaining":
            def g():
                for tv, s in self.when(st, left):
                    yield s, self.li(left) if tv else k(0), None, 0
            return g()
        if n == "has_remaining":
            return iter([(s, k(int(tv)), None, 0) for tv, s in self.when(st, L.addc(left, -1))])
        if n in ("chunk", "remaining_slice", "fill_buf"):
            def g():
                for tv, s in self.when(st, left):
                    v = self.sub(x, P) if tv else self.sub(x, self.avail(x))
                    yield s, ok(v) if n == "fill_buf" else v, None, 0
            return g()
        if n in ("consume", "advance"):
            k_ = self.lt.lin(r[1])
            s = st if n == "consume" else self.need(st, n, L.sub(left, k_))
            return iter([upd(L.add(P, k_), UNIT, s)])
        if n.startswith("get_") and n[4:].replace("_le", "") in NUM:
            w, kd = NUM[n[4:].replace("_le", "")]
            s = self.need(st, n, L.addc(left, -w))
            return iter([upd(L.addc(P, w), self.rd(x, P, w, kd, "le" if n.endswith("_le") else "be"), s)])
        if n == "read_exact" and len(a) == 2:
            tgt = a[1]
            ln = self.lt.lin(self.length(r[1]))
            if tgt[0] == "lref" or (r[1][0] == "agg" and r[1][1] == "[]"):
                def g():
                    for tv, s in self.when(st, L.sub(left, ln)):
                        if not tv:
                            yield s, err(("sym", "eof")), None, 0
                            continue
                        e = self._set(env, raw, ("agg", CUR, None, (x, self.li(L.add(P, ln)))))
                        if tgt[0] == "lref" and not ln[1]:
                            e2 = self._set(e or env, tgt, ("agg", "[]", None, tuple(self.rd(x, L.addc(P, i), 1, "u", "be") for i in range(ln[0]))))
                            e = e2 or e
                        yield s, ok(UNIT), e, 0
                return g()
        return None

    # ---- nom
    def incomplete(self, n):
        """Err::Incomplete(Needed::Size(n)); n linear"""
        return err(("agg", INC, 0, (("agg", "nom::Needed", 1, (self.li(n),)),)))

    def nomerr(self, v=1):
        return err(("agg", INC, v, (ERRSYM,)))

    def nom_ok(self, rest, v):
        return ok(("agg", "()", None, (rest, v)))

    def nom_call(self, c, a, st, depth, stack, env):
        p, n = c.path, c.name
        r = [self.R(x, env) for x in a]
        if n == "parse" and c.trait == "nom::Parser":
            return self.parse(a[0], r[1], st, depth, stack, env)
        if n in ("take", "tag", "take_till", "take_while", "map_res", "map", "verify", "cond", "context", "fail", "alt", "many_m_n", "many0", "many1", "count",
                 "many_till", "flat_map", "tuple", "pair", "preceded", "terminated", "opt", "map_opt", "value", "success", "rest", "length_data", "all_consuming", "complete", "recognize", "peek"):
            return iter([(st, ("nomp", p, tuple(a)), None, 0)])
        if p.startswith("nom::number::") and n in NUM | {"be_" + x: 0 for x in NUM} | {"le_" + x: 0 for x in NUM}:
            if len(r) == 1 and r[0][0] != "slc" and self.slc(r[0]) is None and n in NUM and NUM[n][0] > 1:
                return iter([(st, ("nomp", p, tuple(r)), None, 0)])
            x = self.slc(r[0])
            if x is not None:
                return self.number(p, n, None, x, st)
            return None
        if n == "find_substring":
            return self.std_call(c, a, st, depth, stack, env)
        if n == "as_char":
            return iter([(st, ("cast", "char", r[0], "char"), None, 0)])
        if n == "is_incomplete":
            v = r[0]
            if v[0] == "agg" and v[1] == INC:
                return iter([(st, k(int(v[2] == 0)), None, 0)])
        if n == "new" and p.startswith("nom::Needed"):
            def g():
                for tv, s in self.when(st, L.addc(self.lt.lin(r[0]), -1)):
                    yield s, ("agg", "nom::Needed", 1, (r[0],)) if tv else ("agg", "nom::Needed", 0, ()), None, 0
            return g()
        return None

    def number(self, p, n, order, x, st):
        base = n[3:] if n[:3] in ("be_", "le_") else n
        w, kd = NUM[base]
        if order is None:
            order = n[:2] if n[:3] in ("be_", "le_") else "be"
        streaming = "streaming" in p
        left = self.avail(x)
        for tv, s in self.when(st, L.addc(left, -w)):
            if tv:
                yield s, self.nom_ok(self.sub(x, L.const(w)), self.rd(x, L.const(0), w, kd, order)), None, 0
            else:
                yield s, (self.incomplete(L.sub(L.const(w), left)) if streaming else self.nomerr()), None, 0

    def parse(self, praw, inp, st, depth, stack, env):
        """applies a parser value to an input; yields (state, IResult, env, 0)"""
        P = self.R(praw, env)
        x = self.slc(inp)
        if P[0] == "agg" and P[1] == "()":
            yield from self.seq(list(P[3]), inp, st, depth, stack, env, ())
            return
        if P[0] != "nomp":
            for s, v, e, _ in self.apply(praw, [inp], st, depth, stack, env):
                yield s, v, e, 0
            return
        n = P[1].rsplit("::", 1)[-1]
        args = P[2]
        streaming = "streaming" in P[1]
        ra = [self.R(y, env) for y in args]
        if n in NUM and x is not None:
            e = ra[0]
            order = e
            if e[0] == "agg" and e[2] in (0, 1):
                order = ("be", "le")[e[2]]
            else:
                order = ("endian", e)
            yield from self.number(P[1], n, order, x, st)
            return
        if n == "take" and x is not None:
            m = self.lt.lin(ra[0])
            left = self.avail(x)
            for tv, s in self.when(st, L.sub(left, m)):
                if tv:
                    yield s, self.nom_ok(self.sub(x, m), self.sub(x, None, m)), None, 0
                else:
                    yield s, (self.incomplete(L.sub(m, left)) if streaming else self.nomerr()), None, 0
            return
        if n == "tag" and x is not None and lit(ra[0]) is not None:
            b = lit(ra[0])
            left = self.avail(x)
            y = self.sub(x, None, L.const(len(b)))
            for tv, s in self.when(st, L.addc(left, -len(b))):
                if tv:
                    for val in (1, 0):
                        s2 = s.assume(("op", "Eq", y, k(b)), val)
                        if s2 is not None:
                            yield s2, (self.nom_ok(self.sub(x, L.const(len(b))), y) if val else self.nomerr()), None, 0
                else:
                    yield s, self.nomerr(), None, 0
                    if streaming:
                        yield s, self.incomplete(L.sub(L.const(len(b)), left)), None, 0
            return
        if n in ("map", "map_res", "verify", "map_opt"):
            for s, v, e in self.sub_parse(args[0], inp, st, depth, stack, env):
                t, pl = self.ires(v)
                if t != "ok":
                    yield s, v, e, 0
                    continue
                rest, val = pl
                for s2, y, e2, _ in self.apply(args[1], [val], s, depth, stack, e if e is not None else env):
                    e3 = e2 if e2 is not None else e
                    if n == "map":
                        yield s2, self.nom_ok(rest, y), e3, 0
                    elif n == "verify":
                        for tv, s3 in self.branch(s2, y, ["0", "1"], {"k": "bool"}):
                            yield s3, self.nom_ok(rest, val) if tv == "1" else self.nomerr(), e3, 0
                    else:
                        for i, pl2, s3 in (self._res(y, s2) if n == "map_res" else self._opt(y, s2)):
                            good = (i == 0) if n == "map_res" else (i == 1)
                            yield s3, self.nom_ok(rest, pl2) if good else self.nomerr(), e3, 0
            return
        if n == "flat_map":
            for s, v, e in self.sub_parse(args[0], inp, st, depth, stack, env):
                t, pl = self.ires(v)
                if t != "ok":
                    yield s, v, e, 0
                    continue
                for s2, q, e2, _ in self.apply(args[1], [pl[1]], s, depth, stack, e if e is not None else env):
                    for s3, v3, e3, _ in self.parse(q, pl[0], s2, depth, stack, e2 or e or env):
                        yield s3, v3, e3 or e2 or e, 0
            return
        if n == "cond":
            for tv, s in self.branch(st, ra[0], ["0", "1"], {"k": "bool"}):
                if tv != "1":
                    yield s, self.nom_ok(inp, NONE), None, 0
                    continue
                for s2, v, e in self.sub_parse(args[1], inp, s, depth, stack, env):
                    t, pl = self.ires(v)
                    yield s2, self.nom_ok(pl[0], some(pl[1])) if t == "ok" else v, e, 0
            return
        if n == "opt":
            for s2, v, e in self.sub_parse(args[0], inp, st, depth, stack, env):
                t, pl = self.ires(v)
                if t == "ok":
                    yield s2, self.nom_ok(pl[0], some(pl[1])), e, 0
                elif t == "error":
                    yield s2, self.nom_ok(inp, NONE), e, 0
                else:
                    yield s2, v, e, 0
            return
        if n == "context":
            yield from self.parse(args[1], inp, st, depth, stack, env)
            return
        if n == "fail":
            yield st, self.nomerr(), None, 0
            return
        if n == "alt" and ra[0][0] == "agg":
            yield from self.alt(list(ra[0][3]), inp, st, depth, stack, env)
            return
        if n in ("many0", "many_m_n", "count", "many_till", "many1"):
            yield from self.many(n, P, args, ra, inp, st, depth, stack, env)
            return
        if n in ("take_till", "take_while") and x is not None:
            self.uniq += 1
            m = ("sym", "till%d" % self.uniq)
            self.lt.hi[m] = (1 << 63) - 1
            M = self.lt.lin(m)
            left = self.avail(x)
            s = st.assume(("op", "Ge", ("lin", L.addc(L.sub(left, M), -1 if streaming else 0)), k(0)), 1)
            s = self.event(s, (n, x, m, self.R(args[0], env)))
            yield s, self.nom_ok(self.sub(x, M), self.sub(x, None, M)), None, 0
            if streaming:
                yield st, self.incomplete(L.const(1)), None, 0
            return
        self.uniq += 1
        yield self.event(st, ("call", P[1], (P, inp))), ("call", P[1], (P, inp), self.uniq), None, 0

    def sub_parse(self, praw, inp, st, depth, stack, env):
        for s, v, e, _ in self.parse(praw, inp, st, depth, stack, env):
            if v[0] == "agg" or v[0] == "diverge":
                yield s, v, e
                continue
            # an opaque result: split it
            for i, pl, s2 in self._res(v, s):
                if i == 0:
                    yield s2, ok(("agg", "()", None, (("fld", pl, 0), ("fld", pl, 1)))), e
                else:
                    yield s2, err(pl), e

    def ires(self, v):
        """('ok', (rest, value)) | ('error'|'incomplete'|'failure'|'err', payload)"""
        if v[0] == "agg" and v[1] == "std::result::Result":
            pl = v[3][0]
            if v[2] == 0:
                if pl[0] == "agg":
                    return "ok", pl[3]
                return "ok", (("fld", pl, 0), ("fld", pl, 1))
            while pl[0] == "from":
                pl = pl[1]
            if pl[0] == "agg" and pl[1] == INC:
                return ("incomplete", "error", "failure")[pl[2]], pl
            return "err", pl
        return "?", v

    def seq(self, ps, inp, st, depth, stack, env, acc):
        if not ps:
            yield st, self.nom_ok(inp, ("agg", "()", None, acc)), env, 0
            return
        for s, v, e in self.sub_parse(ps[0], inp, st, depth, stack, env):
            t, pl = self.ires(v)
            if t != "ok":
                yield s, v, e, 0
                continue
            yield from self.seq(ps[1:], pl[0], s, depth, stack, e if e is not None else env, acc + (pl[1],))

    def alt(self, ps, inp, st, depth, stack, env):
        for s, v, e in self.sub_parse(ps[0], inp, st, depth, stack, env):
            t, pl = self.ires(v)
            if t == "error" and len(ps) > 1:
                yield from self.alt(ps[1:], inp, s, depth, stack, e if e is not None else env)
            else:
                yield s, v, e, 0

    def many(self, n, P, args, ra, inp, st, depth, stack, env):
        """repetition: the element parser runs once, from an arbitrary place of the input; the list is named by the repetition"""
        self.uniq += 1
        i = self.uniq
        x = self.slc(inp)
        parser = args[-1] if n in ("many0", "many1", "many_m_n") else args[0]
        it = inp
        if x is not None:
            at = ("sym", "elem%d" % i)
            s0 = L.add(self.start(x), self.lt.lin(at))
            it = ("slc", x[1], self.li(s0), x[3])
            st0 = st.assume(("op", "Ge", ("lin", L.sub(self.end(x), s0)), k(0)), 1) or st
        else:
            st0 = st
        outs = []
        for s, v, e in self.sub_parse(parser, it, st0, depth, stack, env):
            outs.append((s, v))
        self.repeats = getattr(self, "repeats", {})
        self.repeats[i] = (n, tuple(ra[:-1]) if n in ("many_m_n",) else tuple(ra[1:]), it, outs)
        st1 = self.event(st, ("many", n, i, inp))
        rest = ("slc", x[1], ("lin", L.add(self.start(x), self.lt.lin(("sym", "used%d" % i)))), x[3]) if x is not None else ("sym", "rest%d" % i)
        yield st1, self.nom_ok(rest, ("manyv", i)), None, 0
        seen = set()
        for s, v in outs:
            t, pl = self.ires(v)
            if t in ("incomplete", "failure") or (t == "error" and n != "many0"):
                if t not in seen:
                    seen.add(t)
                    yield st1, v, None, 0

    # ---- applying parsers as functions: take(4)(input)
    def apply(self, fv, args, st, depth, stack, env):
        f = self.resolve_refs(fv, env)
        if f[0] == "nomp" and args:
            yield from self.parse(f, self.resolve_refs(args[0], env), st, depth, stack, env)
            return
        yield from super().apply(fv, args, st, depth, stack, env)

    def m_from_residual(self, c, a, r, st, depth, stack, env):
        v = r[0]
        if v[0] == "agg" and v[1] == "std::result::Result" and v[3]:
            to = (c.full or "").split(" as ")[0]
            pl = v[3][0]
            if pl[0] == "agg" and pl[1] == INC and "nom::Err<" in to:
                return iter([(st, err(pl), None, 0)])
            g = self.convert(c, pl, to, st, depth, stack, env)
            if g is not None:
                return g
        return super().m_from_residual(c, a, r, st, depth, stack, env)

    def convert(self, c, pl, to, st, depth, stack, env):
        """error conversion through a local From implementation"""
        if pl[0] != "agg":
            return None
        bs = []
        for b in self.F.bodies.values():
            if b.kind == "AssocFn" and b.name == "from" and b.path.startswith("<") and b.argc == 1:
                tgt, _, tr = b.path[1:].rpartition(">::")[0].partition(" as ")
                if not tr.startswith("std::convert::From<"):
                    continue
                src = tr[len("std::convert::From<"):-1]
                if src.split("<")[0] != pl[1].split("<")[0]:
                    continue
                if to.rstrip(">").endswith(", " + tgt) or (", " + tgt + ">") in to or to.endswith(tgt + ">"):
                    bs.append((len(tgt), b))
        if not bs:
            # the same type on both sides
            if to.rstrip(">").endswith(pl[1]):
                return iter([(st, err(pl), None, 0)])
            return None
        b = max(bs, key=lambda z: z[0])[1]
        if depth >= self.maxdepth or b.id in stack:
            return None

        def g():
            for s, v, e in self.enter(b, [pl], st, depth + 1, stack + (b.id,), env):
                yield s, (v if v[0] == "diverge" else err(v)), e, 0
        return g()


def known_bytes(T, st):
    """what the path knows about the input's bytes: ([(root, offset lin, bytes)], [(..)]) equal / different"""
    eq, ne = [], []
    for e, c in st.cons.items():
        if not isinstance(e, tuple) or not e:
            continue
        x = b = None
        if e[0] == "op" and e[1] in ("Eq", "Ne") and len(e) == 4 and c in (("=", 1), ("=", 0)):
            pos = (e[1] == "Eq") == (c[1] == 1)
            for p, q in ((e[2], e[3]), (e[3], e[2])):
                if p[0] == "slc" and lit(q) is not None:
                    x, b = p, lit(q)
                    (eq if pos else ne).append((x[1], T.lt.lin(x[2]), b))
                elif p[0] == "rd" and isk(q) and isinstance(q[1], int) and p[3] == "u" and p[1] in ("be", "le") and q[1] >= 0:
                    b = q[1].to_bytes(p[2], "big" if p[1] == "be" else "little") if q[1] < 1 << (8 * p[2]) else None
                    if b is not None:
                        (eq if pos else ne).append((p[4], T.lt.lin(p[5]), b))
        elif e[0] == "slc":
            for v in [c[1]] if c[0] == "=" else list(c[1]):
                b = lit(k(v)) if isinstance(v, (bytes, str)) else None
                if b is not None:
                    (eq if c[0] == "=" else ne).append((e[1], T.lt.lin(e[2]), b))
        elif e[0] == "rd" and e[3] == "u" and e[1] in ("be", "le"):
            vals = [c[1]] if c[0] == "=" else list(c[1])
            for v in vals:
                if isinstance(v, int) and 0 <= v < 1 << (8 * e[2]):
                    (eq if c[0] == "=" else ne).append((e[4], T.lt.lin(e[5]), v.to_bytes(e[2], "big" if e[1] == "be" else "little")))
    return eq, ne
