"""Evaluation of code on inputs of which some bytes are known.

Lay holds, per input, which bytes are known; every other byte is arbitrary. Reads, comparisons and searches that fall within known bytes give
their value, all others stay terms, so that one evaluation stands for every content of the unknown bytes."""
from table import k, isk, NONE, some, State
from maps import Maps
from reader import lit
import lin as L


class Lay:
    def __init__(self):
        self.parts = {}     # base -> [(offset, bytes)]
        self.size = {}      # base -> length

    def add(self, base, items):
        """lays bytes and numbers of unknown bytes one after the other; returns their offsets"""
        off, at = self.size.get(base, 0), []
        for x in items:
            at.append(off)
            if isinstance(x, int):
                off += x
            else:
                self.parts.setdefault(base, []).append((off, bytes(x)))
                off += len(x)
        self.size[base] = off
        return at

    def byte(self, base, i):
        for o, b in self.parts.get(base, ()):
            if o <= i < o + len(b):
                return b[i - o]
        return None

    def bytes(self, base, a, b):
        out = [self.byte(base, i) for i in range(a, b)] if b - a <= 4096 else [None]
        return None if None in out else bytes(out)

    def region(self, base, a=0, b=None):
        return ("slc", base, k(a), k(self.size[base] if b is None else b))


def w_ok(T, x):
    w = T.where(x)
    return w is not None and w[0] in T.lay.size


class Known(Maps):
    boxes = True        # a box is a record of what it holds

    def __init__(self, F, lay, stubs=None, **kw):
        kw.setdefault("max_paths", 20000)
        kw.setdefault("depth", 22)
        kw.setdefault("unroll", 60)
        super().__init__(F, stubs, **kw)
        self.lay = lay

    def where(self, t):
        """(base, start, end) of a region with known bounds"""
        s = self.slc(t)
        if s is None:
            return None
        a, b = self.start(s), self.end(s)
        return (s[1], a[0], b[0]) if not a[1] and not b[1] else None

    def content(self, t):
        w = self.where(t)
        return self.lay.bytes(*w) if w and w[0] in self.lay.size else None

    def rd(self, x, off, w, kind, order):
        v = super().rd(x, off, w, kind, order)
        o = self.lt.lin(v[5])
        if not o[1] and kind in "ui" and v[4] in self.lay.size:
            b = self.lay.bytes(v[4], o[0], o[0] + w)
            if b is not None:
                return k(int.from_bytes(b, "big" if v[1] == "be" else "little", signed=kind == "i"))
        return v

    def proj1(self, v, p):
        if v[0] == "slc" and p[0] == "cif":
            o = L.addc(self.end(v), -p[1])
            if not o[1]:
                return self.rd(("slc", v[1], k(0), v[3]), o, 1, "u", "be")
        return super().proj1(v, p)

    def join(self, parts, order, kind):
        ps = list(parts)
        if ps and all(isk(p) and isinstance(p[1], int) for p in ps):
            return k(int.from_bytes(bytes(p[1] & 255 for p in ps), "big" if order == "be" else "little", signed=kind == "i"))
        return super().join(parts, order, kind)

    def bytes_are(self, st, x, y):
        w = self.where(x)
        if w and w[0] in self.lay.size:
            if w[2] - w[1] != len(y):
                return False
            got = [self.lay.byte(w[0], i) for i in range(w[1], w[2])]
            if any(g is not None and g != c for g, c in zip(got, y)):
                return False
            if None not in got:
                return True
        return super().bytes_are(st, x, y)

    def latin(self, c):
        """decided on every byte on its own, on nothing, and on several bytes"""
        body = self.F.bodies.get(c.rid) if c.rid else None
        if body is None or body.argc != 1 or self.F.types[body.locals[0]["ty"]].get("p") != "std::string::String":
            return False
        memo = self.F.__dict__.setdefault("latin_memo", {})
        if body.id not in memo:
            memo[body.id] = False
            memo[body.id] = all(self.as_latin(body, b) for b in [b"", b"ab", b"\x80\xff\0\xc3\xa9", b"a\n\xe9 "] + [bytes([i]) for i in range(256)])
        return memo[body.id]

    def as_latin(self, body, b):
        lay = Lay()
        lay.add(("sym", "bytes"), [b])
        T = Known(self.F, lay)
        try:
            vs = [v for _, v in T.walk(body, [lay.region(("sym", "bytes"))], State(), 0, ()) if v[0] != "diverge"]
        except Exception:
            return False
        return len(vs) == 1 and (vs[0] == k(b.decode("latin1")) or vs[0] == ("latin1", lay.region(("sym", "bytes"))))

    SEEK = [(b"abcab", b"ab"), (b"abcab", b"ca"), (b"aabaab", b"aab"), (b"abab", b"b"), (b"aaab", b"ab"), (b"ab", b"ab"), (b"ab", b"abc"), (b"ab", b"ba"), (b"", b"a"), (b"b", b"a"),
            (b"xxa", b"a"), (b"abcd", b"d"), (b"abcd", b"bcd"), (b"abcab", b"b"), (b"\xff\x00\xff", b"\x00\xff"), (b"aAa", b"A"), (b"abx", b"aby"), (b"zbx", b"abx"), (b"a-b", b"aXb")]

    def seeks(self, c):
        """the position of the first occurrence of the second text in the first, decided on small pairs"""
        body = self.F.bodies.get(c.rid) if c.rid else None
        if body is None or body.argc != 2 or self.F.types[body.locals[0]["ty"]]["s"] != "std::option::Option<usize>" or any(self.F.types[l["ty"]]["s"] != "&[u8]" for l in body.locals[1:3]):
            return False
        memo = self.F.__dict__.setdefault("seek_memo", {})
        if body.id not in memo:
            memo[body.id] = False
            ok = True
            for x, y in self.SEEK:
                lay = Lay()
                lay.add(("sym", "hay"), [x])
                lay.add(("sym", "needle"), [y])
                T = Known(self.F, lay, unroll=40)
                try:
                    vs = [v for _, v in T.walk(body, [lay.region(("sym", "hay")), lay.region(("sym", "needle"))], State(), 0, ()) if v[0] != "diverge"]
                except Exception:
                    vs = []
                i = x.find(y)
                if vs != [NONE if i < 0 else some(k(i))]:
                    ok = False
                    break
            memo[body.id] = ok
        return memo[body.id]

    def call(self, c, a, st, depth, stack, env, t=None):
        """a local function that decodes Latin-1, or that looks for a text, whatever way it does it"""
        if c.local and a is not None and len(a) == 2 and self.seeks(c):
            x, y = (self.R(z, env) for z in a)
            y = lit(y) if lit(y) is not None else self.content(y)
            x = self.content(x)
            if x is not None and y:
                i = x.find(y)
                yield st, NONE if i < 0 else some(k(i)), None, 0
                return
        if c.name == "into_iter" and a is not None and len(a) == 1 and w_ok(self, self.R(a[0], env)):
            yield st, ("siter", self.R(a[0], env)), None, 0
            return
        if c.local and a is not None and len(a) == 1 and self.latin(c):
            x = self.R(a[0], env)
            if w_ok(self, x):
                b = self.content(x)
                yield st, k(b.decode("latin1")) if b is not None else ("latin1", x), None, 0
                return
        yield from super().call(c, a, st, depth, stack, env, t)

    def std_call(self, c, a, st, depth, stack, env):
        n = c.name
        r = [self.R(x, env) for x in a]
        if n in ("starts_with", "ends_with") and len(r) == 2 and w_ok(self, r[1]) and self.content(r[1]) is not None:
            r = [r[0], k(self.content(r[1]))]
            a = [a[0], r[1]]
        if n in ("cloned", "copied") and len(r) == 1 and r[0][0] == "agg" and str(r[0][1]).endswith("option::Option"):
            return iter([(st, r[0], None, 0)])
        if n == "as_ptr" and len(r) == 1 and w_ok(self, r[0]):
            w = self.where(r[0])
            return iter([(st, k(0x7f1200000000 + (list(self.lay.size).index(w[0]) << 36) + w[1]), None, 0)])     # an address: only differences may matter
        if n == "starts_with" and len(r) == 2 and lit(r[1]) is not None and w_ok(self, r[0]):
            w, y = self.where(r[0]), bytes(lit(r[1]))
            got = [self.lay.byte(w[0], i) for i in range(w[1], min(w[2], w[1] + len(y)))]
            if len(got) < len(y) or None not in got or any(g is not None and g != z for g, z in zip(got, y)):
                return iter([(st, k(int(got == list(y))), None, 0)])
        if r and r[0][0] == "siter":
            x = r[0][1]
            w = self.where(x)
            b = self.content(x)
            if b is not None and len(b) <= 64 and n in ("next", "for_each", "any", "all", "find", "fold", "rev", "enumerate", "filter", "filter_map", "skip_while", "take_while", "last",
                                                        "map_while", "count", "sum", "max", "skip", "take", "step_by", "zip", "chain"):
                its = ("it", tuple(k(y) for y in b), 0)
                if n == "next":
                    env2 = self._set(env, a[0], ("it", its[1][1:], 0)) if b else env
                    if env2 is not None:
                        return iter([(st, some(its[1][0]) if b else NONE, env2 if b else None, 0)])
                else:
                    g = self.coll(c, [its] + list(a[1:]), [its] + r[1:], st, depth, stack, env)
                    if g is not None:
                        return g
            if n in ("position", "rposition") and len(a) == 2 and w and w[0] in self.lay.size:
                g = self.position(w, a[1], n, st, depth, stack, env)
                if g is not None:
                    return g
        if r and r[0][0] == "latin1" or r and r[0][0] == "sitchar" and n == "collect":
            b = self.content(r[0][1])
            if b is not None and n in ("collect", "as_str", "deref", "as_ref", "borrow"):
                return iter([(st, k(b.decode("latin1")), None, 0)])
        if n in ("from_utf8", "from_utf8_lossy") and len(r) == 1:
            b = self.content(r[0])
            if b is not None:
                try:
                    v = ("agg", "std::result::Result", 0, (k(b.decode("utf8")),))
                except UnicodeDecodeError:
                    v = ("agg", "std::result::Result", 1, (("sym", "utf8 error"),))
                return iter([(st, v if n == "from_utf8" else k(b.decode("utf8", "replace")), None, 0)])
        if n == "concat" and len(r) == 1 and r[0][0] == "agg" and r[0][1] == "[]":
            bs = [self.content(x) if w_ok(self, x) else lit(x) for x in r[0][3]]
            if None not in bs and all(c < 128 for b in bs for c in b):
                return iter([(st, k(b"".join(bs).decode()), None, 0)])
        if n == "windows" and len(r) == 2 and w_ok(self, r[0]) and isk(r[1]) and self.content(r[0]) is not None:
            return iter([(st, ("wins", self.slc(r[0]), r[1][1]), None, 0)])
        if n in ("position", "any") and len(r) == 2 and r[0][0] == "wins":
            hit = self.window(r[0], a[1], st, depth, stack, env)
            if hit is not None:
                return iter([(st, k(int(hit >= 0)) if n == "any" else some(k(hit)) if hit >= 0 else NONE, None, 0)])
        if n == "strip_prefix" and len(r) == 2 and w_ok(self, r[0]) and lit(r[1]) is not None:
            w, b = self.where(r[0]), bytes(lit(r[1]))
            m = min(len(b), w[2] - w[1])
            got = [self.lay.byte(w[0], w[1] + i) for i in range(m)]
            no = any(g is not None and g != x for g, x in zip(got, b)) or m < len(b)
            if no or None not in got:
                return iter([(st, NONE if no else some(("slc", w[0], k(w[1] + m), k(w[2]))), None, 0)])
        if n == "get" and len(r) == 1 and isk(r[0]) and "NonZero" in (c.path or ""):
            return iter([(st, r[0], None, 0)])
        if n == "new" and len(r) == 1 and (c.path or "").startswith("std::boxed::Box"):
            return iter([(st, ("agg", "boxed", None, (r[0],)), None, 0)])
        if r and r[0][0] == "agg" and r[0][1] == "boxed" and n in ("as_ref", "as_mut", "deref", "borrow", "leak", "into_inner") and len(r) == 1:
            return iter([(st, r[0][3][0], None, 0)])
        if n in ("splitn", "split") and len(r) == (3 if n == "splitn" else 2) and w_ok(self, r[0]) and (n == "split" or r[1] == k(2)):
            g = self.position(self.where(r[0]), a[-1], "position", st, depth, stack, env) if n == "splitn" else None
            if g is not None:
                w = self.where(r[0])
                hit = next(g)[1]
                reg = lambda x, y: ("slc", w[0], k(x), k(y))
                its = (reg(w[1], w[2]),) if hit == NONE else (reg(w[1], w[1] + hit[3][0][1]), reg(w[1] + hit[3][0][1] + 1, w[2]))
                return iter([(st, ("it", its, 0), None, 0)])
        if n == "len" and len(r) == 1 and r[0][0] == "latin1":
            return iter([(st, self.length(r[0]), None, 0)])
        if n == "drain" and len(r) == 2 and self.where(r[0]):
            rg = self.range_of(self.slc(r[0]), r[1])
            w = self.where(r[0])
            if rg and not rg[0][1] and not rg[1][1] and rg[0][0] == 0:
                env2 = self._set(env, a[0], ("slc", w[0], k(w[1] + rg[1][0]), k(w[2])))
                if env2 is not None:
                    return iter([(st, ("siter", ("slc", w[0], k(w[1]), k(w[1] + rg[1][0]))), env2, 0)])
        if n in ("memchr",) and len(r) == 2 and isk(r[0]) and self.where(r[1]):
            w = self.where(r[1])
            hit = self.search(w, lambda y: y == r[0][1])
            if hit is not None:
                return iter([(st, some(k(hit)) if hit >= 0 else NONE, None, 0)])
        return super().std_call(c, a, st, depth, stack, env)

    def parse(self, praw, inp, st, depth, stack, env):
        """tag and take_till on known bytes"""
        P, w = self.R(praw, env), self.where(inp)
        if P[0] == "nomp" and w and w[0] in self.lay.size:
            n, streaming = P[1].rsplit("::", 1)[-1], "streaming" in P[1]
            x = self.slc(inp)
            if n == "tag" and lit(self.R(P[2][0], env)) is not None:
                b = bytes(lit(self.R(P[2][0], env)))
                m = min(len(b), w[2] - w[1])
                got = [self.lay.byte(w[0], w[1] + i) for i in range(m)]
                if any(g is not None and g != c for g, c in zip(got, b)):
                    yield st, self.nomerr(), None, 0
                    return
                if None not in got:
                    if m == len(b):
                        yield st, self.nom_ok(self.sub(x, L.const(m)), self.sub(x, None, L.const(m))), None, 0
                    else:
                        yield st, self.incomplete(L.const(len(b) - m)) if streaming else self.nomerr(), None, 0
                    return
            if n in ("take_till", "take_until0"):
                g = self.position(w, P[2][0], "position", st, depth, stack, env)
                if g is not None:
                    hit = next(g)[1]
                    if hit == NONE:
                        yield st, self.incomplete(L.const(1)) if streaming else self.nom_ok(self.sub(x, L.const(w[2] - w[1])), x), None, 0
                    else:
                        m = L.const(hit[3][0][1])
                        yield st, self.nom_ok(self.sub(x, m), self.sub(x, None, m)), None, 0
                    return
        yield from super().parse(praw, inp, st, depth, stack, env)

    def length(self, a):
        if a[0] == "latin1" and self.where(a[1]):
            w = self.where(a[1])
            v = ("len", a)
            self.lt.hi[v] = 2 * (w[2] - w[1])
            return v
        return super().length(a)

    def window(self, ws, f, st, depth, stack, env):
        """the first window the closure accepts: found at once when it compares a window with known bytes"""
        b, m = self.content(ws[1]), ws[2]
        ask = ("slc", ("sym", "probe"), k(0), k(m))
        vs = [v for _, v, _, _ in self.apply(f, [ask], st, depth, stack, env)]
        if len(vs) == 1 and vs[0][0] == "op" and vs[0][1] == "Eq" and ask in vs[0][2:4]:
            y = lit(vs[0][3] if vs[0][2] == ask else vs[0][2])
            if y is not None:
                return b.find(bytes(y))
        w = self.where(ws[1])
        if len(b) > 400:
            return None
        for i in range(len(b) - m + 1):
            vs = [v for _, v, _, _ in self.apply(f, [("slc", w[0], k(w[1] + i), k(w[1] + i + m))], st, depth, stack, env)]
            if len(vs) != 1 or not isk(vs[0]):
                return None
            if vs[0][1]:
                return i
        return -1

    def search(self, w, f):
        for i in range(w[1], w[2]):
            y = self.lay.byte(w[0], i)
            if y is None:
                return None
            if f(y):
                return i - w[1]
        return -1

    def position(self, w, f, n, st, depth, stack, env):
        if n != "position":
            return None
        def test(y):
            vs = [v for _, v, _, _ in self.apply(f, [k(y)], st, depth, stack, env)]
            if len(vs) != 1 or not isk(vs[0]):
                raise KeyError
            return bool(vs[0][1])
        try:
            hit = self.search(w, test)
        except KeyError:
            return None
        return None if hit is None else iter([(st, some(k(hit)) if hit >= 0 else NONE, None, 0)])
