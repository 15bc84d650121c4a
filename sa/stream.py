"""Abstract stream machine: the parser's buffer and reader as linear quantities.

State (kept in the path state under "$M"): R bytes read from the source so far, B bytes held in the buffer, P the
position inside it.  The first byte the parsers see is source byte O = R - B + P and they see V = B - P bytes."""
import lin as L
from table import Tab, k, ok, err, some, NONE, UNIT
from linterm import LT

M = ("$M",)
IOE = ("sym", "io-error")


def c0(x):
    return L.const(x)


class Stream(Tab):
    """driver functions analysed against the machine; buffer primitives are replaced by their specification"""

    def __init__(self, facts, **kw):
        super().__init__(facts, **kw)
        self.lt = LT()
        self.n = 0
        self.eof = False

    # ---- machine
    def machine(self, st):
        return st.cons[M][1]

    def setm(self, st, **kw):
        s = st.copy()
        m = dict(self.machine(st))
        m.update(kw)
        s.cons[M] = ("=", m)
        return s

    def fact(self, st, x):
        m = self.machine(st)
        return self.setm(st, facts=m["facts"] + (x,))

    def start(self, st, r, b, p):
        s = st.copy()
        s.cons[M] = ("=", {"R": r, "B": b, "P": p, "facts": (), "log": ()})
        return s

    def fresh(self, name):
        self.n += 1
        return ("sym", "%s%d" % (name, self.n))

    def facts_of(self, st):
        return self.lt.facts(st, self.machine(st)["facts"])

    def O(self, st):
        m = self.machine(st)
        return L.add(L.sub(m["R"], m["B"]), m["P"])

    def V(self, st):
        m = self.machine(st)
        return L.sub(m["B"], m["P"])

    def log(self, st, e):
        m = self.machine(st)
        return self.setm(st, log=m["log"] + (e,))

    # ---- primitives
    def length(self, a):
        if a[0] == "view":
            return ("lin", a[2])
        return super().length(a)

    def prim(self, name, r, st):
        m = self.machine(st)
        if name == "buffer":
            return [(self.log(st, ("view", self.O(st), self.V(st), L.sub(m["B"], m["P"]))), ("view", self.O(st), self.V(st)))]
        if name == "clear":
            return [(self.setm(st, B=c0(0)), UNIT)]
        if name == "position":
            return [(st, ("lin", m["P"]))]
        if name == "set_position":
            return [(self.setm(st, P=self.lt.lin(r[1])), UNIT)]
        if name == "fill_buf":
            want = self.lt.lin(r[2])
            x = self.fresh("got")
            X = self.lt.lin(x)
            s = self.setm(st, R=L.add(m["R"], X), B=L.add(m["B"], X))
            s = self.fact(s, L.addc(X, -1))
            s = self.fact(s, L.sub(want, X))
            s = self.log(s, ("fill", want))
            return [(s, ok(x)), (self.log(st, ("ioerr",)), err(IOE))]
        if name == "skip":
            x = self.lt.lin(r[1])
            return [(self.log(self.setm(st, R=L.add(m["R"], x)), ("seek", x)), ok(k(1))), (self.log(st, ("noseek",)), ok(k(0))), (self.log(st, ("ioerr",)), err(IOE))]
        raise KeyError(name)

    def call(self, c, a, st, depth, stack, env, t):
        if c.name in ("buffer", "clear", "position", "set_position", "fill_buf") and ("Buf" in (c.trait or "")):
            r = [self.resolve_refs(x, env) for x in a]
            for s2, v in self.prim(c.name, r, st):
                yield s2, v, None, 0
            return
        if c.name in ("max", "min") and len(a) == 2 and not c.local:
            r = [self.resolve_refs(x, env) for x in a]
            for truth in (1, 0):
                s2 = st.assume(("op", "Le", r[0], r[1]), truth)
                if s2 is not None:
                    yield s2, (r[1] if (c.name == "max") == bool(truth) else r[0]), None, 0
            return
        if c.name == "is_empty" and a and self.resolve_refs(a[0], env)[0] == "view":
            yield st, self.binop("Eq", ("lin", self.resolve_refs(a[0], env)[2]), k(0)), None, 0
            return
        yield from super().call(c, a, st, depth, stack, env, t)

    def apply(self, fv, args, st, depth, stack, env):
        f = self.resolve_refs(fv, env)
        if f == ("sym", "skip"):
            args = [self.resolve_refs(x, env) for x in args]
            for s2, v in self.prim("skip", args, st):
                yield s2, v, None, 0
            return
        if f == ("sym", "parse"):
            args = [self.resolve_refs(x, env) for x in args]
            for s2, v in self.parse(args, st):
                yield s2, v, None, 0
            return
        yield from super().apply(fv, args, st, depth, stack, env)

    def parse(self, args, st):
        raise KeyError("parse")


def run_fn(T, b, args, st):
    """analyses a function; an async function's future is polled to completion"""
    F = T.F
    T.paths = 0
    for s, v in T.walk(b, args, st, 0, ()):
        if v[0] == "clo" and v[1] in F.bodies and F.bodies[v[1]].id.startswith(b.id):
            for s2, v2 in T.walk(F.bodies[v[1]], [v], s, 1, (b.id,), ups=v[2]):
                yield s2, v2
        else:
            yield s, v
