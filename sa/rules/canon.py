"""Canonical traces: what a path does and answers, without the numbering and the shape of the code that does it."""
import re
import entry as E
from table import k
from terms import cname

NUM = re.compile(r"^([a-z_.]*[a-z])(\d+)$")


class Canon:
    """renumbers fresh values in order of appearance; `sub` maps whole terms first"""

    def __init__(self, sub=None, path=None):
        self.m = {}
        self.sub = sub or (lambda t: None)
        self.path = path or (lambda p: p)

    def n(self, i):
        return self.m.setdefault(i, len(self.m) + 1)

    def term(self, t):
        if not isinstance(t, tuple):
            return t
        r = self.sub(t)
        if r is not None:
            return r
        if not t:
            return t
        h = t[0]
        if h == "sym" and isinstance(t[1], str):
            g = NUM.match(t[1])
            return ("sym", "%s#%d" % (g.group(1), self.n(int(g.group(2))))) if g else t
        if h in ("op", "cast"):
            return self.arith(t)
        if h == "call":
            return ("call", self.path(t[1]), tuple(self.term(x) for x in t[2]))
        if h == "from":
            return self.term(t[1])
        if h == "sub" and len(t) == 3:
            return ("sub", t[1], self.n(t[2]))
        if h == "fill" and len(t) == 2:
            return ("fill", self.n(t[1]))
        if h == "read" and len(t) == 4:
            return ("read", self.term(t[1]), self.term(t[2]), self.n(t[3]))
        if h == "unk" and len(t) == 2 and isinstance(t[1], int):
            return ("unk", self.n(t[1]))
        return tuple(self.term(x) if isinstance(x, tuple) else x for x in t)


    def arith(self, t):
        d, c0 = {}, [0]

        def go(t, f):
            if t[0] == "k" and isinstance(t[1], int):
                c0[0] += f * int(t[1])
            elif t[0] == "op" and t[1] in ("Add", "AddUnchecked", "Sub", "SubUnchecked"):
                go(t[2], f)
                go(t[3], f if t[1].startswith("Add") else -f)
            elif t[0] == "cast" and t[1] == "IntToInt" and t[-1] in ("u64", "usize", "u128") and len(t) == 4 or (t[0] == "cast" and t[1] == "IntToInt" and "u64" in t[2:] or "usize" in t[2:]):
                go([x for x in t[2:] if isinstance(x, tuple)][0], f)
            elif t[0] in ("op", "cast"):
                x = (t[0], t[1]) + tuple(self.term(y) if isinstance(y, tuple) else y for y in t[2:])
                d[x] = d.get(x, 0) + f
            else:
                x = self.term(t)
                d[x] = d.get(x, 0) + f
        if t[0] == "op" and t[1] not in ("Add", "AddUnchecked", "Sub", "SubUnchecked") or t[0] == "cast" and t[1] != "IntToInt":
            return (t[0], t[1]) + tuple(self.term(y) if isinstance(y, tuple) else y for y in t[2:])
        go(t, 1)
        d = {x: f for x, f in d.items() if f}
        if not d:
            return ("k", c0[0])
        if c0[0] == 0 and list(d.values()) == [1]:
            return list(d)[0]
        return ("L", c0[0], tuple(sorted(d.items(), key=repr)))

    def cond(self, e, c):
        """a path condition in a normal form"""
        two = e[0] == "disc" and len(e) > 2 and e[2] in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::borrow::Cow")
        if c[0] == "!=" and isinstance(c[1], frozenset) and len(c[1]) == 1 and two and list(c[1])[0] in (0, 1):
            c = ("=", 1 - list(c[1])[0])
        if e[0] == "op" and e[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and c in (("=", 0), ("=", 1), ("=", True), ("=", False)):
            op, a, b, t = e[1], e[2], e[3], bool(c[1])
            if op in ("Gt", "Ge"):
                op, a, b = ("Lt" if op == "Gt" else "Le"), b, a
            if op in ("Lt", "Le"):
                if not t:
                    op, a, b = ("Le" if op == "Lt" else "Lt"), b, a
                if isinstance(b, tuple):
                    d = self.arith(("op", "Sub", b, a))
                    if op == "Lt":
                        d = self.arith(("op", "Sub", ("op", "Sub", b, a), ("k", 1)))
                    return ("ge0", d)
            else:
                if op == "Ne":
                    t = not t
                return ("eq", t) + tuple(sorted((self.term(a), self.term(b)), key=repr))
        return (self.term(e), c)


# ---- sets of conditions, independent of the order in which a program tests them
TWO = ("std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::borrow::Cow")


def literal(c):
    """(atom, allowed values, whether listed or excluded) of a condition in normal form"""
    if c[0] == "ge0":
        d = c[1]
        if d[0] == "k":
            return ("true",), frozenset([int(d[1]) >= 0]), True
        if d[0] != "L":
            d = ("L", 0, ((d, 1),))
        n = ("L", -d[1] - 1, tuple((x, -f) for x, f in d[2]))
        pos = d[2][0][1] > 0
        return ("ge0", d if pos else n), frozenset([pos]), True
    if c[0] == "eq" and len(c) == 4:
        return ("eq", c[2], c[3]), frozenset([c[1]]), True
    e, v = c
    if v[0] == "=":
        return e, frozenset([v[1]]), True
    if v[0] == "!=":
        return e, frozenset(v[1] if isinstance(v[1], (frozenset, set, tuple, list)) else [v[1]]), False
    return (e, v), frozenset([True]), True


def closed(a):
    if a[0] in ("ge0", "eq", "true"):
        return (False, True)
    if a[0] == "disc" and len(a) > 2 and a[2] in TWO:
        return (0, 1)
    if a[0] == "call" and (cname(a[1]).startswith("is_") or cname(a[1]) in ("eq", "ne", "lt", "le", "gt", "ge", "contains", "starts_with", "ends_with")):
        return (0, 1)
    return None


def diagram(cubes):
    """a canonical decision diagram of a disjunction of conjunctions"""
    cs = []
    for q in cubes:
        m, dead = {}, False
        for c in q:
            a, vs, inc = literal(c)
            o = m.get(a)
            if o is None:
                m[a] = (vs, inc)
            else:
                ov, oi = o
                m[a] = (ov & vs, True) if oi and inc else (ov - vs, True) if oi else (vs - ov, True) if inc else (ov | vs, False)
            dead = dead or m[a] == (frozenset(), True)
        if not dead:
            cs.append(m)
    memo = {}

    def build(cs):
        if not cs:
            return False
        if any(not q for q in cs):
            return True
        kk = frozenset(frozenset(q.items()) for q in cs)
        if kk in memo:
            return memo[kk]
        a = min((a for q in cs for a in q), key=repr)
        vals = set()
        for q in cs:
            if a in q:
                vals |= q[a][0]
        dom = closed(a)
        if dom is not None:
            vals |= set(dom)
        OTHER = ("other",)

        def child(v):
            out = []
            for q in cs:
                if a in q:
                    s, inc = q[a]
                    if (v in s) != inc:
                        continue
                    q = {x: y for x, y in q.items() if x != a}
                out.append(q)
            return build(out)
        ch = {v: child(v) for v in vals}
        if dom is not None:
            rest = ch.pop(sorted(vals, key=repr)[0])
        else:
            rest = child(OTHER)
        ch = {v: x for v, x in ch.items() if x != rest}
        r = rest if not ch else (a, frozenset(ch.items()), rest)
        memo[kk] = r
        return r
    return build(cs)


def fold(traces):
    """one entry per (events, result), with the condition under which it happens"""
    g = {}
    for e, c, v in traces:
        g.setdefault((e, v), []).append(c)
    return frozenset((e, diagram(cs), v) for (e, v), cs in g.items())


def mentions_old(t):
    if not isinstance(t, tuple):
        return False
    if t[:1] == ("sym",) and isinstance(t[1], str) and t[1].startswith("old."):
        return True
    return any(mentions_old(x) for x in t)


def unasync(p):
    """async and sync names of the same operation"""
    p = re.sub(r"_async\b", "", p)
    p = p.replace("parser_async::", "parser::").replace("AsyncMediaSource", "MediaSource").replace("AsyncBufParser", "BufParser")
    p = p.replace("tokio::io::AsyncReadExt", "std::io::Read").replace("tokio::fs::", "std::fs::").replace("tokio::io::", "std::io::")
    return p


ASYNC_NOISE = ("get_context", "into_future", "new_unchecked", "poll", "enter", "instrument", "pin")


def trace(t, c, F, events=(), drop=(), keepcons=True):
    """(events, constraints, result) of a trace"""
    out = []
    for e in t.st.events:
        if e[0] == "sub":
            if e[1] in drop:
                continue
            out.append(("sub", e[1], tuple(c.term(x) for x in e[2]), c.n(e[3])))
        elif e[0] == "read":
            if "read" in drop:
                continue
            out.append(("read", e[1], c.term(e[2]), c.term(e[3]) if e[3] else None, c.term(e[4])))
        elif e[0] == "call":
            if cname(e[1]) in ASYNC_NOISE or mentions_old(e[2]) or not events or not events(e):
                continue
            out.append(("call", c.path(e[1]), tuple(c.term(x) for x in e[2])))
        elif e[0] == "store":
            out.append(("store",) + tuple(c.term(x) for x in e[1:]))
    v = c.term(t.val) if t.val[0] != "diverge" else t.val
    cons = frozenset(c.cond(e, x) for e, x in t.st.cons.items() if not mentions_old(e) and not (e[0] == "disc" and e[1][0] == "sub" and e[1][1] in drop)) if keepcons else None
    return (tuple(out), cons, v)


def behaviour(F, clo, mk, path, opaque=(), canon=None):
    """what a function value does: the set of its canonical traces on symbolic arguments"""
    b = F.bodies.get(clo[1])
    if b is None:
        return None
    T = mk()
    T.paths = 0
    n = b.argc - (1 if clo[0] == "clo" else 0)
    args = ([clo] if clo[0] == "clo" else []) + [("sym", "arg.%s" % chr(97 + i)) for i in range(n)]
    out = set()
    from table import State

    class X:
        pass
    for s, v, env in T.walk_env(b, args, State(), 0, (), clo[2] if clo[0] == "clo" else None, {}):
        x = X()
        x.st, x.val = s, v
        if v[0] == "diverge" and v[1] in ("cdrop", "resume", "terminate", "unreachable"):
            continue
        out.add(trace(x, canon() if canon else Canon(path=path), F, events=lambda e: True))
    return ("behaviour", fold(out))
