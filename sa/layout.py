"""Layout decisions: rows of a parser (path condition, result) against a description of the bytes it has to read.

A row is judged for each assignment of the small scalars that select the layout (sizes, versions, counts): the rows an assignment
admits must give the value the description computes for it, or be refused for a reason the description shares."""
from table import isk
from reader import Reader
from terms import walk
import lin as L

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}


class Stub(Reader):
    """a Reader in which some local functions are replaced by a description: stubs = {body id: f(T, callee, args, state) -> [(state, value)]}"""
    def __init__(self, F, stubs=None, **kw):
        super().__init__(F, **kw)
        self.stubs = stubs or {}

    def call(self, c, a, st, depth, stack, env, t):
        if c.local:
            for b in self.F.resolve(c):
                f = self.stubs.get(b.id)
                if f is not None:
                    for s, v in f(self, c, [self.resolve_refs(x, env) for x in a], st):
                        yield s, v, None, 0
                    return
        yield from super().call(c, a, st, depth, stack, env, t)

    def sub_parse(self, praw, inp, st, depth, stack, env):
        p = self.resolve_refs(praw, env)
        if p[0] == "fn" and p[1] in self.stubs:
            for s, v in self.stubs[p[1]](self, p[2], [self.resolve_refs(inp, env)], st):
                yield s, v, None
            return
        yield from super().sub_parse(praw, inp, st, depth, stack, env)


def opt(T, t, asg):
    """(number,) or () for an optional number whose bytes are as assigned, None when it cannot be told"""
    if t[0] == "agg" and t[1] == "std::option::Option":
        if t[2] == 0:
            return ()
        v = val(T, t[3][0], asg)
        return None if v is None else (v,)
    if t[0] == "call" and isinstance(t[1], str) and t[1].startswith("core::num::<impl ") and "::checked_" in t[1] and len(t[2]) == 2:
        ty = t[1][len("core::num::<impl "):].split(">")[0]
        if ty not in BITS:
            return None
        xs = [val(T, x, asg) for x in t[2]]
        if None in xs:
            return None
        a, b = xs
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a // b if b else None, "rem": lambda: a % b if b else None}
        op = t[1].rsplit("::checked_", 1)[1]
        if op not in f or min(a, b) < 0 and op in ("div", "rem"):
            return None
        v = f[op]()
        lo, hi = (-(1 << BITS[ty] - 1), (1 << BITS[ty] - 1) - 1) if ty[0] == "i" else (0, (1 << BITS[ty]) - 1)
        return (v,) if v is not None and lo <= v <= hi else ()
    return None


def val(T, t, asg):
    """the number a term denotes when the bytes read are as assigned, or None"""
    if isk(t):
        return int(t[1]) if isinstance(t[1], (int, bool)) else None
    if t[0] == "rd":
        return asg(t)
    if t[0] == "lin":
        s = t[1][0]
        for at, c in t[1][1]:
            v = val(T, T.lt.term[at], asg)
            if v is None:
                return None
            s += c * v
        return s
    if t[0] == "cast" and t[1] == "IntToInt":
        v = val(T, t[2], asg)
        b = BITS.get(t[3])
        if v is None or b is None:
            return v
        v &= (1 << b) - 1
        return v - (1 << b) if t[3][0] == "i" and v >> (b - 1) else v
    if t[0] in ("from",):
        return val(T, t[1], asg)
    if t[0] == "fld" and t[1][0] == "as" and t[1][2] == 1 and t[2] == 0:
        o = opt(T, t[1][1], asg)
        return o[0] if o else None
    if t[0] == "call" and isinstance(t[1], str) and t[1].rsplit("::", 1)[-1] in ("eq", "ne") and len(t[2]) == 2 or t[0] == "op" and t[1] in ("Eq", "Ne"):
        xs = t[2] if t[0] == "call" else t[2:]
        os = [opt(T, x, asg) for x in xs]
        if None not in os:
            return int((os[0] == os[1]) == (t[1].rsplit("::", 1)[-1].lower() == "eq"))
    if t[0] == "op":
        xs = [val(T, x, asg) for x in t[2:]]
        if t[1] == "BitAnd" and 0 in xs:
            return 0
        if None in xs:
            return None
        if len(xs) == 1:
            return {"Not": None, "Neg": -xs[0]}.get(t[1])
        a, b = xs
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                    "BitXor": lambda: a ^ b, "Shr": lambda: a >> b, "Shl": lambda: a << b, "Div": lambda: a // b if b else None,
                    "Rem": lambda: a % b if b else None, "Eq": lambda: int(a == b), "Ne": lambda: int(a != b), "Lt": lambda: int(a < b),
                    "Le": lambda: int(a <= b), "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b)}[t[1]]()
        except KeyError:
            return None
    return None


def admits(T, st, asg, skip=()):
    """whether the path can be taken with the bytes as assigned (unknown conditions may go either way)"""
    for e, c in st.cons.items():
        if not isinstance(e, tuple) or not e or e[0] == "$":
            continue
        if e[0] == "disc":
            o = opt(T, e[1], asg)
            if o is None:
                continue
            v = len(o)
        else:
            v = val(T, e, asg)
        if v is None:
            continue
        if c[0] == "=" and v != c[1] or c[0] == "!=" and v in c[1]:
            return False
    return True


def has_len(t):
    return any(x[0] == "len" for x in walk(t)) if isinstance(t, tuple) else False


def lens(T, t):
    """whether a linear condition talks about the length of an input"""
    if t[0] == "op":
        return any(lens(T, x) for x in t[2:] if isinstance(x, tuple))
    if t[0] == "lin":
        return any(has_len(T.lt.term[a]) for a, _ in t[1][1])
    return has_len(t)


def needs(T, st, end):
    """for a row that ends for want of data: the place it wanted, relative to `end` (a linear form): None when no such condition,
    else True when the wanted place lies within what the description reads"""
    r = None
    for e, c in st.cons.items():
        if isinstance(e, tuple) and e and e[0] == "op" and lens(T, e):
            r = False
            break
    if r is None:
        return None
    facts = T.lt.facts(st)
    bases = {x for e in st.cons if isinstance(e, tuple) and e for x in deep(T, e) if x[0] == "len"}
    return any(T.lt.entails(L.addc(L.sub(end, T.lt.lin(x)), -1), facts) for x in bases)


def read(T, t):
    """(byte order, width, sign, base, start as linear form) of a value read from the input and kept as it is (only widened); None otherwise"""
    while True:
        if t[0] == "from":
            t = t[1]
        elif t[0] == "cast" and t[1] == "IntToInt" and t[2][0] in ("rd", "cast", "from", "lin"):
            b = BITS.get(t[3], 0)
            u = t[2]
            while u[0] in ("from", "cast"):
                u = u[1] if u[0] == "from" else u[2]
            if u[0] == "rd" and 8 * u[2] <= b and (u[3] == "i") <= (t[3][0] == "i") and not (u[3] == "u" and t[3][0] == "i" and 8 * u[2] == b):
                t = t[2]
            else:
                return None
        elif t[0] == "lin" and t[1][0] == 0 and len(t[1][1]) == 1 and t[1][1][0][1] == 1:
            t = T.lt.term[t[1][1][0][0]]
        else:
            break
    if t[0] != "rd":
        return None
    return t[1], t[2], t[3], t[4], T.lt.lin(t[5])


def is_read(T, t, base, off, width, kind="u", order="be"):
    r = read(T, t)
    return r is not None and r[1] == width and r[2] == kind and r[3] == base and (width == 1 or r[0] == order) and L.sub(r[4], off) == L.const(0)


def consts(T, rows, pick):
    """the numbers the conditions of the rows compare the picked reads with, and their neighbours"""
    cs = set()
    for st, _ in rows:
        for e, c in st.cons.items():
            if not isinstance(e, tuple) or not any(pick(x) for x in deep(T, e)):
                continue
            for x in deep(T, e):
                if isk(x) and isinstance(x[1], int):
                    cs.add(int(x[1]))
                if x[0] == "lin":
                    cs.add(abs(x[1][0]))
            for x in ([c[1]] if c[0] == "=" else c[1]):
                if isinstance(x, int):
                    cs.add(x)
    return {y for x in cs for y in (x - 1, x, x + 1) if y >= 0}


def deep(T, t):
    for x in walk(t):
        if not isinstance(x, tuple) or not x:
            continue
        yield x
        if x[0] == "lin":
            for a, _ in x[1][1]:
                if a in T.lt.term:
                    yield from deep(T, T.lt.term[a])


def val_lin(T, f, asg):
    """the number a linear form denotes when the bytes read are as assigned, or None"""
    s = f[0]
    for a, c in f[1]:
        v = val(T, T.lt.term[a], asg)
        if v is None:
            return None
        s += c * v
    return s
