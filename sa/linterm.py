"""Linear integer facts over decision-table terms: a path's comparisons as linear inequalities and goal-directed entailment."""
import lin as L

WIDE = ("usize", "u64", "u128", "i128")
SIGNED = ("i8", "i16", "i32", "i64", "isize", "i128")


SHRINK = set()   # those of them that never exceed their operand
NARROW = set()   # casts to a type that does not hold every value of the operand's type


class LT:
    tight = False
    """linear views of terms; every atom is a non-negative integer unless registered as signed"""

    def __init__(self):
        self.A = L.Atoms()
        self.P = L.Prover(self.A)
        self.signed = set()
        self.hi = {}

    def atom(self, t):
        lo = None if t in self.signed else 0
        return L.atom_lin(self.A.get(repr(t), lo, self.hi.get(t)))

    def lin(self, t):
        if t[0] == "lin":
            return t[1]
        if t[0] == "k" and isinstance(t[1], int):
            return L.const(int(t[1]))
        if t[0] == "op" and t[1] in ("Add", "AddUnchecked"):
            return L.add(self.lin(t[2]), self.lin(t[3]))
        if t[0] == "op" and t[1] in ("Sub", "SubUnchecked"):
            return L.sub(self.lin(t[2]), self.lin(t[3]))
        if t[0] == "op" and t[1] == "Mul":
            a, b = self.lin(t[2]), self.lin(t[3])
            if not a[1]:
                return L.scale(b, a[0])
            if not b[1]:
                return L.scale(a, b[0])
            return self.atom(t)
        if t[0] == "cast" and t[1] == "IntToInt":
            return self.lin(t[2]) if t not in NARROW else self.atom(t)
        if t[0] == "from":
            return self.lin(t[1])
        if t[0] == "fld" and t[1][0] == "as" and t[1][1][0] == "call" and len(t[1][1][2]) == 2:
            n = t[1][1][1].rsplit("::", 1)[-1]
            if n in ("checked_add", "checked_sub", "checked_mul"):
                return self.lin(("op", {"checked_add": "Add", "checked_sub": "Sub", "checked_mul": "Mul"}[n]) + tuple(t[1][1][2]))
        if t[0] == "fld" and t[1][0] == "as" and t[1][2] == 0 and t[1][1][0] == "call" and t[1][1][1].rsplit("::", 1)[-1] in ("try_into", "try_from"):
            return self.lin(t[1][1][2][0])
        return self.atom(t)

    def facts(self, st, extra=()):
        fs, late = L.FactSet(), []
        for x in extra:
            fs.add(x)
        for e, c in st.cons.items():
            if not isinstance(e, tuple) or not e or e[0] == "$":
                continue
            if e[0] == "op" and e[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and len(e) == 4:
                if c not in (("=", 1), ("=", 0)):
                    continue
                op, a, b = e[1], e[2], e[3]
                if not (self.intlike(a) and self.intlike(b)):
                    continue
                t = c[1] == 1
                if op == "Ne":
                    op, t = "Eq", not t
                x, y = self.lin(a), self.lin(b)
                if op == "Gt":
                    op, x, y = "Lt", y, x
                elif op == "Ge":
                    op, x, y = "Le", y, x
                if op == "Lt":
                    fs.add(L.addc(L.sub(y, x), -1) if t else L.sub(x, y))
                elif op == "Le":
                    fs.add(L.sub(y, x) if t else L.addc(L.sub(x, y), -1))
                elif op == "Eq" and t:
                    fs.add(L.sub(y, x))
                    fs.add(L.sub(x, y))
                continue
            if e[0] == "disc" and e[1][0] == "call" and len(e[1][2]) == 2 and c in (("=", 0), ("=", 1)):
                f, (a, b) = e[1][1], e[1][2]
                n = f.rsplit("::", 1)[-1]
                if n in ("checked_add", "checked_sub") and self.intlike(a) and self.intlike(b):
                    x, y = self.lin(a), self.lin(b)
                    if n == "checked_sub":
                        fs.add(L.sub(x, y) if c[1] else L.addc(L.sub(y, x), -1))
                    elif not c[1] and any("impl %s>" % w in f or "<%s>" % w in f for w in ("usize", "u64")):
                        fs.add(L.addc(L.add(x, y), -(1 << 64)))
                continue
            if e[0] in ("disc",):
                continue
            if c[0] == "=" and isinstance(c[1], int) and not isinstance(c[1], bool) and e[0] in ("op", "len", "lin", "sym", "fld", "cast", "call"):
                if e[0] == "op" and e[1] not in ("Add", "Sub", "Mul"):
                    continue
                x = self.lin(e)
                fs.add(L.addc(x, -c[1]))
                fs.add(L.addc(L.scale(x, -1), c[1]))
            elif c[0] == "!=" and e[0] in ("op", "len", "lin", "sym", "fld", "cast", "call") and 0 in c[1]:
                # non-negative and not zero
                if e[0] == "op" and e[1] not in ("Add", "Mul"):
                    continue
                fs.add(L.addc(self.lin(e), -1))
            elif self.tight and c[0] == "!=" and e[0] in ("op", "len", "lin", "sym", "fld", "cast", "call"):
                late.append((self.lin(e), c[1]))
        for x, vs in late:
            # x differs from its largest (smallest) possible value
            for v in vs:
                if isinstance(v, int) and self.P.prove(L.sub(L.const(v), x), fs):
                    fs.add(L.sub(L.const(v - 1), x))
                elif isinstance(v, int) and self.P.prove(L.addc(x, -v), fs):
                    fs.add(L.addc(x, -v - 1))
        return fs

    def intlike(self, t):
        return t[0] in ("k", "op", "len", "lin", "sym", "fld", "cast", "call", "from", "as") and not (t[0] == "k" and not isinstance(t[1], int))

    def entails(self, g, fs):
        """facts |= g >= 0"""
        if fs.bad:
            return True
        return self.P.prove(g, fs)

    def equal(self, a, b, fs):
        d = L.sub(a, b)
        return (d[0] == 0 and not d[1]) or (self.entails(d, fs) and self.entails(L.scale(d, -1), fs))

    def infeasible(self, fs):
        if fs.bad or self.P.prove(L.const(-1), fs):
            return True
        return any(self.P.prove(L.addc(L.scale(f, -1), -1), fs) for f in fs.items())
