"""Concrete collections in the evaluator: lists ("agg","[]",None,items) and maps ("map", ((key, value), ...)) of terms.

A list or map of known size is followed element by element through the collection and iterator calls of std; anything else falls back
to the ordinary evaluator."""
import re
from table import k, isk, some, ok, NONE, UNIT, INT as RANGE
from layout import Stub

LISTY = ("vec::Vec", "slice::<impl [T]>", "collections::VecDeque")
MAPPY = ("BTreeMap", "HashMap", "btree_map", "hash_map")


def lst(items):
    return ("agg", "[]", None, tuple(items))


def islist(v):
    return v[0] == "agg" and v[1] == "[]"


def pair(a, b):
    return ("agg", "()", None, (a, b))


def fixed(t):
    """whether a key is one value, so that two keys are equal exactly when they are the same term"""
    return isk(t) or t[0] == "agg" and not isinstance(t[1], tuple) and all(fixed(x) for x in t[3])


def text(t):
    """the string that formatting constants gives, or None"""
    if t[0] != "call" or "fmt::Arguments" not in t[1] or len(t[2]) != 2 or not islist(t[2][0]) or not islist(t[2][1]):
        return None
    tmpl, args = [x[1] for x in t[2][0][3]], list(t[2][1][3])
    out, i = b"", 0
    while i < len(tmpl):
        b = tmpl[i]
        i += 1
        if b == 0:
            return out.decode("utf8")
        if b < 128:
            out += bytes(tmpl[i:i + b])
            i += b
        elif b == 0xc0 and args:
            a = args.pop(0)
            if not (a[0] == "call" and a[1].endswith("new_display") and isk(a[2][0]) and isinstance(a[2][0][1], str)):
                return None
            out += a[2][0][1].encode()
        else:
            return None
    return None


class Maps(Stub):
    def call(self, c, a, st, depth, stack, env, t):
        if c.path and not c.local and a is not None:
            g = self.coll(c, a, [self.resolve_refs(x, env) for x in a], st, depth, stack, env)
            if g is not None:
                yield from g
                return
        yield from super().call(c, a, st, depth, stack, env, t)

    def one(self, st, v, env=None):
        return iter([(st, v, env, 0)])

    def coll(self, c, a, r, st, depth, stack, env):
        p, n = c.path, c.name
        full = c.full or p
        own = full.lstrip("<")
        ismap = any(m in p for m in MAPPY[:2])
        if n in ("new", "with_capacity") and p.startswith("std::string::String::"):
            return self.one(st, k(""))
        if n in ("new", "with_capacity") and (ismap or "vec::Vec" in p):
            return self.one(st, ("map", ()) if ismap else lst(()))
        if n == "default" and not a:
            head = own.split("<")[0].split(" ")[0]
            if head.endswith(("BTreeMap", "HashMap")):
                return self.one(st, ("map", ()))
            if head.endswith("vec::Vec"):
                return self.one(st, lst(()))
        if n == "unwrap_or_default" and ("Vec<" in full or "Map<" in full):
            e = ("map", ()) if "Map<" in full.split("Vec<")[0] else lst(())
            opt = "option::Option" in p

            def g():
                for i, pl, s2 in (self._opt if opt else self._res)(r[0], st):
                    yield s2, (pl if (i == 1) == opt else e), None, 0
            return g()
        if not r:
            return None
        if p.endswith("fmt::format") and len(r) == 1:
            v = text(r[0])
            return None if v is None else self.one(st, k(v))
        if p.endswith("hint::must_use"):
            return self.one(st, r[0])
        x = r[0]
        if n == "from" and len(r) == 1 and isk(x) and type(x[1]) is int and own.startswith("char as"):
            return self.one(st, x)
        if n == "to_digit" and len(r) == 2 and all(isk(y) for y in r):
            y = chr(r[0][1]) if isinstance(r[0][1], int) else r[0][1]
            z = "0123456789abcdefghijklmnopqrstuvwxyz".find(y.lower()) if y.isascii() else -1
            return self.one(st, some(k(z)) if 0 <= z < r[1][1] else NONE)
        if isk(x) and isinstance(x[1], str):
            if n == "parse" and len(r) == 1 and "::parse::<" in full:
                ty = full.rsplit("::parse::<", 1)[1].rstrip(">")
                if ty in RANGE:
                    good = re.fullmatch(r"[+]?[0-9]+" if RANGE[ty][0] == 0 else r"[+-]?[0-9]+", x[1], re.A) and RANGE[ty][0] <= int(x[1]) <= RANGE[ty][1]
                    return self.one(st, ok(k(int(x[1]))) if good else ("agg", "std::result::Result", 1, (("sym", "parse error"),)))
                b = [b for b in self.F.bodies.values() if b.path == "<%s as std::str::FromStr>::from_str" % ty]
                return ((s2, v, e2, 0) for s2, v, e2 in self.enter(b[0], [x], st, depth + 1, stack + (b[0].id,), env)) if len(b) == 1 else None
            return self.on_str(a, r, n, p, st, env)
        if n == "from" and islist(x) is False and own.startswith("std::vec::Vec<u8>") and x[0] == "slc":
            return self.one(st, x)
        if all(isk(y) and type(y[1]) is int for y in r):
            return self.on_num(c, r, n, p, full, st)
        if x[0] == "map":
            return self.on_map(c, a, r, x, n, st, env)
        if islist(x):
            return self.on_list(c, a, r, x, n, p, st, env)
        if x[0] == "it":
            return self.on_it(c, a, r, x, n, full, st, depth, stack, env)
        if x[0] == "agg" and isinstance(x[1], str) and x[1].endswith("ops::Range") and len(x[3]) == 2 and all(isk(y) and type(y[1]) is int for y in x[3]):
            lo, hi = x[3][0][1], x[3][1][1]
            if n == "next" and len(r) == 1:
                env2 = self._set(env, a[0], ("agg", x[1], None, (k(lo + 1), x[3][1]))) if lo < hi else None
                if env2 is not None or lo >= hi:
                    return self.one(st, some(k(lo)) if lo < hi else NONE, env2)
            g = self.on_range(c, a, r, range(lo, hi), n, p, full, st, depth, stack, env)
            if g is not None:
                return g
        if x[0] == "agg" and isinstance(x[1], str) and x[1].endswith("ops::RangeInclusive") and len(x[3]) == 3 and all(isk(y) and type(y[1]) is int for y in x[3]):
            lo, hi, end = (y[1] for y in x[3])
            if n == "next" and len(r) == 1:
                more = not end and lo <= hi
                env2 = self._set(env, a[0], ("agg", x[1], None, (k(lo + (lo < hi)), x[3][1], k(int(lo == hi))))) if more else None
                return self.one(st, some(k(lo)) if more else NONE, env2) if env2 is not None or not more else None
            if end:
                lo, hi = 0, -1
            return self.on_range(c, a, r, range(lo, hi + 1), n, p, full, st, depth, stack, env)
        if x[0] == "rng":
            return self.on_range(c, a, r, x[1], n, p, full, st, depth, stack, env)
        return None

    def on_range(self, c, a, r, g, n, p, full, st, depth, stack, env):
        """an iteration over a known range"""
        if n in ("rev", "step_by") and len(g) > 64 and (n == "rev" or len(r) == 2 and isk(r[1]) and r[1][1] > 0):
            g = g[::-1] if n == "rev" else g[::r[1][1]]
            return self.one(st, ("it", tuple(k(y) for y in g), 0) if len(g) <= 64 else ("rng", g))
        if n in ("map", "filter", "filter_map", "rev", "for_each", "try_for_each", "all", "any", "find", "fold", "try_fold", "step_by", "flat_map", "sum") and len(g) <= 64 and "Iterator" in p:
            its = ("it", tuple(k(y) for y in g), 0)
            return self.on_it(c, [its] + list(a[1:]), [its] + r[1:], its, n, full, st, depth, stack, env)
        return None

    def on_str(self, a, r, n, p, st, env):
        x = r[0][1]
        if n == "is_empty" and len(r) == 1:
            return self.one(st, k(int(not x)))
        TR = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip, "to_lowercase": str.lower, "to_uppercase": str.upper,
              "to_ascii_lowercase": lambda y: y.encode().lower().decode(), "to_ascii_uppercase": lambda y: y.encode().upper().decode()}
        if n in TR and len(r) == 1 and "str" in p:
            return self.one(st, k(TR[n](x)))
        if n == "len" and len(r) == 1:
            return self.one(st, k(len(x.encode())))
        if n == "add" and len(r) == 2 and isk(r[1]) and isinstance(r[1][1], str):
            return self.one(st, k(x + r[1][1]))
        if n in ("push", "push_str") and len(r) == 2 and isk(r[1]) and "string::String" in p:
            y = r[1][1]
            env2 = self._set(env, a[0], k(x + (chr(y) if isinstance(y, int) else y)))
            return None if env2 is None else self.one(st, UNIT, env2)
        if len(r) == 1 and "str" in p and n in ("lines", "bytes", "chars", "split_whitespace", "split_ascii_whitespace", "char_indices"):
            if n == "lines":
                ls = x.split("\n")
                ls = [y[:-1] if y.endswith("\r") and i < len(ls) - 1 else y for i, y in enumerate(ls)]
                ys = [k(y) for y in (ls[:-1] if ls[-1] == "" else ls)]
            elif n == "bytes":
                ys = [k(y) for y in x.encode()]
            elif n == "chars":
                ys = [k(ord(y)) for y in x]
            elif n == "char_indices":
                ys = [pair(k(len(x[:i].encode())), k(ord(y))) for i, y in enumerate(x)]
            else:
                ys = [k(y) for y in x.split()]
            return self.one(st, ("it", tuple(ys), 0))
        if len(r) == 2 and isk(r[1]) and "str" in p:
            y = r[1][1]
            y = chr(y) if isinstance(y, int) else y
            if isinstance(y, str):
                if n in ("starts_with", "ends_with", "contains"):
                    return self.one(st, k(int({"starts_with": x.startswith, "ends_with": x.endswith, "contains": x.__contains__}[n](y))))
                if n == "split" and y:
                    return self.one(st, ("it", tuple(k(z) for z in x.split(y)), 0))
                if n in ("strip_prefix", "strip_suffix"):
                    hit = x.startswith(y) if n == "strip_prefix" else x.endswith(y)
                    cut = x[len(y):] if n == "strip_prefix" else x[:len(x) - len(y)]
                    return self.one(st, some(k(cut)) if hit else NONE)
        return None

    def on_num(self, c, r, n, p, full, st):
        if p.startswith("core::num::<impl ") and len(r) == 2:
            lim = RANGE.get(p[len("core::num::<impl "):].split(">")[0])
            how, _, op = n.partition("_")
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x // y if y and x >= 0 and y > 0 else None,
                 "rem": lambda x, y: x % y if y and x >= 0 and y > 0 else None}.get(op)
            if lim is None or f is None:
                return None
            v = f(r[0][1], r[1][1])
            if v is None and not (how == "checked" and r[1][1] == 0):
                return None
            good = v is not None and lim[0] <= v <= lim[1]
            if how == "checked":
                return self.one(st, some(k(v)) if good else NONE)
            if how == "saturating":
                return self.one(st, k(min(max(v, lim[0]), lim[1])))
            if how == "wrapping" and good:
                return self.one(st, k(v))
        if n in ("try_from", "try_into") and len(r) == 1:
            dst = full.split("TryFrom<")[-1].split(" for ")[-1] if n == "try_from" else full.split("TryInto<")[-1]
            lim = RANGE.get(dst.split(">")[0])
            if lim and "TryFrom" in full and lim[0] <= r[0][1] <= lim[1]:
                return self.one(st, ok(r[0]))
        return None

    def items(self, v):
        """the elements a collection hands out when it is iterated by value, or None"""
        if islist(v):
            return v[3]
        if v[0] == "map":
            return tuple(pair(x, y) for x, y in v[1])
        if v[0] == "it":
            return v[1][v[2]:]
        if v[0] == "agg" and v[1] == "std::option::Option":
            return (v[3][0],) if v[2] == 1 else ()
        return None

    def put(self, m, key, val):
        """(new map, old value or None) or None when it cannot be told which entry is meant"""
        if not fixed(key) or any(not fixed(x) for x, _ in m):
            return None
        old = [y for x, y in m if x == key]
        return tuple((x, y) for x, y in m if x != key) + ((key, val),), (old[0] if old else None)

    def on_map(self, c, a, r, x, n, st, env):
        m = x[1]
        if n in ("into_iter", "iter", "iter_mut"):
            return self.one(st, ("it", self.items(x), 0))
        if n in ("into_keys", "keys", "into_values", "values"):
            return self.one(st, ("it", tuple(y["values" in n] for y in m), 0))
        if n in ("len", "is_empty"):
            return self.one(st, k(len(m) if n == "len" else int(not m)))
        if n in ("contains_key", "get", "remove") and len(r) == 2:
            if not fixed(r[1]) or any(not fixed(y) for y, _ in m):
                return None
            hit = [y for w, y in m if w == r[1]]
            if n == "contains_key":
                return self.one(st, k(int(bool(hit))))
            v = some(hit[0]) if hit else NONE
            if n == "get":
                return self.one(st, v)
            env2 = self._set(env, a[0], ("map", tuple((w, y) for w, y in m if w != r[1])))
            return None if env2 is None else self.one(st, v, env2)
        if n == "insert" and len(r) == 3:
            q = self.put(m, r[1], r[2])
            env2 = q and self._set(env, a[0], ("map", q[0]))
            return self.one(st, NONE if q[1] is None else some(q[1]), env2) if env2 else None
        if n in ("extend", "append") and len(r) == 2:
            its = self.items(r[1])
            if its is None or not all(i[0] == "agg" and i[1] == "()" and len(i[3]) == 2 for i in its):
                return None
            for i in its:
                q = self.put(m, *i[3])
                if q is None:
                    return None
                m = q[0]
            env2 = self._set(env, a[0], ("map", m))
            if env2 is not None and n == "append":
                env2 = self._set(env2, a[1], ("map", ()))
            return None if env2 is None else self.one(st, UNIT, env2)
        if n == "entry" and len(r) == 2 and a[0][0] == "lref" and fixed(r[1]):
            return self.one(st, ("agg", "entry", None, (a[0], r[1])))
        return None

    def on_list(self, c, a, r, x, n, p, st, env):
        if not any(m in p for m in LISTY) and n not in ("into_iter", "extend", "clone", "from", "into", "index"):
            return None
        its = x[3]
        if n in ("into_iter", "iter", "iter_mut", "drain"):
            return self.one(st, ("it", its, 0))
        if n in ("len", "is_empty"):
            return self.one(st, k(len(its) if n == "len" else int(not its)))
        if n in ("first", "last"):
            return self.one(st, some(its[0 if n == "first" else -1]) if its else NONE)
        if n == "get" and len(r) == 2 and isk(r[1]) and isinstance(r[1][1], int):
            return self.one(st, some(its[r[1][1]]) if r[1][1] < len(its) else NONE)
        if n == "index" and len(r) == 2:
            i = r[1]
            if isk(i) and isinstance(i[1], int) and i[1] < len(its):
                return self.one(st, its[i[1]])
            if i[0] == "agg" and str(i[1]).endswith(("ops::RangeFrom", "ops::Range", "ops::RangeTo")) and all(isk(y) for y in i[3]):
                f = [y[1] for y in i[3]]
                u, w = (0, f[0]) if i[1].endswith("RangeTo") else (f[0], f[1] if len(f) > 1 else len(its))
                if u <= w <= len(its):
                    return self.one(st, lst(its[u:w]))
        if n in ("split_first", "split_last") and len(r) == 1:
            return self.one(st, some(pair(its[0], lst(its[1:])) if n == "split_first" else pair(its[-1], lst(its[:-1]))) if its else NONE)
        if n == "push" and len(r) == 2:
            env2 = self._set(env, a[0], lst(its + (r[1],)))
            return None if env2 is None else self.one(st, UNIT, env2)
        if n in ("extend", "append", "extend_from_slice") and len(r) == 2:
            more = self.items(r[1])
            env2 = None if more is None else self._set(env, a[0], lst(its + tuple(more)))
            return None if env2 is None else self.one(st, UNIT, env2)
        if n in ("reserve", "shrink_to_fit"):
            return self.one(st, UNIT)
        return None

    def on_it(self, c, a, r, x, n, full, st, depth, stack, env):
        its = x[1][x[2]:]
        if n in ("cloned", "copied", "by_ref", "fuse", "peekable"):
            return self.one(st, ("it", its, 0)) if n != "by_ref" else None
        if n == "rev":
            return self.one(st, ("it", tuple(reversed(its)), 0))
        if n == "enumerate":
            return self.one(st, ("it", tuple(pair(k(i), y) for i, y in enumerate(its)), 0))
        if n == "chain" and len(r) == 2:
            more = self.items(r[1])
            return None if more is None else self.one(st, ("it", its + tuple(more), 0))
        if n == "count":
            return self.one(st, k(len(its)))
        if n == "flatten":
            def g(i, out, s):
                if i == len(its):
                    yield s, ("it", tuple(out), 0), None, 0
                    return
                if self.items(its[i]) is not None:
                    yield from g(i + 1, out + list(self.items(its[i])), s)
                    return
                for j, pl, s2 in self._opt(its[i], s):
                    yield from g(i + 1, out + ([pl] if j == 1 else []), s2)
            return g(0, [], st)
        if n in ("map", "filter_map", "filter", "for_each", "flat_map", "map_while", "take_while") and len(a) == 2:
            return self.each(n, its, a[1], st, depth, stack, env)
        if n == "fold" and len(a) == 3:
            def f(i, acc, s, e):
                if i == len(its):
                    yield s, acc, e, 0
                    return
                for s2, v, e2, _ in self.apply(a[2], [acc, its[i]], s, depth, stack, e):
                    e2 = e if e2 is None else e2
                    if v[0] == "diverge":
                        yield s2, v, e2, 0
                    else:
                        yield from f(i + 1, self.resolve_refs(v, e2), s2, e2)
            return f(0, r[1], st, env)
        if n in ("skip", "take") and len(r) == 2 and isk(r[1]):
            return self.one(st, ("it", its[r[1][1]:] if n == "skip" else its[:r[1][1]], 0))
        if n == "try_fold" and len(a) == 3:
            def tf(i, acc, s, e):
                if i == len(its):
                    yield s, self.wrap(full, acc), e, 0
                    return
                for s2, v, e2, _ in self.apply(a[2], [acc, its[i]], s, depth, stack, e):
                    e2 = e if e2 is None else e2
                    if v[0] == "diverge" or v[0] != "agg" or v[1] not in ("std::option::Option", "std::result::Result"):
                        yield s2, v if v[0] == "diverge" else ("unk", str(v)[:40]), e2, 0
                    elif (v[2] == 1) == v[1].endswith("Option"):
                        yield from tf(i + 1, self.resolve_refs(v[3][0], e2), s2, e2)
                    else:
                        yield s2, v, e2, 0
            return tf(0, r[1], st, env)
        if n == "step_by" and len(r) == 2 and isk(r[1]) and r[1][1] > 0:
            return self.one(st, ("it", its[::r[1][1]], 0))
        if n in ("position", "find", "any", "all") and len(a) == 2:
            def f(i, s, e):
                if i == len(its):
                    yield s, NONE if n in ("position", "find") else k(int(n == "all")), e, 0
                    return
                for s2, v, e2, _ in self.apply(a[1], [its[i]], s, depth, stack, e):
                    e2 = e if e2 is None else e2
                    if v[0] == "diverge":
                        yield s2, v, e2, 0
                        continue
                    for tv, s3 in self.branch(s2, self.resolve_refs(v, e2), ["0", "1"], {"k": "bool"}):
                        if tv == ("0" if n == "all" else "1"):
                            yield s3, some(k(i) if n == "position" else its[i]) if n in ("position", "find") else k(int(n == "any")), e2, 0
                        else:
                            yield from f(i + 1, s3, e2)
            return f(0, st, env)
        if n == "last" and len(r) == 1:
            return self.one(st, some(its[-1]) if its else NONE)
        if n in ("collect", "from_iter"):
            dst = full.rsplit("::collect::<", 1)[-1] if n == "collect" else full.lstrip("<")
            head = dst.split("<")[0].rstrip(">")
            if head.endswith("vec::Vec"):
                return self.one(st, lst(its))
            if head.endswith("string::String") and all(isk(y) for y in its):
                return self.one(st, k("".join(chr(y[1]) if isinstance(y[1], int) else y[1] for y in its)))
            if head.endswith(("BTreeMap", "HashMap")):
                m = ()
                for y in its:
                    if not (y[0] == "agg" and y[1] == "()" and len(y[3]) == 2):
                        return None
                    q = self.put(m, *y[3])
                    if q is None:
                        return None
                    m = q[0]
                return self.one(st, ("map", m))
        return None

    def wrap(self, full, acc):
        return some(acc) if "Option<" in full.rsplit("try_fold::<", 1)[-1] else ok(acc)

    def each(self, n, its, f, st, depth, stack, env):
        def g(i, out, s, e):
            if i == len(its):
                yield s, (UNIT if n == "for_each" else ("it", tuple(out), 0)), e, 0
                return
            for s2, v, e2, _ in self.apply(f, [its[i]], s, depth, stack, e):
                e2 = e if e2 is None else e2
                if v[0] == "diverge":
                    yield s2, v, e2, 0
                    continue
                v = self.resolve_refs(v, e2)
                if n in ("map", "for_each"):
                    yield from g(i + 1, out + [v], s2, e2)
                elif n in ("filter_map", "map_while"):
                    for j, pl, s3 in self._opt(v, s2):
                        if j != 1 and n == "map_while":
                            yield s3, ("it", tuple(out), 0), e2, 0
                        else:
                            yield from g(i + 1, out + ([pl] if j == 1 else []), s3, e2)
                elif n in ("filter", "take_while"):
                    for tv, s3 in self.branch(s2, v, ["0", "1"], {"k": "bool"}):
                        if tv != "1" and n == "take_while":
                            yield s3, ("it", tuple(out), 0), e2, 0
                        else:
                            yield from g(i + 1, out + ([its[i]] if tv == "1" else []), s3, e2)
                else:
                    more = self.items(v)
                    if more is None:
                        self.uniq += 1
                        yield s2, ("unk", self.uniq), e2, 0
                    else:
                        yield from g(i + 1, out + list(more), s2, e2)
        return g(0, [], st, env)

    # ---- entry(key).or_insert(value)
    def m_or_insert(self, c, a, r, st, depth, stack, env):
        if not (r and r[0][0] == "agg" and r[0][1] == "entry"):
            return None
        raw = a[0]
        while raw[0] == "lref":
            raw = self.project_path(env.get(raw[1], ("sym", "uninit")), raw[2])
        ref = raw[3][0]
        m = self.resolve_refs(ref, env)
        if m[0] != "map":
            return None
        if any(w == r[0][3][1] for w, _ in m[1]):
            return iter([(st, ("sym", "entry"), None, 0)])
        q = self.put(m[1], r[0][3][1], r[1])
        env2 = q and self._set(env, ref, ("map", q[0]))
        return iter([(st, ("sym", "entry"), env2, 0)]) if env2 else None
