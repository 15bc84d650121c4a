"""Program model over the extracted MIR facts: bodies, CFG, call graph."""
from collections import defaultdict, deque


class Anchor(Exception):
    """a construct the rule is anchored on is missing -> fail closed"""


def is_trace_mac(m):
    return bool(m) and ("tracing" in m or "$crate::event!" in m or "callsite" in m
                        or "__tracing" in m or "span!" in m)


class Callee:
    __slots__ = ("id", "path", "full", "rpath", "rid", "args", "targs", "local", "trait", "ctor", "k", "name")

    def __init__(self, fn):
        self.k = fn
        self.path = fn.get("p")
        self.full = fn.get("full")
        self.id = fn.get("id")
        self.rpath = fn.get("rp") or fn.get("p")
        self.rid = fn.get("rid") or fn.get("id")
        self.args = fn.get("a") or []
        self.targs = fn.get("ra") or fn.get("a") or []
        self.trait = fn.get("tr")
        self.ctor = fn.get("ctor")
        self.local = fn.get("rlocal") if "rid" in fn else fn.get("local")
        self.name = self.path.rsplit("::", 1)[-1] if self.path else None

    def __repr__(self):
        return "<callee %s>" % self.rpath


def op_place(o):
    if o is None:
        return None
    return o.get("c") or o.get("m")


def op_const(o):
    return o.get("k") if o else None


def op_fn(o):
    k = op_const(o)
    if k and k.get("fn"):
        return Callee(k["fn"])
    return None


def rv_operands(r):
    out = []
    for key in ("o", "a", "b"):
        v = r.get(key)
        if isinstance(v, dict):
            out.append(v)
        elif isinstance(v, list) and r["r"] == "agg" and key == "o":
            out.extend(v)
    return out


def rv_places(r):
    out = [op_place(o) for o in rv_operands(r) if op_place(o)]
    if "p" in r and isinstance(r["p"], list):
        out.append(r["p"])
    return out


class Body:
    def __init__(self, facts, d):
        self.facts = facts
        self.d = d
        self.id = d["id"]
        self.path = d["path"]
        self.kind = d["kind"]
        self.phase = d["phase"]
        self.file = d["file"]
        self.line = d["line"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.mac = d.get("mac")
        self.parent = d.get("parent")
        self.exported = d.get("exported")
        self.reach = d.get("reach")
        self.name = self.path.rsplit("::", 1)[-1]
        self._succ = None

    def __repr__(self):
        return "<body %s>" % self.path

    # --- cfg
    def term(self, b):
        return self.blocks[b]["t"]

    def stmts(self, b):
        return self.blocks[b]["s"]

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t["t"]
        if k == "goto":
            return [t["to"]]
        if k == "switch":
            return [x[1] for x in t["tg"]] + ([t["ow"]] if t.get("ow") is not None else [])
        if k in ("call", "assert", "drop"):
            return [t["to"]] if t.get("to") is not None else []
        if k == "yield":
            return [t["to"]] if t.get("to") is not None else []
        if t.get("to") is not None and isinstance(t.get("to"), int):
            return [t["to"]]
        return []

    def reachable(self, start=0, avoid=()):
        seen = set()
        st = [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(self.succ(b))
        return seen

    def preds(self):
        p = defaultdict(list)
        for b in self.reachable():
            for s in self.succ(b):
                p[s].append(b)
        return p

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ(s))))
                    break
            else:
                st.pop()
                out.append(b)
        return out[::-1]

    def dominators(self):
        order = self.rpo()
        idx = {b: i for i, b in enumerate(order)}
        preds = self.preds()
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def dominates(self, idom, a, b):
        while True:
            if a == b:
                return True
            n = idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def loops(self):
        """natural loops: {head: set(blocks)}; irreducible back edges included"""
        idom = self.dominators()
        preds = self.preds()
        out = {}
        for b in list(idom):
            for s in self.succ(b):
                if s in idom and self.dominates(idom, s, b):
                    body = out.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        return out

    # --- calls
    def calls(self, reach=None):
        for b in sorted(reach if reach is not None else self.reachable()):
            t = self.blocks[b]["t"]
            if t["t"] == "call":
                yield b, t, op_fn(t["f"])

    def ty(self, i):
        return self.facts.types[i]

    def local_ty(self, l):
        return self.facts.types[self.locals[l]["ty"]]

    def assigns(self, reach=None):
        for b in sorted(reach if reach is not None else self.reachable()):
            for i, s in enumerate(self.blocks[b]["s"]):
                if s["s"] == "=":
                    yield b, i, s


class Facts:
    def __init__(self, raw, extra=None):
        self.raw = raw
        self.crate = raw["crate"]
        self.types = raw["types"]
        self.bodies = {}
        self.by_path = defaultdict(list)
        for d in raw["bodies"]:
            b = Body(self, d)
            self.bodies[b.id] = b
            self.by_path[b.path].append(b)
        self.adts = {a["p"]: a for a in raw["adts"]}
        self.impls = raw["impls"]
        self.items = raw["items"]
        # trait method -> local impl bodies
        self.trait_impls = defaultdict(list)
        self.trait_defaults = {}
        for b in self.bodies.values():
            if b.d.get("trait") and b.kind == "AssocFn":
                self.trait_impls[(b.d["trait"], b.name)].append(b)
            if b.d.get("intrait") and b.kind == "AssocFn":
                self.trait_defaults[(b.d["intrait"], b.name)] = b
        self.closures = defaultdict(list)
        for b in self.bodies.values():
            if b.kind == "Closure":
                self.closures[b.parent].append(b)
        self._edges = {}

    # functions that make up the product (no const/static bodies, no tracing scaffolding)
    def product(self):
        for b in self.bodies.values():
            if b.kind in ("Fn", "AssocFn", "Closure") and not is_trace_mac_body(b):
                yield b

    def find(self, suffix, kind=None):
        """bodies whose path equals or ends with ::suffix"""
        out = []
        for p, bs in self.by_path.items():
            if p == suffix or p.endswith("::" + suffix):
                out.extend(b for b in bs if kind is None or b.kind == kind)
        return out

    def one(self, suffix):
        r = [b for b in self.find(suffix) if b.kind in ("Fn", "AssocFn")]
        if len(r) != 1:
            raise Anchor("anchor %s: %d matches" % (suffix, len(r)))
        return r[0]

    def resolve(self, c):
        """local bodies a callee may run"""
        if c is None:
            return []
        if c.rid in self.bodies:
            b = self.bodies[c.rid]
            if b.d.get("intrait") and c.trait and c.rid == c.id:
                # unresolved (or default) trait method: all impls as well
                outs = [b] + self.trait_impls.get((c.trait, c.name), [])
                return outs
            return [b]
        if c.trait and c.rid == c.id:
            return list(self.trait_impls.get((c.trait, c.name), []))
        return []

    def edges(self, b):
        """[(block, kind, target body)] for everything b may (transitively hand out to) run"""
        if b.id in self._edges:
            return self._edges[b.id]
        out = []
        for blk in sorted(b.reachable()):
            for s in b.blocks[blk]["s"]:
                if s["s"] != "=":
                    continue
                r = s["r"]
                if r["r"] == "agg" and r.get("ak") in ("closure", "coroutine"):
                    t = self.bodies.get(r.get("id") or r.get("p"))
                    if t is None:
                        t = self._closure_by(r)
                    if t is not None:
                        out.append((blk, "closure", t))
                for o in rv_operands(r):
                    self._op_edges(o, blk, out)
            t = b.blocks[blk]["t"]
            if t["t"] == "call":
                c = op_fn(t["f"])
                for x in self.resolve(c):
                    out.append((blk, "call", x))
                for a in t["a"]:
                    self._op_edges(a, blk, out)
            elif t["t"] == "drop":
                pass
        # promoted closures (non-capturing closures stored in constants)
        for p in b.d.get("proms") or []:
            for blk in p.get("blocks", []):
                for s in blk["s"]:
                    if s["s"] == "=" and s["r"]["r"] == "agg" and s["r"].get("ak") == "closure":
                        t = self._closure_by(s["r"])
                        if t is not None:
                            out.append((0, "closure", t))
        self._edges[b.id] = out
        return out

    def _closure_by(self, r):
        for k in ("id", "p"):
            v = r.get(k)
            if v in self.bodies:
                return self.bodies[v]
        v = r.get("p")
        bs = self.by_path.get(v) or []
        return bs[0] if len(bs) == 1 else None

    def _op_edges(self, o, blk, out):
        k = op_const(o)
        if not k:
            return
        if k.get("fn"):
            c = Callee(k["fn"])
            for x in self.resolve(c):
                out.append((blk, "fnptr", x))
        else:
            t = self.types[k["ty"]] if isinstance(k.get("ty"), int) else None
            if t and t["k"] == "closure" and t["id"] in self.bodies:
                out.append((blk, "closure", self.bodies[t["id"]]))

    def closure_of(self, roots):
        """transitive set of bodies reachable from roots; returns {id: (pred id, blk)}"""
        seen = {}
        dq = deque()
        for r in roots:
            seen[r.id] = None
            dq.append(r)
        while dq:
            b = dq.popleft()
            for blk, _, t in self.edges(b):
                if t.id not in seen:
                    seen[t.id] = (b.id, blk)
                    dq.append(t)
        return seen

    def call_path(self, seen, bid):
        out = []
        while bid is not None:
            out.append(self.bodies[bid].path)
            p = seen[bid]
            bid = p[0] if p else None
        return out[::-1]

    def adt(self, p):
        if p not in self.adts:
            raise Anchor("type %s not found" % p)
        return self.adts[p]


def is_trace_mac_body(b):
    if b.mac and ("callsite" in b.mac or "$crate::event!" in b.mac or "fieldset!" in b.mac or "span!" in b.mac):
        return True
    return "__CALLSITE" in b.path
