"""Rules over the driver layers: public parse methods, media sources, buffer primitives and the functions between them and the format parsers."""
import entry as E
import linterm
import lin as L
from entry import RD, PRE, SK, MEM, MP, BS, SRC, SLOT
from table import Tab, State, k, isk, ok, err, some, NONE, UNIT
from terms import walk, contains, calls, cname, short
from rules import common as C

ERR = "error::Error"
RES = "std::result::Result"
GIB = 1 << 30


def cached(ctx, name, fn):
    if name not in ctx.cache:
        ctx.cache[name] = fn(ctx.facts("all"))
    return ctx.cache[name]


def entry_traces(ctx):
    return cached(ctx, "entry", E.traces)


def inner_traces(ctx):
    return cached(ctx, "inner", E.inner_traces)


def probe_traces(ctx):
    """the motion photo probe of the Exif parse of a JPEG, followed to its last round"""
    def run(F):
        for u in (12, 40, 300):
            ts = E.inner_traces(F, unroll=u, only=("Jpeg", "parse_exif_iter"))
            more = [t for t in ts if t.val == ("diverge", "loop")]
            if not more or any(e[1] == "fill_buf" and not isk(e[2][-1]) for t in more for e in t.subs):
                break
        return ts
    return cached(ctx, "probe", run)


def strip(v):
    """the value a chain of From conversions and wrappers was applied to"""
    while isinstance(v, tuple) and v:
        if v[0] == "from":
            v = v[1]
        elif v[0] == "call" and cname(v[1]) in ("from", "into") and len(v[2]) == 1:
            v = v[2][0]
        else:
            break
    return v


def is_err_of(v, e):
    """v is Err(e) up to error conversions"""
    t, p = C.result(v)
    return t == "err" and strip(p) == e


def variant(F, v, adt):
    """name of the variant of adt that v is, or None"""
    v = strip(v)
    if v[0] == "agg" and v[1] == adt and v[2] is not None:
        return F.adt(adt)["vs"][v[2]]["n"]
    return None


def err_variant(F, v):
    t, p = C.result(v)
    return variant(F, p, ERR) if t == "err" else None


def io_events(t):
    """(label, id, failed) of every sub-call and read of a trace, in order"""
    out = []
    for e in t.st.events:
        if e[0] == "sub":
            c = t.st.cons.get(("disc", ("sub", e[1], e[3]), RES))
            out.append((e[1], e[3], None if c is None else c == ("=", 1), e))
        elif e[0] == "read":
            c = t.st.cons.get(("disc", ("sub", "read", e[5]), RES))
            out.append(("read", e[5], None if c is None else c == ("=", 1), e))
    return out


def key(t):
    return "%s/%s/%s/%s" % (t.side, t.fn.replace("_async", ""), t.mime, t.mode or "-")


def live(t):
    return t.val[0] != "diverge"


# ---------------------------------------------------------------- views
def view_of(v):
    """(base, start term) of a suffix view, (v, 0) for anything else"""
    if v[0] == "call" and cname(v[1]) == "index" and len(v[2]) == 2:
        r = v[2][1]
        if r[0] == "agg" and r[1] == "std::ops::RangeFrom":
            return v[2][0], r[3][0]
        if r[0] == "agg" and r[1] == "std::ops::RangeFull":
            return v[2][0], k(0)
        if r[0] == "agg" and r[1] == "std::ops::Range" and r[3][1] == ("len", v[2][0]):
            return v[2][0], r[3][0]
    if v[0] == "fld" and v[2] == 1 and v[1][0] == "call" and cname(v[1][1]) == "split_at":
        return v[1][2][0], v[1][2][1]
    if v[0] == "fld" and v[1][0] == "as" and v[1][1][0] == "call" and cname(v[1][1][1]) == "get":
        c = v[1][1]
        if c[2][1][0] == "agg" and c[2][1][1] == "std::ops::RangeFrom":
            return c[2][0], c[2][1][3][0]
    return v, k(0)


# ---------------------------------------------------------------- buffer primitives
OLD = ("sym", "held")
POS = ("sym", "pos")


def prim_runs(F, b, mem, args, sub=lambda c: None, who=MP):
    """analyses a primitive on a parser holding the bytes `held` at position `pos`; yields (T, state, value, final buffer state)"""
    T = E.Entry(F, sub)
    o = E.parser_obj(F, buf=NONE if mem else some(("vec", (("bytes", OLD),))), memory=some(MEM) if mem else NONE, position=POS, cached=("sym", "cached"))
    slot = o if who == MP else o[3][E.names(F, MP).index("state")]
    T.paths = 0
    for s, v, env in T.walk_env(b, [("lref", SLOT, ())] + list(args), State(), 0, (), None, {SLOT: slot}):
        ends = [(s, v, env)]
        if v[0] == "clo" and v[1] in F.bodies:
            ends = list(T.walk_env(F.bodies[v[1]], [v], s, 1, (b.id,), v[2], dict(env)))
        for s2, v2, env2 in ends:
            f = env2.get(SLOT, ("sym", "?"))
            f = T.resolve_refs(f, env2)
            if f[0] == "agg" and f[1] == BS:
                f = E.parser_obj(F, **dict(zip(E.names(F, BS), f[3])))
            yield T, s2, (v2 if v2[0] == "diverge" else T.resolve_refs(v2, env2)), E.state_of(F, f)


def prims(F, trait, name):
    """implementations of a buffer primitive for the parser and its buffer state"""
    out = []
    for who in (MP, BS):
        for b in C.impl_fns(F, trait, who, name):
            out.append((who, b))
    if not any(w == MP for w, _ in out):
        raise C.Anchor("%s::%s of the parser" % (trait, name))
    return out


def buffer_rule(ctx, F, seen=None):
    """buffer/clear/position/set_position/share_buf: what the drivers rely on"""
    def note(T):
        if seen is not None:
            seen.update(T.bodies_seen)

    def held(f, mem):
        return f is not None and f["buf"] == (NONE if mem else some(("vec", (("bytes", OLD),)))) and f["memory"] == (some(MEM) if mem else NONE)
    for mem in (False, True):
        md = "memory" if mem else "stream"
        src = MEM if mem else ("vec", (("bytes", OLD),))
        for who, b in prims(F, "parser::Buf", "buffer"):
            n = 0
            for T, s, v, f in prim_runs(F, b, mem, [], who=who):
                note(T)
                if v[0] == "diverge":
                    continue
                n += 1
                ctx.oblige("prim-buffer", "%s/%s" % (who, md), view_of(v) == (src, POS) and held(f, mem) and f["position"] == POS,
                           "buffer() is not the held bytes from the position on: %s" % short(F, v)[:200])
            ctx.floor("prim-buffer-%s-%s" % (who, md), n, 1)
        for who, b in prims(F, "parser::Buf", "position"):
            for T, s, v, f in prim_runs(F, b, mem, [], who=who):
                note(T)
                ctx.oblige("prim-position", "%s/%s" % (who, md), v == POS, "position() is %s" % short(F, v)[:200])
        for who, b in prims(F, "parser::Buf", "set_position"):
            for T, s, v, f in prim_runs(F, b, mem, [("sym", "x")], who=who):
                note(T)
                ctx.oblige("prim-set-position", "%s/%s" % (who, md), held(f, mem) and f["position"] == ("sym", "x"), "set_position(x) leaves %s" % str(f)[:200])
        for who, b in prims(F, "parser::Buf", "clear"):
            for T, s, v, f in prim_runs(F, b, mem, [], who=who):
                note(T)
                if v[0] == "diverge":
                    continue
                good = held(f, True) if mem else (f["buf"] == some(("vec", ())) and f["memory"] == NONE)
                ctx.oblige("prim-clear", "%s/%s" % (who, md), good, "clear() leaves %s" % str(f)[:200])
        for who, b in prims(F, "parser::ShareBuf", "share_buf"):
            n = 0
            for T, s, v, f in prim_runs(F, b, mem, [], who=who):
                note(T)
                if v[0] == "diverge":
                    continue
                n += 1
                good = v[0] == "agg" and len(v[3]) == 2 and strip(v[3][0]) == src and v[3][1] == POS
                ctx.oblige("prim-share", "%s/%s" % (who, md), good, "share_buf() gives %s" % short(F, v)[:200])
            ctx.floor("prim-share-%s-%s" % (who, md), n, 1)


def fill_rule(ctx, F, what, seen=None):
    """fill_buf, sync and async.  what: subset of {"bytes", "errors", "bound"}"""
    for side, trait in (("sync", "parser::BufParser"), ("async", "parser_async::AsyncBufParser")):
        b = C.impl_fn(F, trait, MP, "fill_buf")
        size = ("sym", "size")
        n = 0
        for mem in (False, True):
            for T, s, v, f in prim_runs(F, b, mem, [RD, size]):
                if seen is not None:
                    seen.update(T.bodies_seen)
                if v[0] == "diverge":
                    if {"bytes", "errors", "progress"} & what:
                        ctx.oblige("fill-total", "%s/%s" % (side, "memory" if mem else "stream"), v[1] in ("resume", "cdrop", "terminate", "unreachable"), "asking for more bytes can end in %s" % v[1])
                    continue
                n += 1
                rds = [e for e in s.events if e[0] == "read"]
                t, p = C.result(v)
                key = "%s/%s" % (side, "memory" if mem else "stream")
                if mem:
                    if {"bytes", "progress"} & what:
                        ctx.oblige("fill-memory", key, not rds and t == "err" and io_kind(F, p) == "UnexpectedEof", "asking for more bytes in memory mode gives %s" % short(F, v)[:200])
                    continue
                lt = SatLT()
                fs = lt.facts(s, lt.bounds(s))
                H = lt.lin(("len", ("vec", (("bytes", OLD),))))
                if not rds:
                    if "bytes" in what:
                        over = lt.entails(L.addc(L.add(H, lt.lin(size)), -GIB - 1), fs)
                        ctx.oblige("fill-refuses", key, t == "err" and over, "fill_buf gives up without reading: %s" % short(F, v)[:200])
                    continue
                e = rds[-1]
                if "bytes" in what:
                    ctx.oblige("fill-source", key, len(rds) == 1 and e[1] == "read_to_end" and e[2] == RD and e[4] == ("vec", (("bytes", OLD),)),
                               "fill_buf does not append the reader's next bytes to the held ones")
                    ctx.oblige("fill-amount", key, e[3] is not None and lt.entails(L.sub(lt.lin(e[3]), lt.lin(size)), fs), "fill_buf asks the reader for %s bytes instead of the size" % (short(F, e[3])[:200] if e[3] else "all"))
                if "bound" in what:
                    cap = e[3] is not None and lt.entails(L.addc(L.scale(L.add(H, lt.lin(e[3])), -1), GIB), fs)
                    ctx.oblige("fill-bound", key, cap, "fill_buf can grow the buffer beyond 1 GiB: it reads %s more" % (short(F, e[3])[:200] if e[3] else "everything"))
                failed = s.cons.get(("disc", ("sub", "read", e[5]), RES)) == ("=", 1)
                got = ("sym", "n%d" % e[5])
                if failed:
                    if "errors" in what:
                        ctx.oblige("fill-error", key, t == "err" and strip(p) == ("sym", "err%d" % e[5]), "a read error becomes %s" % short(F, v)[:200])
                elif t == "ok":
                    if {"bytes", "errors", "progress"} & what:
                        ctx.oblige("fill-progress", key, p == got and lt.entails(L.addc(lt.lin(got), -1), fs), "fill_buf succeeds without a new byte, or reports another number of bytes")
                    if "bytes" in what:
                        ctx.oblige("fill-keeps", key, f is not None and f["buf"] == some(("vec", (("bytes", OLD), ("read", RD, e[3], e[5])))) and f["position"] == POS,
                                   "after filling the parser holds something else than the old bytes and the new ones")
                else:
                    if "bytes" in what or "errors" in what:
                        zero = lt.entails(L.scale(lt.lin(got), -1), fs)
                        ctx.oblige("fill-eof", key, t == "err" and io_kind(F, p) == "UnexpectedEof" and zero, "after reading bytes fill_buf fails with %s" % short(F, v)[:200])
        ctx.floor("fill-paths-" + side, n, 4)


# ---------------------------------------------------------------- media sources
CTORS = [("sync", "seekable"), ("sync", "unseekable"), ("sync", "open"), ("sync", "from_memory"), ("sync", "from_bytes"),
         ("async", "seekable"), ("async", "unseekable"), ("async", "open"), ("async", "from_memory")]
BYTES, PATH = ("sym", "bytes"), ("sym", "path")


def finish(T, b, s, v, env):
    """follows a returned future to its end"""
    if v[0] == "call" and cname(v[1]) in ("pin", "new") and v[2] and v[2][0][0] == "clo":
        v = v[2][0]
    if v[0] == "clo" and v[1] in T.F.bodies:
        return list(T.walk_env(T.F.bodies[v[1]], [v], s, 1, (b.id,), v[2], dict(env)))
    return [(s, v, env)]


def source_runs(ctx, F, side, name):
    """(T, state, value, fields or None) of every path of a constructor"""
    def go(F):
        b = C.method(F, E.SRC[side], name)
        T = E.Entry(F, lambda c: None, opaque={b.id for b in F.bodies.values() if b.path.startswith(("file::", "<file::")) or b.d.get("trait") in ("std::convert::TryFrom", "std::convert::TryInto") and b.file.endswith("src/file.rs")})
        T.paths = 0
        arg = {"open": PATH, "from_memory": BYTES, "from_bytes": BYTES}.get(name, ("sym", "reader"))
        out = []
        for s, v, env in T.walk_env(b, [arg], State(), 0, (), None, {}):
            for s, v, env in finish(T, b, s, v, env):
                if v[0] == "diverge":
                    continue
                t, p = C.result(v)
                p = T.resolve_refs(p, env) if t == "ok" else p
                f = dict(zip(E.names(F, E.SRC[side]), p[3])) if t == "ok" and p[0] == "agg" and p[1] == E.SRC[side] else None
                out.append((T, s, v, f))
        return out
    n = "src/%s/%s" % (side, name)
    if n not in ctx.cache:
        ctx.cache[n] = go(F)
    return ctx.cache[n]


def skip_runs(T, F, fnv):
    """every path of a skip function: (state, value, events)"""
    v = fnv
    if v[0] == "clo" and v[1] in F.bodies:
        b = F.bodies[v[1]]
        args = [v, ("lref", 901, ()), ("sym", "n")]
    elif v[0] == "fn" and v[1] in F.bodies:
        b = F.bodies[v[1]]
        args = [("lref", 901, ()), ("sym", "n")]
    else:
        return None
    out = []
    for s, w, env in T.walk_env(b, args, State(), 0, (), v[2] if v[0] == "clo" else None, {901: ("sym", "R")}):
        for s, w, env in finish(T, b, s, w, env):
            out.append((s, w))
    return out


def skip_fn_ok(T, F, fnv, seeks):
    """None when the skip function seeks exactly n forward (or declines), else what is wrong"""
    rs = skip_runs(T, F, fnv)
    if rs is None:
        return "the skip function is %s" % short(F, fnv)[:120]
    n = 0
    for s, w in rs:
        if w[0] == "diverge":
            if w[1] not in ("cdrop", "resume", "terminate", "unreachable"):
                return "skipping can end in %s" % w[1]
            continue
        n += 1
        t, p = C.result(w)
        sk = [e for e in s.events if e[0] == "call" and cname(e[1]) in ("seek", "seek_relative")]
        other = [e for e in s.events if e[0] in ("read",) or (e[0] == "call" and cname(e[1]) in ("rewind", "consume", "set_position", "set_len", "read", "read_exact", "stream_position"))]
        if other:
            return "the skip function calls %s" % cname(other[0][1])
        if not seeks:
            if t != "ok" or p not in (k(0), k(False)) or sk:
                return "a source without seeking answers a skip with %s" % short(F, w)[:120]
            continue
        conv = [x for x in walk(w) if x[0] == "call" and cname(x[1]) in ("try_into", "try_from")]
        tooBig = any(e[0] == "disc" and c == ("=", 1) and any(cname(x[1]) in ("try_into", "try_from") for x in calls(e)) for e, c in s.cons.items())
        if not sk:
            if not (t == "err" and tooBig):
                return "the seek is skipped: %s" % short(F, w)[:120]
            continue
        if len(sk) != 1 or not amount_is_n(F, sk[0]):
            return "seeks by something else than the number of bytes to skip"
        res = [c for e, c in s.cons.items() if e[0] == "disc" and any(cname(x[1]) in ("seek", "seek_relative") for x in calls(e))]
        if t == "ok":
            if p not in (k(1), k(True)) or ("=", 1) in res:
                return "after a seek the skip function answers %s" % short(F, w)[:120]
        elif t == "err":
            if ("=", 1) not in res or not any(cname(x[1]) in ("seek", "seek_relative") for x in calls(p)):
                return "a successful seek is reported as %s" % short(F, w)[:120]
        else:
            return "the skip function returns %s" % short(F, w)[:120]
    return None if n >= (3 if seeks else 1) else "the skip function has %d outcomes" % n


def amount_is_n(F, e):
    a = e[2][-1]
    if cname(e[1]) == "seek":
        if a[0] != "agg" or not str(a[1]).endswith("io::SeekFrom") or not a[3]:
            return False
        adt = F.adts.get(a[1])
        if a[2] != (C.vidx(F, a[1], "Current") if adt else 2):
            return False
        a = a[3][0]
    while a[0] in ("fld", "as"):
        a = a[1]
    if a[0] == "cast" and a[-1] == ("sym", "n"):
        return False
    return a[0] == "call" and cname(a[1]) in ("try_into", "try_from") and a[2][-1] == ("sym", "n")


def source_rule(ctx, F, what=("bytes",), seen=None):
    """what: "bytes" (nothing of the source is lost before parsing), "skip", "errors", "bound", "memory" """
    for side, name in CTORS:
        nok = 0
        for T, s, v, f in source_runs(ctx, F, side, name):
            if seen is not None:
                seen.update(T.bodies_seen)
            kk = "%s/%s" % (side, name)
            t, p = C.result(v)
            rds = [e for e in s.events if e[0] == "read"]
            if t == "err" or (v[0] != "agg" and t != "ok"):
                if "errors" in what:
                    src = [("sym", "err%d" % e[5]) for e in rds if s.cons.get(("disc", ("sub", "read", e[5]), RES)) == ("=", 1)]
                    src += [("fld", ("as", e[1], 1), 0) for e, c in s.cons.items() if e[0] == "disc" and c == ("=", 1) and e[1][0] == "call" and cname(e[1][1]) in ("open", "try_into", "try_from")]
                    ctx.oblige("source-error", kk, len(src) == 1 and strip(p) == src[0], "opening a source fails with %s" % short(F, v)[:160])
                continue
            if f is None:
                ctx.oblige("source-shape", kk, False, "the constructor returns %s" % short(F, v)[:160])
                continue
            nok += 1
            if "errors" in what:
                bad = [e for e in rds if s.cons.get(("disc", ("sub", "read", e[5]), RES)) != ("=", 0)]
                opn = [e for e, c in s.cons.items() if e[0] == "disc" and c == ("=", 1) and e[1][0] == "call" and cname(e[1][1]) == "open"]
                ctx.oblige("source-error", kk + "/ok", not bad and not opn, "a source is built although reading or opening it failed")
            mem = name in ("from_memory", "from_bytes")
            head = f["mime"]
            while head[0] in ("fld", "as"):
                head = head[1]
            probe = head[2][0] if head[0] == "call" and cname(head[1]) in ("try_into", "try_from") and len(head[2]) == 1 else None
            if mem:
                src = strip(some_of(f["memory"]))
                if "memory" in what or "bytes" in what:
                    ctx.oblige("source-memory", kk, src == BYTES and f["buf"] in (("vec", ()), ("agg", "[]", None, ())) and not rds,
                               "the in-memory source holds %s" % short(F, f["memory"])[:160])
                if "probe" in what:
                    ctx.oblige("source-probe", kk, probe is not None and probe_ok(F, probe), "the kind is detected from %s" % short(F, probe or head)[:160])
                continue
            rdv = f["reader"]
            want = ("sym", "reader")
            fromfile = name == "open" and rdv[0] == "fld" and rdv[1][0] == "as" and rdv[1][1][0] == "call" and cname(rdv[1][1][1]) == "open" and rdv[1][1][2] == (PATH,) and rdv[1][2] == 0
            if "bytes" in what:
                ctx.oblige("source-reader", kk, rdv == want or fromfile, "the source keeps %s as its reader" % short(F, rdv)[:160])
                ctx.oblige("source-prefill", kk, f["buf"] == ("vec", tuple(("read", rdv, e[3], e[5]) for e in rds)) and all(e[2] == rdv for e in rds) and f["memory"] == NONE and not moved(s),
                           "bytes read while detecting the format are lost or altered: the source holds %s" % short(F, f["buf"])[:160])
            if "bound" in what:
                ctx.oblige("source-bound", kk, all(e[3] is not None and isk(e[3]) and e[3][1] <= GIB for e in rds), "opening a source reads without a bound")
            if "probe" in what:
                ctx.oblige("source-probe", kk, probe is not None and (strip(view_of(probe)[0]), view_of(probe)[1]) == (f["buf"], k(0)) and len(rds) == 1 and rds[0][3] == k(128), "the kind is detected from %s" % short(F, probe or head)[:160])
            if "skip" in what:
                w = skip_fn_ok(T, F, f["skip_by_seek"], name != "unseekable")
                ctx.oblige("source-skip", kk, w is None, w)
        ctx.floor("source-%s-%s" % (side, name), nok, 1)
    if "memory" in what or "bytes" in what:
        b = C.method(F, E.SRC["sync"], "into_empty")
        T = Tab(F)
        for s, v in T.run(b, [("sym", "ms")]):
            if v[0] == "diverge":
                continue
            nm = E.names(F, E.SRC["sync"])
            f = dict(zip(nm, v[3])) if v[0] == "agg" and v[1] == E.SRC["sync"] else {}
            ctx.oblige("source-convert", "into_empty", f and all(f[n] == ("fld", ("sym", "ms"), nm.index(n)) for n in ("buf", "mime", "memory")),
                       "converting a source gives %s" % short(F, v)[:160])


def some_of(v):
    return v[3][0] if v[0] == "agg" and v[3] else v


def moved(s):
    """calls that change where the reader stands"""
    return [e for e in s.events if e[0] == "call" and cname(e[1]) in ("seek", "rewind", "seek_relative", "consume", "read_exact", "read", "fill_buf", "read_buf", "bytes", "set_position")]


def probe_ok(F, v):
    """v is the first min(len, 128) bytes of the payload"""
    base, n = None, None
    if v[0] == "call" and cname(v[1]) == "index" and v[2][1][0] == "agg" and v[2][1][1] in ("std::ops::RangeTo", "std::ops::Range"):
        r = v[2][1]
        if r[1].endswith("Range") and r[3][0] != k(0):
            return False
        base, n = v[2][0], r[3][-1]
    if base is None or strip(base) != BYTES:
        return False
    return n[0] == "call" and cname(n[1]) == "min" and set(map(str, n[2])) == {str(("len", base)), str(k(128))}


# ---------------------------------------------------------------- public parse methods
def held_now(F, o):
    """("stream", parts) / ("memory", bytes) of the parser object at a call, None when unknown"""
    f = E.state_of(F, o)
    if f is None or f["position"] != k(0):
        return None
    if f["memory"] == NONE and f["buf"][0] == "agg" and f["buf"][3] and f["buf"][3][0][0] == "vec":
        return ("stream", f["buf"][3][0][1])
    if f["memory"] == some(MEM) and f["buf"] == NONE:
        return ("memory", MEM)
    return None


def entry_rule(ctx, F, seen=None):
    """at every hand-over the parser holds exactly what the source has delivered so far, and reads on from there"""
    n = 0
    for t in entry_traces(ctx):
        if not live(t):
            continue
        done = [("bytes", PRE)]
        for lab, i, failed, e in io_events(t):
            kk = "%s/%s" % (key(t), lab)
            n += 1
            if lab == "read":
                # only the motion-photo path reads into the buffer itself: it must append
                ok_ = t.mode == "stream" and e[2] == RD and e[4][0] == "vec" and e[4][1] == tuple(done)
                ctx.oblige("entry-read", kk, ok_, "a read goes to something else than the parser's own buffer, or from another reader")
                if not failed:
                    done.append(("read", RD, e[3], i))
                continue
            h = held_now(F, e[2][0])
            want = ("memory", MEM) if t.mode == "memory" else ("stream", tuple(done))
            ctx.oblige("entry-handover", kk, h == want, "the parser does not hold exactly the source's bytes when %s is called: %s" % (lab, short(F, e[2][0])[:200]))
            if lab == "fill_buf":
                ctx.oblige("entry-reader", kk, t.mode == "stream" and e[2][1] == RD, "fill_buf is given another reader, or asked to read in memory mode")
                if not failed:
                    done.append(("fill", i))
            else:
                ctx.oblige("entry-reader", kk, RD in e[2] and SK in e[2], "%s does not get the source's reader and skip function" % lab)
        # the motion photo parser and its tail see the whole buffer
        for e in t.st.events:
            if e[0] == "call" and cname(e[1]) == "find_motion_photo_offset":
                n += 1
                b, p = view_of(e[2][0])
                whole = b == (MEM if t.mode == "memory" else ("vec", tuple(done))) and p == k(0)
                drained = t.mode == "memory" or any(x[0] == "read" for x in done)
                ctx.oblige("entry-motion", key(t), whole and drained, "the motion photo is searched in %s" % short(F, e[2][0])[:200])
    ctx.floor("entry-handovers", n, 900)


def inner_rule(ctx, F, seen=None):
    """between the public methods and the format parsers nothing is dropped; the Exif block's bytes are those its range names"""
    n = 0
    for t in inner_traces(ctx):
        if not live(t):
            continue
        share = None
        loads = []
        for e in t.subs:
            lab = e[1]
            kk = "%s/%s" % (key(t), lab)
            if lab in ("fill_buf", "load_and_parse", "load_and_parse_with_offset", "clear_and_skip"):
                n += 1
                good = e[2][0] == E.PARSER and e[2][1] == RD and (lab == "fill_buf" or e[2][2] == SK)
                ctx.oblige("inner-reader", kk, good, "%s does not get the parser, its reader and skip function" % lab)
                if lab.startswith("load"):
                    loads.append(("sym", "val%d" % e[3]))
            if lab == "share_buf":
                ctx.oblige("inner-share", kk, share is None, "the buffer is shared twice")
                share = e[3]
            if lab in ("clear", "set_position"):
                ctx.oblige("inner-share", kk, False, "the parser's place is changed outside its driver")
        for e in t.st.events:
            if e[0] != "call" or cname(e[1]) not in ("slice", "split_to", "split_off", "slice_ref", "advance", "truncate"):
                continue
            n += 1
            ctx.oblige("inner-region", key(t), region_ok(F, e, share, loads), "the Exif block is taken from %s" % short(F, ("agg", "()", None, e[2]))[:240])
    ctx.floor("inner-steps", n, 150)


def region_ok(F, e, share, loads):
    if cname(e[1]) != "slice" or share is None or e[2][0] != ("sym", "full%d" % share):
        return False
    r = e[2][1]
    if r[0] != "agg" or r[1] != "std::ops::Range":
        return False
    lt = linterm.LT()
    P = lt.lin(("sym", "pos%d" % share))
    a, z = (L.sub(lt.lin(x), P) for x in r[3])
    for i, x in ((0, a), (1, z)):
        # the remaining term is the start/end of the range a format parser returned
        ts = [q for q, c in x.items() if q != () and c] if isinstance(x, dict) else None
        want = None
        for y in r[3][i:i + 1]:
            cand = [q for q in walk(y) if q[0] == "fld" and q[2] == i and lt.lin(q) == x and any(contains(q, l) for l in loads)]
            want = cand[0] if cand else None
        if want is None:
            return False
    # both ends from one range
    ea = [q for q in walk(r[3][0]) if q[0] == "fld" and q[2] == 0 and lt.lin(q) == a][0]
    ez = [q for q in walk(r[3][1]) if q[0] == "fld" and q[2] == 1 and lt.lin(q) == z][0]
    return ea[1] == ez[1]


def io_kind(F, p):
    p = strip(p)
    if p[0] == "agg" and str(p[1]).endswith("io::ErrorKind"):
        return p[1] and kind_name(F, p)
    if p[0] == "kx":
        return str(p[1]).rsplit("::", 1)[-1]
    return None


def kind_name(F, p):
    a = F.adts.get(p[1])
    if a:
        return a["vs"][p[2]]["n"]
    return "?%s" % (p[2],)


class SatLT(linterm.LT):
    """saturating arithmetic: sums compared with a constant behave like exact sums, differences need a >= b"""

    def bounds(self, s):
        return ()

    def lin(self, t):
        if t[0] == "call" and cname(t[1]) == "saturating_add" and len(t[2]) == 2:
            return L.add(self.lin(t[2][0]), self.lin(t[2][1]))
        if t[0] == "call" and cname(t[1]) == "saturating_sub" and len(t[2]) == 2 and t in getattr(self, "exact", ()):
            return L.sub(self.lin(t[2][0]), self.lin(t[2][1]))
        return super().lin(t)
