"""Rules on the paths of the public entry points (see flow.py for the analyses they share)."""
import entry as E
import linterm
import lin as L
from collections import defaultdict
from entry import RD, PRE, SK, MEM, MP, BS
from table import Tab, State, k, isk, ok, err, some, NONE, UNIT
from terms import walk, contains, calls, cname, short
from rules import common as C
from rules import canon
from rules.flow import (entry_traces, inner_traces, probe_traces, io_events, strip, is_err_of, err_variant, variant, key, live, view_of, held_now, io_kind, kind_name,
                        prim_runs, prims, SatLT, ERR, RES, GIB, source_runs, finish, PATH, BYTES)

PD = "error::ParsedError"
LOCAL = lambda p: not p.lstrip("<").startswith(("std::", "core::", "alloc::", "bytes::", "tokio::", "tracing"))


# ---------------------------------------------------------------- sync/async and stream/memory agreement
def closures(F):
    """a substitution that replaces function values by what they do"""
    lab = E.inner_label(F)
    opq = {b.id for b in F.bodies.values() if b.kind in ("Fn", "AssocFn")}
    memo = {}

    def f(cn, t):
        if t[:1] == ("clo",) and len(t) == 3 or (t[:1] == ("fn",) and len(t) > 1 and t[1] in F.bodies):
            if t not in memo:
                memo[t] = None
                memo[t] = canon.behaviour(F, t, lambda: E.Inner(F, lab, opaque=opq), canon.unasync)
            return memo[t]
        if t[:1] == ("agg",) and t[1] == MP:
            h = held_now(F, t)
            return ("held",) + tuple(cn.term(x) for x in h) if h else None
    return f


def canonical(t, F, clos, path=lambda p: p, sub=None, drop=()):
    cn = canon.Canon(path=path)
    cn.sub = lambda x: (sub(cn, x) if sub else None) or clos(cn, x)
    evs, cons, v = canon.trace(t, cn, F, events=lambda e: LOCAL(e[1]), drop=drop)
    cons = frozenset(x for x in cons if "capacity" not in repr(x))
    return evs, cons, v


def differ(F, a, b):
    """what one set of canonical traces has and the other has not"""
    for x in sorted(a - b, key=repr)[:1]:
        return "%s after %s" % (short(F, x[2])[:120] if isinstance(x[2], tuple) else x[2], [y[1] for y in x[0]][-6:])
    return ""


def async_rule(ctx, F):
    clos = closures(F)
    for layer, ts in (("entry", entry_traces(ctx)), ("inner", inner_traces(ctx)), ("probe", probe_traces(ctx))):
        d = defaultdict(set)
        for t in ts:
            if live(t):
                d[(t.fn.replace("_async", ""), t.mime, t.mode, t.kind, t.side)].add(canonical(t, F, clos, canon.unasync))
        n = 0
        d = defaultdict(frozenset, {q: canon.fold(v) for q, v in d.items()})
        for kk in sorted(d, key=repr):
            fn, mime, mode, kind, side = kk
            if side != "sync":
                continue
            n += 1
            o = d.get(kk[:4] + ("async",), frozenset())
            if fn == "parse_track" and kind == "Image":
                # the async method refuses images outright (documented): nothing else may happen
                ctx.oblige("async-image", "%s/%s" % (mime, mode), o and all(err_variant(F, x[2]) == "TrackNotFound" and not x[0] for x in o), "an image gives something else than TrackNotFound")
                continue
            for s, a, b in (("sync", d[kk], o), ("async", o, d[kk])):
                ctx.oblige("async-same", "%s/%s/%s/%s" % (layer, fn, mime, mode or "-"), not (a - b), "only the %s version can give %s" % (s, differ(F, a, b)))
        ctx.floor("async-cases-" + layer, n, {"entry": 78, "inner": 9, "probe": 1}[layer])


def mode_rule(ctx, F):
    """an in-memory source is treated as a stream that has been filled"""
    clos = closures(F)

    def whole(cn, t):
        if t == MEM or (t[:1] == ("vec",) and t[1][:1] == (("bytes", PRE),)):
            return ("ALL",)
        if t[:1] == ("agg",) and t[1] == MP and held_now(F, t):
            return ("held-all",)
        if t[:1] == ("call",) and cname(t[1]) == "index" and view_of(t)[1] == k(0) and view_of(t)[0] != t:
            return cn.term(view_of(t)[0])
    d = defaultdict(set)
    for t in entry_traces(ctx):
        if not live(t):
            continue
        if any(x[2] for x in io_events(t) if x[0] in ("fill_buf", "read")):
            continue        # the stream ended or failed early: no in-memory counterpart
        x = canonical(t, F, clos, sub=whole, drop=("fill_buf", "read"))
        evs = tuple(e for e in x[0] if e[0] != "call" or "saturating" not in e[1])
        cons = frozenset(c for c in x[1] if not any(s in repr(c) for s in ("saturating_sub", "'read'", "is_empty", "kind")))
        if err_variant(F, t.val) is None and C.result(t.val)[0] == "err" and over_bound(F, t):
            continue        # a stream above the buffer's bound
        # which values are fresh depends on the reads that preceded them
        d[(t.side, t.fn, t.mime, t.mode)].add((evs, cons, x[2]))
    n = 0
    d = {q: canon.fold(v) for q, v in d.items()}
    for kk in sorted(d, key=repr):
        if kk[3] != "memory":
            continue
        n += 1
        o = d.get(kk[:3] + ("stream",), frozenset())
        for s, a, b in (("in-memory", d[kk], o), ("streamed", o, d[kk])):
            ctx.oblige("mode-same", "%s/%s/%s" % (kk[0], kk[1].replace("_async", ""), kk[2]), not (a - b), "only the %s source can give %s" % (s, differ(F, a, b)))
    ctx.floor("mode-cases", n, 70)
    # nothing below looks at how the source delivers
    for t in inner_traces(ctx):
        bad = [e for e in list(t.st.cons) + [t.val] for x in walk(e) if isinstance(x, tuple) and x[:1] == ("fld",) and x[1] == E.PARSER]
        ctx.oblige("mode-blind", "%s/%s/%s" % (t.side, t.fn.replace("_async", ""), t.mime), not bad, "the result depends on the parser's internal state")
    seen = set()
    import rules.flow as flow
    flow.buffer_rule(ctx, F, seen)
    flow.fill_rule(ctx, F, {"bytes"}, seen)
    flow.source_rule(ctx, F, {"memory"}, seen)
    allowed = {b.id for b in F.bodies.values() if b.kind in ("Fn", "AssocFn") and b.path.startswith(("parser::", "parser_async::", "<parser::"))} | seen
    for b in F.bodies.values():
        if b.id.split("::{closure")[0] not in allowed and any(c.name == "is_memory_mode" for c in all_calls(b)):
            ctx.oblige("mode-blind", b.path, False, "asks for the parser's delivery mode")


def over_bound(F, t):
    p = strip(C.result(t.val)[1])
    return io_kind(F, p) == "Unsupported" or any(io_kind(F, x) == "Unsupported" for x in walk(p) if isinstance(x, tuple))


# ---------------------------------------------------------------- I/O errors
def eof_excused(F, t, e, i, later):
    """the PNG exception: end of input while topping up a non-empty prefill"""
    if t.mime != "Png" or e[0] != "sub" or e[1] != "fill_buf" or any(x[0] == "fill_buf" for x in later):
        return False
    for c, v in t.st.cons.items():
        if c[0] == "op" and c[1] in ("Eq", "Ne"):
            a, b = c[2], c[3]
            if a[0] != "call":
                a, b = b, a
            if a[0] == "call" and cname(a[1]) == "kind" and strip(a[2][0]) == ("sym", "err%d" % i) and io_kind(F, b) == "UnexpectedEof":
                return (v == ("=", 1)) == (c[1] == "Eq")
        if c[0] == "disc" and c[1][0] == "call" and cname(c[1][1]) == "kind" and strip(c[1][2][0]) == ("sym", "err%d" % i) and v[0] == "=":
            a = F.adts.get("std::io::ErrorKind")
            return a is not None and a["vs"][v[1]]["n"] == "UnexpectedEof"
    return False


def errors_rule(ctx, F):
    n = m = 0
    for layer, ts in (("entry", entry_traces(ctx)), ("inner", inner_traces(ctx))):
        for t in ts:
            if not live(t):
                if t.val[1] == "loop":
                    ev = io_events(t)
                    probing = layer == "inner" and t.mime == "Jpeg"
                    ctx.oblige("error-continue", key(t), probing or not any(x[2] for x in ev), "the method goes on after a failed read")
                continue
            ev = [x for x in io_events(t) if x[0] in ("fill_buf", "read", "load_and_parse", "load_and_parse_with_offset", "clear_and_skip", "parse_exif_iter", "parse_png_full")]
            kk = "%s/%s" % (layer, key(t))
            for j, (lab, i, failed, e) in enumerate(ev):
                if not failed:
                    continue
                m += 1
                if is_err_of(t.val, ("sym", "err%d" % i)):
                    ctx.oblige("error-reported", kk + "/" + lab, j == len(ev) - 1 or all(not x[2] for x in ev[j + 1:]) and False, "after %s failed the method goes on with %s" % (lab, [x[0] for x in ev[j + 1:]]))
                    continue
                if layer == "entry" and eof_excused(F, t, e, i, ev[j + 1:]):
                    ctx.oblige("error-png-eof", kk, j == 0 and held_now(F, e[2][0]) == ("stream", (("bytes", PRE),)), "the end of input is ignored elsewhere than on the first fill")
                    continue
                probe = layer == "inner" and t.mime == "Jpeg" and lab == "fill_buf" and any(c[0] == "call" and cname(c[1]) == "scan_motion_photo" for c in t.st.events)
                ctx.oblige("error-reported", kk + "/" + lab, probe, "a failure of %s gives %s" % (lab, short(F, t.val)[:160]))
            if ev and not any(x[2] for x in ev):
                n += 1
                tt, p = C.result(t.val)
                if tt == "err" and io_kind(F, p) is not None:
                    pass
    ctx.floor("error-paths", m, 300)
    # the errors' own conversions
    conv = [("std::io::Error", PD), (PD, ERR), ("std::io::Error", ERR)]
    T = Tab(F)
    b = [x for x in C.impl_fns(F, "std::convert::From", PD, "from")]
    for x in b:
        for st, v in T.run(x, [("sym", "e")]):
            if v[0] != "diverge":
                ctx.oblige("error-convert", "io->parsed", v == ("agg", PD, C.vidx(F, PD, "IOError"), (("sym", "e"),)), "an I/O error becomes %s" % short(F, v)[:120])
    got = set()
    want = {"IOError": "Io", "Failed": "Malformed", "NoEnoughBytes": "UnexpectedEof"}
    for x in C.impl_fns(F, "std::convert::From", ERR, "from"):
        aty = x.locals[1].get("ty")
        a = F.types[aty] if aty is not None and not isinstance(aty, str) else {}
        src = a.get("p") or a.get("s")
        if src == PD:
            for vn, to in want.items():
                i = C.vidx(F, PD, vn)
                fs = tuple(("sym", "p%d" % j) for j in range(len(F.adt(PD)["vs"][i]["fs"])))
                for st, v in T.run(x, [("agg", PD, i, fs)]):
                    if v[0] == "diverge":
                        continue
                    got.add(vn)
                    good = v[0] == "agg" and v[1] == ERR and F.adt(ERR)["vs"][v[2]]["n"] == to
                    if good and fs:
                        names = [f["n"] for f in F.adt(PD)["vs"][i]["fs"]]
                        tn = [f["n"] for f in F.adt(ERR)["vs"][v[2]]["fs"]]
                        good = v[3] == fs if names == tn or len(fs) == 1 else all(v[3][tn.index(q)] == f for q, f in zip(names, fs))
                    ctx.oblige("error-convert", "parsed/" + vn, good, "%s becomes %s" % (vn, short(F, v)[:120]))
        elif src and src.endswith("io::Error"):
            got.add("io")
            for st, v in T.run(x, [("sym", "e")]):
                if v[0] != "diverge":
                    ctx.oblige("error-convert", "io->error", v == ("agg", ERR, C.vidx(F, ERR, "Io"), (("sym", "e"),)), "an I/O error becomes %s" % short(F, v)[:120])
    ctx.floor("error-conversions", len(got), 4)


# ---------------------------------------------------------------- reuse
def reuse_rule(ctx, F):
    """whatever the parser object holds from before, a parse starts clean and leaves it clean"""
    n = 0
    old = lambda v: any(isinstance(x, tuple) and x[:1] == ("sym",) and str(x[1]).startswith("old.") and x[1] != "old.cached" for x in walk(v))
    for t in entry_traces(ctx):
        n += 1
        kk = key(t)
        if not live(t):
            ctx.oblige("reuse-total", kk, t.val[1] not in ("panic", "panic_fmt", "abort") and not str(t.val[1]).startswith("assert"), "left-over state can make the method panic (%s)" % t.val[1])
            continue
        for e in t.st.events:
            if e[0] in ("sub", "read"):
                for x in e[2:]:
                    if isinstance(x, tuple):
                        bad = [y for y in walk(x) if isinstance(y, tuple) and y[:1] == ("sym",) and str(y[1]).startswith("old.") and y[1] != "old.cached"]
                        ctx.oblige("reuse-clean", kk, not bad, "%s sees %s of an earlier parse" % (e[1], bad[:1]))
        ctx.oblige("reuse-result", kk, not old(t.val) and "old.cached" not in repr(t.val), "the result contains state of an earlier parse: %s" % short(F, t.val)[:160])
        # decisions: the only thing an earlier parse leaves is the buffer it may recycle
        dep = [e for e in t.st.cons if old(e)]
        ctx.oblige("reuse-decides", kk, not dep, "the path depends on %s" % (short(F, dep[0])[:120] if dep else ""))
        f = t.final
        good = f is not None and f["memory"] == NONE
        ctx.oblige("reuse-leaves", kk, good, "after the call the parser keeps %s" % {q: short(F, v)[:60] for q, v in (f or {}).items() if q != "cached"})
        # recycling: only memory nobody shares, and only its allocation
        for e in t.st.events:
            if e[0] == "sub" and contains(e[2], ("sym", "old.cached")):
                h = E.state_of(F, e[2][0])
                inbuf = h is None or contains(h["buf"], ("sym", "old.cached")) or contains(h["memory"], ("sym", "old.cached"))
                ctx.oblige("reuse-recycle", kk, not inbuf and not any(contains(x, ("sym", "old.cached")) for x in e[2][1:]), "bytes of an earlier parse reach %s" % e[1])
    ctx.floor("reuse-paths", n, 500)
    # whatever is recycled, the same things happen and the same result comes out
    clos = closures(F)
    g = defaultdict(lambda: defaultdict(set))
    for t in entry_traces(ctx):
        if live(t):
            sig = frozenset((repr(e), c) for e, c in t.st.cons.items() if canon.mentions_old(e))
            g[key(t)][sig].add(canonical(t, F, clos))
    for kk, d in sorted(g.items()):
        ctx.oblige("reuse-same", kk, len({canon.fold(x) for x in d.values()}) == 1, "the outcome depends on what an earlier parse left behind")
    # recycled allocations are taken back only when nothing else shares them
    unshared(ctx, F)


def unshared(ctx, F):
    n = 0
    for t in entry_traces(ctx):
        if t.mode != "stream":
            continue
        for e in t.st.events:
            if e[0] == "call" and any(contains(x, ("sym", "old.cached")) for x in e[2]):
                n += 1
                good = cname(e[1]) in ("try_into_mut", "is_unique", "capacity", "len", "is_empty", "clear", "shrink_to", "shrink_to_fit", "truncate", "into", "from", "drop", "reserve")
                ctx.oblige("reuse-unshared", key(t), good, "the recycled buffer is used through %s" % e[1])
    ctx.floor("reuse-recycle", n, 60)


# ---------------------------------------------------------------- memory mode shares, never copies
COPY = ("to_vec", "copy_from_slice", "to_owned", "extend_from_slice", "into_vec", "clone_from_slice", "concat", "extend", "append", "copy_to_bytes")


def memory_rule(ctx, F):
    n = 0
    for t in entry_traces(ctx):
        if t.mode != "memory":
            continue
        n += 1
        for e in t.st.events:
            if e[0] == "call" and cname(e[1]) in COPY and any(contains(x, MEM) for x in e[2]):
                ctx.oblige("memory-shared", key(t), False, "the payload is copied by %s" % e[1])
            if e[0] == "read":
                ctx.oblige("memory-shared", key(t), False, "an in-memory source is read through %s" % e[1])
            if e[0] == "sub":
                h = E.state_of(F, e[2][0])
                ctx.oblige("memory-shared", key(t), h is not None and h["memory"] == some(MEM) and h["buf"] == NONE, "%s gets %s instead of the caller's payload" % (e[1], short(F, e[2][0])[:160]))
    ctx.floor("memory-paths", n, 80)
    for who, b in prims(F, "parser::ShareBuf", "share_buf"):
        for T, s, v, f in prim_runs(F, b, True, [], who=who):
            if v[0] != "diverge":
                ctx.oblige("memory-share", who, v[0] == "agg" and v[3][0] == MEM and f is not None and f["cached"] == ("sym", "cached"), "share_buf gives %s" % short(F, v)[:160])
    m = 0
    for t in inner_traces(ctx):
        if not live(t):
            continue
        for e in t.st.events:
            if e[0] == "call" and cname(e[1]) == "input_into_iter":
                m += 1
                v = strip(e[2][0])
                legacy = t.mime == "Png" and v[0] in ("fld", "as") and not contains(v, ("sym", "parser"))
                shared = v[0] == "call" and cname(v[1]) == "slice" and "bytes::Bytes" in v[1]
                ctx.oblige("memory-view", key(t), shared or legacy, "the Exif block is %s instead of a view of the payload" % short(F, v)[:160])
            if e[0] == "call" and cname(e[1]) in COPY and any(str(y[1]).startswith(("full", "buffer")) for x in e[2] for y in walk(x) if isinstance(y, tuple) and y[:1] == ("sym",)):
                ctx.oblige("memory-view", key(t), False, "the payload is copied by %s" % e[1])
    ctx.floor("memory-views", m, 30)


# ---------------------------------------------------------------- kinds
def kind_rule(ctx, F):
    n = 0
    hits = defaultdict(set)
    for t in entry_traces(ctx):
        fn = t.fn.replace("_async", "")
        if not live(t):
            continue
        wrong = (fn == "parse_track") == (t.kind == "Image")
        subs = [x for x in io_events(t) if x[0] not in ("fill_buf", "read")]
        failed = [x for x in io_events(t) if x[2]]
        kk = key(t)
        n += 1
        if wrong:
            motion = t.side == "sync" and t.mime == "Jpeg" and fn == "parse_track"
            ctx.oblige("kind-parsers", kk, not subs, "%s runs on a source of the other kind" % [x[0] for x in subs][:1])
            w = "TrackNotFound" if fn == "parse_track" else "ExifNotFound"
            got = err_variant(F, t.val)
            hits[(t.side, fn, t.mime, t.mode)].add(got)
            if failed or got == w:
                continue
            if motion:
                found = any(e[0] == "disc" and c == ("=", 1) and any(cname(x[1]) == "find_motion_photo_offset" for x in calls(e)) and e[1][0] == "call" and cname(e[1][1]) == "find_motion_photo_offset" for e, c in t.st.cons.items())
                over = over_bound(F, t) if C.result(t.val)[0] == "err" else False
                ctx.oblige("kind-motion", kk, found or over, "a JPEG without a motion photo gives %s" % short(F, t.val)[:160])
                continue
            ctx.oblige("kind-mismatch", kk, False, "the wrong kind of source gives %s instead of %s" % (short(F, t.val)[:160], w))
        else:
            # the right parser, with the source's own format
            want = {"parse_exif": "parse_exif_iter", "parse_track": "load_and_parse", "parse_image_metadata": "parse_png_full" if t.mime == "Png" else "parse_exif_iter"}[fn]
            ctx.oblige("kind-route", kk, bool(failed) or [x[0] for x in subs] == [want], "the source is handed to %s" % [x[0] for x in subs])
            for lab, i, f, e in subs:
                if lab == "parse_exif_iter":
                    ctx.oblige("kind-mime", kk, t.mimev[3][0] in e[2], "the format handed on is not the source's")
                if not f:
                    val = ("sym", "val%d" % i)
                    tt, p = C.result(t.val)
                    if fn == "parse_image_metadata" and lab == "parse_exif_iter":
                        ctx.oblige("kind-result", kk, tt == "ok" and p[0] == "agg" and some(val) in p[3] and NONE in p[3], "the parse result becomes %s" % short(F, t.val)[:160])
                    elif lab == "parse_png_full":
                        ex, tx = ("fld", val, 0), ("fld", val, 1)
                        none = t.st.cons.get(("disc", ex, "std::option::Option")) in (("=", 0), ("!=", frozenset({1})))
                        empty = [c for c0, c in t.st.cons.items() if c0[0] == "call" and cname(c0[1]) == "is_empty" and contains(c0, tx)]
                        if tt == "err":
                            ctx.oblige("kind-png-empty", kk, none and ("=", 1) in empty and err_variant(F, t.val) == "ExifNotFound", "a PNG with metadata is refused: %s" % short(F, t.val)[:160])
                        else:
                            has = contains(p, tx)
                            ctx.oblige("kind-png", kk, tt == "ok" and p[0] == "agg" and p[3][0] == ex or (none and p[3][0] == NONE), "the PNG's Exif becomes %s" % short(F, t.val)[:160])
                            ctx.oblige("kind-png", kk, has or ("=", 1) in empty, "the PNG's text chunks are dropped")
                            ctx.oblige("kind-png", kk, not (none and ("=", 1) in empty), "a PNG without metadata is reported as having some")
                    else:
                        ctx.oblige("kind-result", kk, tt == "ok" and strip(p) == val, "the parse result becomes %s" % short(F, t.val)[:160])
    for kk, got in sorted(hits.items(), key=repr):
        ctx.oblige("kind-refused", "/".join(kk), ("TrackNotFound" if kk[1] == "parse_track" else "ExifNotFound") in got, "the wrong kind is never refused")
    ctx.floor("kind-paths", n, 500)
    for side in ("sync", "async"):
        b = C.method(F, E.SRC[side], "kind")
        for kind, mn, mime in E.mimes(F):
            nm = E.names(F, E.SRC[side])
            obj = ("agg", E.SRC[side], None, tuple(mime if q == "mime" else ("sym", "ms." + q) for q in nm))
            for s, v in Tab(F).run(b, [obj]):
                if v[0] != "diverge":
                    ctx.oblige("kind-of", "%s/%s" % (side, mn), variant(F, v, "parser::MediaKind") == kind, "a %s is reported as %s" % (mn, short(F, v)[:80]))
    for t in inner_traces(ctx):
        if not live(t) or any(x[2] for x in io_events(t) if x[0] != "fill_buf"):
            continue
        tt, p = C.result(t.val)
        if tt == "err" and not calls(p):
            vn = variant(F, p, ERR)
            ctx.oblige("kind-absent", key(t), vn == "ExifNotFound" or (t.mime == "Cr3" and vn == "Malformed"), "an image without Exif gives %s" % short(F, t.val)[:160])
    route_rule(ctx, F)


EXTRACT = {"Jpeg": "jpeg", "Heic": "heif", "Heif": "heif", "Avif": "heif", "Tiff": "exif", "Raf": "raf", "Cr3": "cr3", "Png": "png"}


def route_rule(ctx, F):
    """each image format is handed to its own module"""
    opq = {b.id for b in F.bodies.values() if b.kind in ("Fn", "AssocFn") and b.path.split("::")[0].lstrip("<").split(" ")[0] in ("jpeg", "heif", "png", "cr3", "raf", "mov", "bbox", "ebml", "file", "slice", "values")}
    opq |= {b.id for b in F.bodies.values() if b.path.startswith(("exif::exif_iter::", "exif::exif_exif::"))}
    done = set()
    for t in inner_traces(ctx):
        loads = [e for e in t.subs if e[1].startswith("load")]
        if not loads or t.fn.replace("_async", "") != "parse_exif_iter":
            continue
        e = loads[0]
        clo = [x for x in e[2] if x[0] in ("clo", "fn")]
        if not clo or (t.side, t.mime) in done:
            continue
        done.add((t.side, t.mime))
        T = Tab(F, opaque=opq, max_paths=4000)
        T.paths = 0
        b = F.bodies[clo[0][1]]
        args = ([clo[0]] if clo[0][0] == "clo" else []) + [("sym", "data"), ("sym", "state")]
        mods = set()
        raw = 0
        for s, v, env in T.walk_env(b, args, State(), 0, (), clo[0][2] if clo[0][0] == "clo" else None, {}):
            raw += 1
            ps = [c[1] for c in s.events if c[0] == "call"] + [c[1] for e in list(s.cons) + [v] if isinstance(e, tuple) for c in calls(e)]
            mods |= {q.lstrip("<").split("::")[0] for q in ps} & set(EXTRACT.values()) - {"exif"}
        want = set() if EXTRACT.get(t.mime, "exif") == "exif" else {EXTRACT[t.mime]}
        extra = {"jpeg"} if t.mime == "Raf" else set()
        ctx.oblige("route-image", "%s/%s" % (t.side, t.mime), want <= mods <= want | extra, "a %s image is parsed by %s" % (t.mime, sorted(mods)))
    ctx.floor("route-images", len(done), 2 * sum(1 for x in E.mimes(F) if x[0] == "Image"))
    # tracks
    ts = [x for x in E.mimes(F) if x[0] == "Track"]
    b = C.one_fn(F, "parse_track_info")
    opq2 = {x.id for x in F.bodies.values() if x.kind in ("Fn", "AssocFn") and x.id != b.id}
    for kind, mn, mime in ts:
        T = Tab(F, opaque=opq2)
        names = [b.locals[i + 1].get("n") for i in range(b.argc)]
        args = [mime[3][0] if F.types[b.locals[i + 1]["ty"]].get("p") == F.types[F.adt(E.MIME)["vs"][C.vidx(F, E.MIME, "Track")]["fs"][0]["ty"]].get("p") else ("sym", "data") for i in range(b.argc)]
        fam = set()
        for s, v in T.run(b, args):
            for c in s.events:
                if c[0] == "call" and LOCAL(c[1]):
                    fam.add("ebml" if "webm" in c[1] else "isobmff" if c[1].startswith(("mov::", "bbox::")) or "isobmff" in c[1] else None)
        fam.discard(None)
        ctx.oblige("route-track", mn, fam == ({"ebml"} if mn in ("Webm", "Matroska") else {"isobmff"}), "a %s track is parsed as %s" % (mn, sorted(fam)))


# ---------------------------------------------------------------- one-shot helpers
HELPERS = {"read_exif": "exif", "read_exif_iter": "iter", "read_track": "track", "read_metadata": "meta"}


def helper_rule(ctx, F):
    """every one-shot helper is: open the given source, parse it with the matching method on a fresh parser, return that result"""
    n = 0
    for nm, b in sorted((b.name, b) for b in F.bodies.values() if b.kind == "Fn" and b.name.startswith("read_") and any(b.name == h + s for h in HELPERS for s in ("", "_async", "_from_bytes"))):
        base = nm.replace("_async", "").replace("_from_bytes", "")
        mem = nm.endswith("_from_bytes")
        side = "async" if nm.endswith("_async") else "sync"
        lab = {}
        for x in ("parse_exif", "parse_track", "parse_image_metadata"):
            y = C.method(F, MP, x + ("_async" if side == "async" else ""))
            lab[y.id] = x
        for x in ("seekable", "unseekable", "open") + (("from_memory",) if True else ()):
            y = C.method(F, E.SRC[side], x)
            lab[y.id] = x
        conv = {x.id for x in F.bodies.values() if x.kind == "AssocFn" and x.name in ("from", "into") and x.path.startswith(("exif::", "<exif::", "<Exif"))}
        T = E.Entry(F, lambda c: lab.get(c.rid) or lab.get(c.id), opaque=conv)
        T.paths = 0
        arg = BYTES if mem else PATH
        outs = []
        for s, v, env in T.walk_env(b, [arg], State(), 0, (), None, {}):
            for s, v, env in finish(T, b, s, v, env):
                if v[0] == "diverge":
                    continue
                outs.append((s, T.resolve_refs(v, env)))
        good = 0
        for s, v in outs:
            n += 1
            evs = [e for e in s.events if e[0] == "sub" or (e[0] == "call" and (cname(e[1]) in ("open", "from_memory", "read")))]
            labs = [e[1] if e[0] == "sub" else cname(e[1]) for e in evs]
            tt, p = C.result(v)
            opened = [e for e in s.events if e[0] == "call" and cname(e[1]) == "open"]
            if opened:
                oc = s.cons.get(("disc", ("call", opened[0][1], opened[0][2], opened[0][3] if len(opened[0]) > 3 else 0), RES))
                ctx.oblige("helper-open", nm, len(opened) == 1 and opened[0][2] == (PATH,), "opens something else than the given path")
                if oc is None:
                    oc = [c for e, c in s.cons.items() if e[0] == "disc" and e[1][0] == "call" and cname(e[1][1]) == "open"]
                    oc = oc[0] if oc else None
                if oc == ("=", 1):
                    q = strip(p)
                    ctx.oblige("helper-error", nm, tt == "err" and len(labs) == 1 and q[0] == "fld" and q[1][0] == "as" and q[1][2] == 1 and cname(q[1][1][1]) == "open", "failing to open gives %s" % short(F, v)[:120])
                    continue
            subs = [e for e in s.events if e[0] == "sub"]
            fails = [e for e in subs if s.cons.get(("disc", ("sub", e[1], e[3]), RES)) == ("=", 1)]
            if fails:
                ctx.oblige("helper-error", nm, fails[0] is subs[-1] and is_err_of(v, ("sym", "err%d" % fails[0][3])), "a failure of %s gives %s" % (fails[0][1], short(F, v)[:120]))
                if fails[0][1] in ("seekable", "open", "from_memory", "unseekable"):
                    continue
            want0 = ("from_memory",) if mem else ("seekable", "open", "unseekable")
            if not (len(subs) == 2 and subs[0][1] in want0):
                ctx.oblige("helper-steps", nm, False, "the helper does %s" % [e[1] for e in subs])
                continue
            a0 = strip(subs[0][2][0])
            fromopen = a0[0] == "fld" and a0[1][0] == "as" and a0[1][1][0] == "call" and cname(a0[1][1][1]) == "open"
            ctx.oblige("helper-source", nm, a0 in (PATH, BYTES) and a0 == arg or fromopen and not mem, "the source is built from %s" % short(F, a0)[:120])
            ms = ("sym", "val%d" % subs[0][3])
            h = E.state_of(F, subs[1][2][0])
            fresh = h is not None and h["buf"] == NONE and h["memory"] == NONE and h["cached"] == NONE and h["position"] == k(0)
            ctx.oblige("helper-parser", nm, fresh and subs[1][2][1] == ms, "parses %s" % short(F, subs[1][2][1])[:120])
            kinds = [c for e, c in s.cons.items() if any(cname(x[1]) == "kind" for x in calls(e)) or contains(e, ms)]
            m = subs[1][1]
            if base in ("read_exif", "read_exif_iter"):
                ctx.oblige("helper-method", nm, m == "parse_exif", "calls %s" % m)
            elif base == "read_track":
                ctx.oblige("helper-method", nm, m == "parse_track", "calls %s" % m)
            else:
                mk = mime_kind(F, s, ms, side)
                ctx.oblige("helper-method", nm, (m, mk) in (("parse_exif", "Image"), ("parse_image_metadata", "Image"), ("parse_track", "Track")), "calls %s for %s" % (m, mk))
            if not fails:
                good += 1
                x = p
                if base == "read_metadata":
                    x = p[3][0] if p[0] == "agg" and p[3] and F.adt(p[1])["vs"][p[2]]["n"] == ("Exif" if m == "parse_exif" else "Track") else ("?",)
                ctx.oblige("helper-result", nm, tt == "ok" and strip(x) == ("sym", "val%d" % subs[1][3]), "returns %s" % short(F, v)[:120])
        ctx.floor("helper-" + nm, good, 2 if base == "read_metadata" else 1)
    ctx.floor("helper-paths", n, 40)
    for nm in ("parse_exif_from_bytes", "parse_track_from_bytes"):
        b = C.method(F, MP, nm)
        y = C.method(F, MP, nm.replace("_from_bytes", ""))
        T = E.Entry(F, lambda c: "parse" if c.rid == y.id or c.id == y.id else None)
        T.paths = 0
        nn = E.names(F, E.SRC["sync"])
        ms = ("agg", E.SRC["sync"], None, tuple(("sym", "ms." + q) for q in nn))
        for s, v, env in T.walk_env(b, [("lref", E.SLOT, ()), ms], State(), 0, (), None, {E.SLOT: E.parser_obj(F)}):
            if v[0] == "diverge":
                continue
            subs = [e for e in s.events if e[0] == "sub"]
            good = len(subs) == 1
            if good:
                f = dict(zip(nn, subs[0][2][1][3])) if subs[0][2][1][0] == "agg" else {}
                good = f and all(f[q] == ("sym", "ms." + q) for q in ("memory", "mime", "buf"))
                tt, p = C.result(v)
                good = good and strip(p) == ("sym", ("val%d" if tt == "ok" else "err%d") % subs[0][3])
            ctx.oblige("helper-deprecated", nm, good, "the deprecated method gives %s" % short(F, v)[:120])


def mime_kind(F, s, ms, side):
    for e, c in s.cons.items():
        if e[0] == "disc" and contains(e, ms) and c[0] == "=":
            if e[2] == E.MIME:
                return F.adt(E.MIME)["vs"][c[1]]["n"]
            if e[2] == "parser::MediaKind":
                return F.adt(e[2])["vs"][c[1]]["n"]
        if e[0] == "disc" and contains(e, ms) and c[0] == "!=" and len(c[1]) == 1 and e[2] in (E.MIME, "parser::MediaKind"):
            return F.adt(e[2])["vs"][1 - list(c[1])[0]]["n"]
        if e[0] == "op" and e[1] == "Eq" and contains(e, ms):
            for x in (e[2], e[3]):
                if x[0] == "agg":
                    i = x[2] if c == ("=", 1) else 1 - x[2]
                    return F.adt(x[1])["vs"][i]["n"]
    return None


# ---------------------------------------------------------------- bounds
def bound_rule(ctx, F):
    import rules.flow as flow
    seen = set()
    flow.fill_rule(ctx, F, {"bound"}, seen)
    flow.source_rule(ctx, F, {"bound"}, seen)
    n = 0
    for t in entry_traces(ctx):
        for e in t.st.events:
            if e[0] != "read":
                continue
            n += 1
            kk = key(t)
            if not e[3]:
                ctx.oblige("bound-read", kk, False, "reads without a bound")
                continue
            lt = SatLT()
            held = ("len", e[4])
            lim = e[3]
            # saturating subtraction from a bound is exact unless the buffer already exceeds it
            lt.exact = {x for x in walk(lim) if isinstance(x, tuple) and x[:1] == ("call",) and cname(x[1]) == "saturating_sub"}
            total = L.add(lt.lin(held), lt.lin(lim))
            ctx.oblige("bound-read", kk, lt.entails(L.addc(L.scale(total, -1), GIB + 1), lt.facts(t.st)), "reads %s more bytes than the parser holds: not bounded by 1 GiB in total" % short(F, lim)[:120])
    ctx.floor("bound-reads", n, 10)
    probe_bound(ctx, F)
    # every call that reads is one of those analysed above, or reads into a fixed array
    READS = ("read_to_end", "read", "read_to_string", "bytes", "read_buf", "copy", "read_vectored", "chain", "read_line", "read_until", "lines", "split", "copy_buf")
    m = 0
    done = seen | analysed(ctx, F)
    reach = F.closure_of([b for b in F.bodies.values() if b.d.get("reach") or b.d.get("trait")])
    for b in F.bodies.values():
        fn = b.id
        if fn not in reach:
            continue
        for c in all_calls(b):
            p = c.path or ""
            if c.name in READS and ("std::io::Read" in p or "AsyncRead" in p or "std::io::copy" in p or "BufRead" in p or p.startswith(("std::fs::read", "tokio::fs::read", "tokio::io::copy", "std::io::read"))):
                m += 1
                ctx.oblige("bound-site", b.path, fn in done and c.name == "read_to_end", "reads with %s outside the analysed functions" % p)
    ctx.floor("bound-sites", m, 5)
    alloc_rule(ctx, F)
    entry_data_rule(ctx, F)


PROBE_CAP = 1 << 20


def probe_bound(ctx, F):
    """what the motion photo probe of a JPEG adds to the buffer is less than 1 MiB, whatever it finds"""
    n = 0
    for t in probe_traces(ctx):
        fills = [e for e in t.subs if e[1] == "fill_buf"]
        if not live(t) and t.val[1] != "loop":
            continue
        n += 1
        lt = SatLT()
        const, terms = 0, []
        for e in fills:
            v = e[2][-1]
            if isk(v):
                const += v[1]
                terms.append(lt.lin(v))
            else:
                terms.append(None)
        fs = lt.facts(t.st, lt.bounds(t.st))
        if all(x is not None for x in terms):
            good = const <= PROBE_CAP
        else:
            for e in fills:
                for x in walk(e[2][-1]):
                    if isinstance(x, tuple) and x[:1] == ("call",) and cname(x[1]) == "min":
                        for y in x[2]:
                            fs.add(L.sub(lt.lin(y), lt.lin(x)))
            # what was read before each request, and the request, stay below the cap
            good, tot = True, L.const(0)
            for e in fills[:1] + fills[-1:] if len(fills) > 1 else fills:
                tot = L.const(0)
                for g in fills:
                    if g is e:
                        break
                    tot = L.add(tot, lt.lin(("sym", "val%d" % g[3])))
                good = good and lt.entails(L.addc(L.scale(L.add(tot, lt.lin(e[2][-1])), -1), PROBE_CAP), fs)
        ctx.oblige("bound-probe", key(t), good, "the motion photo probe is not shown to stop: %d rounds" % len(fills))
    ctx.floor("bound-probes", n, 100)


def analysed(ctx, F):
    """bodies the traces of the public methods and constructors went through"""
    out = set()
    for kk, v in ctx.cache.items():
        if kk.startswith("src/"):
            for r in v:
                out |= r[0].bodies_seen
    for t in entry_traces(ctx):
        out |= t.T.bodies_seen
    return out


def all_calls(b):
    for c in b.calls():
        if c[2] is not None:
            yield c[2]


ALLOC = ("with_capacity", "reserve", "reserve_exact", "try_reserve", "try_reserve_exact", "resize", "resize_with", "from_elem", "zeroed", "repeat", "repeat_n", "new_uninit_slice", "new_zeroed_slice", "set_len")


class Alloc(Tab):
    """records every allocation whose size is an argument, with the path's conditions at that point"""

    def call(self, c, a, st, depth, stack, env, t):
        if c.name in ALLOC and not c.local and a:
            r = [self.resolve_refs(x, env) for x in a]
            n = r[0] if c.name in ("with_capacity", "zeroed", "new_uninit_slice", "new_zeroed_slice") else r[1] if len(r) > 1 else r[0]
            if c.name == "repeat":
                n = ("op", "Mul", ("len", r[0]), r[1]) if len(r) > 1 else k(0)
            self.sites.append((c.path, n, st))
        yield from super().call(c, a, st, depth, stack, env, t)


def alloc_rule(ctx, F):
    """no allocation is sized by a number the input states, unless that much input is already at hand"""
    reach = F.closure_of([b for b in F.bodies.values() if b.d.get("reach") or b.d.get("trait")])
    n = 0
    for b in F.bodies.values():
        if b.id not in reach:
            continue
        cs = [c for c in all_calls(b) if c.name in ALLOC and not c.local and not (c.path or "").startswith(("std::collections", "core::iter", "std::iter"))]
        if not cs:
            continue
        T = Alloc(F, depth=3, max_paths=4000)
        T.sites, T.paths = [], 0
        args = [("sym", b.locals[i + 1].get("n") or "arg%d" % i) for i in range(b.argc)]
        try:
            for _ in T.walk_env(b, args, State(), 0, (), None, {}):
                pass
        except C.Anchor:
            raise
        ctx.oblige("alloc-seen", b.path, len({s[0] for s in T.sites}) >= len({c.path for c in cs if not b.is_cleanup_only(c)}) if hasattr(b, "is_cleanup_only") else bool(T.sites), "an allocation's size could not be followed")
        for p, amount, st in T.sites:
            n += 1
            lt = SatLT()
            fs = lt.facts(st)
            m = lt.lin(amount)
            lens = {x for e in [amount] + list(st.cons) for x in walk(e) if isinstance(x, tuple) and x[:1] == ("len",)}
            good = lt.entails(L.addc(L.scale(m, -1), 1 << 20), fs) or any(lt.entails(L.addc(L.sub(L.scale(lt.lin(x), 8), m), 4096), fs) for x in lens)
            if not good and amount[0] == "op" and amount[1] == "Div":
                good = any(lt.lin(x) == lt.lin(amount[2]) for x in lens)
            if not good and amount[0] == "call" and cname(amount[1]) == "min":
                good = any(lt.entails(L.addc(L.scale(lt.lin(x), -1), 1 << 20), fs) or any(lt.entails(L.addc(L.sub(L.scale(lt.lin(y), 8), lt.lin(x)), 4096), fs) for y in lens) for x in amount[2])
            if not good and b.path.startswith(ED) and C.strip_cast(amount) == ("fld", ("sym", "self"), C.fidx(F, ED, "components_num")):
                good = True         # decided by entry_data_rule
            ctx.oblige("alloc-size", b.path, good, "%s is sized by %s, which nothing present bounds" % (p, short(F, amount)[:120]))
    ctx.floor("alloc-sites", n, 6)


ED = "values::EntryData"


def contains_fld(t, c, i):
    """some field path of t ends in the i-th field of call c, possibly through the payload of an Option"""
    return any(isinstance(x, tuple) and x[:1] == ("fld",) and x[2] == i and contains(x[1], c) for x in walk(t))


def entry_data_rule(ctx, F):
    """an entry's data holds as many bytes as its component count and format say, or the entry is refused"""
    reach = F.closure_of([b for b in F.bodies.values() if b.d.get("reach") or b.d.get("trait")])
    pb = C.method(F, "values::EntryValue", "parse")
    n = 0
    for b in F.bodies.values():
        if b.id not in reach or not any(c.rid == pb.id or c.id == pb.id for c in all_calls(b)):
            continue
        T = Tab(F, opaque={x.id for x in F.bodies.values() if x.name in ("parse", "component_size", "slice_checked", "new_ifd_iter", "get_data_pos") and x.kind in ("Fn", "AssocFn")}, max_paths=3000)
        args = [("sym", b.locals[i + 1].get("n") or "arg%d" % i) for i in range(b.argc)]
        for st, v in T.run(b, args):
            vs = [v] + list(st.cons) + [x for e in st.events if e[0] == "call" for x in e[2]]
            for e in [x for w in vs if isinstance(w, tuple) for x in walk(w) if isinstance(x, tuple) and x[:1] == ("agg",) and x[1] == ED]:
                n += 1
                f = {q["n"]: e[3][i] for i, q in enumerate(F.adt(ED)["vs"][0]["fs"])}
                lt = linterm.LT()
                cs = [x for y in [f["data"]] for x in walk(y) if isinstance(x, tuple) and x[:1] == ("agg",) and str(x[1]).startswith("std::ops::Range")]
                good = False
                parts = [x for x in walk(f["data"]) if isinstance(x, tuple) and x[:1] == ("call",) and cname(x[1]) in ("split_at", "split_at_checked", "first_chunk", "index", "get", "slice_checked")]
                if parts and cname(parts[0][1]) in ("split_at", "split_at_checked") and contains_fld(f["data"], parts[0], 0):
                    cs = [("agg", "std::ops::RangeTo", None, (parts[0][2][1],))]
                elif parts and cname(parts[0][1]) in ("index", "get") and isinstance(parts[0][2][1], tuple) and parts[0][2][1][:1] == ("agg",):
                    cs = [parts[0][2][1]]
                for r in cs[:1]:
                    ln = L.sub(lt.lin(r[3][1]), lt.lin(r[3][0])) if r[1] == "std::ops::Range" else lt.lin(r[3][0]) if r[1] == "std::ops::RangeTo" else None
                    if ln is None:
                        continue
                    muls = [x for y in r[3] for x in walk(y) if isinstance(x, tuple) and x[:2] == ("op", "Mul")]
                    good = any(lt.lin(m) == ln and any(C.strip_cast(q) == C.strip_cast(f["components_num"]) for q in m[2:]) and any(cname(c[1]) == "component_size" and contains(c, f["data_format"]) for q in m[2:] for c in calls(q)) for m in muls)
                ctx.oblige("entry-size", b.path, good, "an entry is decoded from %s" % short(F, f["data"])[:160])
    ctx.floor("entry-sites", n, 2)
