"""P26: parsing is a pure function of the input bytes (effect analysis over every call of the library)."""
import re
from model import op_fn, is_trace_mac_body
from rules import common as C

# effect classes of external paths (prefix match); anything in one of these classes is forbidden unless listed in ALLOW
DENY = [
    ("environment", r"^std::env::"), ("clock", r"^std::time::(SystemTime|Instant)|^(chrono::)?.*(Utc|Local)(::|>::)(now|today)|^chrono::offset::(Utc|Local)::|^tokio::time::"),
    ("local time zone", r"chrono::(offset::)?Local\b"), ("random numbers", r"^rand::|^getrandom::|RandomState::|DefaultHasher::new"),
    ("network", r"^std::net::|^tokio::net::"), ("process", r"^std::process::|^tokio::process::|^libc::"),
    ("thread", r"^std::thread::|^std::sync::(mpsc|Condvar|Barrier)|^tokio::(task|runtime|spawn|sync)"),
    ("standard streams", r"^std::io::(stdin|stdout|stderr|_print|_eprint|stdio)|^std::io::stdio::|_print$|_eprint$"),
    ("file system", r"^std::fs::|^tokio::fs::|^std::os::|^std::path::Path(Buf)?::(exists|metadata|is_file|is_dir|read_dir|read_link|canonicalize|try_exists|symlink_metadata)"),
    ("panic hook", r"^std::panic::"),
    ("write", r"^std::io::Write::|^tokio::io::AsyncWrite"),
]
ALLOW_FS = {"std::fs::File::open", "tokio::fs::File::open"}
POISON_LOCALS = ("std::sync::Mutex", "std::sync::RwLock", "std::sync::OnceLock", "std::sync::LazyLock", "std::cell::", "std::sync::atomic", "std::thread::LocalKey", "std::rc::")
ADDR = {"as_ptr", "as_mut_ptr", "as_ptr_range", "addr", "expose_provenance", "offset_from"}
UNORDERED = {"iter", "keys", "values", "into_iter", "drain", "into_keys", "into_values", "difference", "union", "intersection", "extract_if"}


def trace(mac):
    return mac and ("tracing" in mac or "callsite" in mac or "event!" in mac or "span!" in mac or "valueset" in mac or "instrument" in mac or "debug!" in mac or "log!" in mac)


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("effect analysis: every call of the library (all features) is classified by callee; forbidden are clock, environment, randomness, global mutable "
                "state, threads, network, processes, output, address comparison and iteration of unordered containers; files are opened only from a caller-given path")
    nb = nc = opens = unordered = 0
    live = F.closure_of([b for b in F.bodies.values() if b.d.get("reach") or b.d.get("trait")])
    for b in F.bodies.values():
        if is_trace_mac_body(b) or b.id not in live:
            continue
        nb += 1
        for blk, t, c in b.calls():
            if c is None:
                continue
            if trace(t.get("mac")):
                continue
            nc += 1
            full = c.full or c.path or ""
            for what, rx in DENY:
                hit = re.search(rx, c.path or "") or re.search(rx, c.rpath or "") or (what in ("local time zone", "clock") and re.search(rx, full))
                if not hit:
                    continue
                if c.path in ALLOW_FS:
                    opens += 1
                    ctx.oblige("open-arg", b.path, from_param(b, t), "%s opens a path that is not the one its caller passed" % b.path)
                    continue
                ctx.oblige("effect", "%s/%s" % (b.path, what), False, "%s calls %s (%s)" % (b.path, full, what))
            if "HashMap" in full or "HashSet" in full:
                if c.name in UNORDERED and re.search(r"Hash(Map|Set)(::)?<", full.split(" as ")[0]) and not full.startswith("<std::vec"):
                    unordered += 1
                    ctx.oblige("order", "%s/%s" % (b.path, c.name), "exif::ifd::ParsedIdfEntry" in full and b.path.startswith("exif::ifd::"),
                               "%s iterates an unordered container: %s" % (b.path, full))
            if c.name in ADDR and ("ptr" in c.name or "addr" in c.name or "prov" in c.name or "offset_from" in c.name):
                ctx.oblige("address", b.path, uses_difference_only(b), "%s lets a memory address decide its result (%s)" % (b.path, full))
    for b in F.bodies.values():
        if is_trace_mac_body(b):
            continue
        for l in b.locals:
            s = F.types[l["ty"]]["s"]
            for p in POISON_LOCALS:
                if s.startswith(p) or ("&" in s[:3] and p in s[:60]):
                    ctx.oblige("shared-state", "%s/%s" % (b.path, p), False, "%s uses %s" % (b.path, s))
    ns = 0
    for i in F.items:
        if i["k"] != "static":
            continue
        ns += 1
        own = trace(i.get("mac")) or i["p"].rsplit("::", 1)[-1] in ("META", "__CALLSITE", "CALLSITE")
        ctx.oblige("static", i["p"], (i["freeze"] and not i["mut"] and not i["tls"]) or bool(own), "static %s is mutable or has interior mutability" % i["p"])
    # public types hold no interior mutability either
    for p, a in F.adts.items():
        for v in a["vs"]:
            for f in v["fs"]:
                s = F.types[f["ty"]]["s"] if isinstance(f.get("ty"), int) else str(f.get("ty"))
                bad = [x for x in ("std::cell::", "std::sync::Mutex", "std::sync::RwLock", "std::sync::atomic", "std::sync::Once", "std::rc::") if x in s]
                ctx.oblige("field", "%s.%s" % (p, f["n"]), not bad, "%s.%s holds shared mutable state: %s" % (p, f["n"], s))
    ctx.floor("functions", nb, 500)
    ctx.floor("calls", nc, 2000)
    ctx.floor("file-opens", opens, 2)
    ctx.count("statics", ns)
    ctx.count("unordered-iterations", unordered)
    ctx.assumptions = ["third-party crates (nom, bytes, chrono parsing, iso6709parse, regex) are pure", "tracing's subscriber is not part of the result"]


def from_param(b, t):
    """the path argument derives from a parameter of the function (or a captured variable)"""
    from model import op_place, rv_places
    seen = set()
    work = [op_place(t["a"][0])[0]] if t["a"] and op_place(t["a"][0]) else []
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        if 1 <= l <= b.argc:
            return True
        for blk, i, s in b.assigns():
            if s["p"][0] == l:
                for p in rv_places(s["r"]):
                    work.append(p[0])
        for blk, tt, c in b.calls():
            if tt.get("d") and tt["d"][0] == l:
                for o in tt["a"]:
                    if op_place(o):
                        work.append(op_place(o)[0])
    return False


def uses_difference_only(b):
    """addresses may only be subtracted from one another or compared for containment inside one buffer (subslice offsets)"""
    from model import op_place, rv_operands
    addr = set()
    for blk, t, c in b.calls():
        if c is not None and c.name in ADDR:
            addr.add(t["d"][0])
    changed = True
    ok = True
    while changed:
        changed = False
        for blk, i, s in b.assigns():
            r = s["r"]
            src = {op_place(o)[0] for o in rv_operands(r) if op_place(o)}
            if r["r"] in ("use", "cast") and src & addr and s["p"][0] not in addr:
                addr.add(s["p"][0])
                changed = True
            if r["r"] == "bin" and r["op"].startswith("Add") and src & addr and s["p"][0] not in addr:
                addr.add(s["p"][0])
                changed = True
        for blk, t, c in b.calls():
            src = {op_place(o)[0] for o in t["a"] if op_place(o)}
            if c is not None and c.name in ("wrapping_add", "checked_add", "saturating_add", "clone") and src & addr and t["d"][0] not in addr:
                addr.add(t["d"][0])
                changed = True
    for blk, t, c in b.calls():
        src = [op_place(o)[0] for o in t["a"] if op_place(o)]
        hit = [x for x in src if x in addr]
        if not hit or c is None or c.name in ("wrapping_add", "checked_add", "saturating_add", "clone", "add"):
            continue
        if not (c.name in ("checked_sub", "wrapping_sub", "saturating_sub", "cmp", "lt", "le", "gt", "ge", "eq", "ne") and len(hit) == len(src) == 2):
            ok = False
    for blk, i, s in b.assigns():
        r = s["r"]
        src = [op_place(o)[0] for o in rv_operands(r) if op_place(o)]
        if r["r"] == "bin" and any(x in addr for x in src):
            both = len(src) == 2 and all(x in addr for x in src)
            if r["op"].startswith(("Sub", "Lt", "Le", "Gt", "Ge", "Eq", "Ne")):
                ok = ok and both
            elif not r["op"].startswith("Add"):
                ok = False
    if 0 in addr:
        ok = False
    return ok
