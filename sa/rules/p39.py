"""P39: directories are entered once each and left where they were entered, and every entry comes out as it was decoded."""
import lin as L
import trav
from panrun import built
from reader import Reader
from rules import common as C
from table import Tab, State, k, isk, some, NONE
from terms import short

LEVEL = "other"
EIE = "exif::exif_iter::ExifIterEntry"
EV = "values::EntryValue"
EXIF = "exif::exif_exif::Exif"
DIR = "exif::ifd::ParsedImageFileDirectory"
RES = "std::result::Result"
ERRS = {"resume", "cdrop", "terminate", "unreachable"}


def unwound(v):
    return v[0] == "diverge" and v[1] in ERRS


def again(v):
    return v[0] == "diverge" and v[1] == "loop"


def entry(F, v):
    """(directory index, tag, result) of a yielded entry"""
    if v[0] != "agg" or v[1] != trav.OPT or v[2] != 1 or v[3][0][0] != "agg" or v[3][0][1] != EIE:
        return None
    e = v[3][0]
    i = trav.field(F, e, EIE, "ifd")
    i = i[3][0] if i[0] == "agg" and len(i[3]) == 1 else i
    r = trav.field(F, e, EIE, "res")
    r = (r[2], r[3][0]) if r[0] == "agg" and r[1] == RES else (None, r)
    t = trav.field(F, e, EIE, "tag")
    return i, t, r


def cast(v):
    while v[0] == "cast" and v[3] not in ("u8", "i8", "u16", "i16"):     # offsets are 32 bits wide
        v = v[2]
    return v


def steps(ctx, F, what):
    """one round of ExifIter::next"""
    T, rows = trav.rows(F)
    n, seen = 0, set()
    KEEP = [x for x in trav.names(F, trav.EI) if x not in ("ifds", "visited_offsets", "encountered_tags")]
    s0 = dict(zip(trav.names(F, trav.EI), trav.state(F)[3]))
    for st, v, f in rows:
        if unwound(v):
            continue
        n += 1

        def bad(rule, key, text):
            ctx.oblige(rule, key, False, "one round of ExifIter::next: %s\nstate: %s\nresult: %s" % (
                text, "; ".join("%s=%s" % (short(F, a) if isinstance(a, tuple) else a, b[1]) for a, b in st.cons.items())[:700], short(F, v)[:200]))

        def good(rule, key, cond, text):
            if cond:
                ctx.oblige(rule, key, True)
            else:
                bad(rule, key, text)
        if f is None:
            bad("step", "followed", "the iterator's state is lost")
            continue
        kind = next(((a[1], b[1]) for a, b in st.cons.items() if isinstance(a, tuple) and a[0] == "next-of"), None)
        evs = [e for e in st.events if e[0] == "next"]
        stk, vis, enc = f["ifds"], f["visited_offsets"], f["encountered_tags"]
        good("step", "rest", all(f[x] == s0[x] for x in KEEP), "it changes %s" % ", ".join(x for x in KEEP if f[x] != s0[x]))
        if stk[0] != "stk" or vis[0] != "set" or enc[0] != "set":
            bad("step", "followed", "what happens to the open directories is not followed")
            continue
        if kind is None:
            # no directory is open
            ld = st.cons.get("load")
            if "progress" in what:
                good("empty", "load", ld is not None and not stk[2] and st.known("empty") == 1, "no directory is advanced although one is open")
                good("empty", "again", not again(v) or ld is not None and ld[1] == 1, "it goes round without a new block")
            if "entries" in what:
                good("empty", "end", ld is not None and (again(v) if ld[1] == 1 else v == NONE), "with no open directory it does not go on to the next block, or does not stop after the last one")
                good("empty", "sets", vis[1] == () and enc[1] == (), "it touches the visited offsets or yielded tags between blocks")
            seen.add("load%s" % (ld[1] if ld else ""))
            continue
        D, kd = kind
        deep = stk[1] == "none"
        good("step", "one", len(evs) == 1 and D == (trav.IFD0 if deep else trav.TOP), "it advances another directory than the innermost open one, or several at once")
        if deep:
            lens = [(a, b) for a, b in st.cons.items() if isinstance(a, tuple) and "stklen" in repr(a)]
            good("deep", "guard", any(a[0] == "op" and a[1] in ("Gt", "Ge", "Lt", "Le") and all(x[0] == "stklen" or isk(x) and x[1] >= 8 for x in a[2:]) for a, b in lens),
                 "open directories are dropped although fewer than 8 are open")
        base = ()
        idx = trav.field(F, D, trav.IFD, "ifd_idx")
        new = trav.fresh(F, kd, D) if kd in ("sub", "next") else None
        off = trav.field(F, new, trav.IFD, "offset") if new else None
        seen.add((kd, deep))
        cleared = "cleared" in vis[1] or "cleared" in enc[1]
        good("step", "remembers", not cleared, "visited offsets or yielded tags are forgotten within a block")
        added = set(vis[1])
        if kd in ("sub", "next"):
            isin = st.known(("in", off))
            if isin is None:
                bad("visit", "asked", "a directory is entered or refused without looking whether its offset was visited")
                continue
            if isin:
                if "progress" in what:
                    good("visit", "visited", new not in stk[2] and len(stk[2]) <= (kd == "sub"), "a visited directory is entered again")
                if "entries" in what:
                    good("visit", "refused", again(v) and stk[2] == ((D,) if kd == "sub" else ()), "a reference to a visited directory is not just passed over")
                    good("visit", "sets", enc[1] == (), "it records a tag it does not yield")
                continue
            if "progress" in what:
                good("visit", "recorded", stk[2].count(new) == 0 or off in added, "a directory is entered without recording its offset as visited")
                good("visit", "once", len(stk[2]) <= 2 and stk[2].count(new) <= 1 and stk[2].count(D) <= 1, "more directories are opened than the one referred to")
            if "entries" in what:
                good("visit", "entered", stk[2] == ((D, new) if kd == "sub" else (new,)) and added == {off}, "a new %s directory is not entered with the referring one kept open below it (and closed for a next-IFD link)" % kd)
                if kd == "next":
                    good("visit", "link", again(v) and enc[1] == (), "following a next-IFD link yields something")
                    continue
                dup = st.known(("in", ("agg", "()", None, (idx, ("code", trav.TAG)))))
                e = entry(F, v)
                val = cast(e[2][1][3][0]) if e is not None and e[2][0] == 0 and e[2][1][0] == "agg" and e[2][1][1] == EV and e[2][1][2] == C.vidx(F, EV, "U32") else None
                good("visit", "yield", again(v) if dup == 1 else dup == 0 and e is not None and e[:2] == (idx, trav.TAG) and val == off,
                     "entering a sub-directory does not yield its offset under the directory's index and the pointing tag, exactly when that tag was not yielded before")
            continue
        if "progress" in what:
            good("visit", "nothing new", len(stk[2]) <= (kd != "end") and all(x == D for x in stk[2]), "a directory is opened without a reference to it")
            if kd == "end":
                good("end", "dropped", again(v) and stk[2] == (), "a finished directory stays open, or the iteration stops with it")
        if "entries" not in what:
            continue
        if kd == "end":
            good("end", "goes on", again(v) and stk[2] == () and not added and enc[1] == (), "the end of a directory does something else than closing it")
            continue
        e = entry(F, v)
        good("yield", "parent", stk[2] == (D,) and not added, "after an entry the directory is not kept open as it is")
        if kd == "entry":
            key = ("agg", "()", None, (idx, ("code", trav.TAG)))
            dup = st.known(("in", key))
            good("yield", "entry", again(v) if dup == 1 else dup == 0 and e == (idx, trav.TAG, (0, trav.VAL)), "a decoded entry is not handed out unchanged, with its directory's index and its tag, exactly when that pair was not handed out before")
            good("yield", "recorded", enc[1] == ((key,) if dup == 0 else ()), "the tags already handed out are not recorded one by one")
        else:
            good("yield", "error", e == (idx, trav.TAG, (1, trav.ERR)), "an entry that failed is not handed out as that error, with its directory's index and its tag")
            good("yield", "error-set", enc[1] == (), "a failed entry counts as handed out")
    ctx.count("rounds of ExifIter::next", n)
    want = {(x, False) for x in ("end", "sub", "next", "entry", "err")} | {"load0", "load1"}
    ctx.oblige("step", "all", want <= seen, "kinds of step that are no longer seen: %s" % sorted(map(str, want - seen)))
    return T


class Dir(Reader):
    pass


def dirs(ctx, F, what):
    """one step of a directory: IfdIter::next"""
    b = C.impl_fn(F, "std::iter::Iterator", trav.IFD, "next")
    fs = trav.names(F, trav.IFD)
    tagf, newf = C.method(F, trav.IFD, "parse_tag_entry"), C.method(F, trav.IFD, "new_ifd_iter")
    TAG, RESV, SUB = ("sym", "RAWTAG"), ("sym", "ENTRY"), ("sym", "LINKED")
    TY = "exif::TagOrCode"

    def entry_model(st, r):
        st = T.event(st, ("decode", tuple(r[1:])))
        return [(st.assume("decoded", 1), some(("agg", "()", None, (TAG, RESV)))), (st.assume("decoded", 0), NONE)]

    def link_model(st, r):
        st = T.event(st, ("link", tuple(r[1:])))
        return [(st.assume("linked", 1), some(SUB)), (st.assume("linked", 0), NONE)]
    T = Dir(F, unroll=0, models={tagf.id: entry_model, newf.id: link_model})
    IDX, NUM, POS = (("sym", "self." + x) for x in ("index", "entry_num", "pos"))
    T.lt.hi[IDX], T.lt.hi[NUM], T.lt.hi[POS] = (1 << 32) - 1, (1 << 16) - 1, (1 << 63) - 1
    inp = T.input("IN")
    obj = ("agg", trav.IFD, None, tuple(inp if n == "input" else ("sym", "self." + n) for n in fs))
    lt = T.lt
    seen = set()
    for st, v, f in trav.walk(T, b, obj, fs, trav.IFD):
        if unwound(v):
            continue
        fc = lt.facts(st)
        if lt.infeasible(fc):
            continue
        if v[0] == "diverge":
            # data the directory promised is missing: P01 shows it cannot be
            ctx.oblige("dir", "total", fc is not None and v[1] != "loop", "one step of a directory goes round for ever")
            continue

        def show(text):
            return "one step of a directory (IfdIter::next): %s\nstate: %s\nresult: %s" % (
                text, "; ".join("%s=%s" % (short(F, a) if isinstance(a, tuple) else a, c[1]) for a, c in st.cons.items())[:700], short(F, v)[:200])

        def good(rule, key, cond, text):
            ctx.oblige(rule, key, bool(cond), None if cond else show(text))
        got = v[0] == "agg" and v[1] == trav.OPT and v[2] == 1
        if f is None:
            good("dir", "followed", False, "the directory's state is lost")
            continue
        di = L.sub(lt.lin(f["index"]), lt.lin(IDX))
        dp = L.sub(lt.lin(f["pos"]), lt.lin(POS))

        def is0(x):
            return not x[1] and x[0] == 0
        good("dir", "rest", all(f[n] == x for n, x in zip(fs, obj[3]) if n not in ("index", "pos")), "it changes %s" % ", ".join(n for n, x in zip(fs, obj[3]) if n not in ("index", "pos") and f[n] != x))
        left = L.sub(lt.lin(NUM), lt.lin(IDX))
        if "progress" in what:
            good("dir", "advances", not got or lt.entails(L.addc(di, -1), fc), "it yields without advancing")
            good("dir", "bounded", not got or lt.entails(left, fc), "it yields although more than entry_num + 1 steps were taken")
        if "entries" not in what:
            seen |= {"x"}
            continue
        dec = [e for e in st.events if e[0] == "decode"]
        lk = [e for e in st.events if e[0] == "link"]
        if dec:
            seen.add("entry")
            x = dec[0][1][0]
            x = T.slc(x)
            good("dir", "entry-at", len(dec) == 1 and not lk and x is not None and x[1] == ("sym", "IN") and is0(L.sub(T.start(x), lt.lin(POS))) and is0(L.addc(T.avail(x), -12)),
                 "an entry is not decoded from the 12 bytes at the directory's position")
            apart = lt.entails(L.addc(left, -1), fc) or lt.entails(left, fc) and any(
                isinstance(a, tuple) and a[0] == "op" and (a[1], c[1]) in (("Eq", 0), ("Ne", 1)) and L.sub(lt.lin(a[2]), lt.lin(a[3])) in (left, L.scale(left, -1)) for a, c in st.cons.items())
            good("dir", "entry-while", apart, "an entry is decoded after the last one")
            good("dir", "entry-step", is0(L.addc(di, -1)) and is0(L.addc(dp, -12)), "after an entry the position is not the next 12 bytes, or the count is not one more")
            p = v[3][0][3] if got and v[3][0][0] == "agg" else ()
            t = p[0] if p else None
            t = t[3][0] if t is not None and t[0] == "agg" and t[1] == trav.OPT and t[2] == 1 else None
            while t is not None and t[0] in ("from", "cast"):
                t = t[-1] if t[0] == "from" else t[2]
            good("dir", "entry-out", (len(p) == 2 and t == TAG and p[1] == RESV) if st.known("decoded") else v == NONE, "the decoded entry is not handed on under its own tag")
        elif lk:
            seen.add("link")
            a = lk[0][1]
            o = cast(a[1]) if len(a) == 3 else None
            good("dir", "link-at", o is not None and o[0] == "rd" and o[2:4] == (4, "u") and o[4] == ("sym", "IN") and is0(L.sub(lt.lin(o[5]), lt.lin(POS))) and "endian" in repr(o[1]) and "header" in repr(o[1]),
                 "the next-IFD link is not the 32-bit value after the last entry, in the header's byte order")
            good("dir", "link-as", len(a) == 3 and is0(L.addc(L.sub(lt.lin(a[0]), lt.lin(("sym", "self.ifd_idx"))), -1)) and a[2] == NONE, "the linked directory is not opened as the one with the next index and no pointing tag")
            good("dir", "link-when", lt.entails(left, fc) and lt.entails(L.scale(left, -1), fc), "the link is followed before the last entry")
            good("dir", "link-step", lt.entails(L.addc(di, -1), fc), "following the link does not end the directory")
            p = v[3][0][3] if got and v[3][0][0] == "agg" else ()
            good("dir", "link-out", (p == (NONE, SUB)) if st.known("linked") else v == NONE, "the linked directory is not handed on")
        else:
            good("dir", "nothing", v == NONE, "something is yielded that is neither an entry nor the next-IFD link")
            short_ = lt.entails(L.addc(L.sub(L.addc(lt.lin(POS), 12), T.avail(inp)), -1), fc)
            done = lt.entails(L.addc(L.scale(left, -1), -1), fc)
            eq = lt.entails(left, fc) and lt.entails(L.scale(left, -1), fc)
            zero = eq and any(a[0] == "rd" and c == ("=", 0) for a, c in st.cons.items() if isinstance(a, tuple))
            nolink = eq and lt.entails(L.addc(L.sub(L.addc(lt.lin(POS), 4), T.avail(inp)), -1), fc)
            good("dir", "ends", short_ and not eq or done or zero or nolink, "the directory ends although an entry or a next-IFD link is there")
            seen.add("end")
    if "entries" in what:
        ctx.oblige("dir", "all", seen == {"entry", "link", "end"}, "kinds of step that are no longer seen: %s" % sorted({"entry", "link", "end"} - seen))
    else:
        ctx.oblige("dir", "all", bool(seen), "no step of a directory is seen")


def subs(ctx, F):
    """a decoded entry that refers to a sub-directory opens it at the entry's value, with the same index and the entry's tag"""
    b, newf = C.method(F, trav.IFD, "parse_tag_entry"), C.method(F, trav.IFD, "new_ifd_iter")
    parse = C.method(F, EV, "parse")
    SUB = ("sym", "SUBDIR")

    def model(st, r):
        st = T.event(st, ("link", tuple(r[1:])))
        return [(st.assume("linked", 1), some(SUB)), (st.assume("linked", 0), NONE)]
    T = Reader(F, unroll=0, models={newf.id: model}, opaque={parse.id})
    T.max_paths = 20000
    inp, ent = T.input("IN"), T.input("ENT")
    fs = trav.names(F, trav.IFD)
    obj = ("agg", trav.IFD, None, tuple(inp if n == "input" else ("sym", "self." + n) for n in fs))
    n = 0
    for st, v in T.run(b, [obj, ent]):
        lk = [e for e in st.events if e[0] == "link"]
        if unwound(v) or v[0] == "diverge" or not lk:
            continue
        n += 1
        a = lk[0][1]

        def raw(x, off, w):
            x = cast(x)
            return x[0] == "rd" and x[2:5] == (w, "u", ("sym", "ENT")) and T.lt.lin(x[5]) == L.const(off)
        tag = a[2][3][0] if len(a) == 3 and a[2][0] == "agg" and a[2][1] == trav.OPT and a[2][2] == 1 else ("k", 0)
        ctx.oblige("sub", "where", len(lk) == 1 and len(a) == 3 and raw(a[1], 8, 4), "a sub-directory is not opened at the 32-bit value of its entry")
        ctx.oblige("sub", "as", len(a) == 3 and cast(a[0]) == ("sym", "self.ifd_idx") and raw(tag, 0, 2), "a sub-directory is not opened under the index of the directory it is in and the tag it is under")
        if st.known("linked"):
            p = v[3][0] if v[0] == "agg" and v[1] == trav.OPT and v[2] == 1 else None
            ctx.oblige("sub", "out", p is not None and p[0] == "agg" and len(p[3]) == 2 and raw(p[3][0], 0, 2) and p[3][1] == SUB, "an opened sub-directory is not handed on under its entry's tag")
    ctx.floor("ways to a sub-directory", n, 2)


def opened(ctx, F):
    """new_ifd_iter opens the directory at the offset it is given; sub-directories keep the index and carry the pointing tag"""
    b = C.method(F, trav.IFD, "new_ifd_iter")
    new = C.method(F, trav.IFD, "try_new")
    fs = trav.names(F, trav.IFD)

    def model(st, r):
        st = T.event(st, ("open", tuple(r)))
        return [(st.assume("opened", 0), ("agg", RES, 0, (obj2,))), (st.assume("opened", 1), ("agg", RES, 1, (("sym", "why"),)))]
    T = Reader(F, unroll=0, models={new.id: model})
    inp = T.input("IN")
    obj = ("agg", trav.IFD, None, tuple(inp if n == "input" else ("sym", "self." + n) for n in fs))
    obj2 = trav.sym_struct(F, trav.IFD, ("sym", "OPENED"))
    I, O, G = ("sym", "idx"), ("sym", "off"), ("sym", "tag")
    T.lt.hi[O] = (1 << 32) - 1
    n = 0
    for arg, st, v in [(g, st, v) for g in (NONE, some(G)) for st, v in T.run(b, [obj, I, O, g])]:
        if unwound(v) or T.lt.infeasible(T.lt.facts(st)):
            continue
        op = [e for e in st.events if e[0] == "open"]
        if v == NONE:
            room = T.lt.entails(L.sub(T.lt.lin(O), T.avail(inp)), T.lt.facts(st))
            ctx.oblige("open", "refused", bool(op) and st.known("opened") == 1 or room, "a directory whose offset lies within the data is not opened")
            continue
        n += 1
        x = v[3][0] if v[0] == "agg" and v[1] == trav.OPT and v[2] == 1 else None
        x = x[3][0] if x is not None and x[0] == "agg" and x[1] == trav.ENTRY and x[2] == C.vidx(F, trav.ENTRY, "IfdNew") else None
        ctx.oblige("open", "as", x is not None and len(op) == 1 and all(trav.field(F, x, trav.IFD, m) == trav.field(F, obj2, trav.IFD, m) for m in fs if m != "tag_code"),
                   "the directory handed on is not the one opened")
        if len(op) != 1:
            continue
        a = op[0][1]
        slf = dict(zip(fs, obj[3]))
        ctx.oblige("open", "where", len(a) == 5 and a[0] == I and a[1] == inp and a[2] == slf["header"] and cast(a[3]) == O and a[4] == slf["tz"],
                   "a directory is opened with %s" % ", ".join(short(F, y) for y in a))
        t = trav.field(F, x, trav.IFD, "tag_code") if x is not None else None
        ctx.oblige("open", "tag", t is not None and (t == NONE if arg == NONE else G in syms(t)), "the directory is opened without its pointing tag")
    ctx.floor("directories opened", n, 1)
    # where a directory starts
    got = built(F, trav.IFD, begins)
    for body, good, text in got:
        ctx.oblige("open", "begins", good, "%s builds a directory that does not start at its first entry (%s)" % (body.path, text))
    ctx.floor("directories built", len(got), 1)


def begins(T, variant, x):
    """a directory starts with no entry taken, two bytes after its offset"""
    if x["entry_num"][0] == "fld":
        return None     # a copy
    d = L.addc(L.sub(T.lt.lin(x["pos"]), T.lt.lin(x["offset"])), -2)
    i = T.lt.lin(x["index"])
    return {"all": [d, L.scale(d, -1), i, L.scale(i, -1)]}


def syms(v):
    out = set()

    def go(x):
        if isinstance(x, tuple) and x:
            if x[0] == "sym" and len(x) == 2:
                out.add(x)
            else:
                for y in x:
                    go(y)
    go(v)
    return out


def blocks(ctx, F, what):
    """load_next_block"""
    b = C.method(F, trav.EI, "load_next_block")
    fs = trav.names(F, trav.EI)
    s0 = trav.state(F)
    CUR = ("sym", "self.current_block_index")
    BLK = trav.sym_struct(F, trav.EI, ("sym", "BLOCK"))
    into = C.by_name(F, "input_into_iter")
    models = {}

    def model(st, r):
        st = T.event(st, ("block", tuple(r)))
        return [(st.assume(("loaded", len(st.events)), 1), ("agg", RES, 0, (BLK,))), (st.assume(("loaded", len(st.events)), 0), ("agg", RES, 1, (("sym", "why"),)))]
    for x in into:
        models[x.id] = model
    T = trav.Trav(F, models=models)
    T.opaque.add(b.id)
    n = 0
    for st, v, f in trav.walk(T, b, s0, fs, trav.EI):
        if unwound(v):
            continue
        n += 1
        ev = [e for e in st.events if e[0] == "block"]
        rec = next((e for e in st.events if e[0] == "call" and "load_next_block" in e[1]), None)
        if rec is not None:
            f = dict(zip(fs, rec[2][0][3])) if rec[2][0][0] == "agg" else None

        def good(key, cond, text):
            ctx.oblige("block", key, bool(cond), None if cond else "load_next_block: %s\nstate: %s\nresult: %s" % (
                text, "; ".join("%s=%s" % (short(F, a) if isinstance(a, tuple) else a, c[1]) for a, c in st.cons.items())[:500], short(F, v)[:200]))
        if f is None:
            good("followed", False, "the iterator's state is lost")
            continue
        o = dict(zip(fs, s0[3]))
        ch = {x for x in fs if f[x] != o[x]}
        plus = f["current_block_index"] in (("op", "Add", CUR, k(1)), ("op", "Add", k(1), CUR))
        if not ev:
            past = any(a[0] == "op" and CUR in a[2:] and any(y[0] == "len" for y in a[2:]) or a[0] == "call" or a[0] == "disc" for a in st.cons if isinstance(a, tuple))
            good("end", v == k(0) and not ch and past, "it gives up, or changes something, before the last block was tried")
            continue
        data = ev[0][1][0]
        good("which", CUR in syms(data) and ("sym", "self.additional_blocks") in syms(data), "it opens another block than the current one")
        done = any(isinstance(a, tuple) and a[0] == "loaded" and c == ("=", 1) for a, c in st.cons.items())
        good("next", plus, "the block index does not move on to the next block")
        if done:
            if "entries" in what:
                z = trav.field(F, BLK, trav.EI, "ifd0")
                good("opens", v == k(1) and f["ifds"] == ("stk", "none", (z,)) and f["block_ifd0"] == z, "a loaded block does not start with its own first directory")
                good("forgets", "cleared" in f["visited_offsets"][1] if f["visited_offsets"][0] == "set" else False, "offsets visited in the block before count as visited in the next one")
                good("keeps", ch <= {"ifds", "block_ifd0", "visited_offsets", "current_block_index"}, "loading a block changes %s" % ", ".join(sorted(ch)))
        else:
            if "entries" in what:
                good("skips", (rec is not None or again(v)) and ch == {"current_block_index"}, "a block that cannot be loaded is not just passed over")
            if rec is None and not again(v) and "progress" in what:
                ctx.oblige("block", "skip", True)
    ctx.floor("ways through load_next_block", n, 3)


def eager(ctx, F):
    """Exif holds exactly what the iterator yields"""
    b = C.impl_fn(F, "std::convert::From", EXIF, "from")
    nxt = C.impl_fn(F, "std::iter::Iterator", trav.EI, "next")
    put = C.method(F, DIR, "put")
    ROUND = trav.sym_struct(F, EIE, ("sym", "E"))
    ifd, tag = (trav.field(F, ROUND, EIE, x) for x in ("ifd", "tag"))
    VAL, ERR = ("sym", "VALUE"), ("sym", "ERROR")

    class E(Tab):
        def call(self, c, a, st, depth, stack, env, t):
            r = [self.resolve_refs(x, env) for x in a]
            if any(x.id == nxt.id for x in self.F.resolve(c)):
                if any(e[0] == "item" for e in st.events):
                    yield st, NONE, None, 0
                    return
                yield st, NONE, None, 0
                for kd, p in ((0, VAL), (1, ERR)):
                    s = self.event(st, ("item", kd))
                    i = C.fidx(F, EIE, "res")
                    yield s, some(("agg", EIE, None, tuple(("agg", RES, kd, (p,)) if j == i else x for j, x in enumerate(ROUND[3])))), None, 0
                return
            if c.path and c.path.endswith("TagOrCode::code"):
                yield st, ("code", r[0]), None, 0
                return
            if c.local and c.name in ("put_value", "parse_gps") or c.local and any(x.id == put.id for x in self.F.resolve(c)):
                yield self.event(st, (c.name, tuple(r[1:]))), ("sym", c.name), None, 0
                return
            if not c.local and c.name == "push":
                yield self.event(st, ("push", r[0], r[1])), ("agg", "()", None, ()), None, 0
                return
            yield from super().call(c, a, st, depth, stack, env, t)
    T = E(F, unroll=3)
    n = 0
    ifdu = ifd
    for st, v in T.run(b, [("sym", "iter")]):
        if unwound(v):
            continue
        items = [e[1] for e in st.events if e[0] == "item"]
        if v[0] == "diverge":
            if v[1] != "loop":
                ctx.oblige("eager", "total", False, "building an Exif ends in %s" % v[1])
            continue
        n += 1
        puts = [e for e in st.events if e[0] in ("put_value", "put")]
        pushes = [e for e in st.events if e[0] == "push" and e[2][0] == "agg" and e[2][1] == "()"]
        if not items:
            ctx.oblige("eager", "nothing", not puts and not pushes, "an Exif gets entries the iterator did not yield")
        elif items == [0]:
            a = puts[0][1] if len(puts) == 1 else None
            ctx.oblige("eager", "value", a is not None and not pushes and len(a) >= 2 and a[-1] == VAL and a[-2] == ("code", tag) and (len(a) < 3 or ifdu in flds(a[-3])),
                       "a yielded value is not put under its own directory and tag: %s" % ", ".join(short(F, x) for x in (a or ())))
        else:
            p = pushes[0][2][3] if len(pushes) == 1 else None
            ctx.oblige("eager", "error", p == (ifd, tag, ERR) and not puts, "a yielded error is not kept with its own directory and tag")
    ctx.floor("ways through From<ExifIter> for Exif", n, 3)


def flds(v):
    out = set()
    while isinstance(v, tuple) and v:
        out.add(v)
        if v[0] in ("fld", "as"):
            v = v[1]
        elif v[0] == "cast":
            v = v[2]
        elif v[0] == "agg" and len(v[3]) == 1:
            v = v[3][0]
        else:
            break
    return out


def stored(ctx, F):
    """what is put into an Exif is what its getters find"""
    b = C.method(F, EXIF, "put_value")
    put = C.method(F, DIR, "put")
    T = Tab(F, unroll=1, opaque={put.id}, events=lambda c: c.name in ("push", "put", "insert", "resize_with", "resize"))
    SELF, IDX, CODE, V = ("sym", "self"), ("sym", "ifd"), ("sym", "code"), ("sym", "v")
    n = 0
    for st, v in T.run(b, [SELF, IDX, CODE, V]):
        if v[0] == "diverge":
            continue
        n += 1
        puts = [e for e in st.events if e[0] == "call" and e[1].endswith("::put")]
        a = puts[0][2] if len(puts) == 1 else None
        ctx.oblige("stored", "put", a is not None and a[1:] == (CODE, V) and IDX in syms(a[0]), "put_value does not put the value under the directory and code given")
    ctx.floor("ways through put_value", n, 1)


def run(ctx):
    ctx.rule = ("One round of ExifIter::next is extracted as a table over (innermost open directory, kind of step, offset visited before, tag handed out before); each row must leave the open "
                "directories, the visited offsets and the handed-out tags as the property says, and hand out exactly that entry. The same for one step of a directory (IfdIter::next), for opening a "
                "directory, for loading the next block, and for building an Exif.")
    ctx.assumptions += ["HashSet::insert/contains and Vec::push/pop do what they document", "nesting beyond 8 open directories restarts the block (by design)"]
    F = ctx.facts()
    steps(ctx, F, {"progress", "entries"})
    dirs(ctx, F, {"progress", "entries"})
    subs(ctx, F)
    opened(ctx, F)
    blocks(ctx, F, {"progress", "entries"})
    eager(ctx, F)
    stored(ctx, F)
