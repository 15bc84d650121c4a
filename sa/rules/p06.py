"""P06: the buffer driver delivers every source byte to the parsers, in order and at the right place (abstract stream machine)."""
import lin as L
from table import State, Tab, k, isk, ok, err, NONE, UNIT, some, TableLimit
from stream import Stream, run_fn, M, IOE
from terms import walk, contains, calls, cname, short
from rules import common as C
from rules import flow

PS = "error::ParsingErrorState"
PE = "error::ParsingError"
PD = "error::ParsedError"


def trait_fn(F, trait, name):
    bs = [b for b in F.bodies.values() if b.kind == "AssocFn" and b.path == "%s::%s" % (trait, name)]
    if len(bs) != 1:
        raise C.Anchor("%s::%s" % (trait, name))
    return bs[0]


def io_err(v):
    return contains(v, IOE)


def infeasible(T, s):
    return T.lt.infeasible(T.facts_of(s))


def skip_rule(ctx, F, side, trait):
    b = trait_fn(F, trait, "clear_and_skip")
    nk = 0
    for case in ("within", "beyond"):
        T = Stream(F, unroll=2, max_paths=60000, depth=16)
        r0, b0, p0, n = (("sym", x) for x in ("r0", "b0", "p0", "n"))
        # a skip beyond the buffer is only requested before any skip inside it (see the parsers' rule)
        P0 = T.lt.lin(p0) if case == "within" else L.const(0)
        st = T.start(State(), T.lt.lin(r0), T.lt.lin(b0), P0)
        st = T.fact(st, L.sub(T.lt.lin(b0), P0))
        st = T.fact(st, L.sub(T.lt.lin(r0), T.lt.lin(b0)))
        v0 = L.sub(T.lt.lin(b0), P0)
        N = T.lt.lin(n)
        st = T.fact(st, L.sub(v0, N) if case == "within" else L.addc(L.sub(N, v0), -1))
        O0 = T.O(st)
        args = [("sym", "self"), ("sym", "reader"), ("sym", "skip"), n]
        for s, v in run_fn(T, b, args, st):
            if infeasible(T, s):
                continue
            if v[0] == "diverge":
                ctx.oblige("skip-total", "%s/%s" % (side, case), v[1] in ("loop", "resume", "unreachable", "cdrop", "terminate"), "clear_and_skip can end in %s" % v[1])
                continue
            nk += 1
            fs = T.facts_of(s)
            log = T.machine(s)["log"]
            for e in log:
                if e[0] == "view":
                    ctx.oblige("skip-view", "%s/%s" % (side, case), T.lt.entails(e[2], fs), "the position lies beyond the buffer while skipping")
            t, p = C.result(v)
            failed = any(e[0] == "ioerr" for e in log)
            how = "seek" if any(e[0] == "seek" for e in log) else "discard" if any(e[0] == "noseek" for e in log) else "advance"
            key = "%s/%s/%s" % (side, case, how)
            if t == "ok":
                ctx.oblige("skip-errors", key, not failed, "a read or seek error is ignored while skipping")
                ctx.oblige("skip-amount", key, T.lt.equal(T.O(s), L.add(O0, N), fs), "after skipping n bytes the parser continues at another place than n bytes further")
            elif t == "err":
                conv = any(e[0] == "disc" and c == ("=", 1) and any(cname(x[1]) in ("try_into", "try_from") for x in calls(e)) for e, c in s.cons.items() if e != M)
                ctx.oblige("skip-errors", key, (failed and io_err(p)) or (not failed and conv), "skipping fails with %s" % short(F, p)[:200])
            else:
                ctx.oblige("skip-result", key, False, "clear_and_skip returns %s" % short(F, v)[:200])
    ctx.floor("skip-paths-" + side, nk, 12)


class Loop(Stream):
    """the parse loop: the parser callback answers with any outcome, the skip primitive with its specification"""

    def parse(self, args, st):
        self.n += 1
        i = self.n
        st = self.log(st, ("parse", tuple(args), self.O(st), self.V(st), i))
        out = [(st, ok(("sym", "out%d" % i)))]
        need = ("sym", "need%d" % i)
        sk = ("sym", "skip%d" % i)
        F = self.F
        sym = ("sym", "state%d" % i)
        for vn, pl in (("Need", (need,)), ("ClearAndSkip", (sk,)), ("Failed", (("sym", "kind%d" % i), ("sym", "msg%d" % i)))):
            e = ("agg", PE, C.vidx(F, PE, vn), pl)
            flds = [None, None]
            flds[C.fidx(F, PS, "err")] = e
            flds[C.fidx(F, PS, "state")] = sym
            out.append((self.log(st, (vn, i)), err(("agg", PS, None, tuple(flds)))))
        return out

    def call(self, c, a, st, depth, stack, env, t):
        if c.name == "clear_and_skip":
            r = [self.resolve_refs(x, env) for x in a]
            m = self.machine(st)
            n = self.lt.lin(r[3])
            self.n += 1
            # afterwards the view starts n further, with some bytes in it
            B, P = self.lt.lin(("sym", "B%d" % self.n)), self.lt.lin(("sym", "P%d" % self.n))
            O = L.add(self.O(st), n)
            s = self.setm(st, R=L.add(O, L.sub(B, P)), B=B, P=P)
            s = self.fact(s, L.sub(B, P))
            s = self.log(s, ("skipped", n))
            yield s, ok(UNIT), None, 0
            yield self.log(st, ("ioerr",)), err(("agg", PD, C.vidx(self.F, PD, "IOError"), (IOE,))), None, 0
            return
        yield from super().call(c, a, st, depth, stack, env, t)


def loop_rule(ctx, F, side, trait, entry):
    b = trait_fn(F, trait, entry)
    T = Loop(F, unroll=3, max_paths=60000, depth=16)
    st = T.start(State(), T.lt.lin(("sym", "r0")), T.lt.lin(("sym", "b0")), T.lt.lin(("sym", "p0")))
    v0 = L.sub(T.lt.lin(("sym", "b0")), T.lt.lin(("sym", "p0")))
    st = T.fact(st, v0)
    O0 = T.O(st)
    args = [("sym", "self"), ("sym", "reader"), ("sym", "skip"), ("sym", "parse"), ("sym", "offset")][:b.argc]
    n = rounds = 0
    for s, v in run_fn(T, b, args, st):
        if v[0] == "diverge" and v[1] != "loop" and not infeasible(T, s):
            ctx.oblige("loop-total", side, v[1] in ("resume", "cdrop", "terminate", "unreachable"), "the parse loop can end in %s" % v[1])
        if v[0] == "diverge" and v[1] != "loop":
            continue
        if infeasible(T, s):
            continue
        n += 1
        fs = T.facts_of(s)
        log = T.machine(s)["log"]
        exp = O0
        state = NONE
        last = None
        got = 0
        for e in log:
            if e[0] == "parse":
                rounds += 1
                if last is not None:
                    if last[0] == "Need":
                        ctx.oblige("loop-need", "%s/grow" % side, got is True, "asked for more bytes, the loop retries without reading any")
                    if last[0] == "ClearAndSkip":
                        ctx.oblige("loop-skip", "%s/once" % side, got == "skip", "asked to skip, the loop does not skip exactly once")
                data, stt = e[1][0], e[1][-1]
                ctx.oblige("loop-view", side, data[0] == "view" and T.lt.equal(data[1], exp, fs) and T.lt.equal(data[1], e[2], fs) and T.lt.equal(data[2], e[3], fs),
                           "the parser is not given all bytes from its current place on")
                ctx.oblige("loop-state", side, stt == state, "the parser is resumed with state %s instead of %s" % (short(F, stt), short(F, state)))
                if len(e[1]) == 3:
                    ctx.oblige("loop-offset", side, e[1][1] == ("sym", "offset") or isk(e[1][1]), "the parser's offset changes: %s" % short(F, e[1][1]))
                last, got = None, 0
            elif e[0] in ("Need", "ClearAndSkip", "Failed"):
                last = e
                state = ("sym", "state%d" % e[1])
                got = 0
            elif e[0] == "fill":
                if last and last[0] == "Need":
                    got = got is True or T.lt.entails(L.addc(e[1], -1), fs) or T.lt.entails(L.sub(e[1], T.lt.lin(("sym", "need%d" % last[1]))), fs)
            elif e[0] == "skipped":
                want = last and last[0] == "ClearAndSkip" and T.lt.equal(e[1], T.lt.lin(("sym", "skip%d" % last[1])), fs)
                ctx.oblige("loop-skip", "%s/amount" % side, bool(want) and got == 0, "the loop skips another number of bytes than the parser asked for")
                exp = L.add(exp, e[1])
                got = "skip"
        t, p = C.result(v) if v[0] != "diverge" else ("loop", None)
        failed = any(e[0] == "ioerr" for e in log)
        if t == "loop":
            ctx.oblige("loop-errors", side + "/continue", not failed and not (last and last[0] == "Failed"), "the loop continues after an error")
            continue
        ps = [e for e in log if e[0] == "parse"]
        lp = ps[-1][4] if ps else None
        if t == "ok":
            ctx.oblige("loop-done", side, lp is not None and last is None and p == ("sym", "out%d" % lp), "the loop succeeds with %s" % short(F, v)[:200])
            ctx.oblige("loop-errors", side + "/ok", not failed, "the loop succeeds after a read error")
        elif last and last[0] == "Failed" and not failed:
            good = p[0] == "agg" and p[1] == PD and p[2] == C.vidx(F, PD, "Failed") and p[3] == (("sym", "kind%d" % lp), ("sym", "msg%d" % lp))
            ctx.oblige("loop-failed", side, good, "a parse failure is reported as %s" % short(F, p)[:200])
        else:
            eofs = last and last[0] == "Need" and not failed
            ctx.oblige("loop-errors", side + "/err", (failed and io_err(p)) or bool(eofs), "the loop fails with %s" % short(F, p)[:200])
            if eofs:
                zero = any(e[0] == "sym" and e[1].startswith("got") and c == ("=", 0) for e, c in s.cons.items() if e != M)
                ctx.oblige("loop-errors", side + "/eof", zero, "the loop gives up although bytes were read")
    ctx.floor("loop-paths-" + side + "-" + entry, n, 10)
    ctx.floor("loop-rounds-" + side + "-" + entry, rounds, 20)


def driver(ctx, F):
    """the parse loop and skipping, sync and async"""
    for side, trait in (("sync", "parser::BufParser"), ("async", "parser_async::AsyncBufParser")):
        own = [b for b in F.bodies.values() if b.d.get("trait") == trait and b.kind == "AssocFn" and b.name in ("load_and_parse", "load_and_parse_with_offset", "clear_and_skip") and not b.path.startswith(trait)]
        ctx.oblige("driver-single", side, not own, "the driver is overridden by %s" % [b.path for b in own])
        skip_rule(ctx, F, side, trait)
        loop_rule(ctx, F, side, trait, "load_and_parse_with_offset")
        loop_rule(ctx, F, side, trait, "load_and_parse")


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("abstract stream machine (bytes read, buffer length, position as linear quantities): every path of the parse loop, of skipping and of filling is "
                "followed, in the sync and the async driver, and the source offset of the first byte handed to a parser is compared with what it asked for; "
                "the buffer primitives, the constructors of the sources and every path of the public parse methods are analysed for the bytes the parser holds at each hand-over")
    driver(ctx, F)
    flow.buffer_rule(ctx, F)
    flow.fill_rule(ctx, F, {"bytes", "errors"})
    flow.source_rule(ctx, F, {"bytes", "skip"})
    flow.entry_rule(ctx, F)
    flow.inner_rule(ctx, F)
