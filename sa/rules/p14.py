"""P14: the EXIF tag tables are mutually inverse (code, name, FromStr, Display, TagOrCode)."""
from table import Tab, k, isk, some, NONE
from rules import common as C

ADT = "exif::tags::ExifTag"
TOC = "exif::tags::TagOrCode"


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("decision tables of ExifTag::{code,name,from_code,from_str,fmt} and TagOrCode::{from,code,tag,fmt} are "
                "extracted from MIR by path-sensitive constant propagation and checked to be mutually inverse for every "
                "declared variant and for the default row")
    T = Tab(F)
    C.tag_tables(ctx, F, T, ADT, floor=123, codes=True)
    # TagOrCode
    adt = F.adt(ADT)
    by_code = {int(v["d"]): i for i, v in enumerate(adt["vs"])}
    toc = F.adt(TOC)
    vi = {v["n"]: i for i, v in enumerate(toc["vs"])}
    b = C.impl_fn(F, "std::convert::From", TOC, "from")
    seen = set()
    for st, v in T.run(b, [("sym", "code")]):
        code = st.known(("sym", "code"))
        if code is not None and code in by_code:
            seen.add(code)
            ctx.oblige("tagorcode-from", "0x%04x" % code, v == ("agg", TOC, vi["Tag"], (("agg", ADT, by_code[code], ()),)),
                       "TagOrCode::from(0x%04x) yields %r" % (code, v))
        else:
            want = ("agg", TOC, vi["Unknown"], (("sym", "code") if code is None else k(code),))
            ok = v in (want, ("agg", TOC, vi["Unknown"], (("sym", "code"),)))
            excl = st.cons.get(("sym", "code"))
            full = code is not None or (excl and excl[0] == "!=" and set(by_code) <= set(excl[1]))
            ctx.oblige("tagorcode-from", "unknown" if code is None else "0x%04x" % code, ok and full,
                       "TagOrCode::from(unrecognised code) yields %r" % (v,))
    ctx.oblige("tagorcode-from", "all-codes", seen == set(by_code), "codes never mapped: %s" % sorted(set(by_code) - seen)[:8])
    for n in ("code", "tag"):
        b = C.method(F, TOC, n)
        for vn, i in vi.items():
            arg = ("agg", TOC, i, (("sym", "payload"),))
            for st, v in T.run(b, [arg]):
                if n == "code":
                    okv = C.strip_cast(v) == (("sym", "payload") if vn == "Unknown" else ("disc", ("sym", "payload"), ADT))
                else:
                    okv = v == (NONE if vn == "Unknown" else some(("sym", "payload")))
                ctx.oblige("tagorcode-" + n, vn, okv, "TagOrCode::%s on %s yields %r" % (n, vn, v))
