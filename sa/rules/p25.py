"""P25: cargo features only add. Every function, type, constant and trait implementation of the crate without features is compared,
by resolved MIR, with the one built with each feature set."""
import hashlib, json
from collections import defaultdict

CONFIGS = ("tokio", "serde", "all")


def norm(F, x, key=None):
    if isinstance(x, dict):
        return {kk: norm(F, v, kk) for kk, v in x.items() if kk not in ("l", "mac", "id", "rid", "line", "endline", "file", "n")
                or (kk == "n" and not isinstance(v, (str, dict)))}
    if isinstance(x, list):
        if key in ("a", "ra") and all(isinstance(v, int) for v in x):
            return [F.types[v]["s"] for v in x]
        return [norm(F, v) for v in x]
    if isinstance(x, int) and not isinstance(x, bool) and key in ("ty", "t", "self", "dt"):
        return F.types[x]["s"]
    return x


def shape(F, b):
    d = b.d
    o = {kk: norm(F, d[kk], kk) for kk in ("blocks", "locals", "proms", "argc", "kind", "reach", "exported", "async", "pub", "deprecated", "sig", "trait", "traitref", "self") if kk in d}
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()


def table(F):
    t = defaultdict(list)
    for b in F.bodies.values():
        t[b.path].append(b)
    return t


def run(ctx):
    ctx.rule = ("every body, type, constant and impl of the featureless build is looked up in the builds with tokio, serde and all features: it must exist there, "
                "with the same signature and visibility, and its resolved MIR must be the same")
    N = ctx.facts("none")
    nt = table(N)
    total = 0
    for cfg in CONFIGS:
        G = ctx.facts(cfg)
        gt = table(G)
        for path, bs in sorted(nt.items()):
            gs = gt.get(path, [])
            total += len(bs)
            if not ctx.oblige("exists", "%s/%s" % (cfg, path), len(gs) >= len(bs), "%s exists without features but not with %s" % (path, cfg)):
                continue
            a, b = sorted(shape(N, x) for x in bs), sorted(shape(G, x) for x in gs)
            ctx.oblige("same", "%s/%s" % (cfg, path), all(b.count(x) >= a.count(x) for x in a),
                       "%s (%s) does something else when the crate is built with features %s" % (path, bs[0].file, cfg))
        for p, ad in sorted(N.adts.items()):
            if not ad.get("local"):
                continue
            g = G.adts.get(p)
            def key(F, ad):
                return json.dumps([ad["kind"], ad.get("pub"), ad.get("non_exhaustive"), norm(F, ad["vs"])] + [[v["n"] for v in ad["vs"]]], sort_keys=True)
            ctx.oblige("type", "%s/%s" % (cfg, p), g is not None and key(N, ad) == key(G, g), "type %s is defined differently with features %s" % (p, cfg))
        have = {(i.get("traitref")) for i in G.impls}
        for i in N.impls:
            if i.get("traitref"):
                ctx.oblige("impl", "%s/%s" % (cfg, i["traitref"]), i["traitref"] in have, "impl %s is missing with features %s" % (i["traitref"], cfg))
    ctx.count("bodies without features", len(N.bodies))
    ctx.floor("body comparisons", total, 2400)
