"""Check context: obligations, violations, known findings, evidence."""
import json, os, signal, sys, time, traceback
import extract
import model
from model import Facts, Anchor

VERIF = extract.VERIF


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self._facts = {}
        self._raw = {}
        self.obls = []           # (rule, key, ok)
        self.viol = []           # (key, text)
        self.notes = []
        self.counts = {}
        self.assumptions = []
        self.rule = ""
        self.cache = {}
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def raw(self, config):
        if config not in self._raw:
            self._raw[config] = extract.extract(config)
        return self._raw[config]

    def facts(self, config="all", crate="nom_exif"):
        key = (config, crate)
        if key not in self._facts:
            self._facts[key] = Facts(self.raw(config)[crate])
        return self._facts[key]

    def oblige(self, rule, key, ok, text=""):
        """one obligation; a failed one is a violation keyed `rule/key`"""
        self.obls.append((rule, key, bool(ok)))
        if not ok:
            self.violation("%s/%s" % (rule, key), text or "obligation not met")
        return ok

    def violation(self, key, text):
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, text))

    def floor(self, name, got, want):
        """fail closed: the rule saw fewer instances than were confirmed by hand"""
        self.counts[name] = got
        if got < want:
            self.violation("floor/" + name, "analysed %d instances of %s, expected at least %d: "
                           "an anchor of the rule has disappeared" % (got, name, want))

    def count(self, name, n):
        self.counts[name] = n


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main(prop, runner, level="other"):
    c = Ctx(prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    def late(*_):
        raise TimeoutError("the analysis does not end within its time limit")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(780)
    try:
        runner(c)
    except Anchor as e:
        c.violation("anchor/" + str(e), "fail closed: %s" % e)
    except extract.ExtractError as e:
        print("error: %s" % e, file=sys.stderr)
        sys.exit(3)
    except (Exception, RecursionError) as e:
        # nothing is claimed about a program the analysis cannot follow to its end
        traceback.print_exc()
        c.violation("undecided/" + type(e).__name__, "fail closed: %s" % e)
    signal.alarm(0)
    kf = {f["key"]: f for f in known() if f["property"] == prop and f.get("status") == "open"}
    bad = [(k, t) for k, t in c.viol if k not in kf]
    good = [(k, t) for k, t in c.viol if k in kf]
    ev = {
        "property": prop, "tier": c.tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": c.rule,
            "obligations": len(c.obls),
            "discharged": sum(1 for o in c.obls if o[2]),
            "analysed": c.counts,
            "obligations_by_rule": by_rule(c.obls),
            "samples": ["%s: %s" % (o[0], o[1]) for o in c.obls[:: max(1, len(c.obls) // 25)]][:30],
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - c.t0, 3),
        "violations": len(bad),
    }
    EV = os.environ.get("NOMSA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, t in good:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, t.splitlines()[0]))
    for n in c.notes:
        print(n)
    if bad:
        rp = os.path.join(EV, prop + ".violations.txt")
        with open(rp, "w") as f:
            for k, t in bad:
                f.write("[%s]\n%s\n\n" % (k, t))
        for k, t in bad[:20]:
            print("  %s\n      %s" % (k, t.replace("\n", "\n      ")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s obligations=%d analysed=%s (%.1fs)" % (prop, len(c.obls), json.dumps(c.counts), time.time() - c.t0))
    sys.exit(0)


def by_rule(obls):
    d = {}
    for r, _, ok in obls:
        x = d.setdefault(r, {"total": 0, "ok": 0})
        x["total"] += 1
        x["ok"] += int(ok)
    return d
