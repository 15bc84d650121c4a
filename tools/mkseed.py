#!/usr/bin/env python3
"""development aid: turn seed definitions into /verif/seeded/<id>/ after verifying them in a scratch copy.
usage: mkseed.py SEEDS.py [-j N] [id ...]    SEEDS.py: S = [dict(id, property, edits=[(file, old, new[, nth])], demo=rust main body, needs, breaks)]
a seed is written when: the patched tree builds, the stable tests pass, the demo passes without and fails with the patch."""
import json, os, queue, runpy, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
S = runpy.run_path(a.pop(0))["S"]
j, names = 3, []
while a:
    x = a.pop(0)
    if x == "-j": j = int(a.pop(0))
    else: names.append(x)
if names: S = [s for s in S if s["id"] in names]
PRE = open(V + "/tools/prelude.rs").read()
DEMO = """#!/bin/sh
# cwd: /repo. Builds a small program against the crate (in a scratch directory) and runs it.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir "$D/src" && cp "$H/demo.rs" "$D/src/main.rs" || exit 2
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nom-exif = { path = "$R", features = ["tokio", "serde"] }
chrono = "0.4"
bytes = "1"
serde_json = "1"
tokio = { version = "1", features = ["rt", "macros", "fs", "io-util"] }
[workspace]
X
cd "$D" && timeout 280 env CARGO_TARGET_DIR="$D/target" cargo run -q --offline
"""
_b = json.load(open("/opt/vp/BASELINE.json"))
STABLE = {x.split('::', 1)[-1] if not x.startswith('doc') else x for x in _b['stable']} | {x.split(':', 1)[-1] for x in _b['stable']} | {x.split()[-1] for x in _b['stable']}
W0 = "/tmp/nomsa-seed"
os.makedirs(W0, exist_ok=True)
q = queue.Queue()
for s in S: q.put(s)
lock = threading.Lock()
def sh(cmd, cwd, env=None, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def worker(i):
    w = "%s/w%d" % (W0, i)
    r = w + "/repo"
    os.makedirs(w, exist_ok=True)
    while True:
        try: s = q.get_nowait()
        except queue.Empty: return
        try: msg = one(s, w, r)
        except Exception as e: msg = "EXC %r" % e
        with lock: print("%-26s %s" % (s["id"], msg), flush=True)
def demo(d, r, w):
    # same recipe as demo.sh but with a persistent target dir for speed
    t = w + "/demo"
    os.makedirs(t + "/src", exist_ok=True)
    x = DEMO.replace('D=$(mktemp -d) || exit 2\ntrap \'rm -rf "$D"\' EXIT\nmkdir "$D/src" && ', 'D=%s\n' % t)
    return subprocess.run(["sh", "-c", x, d + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def one(s, w, r):
    if not os.path.exists(r):
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    sh(["git", "fetch", "-q", "/repo", "HEAD"], r); sh(["git", "checkout", "-q", "-f", "FETCH_HEAD"], r); sh(["git", "clean", "-fdq", "-e", "target"], r)
    shutil.copy2("/repo/Cargo.lock", r + "/Cargo.lock")
    d = w + "/seed"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/demo.rs", "w").write(PRE + "\n" + s["demo"])
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    x = demo(d, r, w)
    if x.returncode: return "DEMO FAILS ON BASE: " + x.stdout[-1500:]
    for e in s["edits"]:
        p = r + "/" + e[0]; t = open(p).read(); n = e[3] if len(e) > 3 else 0
        if t.count(e[1]) <= n: return "NO-MATCH %s" % e[1][:60]
        ps = t.split(e[1]); t = e[1].join(ps[:n+1]) + e[2] + e[1].join(ps[n+1:])
        open(p, "w").write(t)
    diff = sh(["git", "diff"], r).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    x = demo(d, r, w)
    if x.returncode == 0: return "DEMO PASSES WITH PATCH"
    why = x.stdout.strip().splitlines()
    if any(l.startswith("error") for l in why): return "DEMO BUILD: " + x.stdout[:1500]
    t = sh(["cargo", "nextest", "run", "--offline", "--workspace", "--all-features", "--no-fail-fast"], r, {"CARGO_TARGET_DIR": w + "/tt"})
    bad = sorted({l.split()[-1] for l in t.stdout.splitlines() if l.strip().startswith("FAIL ")} & STABLE)
    if "Summary" not in t.stdout: return "BUILD " + t.stdout[-800:]
    if bad: return "TESTS FAIL %s" % bad[:4]
    t = sh(["cargo", "test", "--offline", "--doc", "--all-features", "-q"], r, {"CARGO_TARGET_DIR": w + "/tt"})
    dbad = [l for l in t.stdout.splitlines() if l.startswith("    src/") and "parser::MediaParser (" not in l]
    if dbad: return "DOCTESTS FAIL %s" % dbad[:2]
    o = V + "/seeded/" + s["id"]
    shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
    return "ok (%s)" % (why[-1][:150] if why else "")
ts = [threading.Thread(target=worker, args=(i,)) for i in range(min(j, len(S)))]
[t.start() for t in ts]; [t.join() for t in ts]
