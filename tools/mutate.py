#!/usr/bin/env python3
"""development aid: run checks on mutants in scratch copies (never on /repo).
usage: mutate.py MUTS.py [-c P14,P31] [-t] [-j 4] [name ...]
MUTS.py defines M = [(name, file, old, new[, nth])...]; -t also runs the test suite on each mutant."""
import os, shutil, subprocess, sys, runpy, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
muts = runpy.run_path(a.pop(0))["M"]
checks, tests, j, names = None, False, 4, []
while a:
    x = a.pop(0)
    if x == "-c": checks = a.pop(0).split(",")
    elif x == "-t": tests = True
    elif x == "-j": j = int(a.pop(0))
    else: names.append(x)
if names: muts = [m for m in muts if m[0] in names]
if checks is None:
    checks = sorted(f[:-3].upper() for f in os.listdir(V + "/sa/rules") if f.startswith("p") and f[1].isdigit())
S = "/tmp/nomsa-mut"
os.makedirs(S, exist_ok=True)
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
import json
_b = json.load(open("/opt/vp/BASELINE.json"))
STABLE = {x.split('::', 1)[-1] if not x.startswith('doc') else x for x in _b['stable']} | {x.split(':', 1)[-1] for x in _b['stable']} | {x.split()[-1] for x in _b['stable']}
def worker(i):
    w = "%s/w%d" % (S, i)
    r, b = w + "/repo", w + "/build"
    os.makedirs(w, exist_ok=True)
    if not os.path.exists(b):
        shutil.copytree(V + "/build", b, symlinks=True, ignore=shutil.ignore_patterns("facts-*"))
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", r + "/"], check=True) if shutil.which("rsync") else copy(r)
        out = []
        if isinstance(m[1], str) and m[1].endswith(".diff"):
            if subprocess.run(["patch", "-p1", "-s", "-i", m[1]], cwd=r).returncode: out.append("PATCH-FAILED")
        else:
            edits = m[1] if isinstance(m[1], list) else [m[1:]]
            for e in edits:
                p = r + "/" + e[0]
                s = open(p).read()
                n = e[3] if len(e) > 3 else 0
                if s.count(e[1]) <= n: out.append("NO-MATCH %s" % e[1][:40]); continue
                parts = s.split(e[1])
                s = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
                open(p, "w").write(s)
        env = dict(os.environ, NOMSA_REPO=r, NOMSA_BUILD=b, NOMSA_EVIDENCE=w + "/ev")
        caught = []
        if not out:
            for c in checks:
                x = subprocess.run([V + "/check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if x.returncode == 1 and "VIOLATION" in x.stdout:
                    ks = [l.strip() for l in x.stdout.splitlines() if l.startswith("  ") and not l.startswith("      ")]
                    caught.append("%s[%s]" % (c, "; ".join(ks[:3])[:160]))
                elif x.returncode:
                    tail = [l for l in x.stdout.strip().splitlines() if "error" in l] or x.stdout.strip().splitlines()
                    out.append("%s EXIT %d %s" % (c, x.returncode, tail[-1][:200] if tail else ""))
                    if x.returncode == 3: out[-1] += " " + " | ".join(tail[:3])[:300]; break
            if tests:
                t = subprocess.run(["cargo", "nextest", "run", "--offline", "--workspace", "--all-features", "--no-fail-fast"], cwd=r, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, CARGO_TARGET_DIR=w + "/tt", CARGO_NET_OFFLINE="true"))
                bad = sorted({l.split()[-1] for l in t.stdout.splitlines() if l.strip().startswith("FAIL ")} & STABLE)
                if "Summary" not in t.stdout: bad = ["BUILD " + " ".join(l for l in t.stdout.splitlines() if l.startswith("error"))[:150]]
                out.append("tests " + ("pass" if not bad else "FAIL %d %s" % (len(bad), " ".join(bad[:2])[:160])))
        with lock:
            print("%-28s %s %s" % (m[0], "CAUGHT " + " ".join(caught) if caught else "quiet", " ".join(out)), flush=True)
def copy(r):
    for d in ("src", "crates", "tests", "testdata", "docs", "fuzz"):
        s = "/repo/" + d
        if os.path.isdir(s):
            if d in ("testdata", "docs") and os.path.exists(r + "/" + d): continue
            shutil.rmtree(r + "/" + d, ignore_errors=True)
            shutil.copytree(s, r + "/" + d, symlinks=True, ignore=shutil.ignore_patterns("target"))
    for f in os.listdir("/repo"):
        if os.path.isfile("/repo/" + f): shutil.copy2("/repo/" + f, r + "/" + f)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(min(j, len(muts)))]
[t.start() for t in ts]; [t.join() for t in ts]
