"""Fact extraction: builds the rustc_private driver if needed and re-extracts the
resolved MIR of /repo's *current* working tree.  Fails closed."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NOMSA_REPO", "/repo")
BUILD = os.environ.get("NOMSA_BUILD") or os.path.join(VERIF, "build")
TC = "nightly-x86_64-unknown-linux-gnu"


class ExtractError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def sysroot():
    r = sh(["rustc", "+" + TC, "--print", "sysroot"])
    if r.returncode:
        raise ExtractError("nightly toolchain missing: " + r.stdout)
    return r.stdout.strip().splitlines()[-1]


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    out = os.path.join(BUILD, "nomsa-driver")
    stamp = out + ".sha"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(["rustc", "+" + TC, "--edition", "2021", "-O", src, "-o", tmp])
    if r.returncode:
        raise ExtractError("driver build failed:\n" + r.stdout[-4000:])
    os.replace(tmp, out)
    open(stamp, "w").write(h)
    return out


def tree_hash(repo):
    """hash of every file that can influence the build"""
    h = hashlib.sha256()
    for root in ("src", "crates"):
        for dp, dn, fn in sorted(os.walk(os.path.join(repo, root))):
            dn[:] = sorted(d for d in dn if d != "target")
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(os.path.relpath(p, repo).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    for f in ("Cargo.toml", "Cargo.lock", "README.md"):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


CONFIGS = {
    # name: (cargo args, crates that must be dumped)
    "all": (["--workspace", "--all-features"], ["nom_exif", "rexiftool"]),
    "none": (["-p", "nom-exif"], ["nom_exif"]),
    "tokio": (["-p", "nom-exif", "--features", "tokio"], ["nom_exif"]),
    "serde": (["-p", "nom-exif", "--features", "serde"], ["nom_exif"]),
}


def extract(config="all", repo=None):
    """returns {crate: facts} for the working tree.  The result of one extraction is
    shared only between invocations on a byte-identical source tree."""
    repo = repo or REPO
    drv = build_driver()
    dh = open(os.path.join(BUILD, "nomsa-driver.sha")).read()
    args, crates = CONFIGS[config]
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        th = tree_hash(repo)
        out = os.path.join(BUILD, "facts-" + config)
        key = hashlib.sha256((th + dh + config).encode()).hexdigest()
        kf = os.path.join(out, "key")
        if not (os.path.exists(kf) and open(kf).read() == key
                and all(os.path.exists(os.path.join(out, c + ".json")) for c in crates)):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            td = os.path.join(BUILD, "target-deps")
            env = dict(os.environ)
            for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
                env.pop(k, None)
            env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
                       NOMSA_CRATES="nom_exif,rexiftool", NOMSA_OUT=out,
                       RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=td,
                       RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
            # defeat cargo's freshness cache for the workspace crates only
            for sub in (".fingerprint", "build"):
                fp = os.path.join(td, "debug", sub)
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d in ("nom-exif", "rexiftool") or d.startswith(("nom-exif-", "rexiftool-")):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            r = sh(["cargo", "check", "--offline"] + args, env=env, cwd=repo)
            if r.returncode:
                raise ExtractError("cargo check failed on the working tree:\n" + r.stdout[-6000:])
            for c in crates:
                p = os.path.join(out, c + ".json")
                if not os.path.exists(p):
                    raise ExtractError("no facts for crate %s (wrapper skipped?)\n%s" % (c, r.stdout[-2000:]))
            if tree_hash(repo) != th:
                raise ExtractError("working tree changed during extraction")
            open(kf, "w").write(key)
        res = {}
        for c in crates:
            with open(os.path.join(out, c + ".json")) as f:
                res[c] = json.load(f)
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
