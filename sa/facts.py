"""Builds the MIR-facts driver and extracts facts from /repo's current working tree.

The facts are regenerated on every run unless the exact contents of every input file
(the sources, manifests, the driver itself) hash to a directory that already exists.
"""
import hashlib, json, os, shutil, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIQ_REPO", "/repo")
WORK = os.environ.get("LIQ_WORK", os.path.join(VERIF, ".work"))

CONFIGS = {
    # name: (cargo args, crates expected)
    "ffi": (["-p", "imagequant-sys"], ["imagequant", "imagequant_sys"]),
    "nothreads": (["-p", "imagequant", "--no-default-features"], ["imagequant"]),
    "all": (["-p", "imagequant", "-p", "imagequant-sys", "--all-features"], ["imagequant", "imagequant_sys"]),
}


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.pop("RUSTUP_TOOLCHAIN", None)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_INCREMENTAL"):
            e.pop(k)
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=env(), text=True).strip()


def build_driver():
    tgt = os.path.join(WORK, "driver-target")
    os.makedirs(WORK, exist_ok=True)
    binp = os.path.join(tgt, "release", "liqfacts")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs", "src/json.rs"):
        h.update(open(os.path.join(VERIF, "driver", f), "rb").read())
    stamp = os.path.join(tgt, "stamp")
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return binp
    e = env()
    e["RUSTC_BOOTSTRAP"] = "1"
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", tgt],
                       cwd=os.path.join(VERIF, "driver"), env=e, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("driver build failed:\n" + r.stderr[-3000:])
    open(stamp, "w").write(h.hexdigest())
    return binp


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base, dirs, fs in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for f in fs:
            if f.endswith((".rs", ".toml", ".h", ".c", ".lock", ".java", ".cs")):
                files.append(os.path.join(base, f))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    for f in ("driver/src/main.rs", "driver/src/json.rs"):
        h.update(open(os.path.join(VERIF, f), "rb").read())
    return h.hexdigest()[:20]


def extract(config):
    """returns dict crate->facts (parsed JSON)"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _extract(config)


def _extract(config):
    args, crates = CONFIGS[config]
    out = os.path.join(WORK, "facts", config + "-" + tree_hash())
    if not all(os.path.exists(os.path.join(out, c + ".json")) for c in crates):
        base = os.path.join(WORK, "facts")
        if os.path.isdir(base):
            old = sorted((os.path.join(base, d) for d in os.listdir(base) if d.startswith(config + "-")), key=os.path.getmtime)
            for d in old[:-3]:
                shutil.rmtree(d, ignore_errors=True)
        drv = build_driver()
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(WORK, "target-" + config)
        e = env()
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e["LIQ_FACTS_DIR"] = tmp
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Cdebug-assertions=off -Coverflow-checks=off --cap-lints=warn"
        # cargo's freshness cache would skip the wrapper: drop the fingerprints of the workspace crates
        for prof in ("debug",):
            for sub in (".fingerprint", "build"):
                d = os.path.join(tgt, prof, sub)
                if os.path.isdir(d):
                    for n in os.listdir(d):
                        if n.startswith("imagequant"):
                            shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--target-dir", tgt] + args, cwd=REPO, env=e,
                           capture_output=True, text=True)
        missing = [c for c in crates if not os.path.exists(os.path.join(tmp, c + ".json"))]
        if r.returncode or missing:
            # is it the tree or the extractor that fails?
            e2 = env()
            r2 = subprocess.run(["cargo", "check", "--offline", "--target-dir", os.path.join(WORK, "target-plain")] + args, cwd=REPO, env=e2,
                                capture_output=True, text=True)
            if r2.returncode == 0:
                raise RuntimeError(f"extractor failed on a tree that builds (config {config}):\n" + r.stderr[-4000:])
            raise ToolError(f"fact extraction failed (config {config}, missing {missing}):\n" + r.stderr[-4000:])
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return {c: json.load(open(os.path.join(out, c + ".json"))) for c in crates}


if __name__ == "__main__":
    t = time.time()
    for c in sys.argv[1:] or CONFIGS:
        d = extract(c)
        print(c, {k: len(v["fns"]) for k, v in d.items()}, round(time.time() - t, 1))
