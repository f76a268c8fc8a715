"""Makes and confirms planted bugs. Reads tools/seeds/<id>/{case.txt,main.rs}; writes seeded/<id>/.
  python3 tools/seed.py [id...]
case.txt: first line `property: Cxx`, `needs: ...`, `breaks: ...`, then @@/<<<</====/>>>> edits as in selftest.
Confirms in a scratch copy: builds, stable tests pass, demo passes before and fails after. Not part of any check."""
import os, re, sys, json, shutil, subprocess, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/liq-seed"
DEMO = '''#!/bin/bash
# run with cwd = the repository, after the build; exit 0 = behaves as specified
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
imagequant = { path = "$repo"%s }
imagequant-sys = { path = "$repo/imagequant-sys" }
rgb = "0.8"
[profile.dev]
opt-level = 1
E
cd "$t" || exit 99
cargo build --offline -q --target-dir "$t/target" || exit 98
timeout 200 "$t/target/debug/demo"
'''


def parse(f):
    s = open(f).read()
    head, _, body = s.partition("\n@@ ")
    body = "@@ " + body
    meta = dict(l.split(": ", 1) for l in head.strip().split("\n"))
    eds, file = [], None
    for m in re.finditer(r"^@@ (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>\n", body, flags=re.M | re.S):
        if m.group(1):
            file = m.group(1)
        else:
            eds.append((file, m.group(2), m.group(3)))
    return meta, eds


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(i):
    src = V + "/tools/seeds/" + i
    out = V + "/seeded/" + i
    meta, eds = parse(src + "/case.txt")
    repo = SCR + "/repo"
    os.makedirs(SCR, exist_ok=True)
    if not os.path.isdir(repo):
        sh("cp -a /repo %s" % repo)
    sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (repo, repo))
    os.makedirs(out, exist_ok=True)
    shutil.copy(src + "/main.rs", out + "/main.rs")
    if os.path.exists(src + "/demo.sh"):
        shutil.copy(src + "/demo.sh", out + "/demo.sh")
    else:
        feat = ', default-features = false' if meta.get("features") == "none" else ""
        open(out + "/demo.sh", "w").write(DEMO % feat)
    os.chmod(out + "/demo.sh", 0o755)
    r0 = sh("bash %s/demo.sh" % out, cwd=repo)
    for f, a, b in eds:
        s = open(repo + "/" + f).read()
        if s.count(a) != 1:
            a, b = a.rstrip("\n"), b.rstrip("\n")
        if s.count(a) != 1:
            print(i, "BAD EDIT", f, s.count(a)); return
        open(repo + "/" + f, "w").write(s.replace(a, b))
    d = sh("git -C %s diff" % repo).stdout
    open(out + "/patch.diff", "w").write(d)
    r1 = sh("bash %s/demo.sh" % out, cwd=repo)
    for n in ("build.sh", "test.sh"):
        open(SCR + "/" + n, "w").write(open("/opt/vp/" + n).read().replace("/repo", repo))
    b = sh("bash %s/build.sh" % SCR)
    sh("bash %s/test.sh %s/o.json" % (SCR, SCR))
    o = json.load(open(SCR + "/o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests") or base
    passed = set(o.get("passed", []))
    lost = [t for t in stable if t not in passed] if isinstance(stable, list) else "?"
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    sh("git -C %s checkout -q -- ." % repo)
    good = r0.returncode == 0 and r1.returncode not in (0, 98, 99) and b.returncode == 0 and not lost
    print(i, "OK" if good else "NOT CONFIRMED", "clean=%d patched=%d build=%d lost=%s" % (r0.returncode, r1.returncode, b.returncode, lost), "" if good else (r0.stderr[-800:], r1.stderr[-800:], r1.stdout[-300:]), flush=True)


if __name__ == "__main__":
    for i in sys.argv[1:] or sorted(os.listdir(V + "/tools/seeds")):
        one(i)
