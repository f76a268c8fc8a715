"""C11: what must not be possible in safe Rust does not compile. Images cannot outlive borrowed pixels, callbacks cannot
smuggle borrowed or thread-bound data in, palettes cannot be held across remapping, objects cannot be used from two
threads at once; the legal twins of these programs do compile.
Method: compile-fail witnesses. A set of programs is type- and borrow-checked against the library built from the
current tree (metadata only, nothing is linked or run); each illegal one must be rejected with the borrow-checker or
trait error that stands for the violated rule, each legal one must be accepted."""
import json, os, re, shutil, subprocess, concurrent.futures
import facts

PRE = '''#![allow(unused, dropping_copy_types, dropping_references)]
use imagequant::*; use std::rc::Rc; use std::cell::Cell;
fn pixels() -> Vec<RGBA> { vec![RGBA::new(1, 2, 3, 255); 4] }
fn result() -> (QuantizationResult, Image<'static>) { let a = new(); let mut i = a.new_image(pixels(), 2, 2, 0.).unwrap(); (a.quantize(&mut i).unwrap(), i) }
fn main() {
'''


def cases():
    out = []
    cur = None
    for l in open(os.path.join(facts.VERIF, "witness", "cases.txt")):
        m = re.match(r"== (\S+) : (.*)$", l)
        if m:
            cur = (m.group(1), m.group(2).split(), [])
            out.append(cur)
        elif cur is not None:
            cur[2].append(l)
    return [(n, x, "".join(b)) for n, x, b in out]


def build(feat):
    """type-checks the library; returns (rmeta, deps dir)"""
    tgt = os.path.join(facts.WORK, "target-witness-" + (feat or "default"))
    e = facts.env()
    e["RUSTFLAGS"] = "--cap-lints=warn"
    # cargo judges freshness by time stamps, which a copied tree may carry over: drop the library's fingerprints
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith("imagequant"):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    r = subprocess.run(["cargo", "check", "--offline", "-p", "imagequant", "--target-dir", tgt, "--message-format=json"] + (["--no-default-features"] if feat else []),
                       cwd=facts.REPO, env=e, capture_output=True, text=True)
    if r.returncode:
        raise facts.ToolError("library does not build:\n" + r.stderr[-3000:])
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "imagequant" and "lib" in m["target"]["kind"]:
            for f in m["filenames"]:
                if f.endswith(".rmeta"):
                    return f, os.path.join(tgt, "debug", "deps")
    raise facts.ToolError("no metadata of the library")


def compile_(case, rmeta, deps, d):
    n, exp, body = case
    f = os.path.join(d, re.sub(r"\W", "_", n) + ".rs")
    open(f, "w").write(PRE + body + "}\n")
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "bin", "--emit=metadata", "-o", f + ".rmeta", "--error-format=json", "--extern", "imagequant=" + rmeta,
                        "-L", "dependency=" + deps, f], env=facts.env(), capture_output=True, text=True, cwd=d)
    codes, texts = set(), []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error":
            if m.get("code"):
                codes.add(m["code"]["code"])
            texts.append(m["message"])
    return n, exp, r.returncode, codes, texts


def check(c):
    c.floors = {"witnesses_rejected": 35, "witnesses_accepted": 18}
    c.rule("every illegal program is rejected by the compiler with the expected error class; every legal program is accepted")
    c.assumptions += ["the compiler's borrow checker and trait system are sound", "unsafe code inside the library respects the lifetimes it declares (decided for rows and ownership by C10, C12 and C18)"]
    import tempfile, shutil
    for feat in ("", "nothreads"):
        rmeta, deps = build(feat)
        d = tempfile.mkdtemp(prefix="witness", dir=facts.WORK)
        try:
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for n, exp, rc, codes, texts in ex.map(lambda x: compile_(x, rmeta, deps, d), cases()):
                    c.obligation()
                    if exp == ["ok"]:
                        if rc:
                            c.violation("witness/cases.txt " + n, "a legal program no longer compiles: %s" % "; ".join(texts[:2])[:300], key=n + " rejected")
                        else:
                            c.count("witnesses_accepted")
                    elif rc == 0:
                        c.violation("witness/cases.txt " + n, "a program that must be impossible compiles: the API no longer enforces it (expected %s)" % " or ".join(exp), key=n + " accepted")
                    else:
                        c.count("witnesses_rejected")
                        c.samples.append("%s: %s" % (n, ",".join(sorted(codes))))
                        if not codes & set(exp):
                            c.undecide("%s is rejected, but with %s: %s" % (n, sorted(codes), texts[:1]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
