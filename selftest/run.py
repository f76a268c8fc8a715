"""Self test of the checkers: applies one-site variants to scratch copies of /repo and runs the checks on them.
  python3 selftest/run.py [-j N] [--full] [--only=C07] [name-substring...]
Cases are in selftest/cases/*.txt:
  == name : C01,C04        (expected to be reported by at least one of these; `quiet` = nothing may be reported)
  @@ path/to/file
  <<<<
  old text
  ====
  new text
  >>>>
or, instead of edits, `!! revert <commit>` takes back a repair of /repo (every `fixed:` entry must be reported again).
Not part of any registered check."""
import os, sys, re, fcntl, subprocess, shutil, glob, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/liq-selftest"
os.makedirs(SCR, exist_ok=True)
LOCK = open(SCR + "/lock", "w")
fcntl.flock(LOCK, fcntl.LOCK_EX)         # two runs would work in the same copies


def cases():
    for f in sorted(glob.glob(V + "/selftest/cases/*.txt")):
        cur = None
        for blk in re.split(r"^== ", open(f).read(), flags=re.M)[1:]:
            head, _, body = blk.partition("\n")
            name, _, exp = head.partition(" : ")
            eds = []
            file = None
            for c in re.findall(r"^!! revert (\S+)$", body, flags=re.M):
                eds.append((None, c, None))
            for m in re.finditer(r"^@@ (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>\n", body, flags=re.M | re.S):
                if m.group(1):
                    file = m.group(1)
                else:
                    eds.append((file, m.group(2), m.group(3)))
            yield name.strip(), [x.strip() for x in exp.split(",")], eds


def worker(i, q, allprops, out):
    repo, work = "%s/repo%d" % (SCR, i), "%s/work%d" % (SCR, i)
    if not os.path.isdir(work):
        os.makedirs(SCR, exist_ok=True)
        shutil.copytree(V + "/.work", work, ignore=lambda d, n: ["facts", "lock"] if d == V + "/.work" else [])
    while True:
        try:
            name, exp, eds = q.get_nowait()
        except queue.Empty:
            return
        shutil.rmtree(repo, ignore_errors=True)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"))
        ok = True
        for f, a, b in eds:
            if f is None:           # take a repair back
                d = subprocess.run(["git", "-C", "/repo", "show", "--format=", a], capture_output=True).stdout
                if subprocess.run(["git", "apply", "-R", "-3", "-"], cwd=repo, input=d, capture_output=True).returncode and \
                        subprocess.run(["patch", "-R", "-p1", "-s", "-F3"], cwd=repo, input=d, capture_output=True).returncode:
                    out.append((name, "BADCASE cannot revert " + a))
                    ok = False
                continue
            s = open(repo + "/" + f).read()
            if s.count(a) != 1:
                a2, b2 = a.rstrip("\n"), b.rstrip("\n")
                if s.count(a2) != 1:
                    out.append((name, "BADCASE %s: text occurs %d times" % (f, s.count(a))))
                    ok = False
                    break
                a, b = a2, b2
            open(repo + "/" + f, "w").write(s.replace(a, b))
        if not ok:
            print(name, out[-1][1], flush=True)
            continue
        env = dict(os.environ, LIQ_REPO=repo, LIQ_WORK=work, LIQ_EVID="%s/ev%d" % (SCR, i))
        props = ONLY or (allprops if exp == ["quiet"] or FULL else [e for e in exp])
        hit, txt = [], {}
        for pr in props:
            r = subprocess.run(["python3", V + "/sa/run.py", pr], env=env, capture_output=True, text=True, cwd=V)
            if r.returncode == 1 and "VIOLATION property=%s " % pr in r.stdout:
                hit.append(pr)
                txt[pr] = r.stdout.split("\n")[0][:230]
            elif r.returncode or "no verdict" in r.stdout:
                txt[pr] = "ERROR rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-500:])
                hit.append("ERR" + pr)
            elif exp != ["quiet"]:
                txt[pr] = r.stdout[:300]
        if exp == ["quiet"]:
            res = "ok   " if not hit else "ALARM"
        else:
            res = "ok   " if set(hit) & set(exp) else "MISS "
        line = "%s %-45s exp=%s hit=%s %s" % (res, name, ",".join(exp), ",".join(hit), "" if res == "ok   " and not VERB else txt)
        print(line, flush=True)
        out.append((name, line))


if __name__ == "__main__":
    a = sys.argv[1:]
    n = 6
    FULL = "--full" in a
    ONLY = [x[7:] for x in a if x.startswith("--only=")]
    a = [x for x in a if not x.startswith("--only=")]
    VERB = "-v" in a
    a = [x for x in a if x not in ("--full", "-v")]
    if a and a[0] == "-j":
        n, a = int(a[1]), a[2:]
    props = [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob(V + "/sa/rules/c*.py"))]
    q = queue.Queue()
    k = 0
    for c in cases():
        if not a or any(x in c[0] for x in a):
            q.put(c)
            k += 1
    out = []
    ts = [threading.Thread(target=worker, args=(i, q, props, out)) for i in range(min(n, k))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    bad = [x for x in out if not x[1].startswith("ok")]
    print("%d cases, %d not ok: %s" % (len(out), len(bad), ", ".join(x[0] for x in bad)))
