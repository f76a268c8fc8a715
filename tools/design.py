"""Writes DESIGN.md: head, one section per property, what catches which planted change, tail."""
import os, re, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases():
    r = []
    for f in sorted(glob.glob(V + "/selftest/cases/*.txt")):
        for m in re.finditer(r"^== (\S+) : (.*)$", open(f).read(), flags=re.M):
            r.append((m.group(1), [x.strip() for x in m.group(2).split(",")]))
    return r


def write(PROPS, NA, DET):
    out = [open(V + "/tools/design_head.md").read(), "## 2. Properties and how they are decided\n\n"]
    for p in sorted(PROPS, key=lambda p: p["id"]):
        sc, how, bd = DET[p["id"]]
        out.append("### %s %s\n\n*Technique:* %s.\n\n*Analysed:* %s. *Oracle and rule:* %s\n\n*Bounds:* %s%s.\n\n*Why tests cannot:* %s.\n\n"
                   % (p["id"], p["title"], p["technique"], sc, how, bd + ("; " if bd else ""), p["note"], p["tests"]))
    out.append("### Not applicable\n\n")
    for p in NA:
        out.append("* **%s %s**: %s.\n" % (p["id"], p["title"], p["reason"]))
    out.append("\n## 3. Which checks catch which planted changes\n\n`seeded/` (built, stable tests pass, demo shows the failure; "
               "`tools/try_seeds.sh` runs the property's check on each in a scratch copy):\n\n| change | property | caught | needs |\n|---|---|---|---|\n")
    missed = set(open(V + "/tools/missed.txt").read().split()) if os.path.exists(V + "/tools/missed.txt") else set()
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        out.append("| %s | %s | %s | %s |\n" % (n, m["property"], "no" if n in missed else "yes", m["needs"].replace("|", "/")))
    cs = cases()
    out.append("\nOne-site variants in `selftest/cases/` (each applied to a scratch copy by `selftest/run.py`; a variant counts as "
               "caught when one of the named checks reports it, and `quiet` ones are behaviour-preserving rewrites on which every check "
               "has to stay silent):\n\n")
    by = {}
    for n, e in cs:
        by.setdefault(e[0], []).append(n)
    for k in sorted(by):
        out.append("* **%s** (%d): %s\n" % (k, len(by[k]), ", ".join(by[k])))
    out.append("\n" + open(V + "/tools/design_tail.md").read())
    open(V + "/DESIGN.md", "w").write("".join(out))
