"""Entry point of every check: python3 sa/run.py <ID> [--tier quick|thorough]"""
import os, sys, json, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
sys.setrecursionlimit(20000)
import facts  # noqa: E402


def known(pid):
    """known-findings file: lines `finding: property=<id> key=<key> :: text` and `fixed: property=<id> ...`"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s key=" % pid):
                k, _, txt = line.split("key=", 1)[1].partition(" :: ")
                out[k.strip()] = txt.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from ctx import Ctx
    c = Ctx(pid, tier)
    ev = os.environ.get("LIQ_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, "%s.replay.txt" % pid)
    if os.path.exists(replay):
        os.remove(replay)
    rc = 0
    try:
        import engine
        mod = importlib.import_module("rules." + pid.lower())
        c.explanation = (mod.__doc__ or "").strip()
        engine.DEADLINE = time.time() + (420 if tier == "quick" else 1500)
        mod.check(c)
    except engine.Giveup as g:
        c.undecide("analysis gave up: %s" % g)
        c.floors = {}
    except facts.ToolError as x:
        # the tree does not build: nothing can be guaranteed about it
        c.violation("/repo", "the tree could not be analysed: %s" % str(x)[-2000:], key="build")
    except Exception as x:
        # an internal failure of the analysis is not a verdict about the code: say so and stay quiet
        if os.environ.get("LIQ_DEBUG"):
            raise
        traceback.print_exc()
        c.undecide("internal error of the analysis: %r" % x)
        c.floors = {}
    kn = known(pid)
    new = []
    for v in c.viol:
        if v["key"] in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, v["what"]))
        else:
            new.append(v)
    floors = getattr(c, "floors", {})
    for what, n in floors.items():
        if c.counts.get(what, 0) < n and not new:
            new.append({"where": "rule " + pid, "what": "only %d %s found, expected at least %d: the anchor of the rule has gone" % (c.counts.get(what, 0), what, n), "key": "floor " + what})
    cov = {
        "explanation": c.explanation + " || evaluated on this run: " + ", ".join("%s=%s" % kv for kv in sorted(c.counts.items())),
        "rules": c.rules, "functions_analysed": len(c.fns), "functions": sorted(c.fns)[:400],
        "undecided": c.undecided, "notes": c.notes, "samples": c.samples[:40],
    }
    cov.update(c.counts)
    o = c.counts.get("obligations", 0)
    cov["obligations"] = o
    cov["discharged"] = max(0, o - len(c.undecided) - len(c.viol))
    json.dump({
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": cov, "assumptions": c.assumptions, "wall_s": round(time.time() - c.t0, 2),
        "violations": len(new),
    }, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    if new:
        with open(replay, "w") as f:
            f.write("property %s: %s\nreplay: python3 sa/run.py %s --tier %s\n\n" % (pid, c.explanation.split("\n")[0], pid, tier))
            for v in new:
                f.write("%s\n  %s\n  key: %s\n" % (v["where"], v["what"], v["key"]))
        for v in new[:20]:
            print("  %s: %s" % (v["where"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(replay, VERIF)))
        rc = 1
    else:
        verdict = "held" if not c.undecided else "no verdict (internal error)" if any(u.startswith(("internal error", "analysis gave up")) for u in c.undecided) else "no violation found, not everything decided"
        print("%s: %s; %s; undecided=%d wall=%.1fs" % (pid, verdict, ", ".join("%s=%s" % kv for kv in sorted(c.counts.items())), len(c.undecided), time.time() - c.t0))
        for u in c.undecided[:10]:
            print("  undecided: " + u)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    if os.environ.get("LIQ_DEBUG"):
        sys.exit(main())
    try:
        rc = main()
    except Exception:
        # an internal failure of the analysis is not a verdict about the code: say so and stay quiet
        traceback.print_exc()
        print("internal error of the analysis; no verdict on " + sys.argv[1])
        rc = 0
    sys.exit(rc)
