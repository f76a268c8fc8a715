"""Shared context of the rules: programs, evidence counters, findings."""
import json, os, time
import facts
from engine import Prog, Engine, Giveup, norm
from state import State
from terms import *

_progs = {}


def prog(config, crate=None):
    """config: ffi | nothreads | all"""
    crate = crate or ("imagequant" if config == "nothreads" else "imagequant_sys")
    k = (config, crate)
    if k not in _progs:
        _progs[k] = Prog(facts.extract(config)[crate])
    p = _progs[k]
    p.activate()
    return p


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.fns = set()
        self.counts = {}
        self.viol = []
        self.undecided = []
        self.notes = []
        self.assumptions = []
        self.rules = []
        self.samples = []

    thorough = property(lambda s: s.tier == "thorough")

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def obligation(self, n=1):
        self.count("obligations", n)

    def violation(self, where, what, key=None):
        """where: 'file:line function' ; key: stable identity used by the known-findings file"""
        v = {"where": where, "what": what, "key": key or (where + " " + what)}
        if v not in self.viol:
            self.viol.append(v)

    def undecide(self, what):
        if what not in self.undecided:
            self.undecided.append(what)

    def prog(self, config="ffi", crate=None):
        return prog(config, crate)

    def engine(self, p, **kw):
        e = Engine(p, **kw)
        e.ctx = self
        return e

    def done(self, e):
        self.fns |= {norm(p) for p in e.analysed}
        self.count("call_sites", e.ncalls)
        self.count("blocks", e.steps)

    def parallel(self, items, f, jobs=6):
        """run f(item) for every item in forked workers; findings and counters are merged in order"""
        items = list(items)
        if len(items) < 2 or os.environ.get("LIQ_SERIAL"):
            for it in items:
                f(it)
            return
        import multiprocessing as mp
        global _par
        _par = (self, f, items)
        with mp.get_context("fork").Pool(min(jobs, len(items))) as pool:
            for d in pool.imap(_par_run, range(len(items)), chunksize=1):
                if "error" in d:
                    raise RuntimeError(d["error"])
                for k, v in d["counts"].items():
                    self.counts[k] = self.counts.get(k, 0) + v
                self.fns |= d["fns"]
                for name in ("viol", "undecided", "notes", "samples"):
                    for x in d[name]:
                        if x not in getattr(self, name):
                            getattr(self, name).append(x)

    def anchor(self, p, path):
        """public item that must exist; a missing one is reported as a violation"""
        k = p.find(path)
        if k is None:
            self.violation(path, "function not found: the guarantee has lost its implementation")
        return k

    def loc(self, p, key):
        f = p.fns.get(key)
        return "%s %s" % (f["span"], norm(f["path"])) if f else str(key)


def symargs(p, key, names=None, tag=""):
    fn = p.fns[key]
    out = []
    for i in range(fn["n"]):
        ty = fn["locals"][i + 1]
        t = mk("sym", (names[i] if names else "arg%d" % i), key + tag)
        t.ty = ty
        out.append(t)
    return out


_par = None


def _par_run(i):
    import sys, traceback
    sys.setrecursionlimit(100000)
    c, f, items = _par
    c.counts, c.fns, c.viol, c.undecided, c.notes, c.samples = {}, set(), [], [], [], []
    try:
        f(items[i])
    except Exception:
        return {"error": traceback.format_exc()[-3000:]}
    return {"counts": c.counts, "fns": c.fns, "viol": c.viol, "undecided": c.undecided, "notes": c.notes, "samples": c.samples}
