"""C19: a palette made from a histogram is final. Remapping never changes it, so images remapped with one result share one
palette.
Method: the public functions that make a result from a histogram are analysed with a palette search that finds an arbitrary
palette (marked and unmarked entries, known length, symbolic colours): every entry of the palette in the result must carry the
library's own mark. Every step of remapping that can modify a palette is then shown to leave marked entries alone (rules
shared with C13), and the rounding of a marked entry to depend on that entry, the gamma and the posterization only."""
from util import *
from palm import *
import rules.c13 as F


def check(c):
    c.floors = {"constructors": 1, "steps": 5}
    c.rule("every entry of the palette in a result made from a histogram is marked as fixed, whatever the search found")
    c.rule("each step that can modify a palette leaves the colour of every marked entry in the palette, still marked")
    c.assumptions += ["sorting permutes", "palettes of up to three entries stand for all sizes; a palette of any size with all entries marked is analysed as well"]
    c.parallel([F.steps, F.marks, frozen], lambda f: F.guarded(c, f))


def frozen(c):
    p = c.prog("ffi", "imagequant")
    P = Pal(c, p)
    _, rt, ss = F.built(P)
    path = F.H + "quantize"
    k = find_fn(p, path)
    if k is None:
        c.violation(path, "function not found: the guarantee has lost its implementation", key="missing " + path)
        return
    c.count("constructors")
    where = c.loc(p, k)
    for pops in ([P.plain], [P.zero], [P.plain, P.zero, P.fixed], [P.fixed0, P.zero], [P.zero, P.plain, P.plain]):
        c.obligation()
        e, cols, outs = F.res_palette(c, P, k, rt, ss, pops)
        if not outs:
            c.undecide("no result of %s" % path)
        for s, es in outs:
            if es is None:
                c.undecide("palette of the result not followed")
                continue
            ms = [P.marked(x) for _, x in es]
            if False in ms:
                c.violation(where, "entry %d of a palette made from a histogram is not final (popularity found: %s)" % (ms.index(False), [show(x)[-14:] for x in pops]), key="frozen")
            elif None in ms:
                c.undecide("mark of an entry unknown")
            if len(es) != len(pops):
                c.violation(where, "the palette of the result has %d entries, the search found %d" % (len(es), len(pops)), key="frozen length")
