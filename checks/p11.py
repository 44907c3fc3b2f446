"""P11: no argument makes a compiled extension touch foreign memory."""
from sa.ctx import *
from checks import libnat as N


def run(c):
    c.rule("Every entry point of every extension module is analysed on all its paths (failing and succeeding calls, generic loop iterations, worker threads): "
           "before an element of an array is read or written, being an array, its number of dimensions, element type, alignment and layout must be established, "
           "and the linear constraints collected on the path (extents, tests, loop bounds, sizes of vectors, ranges of random draws, values stored earlier) must "
           "imply that every index is inside the extent; also: no signed overflow in index arithmetic, no empty draw range, no integer division by zero.")
    es = c.attempt("native entry points", "setup.py", lambda: N.every(c)) or []
    if not es:
        return
    N.report(c, es, N.MEM, lambda e: {(w, "access (%s) stays inside" % r) for w, r in e.stats["access"]})
    for e in es:
        c.stats["index"] = c.stats.get("index", 0) + len(e.stats["access"])
