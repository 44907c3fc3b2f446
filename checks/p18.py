"""P18: order-book slopes."""
from sa.ctx import *
from checks.lib import *

M = "frds.measures.lob_slope"
DOM = Dom(strict=True, syms={"n": lambda u, m: D(1 + int(u * 4)), "k": lambda u, m: D(2 + int(u * 5)), "k5": lambda u, m: D(5 + int(u * 3))},
          fns={"@ask": lambda u, m, *k: D(10) + u * 3 + (int(k[1]) if len(k) > 1 else 0) * 4,
               "@bid": lambda u, m, *k: D(8) - u * 3 - (int(k[1]) if len(k) > 1 else 0) * 4,
               "@mid": lambda u, m, *k: D(9) + u / 2,
               "@undef": lambda u, m, *k: D(1) if u < D("0.25") else D(0),
               "@asize": lambda u, m, *k: D(1) + u * 5, "@bsize": lambda u, m, *k: D(1) + u * 5})


def holes(name, shape):
    """an input with undefined entries anywhere but in the first quote, so that an average exists"""
    return inarr("nan" + name, shape)


def gap(f):
    return lambda u, m, *k: D("NaN") if k[0] != "0" and u > D("0.7") else f(u, m, *k)


for _f in ("ask", "bid", "mid", "asize", "bsize"):
    DOM.fns["@nan" + _f] = gap(DOM.fns["@" + _f])


def run(c):
    c.rule("Each measure is reduced to its value graph for a symbolic number of quotes and levels, with undefined entries allowed "
           "anywhere, and compared with the documented formula averaged over the defined quotes.")
    c.assumptions.append("ask prices above, bid prices below the midpoint; at least one quote defined")
    it = c.interp()
    s, si = c.spec("lob")
    n, k, k5 = isym("n", 1), isym("k", 2), isym("k5", 5)

    def ob(fn, mk, sf, smk=None, tag=""):
        def go():
            m = it.load_module(M)
            w = anchor(c, it, m, fn)
            got = it.call(it.mod_attr(m, fn), mk(it), {})
            want = si.call(si.mod_attr(s, sf), (smk or mk)(si), {})
            c.equal(fn + tag, w, it, got, si, want, DOM)
        c.attempt(fn + tag, M, go)
    for tag, f in (("", inarr), (", some quotes undefined", holes)):
        ob("DGGW_ask_slope", lambda i: [i.alloc(inarr("asize", (n, k))), i.alloc(f("ask", (n,))), i.alloc(inarr("mid", (n,)))], "slope", tag=tag)
        ob("DGGW_bid_slope", lambda i: [i.alloc(inarr("bsize", (n, k))), i.alloc(f("bid", (n,))), i.alloc(inarr("mid", (n,)))], "slope", tag=tag)
        ob("DGGW_bid_side_slope_difference", lambda i: [i.alloc(inarr("bsize", (n, k5))), i.alloc(f("bid", (n, k5)))], "difference", tag=tag)
        ob("DGGW_ask_side_slope_difference", lambda i: [i.alloc(inarr("asize", (n, k5))), i.alloc(f("ask", (n, k5)))], "difference", tag=tag)
        ob("DGGW_scaled_depth_difference", lambda i: [i.alloc(f("bsize", (n, k))), i.alloc(inarr("asize", (n, k)))], "sdd", tag=tag)
    ob("DGGW_scaled_depth_difference", lambda i: [i.alloc(inarr("bsize", (n, k))), i.alloc(holes("asize", (n, k)))], "sdd", tag=", asks undefined")
    ob("DGGW_ask_slope", lambda i: [i.alloc(inarr("asize", (n, k))), i.alloc(inarr("ask", (n,))), i.alloc(holes("mid", (n,)))], "slope", tag=", midpoints undefined")
    ob("DGGW_bid_slope", lambda i: [i.alloc(inarr("bsize", (n, k))), i.alloc(inarr("bid", (n,))), i.alloc(holes("mid", (n,)))], "slope", tag=", midpoints undefined")
