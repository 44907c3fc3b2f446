"""P22: Kyle's lambda and Z-score."""
from sa.ctx import *
from checks.lib import *

DOM = Dom(syms={"n": lambda u, m: D(2 + int(u * 4))})


def run(c):
    c.rule("Each measure is reduced to its value graph for a symbolic number of observations (least squares with one regressor is its "
           "closed form) and compared with its definition.")
    it = c.interp()
    s, si = c.spec("simple")
    n = isym("n", 2)

    def ob(fn, mod, args, sf, sargs, tag, kw=None):
        def go():
            m = it.load_module(mod)
            w = anchor(c, it, m, fn)
            got = it.call(it.mod_attr(m, fn), args(it), {k: f(it) for k, f in (kw or {}).items()})
            c.equal(fn + tag, w, it, got, si, si.call(si.mod_attr(s, sf), sargs(si), {}), DOM)
        c.attempt(fn + tag, mod, go)
    a = lambda nm: (lambda i: i.alloc(inarr(nm, (n,))))
    lst = lambda nm, k: (lambda i: i.alloc(PyList([t.fn("@" + nm, const(j)) for j in range(k)])))
    fix = lambda nm, k: (lambda i: i.alloc(inarr(nm, (const(k),))))
    for mod in ("frds.measures", "frds.measures._kyle_lambda"):
        ob("kyle_lambda", mod, lambda i: [a("r")(i), a("v")(i)], "kyle", lambda i: [a("r")(i), a("v")(i)], " (%s)" % mod)
    ob("kyle_lambda", "frds.measures", lambda i: [], "kyle", lambda i: [a("r")(i), a("v")(i)], ", keywords",
       {"returns": a("r"), "signed_dollar_volume": a("v")})
    ob("kyle_lambda", "frds.measures", lambda i: [lst("r", 4)(i), lst("v", 4)(i)], "kyle", lambda i: [fix("r", 4)(i), fix("v", 4)(i)], ", lists")
    roa, cap = t.sym("roa"), t.sym("cap")
    for mod in ("frds.measures", "frds.measures._z_score"):
        ob("z_score", mod, lambda i: [roa, cap, a("past")(i)], "zscore", lambda i: [roa, cap, a("past")(i)], " (%s)" % mod)
    ob("z_score", "frds.measures", lambda i: [], "zscore", lambda i: [roa, cap, a("past")(i)], ", keywords",
       {"roa": lambda i: roa, "capital_ratio": lambda i: cap, "past_roas": a("past")})
    ob("z_score", "frds.measures", lambda i: [roa, cap, lst("past", 4)(i)], "zscore", lambda i: [roa, cap, fix("past", 4)(i)], ", list")
