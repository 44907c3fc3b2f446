"""P02: variance recursions, bounds, backcast, EWMA, forecast."""
from sa.ctx import *
from checks.lib import *

G = "src/frds/algorithms/_garch.py"


def run(c):
    c.rule("Every variance function is reduced to its value graph (loops become recurrence nodes) and compared "
           "by value numbering with the documented recursion, for a symbolic series length and symbolic parameters.")
    for native in (False, True):
        run1(c, native)


def run1(c, native):
    tag = "native" if native else "python"
    it = c.interp(native=native)
    m = c.attempt("load", G, lambda: it.load_module("frds.algorithms._garch"))
    if m is None:
        return
    s, si = c.spec("garch")
    n = isym("n", 1)
    r = lambda i: i.alloc(inarr("r", (n,)))
    vb = lambda i: i.alloc(inarr("vb", (n, 2), pos=True))
    om, al, be, ga, bc, v0, lam = [t.sym(x) for x in ("omega", "alpha", "beta", "gamma", "backcast", "v0", "lam")]
    dom = Dom(fns={"@vb": vb_dom}, syms=dict(BOUND_SYMS, n=long_n), nmax=90)

    def ob(name, cls, fn, args, sfn, sargs, **kw):
        where = anchor(c, it, m, cls, fn)

        def go():
            C = it.mod_attr(m, cls)
            got = it.call(it.getattr(C, fn), args(it), kw)
            want = si.call(si.mod_attr(s, sfn), sargs(si), {})
            c.equal(name + " (%s)" % tag, where, it, got, si, want, dom)
        c.attempt(name + " (%s)" % tag, where, go)
    lst = lambda *xs: (lambda i: i.alloc(PyList(list(xs))))
    ob("GARCH(1,1) variance recursion", "GARCHModel", "compute_variance",
       lambda i: [lst(om, al, be)(i), r(i), bc, vb(i)], "garch", lambda i: [om, al, be, r(i), bc, vb(i)])
    ob("GJR-GARCH(1,1) variance recursion", "GJRGARCHModel", "compute_variance",
       lambda i: [lst(om, al, ga, be)(i), r(i), bc, vb(i)], "gjr", lambda i: [om, al, ga, be, r(i), bc, vb(i)])
    for cls in ("GARCHModel", "GJRGARCHModel"):
        ob("backcast of " + cls, cls, "backcast", lambda i: [r(i)], "backcast", lambda i: [r(i)])
        ob("variance bounds of " + cls, cls, "variance_bounds", lambda i: [r(i)], "variance_bounds", lambda i: [r(i)])
        ob("EWMA of " + cls, cls, "ewma", lambda i: [r(i), v0, lam], "ewma", lambda i: [r(i), v0, lam])
        ob("EWMA default decay of " + cls, cls, "ewma", lambda i: [r(i), v0], "ewma", lambda i: [r(i), v0, t.const(Fr(94, 100))])
    x, lo, hi = t.sym("x"), t.sym("lower", pos=True), t.sym("upper", pos=True)
    ob("clamping to the variance bounds", "GARCHModel", "bounds_check",
       lambda i: [x, i.alloc(i.list_arr([lo, hi]))], "bounds", lambda i: [x, lo, hi])

    def fc():
        C = it.mod_attr(m, "GJRGARCHModel")
        p = it.call(it.getattr(C, "Parameters"), [t.sym("mu"), om, al, ga, be, t.sym("ll")], {})
        got = it.call(it.getattr(C, "forecast_variance"), [p, r(it), v0], {})
        want = si.call(si.mod_attr(s, "gjr_forecast"), [om, al, ga, be, r(si), v0], {})
        c.equal("variance forecast (%s)" % tag, anchor(c, it, m, "GJRGARCHModel", "forecast_variance"), it, got, si, want, dom)
    c.attempt("variance forecast (%s)" % tag, G, fc)
