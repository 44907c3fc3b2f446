"""P01: native kernels and Python fallbacks denote the same function."""
from sa.ctx import *
from checks.lib import *

G, M, L = "frds.algorithms._garch", "frds.algorithms._mgarch", "frds.measures._long_run_mes"


def run(c):
    c.rule("Each kernel's Python entry is analysed twice, once resolving the extension import to the C++ source "
           "(clang AST, through the method table and PyArg_ParseTuple formats) and once taking the fallback; both value "
           "graphs must be equal by value numbering for symbolic lengths and arguments.")
    its = {}
    for native in (True, False):
        it = c.interp(native=native)
        its[native] = it
    n = isym("n", 1)
    om, al, be, ga, bc, v0, lam = [t.sym(x) for x in ("omega", "alpha", "beta", "gamma", "backcast", "v0", "lam")]
    dom = Dom(syms=BOUND_SYMS, fns={"@vb": vb_dom})

    def both(name, mod, cls, fn, mk, dom=dom, its=its):
        vals = {}
        where = "src/" + mod.replace(".", "/") + ".py " + cls + "." + fn
        for native, it in its.items():
            def go():
                m = it.load_module(mod)
                anchor(c, it, m, cls, fn)
                return mk(it, it.mod_attr(m, cls))
            v = c.attempt(name + (" (native)" if native else " (fallback)"), where, go)
            if v is None:
                return
            vals[native] = v
        w = anchor(c, its[True], its[True].load_module(mod), cls, fn)
        c.equal(name, w, its[True], vals[True], its[False], vals[False], dom)

    r = lambda i: i.alloc(inarr("r", (n,)))
    vb = lambda i: i.alloc(inarr("vb", (n, 2), pos=True))
    lst = lambda i, *xs: i.alloc(PyList(list(xs)))
    both("EWMA", G, "GARCHModel", "ewma", lambda i, C: i.call(i.getattr(C, "ewma"), [r(i), v0, lam], {}))
    both("variance clamp", G, "GARCHModel", "bounds_check",
         lambda i, C: i.call(i.getattr(C, "bounds_check"),
                             [t.sym("x"), i.alloc(i.list_arr([t.sym("lower", pos=True), t.sym("upper", pos=True)]))], {}))
    both("GARCH variance", G, "GARCHModel", "compute_variance",
         lambda i, C: i.call(i.getattr(C, "compute_variance"), [lst(i, om, al, be), r(i), bc, vb(i)], {}))
    both("GJR-GARCH variance", G, "GJRGARCHModel", "compute_variance",
         lambda i, C: i.call(i.getattr(C, "compute_variance"), [lst(i, om, al, ga, be), r(i), bc, vb(i)], {}))

    a, b = t.sym("a"), t.sym("b")
    ddom = Dom(syms={"a": lambda u, m: u * D("0.4"), "b": lambda u, m: u * D("0.5")})

    def dcc(cls, uni):
        def mk(i, C):
            o = i.call(C, [i.alloc(inarr("y1", (n,))), i.alloc(inarr("y2", (n,)))], {})
            for k, mm in (("1", "model1"), ("2", "model2")):
                u = i.getattr(o, mm)
                i.setattr(u, "estimation_success", ONE)
                i.setattr(u, "resids", i.alloc(inarr("e" + k, (n,))))
                i.setattr(u, "sigma2", i.alloc(inarr("s" + k, (n,), pos=True)))
            return i.call(i.getattr(o, "conditional_correlations"), [a, b], {})
        return mk
    both("DCC correlation", M, "GARCHModel_DCC", "conditional_correlations", dcc("GARCHModel_DCC", 0), ddom)
    both("GJR-DCC correlation", M, "GJRGARCHModel_DCC", "conditional_correlations", dcc("GJRGARCHModel_DCC", 1), ddom)

    # the LRMES estimate: only the path simulation differs between the two modes
    def lr(i, C):
        return lrmes_estimate(i, C, n)
    t.LET_LIMIT = 12
    both("LRMES path simulation and its call", L, "LongRunMarginalExpectedShortfall", "estimate", lr, lr_dom(),
         {x: c.interp(native=x, hooks=LR_HOOKS) for x in (True, False)})
