"""P20: contingent claim analysis."""
from sa.ctx import *
from checks.lib import *

M = "frds.measures._contingent_claim_analysis"
rng = lambda lo, hi: (lambda u, m, *k: D(str(lo)) + u * D(str(hi - lo)))
A = ["equity", "volatility", "risk_free_rate", "default_barrier", "time_to_maturity", "cds_spread"]
DOM = Dom(syms={"equity": rng(.5, 9), "volatility": rng(.1, 1.5), "risk_free_rate": rng(-.02, .1), "default_barrier": rng(1, 12),
                "time_to_maturity": rng(.3, 10), "cds_spread": rng(1, 300), "u0": rng(-4, 4), "u1": rng(-1, 1),
                "x0": rng(-4, 4), "x1": rng(-1, 1)}, special=False)


def run(c):
    c.rule("The root finder is an unknown function: the system it is given, its starting point and extra arguments are read off the "
           "call, the system is compared with the documented pair of equations at an arbitrary point, and the prices computed from an "
           "arbitrary root are compared with the documented put and CDS-implied put.")
    s, si = c.spec("simple")
    S = lambda f, *a: si.call(si.mod_attr(s, f), list(a), {})
    calls = []

    def fsolve(it, args, kw):
        a = dict(zip(["func", "x0", "args"], args))
        a.update(kw)
        ex = a.get("args", ())
        ex = list(ex) if isinstance(ex, tuple) else [ex]
        x0 = it.arr(a["x0"])
        u = [t.sym("u0"), t.sym("u1")]
        val = it.call(a["func"], [it.alloc(it.list_arr(u))] + ex, {})
        calls.append((x0, [it.num(v) for v in it.as_items(val)]))
        sol = it.alloc(it.list_arr([t.sym("x0"), t.sym("x1")]))
        if a.get("full_output") in (True, ONE):
            return (sol, it.alloc(PyDict({})), ONE, "")
        return sol

    def root(it, args, kw):
        a = dict(zip(["fun", "x0", "args"], args))
        a.update(kw)
        sol = fsolve(it, [a["fun"], a["x0"], a.get("args", ())], {})
        return it.call(opt_result(it), [True, sol, ZERO, ONE, "message", ONE, ONE, ZERO, ONE], {})
    it = c.interp(hooks={"ext": {"scipy.optimize.fsolve": fsolve, "scipy.optimize.root": root}})

    def go():
        m = it.load_module(M)
        w = anchor(c, it, m, "ContingentClaimAnalysis", "estimate")
        v = [t.sym(a, pos=a not in ("risk_free_rate",)) for a in A]
        e, vol, r, d, T, cds = v
        for form in ("positional", "keyword"):
            del calls[:]
            o = it.call(it.mod_attr(m, "ContingentClaimAnalysis"), [], {})
            f = it.getattr(o, "estimate")
            res = it.as_items(it.call(f, v if form == "positional" else [], {} if form == "positional" else dict(zip(A, v))))
            if not c.check("one system is solved (%s)" % form, w, len(calls) == 1, "%d systems" % len(calls)):
                return
            x0, fv = calls[0]
            n = t.cval(x0.shape[0]) if x0.ndim == 1 else None
            if c.check("two unknowns (%s)" % form, w, n == 2, "starting point of shape %s" % (x0.shape,)):
                for k, (nm, q) in enumerate((("equity", e), ("volatility", vol))):
                    c.equal("starting value: the observed %s (%s)" % (nm, form), w, it, x0.get((const(k),)), si, q, DOM)
            want = si.as_items(S("cca_residual", t.sym("u0"), t.sym("u1"), e, vol, r, d, T))
            if c.check("two equations (%s)" % form, w, len(fv) == 2, "%d equations" % len(fv)):
                for nm, g, q in zip(("equity value", "equity volatility"), *order(fv, want)):
                    c.equal("equation: %s (%s)" % (nm, form), w, it, g, si, q, DOM)
            want = si.as_items(S("cca", t.sym("x0"), t.sym("x1"), r, d, T, cds))
            if c.check("two results (%s)" % form, w, len(res) == 2, "%d results" % len(res)):
                for nm, g, q in zip(("implied put", "put minus CDS-implied put"), res, want):
                    c.equal("%s (%s)" % (nm, form), w, it, g, si, q, DOM)
    c.attempt("contingent claim analysis", M, go)


def order(fv, want):
    """the equations in either order and with either sign have the same roots"""
    def close(a, b):
        return a is b or a is t.neg(b)
    fv = list(fv)
    if close(fv[0], want[1]) or close(fv[1], want[0]):
        fv.reverse()
    fv = [t.neg(a) if a is t.neg(b) and a is not b else a for a, b in zip(fv, want)]
    return fv, want
