"""P27: LRMES."""
from sa.ctx import *
from checks.lib import *

L = "frds.measures._long_run_mes"
PF = ("mu", "omega", "alpha", "gamma", "beta")


def run(c):
    c.rule("The whole estimate (resampling, path simulation in Python and in the compiled kernel, conditional average) is reduced to its "
           "value graph for symbolic fitted models, horizon, sample size, threshold and seed and compared with the documented "
           "simulation. The fitted correlations are any array in (-1,1) (their own formula is P01/P03's subject).")
    c.assumptions.append("both models and the DCC have been estimated (typestate of estimation: P05, P06)")
    t.LET_LIMIT = 12
    n = isym("n", 2)
    s, si = c.spec("lrmes", c.interp(hooks=LR_HOOKS))
    h, S = isym("h", 1), isym("S", 1)
    A = [si.alloc(inarr(x, (n,), pos=x[0] == "s")) for x in ("ef", "ek", "sf", "sk")] + [si.alloc(inarr("rho", (n,)))]
    A += [tuple(t.sym(f + "_" + k) for f in PF) for k in ("f", "k")]
    want = si.call(si.mod_attr(s, "estimate"), A + [t.sym("a"), t.sym("b"), h, S, t.sym("C"), isym("seed", 0)], {})
    dom = lr_dom()
    for native in (True, False):
        mode = "native" if native else "fallback"

        def go():
            it = c.interp(native=native, hooks=LR_HOOKS)
            m = it.load_module(L)
            w = anchor(c, it, m, "LongRunMarginalExpectedShortfall", "estimate")
            anchor(c, it, m, "LongRunMarginalExpectedShortfall", "simulation")
            C = it.mod_attr(m, "LongRunMarginalExpectedShortfall")
            c.equal("LRMES (%s)" % mode, w, it, lrmes_estimate(it, C, n), si, want, dom)
        c.attempt("LRMES (%s)" % mode, L, go)

    def quiet():
        """the value when no simulated path is a systemic event"""
        called = []

        def sim(it, f, args, kw):
            called.append(1)
            return (ZERO, ZERO)
        hooks = dict(LR_HOOKS, funcs=dict(LR_HOOKS["funcs"], **{"LongRunMarginalExpectedShortfall.simulation": sim}))
        it = c.interp(native=False, hooks=hooks)
        m = it.load_module(L)
        w = anchor(c, it, m, "LongRunMarginalExpectedShortfall", "estimate")
        r = lrmes_estimate(it, it.mod_attr(m, "LongRunMarginalExpectedShortfall"), n)
        v = it.num(r)
        if not called:
            raise Undecided("the paths are not simulated by LongRunMarginalExpectedShortfall.simulation")
        c.check("no systemic event in the simulation", w, v is ZERO, "the estimate is %s, not 0" % t.show(v))
    c.attempt("no systemic event", L, quiet)

    def construct():
        it = c.interp()
        m = it.load_module(L)
        C = it.mod_attr(m, "LongRunMarginalExpectedShortfall")
        w = anchor(c, it, m, "LongRunMarginalExpectedShortfall", "__init__")
        o = it.call(C, [it.alloc(inarr("fr", (n,))), it.alloc(inarr("mr", (n,)))], {})
        for lab, mod, nm in (("firm", "firm_model", "fr"), ("market", "market_model", "mr")):
            u = it.getattr(o, mod)
            ref = it.call(Ext("numpy.multiply"), [const(100), it.call(Ext("numpy.log1p"), [it.alloc(inarr(nm, (n,)))], {})], {})
            c.equal("the %s model is fitted on percentage log returns" % lab, w, it, it.getattr(u, "returns"), it, ref, RD)
        d = it.getattr(o, "dcc_model")
        for k, mod in (("model1", "firm_model"), ("model2", "market_model")):
            c.check("the correlation model reuses the %s" % mod.replace("_", " "), w, it.getattr(d, k) is it.getattr(o, mod) or
                    getattr(it.getattr(d, k), "id", 0) == it.getattr(o, mod).id, "dcc_model.%s is another model" % k)
    c.attempt("construction", L, construct)

    def failed():
        called = []

        def fit(it, f, args, kw):
            called.append(1)
            return it.getattr(args[0], "parameters")
        it = c.interp(hooks={"funcs": {"GARCHModel_DCC.fit": fit, "GJRGARCHModel_DCC.fit": fit}})
        m = it.load_module(L)
        w = anchor(c, it, m, "LongRunMarginalExpectedShortfall", "estimate")
        o = it.call(it.mod_attr(m, "LongRunMarginalExpectedShortfall"), [it.alloc(inarr("fr", (n,))), it.alloc(inarr("mr", (n,)))], {})
        try:
            it.call(it.getattr(o, "estimate"), [], {})
            c.fail("a failed estimation is reported", w, "estimate() returns a value although the model could not be estimated")
        except AbsRaise as e:
            c.check("a failed estimation is reported", w, bool(called), "raises %s before the model is fitted" % e.name)
    c.attempt("failed estimation", L, failed)

    def dflt():
        it = c.interp()
        m = it.load_module(L)
        f = it.getattr(it.mod_attr(m, "LongRunMarginalExpectedShortfall"), "estimate")
        documented_defaults(c, it, f, {"h": 22, "S": 10000, "C": Fr(-1, 10), "random_seed": 42})
    c.attempt("defaults", L, dflt)


RD = Dom(fns={"@fr": lambda u, m, *k: u * D("1.5") - D("0.7"), "@mr": lambda u, m, *k: u * D("1.5") - D("0.7")}, nmax=4)
