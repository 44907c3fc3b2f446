"""P06: an estimated model is not estimated again."""
import copy
from sa.ctx import *
from checks.lib import *
from checks.fitlib import *

MULTI = (("GARCHModel_CCC", "GARCHModel"), ("GARCHModel_DCC", "GARCHModel"), ("GJRGARCHModel_DCC", "GJRGARCHModel"))


def snap(it):
    s = copy.copy(it)
    s.st = dict(it.st)
    return s


def run(c):
    t.LET_LIMIT = 12
    c.rule("The state of a model object after a successful fit is propagated through a second fit, a likelihood or a "
           "correlation evaluation. The optimiser is an unknown function whose call sites are counted along the propagated "
           "calls: none may be reached for an already estimated model, and the object's attributes and the returned estimates "
           "must be value-equal before and after.")
    for native in (False, True):
        for cls, names in UNI:
            for zm in (False, True):
                uni(c, cls, zm, native)
        for cls, u in MULTI:
            multi(c, cls, u, native)


def same(c, name, w, it, obj, before):
    c.equal(name, w, it, obj, before, obj)


def uni(c, cls, zm, native):
    who = "%s%s (%s)" % (cls, " zero-mean" if zm else "", "native" if native else "fallback")
    o = Opt(c, success=ONE)
    it = fit_interp(c, o, native)

    def go():
        g = it.load_module(G)
        w = anchor(c, it, g, cls, "fit")
        m = it.call(it.mod_attr(g, cls), [series(it)], {"zero_mean": zm})
        r1 = it.call(it.getattr(m, "fit"), [], {})
        n1 = len(o.runs)
        before = snap(it)
        r2 = it.call(it.getattr(m, "fit"), [], {})
        c.check(who + ": the second fit does not optimise", w, len(o.runs) == n1, "fit() on an estimated model runs the optimiser again")
        same(c, who + ": model unchanged by the second fit", w, it, m, before)
        c.equal(who + ": the second fit returns the estimates", w, it, r2, before, r1)
        r3 = it.call(it.getattr(m, "fit"), [], {})
        c.check(who + ": nor does a third", w, len(o.runs) == n1, "fit() on an estimated model runs the optimiser again")
        c.equal(who + ": the third fit returns the estimates", w, it, r3, before, r1)
    c.attempt(who, "%s.%s.fit" % (G, cls), go)


def multi(c, cls, u, native):
    who = "%s (%s)" % (cls, "native" if native else "fallback")
    o = Opt(c, success=ONE, trial=True)
    rho = {"GARCHModel_DCC.conditional_correlations": None}
    it = fit_interp(c, o, native)

    def go():
        mm = it.load_module(M)
        g = it.load_module(G)
        w = anchor(c, it, mm, cls, "fit")
        m = it.call(it.mod_attr(mm, cls), [series(it, "1"), series(it, "2")], {})
        r1 = it.call(it.getattr(m, "fit"), [], {})
        n1 = len(o.runs)
        c.check(who + ": each univariate model is estimated once", w, n1 == 3,
                "%d optimiser runs (starting points of %s values) instead of one per series and one joint" % (n1, [r.n for r in o.runs]))
        before = snap(it)
        r2 = it.call(it.getattr(m, "fit"), [], {})
        c.check(who + ": the second fit does not optimise", w, len(o.runs) == n1, "fit() on an estimated model runs the optimiser again")
        same(c, who + ": model unchanged by the second fit", w, it, m, before)
        for k in ("model1", "model2"):
            same(c, who + ": %s unchanged by the second fit" % k, w, it, it.getattr(m, k), before)
        c.equal(who + ": the second fit returns the estimates", w, it, r2, before, r1)
        if cls.endswith("DCC"):
            for f, a in (("loglikelihood_model", [it.alloc(it.list_arr([t.sym("a"), t.sym("b")]))]),
                         ("conditional_correlations", [t.sym("a"), t.sym("b")])):
                w2 = anchor(c, it, mm, cls, f)
                it.call(it.getattr(m, f), a, {})
                c.check(who + ": %s does not estimate" % f, w2, len(o.runs) == n1, "evaluating %s runs the optimiser" % f)
                same(c, who + ": %s leaves the estimates" % f, w2, it, it.getattr(m, "parameters"), before)
                for k in ("model1", "model2"):
                    same(c, who + ": %s leaves %s" % (f, k), w2, it, it.getattr(m, k), before)
            shared(c, cls, u, native, who)
    c.attempt(who, "%s.%s.fit" % (M, cls), go)


def shared(c, cls, u, native, who):
    """univariate models supplied by the caller: already estimated (in any combination), and shared by two joint models"""
    for est in ((1, 1), (1, 0), (0, 1)):
        o = Opt(c, success=ONE)
        it = fit_interp(c, o, native)
        lab = "%s given %s" % (who, " and ".join("an estimated model" if e else "an unestimated model" for e in est))

        def go():
            mm, g = it.load_module(M), it.load_module(G)
            w = anchor(c, it, mm, cls, "fit")
            us = []
            for k, e in zip("12", est):
                x = it.call(it.mod_attr(g, u), [series(it, k)], {})
                if e:
                    it.call(it.getattr(x, "fit"), [], {})
                us.append(x)
            n0 = len(o.runs)
            before = snap(it)
            m = it.call(it.mod_attr(mm, cls), list(us), {})
            it.call(it.getattr(m, "fit"), [], {})
            want = 1 + (2 - sum(est))
            c.check(lab + ": optimiser runs", w, len(o.runs) - n0 == want, "%d optimiser runs instead of %d" % (len(o.runs) - n0, want))
            for x, e, k in zip(us, est, "12"):
                if e:
                    same(c, lab + ": model %s keeps its estimates" % k, w, it, x, before)
            n1 = len(o.runs)
            m2 = it.call(it.mod_attr(mm, cls), list(us), {})
            it.call(it.getattr(m2, "fit"), [], {})
            c.check(lab + ": a second joint model sharing them", w, len(o.runs) - n1 == 1,
                    "%d optimiser runs instead of the joint one" % (len(o.runs) - n1))
        c.attempt(lab, "%s.%s.fit" % (M, cls), go)
