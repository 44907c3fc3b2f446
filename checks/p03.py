"""P03: likelihood objectives equal the documented log-likelihoods."""
from sa.ctx import *
from checks.lib import *
from checks.fitlib import Opt, fit_interp, series, UNI, BI, START

G = "frds.algorithms._garch"
M = "frds.algorithms._mgarch"


def run(c):
    c.rule("Each objective handed to the optimiser is reduced to its value graph over a symbolic parameter vector and "
           "return series of symbolic length, and compared by value numbering with minus the documented log-likelihood.")
    for native in (False, True):
        run1(c, native)
        passed(c, native)


def run1(c, native):
    tag = "native" if native else "fallback"
    it = c.interp(native=native)
    s, si = c.spec("garch")
    g = c.attempt("load", G, lambda: it.load_module(G))
    m = c.attempt("load", M, lambda: it.load_module(M))
    if g is None or m is None:
        return
    n = isym("n", 1)
    dom = Dom(fns={"@vb": vb_dom})
    S = lambda f, *a: si.call(si.mod_attr(s, f), list(a), {})
    y = lambda i, k="": i.alloc(inarr("y" + k, (n,)))
    vb = lambda i: i.alloc(inarr("vb", (n, 2), pos=True))
    bc = t.sym("backcast")

    def par(i, names):
        return i.alloc(i.list_arr([t.sym(x) for x in names]))

    names = {"garch": ["mu", "omega", "alpha", "beta"], "gjr": ["mu", "omega", "alpha", "gamma", "beta"]}
    for which, cls in (("garch", "GARCHModel"), ("gjr", "GJRGARCHModel")):
        for zm in (False, True):
            nm = "%s objective%s (%s)" % (cls, ", zero mean" if zm else "", tag)
            w = anchor(c, it, g, cls, "loglikelihood_model")

            def go():
                C = it.mod_attr(g, cls)
                o = it.call(C, [y(it)], {"zero_mean": zm})
                p = names[which][1 if zm else 0:]
                got = it.call(it.getattr(o, "loglikelihood_model"), [par(it, p), bc, vb(it), zm], {})
                want = S("objective", which, zm, par(si, p), y(si), bc, vb(si))
                c.equal(nm, w, it, got, si, want, dom)
            c.attempt(nm, w, go)
        nm = "%s Gaussian log-likelihood (%s)" % (cls, tag)
        w = anchor(c, it, g, cls, "loglikelihood")

        def go2():
            v = lambda i: i.alloc(inarr("v", (n,), pos=True))
            got = it.call(it.getattr(it.mod_attr(g, cls), "loglikelihood"), [y(it), v(it)], {})
            c.equal(nm, w, it, got, si, S("loglik", y(si), v(si)), dom)
        c.attempt(nm, w, go2)

    # constant correlation
    nm = "GARCHModel_CCC objective (%s)" % tag
    w = anchor(c, it, m, "GARCHModel_CCC", "loglikelihood_model")
    cn = ["mu1", "omega1", "alpha1", "beta1", "mu2", "omega2", "alpha2", "beta2", "rho"]
    pos = lambda lo, hi: (lambda u, md: D(str(lo)) + u * D(str(hi - lo)))
    cd = Dom(syms={"rho": pos(-.9, .9), "n": lambda u, md: D(2 + int(u * 5)), "mu1": pos(-2, 2), "mu2": pos(-2, 2), "omega1": pos(.1, 1), "omega2": pos(.1, 1), "alpha1": pos(.1, .9),
                   "alpha2": pos(.1, .9), "beta1": pos(.1, .9), "beta2": pos(.1, .9)})

    def ccc():
        C = it.mod_attr(m, "GARCHModel_CCC")
        o = it.call(C, [y(it, "1"), y(it, "2")], {})
        got = it.call(it.getattr(o, "loglikelihood_model"), [par(it, cn), t.sym("backcast1"), t.sym("backcast2"),
                                                            it.alloc(inarr("vb1", (n, 2), pos=True)), it.alloc(inarr("vb2", (n, 2), pos=True))], {})
        want = S("ccc", par(si, cn), y(si, "1"), y(si, "2"))
        c.equal(nm, w, it, got, si, want, cd)
    c.attempt(nm, w, ccc)

    nm2 = "GARCHModel_CCC bivariate log-likelihood (%s)" % tag
    w2 = anchor(c, it, m, "GARCHModel_CCC", "loglikelihood")

    def ccl():
        C = it.mod_attr(m, "GARCHModel_CCC")
        o = it.call(C, [y(it, "1"), y(it, "2")], {})
        a = lambda i: [i.alloc(inarr("r1", (n,))), i.alloc(inarr("s1", (n,), pos=True)), i.alloc(inarr("r2", (n,))),
                       i.alloc(inarr("s2", (n,), pos=True)), t.sym("rho")]
        got = it.call(it.getattr(o, "loglikelihood"), a(it), {})
        c.equal(nm2, w2, it, got, si, S("loglik2", *a(si)), cd)
    c.attempt(nm2, w2, ccl)

    # dynamic correlation
    a, b = t.sym("a"), t.sym("b")
    dd = Dom(syms={"a": pos(.01, .4), "b": pos(.01, .5), "n": lambda u, md: D(2 + int(u * 5))},
             fns={"@rho": lambda u, md, *k: u * D("2.4") - D("1.2")})
    for cls in ("GARCHModel_DCC", "GJRGARCHModel_DCC"):
        st = lambda i: [i.alloc(inarr("e1", (n,))), i.alloc(inarr("v1", (n,), pos=True)),
                        i.alloc(inarr("e2", (n,))), i.alloc(inarr("v2", (n,), pos=True))]

        def model(it):
            C = it.mod_attr(it.load_module(M), cls)
            o = it.call(C, [y(it, "1"), y(it, "2")], {})
            e1, v1, e2, v2 = st(it)
            for mm, e, v, l in (("model1", e1, v1, "l1"), ("model2", e2, v2, "l2")):
                u = it.getattr(o, mm)
                it.setattr(u, "estimation_success", ONE)
                it.setattr(u, "resids", e)
                it.setattr(u, "sigma2", v)
                it.setattr(it.getattr(u, "parameters"), "loglikelihood", t.sym(l))
            return o
        nm3 = "%s correlation recursion (%s)" % (cls, tag)
        w3 = anchor(c, it, m, cls, "conditional_correlations")

        def rho():
            got = it.call(it.getattr(model(it), "conditional_correlations"), [a, b], {})
            c.equal(nm3, w3, it, got, si, S("dcc_rho", a, b, *st(si)), dd)
        c.attempt(nm3, w3, rho)
        nm4 = "%s objective (%s)" % (cls, tag)
        w4 = anchor(c, it, m, cls, "loglikelihood_model")

        def obj():
            ih = c.interp(native=native, hooks=LR_HOOKS)
            got = ih.call(ih.getattr(model(ih), "loglikelihood_model"), [par(ih, ["a", "b"])], {})
            want = S("dcc_objective", a, b, *(st(si) + [t.sym("l1"), t.sym("l2"), si.alloc(inarr("rho", (n,)))]))
            c.equal(nm4, w4, ih, got, si, want, dd)
        c.attempt(nm4, w4, obj)


def passed(c, native):
    """the function and extra arguments actually handed to the optimiser by fit()"""
    tag = "native" if native else "fallback"
    n = isym("n", 2)
    pos = lambda lo, hi: (lambda u, md: D(str(lo)) + u * D(str(hi - lo)))
    dom = Dom(syms={"n": lambda u, md: D(2 + int(u * 5))})
    for cls, names in UNI:
        for zm in (False, True):
            who = "%s%s: what fit() minimises (%s)" % (cls, ", zero mean" if zm else "", tag)
            o = Opt(c)
            it = fit_interp(c, o, native)
            s, si = c.spec("garch")

            def go():
                g = it.load_module(G)
                w = anchor(c, it, g, cls, "fit")
                m = it.call(it.mod_attr(g, cls), [series(it)], {"zero_mean": zm})
                it.call(it.getattr(m, "fit"), [], {})
                r = o.runs[0]
                S = lambda f, *a: si.call(si.mod_attr(s, f), list(a), {})
                y = si.alloc(inarr("y", (n,)))
                r0 = S("start_resid", y, zm)
                want = S("objective", "gjr" if "gamma" in names else "garch", zm, si.alloc(si.list_arr(r.trial)), y, S("backcast", r0), S("variance_bounds", r0))
                c.equal(who, w, it, r.trial_f, si, want, dom)
            c.attempt(who, G + "." + cls + ".fit", go)
    who = "GARCHModel_CCC: what fit() minimises (%s)" % tag
    o = Opt(c, success=ONE)
    it = fit_interp(c, o, native)
    s, si = c.spec("garch")

    def go2():
        m = it.load_module(M)
        w = anchor(c, it, m, "GARCHModel_CCC", "fit")
        x = it.call(it.mod_attr(m, "GARCHModel_CCC"), [series(it, "1"), series(it, "2")], {})
        it.call(it.getattr(x, "fit"), [], {})
        r = o.runs[-1]
        want = si.call(si.mod_attr(s, "ccc"), [si.alloc(si.list_arr(r.trial)), si.alloc(inarr("y1", (n,))), si.alloc(inarr("y2", (n,)))], {})
        rng = [pos(-2, 2), pos(.1, 1), pos(.1, .9), pos(.1, .9)] * 2 + [pos(-.9, .9)]
        d = {"%s_trial%d" % (r.name, i): f for i, f in enumerate(rng)}
        d["n"] = lambda u, md: D(2 + int(u * 5))
        c.equal(who, w, it, r.trial_f, si, want, Dom(syms=d))
    c.attempt(who, M + ".GARCHModel_CCC.fit", go2)
    for cls in ("GARCHModel_DCC", "GJRGARCHModel_DCC"):
        who = "%s: what fit() minimises (%s)" % (cls, tag)
        o = Opt(c, success=ONE)
        h = {"ext": {"scipy.optimize.minimize": o}, "funcs": dict(START)}
        h["funcs"].update(LR_HOOKS["funcs"])
        it = c.interp(native=native, hooks=h)
        s, si = c.spec("garch")

        def go3():
            m = it.load_module(M)
            w = anchor(c, it, m, cls, "fit")
            x = it.call(it.mod_attr(m, cls), [series(it, "1"), series(it, "2")], {})
            us = [it.getattr(x, "model1"), it.getattr(x, "model2")]
            a = []
            for k, u in zip("12", us):
                it.setattr(u, "estimation_success", ONE)
                e, v = it.alloc(inarr("e" + k, (n,))), it.alloc(inarr("v" + k, (n,), pos=True))
                it.setattr(u, "resids", e)
                it.setattr(u, "sigma2", v)
                it.setattr(it.getattr(u, "parameters"), "loglikelihood", t.sym("l" + k))
                a += [si.alloc(inarr("e" + k, (n,))), si.alloc(inarr("v" + k, (n,), pos=True))]
            it.call(it.getattr(x, "fit"), [], {})
            r = o.runs[-1]
            want = si.call(si.mod_attr(s, "dcc_objective"), r.trial + a + [t.sym("l1"), t.sym("l2"), si.alloc(inarr("rho", (n,)))], {})
            dd = Dom(syms={"n": lambda u, md: D(2 + int(u * 5))}, fns={"@rho": lambda u, md, *k: u * D("2.4") - D("1.2")})
            c.equal(who, w, it, r.trial_f, si, want, dd)
        c.attempt(who, M + "." + cls + ".fit", go3)
