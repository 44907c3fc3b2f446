"""P05: estimates are published only on success and belong together."""
from sa.ctx import *
from checks.lib import *
from checks.fitlib import *


def run(c):
    c.rule("fit() is reduced to its value graph with the optimiser unknown (free success flag, solution, final value; the "
           "objective having been evaluated at arbitrary points before). Under success the published fields must be the "
           "solution in field order with minus the final value, and residuals/variances those of the published parameters; "
           "without success every published field must keep its unset value.")
    t.LET_LIMIT = 12
    n = isym("n", 2)
    for native in (False, True):
        tag = "native" if native else "fallback"
        for cls, names in UNI:
            for zm in (False, True):
                uni(c, cls, names, zm, native, "%s%s (%s)" % (cls, " zero-mean" if zm else "", tag), n)
    for cls, names in (("GARCHModel_CCC", BI), ("GARCHModel_DCC", ["a", "b"]), ("GJRGARCHModel_DCC", ["a", "b"])):
        multi(c, cls, names, n)


def under(v, ok, val):
    """v with the success flag fixed"""
    if not isinstance(v, T):
        return v
    a = t.as_atom(ok)
    return t.set_ind(v, a.id, val) if a is not None else v


def uni(c, cls, names, zm, native, who, n):
    o = Opt(c)
    it = fit_interp(c, o, native)
    s, si = c.spec("garch")

    def go():
        g = it.load_module(G)
        w = anchor(c, it, g, cls, "fit")
        m = it.call(it.mod_attr(g, cls), [series(it)], {"zero_mean": zm})
        ret = it.call(it.getattr(m, "fit"), [], {})
        if len(o.runs) != 1:
            c.fail(who + ": one optimiser run", w, "%d optimiser runs" % len(o.runs))
            return
        r = o.runs[0]
        ok = r.ok
        nm = names[1 if zm else 0:]
        c.equal(who + ": success flag", w, it, it.getattr(m, "estimation_success"), si, mkbool(ok))
        p = it.getattr(m, "parameters")
        val = dict(zip(nm, r.x))
        val["loglikelihood"] = t.neg(r.f)
        if zm:
            val["mu"] = ZERO
        for src, P in (("parameters", p), ("returned", ret)):
            for f in names + ["loglikelihood"]:
                field(c, "%s: %s.%s" % (who, src, f), w, it, it.getattr(P, f), ok, val[f])
        # residuals and variances on success
        sj = si
        mu = val["mu"]
        y = sj.alloc(inarr("y", (n,)))
        dom = Dom(syms={"n": lambda u, md: D(2 + int(u * 5))})
        want_r = sj.call(sj.mod_attr(s, "resid"), [y, mu], {})
        only(c, who + ": stored residuals", w, it, it.getattr(m, "resids"), sj, want_r, ok, dom)
        q = [val[x] for x in nm if x != "mu"]
        bc, vb = it.getattr(m, "backcast_value"), it.getattr(m, "var_bounds")
        # the objective that was minimised used these
        r0 = sj.call(sj.mod_attr(s, "start_resid"), [y, zm], {})
        wbc = sj.call(sj.mod_attr(s, "backcast"), [r0], {})
        wvb = sj.call(sj.mod_attr(s, "variance_bounds"), [r0], {})
        want_v = sj.call(sj.mod_attr(s, "gjr" if "gamma" in names else "garch"), q + [want_r, wbc, wvb], {})
        only(c, who + ": stored conditional variances", w, it, it.getattr(m, "sigma2"), sj, want_v, ok, dom)
    c.attempt(who, "%s.%s.fit" % (G, cls), go)


def field(c, name, w, it, got, ok, val):
    """got must be val under ok and unset (nan) otherwise"""
    aid = t.as_atom(ok)
    if isinstance(got, CondV):
        got = it.num(got)
    if not isinstance(got, T):
        c.fail(name, w, "is %r" % (got,))
        return
    g1 = t.set_ind(got, aid.id, 1)
    g0 = t.set_ind(got, aid.id, 0)
    c.check(name + " on success", w, g1 is val, "is %s, not the optimiser's %s" % (t.show(g1)[:200], t.show(val)), "congruence")
    c.check(name + " without success", w, g0 is t.NAN, "is %s although the optimiser did not converge" % t.show(g0)[:200], "congruence")


def only(c, name, w, it, got, sj, want, ok, dom):
    a, b = it.arr(got), sj.arr(want)
    aid = t.as_atom(ok).id
    fix = lambda A: Arr(tuple(t.set_ind(x, aid, 1) for x in A.shape), lambda i: t.set_ind(it.num(A.get(i)), aid, 1), A.dt)
    c.equal(name, w, it, it.alloc(fix(a)), sj, want, dom)


def multi(c, cls, names, n):
    o = Opt(c)
    # the univariate estimates are whatever they are; converged (their own publication is decided above)
    seen = []

    def opt(it, args, kw):
        o.success = ONE if len(o.runs) < 2 else None
        o.trial = False
        return o(it, args, kw)
    it = fit_interp(c, opt)
    si = c.interp()

    def go():
        mm = it.load_module(M)
        w = anchor(c, it, mm, cls, "fit")
        m = it.call(it.mod_attr(mm, cls), [series(it, "1"), series(it, "2")], {})
        ret = it.call(it.getattr(m, "fit"), [], {})
        if len(o.runs) != 3:
            c.fail(cls + ": optimiser runs", w, "%d optimiser runs, expected one per series and one for the joint model" % len(o.runs))
            return
        r = o.runs[2]
        c.equal(cls + ": success flag", w, it, it.getattr(m, "estimation_success"), si, mkbool(r.ok))
        val = dict(zip(names, r.x))
        val["loglikelihood"] = t.neg(r.f)
        for src, P in (("parameters", it.getattr(m, "parameters")), ("returned", ret)):
            for f in list(names) + ["loglikelihood"]:
                field(c, "%s: %s.%s" % (cls, src, f), w, it, it.getattr(P, f), r.ok, val[f])
            if len(names) == 2:
                u = ["mu", "omega", "alpha", "gamma", "beta"] if cls.startswith("GJR") else ["mu", "omega", "alpha", "beta"]
                aid = t.as_atom(r.ok).id
                for k in (0, 1):
                    for f, v in zip(u, o.runs[k].x):
                        g = t.set_ind(it.num(it.getattr(P, f + "12"[k])), aid, 1)
                        c.check("%s: %s.%s%s" % (cls, src, f, "12"[k]), w, g is v,
                                "is %s, not the first-step estimate %s" % (t.show(g)[:200], t.show(v)), "congruence")
    c.attempt(cls, "%s.%s.fit" % (M, cls), go)
