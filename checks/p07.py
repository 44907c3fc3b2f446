"""P07: starting values are the candidate with the highest log-likelihood."""
from sa.ctx import *
import sa.pyeval as pe
from checks.lib import *
from checks.fitlib import *


def named(it, f, args, kw):
    """a log-likelihood as a named node of the value graph"""
    h = it.hooks["funcs"]
    q = (f.cls.name + "." if f.cls else "") + f.name
    del h[q]
    try:
        r = it.call_func(f, args, kw)
    finally:
        h[q] = named
    return t.letT(r) if isinstance(r, T) else r


def run(c):
    t.LET_LIMIT = 12
    pe.UNROLL = 128
    c.rule("The starting point handed to the optimiser by fit() is reduced to its value graph (the candidate loop is over a "
           "literal grid, so its trip count is known) and compared with the first candidate of highest log-likelihood over the "
           "documented grid, each candidate evaluated with the reference likelihood of its own parameters.")
    c.assumptions.append("the compiled kernels compute what their fallbacks compute (decided by P01)")
    for cls, names in UNI:
        for zm in (False, True):
            uni(c, cls, names, zm, False)
    for cls in ("GARCHModel_DCC", "GJRGARCHModel_DCC"):
        dcc(c, cls, False)
    for native in (False, True):
        ccc(c, native)


def uni(c, cls, names, zm, native):
    who = "%s%s (%s)" % (cls, " zero-mean" if zm else "", "native" if native else "fallback")
    o = Opt(c, trial=False)
    it = c.interp(native=native, hooks={"ext": {"scipy.optimize.minimize": o}, "funcs": {"GARCHModel.loglikelihood": named}})
    si = c.interp()
    s, _ = c.spec("start", si)
    sg, _ = c.spec("garch", si)
    n = isym("n", 2)

    def go():
        g = it.load_module(G)
        w = anchor(c, it, g, cls, "starting_values")
        m = it.call(it.mod_attr(g, cls), [series(it)], {"zero_mean": zm})
        it.call(it.getattr(m, "fit"), [], {})
        r = o.runs[0]
        S = lambda f, *a: si.call(si.mod_attr(s, f), list(a), {})
        Q = lambda f, *a: si.call(si.mod_attr(sg, f), list(a), {})
        y = si.alloc(inarr("y", (n,)))
        gjr = "gamma" in names
        cands = S("gjr_candidates" if gjr else "garch_candidates", y)
        r0 = Q("start_resid", y, zm)
        bc, vb = Q("backcast", r0), Q("variance_bounds", r0)
        lls = []
        for cd in si.as_items(cands):
            v = Q("gjr" if gjr else "garch", *(si.as_items(cd) + [r0, bc, vb]))
            lls.append(t.letT(Q("loglik", r0, v)))
        want = si.as_items(S("pick", cands, si.alloc(PyList(lls))))
        if not zm:
            want = [Q("mean", y)] + want
        dom = Dom(syms={"n": lambda u, md: D(2 + int(u * 3))}, points=6)
        nm = names[1 if zm else 0:]
        c.check(who + ": number of starting values", w, r.n == len(want), "%d starting values for %d parameters" % (r.n, len(want)))
        if r.n == len(want):
            for i, f in enumerate(nm):
                c.equal("%s: starting value of %s" % (who, f), w, it, r.x0.get((const(i),)), si, want[i], dom)
    c.attempt(who, "%s.%s.starting_values" % (G, cls), go)


def dcc(c, cls, native):
    who = "%s (%s)" % (cls, "native" if native else "fallback")
    o = Opt(c, success=ONE, trial=False)
    it = c.interp(native=native, hooks={"ext": {"scipy.optimize.minimize": o}, "funcs": {
        "GARCHModel.starting_values": start_hook, "GJRGARCHModel.starting_values": start_hook,
        "GARCHModel_DCC.loglikelihood_model": obj}})
    si = c.interp()
    s, _ = c.spec("start", si)

    def go():
        mm = it.load_module(M)
        w = anchor(c, it, mm, cls, "starting_values")
        m = it.call(it.mod_attr(mm, cls), [series(it, "1"), series(it, "2")], {})
        it.call(it.getattr(m, "fit"), [], {})
        r = o.runs[-1]
        S = lambda f, *a: si.call(si.mod_attr(s, f), list(a), {})
        cands = S("dcc_candidates")
        lls = [t.neg(t.fn("@objective", *si.as_items(cd))) for cd in si.as_items(cands)]
        want = si.as_items(S("pick", cands, si.alloc(PyList(lls))))
        c.check(who + ": number of starting values", w, r.n == 2, "%d starting values for a and b" % r.n)
        if r.n == 2:
            for i, f in enumerate("ab"):
                c.equal("%s: starting value of %s" % (who, f), w, it, r.x0.get((const(i),)), si, want[i], Dom())
    c.attempt(who, "%s.%s.starting_values" % (M, cls), go)


def obj(it, f, args, kw):
    """the objective (P03) as an unknown function of its parameter vector"""
    p = it.as_items(args[1] if len(args) > 1 else kw["params"])
    return t.fn("@objective", *[it.num(x) for x in p])


def ccc(c, native):
    who = "GARCHModel_CCC (%s)" % ("native" if native else "fallback")
    o = Opt(c, success=ONE, trial=False)
    it = fit_interp(c, o, native)
    si = c.interp()
    sg, _ = c.spec("garch", si)
    n = isym("n", 2)

    def go():
        mm = it.load_module(M)
        w = anchor(c, it, mm, "GARCHModel_CCC", "fit")
        m = it.call(it.mod_attr(mm, "GARCHModel_CCC"), [series(it, "1"), series(it, "2")], {})
        it.call(it.getattr(m, "fit"), [], {})
        r = o.runs[-1]
        c.check(who + ": number of starting values", w, r.n == 9, "%d starting values for 9 parameters" % r.n)
        if r.n != 9:
            return
        first = list(o.runs[0].x) + list(o.runs[1].x)
        for i in range(8):
            v = r.x0.get((const(i),))
            c.check("%s: starting value of %s" % (who, BI[i]), w, v is first[i], "is %s, not the univariate estimate %s" % (t.show(v)[:200], t.show(first[i])), "congruence")
        z = []
        for k in "12":
            u = it.getattr(m, "model" + k)
            z += [it.arr(it.getattr(u, "resids")), it.arr(it.getattr(u, "sigma2"))]
        z = [si.alloc(a) for a in z]
        want = si.call(si.mod_attr(sg, "ccc_start"), z, {})
        c.equal("%s: starting value of rho" % who, w, it, r.x0.get((const(8),)), si, want,
                Dom(syms=opt_dom()))
    c.attempt(who, "%s.GARCHModel_CCC.fit" % M, go)


def opt_dom():
    rng = lambda lo, hi: (lambda u, md: D(str(lo)) + u * D(str(hi - lo)))
    d = {"n": lambda u, md: D(3 + int(u * 4))}
    for k in "01":
        for i, r in enumerate((rng(-1, 1), rng(.1, 1), rng(.05, .3), rng(.2, .6))):
            d["opt%s_x%d" % (k, i)] = r
    return d
