"""P04: the feasible set handed to the optimiser."""
from sa.ctx import *
from checks.lib import *
from checks.fitlib import *

ROLE = {"mu": "free", "omega": "pos", "alpha": "unit", "gamma": "unit", "beta": "unit", "rho": "corr", "a": "unit", "b": "unit"}


def bound_ok(role, lo, hi):
    tiny = Fr(1, 100)
    if role == "free":
        return lo is None and hi is None, "unbounded"
    if role == "pos":
        return lo is not None and 0 < lo <= tiny and hi is None, "a small positive lower bound and no upper bound"
    if role == "unit":
        return lo is not None and hi is not None and 0 <= lo <= tiny and 1 - tiny <= hi <= 1, "[0, 1]"
    return lo is not None and hi is not None and -1 < lo <= Fr(-9, 10) and Fr(9, 10) <= hi < 1, "inside (-1, 1)"


def judge(c, who, w, r, names, persist):
    names = [re.sub(r"\d$", "", x) for x in names]
    c.check("%s: number of parameters" % who, w, r.n == len(names), "the optimiser is started with %d values for the %d parameters %s" % (r.n, len(names), names))
    if r.n != len(names):
        return
    b = r.bounds
    if isinstance(b, Undecided):
        c.unsure("%s: bounds" % who, w, str(b))
    elif b is None:
        c.fail("%s: bounds" % who, w, "no bounds are passed to the optimiser")
    elif len(b) != r.n:
        c.fail("%s: bounds" % who, w, "%d bounds for %d parameters" % (len(b), r.n))
    else:
        for i, (nm, (lo, hi)) in enumerate(zip(names, b)):
            ok, want = bound_ok(ROLE[nm], lo, hi)
            c.check("%s: bound of parameter %d (%s)" % (who, i, nm), w, ok,
                    "parameter %s at position %d is searched over [%s, %s], documented: %s" % (nm, i, lo, hi, want))
    cons = r.cons
    if isinstance(cons, Undecided):
        c.unsure("%s: constraint" % who, w, str(cons))
        return
    me = r.kw.get("method")
    c.check("%s: optimiser honours bounds and constraints" % who, w,
            me is None or (isinstance(me, str) and me.lower() in ("slsqp", "trust-constr", "cobyqa", "cobyla")),
            "method %r ignores bounds or inequality constraints" % (me,))
    left = list(cons)
    for label, want in persist(r.x):
        hit = None
        for k, (ty, v) in enumerate(left):
            if ty == "ineq" and same_region(v, want):
                hit = k
                break
        c.check("%s: %s" % (who, label), w, hit is not None,
                "no inequality constraint equivalent to %s >= 0 is passed; constraints: %s" % (
                    t.show(want), [(ty, t.show(v)) for ty, v in cons]))
        if hit is not None:
            left.pop(hit)
    c.check("%s: no further constraint" % who, w, not left,
            "unexpected constraint %s" % [(ty, t.show(v)) for ty, v in left])


def same_region(v, want):
    """v >= 0 is want >= 0 up to a positive factor and a slack of at most 0.001"""
    if not isinstance(v, T):
        return False
    q = t.div(v, want)
    k = t.cval(q)
    if k is not None:
        return k > 0
    d = t.cval(sub(v, want))
    return d is not None and -Fr(1, 1000) <= d <= 0


def run(c):
    c.rule("fit() is reduced to its value graph with the optimiser as an unknown function; the bounds and constraint "
           "functions it is given are read off as values, matched to the documented parameter order position by position "
           "and compared with the documented feasible set (constraint functions by value numbering).")
    for cls, names in UNI:
        for zm in (False, True):
            o = Opt(c)
            it = fit_interp(c, o)
            who = cls + (" zero-mean" if zm else "")

            def go():
                g = it.load_module(G)
                w = anchor(c, it, g, cls, "fit")
                m = it.call(it.mod_attr(g, cls), [series(it)], {"zero_mean": zm})
                it.call(it.getattr(m, "fit"), [], {})
                c.check("%s: one optimiser run" % who, w, len(o.runs) == 1, "%d optimiser runs" % len(o.runs))
                nm = names[1 if zm else 0:]

                def persist(x):
                    d = dict(zip(nm, x))
                    return [("persistence below one", sub(sub(ONE, t.add(d["alpha"], d["beta"])), mul(const(Fr(1, 2)), d.get("gamma", ZERO))))]
                for r in o.runs:
                    judge(c, who, w, r, nm, persist)
            c.attempt(who, G + "." + cls, go)
    for cls, names, uni in (("GARCHModel_CCC", BI, None), ("GARCHModel_DCC", ["a", "b"], 0), ("GJRGARCHModel_DCC", ["a", "b"], 0)):
        o = Opt(c, success=ONE, trial=False)
        it = fit_interp(c, o)

        def go():
            mm = it.load_module(M)
            w = anchor(c, it, mm, cls, "fit")
            m = it.call(it.mod_attr(mm, cls), [series(it, "1"), series(it, "2")], {})
            it.call(it.getattr(m, "fit"), [], {})
            own = [r for r in o.runs if r.n == len(names)] if len(o.runs) != 3 else o.runs[2:]
            c.check("%s: one joint optimiser run" % cls, w, len(own) == 1 and len(o.runs) == 3,
                    "%d optimiser runs, expected one per series and one for the joint model" % len(o.runs))

            def persist(x):
                d = dict(zip(names, x))
                if "a" in d:
                    return [("a + b below one", sub(ONE, t.add(d["a"], d["b"])))]
                return [("persistence of series %s below one" % k, sub(ONE, t.add(d["alpha" + k], d["beta" + k]))) for k in "12"]
            for r in own:
                judge(c, cls, w, r, names, persist)
        c.attempt(cls, M + "." + cls, go)
