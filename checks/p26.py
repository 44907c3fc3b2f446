"""P26: PIN estimation."""
from sa.ctx import *
from checks.lib import *
from checks import libpin
from checks.libpin import M, K, FIELDS

cnt = lambda u, m, *k: D(int(u * 7))
DOM = Dom(syms={"n": lambda u, m: D(1 + int(u * 3))}, fns={"@B": cnt, "@S": cnt, "@fun": lambda u, m, *k: u * 40 - 20}, special=False, points=12, strict=True)
rng = lambda lo, hi: (lambda u, m, *k: D(str(lo)) + u * D(str(hi - lo)))
LDOM = Dom(syms={"n": lambda u, m: D(1 + int(u * 4)), "trial0": rng(.05, .95), "trial1": rng(.05, .95), "trial2": rng(.2, 6),
                 "trial3": rng(.2, 6), "trial4": rng(.2, 6)}, fns={"@B": cnt, "@S": cnt}, special=False)
BOUNDS = [(0, 1), (0, 1), (0, None), (0, None), (0, None)]


def run(c):
    c.rule("scipy.optimize.minimize is an arbitrary function of its starting point (outcome: converged or not, solution, finite "
           "objective value). The estimate's whole loop is reduced to a recurrence over the candidates and its published state is "
           "compared with the best converged run; each call's objective and bounds are read off at the call.")
    c.assumptions.append("a converged run has a finite objective value; non-negative counts")
    it = libpin.interp(c)
    n = isym("n", 1)
    s, si = c.spec("pin", c.interp(hooks={"ext": {"spec.minimize": libpin.spec_minimize}}))
    BS = lambda i: [i.alloc(inarr("B", (n,), nonneg=True)), i.alloc(inarr("S", (n,), nonneg=True))]
    want = si.as_items(si.call(si.mod_attr(s, "estimate"), BS(si) + [Ext("spec.minimize")], {}))

    def go():
        m = it.load_module(M)
        C = it.mod_attr(m, "PIN")
        w = anchor(c, it, m, "PIN", "estimate")
        for lab, seq in (("EHO2010", ["EHO2010"]), ("LK2011", ["LK2011"]), ("default method", [None]),
                         ("LK2011 after EHO2010", ["EHO2010", "LK2011"]), ("EHO2010 again", ["EHO2010", "EHO2010"])):
            o = it.call(C, BS(it), {})
            for me in seq:
                n0 = len(it.events)
                r = it.call(it.getattr(o, "estimate"), [] if me is None else [me], {})
            me = me or "EHO2010"
            p = it.getattr(o, "parameters")
            for k, f in enumerate(FIELDS):
                c.equal("%s: published %s" % (lab, f), w, it, it.getattr(p, f), si, want[k + 1], DOM)
                c.equal("%s: returned %s" % (lab, f), w, it, it.getattr(r, f), si, want[k + 1], DOM)
            c.equal("%s: success reported" % lab, w, it, it.getattr(o, "estimation_success"), si, want[0], DOM)
            method(c, it, lab, w, it.getattr(p, "method"), me, it.getattr(o, "estimation_success"))
            ev = [e for e in it.events[n0:] if e[1] == "minimize"]
            c.check("%s: the optimiser is run" % lab, w, bool(ev), "no call of the optimiser")
            for _, _, q, f, node in ev:
                wh = "%s:%d estimate" % (rel(c, f), node.lineno)
                if isinstance(q.bounds, Undecided):
                    c.unsure("%s: bounds" % lab, wh, str(q.bounds))
                else:
                    c.check("%s: bounds" % lab, wh, q.bounds == BOUNDS or q.bounds is not None and [tuple(x) for x in q.bounds] == BOUNDS,
                            "bounds %s" % (q.bounds,))
                c.check("%s: no further constraints" % lab, wh, q.cons == [], "%r" % (q.cons,))
                c.equal("%s: objective" % lab, wh, it, q.trial_f, si, si.call(si.mod_attr(s, "negloglik"), q.x + BS(si), {}), LDOM)
        for bad in ("EHO2011", "", "eho2010"):
            o = it.call(C, BS(it), {})
            try:
                it.call(it.getattr(o, "estimate"), [bad], {})
                c.fail("unknown method %r is rejected" % bad, w, "accepted")
            except AbsRaise as e:
                c.check("unknown method %r is rejected" % bad, w, e.name == "ValueError", "raises %s" % e.name)
    c.attempt("estimate", M, go)


def alts(v, cond=ONE):
    if isinstance(v, CondV):
        return alts(v.a, mul(cond, v.c)) + alts(v.b, mul(cond, t.notT(v.c)))
    return [(cond, v)]


def method(c, it, lab, w, v, me, ok):
    """the stored method is the one used exactly when something was published"""
    hit = ZERO
    for k, x in alts(v):
        if x == me:
            hit = add(hit, k)
    c.equal("%s: published method" % lab, w, it, hit, it, ok, DOM)
