"""P25: PIN likelihoods, PIN value, initial-value grid."""
from sa.ctx import *
from checks.lib import *
from checks import libpin

M = "frds.measures._probability_of_informed_trading"
K = ["alpha", "delta", "eB", "eS", "mu"]
rng = lambda lo, hi: (lambda u, m, *k: D(str(lo)) + u * D(str(hi - lo)))
cnt = lambda u, m, *k: D(int(u * 7))
DOM = Dom(syms={"alpha": rng(.05, .95), "delta": rng(.05, .95), "eB": rng(.2, 6), "eS": rng(.2, 6), "mu": rng(.2, 6),
                "n": lambda u, m: D(1 + int(u * 4))}, fns={"@B": cnt, "@S": cnt}, special=False)

# points at which a candidate's sell rate is exactly zero among them
GDOM = Dom(syms={"n": lambda u, m: D(1 + int(u * 4))}, fns={"@B": lambda u, m, *k: D(2) if m == 3 else D(int(u * 7)),
                                                          "@S": lambda u, m, *k: D(1) if m == 3 else D(int(u * 7))})


def run(c):
    c.rule("Each likelihood is reduced to its value graph for a symbolic number of days and compared with the Poisson mixture; the PIN "
           "value and every initial-value candidate are compared with their definitions.")
    c.assumptions.append("probabilities strictly inside (0,1), rates positive, non-negative counts")
    it = c.interp()
    s, si = c.spec("pin")
    n = isym("n", 1)
    BS = lambda i: [i.alloc(inarr("B", (n,), nonneg=True)), i.alloc(inarr("S", (n,), nonneg=True))]
    P = [t.sym(k, pos=True) for k in K]
    S = lambda f, *a: si.call(si.mod_attr(s, f), list(a), {})

    def lik():
        m = it.load_module(M)
        for me in ("EHO2010", "LK2011"):
            fn = "loglikelihood_" + me
            w = anchor(c, it, m, "PIN", fn)
            for form in ("array", "tuple", "list"):
                o = it.call(it.mod_attr(m, "PIN"), BS(it), {})
                v = it.alloc(it.list_arr(P)) if form == "array" else tuple(P) if form == "tuple" else it.alloc(PyList(list(P)))
                got = it.call(it.getattr(o, fn), [v], {})
                c.equal("%s negative log-likelihood, parameters as %s" % (me, form), w, it, got, si, S("negloglik", *P, *BS(si)), DOM)
    c.attempt("likelihoods", M, lik)

    def value():
        m = it.load_module(M)
        w = anchor(c, it, m, "PIN", "Parameters")
        C = it.getattr(it.mod_attr(m, "PIN"), "Parameters")
        p = it.call(C, list(P), {})
        r = it.call(it.getattr(p, "calculate_pin"), [], {})
        want = S("pin", P[0], P[2], P[3], P[4])
        c.equal("PIN value", w, it, r, si, want, DOM)
        c.equal("PIN value stored", w, it, it.getattr(p, "pin"), si, want, DOM)
        for k, f in zip(P, ("alpha", "delta", "epsilon_b", "epsilon_s", "mu")):
            c.equal("parameters keep %s" % f, w, it, it.getattr(p, f), si, k, DOM)
    c.attempt("PIN value", M, value)

    def grid():
        ip = libpin.interp(c)
        m = ip.load_module(M)
        w = anchor(c, ip, m, "PIN", "init_params_grid_search")
        o = ip.call(ip.mod_attr(m, "PIN"), BS(ip), {})
        ip.call(ip.getattr(o, "estimate"), [], {})
        got = libpin.runs(ip)
        G = [Fr(k, 10) for k in (1, 3, 5, 7, 9)]
        left = {(a, d, g): [ip.num(x) for x in si.as_items(S("start", const(a), const(d), const(g), *BS(si)))] for a in G for d in G for g in G}
        bad = []
        for pc, x0, r in got:
            if len(x0) != 5:
                bad.append("start of %d values" % len(x0))
                continue
            k = next((k for k, v in left.items() if all(same(p, q) for p, q in zip(v, x0))), None)
            if k is None:
                bad.append("start (%s)" % ", ".join(t.show(x)[:80] for x in x0))
                continue
            v = left.pop(k)
            c.equal("candidate alpha=%s delta=%s gamma=%s: used exactly if its sell rate is not negative" % k, w, ip, pc, si,
                    sub(ONE, t.lt0(v[3])), GDOM)
        c.check("every start is a candidate of the grid, once", w, not bad, "; ".join(bad[:3]))
        c.check("no candidate of the grid is missing", w, not left or bool(bad), "%d missing, e.g. alpha=%s delta=%s gamma=%s" % ((len(left),) + next(iter(left), (0, 0, 0))))
    c.attempt("grid", M, grid)


def same(a, b):
    return a is b or sub(a, b) is ZERO
