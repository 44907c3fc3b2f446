"""P21: distress insurance premium."""
from sa.ctx import *
from checks.lib import *

M = "frds.measures._distress_insurance_premium"


def corr(u, m, i, j):
    return D(1) if str(i) == str(j) else u / 2 - D("0.25")


def draws(ev, a):
    """triangular losses over their whole range [0.1, 1], every fourth point close to the upper end"""
    if a.args[0] != "draw" or a.args[2] != ("s", "triangular"):
        return None
    u = ev.u("tri", tuple(ev.hk(x) for x in a.args[1:]))
    return D(1) - u / 10000 if ev.seed % 4 == 1 else D("0.1") + u * D("0.9")


def nbanks(u, m):
    return D(1) if u < D("0.3") else D(2) if u < D("0.7") else D(3) if u < D("0.9") else D(8)


DOM = Dom(syms={"n": nbanks, "R": lambda u, m: D(1 + int(u * 6)) if u < D("0.8") else D(60), "S": lambda u, m: D(1 + int(u * 2)),
                "threshold": lambda u, m: u * D("0.9")},
          fns={"@p": lambda u, m, *k: u * u * D("0.9") + D("0.01"), "@corr": corr}, hook=draws)


def run(c):
    c.rule("The estimate is reduced to its value graph for a symbolic number of banks, simulated returns and simulations (draws are "
           "unknowns identified by generator, position in the stream, distribution and parameters) and compared with the documented premium.")
    it = c.interp()
    s, si = c.spec("dip")
    n, R, S, seed, thr = isym("n", 1), isym("R", 1), isym("S", 1), isym("seed", 0), t.sym("threshold", nonneg=True)
    mk = lambda i: [i.alloc(inarr("p", (n,), pos=True)), i.alloc(inarr("corr", (n, n)))]

    def go():
        m = it.load_module(M)
        w = anchor(c, it, m, "DistressInsurancePremium", "estimate")
        o = it.call(it.mod_attr(m, "DistressInsurancePremium"), mk(it), {})
        got = it.call(it.getattr(o, "estimate"), [thr, seed, R, S], {})
        want = si.call(si.mod_attr(s, "premium"), mk(si) + [thr, seed, R, S], {})
        c.equal("premium", w, it, got, si, want, DOM)
    c.attempt("premium", M, go)

    def dflt():
        m = it.load_module(M)
        f = it.getattr(it.mod_attr(m, "DistressInsurancePremium"), "estimate")
        documented_defaults(c, it, f, {"default_threshold": Fr(15, 100), "random_seed": 0, "n_simulated_returns": 500000, "n_simulations": 1000})
    c.attempt("defaults", M, dflt)
