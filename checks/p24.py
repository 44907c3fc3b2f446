"""P24: absorption ratio."""
from sa.ctx import *
from checks.lib import *

# fractions that fall on halves of the number of assets as well as between
DOM = Dom(syms={"n": lambda u, m: D(2 + int(u * 4)), "days": lambda u, m: D(2 + int(u * 4)), "f": lambda u, m: D(int(u * 13)) / 12},
          nmax=8, points=48, special=False)


def run(c):
    c.rule("The ratio is reduced to its value graph for symbolic numbers of assets and days and compared with the sum of the K largest "
           "eigenvalues of the sample covariance over its trace; eigenvalues from a routine for general matrices are not known to be "
           "real and are a different function.")
    c.assumptions.append("two or more assets, two or more days, positive total variance")
    it = c.interp()
    s, si = c.spec("simple")
    n, d = isym("n", 2), isym("days", 2)
    f = t.sym("f", nonneg=True)
    R = lambda i: i.alloc(inarr("ret", (n, d)))

    def go():
        m = it.load_module("frds.measures")
        C = it.mod_attr(m, "AbsorptionRatio")
        w = anchor(c, it, m, "AbsorptionRatio", "estimate")
        for p in ("asset_covariance", "eigvals"):
            anchor(c, it, m, "AbsorptionRatio", p)
        W = lambda x: si.call(si.mod_attr(s, "absorption"), [R(si), x], {})
        o = it.call(C, [R(it)], {})
        for lab, args, kw, x in (("fraction f", [f], {}, f), ("fraction f by keyword", [], {"fraction_eigenvectors": f}, f),
                                 ("default fraction 0.2", [], {}, const(Fr(1, 5))), ("fraction f, asked again", [f], {}, f)):
            c.equal("absorption ratio, " + lab, w, it, it.call(it.getattr(o, "estimate"), args, kw), si, W(x), DOM)
        for k in (3, 5, 7):
            ra = inarr("ret", (const(k), d))
            o2 = it.call(C, [it.alloc(ra)], {})
            c.equal("absorption ratio, %d assets" % k, w, it, it.call(it.getattr(o2, "estimate"), [f], {}), si,
                    si.call(si.mod_attr(s, "absorption"), [si.alloc(ra), f], {}), DOM)
    c.attempt("absorption ratio", "frds.measures", go)
