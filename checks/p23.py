"""P23: MES and SES."""
from sa.ctx import *
from checks.lib import *

# market returns often tie, so that the strictness of the comparison matters
DOM = Dom(syms={"n": lambda u, m: D(4 + int(u * 9)), "q": lambda u, m: D(1 + int(u * 11)) / 12}, nmax=16, points=40,
          fns={"@market": lambda u, m, *k: D(int(u * 5) - 2) / 8 if m % 2 else u - D("0.5")})
DOM2 = Dom(syms={"n": lambda u, m: D(4 + int(u * 3))})


def run(c):
    c.rule("Each measure is reduced to its value graph for a symbolic number of observations and compared with its definition; "
           "the least-squares fit is compared with the regression of demeaned variables.")
    c.assumptions.append("at least one day below the quantile; regressors not collinear")
    it = c.interp()
    s, si = c.spec("simple")
    n = isym("n", 4)
    a = lambda i, nm: i.alloc(inarr(nm, (n,)))

    def mes():
        m = it.load_module("frds.measures")
        C = it.mod_attr(m, "MarginalExpectedShortfall")
        w = anchor(c, it, m, "MarginalExpectedShortfall", "estimate")
        q = t.sym("q", nonneg=True)
        for lab, args, kw, want in (("q-quantile", [q], {}, q), ("q-quantile by keyword", [], {"q": q}, q), ("default 5%", [], {}, const(Fr(1, 20)))):
            o = it.call(C, [a(it, "firm"), a(it, "market")], {})
            got = it.call(it.getattr(o, "estimate"), args, kw)
            c.equal("MES, " + lab, w, it, got, si, si.call(si.mod_attr(s, "mes"), [a(si, "firm"), a(si, "market"), want], {}), DOM)
            got = it.call(it.getattr(o, "estimate"), args, kw)
            c.equal("MES again, " + lab, w, it, got, si, si.call(si.mod_attr(s, "mes"), [a(si, "firm"), a(si, "market"), want], {}), DOM)
    c.attempt("MES", "frds.measures", mes)

    def ses():
        m = it.load_module("frds.measures")
        C = it.mod_attr(m, "SystemicExpectedShortfall")
        w = anchor(c, it, m, "SystemicExpectedShortfall", "estimate")
        x, l = t.sym("mes_firm"), t.sym("lvg_firm")
        nm = ("mes_training_sample", "lvg_training_sample", "ses_training_sample")
        for lab, v in (("default version", []), ("BFLV2012", ["BFLV2012"])):
            for form in ("positional", "keyword"):
                arr = [a(it, k) for k in nm]
                o = it.call(C, arr + [x, l], {}) if form == "positional" else it.call(C, [], dict(zip(nm + ("mes_firm", "lvg_firm"), arr + [x, l])))
                got = it.call(it.getattr(o, "estimate"), v, {})
                c.equal("SES, %s, %s" % (lab, form), w, it, got, si, si.call(si.mod_attr(s, "ses"), [a(si, k) for k in nm] + [x, l], {}), DOM2)
    c.attempt("SES", "frds.measures", ses)
