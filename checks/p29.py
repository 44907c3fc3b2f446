"""P29: modified-Merton building blocks."""
from sa.ctx import *
from checks.lib import *

B = "frds.measures.modified_merton."
rng = lambda lo, hi: (lambda u, m, *k: D(str(lo)) + u * D(str(hi - lo)))
DOM = Dom(syms={"F": rng(.3, 2), "ival": rng(-.5, .7), "rho": rng(.05, .95), "sig": rng(.05, .6), "T": rng(.5, 10), "r": rng(-.02, .1),
                "d": rng(0, .05), "mu": rng(0, .2), "A": rng(.3, 2), "E": rng(.1, 1), "D": rng(.3, 2), "sigE": rng(.1, 1),
                "f": rng(-1, 1), "n": lambda u, m: D(1 + int(u * 3)), "m": lambda u, m: D(1 + int(u * 3)),
                "h": lambda u, m: D(1 + int(u * 3)), "e": lambda u, m: D(1 + int(u * 4))},
          fns={"@f": rng(-1, 1), "@F": rng(.3, 2), "@ival": rng(-.5, .7)}, special=False, nmax=64)
POS = ("F", "T", "sig", "rho", "A", "E", "D", "sigE")
sy = lambda p: t.sym(p, pos=p in POS)


def run(c):
    c.rule("Each building block is reduced to its value graph for symbolic arguments, scalar and array-valued, and compared with the "
           "reference formula; the smoother's Fourier transforms are replaced by the circular convolution they compute.")
    c.assumptions.append("face, asset and equity values, maturities and volatilities positive, correlation inside (0,1); smoother lengths "
                         "even with more observations than the window")
    it = c.interp()
    s, si = c.spec("merton")
    S = lambda f, *a: si.call(si.mod_attr(s, f), list(a), {})

    def payoff():
        m = it.load_module(B + "loan_payoff")
        w = anchor(c, it, m, "loan_payoff")
        f = it.mod_attr(m, "loan_payoff")
        names = ["F", "f", "ival", "rho", "sig", "T"]
        n, k = isym("n", 1), isym("m", 1)
        for lab, arrs, sh in (("scalars", (), ()), ("array of factors", ("f",), (n, k)), ("arrays of factors and face values", ("f", "F"), (n, k)),
                              ("arrays of factors, face values and asset values", ("f", "F", "ival"), (n, k)),
                              ("three-dimensional arrays", ("f", "F", "ival"), (n, const(2), k))):
            a = [it.alloc(inarr(x, sh, pos=x == "F")) if x in arrs else sy(x) for x in names]
            for form in ("positional", "keyword"):
                got = it.call(f, a if form == "positional" else [], {} if form == "positional" else dict(zip(names, a)))

                def el(i):
                    return si.num(S("payoff", *[t.fn("@" + x, *i, pos=x == "F") if x in arrs else sy(x) for x in names]))
                want = si.alloc(Arr(sh, el, "f", "nd")) if sh else el(())
                c.equal("loan payoff, %s, %s" % (lab, form), w, it, got, si, want, DOM)
    c.attempt("loan_payoff", B + "loan_payoff", payoff)

    def face():
        m = it.load_module(B + "find_face_value_indiv")
        w = anchor(c, it, m, "find_face_value_indiv")
        f = it.mod_attr(m, "find_face_value_indiv")
        names = ["mu", "F", "ival", "sig", "T", "r", "d"]
        a = [sy(x) for x in names]
        c.equal("promised-yield error", w, it, it.call(f, a, {}), si, S("face_value_error", *a), DOM)
        c.equal("promised-yield error, keywords", w, it, it.call(f, [], dict(zip(names, a))), si, S("face_value_error", *a), DOM)
        one = lambda x: it.alloc(it.list_arr([x]))
        got = it.num(it.getitem(it.call(f, [one(a[0]), one(a[1])] + a[2:], {}), ZERO))
        c.equal("promised-yield error, one-element vector as a solver passes", w, it, got, si, S("face_value_error", *a), DOM)
    c.attempt("find_face_value_indiv", B + "find_face_value_indiv", face)

    def merton():
        m = it.load_module(B + "merton_solution")
        w = anchor(c, it, m, "merton_solution")
        f = it.mod_attr(m, "merton_solution")
        names = ["E", "D", "r", "d", "T", "sigE"]
        a = [sy(x) for x in names]
        A, sg = sy("A"), sy("sig")
        for lab, x in (("tuple", (A, sg)), ("list", it.alloc(PyList([A, sg]))), ("array", it.alloc(it.list_arr([A, sg])))):
            r = it.as_items(it.call(f, [x] + a, {}))
            want = si.as_items(S("merton", A, sg, *a))
            for q, g, v in zip(("equity value", "equity volatility"), r, want):
                c.equal("Merton %s error, estimates as %s" % (q, lab), w, it, g, si, v, DOM)
            c.check("two errors (%s)" % lab, w, len(r) == 2, "%d" % len(r))
        # an estimate that is not admissible is penalised in proportion to its square
        sm, Am = neg(t.sym("ns", pos=True)), neg(t.sym("nA", pos=True))
        for lab, x, pen in (("negative volatility", (A, sm), mul(sm, sm)), ("negative asset value", (Am, sg), mul(Am, Am))):
            r = it.as_items(it.call(f, [x] + a, {}))
            big = const(9999999)
            for q, g in zip(("equity value", "equity volatility"), r):
                g = it.num(g)
                # limits of the option formula at the boundary are degenerate; only the penalty's presence is decidable
                ok = penalised(g, pen, big)
                c.check("%s penalised in %s error" % (lab, q), w, ok, "the error does not contain the reference penalty 9999999 %s^2: %s" % (
                    "sig" if x[1] is sm else "A", t.show(g)[:160]))
    c.attempt("merton_solution", B + "merton_solution", merton)

    def smooth():
        m = it.load_module(B + "fftsmooth")
        w = anchor(c, it, m, "fftsmooth")
        f = it.mod_attr(m, "fftsmooth")
        h, e = isym("h", 1), isym("e", 1)
        n = mul(const(2), add(h, e))
        got = it.call(f, [it.alloc(inarr("f", (n,))), mul(const(2), h)], {})
        c.equal("smoother, symbolic length and window", w, it, got, si, S("smooth", si.alloc(inarr("f", (n,))), h), DOM)
        for nn, hh in ((6, 1), (8, 2), (12, 2), (12, 3)):
            got = it.call(f, [it.alloc(inarr("f", (const(nn),))), const(2 * hh)], {})
            c.equal("smoother, %d observations, window %d" % (nn, 2 * hh), w, it, got, si, S("smooth", si.alloc(inarr("f", (const(nn),))), const(hh)), DOM)
    c.attempt("fftsmooth", B + "fftsmooth", smooth)


def penalised(g, pen, big):
    """the difference between the value with the penalty present and the value without it"""
    want = mul(big, pen)
    return all(g.num.get(k) == v for k, v in want.num.items())


def neg(x):
    return t.neg(x)
