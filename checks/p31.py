"""P31: modified-Merton lookup tables and solver error."""
from sa.ctx import *
from sa import npmodel as npm
from checks.lib import *
from checks.p30 import OUT

B = "frds.measures.modified_merton."
rng = lambda lo, hi: (lambda u, m, *k: D(str(lo)) + u * D(str(hi - lo)))
NAMES = ["r", "T", "bookF", "H", "D", "rho", "ltv", "sig", "d", "y"]
DOM = Dom(syms={k: rng(0.1, 1.5) for k in ("d", "y", "T", "H", "bookD", "rho", "ltv", "fs0", "E", "sigE", "F0", "r", "D", "sig")},
          fns={"@" + k: rng(0.1, 1.2) for k in ("xfs", "xr", "xF", "xsig")}, nmax=4, points=12, special=False)


def computation(it, f, args, kw):
    """the valuation as an unknown function of its shocks, parameters and simulated paths"""
    b = dict(zip(("fs", "param", "N", "Nsim2", "w", "random_seed"), args))
    b.update(kw)
    fs = npm.as_arr(it, b["fs"])
    if not fs.shape:
        raise AbsRaise("IndexError")
    n = fs.shape[0]
    if len(fs.shape) == 2:
        if fs.shape[1] is not ONE and not it.ctx_eq(fs.shape[1], ONE):
            raise Undecided("shocks with several columns")
    z = [ZERO] * (len(fs.shape) - 1)
    ps = [it.num(x) for x in it.as_items(b["param"])]
    if len(ps) < 10:
        raise AbsRaise("IndexError")
    ps += [ZERO] * (11 - len(ps))
    i = t.fresh_bv(n, tag="g")
    key = [t.lam(it.num(fs.get((t.atomT(i),) + tuple(z))), i, n)] + ps + [it.num(b["N"]), it.num(b["Nsim2"])]
    w = b.get("w")
    if w is None:
        key += [const(-1), it.num(b.get("random_seed", ONE))]
    else:
        w = npm.as_arr(it, w)
        p, q = t.fresh_bv(w.shape[0], tag="p"), t.fresh_bv(w.shape[1], tag="q")
        key += [t.lam(t.lam(it.num(w.get((t.atomT(p), t.atomT(q)))), q, w.shape[1]), p, w.shape[0]), ZERO]
    S = it.num(b["Nsim2"])
    out = []
    for k in OUT:
        if k in ("mu", "F"):
            out.append(t.fn("@@" + k, *key))
        elif k in ("LH", "BH", "EH", "FH", "face", "default"):
            out.append(it.alloc(Arr((S, n), lambda x, k=k: t.fn("@@" + k, *(key + list(x))), "f", "nd")))
        else:
            out.append(it.alloc(Arr((n,), lambda x, k=k: t.fn("@@" + k, *(key + list(x))), "f", "nd")))
    return tuple(out)


def run(c):
    c.rule("The table builders are reduced to value graphs with the valuation as an unknown function of (shocks, parameters, simulated "
           "paths); every cell of every table is compared, for symbolic grid sizes, with the documented application of that function.")
    for mod, comp, rows in (("mod_merton_create_lookup", "mod_merton_computation", 3), ("mod_single_merton_create_lookup", "mod_single_cohort_computation", 3)):
        c.attempt(mod, B + mod, lambda: table(c, mod, comp))
    c.attempt("mod_single_cohort_solution", B + "mod_single_cohort_solution", lambda: solver(c))


def table(c, mod, comp):
    hooks = {"funcs": {comp: computation}}
    it = c.interp(hooks=hooks)
    si = c.interp(hooks=hooks)
    m = it.load_module(B + mod)
    w = anchor(c, it, m, mod)
    f = it.mod_attr(m, mod)
    s, _ = c.spec("merton", si)
    sc = {k: t.sym(k) for k in ("d", "y", "T", "H", "bookD", "rho", "ltv")}
    for lab, dims in (("symbolic grid sizes", tuple(isym(x, 1) for x in "GJKQ")), ("one volatility and rate", (isym("G", 1), ONE, ONE, isym("Q", 1))),
                      ("2 x 2 x 3 grid", (const(2), const(2), const(2), const(3)))):
        G, J, K, Q = dims
        N, S = isym("N", 1), isym("S", 1)
        grid = {k: it.alloc(inarr(k, dims)) for k in ("xfs", "xr", "xF", "xsig")}
        args = [sc["d"], sc["y"], sc["T"], sc["H"], sc["bookD"], sc["rho"], sc["ltv"], grid["xfs"], grid["xr"], grid["xF"], grid["xsig"], N, S]
        got = it.as_items(it.call(f, args, {}))
        if not c.check("%s, %s: six tables" % (mod, lab), w, len(got) == 6, "%d tables" % len(got)):
            continue
        wv = npm.as_arr(si, si.call(si.mod_attr(s, "lookup_shocks"), [N, S], {}))
        fs = si.alloc(Arr((G,), lambda x: t.fn("@xfs", x[0], ZERO, ZERO, ZERO), "f", "nd"))

        def cell(k):
            def el(x):
                g, j, kk, q = x
                at = lambda n: t.fn("@" + n, ZERO, j, kk, q)
                r = at("xr")
                pv = [r, sc["T"], at("xF"), sc["H"], mul(sc["bookD"], t.expT(mul(r, sc["H"]))), sc["rho"], sc["ltv"], at("xsig"), sc["d"], sc["y"]]
                res = computation(si, None, [fs, si.alloc(PyList(pv)), N, S, si.alloc(wv)], {})
                return si.num(npm.as_arr(si, res[OUT.index(k)]).get((g,)))
            return si.alloc(Arr(dims, el, "f", "nd"))
        for g, (nm, k) in zip(got, (("asset values", "Lt"), ("debt values", "Bt"), ("equity values", "Et"), ("borrower asset values", "mFt"),
                                    ("default probabilities", "mdef"), ("equity volatilities", "sigEt"))):
            c.equal("%s, %s: table of %s" % (mod, lab, nm), w, it, g, si, cell(k), DOM)


def solver(c):
    hooks = {"funcs": {"mod_single_cohort_computation": computation}}
    it, si = c.interp(hooks=hooks), c.interp(hooks=hooks)
    m = it.load_module(B + "mod_single_cohort_solution")
    w = anchor(c, it, m, "mod_single_cohort_solution")
    f = it.mod_attr(m, "mod_single_cohort_solution")
    N, S = isym("N", 1), isym("S", 1)
    for ng in (10, 11):
        pv = [t.sym(k) for k in NAMES] + ([t.sym("g")] if ng == 11 else [])
        for lab, mk in (("tuple", lambda a, b: (a, b)), ("list", lambda a, b: it.alloc(PyList([a, b]))), ("array", lambda a, b: it.alloc(it.list_arr([a, b])))):
            fs0, F0 = t.sym("fs0"), t.sym("F0")
            param = it.alloc(PyList(list(pv)))
            E, sE = t.sym("E"), t.sym("sigE")
            got = it.call(f, [mk(fs0, F0), param, N, S, E, sE], {})
            got = it.as_items(got)
            n = "solver error, unknowns as %s, %d parameters" % (lab, ng)
            if not c.check(n + ": two errors", w, len(got) == 2, "%d" % len(got)):
                continue
            res = computation(si, None, [si.alloc(si.list_arr([fs0])), si.alloc(PyList(pv[:2] + [F0] + pv[3:])), N, S], {})
            val = lambda k: si.num(npm.as_arr(si, res[OUT.index(k)]).get((ZERO,)))
            c.equal(n + ": equity value", w, it, got[0], si, t.sub(E, val("Et")), DOM)
            c.equal(n + ": equity volatility", w, it, got[1], si, t.sub(sE, val("sigEt")), DOM)
            now = it.as_items(param)
            c.check(n + ": caller's parameters unchanged", w, len(now) == ng and all(x is y for x, y in zip(now, pv)),
                    "the caller's parameter list is overwritten")
