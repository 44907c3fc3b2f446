"""P30: modified-Merton bank valuation."""
from sa.ctx import *
from sa import npmodel as npm
from checks.lib import *

B = "frds.measures.modified_merton."
rng = lambda lo, hi: (lambda u, m, *k: D(str(lo)) + u * D(str(hi - lo)))
DOM = Dom(syms={"r": rng(-.02, .08), "bookF": rng(.5, .9), "D": rng(.3, .9), "rho": rng(.1, .9), "ltv": rng(.5, .95), "sig": rng(.1, .4),
                "d": rng(0, .03), "y": rng(0, .02), "g": rng(.1, .9), "S": lambda u, m: D(2 + int(u * 3)), "G": lambda u, m: D(1 + int(u * 2))},
          fns={"@w": rng(-2, 2), "@fs": rng(-1, 1), "@smooth": rng(.2, 1.4), "fsolve": rng(.02, .2)}, special=False, nmax=96, points=8)
OUT = ["Lt", "Bt", "Et", "LH", "BH", "EH", "sigEt", "mFt", "default", "mdef", "face", "FH", "Gt", "mu", "F", "sigLt"]
SPEC = ["Lt", "Bt", "Et", "LH", "BH", "EH", "sigEt", "mFt", "default", "mdef", "face", "FH", "Gt", "sigLt", "mu", "F"]
POS = ("bookF", "D", "rho", "ltv", "sig", "S")
sy = lambda p: t.sym(p, pos=p in POS)


def smooth_fn(it, x, w):
    a = npm.as_arr(it, x)
    n = a.shape[0]

    def el(i):
        b = t.fresh_bv(n, tag="s")
        return t.fn("@smooth", t.lam(it.num(a.get((t.atomT(b),))), b, n), it.num(w), i[0])
    return it.alloc(Arr((n,), el, "f", "nd"))


def hook(it, f, args, kw):
    b = dict(zip(("x", "w"), args))
    b.update(kw)
    return smooth_fn(it, b["x"], b["w"])


HOOKS = {"funcs": {"fftsmooth": hook}, "ext": {"spec.smooth": lambda it, a, k: smooth_fn(it, *a)}}


def run(c):
    c.rule("Both valuations are reduced to value graphs for symbolic parameters, shocks and numbers of simulated paths (the smoother an unknown "
           "function of the sorted payoffs, the promised yield the solution of the yield equation) and compared with the reference; the balance-sheet "
           "identities are decided on the code's own returned values.")
    c.assumptions.append("loan and debt maturities on the cohort grid (H N / T integral), H below T; distinct simulated asset values")
    cfgs = [(2, 4, 2), (3, 6, 2), (4, 4, 3)] + ([(2, 2, 1), (3, 3, 2), (5, 10, 8), (5, 5, 1), (6, 3, 1)] if c.tier != "quick" else [])
    for mod, fn_, sp in (("mod_merton_computation", "mod_merton_computation", "bank"), ("mod_single_cohort_computation", "mod_single_cohort_computation", "single")):
        for N, T_, H in cfgs:
            c.attempt("%s, N=%d T=%d H=%d" % (fn_, N, T_, H), B + mod, lambda: one(c, mod, fn_, sp, N, T_, H))


def one(c, mod, fn_, sp, N, T_, H):
    it = c.interp(hooks=HOOKS)
    s, si = c.spec("merton", c.interp(hooks=HOOKS))
    m = it.load_module(B + mod)
    w = anchor(c, it, m, fn_)
    f = it.mod_attr(m, fn_)
    S_, G = isym("S", 2), isym("G", 1)
    W = lambda i: i.alloc(inarr("w", (S_, const(3 * N if sp == "bank" else N))))
    pv = [sy("r"), const(T_), sy("bookF"), const(H), sy("D"), sy("rho"), sy("ltv"), sy("sig"), sy("d"), sy("y"), sy("g")]
    vec = lambda i: i.alloc(inarr("fs", (G,)))
    forms = {"vector": vec, "column": lambda i: i.alloc(Arr((G, ONE), lambda k: t.fn("@fs", k[0]), "f", "nd"))}
    full = N == 2
    for form in forms:
        for ng in (11, 10):
            for own in (False, True):
                if (form, ng, own) not in ((("vector", 11, False), ("vector", 10, True), ("column", 11, False)) if full else (("column", 10, False),)):
                    continue
                seed = isym("seed", 0)
                args = [forms[form](it), it.alloc(PyList(pv[:ng])), const(N), S_]
                got = it.as_items(it.call(f, args + ([] if own else [W(it)]), {"random_seed": seed} if own else {}))
                lab = "%s, N=%d T=%d H=%d, shocks as %s%s%s" % (fn_, N, T_, H, form, "" if ng == 11 else ", no bailout probability",
                                                                ", own simulation" if own else "")
                if not c.check(lab + ": all quantities returned", w, len(got) == len(OUT), "%d values" % len(got)):
                    continue
                gd = dict(zip(OUT, got))
                sw = si.call(si.mod_attr(s, "shocks"), [seed, S_, const(3 * N if sp == "bank" else N)], {}) if own else W(si)
                want = si.as_items(si.call(si.mod_attr(s, sp), [vec(si)] + pv[:10] + [pv[10] if ng == 11 else ZERO, const(N), S_, sw,
                                                                                      Ext("spec.smooth")], {}))
                wd = dict(zip(SPEC, want))
                for k in OUT:
                    c.equal("%s: %s" % (lab, k), w, it, gd[k], si, wd[k], DOM)
                A = lambda a, b: npm.binop(it, "Add", a, b)
                c.equal(lab + ": assets are debt plus equity at t", w, it, gd["Lt"], it, A(gd["Bt"], gd["Et"]), DOM)
                c.equal(lab + ": assets are debt plus equity at t+H", w, it, gd["LH"], it, A(gd["BH"], gd["EH"]), DOM)
