import ast
from fractions import Fraction as Fr
from decimal import Decimal as D
from sa import terms as t
from sa.terms import T, ZERO, ONE, const, add, sub, mul, Undecided
from sa.vals import *
from sa.compare import Dom, inarr


def isym(name, lo=None, **kw):
    return t.sym(name, isint=True, lo=lo, **kw)


def vb_dom(u, mode, i, k):
    # 0 < lower < upper, as variance_bounds produces them (the columns straddle the typical variance)
    return D("0.05") + u if k == "0" else D("1.1") + u * 3


# the same for bounds given as two scalars
BOUND_SYMS = {"lower": lambda u, m: D("0.05") + u, "upper": lambda u, m: D("1.1") + u * 3, "x": lambda u, m: u * 8 - 2}


def long_n(u, m):
    """series lengths, now and then beyond the 75-observation window"""
    return D(1 + int(u * 8)) if u < D("0.85") else D(74 + int((u - D("0.85")) * 60))


def where_of(c, it, f):
    """file:line of a function value; records it as analysed"""
    while isinstance(f, (BoundM, StaticM, ClassM)):
        f = f.fn
    if isinstance(f, PropV):
        f = f.fn
    if isinstance(f, ClassV):
        p = f.mod.path
        w = "%s:%d %s" % (rel(c, p), f.node.lineno, f.name)
        c.seen(w)
        return w
    if isinstance(f, Func):
        p = f.mod.path if f.mod is not None else "?"
        nm = (f.cls.name + "." if f.cls is not None else "") + f.name
        w = "%s:%d %s" % (rel(c, p), f.node.lineno, nm)
        c.seen(w)
        return w
    return str(f)


def rel(c, p):
    p = str(p)
    return p[len(c.repo) + 1:] if p.startswith(c.repo + "/") else p


def opt_result(it):
    """the model of scipy's OptimizeResult (loaded once per analysis, outside any loop)"""
    import os
    from sa.ctx import VERIF
    m = it.mods.get("spec_opt")
    if m is None or ("v", m.frame.fid, "OptimizeResult") not in it.st:
        m = it.load_source("spec_opt", os.path.join(VERIF, "specs", "opt.py"))
    return it.mod_attr(m, "OptimizeResult")


def anchor(c, it, m, cls, fn=None):
    try:
        v = it.mod_attr(m, cls)
        if fn is not None:
            v = it.getattr(v, fn)
        return where_of(c, it, v)
    except (AbsRaise, Undecided, AttributeError) as e:
        return "%s %s" % (rel(c, m.path), cls + ("." + fn if fn else ""))


def documented_defaults(c, it, f, want):
    """the values an omitted argument takes"""
    w = where_of(c, it, f)
    while isinstance(f, (BoundM, StaticM, ClassM)):
        f = f.fn
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    got = dict(zip(names[len(names) - len(f.defaults):], f.defaults)) if f.defaults else {}
    kd = f.kwdefaults
    if kd:
        got.update(kd if isinstance(kd, dict) else {x.arg: v for x, v in zip(a.kwonlyargs, kd)})
    for k, v in want.items():
        if k not in got:
            c.fail("documented default of %s" % k, w, "%s is now required" % k)
            continue
        g = got[k]
        if isinstance(v, (bool, str)) or v is None:
            ok = g is v or g == v
        else:
            g = it.num(g)
            ok = t.cval(g) == Fr(v)
        c.check("documented default of %s" % k, w, ok, "%s = %s instead of %s" % (k, t.show(g) if isinstance(g, T) else g, v))


# ---------------------------------------------------------------- LRMES with both univariate models and the DCC already estimated
def lr_dom():
    pos = lambda lo, hi: (lambda u, m, *k: D(str(lo)) + u * D(str(hi - lo)))
    s = {}
    for p in ("f", "k"):
        s.update({"omega_" + p: pos(0.05, 0.5), "alpha_" + p: pos(0.02, 0.2), "gamma_" + p: pos(0.02, 0.2),
                  "beta_" + p: pos(0.2, 0.7), "mu_" + p: pos(-1, 1)})
    s.update({"a": pos(0.01, 0.3), "b": pos(0.2, 0.6), "C": pos(-0.04, 0.03), "h": lambda u, m: D(1 + int(u * 4)),
              "S": lambda u, m: D(1 + int(u * 4))})
    e, v = (lambda u, m, *k: u * 6 - 3), (lambda u, m, *k: D("0.3") + u * 3)
    return Dom(syms=s, fns={"@ef": e, "@ek": e, "@sf": v, "@sk": v, "@fr": lambda u, m, *k: u / 5 - D("0.1"), "@mr": lambda u, m, *k: u / 5 - D("0.1"),
                            "@rho": lambda u, m, *k: u * D("1.6") - D("0.8")}, nmax=5, points=24, special=False)


def let_corr(it, args, kw):
    """numpy.corrcoef with its entries as named nodes"""
    from sa import npmodel as npm
    s, g = npm.NPF["numpy.corrcoef"]
    r = g(it, *npm.bind_sig(it, s, args, kw, "numpy.corrcoef"))
    a = it.arr(r)
    return npm.new(it, a.shape, lambda i: t.letT(a.get(i)))


def rho_hook(it, f, args, kw):
    """the fitted conditional correlations, any array in (-1,1) (their own formula is P01/P03's)"""
    if not args:
        return NotImplemented
    m = it.getattr(args[0], "model1")
    n = it.arr(it.getattr(m, "resids")).shape[0]
    return it.alloc(inarr("rho", (n,)))


LR_HOOKS = {"ext": {"numpy.corrcoef": let_corr}, "funcs": {"GARCHModel_DCC.conditional_correlations": rho_hook,
                                                           "GJRGARCHModel_DCC.conditional_correlations": rho_hook}}


def lrmes_estimate(i, C, n):
    o = i.call(C, [i.alloc(inarr("fr", (n,))), i.alloc(inarr("mr", (n,)))], {})
    lrmes_state(i, o, n)
    h, S = isym("h", 1), isym("S", 1)
    return i.call(i.getattr(o, "estimate"), [h, S, t.sym("C"), isym("seed", 0)], {})


def lrmes_state(i, o, n):
    for k, mm in (("f", "firm_model"), ("k", "market_model")):
        u = i.getattr(o, mm)
        i.setattr(u, "estimation_success", ONE)
        i.setattr(u, "resids", i.alloc(inarr("e" + k, (n,))))
        i.setattr(u, "sigma2", i.alloc(inarr("s" + k, (n,), pos=True)))
        p = i.getattr(u, "parameters")
        for f in ("mu", "omega", "alpha", "gamma", "beta"):
            i.setattr(p, f, t.sym(f + "_" + k))
    d = i.getattr(o, "dcc_model")
    i.setattr(d, "estimation_success", ONE)
    p = i.getattr(d, "parameters")
    i.setattr(p, "a", t.sym("a"))
    i.setattr(p, "b", t.sym("b"))
