"""Model of scipy.optimize.minimize at its interface: an unknown optimiser.

A call is recorded with everything it was given; the objective is evaluated once at an
arbitrary trial point (so the effects of evaluations on the model object are visible),
and the outcome is an arbitrary one: success flag, solution and final objective value are
free symbols of that call."""
from sa.ctx import *
from checks.lib import *


class Run:
    pass


class Opt:
    """hook for minimize; success: None = symbolic, else ONE / ZERO"""

    def __init__(self, c, success=None, trial=True, tag="opt"):
        self.c, self.success, self.trial, self.tag = c, success, trial, tag
        self.runs = []

    def __call__(self, it, args, kw):
        kw = dict(kw)
        names = ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options"]
        for nm, v in zip(names, args):
            kw[nm] = v
        r = Run()
        r.kw = kw
        r.it = it
        r.pc = it.pcond()
        r.fun = kw.get("fun")
        xa = kw.get("args", ())
        if not isinstance(xa, tuple):
            xa = (xa,)
        r.args = xa
        x0 = it.arr(kw["x0"])
        if x0 is None or x0.ndim != 1:
            it.undecided("starting point of the optimiser")
        n = t.cval(x0.shape[0])
        if n is None:
            it.undecided("number of parameters")
        r.n = n = int(n)
        r.x0 = x0
        k = len(self.runs)
        self.runs.append(r)
        nm = "%s%d" % (self.tag, k)
        r.name = nm
        if self.trial:
            r.trial = [t.sym("%s_trial%d" % (nm, i)) for i in range(n)]
            r.trial_f = it.call(r.fun, [it.alloc(it.list_arr(r.trial))] + list(xa), {})
        r.x = [t.sym("%s_x%d" % (nm, i)) for i in range(n)]
        r.f = t.sym("%s_fun" % nm)
        t.NONFINITE.add("%s_fun" % nm)
        r.ok = self.success if self.success is not None else t.boolT((("s", nm + "_success"),))
        for what, f in (("bounds", bounds_of), ("cons", constraints_of)):
            st = it.st
            it.st = dict(st)
            try:
                setattr(r, what, f(r))
            except Undecided as e:
                setattr(r, what, e)
            it.st = st
        return it.call(opt_result(it),
                       [mkbool(r.ok), it.alloc(it.list_arr(r.x)), r.f, t.sym(nm + "_status"), "message",
                        isym(nm + "_nit"), isym(nm + "_nfev"), it.alloc(it.list_arr(r.x)), isym(nm + "_njev")], {})


def bounds_of(r):
    """[(lo, hi)] with None for absent"""
    it = r.it
    b = r.kw.get("bounds")
    if b is None:
        return None
    out = []
    if isinstance(b, Ref) and isinstance(it.content(b), Inst):
        lb, ub = it.getattr(b, "lb"), it.getattr(b, "ub")
        A, B = it.arr(lb), it.arr(ub)
        items = [(A.get((const(i),)), B.get((const(i),))) for i in range(r.n)]
    else:
        items = [tuple(it.as_items(x)) for x in it.as_items(b)]
    for lo, hi in items:
        out.append((norm_b(lo), norm_b(hi)))
    return out


def norm_b(v):
    if v is None:
        return None
    if isinstance(v, T):
        if t._is_inf(v):
            return None
        c = t.cval(v)
        if c is None:
            raise Undecided("symbolic bound %s" % t.show(v))
        return c
    raise Undecided("bound %r" % (v,))


def constraints_of(r):
    """[(type, value at r.x)]"""
    it = r.it
    cs = r.kw.get("constraints")
    if cs is None:
        return []
    if isinstance(cs, Ref) and isinstance(it.content(cs), PyDict):
        cs = [cs]
    else:
        cs = it.as_items(cs)
    out = []
    for cd in cs:
        d = it.content(cd)
        if not isinstance(d, PyDict):
            raise Undecided("constraint %r" % (d,))
        d = d.items
        a = d.get("args", ())
        v = it.call(d["fun"], [it.alloc(it.list_arr(r.x))] + list(a), {})
        arr = it.arr(v)
        if arr is not None and not isinstance(v, T):
            if arr.ndim == 0:
                vs = [arr.get(())]
            else:
                vs = [arr.get((const(i),)) for i in range(int(t.cval(arr.shape[0])))]
        else:
            vs = [v]
        for x in vs:
            out.append((d["type"], x))
    return out


UNI = (("GARCHModel", ["mu", "omega", "alpha", "beta"]), ("GJRGARCHModel", ["mu", "omega", "alpha", "gamma", "beta"]))
BI = ["mu1", "omega1", "alpha1", "beta1", "mu2", "omega2", "alpha2", "beta2", "rho"]
G = "frds.algorithms._garch"
M = "frds.algorithms._mgarch"


def start_hook(it, f, args, kw):
    """starting values: any values (which ones is P07)"""
    if f.cls.name.endswith("DCC"):
        return (t.sym("start_a"), t.sym("start_b"))
    k = 4 if it.obj_class(args[0]).name.startswith("GJR") else 3
    return it.alloc(PyList([t.sym("start%d" % i) for i in range(k)]))


START = {k + ".starting_values": start_hook for k in ("GARCHModel", "GJRGARCHModel", "GARCHModel_DCC", "GJRGARCHModel_DCC")}


def fit_interp(c, opt, native=False, **funcs):
    h = {"ext": {"scipy.optimize.minimize": opt, "scipy.optimize._minimize.minimize": opt}, "funcs": dict(START)}
    h["funcs"].update(funcs)
    it = c.interp(native=native, hooks=h)
    opt_result(it)
    return it


def series(it, k=""):
    n = isym("n", 2)
    return it.alloc(inarr("y" + k, (n,)))
