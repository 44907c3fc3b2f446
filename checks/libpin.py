"""scipy.optimize.minimize as an unknown function of its starting point, for the PIN estimation loop."""
from sa.ctx import *
from checks.lib import *
from checks import fitlib
import itertools

M = "frds.measures._probability_of_informed_trading"
K = ["alpha", "delta", "eB", "eS", "mu"]
FIELDS = ["alpha", "delta", "epsilon_b", "epsilon_s", "mu", "loglikelihood", "pin"]


def outcome(x0):
    ok = t.boolT((("s", "opt_success"),) + tuple(x0))
    return ok, [t.fn("@x", const(i), *x0) for i in range(len(x0))], t.fn("@fun", *x0)


class Run:
    pass


def optimiser(it, args, kw):
    kw = dict(kw)
    names = ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options"]
    for nm, v in zip(names, args):
        kw[nm] = v
    r = Run()
    r.kw, r.it, r.fun = kw, it, kw.get("fun")
    xa = kw.get("args", ())
    r.args = xa if isinstance(xa, tuple) else (xa,)
    x0 = it.arr(kw["x0"])
    n = t.cval(x0.shape[0]) if x0 is not None and x0.ndim == 1 else None
    if n is None:
        it.undecided("starting point of the optimiser")
    r.n = int(n)
    r.x0 = [x0.get((const(i),)) for i in range(r.n)]
    r.x = [t.sym("trial%d" % i, pos=True) for i in range(r.n)]
    for what, f in (("bounds", fitlib.bounds_of), ("cons", fitlib.constraints_of)):
        st = it.st
        it.st = dict(st)
        try:
            setattr(r, what, f(r))
        except Undecided as e:
            setattr(r, what, e)
        it.st = st
    st = it.st
    it.st = dict(st)
    r.trial_f = it.call(r.fun, [it.alloc(it.list_arr(r.x))] + list(r.args), {})
    it.st = st
    it.events.append((it.pcond(), "minimize", r, it.curfile, it.curnode))
    ok, x, f = outcome(r.x0)
    return it.call(opt_result(it),
                   [mkbool(ok), it.alloc(it.list_arr(x)), f, ZERO, "message", isym("nit"), isym("nfev"),
                    it.alloc(it.list_arr(x)), isym("njev")], {})


def spec_minimize(it, args, kw):
    ok, x, f = outcome([it.num(a) for a in args])
    return (mkbool(ok), tuple(x), f)


def interp(c):
    it = c.interp(hooks={"ext": {"scipy.optimize.minimize": optimiser, "scipy.optimize._minimize.minimize": optimiser}})
    opt_result(it)
    return it


def runs(it):
    """[(condition, run)] of the optimiser calls made, loops over a fixed number of candidates expanded"""
    out = []
    for pc, k, r, _, _ in it.events:
        if k != "minimize":
            continue
        bvs = []
        todo = [pc] + r.x0
        while todo:
            for d in todo.pop().deps:
                a = t.ATOMS[d]
                if a.kind == "bv" and a not in bvs:
                    n = t.cval(a.ext) if isinstance(a.ext, T) else None
                    if n is None or n > 1000:
                        raise Undecided("number of optimiser runs")
                    bvs.append(a)
        for v in itertools.product(*[range(int(t.cval(a.ext))) for a in bvs]):
            mp = {a.id: const(x) for a, x in zip(bvs, v)}
            p = t.subst(pc, mp)
            if p is not ZERO:
                out.append((p, [t.subst(x, mp) for x in r.x0], r))
    return out
