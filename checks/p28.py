"""P28: SRISK."""
from sa.ctx import *
from sa import npmodel as npm
from checks.lib import *

M = "frds.measures._srisk"
PAR = ("h", "S", "C", "random_seed")
SDOM = Dom(syms={"n": lambda u, m: D(2 + int(u * 4)), "T": lambda u, m: D(2 + int(u * 3)), "k": lambda u, m: u,
                 "W": lambda u, m: D("0.2") + u * 5, "D": lambda u, m: u * 9},
           fns={"@W": lambda u, m, *k: D("0.2") + u * 5, "@D": lambda u, m, *k: u * 9, "@LRMES": lambda u, m, *k: u * 2 - D("0.6")},
           special=False, points=24, strict=True)


def lrmes_fn(it, firm, market, h, S, C, seed):
    return t.fn("@LRMES", npm.enc(it, firm), npm.enc(it, market), *[it.num(x) for x in (h, S, C, seed)])


def init_hook(it, f, args, kw):
    a = bind(it, f, args, kw)
    it.setattr(args[0], "firm_returns", a["firm_returns"])
    it.setattr(args[0], "market_returns", a["market_returns"])
    it.setattr(args[0], "#data", (npm.enc(it, a["firm_returns"]), npm.enc(it, a["market_returns"])))
    return None


def est_hook(it, f, args, kw):
    a = bind(it, f, args, kw)
    data = it.getattr(args[0], "#data")
    return t.fn("@LRMES", data[0], data[1], *[it.num(a[x]) for x in PAR])


def bind(it, f, args, kw):
    while isinstance(f, (BoundM, StaticM, ClassM)):
        f = f.fn
    names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    out = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
    out.update(dict(zip(names, args)))
    out.update(kw)
    return out


HOOKS = {"funcs": {"LongRunMarginalExpectedShortfall.__init__": init_hook, "LongRunMarginalExpectedShortfall.estimate": est_hook},
         "ext": {"spec.lrmes": lambda it, args, kw: lrmes_fn(it, *args)}}


def run(c):
    c.rule("SRISK.estimate is reduced to its value graph with the LRMES estimate as an unknown function of exactly the data and "
           "parameters it is given (its own definition is P27), and compared with the documented capital shortfall per firm and in aggregate.")
    c.assumptions.append("positive market equity, non-negative debt")
    it = c.interp(hooks=HOOKS)
    s, si = c.spec("srisk", c.interp(hooks=HOOKS))
    n, T_ = isym("n", 2), isym("T", 2)
    k, h, S, C, seed = t.sym("k"), isym("h", 1), isym("S", 1), t.sym("C"), isym("seed", 0)
    Wf, Df = t.sym("W", pos=True), t.sym("D", nonneg=True)
    dflt = [const(Fr(8, 100)), const(22), const(10000), const(Fr(-1, 10)), const(42)]

    def go():
        m = it.load_module(M)
        cls = it.mod_attr(m, "SRISK")
        w = anchor(c, it, m, "SRISK", "estimate")
        one = lambda i: [i.alloc(inarr("fr", (T_,))), i.alloc(inarr("mr", (T_,))), Wf, Df]
        many = lambda i: [i.alloc(inarr("fr", (T_, n))), i.alloc(inarr("mr", (T_,))), i.alloc(inarr("W", (n,), pos=True)),
                          i.alloc(inarr("D", (n,), nonneg=True))]
        three = lambda i: [i.alloc(inarr("fr", (T_, const(3)))), i.alloc(inarr("mr", (T_,))), i.alloc(inarr("W", (const(3),), pos=True)),
                           i.alloc(inarr("D", (const(3),), nonneg=True))]
        for lab, mk, fn_ in (("single firm", one, "single"), ("firms", many, "firms"), ("three firms", three, "firms")):
            o = it.call(cls, mk(it), {})
            for agg in (False, True):
                W = lambda par: si.call(si.mod_attr(s, fn_ + ("_aggregate" if agg else "")), mk(si) + par + [Ext("spec.lrmes")], {})
                al = ", aggregate" if agg else ""
                kw = {"aggregate_srisk": True} if agg else {}
                c.equal("%s%s" % (lab, al), w, it, it.call(it.getattr(o, "estimate"), [k, h, S, C, seed] + ([True] if agg else []), {}),
                        si, W([k, h, S, C, seed]), SDOM)
                c.equal("%s%s, keywords" % (lab, al), w, it, it.call(it.getattr(o, "estimate"), [], dict(
                    kw, k=k, lrmes_h=h, lrmes_S=S, lrmes_C=C, lrmes_random_seed=seed)), si, W([k, h, S, C, seed]), SDOM)
                c.equal("%s%s, documented defaults" % (lab, al), w, it, it.call(it.getattr(o, "estimate"), [], kw), si, W(dflt), SDOM)
    c.attempt("SRISK", M, go)
