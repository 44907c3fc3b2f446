"""P33: disagreeing input shapes and undocumented options are rejected."""
from sa.ctx import *
from sa import npmodel as npm
from checks.lib import *

M = "frds.measures."


def run(c):
    c.rule("Every measure is analysed on arrays of symbolic, provably different shapes (shorter, longer, length one, scalar, extra axis): each "
           "path must end in an exception; with equal shapes at least one path must return. Options outside the documented ones likewise.")
    c.assumptions.append("measures relating arrays: spreads, price impact, order-book slopes, MES, SES, LRMES, SRISK, PIN, DIP, Kyle's lambda")
    for f in (spreads, lob, classes, srisk, options):
        c.attempt(f.__name__, M, lambda: f(c))


def sizes():
    n = add(isym("n", 1), ONE)
    return n, add(n, isym("e", 1))          # n >= 2, and something longer


def alts(n, m, sh):
    """shapes that disagree with sh but could be broadcast or truncated to it"""
    if len(sh) == 1:
        return [("length one", (ONE,)), ("longer", (m,)), ("scalar", ()), ("row", (ONE, n)), ("column", (n, ONE))]
    a, b = sh
    return [("one row", (ONE, b)), ("more rows", (m, b)), ("one column", (a, ONE)), ("more columns", (a, add(b, ONE))), ("one axis", (b,))]


def rejected(c, name, w, it, call):
    """all paths raise; returns None when undecidable"""
    def go():
        try:
            call()
        except AbsRaise as e:
            c.ok(name, w, "raises %s on every path" % e.name)
            return
        c.fail(name, w, "no error is raised: a value is returned")
    c.attempt(name, w, go)


def subsets(params):
    """non-empty proper subsets of arguments that are documented with the same shape"""
    import itertools
    out = []
    for r in range(1, len(params)):
        for ss in itertools.combinations(params, r):
            if len({params[q] for q in ss}) == 1:
                out.append(ss)
    return out


def mism(c, it, w, label, params, make, call, skip=lambda p, lab, sh: False):
    """params: {name: shape}; every group of arguments in turn gets a shape that disagrees with the others"""
    n, m = sizes()
    for ss in subsets(params):
        for lab, sh in alts(n, m, params[ss[0]]):
            if skip(ss, lab, sh):
                continue

            def go():
                return call({q: make(q, params[q] if q not in ss else sh) for q in params})
            rejected(c, "%s: %s of %s" % (label, ", ".join(ss), lab), w, it, go)


def accepts(c, it, w, label, call):
    def go():
        try:
            call()
        except AbsRaise as e:
            c.fail(label + ": matching shapes accepted", w, "matching shapes always raise %s" % e.name)
            return
        c.ok(label + ": matching shapes accepted", w, "a path returns")
    c.attempt(label + ": matching shapes accepted", w, go)


def spreads(c):
    n, m = sizes()
    for mod, fn, pars in (("spread", "quoted_spread", ("bid", "ask")), ("spread", "effective_spread", ("price", "midpoint", "volume")),
                          ("spread", "realized_spread", ("price", "midpoint_later", "midpoint", "volume")),
                          ("price_impact", "simple_price_impact", ("price", "midpoint_later", "midpoint", "volume"))):
        it = c.interp()
        mm = it.load_module(M + mod)
        w = anchor(c, it, mm, fn)
        f = it.mod_attr(mm, fn)
        for pct in (True, False):
            for d in ((False, True) if fn != "quoted_spread" else (False,)):
                ps = {p: (n,) for p in pars + (("trade_direction",) if d else ())}
                lab = "%s, %s%s" % (fn, "percentage" if pct else "log", ", with directions" if d else "")
                mk = lambda q, sh: it.alloc(inarr(q, sh, pos=q not in ("volume", "trade_direction"))) if sh else t.sym(q, pos=True)
                call = lambda a: it.call(f, [], dict(a, pct_spread=ONE if pct else ZERO))
                accepts(c, it, w, lab, lambda: call({q: mk(q, ps[q]) for q in ps}))
                mism(c, it, w, lab, ps, mk, call)


def lob(c):
    n, m = sizes()
    it = c.interp()
    mm = it.load_module(M + "lob_slope")
    five = const(5)
    for fn, ps in (("DGGW_ask_slope", {"ask_size": (n, five), "ask_price_highest_level": (n,), "mid_point": (n,)}),
                   ("DGGW_bid_slope", {"bid_size": (n, five), "bid_price_highest_level": (n,), "mid_point": (n,)}),
                   ("DGGW_bid_side_slope_difference", {"bid_size": (n, five), "bid_price": (n, five)}),
                   ("DGGW_ask_side_slope_difference", {"ask_size": (n, five), "ask_price": (n, five)}),
                   ("DGGW_scaled_depth_difference", {"bid_size": (n, five), "ask_size": (n, five)})):
        w = anchor(c, it, mm, fn)
        f = it.mod_attr(mm, fn)
        mk = lambda q, sh: it.alloc(inarr(q, sh, pos=True)) if sh else t.sym(q, pos=True)
        call = lambda a: it.call(f, [], dict(a))
        accepts(c, it, w, fn, lambda: call({q: mk(q, ps[q]) for q in ps}))
        # any number of levels above one is documented for the slopes
        mism(c, it, w, fn, ps, mk, call, skip=lambda ss, lab, sh: "slope" in fn and "difference" not in fn and len(sh) == 2 and lab == "more columns")


def classes(c):
    n, m = sizes()
    for mod, cls, ps, scal in (("_marginal_expected_shortfall", "MarginalExpectedShortfall", {"firm_returns": (n,), "market_returns": (n,)}, ()),
                               ("_systemic_expected_shortfall", "SystemicExpectedShortfall",
                                {"mes_training_sample": (n,), "lvg_training_sample": (n,), "ses_training_sample": (n,)}, ("mes_firm", "lvg_firm")),
                               ("_long_run_mes", "LongRunMarginalExpectedShortfall", {"firm_returns": (n,), "market_returns": (n,)}, None),
                               ("_probability_of_informed_trading", "PIN", {"B": (n,), "S": (n,)}, None),
                               ("_distress_insurance_premium", "DistressInsurancePremium", {"default_prob": (n,), "correlations": (n, n)}, ()),
                               ("_kyle_lambda", "kyle_lambda", {"returns": (n,), "signed_dollar_volume": (n,)}, "fn")):
        it = c.interp()
        mm = it.load_module(M + mod)
        w = anchor(c, it, mm, cls)
        C = it.mod_attr(mm, cls)
        mk = lambda q, sh: it.alloc(inarr(q, sh)) if sh else t.sym(q)

        def call(a):
            kw = dict(a)
            if scal not in (None, "fn"):
                kw.update({k: t.sym(k) for k in scal})
            o = it.call(C, [], kw)
            if scal == () or scal:
                if scal != "fn":
                    # the constructor may leave the check to the computation
                    it.call(it.getattr(o, "estimate"), [], {})
            return o
        if cls not in ("DistressInsurancePremium",):
            accepts(c, it, w, cls, lambda: call({q: mk(q, ps[q]) for q in ps}))
        mism(c, it, w, cls, ps, mk, call, 
             # an array of one-element arrays stands for the array itself
             skip=lambda ss, lab, sh: cls[0] == "D" and ss[0] == "default_prob" and lab in ("row", "column", "scalar"))


def srisk(c):
    n, m = sizes()
    it = c.interp()
    mm = it.load_module(M + "_srisk")
    w = anchor(c, it, mm, "SRISK")
    C = it.mod_attr(mm, "SRISK")
    k = const(3)

    def call(fr, mr, W, Dd):
        mk = lambda q, sh: it.alloc(inarr(q, sh, pos=q in "WD")) if sh else t.sym(q, pos=q in "WD")
        return it.call(C, [], {"firm_returns": mk("fr", fr), "market_returns": mk("mr", mr), "W": mk("W", W), "D": mk("D", Dd)})
    accepts(c, it, w, "SRISK, one firm", lambda: call((n,), (n,), (), ()))
    accepts(c, it, w, "SRISK, several firms", lambda: call((n, k), (n,), (k,), (k,)))
    for lab, a in (("one firm, market longer", ((n,), (m,), (), ())), ("one firm, market of length one", ((n,), (ONE,), (), ())),
                   ("one firm, returns of length one", ((ONE,), (n,), (), ())), ("one firm, equity values of several firms", ((n,), (n,), (k,), ())),
                   ("one firm, debt values of several firms", ((n,), (n,), (), (k,))), ("one firm, one-element equity and debt arrays", ((n,), (n,), (ONE,), (ONE,))),
                   ("several firms, market longer", ((n, k), (m,), (k,), (k,))), ("several firms, market of length one", ((n, k), (ONE,), (k,), (k,))),
                   ("several firms, single equity value", ((n, k), (n,), (), (k,))), ("several firms, single debt value", ((n, k), (n,), (k,), ())),
                   ("several firms, single equity and debt values", ((n, k), (n,), (), ())), ("several firms, one-element equity", ((n, k), (n,), (ONE,), (k,))),
                   ("several firms, one-element debt", ((n, k), (n,), (k,), (ONE,))), ("several firms, one-element equity and debt", ((n, k), (n,), (ONE,), (ONE,))),
                   ("several firms, equity and debt of more firms", ((n, k), (n,), (const(4),), (const(4),))),
                   ("several firms, equity as a column", ((n, k), (n,), (k, ONE), (k, ONE)))):
        rejected(c, "SRISK: " + lab, w, it, lambda: call(*a))


def options(c):
    n, m = sizes()
    it = c.interp()
    A = lambda q: it.alloc(inarr(q, (n,)))
    mm = it.load_module(M + "_marginal_expected_shortfall")
    w = anchor(c, it, mm, "MarginalExpectedShortfall", "estimate")
    o = it.call(it.mod_attr(mm, "MarginalExpectedShortfall"), [A("firm_returns"), A("market_returns")], {})
    p = t.sym("p", pos=True)
    for lab, q in (("above one", add(ONE, p)), ("negative", t.neg(p)), ("1.01", const(Fr(101, 100))), ("-0.01", const(Fr(-1, 100)))):
        rejected(c, "MES quantile %s" % lab, w, it, lambda: it.call(it.getattr(o, "estimate"), [q], {}))
    for q in (0, 1, Fr(1, 20)):
        accepts(c, it, w, "MES quantile %s" % q, lambda: it.call(it.getattr(o, "estimate"), [const(q)], {}))
    it = c.interp()
    mm = it.load_module(M + "_systemic_expected_shortfall")
    w = anchor(c, it, mm, "SystemicExpectedShortfall", "estimate")
    B = lambda q: it.alloc(inarr(q, (n,)))
    o = it.call(it.mod_attr(mm, "SystemicExpectedShortfall"), [B("a"), B("b"), B("d"), t.sym("x"), t.sym("y")], {})
    for v in ("bflv2012", "BFLV2011", "", "APPR", "APPR2017"):
        rejected(c, "SES version %r" % v, w, it, lambda: it.call(it.getattr(o, "estimate"), [v], {}))
    it = c.interp()
    mm = it.load_module(M + "_probability_of_informed_trading")
    w = anchor(c, it, mm, "PIN", "estimate")
    o = it.call(it.mod_attr(mm, "PIN"), [it.alloc(inarr("B", (n,))), it.alloc(inarr("S", (n,)))], {})
    for v in ("eho2010", "LK2012", "", "EHO"):
        rejected(c, "PIN method %r" % v, w, it, lambda: it.call(it.getattr(o, "estimate"), [v], {}))
    for bad in ("list", "tuple"):
        mk = (lambda q: it.alloc(PyList([t.sym(q + str(i)) for i in range(3)]))) if bad == "list" else (lambda q: tuple(t.sym(q + str(i)) for i in range(3)))
        rejected(c, "PIN trades given as a %s" % bad, w, it, lambda: it.call(it.mod_attr(mm, "PIN"), [mk("B"), mk("S")], {}))
