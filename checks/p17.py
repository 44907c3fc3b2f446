"""P17: spreads and price impact."""
from sa.ctx import *
from checks.lib import *

SP, PI = "frds.measures.spread", "frds.measures.price_impact"


def qdir(u, m, *k):
    return D(1) if u < D("0.5") else D(-1)


def vol(u, m, *k):
    return D(0) if u < D("0.35") else u * 9


DOM = Dom(fns={"@q": qdir, "@volume": vol}, syms={"n": lambda u, m: D(1 + int(u * 4))})


def inputs(it, n):
    p = lambda s: it.alloc(inarr(s, (n,), pos=True))
    return {"price": p("price"), "midpoint": p("mid"), "midpoint_later": p("later"),
            "volume": it.alloc(inarr("volume", (n,), nonneg=True)), "q": it.alloc(inarr("q", (n,)))}


def forms(it, a, form):
    """the caller's array as another array-like (fixed length)"""
    if form == "array":
        return a
    xs = it.as_items(a)
    return it.alloc(PyList(list(xs))) if form == "list" else tuple(xs)


def run(c):
    c.rule("Each measure is reduced to its value graph for a symbolic number of trades and every option combination, and compared "
           "with the documented formula; with directions, effective = realized + impact is compared on the code's own value graphs.")
    it = c.interp()
    s, si = c.spec("spread")
    n = isym("n", 1)
    ARGS = {"effective_spread": (SP, ("price", "midpoint", "volume"), "effective"),
            "realized_spread": (SP, ("price", "midpoint_later", "midpoint", "volume"), "realized"),
            "simple_price_impact": (PI, ("price", "midpoint_later", "midpoint", "volume"), "impact")}

    def quoted():
        m = it.load_module(SP)
        for pct in (None, True, False):
            kw = {} if pct is None else {"pct_spread": pct}
            w = anchor(c, it, m, "quoted_spread")
            mk = lambda i: [i.alloc(inarr("bid", (n,), pos=True)), i.alloc(inarr("ask", (n,), pos=True))]
            got = it.call(it.mod_attr(m, "quoted_spread"), mk(it), kw)
            want = si.call(si.mod_attr(s, "quoted"), mk(si) + [pct is not False], {})
            c.equal("quoted_spread, %s" % lab(pct), w, it, got, si, want, DOM)
    c.attempt("quoted_spread", SP, quoted)

    def call(f, it, directed, pct, form="array", k=n):
        mod, names, _ = ARGS[f]
        m = it.load_module(mod)
        v = inputs(it, k)
        a = [forms(it, v[x], form) for x in names]
        kw = {} if pct is None else {"pct_spread": pct}
        if directed:
            a.append(forms(it, v["q"], form if form != "qlist" else "list"))
        return it.call(it.mod_attr(m, f), a, kw)

    def want(f, si, directed, pct, k=n):
        _, names, sf = ARGS[f]
        v = inputs(si, k)
        return si.call(si.mod_attr(s, sf), [v[x] for x in names] + [v["q"], directed, pct is not False], {})
    for f in ARGS:
        for directed in (False, True):
            for pct in (None, True, False):
                nm = "%s%s, %s" % (f, " with trade direction" if directed else "", lab(pct))

                def go():
                    w = anchor(c, it, it.load_module(ARGS[f][0]), f)
                    c.equal(nm, w, it, call(f, it, directed, pct), si, want(f, si, directed, pct), DOM)
                c.attempt(nm, ARGS[f][0], go)
        for form in ("list", "tuple"):
            for pct in (True, False):
                for directed in (False, True):
                    nm = "%s%s given as %ss, %s" % (f, " with trade direction" if directed else "", form, lab(pct))

                    def go():
                        w = anchor(c, it, it.load_module(ARGS[f][0]), f)
                        c.equal(nm, w, it, call(f, it, directed, pct, form, const(3)), si, want(f, si, directed, pct, const(3)), DOM)
                    c.attempt(nm, ARGS[f][0], go)
    for pct in (True, False):
        def ident():
            e, r, p = [call(f, it, True, pct) for f in ("effective_spread", "realized_spread", "simple_price_impact")]
            w = anchor(c, it, it.load_module(SP), "effective_spread")
            c.equal("effective spread = realized spread + price impact, %s" % lab(pct), w, it, e, it, add(it.num(r), it.num(p)), DOM)
        c.attempt("decomposition, %s" % lab(pct), SP, ident)


def lab(pct):
    return {None: "default (percentage)", True: "percentage", False: "log"}[pct]
