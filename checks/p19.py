"""P19: Black-Scholes."""
from sa.ctx import *
from checks.lib import *

M = "frds.measures._option_price"
PK = ["S", "K", "r", "T", "sigma", "q"]
rng = lambda lo, hi: (lambda u, m, *k: D(str(lo)) + u * D(str(hi - lo)))
DOM = Dom(syms={"S": rng(.2, 3), "K": rng(.2, 3), "r": rng(-.1, .3), "T": rng(.1, 4), "sigma": rng(.1, 1.2), "q": rng(-.1, .3)},
          special=False, fns={"@" + p: f for p, f in (("S", rng(.2, 3)), ("K", rng(.2, 3)), ("sigma", rng(.1, 1.2)), ("T", rng(.1, 4)))})


def run(c):
    c.rule("blsprice is reduced to its value graph for symbolic arguments and compared with the documented call and put formulas; "
           "call minus put is compared with the discounted forward difference on the code's own value graph.")
    c.assumptions.append("spot, strike, maturity and volatility positive; rate and yield any sign")
    it = c.interp()
    s, si = c.spec("simple")
    pos = lambda p: t.sym(p, pos=p in ("S", "K", "T", "sigma"))

    def go(mod, via):
        m = it.load_module(mod)
        w = anchor(c, it, m, "blsprice")
        f = it.mod_attr(m, "blsprice")
        for lab, names in (("all arguments", PK), ("default yield", PK[:5])):
            for form in ("positional", "keyword"):
                v = [pos(p) for p in names]
                r = it.call(f, v if form == "positional" else [], {} if form == "positional" else dict(zip(names, v)))
                items = it.as_items(r)
                nm = "%s, %s, %s" % (via, lab, form)
                if not c.check(nm + ": returns call and put", w, len(items) == 2, "%d values" % len(items)):
                    continue
                sv = v + [ZERO] * (6 - len(v))
                for k, q in enumerate(("call", "put")):
                    c.equal("%s: %s" % (nm, q), w, it, items[k], si, si.call(si.mod_attr(s, q), sv, {}), DOM)
                c.equal(nm + ": put-call parity", w, it, sub(it.num(items[0]), it.num(items[1])), si,
                        si.call(si.mod_attr(s, "forward_difference"), sv, {}), DOM)
        arrays(f, w)

    def arrays(f, w):
        """array-valued arguments are priced element by element"""
        n = isym("n", 1)
        for p in ("S", "K", "sigma", "T"):
            a = [it.alloc(inarr(x, (n,), pos=True)) if x == p else pos(x) for x in PK]
            items = it.as_items(it.call(f, a, {}))
            k = t.fresh_bv(n, tag="e")
            e = [t.fn("@" + x, t.atomT(k), pos=True) if x == p else pos(x) for x in PK]
            for j, q in enumerate(("call", "put")):
                want = si.num(si.call(si.mod_attr(s, q), e, {}))
                wa = Arr((n,), lambda i, want=want, k=k: t.subst(want, {k.id: i[0]}), "f", "nd")
                c.equal("array of %s: %s" % (p, q), w, it, items[j], si, si.alloc(wa), DOM)
    c.attempt("blsprice", M, lambda: go("frds.measures", "frds.measures.blsprice"))
