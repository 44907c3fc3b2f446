"""P08: caller-supplied arrays, lists and frames are never written."""
import ast, os
from sa.ctx import *
from sa import resolve as R, alias as A
from checks.lib import *


def run(c):
    c.rule("Every function of the package is analysed with a flow-sensitive, interprocedural may-alias analysis: parameters are roots, followed "
           "through views, conversions that need not copy, containers, attributes, helper calls and fields retained by constructors; an in-place "
           "operation (element store, augmented assignment on an array, mutating method, out= or overwrite option) on an alias of a public entry "
           "point's argument is a violation. Compiled kernels are interpreted abstractly and their input arrays compared before and after.")
    nat = c.attempt("compiled kernels", "src/frds", lambda: native(c)) or {}
    c.attempt("aliases", "src/frds", lambda: py(c, nat))


def py(c, nat):
    P = R.Package(c.repo)
    if P.bad:
        raise Undecided("%s does not parse" % P.bad[0][0])
    an = A.Alias(P, nat)
    if an.rounds >= 12 and an.changed:
        raise Undecided("alias summaries do not stabilise")
    c.note("%d functions, %d calls, %d rounds" % (len(an.fns), an.sites, an.rounds))
    eff = an.mut
    for f in sorted(an.fns.values(), key=lambda f: f.key):
        if not f.public:
            continue
        w = "%s:%d %s" % (os.path.relpath(f.mod.path, c.repo), f.node.lineno, f.key.split(".")[-1])
        c.seen(w)
        for p in f.params:
            if f.cls is not None and not f.static and p == (f.node.args.posonlyargs + f.node.args.args)[0].arg:
                continue
            es = eff.get("%s:%s" % (id(f.node), p), [])
            if A.kind_of(f, p) == "scalar":
                es = [e for e in es if e[3] and not e[2].count("=") or "[" in e[2]]
            sure = [e for e in es if e[3]]
            nm = "%s leaves its argument %s alone" % (f.key, p)
            if sure:
                c.fail(nm, w, "changed in place: " + "; ".join("%s line %d: %s" % (k, l, h) for k, l, h, _ in sure[:3]))
            elif es:
                c.unsure(nm, w, "may be changed: " + "; ".join("%s line %d: %s" % (k, l, h) for k, l, h, _ in es[:3]))
            else:
                c.ok(nm, w)


def native(c):
    """kernels with their arguments: every array passed in must come out as it went in (the forest's result array excepted)"""
    n = isym("n", 1)
    om, al, be, ga, bc, v0, lam = [t.sym(x) for x in ("omega", "alpha", "beta", "gamma", "backcast", "v0", "lam")]
    U, L = "frds.algorithms.utils.utils_ext", "frds.measures.measures_ext"

    def kernel(mod, fn, mk):
        w = mod + "." + fn

        def go():
            it = c.interp(native=True)
            m = it.load_module(mod)
            f = it.mod_attr(m, fn)
            args = mk(it)
            refs = [(i, a, it.content(a)) for i, a in enumerate(args) if isinstance(a, Ref)]
            it.call(f, args, {})
            for i, a, old in refs:
                new = it.content(a)
                if new is old:
                    c.ok("kernel %s leaves argument %d alone" % (fn, i + 1), w)
                else:
                    kb = Comparer(it, it)
                    b = it.alloc(old)
                    ok = c.equal("kernel %s leaves argument %d alone" % (fn, i + 1), w, it, a, it, b)
                    del kb, ok
            c.seen(w)
        c.attempt("kernel " + fn, w, go)
    r = lambda i, k="r": i.alloc(inarr(k, (n,)))
    vb = lambda i: i.alloc(inarr("vb", (n, 2), pos=True))
    lst = lambda i, *xs: i.alloc(PyList(list(xs)))
    kernel(U, "ewma", lambda i: [r(i), v0, lam])
    kernel(U, "bounds_check", lambda i: [t.sym("x"), i.alloc(inarr("bounds", (const(2),), pos=True))])
    kernel(U, "compute_garch_variance", lambda i: [lst(i, om, al, be), r(i), bc, vb(i)])
    kernel(U, "compute_gjrgarch_variance", lambda i: [lst(i, om, al, ga, be), r(i), bc, vb(i)])
    kernel(U, "dcc_conditional_correlation", lambda i: [t.sym("a"), t.sym("b"), r(i, "x1"), r(i, "x2"), i.alloc(inarr("s1", (n,), pos=True)), i.alloc(inarr("s2", (n,), pos=True))])
    kernel(L, "simulation", lambda i: [i.alloc(inarr("innov", (n, 2))), t.sym("C"), *[t.sym("s%d" % k, pos=True) for k in range(2)], *[t.sym("u%d" % k) for k in range(5)],
                                       i.alloc(inarr("Q", (const(2), const(2)), pos=True)), *[t.sym("p%d" % k) for k in range(10)]])
    return {}
