"""P09: randomised results depend only on the arguments and the seed."""
import ast, os, re
from sa.ctx import *
from sa import resolve as R, effects as E, clangast, cxx
from checks.lib import *

NR = "numpy.random."
CTORS = {"RandomState": ("seed",), "default_rng": ("seed",), "SeedSequence": ("entropy",), "PCG64": ("seed",), "PCG64DXSM": ("seed",), "MT19937": ("seed",),
         "Philox": ("seed", "key"), "SFC64": ("seed",)}
NR_OK = {"Generator", "BitGenerator", "RandomState", "test"}
# library routines that draw: (name of the argument that fixes the draws, its position or None)
STOCH = {"scipy.optimize.differential_evolution": ("seed", "rng"), "scipy.optimize.dual_annealing": ("seed", "rng"),
         "scipy.optimize.basinhopping": ("seed", "rng"), "scipy.stats.bootstrap": ("random_state", "rng"),
         "scipy.stats.permutation_test": ("random_state", "rng"), "scipy.stats.monte_carlo_test": ("rng", "random_state"),
         "scipy.stats.qmc.Sobol": ("seed", "rng"), "scipy.stats.qmc.Halton": ("seed", "rng"), "scipy.stats.qmc.LatinHypercube": ("seed", "rng"),
         "scipy.stats.qmc.PoissonDisk": ("seed", "rng"), "scipy.sparse.random": ("random_state", "rng"), "scipy.cluster.vq.kmeans": ("seed", "rng"),
         "scipy.cluster.vq.kmeans2": ("seed", "rng"), "scipy.stats.gaussian_kde.resample": ("seed",)}
RVS = {"rvs", "resample"}
NDLIB = {"time.time": "the clock", "time.time_ns": "the clock", "time.perf_counter": "the clock", "time.perf_counter_ns": "the clock", "time.monotonic": "the clock",
         "time.monotonic_ns": "the clock", "time.process_time": "the clock", "time.localtime": "the clock", "time.gmtime": "the clock", "time.ctime": "the clock",
         "datetime.datetime.now": "the clock", "datetime.datetime.utcnow": "the clock", "datetime.datetime.today": "the clock", "datetime.date.today": "the clock",
         "pandas.Timestamp.now": "the clock", "pandas.Timestamp.today": "the clock", "pandas.Timestamp.utcnow": "the clock",
         "os.getpid": "the process id", "os.getppid": "the process id", "os.urandom": "system entropy", "os.times": "the clock", "os.getrandom": "system entropy",
         "builtins.id": "an object's address", "builtins.hash": "hash randomisation", "uuid.uuid1": "the clock", "uuid.uuid4": "system entropy",
         "threading.get_ident": "the thread id", "threading.get_native_id": "the thread id", "threading.current_thread": "the thread id",
         "multiprocessing.current_process": "the process id", "os.cpu_count": "the number of processors", "multiprocessing.cpu_count": "the number of processors",
         "os.getloadavg": "the machine's load", "builtins.object": None}
ENTROPY = ("secrets.", "random.SystemRandom", "os.urandom", "os.getrandom", "uuid.uuid1", "uuid.uuid4")
UNLIST = {"os.listdir", "os.scandir", "glob.glob", "glob.iglob", "os.walk"}
INSENS = {"builtins.sorted", "builtins.len", "builtins.min", "builtins.max", "builtins.any", "builtins.all", "builtins.set", "builtins.frozenset",
          "builtins.print", "builtins.isinstance", "builtins.bool", "builtins.repr", "builtins.str"}
QUIET = re.compile(r"^(builtins\.print|logging\.|warnings\.warn|sys\.std(out|err)|builtins\.(str|repr|format|float|int|round|len|isinstance|abs))")


def seedish(p):
    q = p.lower()
    return "seed" in q or q in ("random_state", "rng_state")


def special(eff, sc, e, f, pos, kw):
    out = set()
    for x in f:
        if x[0] == "lib":
            p = x[1]
            if p.startswith(NR) and p[len(NR):].split(".")[-1] in CTORS or p == NR + "Generator" or p in ("random.Random",):
                out.add(("gen", id(e)))
            if p in NDLIB and NDLIB[p]:
                out.add(("nd", NDLIB[p]))
            if p.startswith(("os.environ", "os.getenv")):
                out.add(("nd", "the environment"))
            if p.startswith("secrets."):
                out.add(("nd", "system entropy"))
            if p in UNLIST:
                out.add(("unord", "directory order"))
        if x[0] == "pathm" and x[1] in ("iterdir", "glob", "rglob"):
            out.add(("unord", "directory order"))
        if x[0] == "draw" and x[2] in ("spawn", "jumped", "copy"):
            out.add(x[1])
        elif x[0] == "draw":
            out.add(("rnd", id(e)))
    return out


def run(c):
    c.rule("Every place where randomness enters is found by following library objects, generators and seeds through assignments, containers, "
           "attributes, parameters and calls of the package: draws only from a generator created in the same computation; its seed present, built "
           "from the seed parameter wherever there is one, and every seed parameter reaching a generator; no clock, process, address, entropy, "
           "environment or hash-order value in results, branches or seeds; in the compiled code no global, shared or unseeded engine, clock or "
           "thread-identity source, and the engine's seed built from the seed argument.")
    c.attempt("Python sources", "src/frds", lambda: py(c))
    c.attempt("compiled sources", "src/frds", lambda: native(c))


def py(c):
    P = R.Package(c.repo)
    if P.bad:
        raise Undecided("%s does not parse" % P.bad[0][0])
    eff = E.Effects(P, special)
    par = eff.parents()
    ncalls = 0
    seeds = {}          # id(ctor call) -> tokens of its seed
    flowed = set()      # tokens reaching any seed
    gens = {}
    for k, (sc, e, f, pos, kw) in eff.calls.items():
        ncalls += 1
        w = eff.where(sc, e)
        for x in f:
            if x[0] == "lib":
                ctor(c, eff, sc, e, x[1], pos, kw, w, seeds, flowed, gens)
            elif x[0] == "native":
                for v in list(pos) + list(kw.values()):
                    flowed |= set(v)
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else None
        if nm in RVS and not any(x[0] in ("fn", "bound", "draw") for x in f) and not any(x[0] == "lib" and x[1] in STOCH for x in f):
            rvs(c, eff, sc, e, kw, w, "random_state", flowed)
        if nm == "sample" and any(x[0] in ("libobj", "par") for x in eff.exprs.get(id(e.func.value), ())) and not any(x[0] in ("fn", "bound", "draw") for x in f):
            rvs(c, eff, sc, e, kw, w, "random_state", flowed)
    # every use of the generators
    ndraw = 0
    for k, (sc, e, f, pos, kw) in eff.calls.items():
        for x in sorted((y for y in f if y[0] == "draw"), key=str):
            if x[2] in ("spawn", "get_state", "bit_generator"):
                continue
            ndraw += 1
            g = x[1]
            w = eff.where(sc, e)
            name = "draw %s in %s" % (x[2], sc)
            if g[0] == "old":
                c.fail(name, w, "drawn from a generator kept beyond the computation (%s): the result depends on earlier calls" % g[2])
                continue
            gs, ge = gens.get(g[1], (None, None))
            if g[0] == "field":
                fieldgen(c, eff, sc, e, g, gs, ge, name, w)
                continue
            if gs is None:
                c.unsure(name, w, "origin of the generator")
                continue
            if gs.fn() is None:
                c.fail(name, w, "drawn from a generator created once at %s" % eff.where(gs, ge))
            else:
                c.ok(name, w)
        # generators handed to library code
        vals = list(pos) + list(kw.values())
        for v in vals:
            for x in v:
                if x[0] in ("old",) and not any(y[0] in ("fn", "bound", "cls") for y in f):
                    c.fail("generator handed on in %s" % sc, eff.where(sc, e), "a generator kept beyond the computation (%s) is used" % x[2])
    # references to the module-level functions without calling them
    for m in P.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                pn = par.get(id(n))
                if isinstance(pn, ast.Attribute) or isinstance(pn, ast.Call) and pn.func is n:
                    continue
                for x in eff.exprs.get(id(n), ()):
                    if x[0] == "lib" and globaldraw(x[1]):
                        c.fail("global random state in %s" % m.name, "%s:%d" % (os.path.relpath(m.path, c.repo), n.lineno), "%s is used" % x[1])
    # seed parameters reach a generator, and are passed on
    nseed = 0
    rand = randomised(eff, gens)
    for i, s in sorted(eff.scopes.items(), key=lambda q: (q[1].mod.name, getattr(q[1].node, "lineno", 0))):
        if s.kind != "fn":
            continue
        w = eff.where(s, s.node)
        c.seen(w)
        sp = [p for p in s.params if seedish(p)]
        for p in sp:
            nseed += 1
            c.check("%s: the seed parameter %s decides the draws" % (s, p), w, ("par", i, p) in flowed,
                    "parameter %s reaches no generator or compiled kernel" % p, "dataflow")
        for p in s.params:
            a = s.node.args
            ps = a.posonlyargs + a.args
            dm = dict(zip([q.arg for q in ps[len(ps) - len(a.defaults):]], a.defaults))
            dm.update({q.arg: d for q, d in zip(a.kwonlyargs, a.kw_defaults) if d})
            if p in sp and p in dm:
                v = eff.ev(dm[p], s.parent)
                if any(x[0] == "nd" for x in v):
                    c.fail("%s: default seed" % s, w, "the default of %s comes from %s" % (p, [x[1] for x in v if x[0] == "nd"][0]))
    for k, (sc, e, f, pos, kw) in eff.calls.items():
        own = [(id(o.node), p) for o in sc.outer_fns() for p in o.params if seedish(p)]
        if not own:
            continue
        for x in f:
            tgt = None
            if x[0] in ("fn", "bound"):
                tgt = eff.scopes[x[1]]
                if x[1] not in rand:
                    tgt = None
            elif x[0] == "cls":
                for y in eff.attr_inst(x[1], "__init__"):
                    if y[0] == "bound":
                        tgt = eff.scopes[y[1]]
            if tgt is None:
                continue
            tp = [p for p in tgt.params if seedish(p)]
            if not tp or any(isinstance(a, ast.Starred) for a in e.args) or any(q.arg is None for q in e.keywords):
                continue
            names = [q.arg for q in tgt.node.args.posonlyargs + tgt.node.args.args]
            off = 1 if x[0] in ("bound", "cls") and names and tgt.cls is not None else 0
            for p in tp:
                v = kw.get(p)
                if v is None and p in names and names.index(p) - off < len(pos):
                    v = pos[names.index(p) - off]
                c.check("%s passes its seed to %s" % (sc, tgt), eff.where(sc, e), v is not None and any(("par",) + o in v for o in own),
                        "the call does not pass the caller's seed as %s" % p, "dataflow")
    leaks(c, eff, par)
    kept(c, eff, par)
    order(c, eff, par)
    c.note("%d calls, %d generators, %d draws, %d seed parameters, %d rounds" % (ncalls, len(gens), ndraw, nseed, eff.rounds))


def globaldraw(p):
    if p.startswith(NR):
        r = p[len(NR):]
        h = r.split(".")[0]
        if r.split(".")[-1] in CTORS or h in ("Generator", "BitGenerator", "bit_generator") or r in NR_OK:
            return False
        if h in ("mtrand",):
            return r != "mtrand" and r.split(".")[1] not in ("RandomState",)
        return h[:1].islower() or h in ("_rand",)
    if p.startswith("random.") and p != "random.Random" and not p.startswith("random.Random."):
        return True
    return p.startswith("secrets.") or p in ("os.urandom", "os.getrandom", "uuid.uuid1", "uuid.uuid4")


def ctor(c, eff, sc, e, p, pos, kw, w, seeds, flowed, gens):
    if globaldraw(p):
        c.fail("random source in %s" % sc, w, "%s draws from (or changes) shared random state or system entropy" % p)
        return
    if p in STOCH:
        for a in STOCH[p]:
            if a in kw:
                return rvs(c, eff, sc, e, kw, w, a, flowed)
        return rvs(c, eff, sc, e, kw, w, STOCH[p][0], flowed)
    last = p.split(".")[-1]
    if p.startswith(NR) and last in CTORS or p == "random.Random":
        gens[id(e)] = (sc, e)
        v = pos[0] if pos else None
        for a in CTORS.get(last, ("x",)):
            if a in kw:
                v = kw[a]
        name = "generator created in %s" % sc
        seedcheck(c, eff, sc, e, v, name, w, flowed, p)
    elif p == NR + "Generator":
        gens[id(e)] = (sc, e)
        if not pos and not kw:
            return
        v = pos[0] if pos else list(kw.values())[0]
        for x in v:
            if x[0] == "old":
                c.fail("generator created in %s" % sc, w, "built on a bit generator kept beyond the computation (%s)" % x[2])


def seedcheck(c, eff, sc, e, v, name, w, flowed, p):
    if v is None:
        c.fail(name, w, "%s is created without a seed" % p)
        return
    flowed |= set(v)
    if ("none",) in v:
        c.fail(name, w, "the seed may be None: %s then starts from system entropy" % p)
        return
    nd = [x for x in v if x[0] == "nd"]
    if nd:
        c.fail(name, w, "the seed comes from %s" % nd[0][1])
        return
    if any(x[0] in ("cnt", "rnd", "oldrnd") for x in v):
        x = [x for x in v if x[0] in ("cnt", "oldrnd", "rnd")][0]
        if x[0] != "rnd":
            c.fail(name, w, "the seed depends on earlier calls (%s)" % x[-1])
            return
    if any(x[0] in ("set", "unord") for x in v):
        c.fail(name, w, "the seed depends on the order of an unordered container")
        return
    own = [(id(o.node), q) for o in sc.outer_fns() for q in o.params if seedish(q)]
    if own and not any(("par",) + o in v for o in own) and not any(x[0] in ("gen", "field") for x in v):
        # kept in an attribute between constructor and use
        c.fail(name, w, "the seed does not depend on the seed parameter")
        return
    c.ok(name, w, "dataflow")


def rvs(c, eff, sc, e, kw, w, arg, flowed):
    name = "random draws of a library routine in %s" % sc
    v = kw.get(arg)
    if v is None:
        if any(k.arg is None for k in e.keywords):
            c.unsure(name, w, "keyword arguments unknown")
            return
        c.fail(name, w, "no %s: draws from the global random state" % arg)
        return
    if any(x[0] in ("gen", "field") for x in v) and ("none",) not in v:
        c.ok(name, w, "dataflow")
        return
    if any(x[0] == "old" for x in v):
        c.fail(name, w, "uses a generator kept beyond the computation")
        return
    seedcheck(c, eff, sc, e, v, name, w, flowed, arg)


def randomised(eff, gens):
    """functions that create generators or call compiled kernels taking seeds, directly or through others"""
    out = set()
    for sc, e in gens.values():
        for o in sc.outer_fns():
            out.add(id(o.node))
    for k, (sc, e, f, pos, kw) in eff.calls.items():
        if any(x[0] == "native" for x in f) and any(seedish(p) for o in sc.outer_fns() for p in o.params):
            out |= {id(o.node) for o in sc.outer_fns()}
    ch = True
    while ch:
        ch = False
        for k, (sc, e, f, pos, kw) in eff.calls.items():
            for x in f:
                if x[0] in ("fn", "bound") and x[1] in out:
                    for o in sc.outer_fns():
                        if id(o.node) not in out:
                            out.add(id(o.node))
                            ch = True
    return out


def toplevel(eff, fn, node):
    """node is executed on every call of fn before anything else can return"""
    par = eff.parents()
    p = par.get(id(node))
    while p is not None and p is not fn:
        if isinstance(p, (ast.If, ast.For, ast.While, ast.Try, ast.IfExp, ast.Lambda, ast.FunctionDef, ast.BoolOp, ast.Match)):
            return False
        p = par.get(id(p))
    return p is fn


def fieldgen(c, eff, sc, e, g, gs, ge, name, w):
    """a generator kept in an attribute: created anew by the method that draws, or by the only caller of that method"""
    if gs is None or gs.fn() is None:
        c.fail(name, w, "drawn from a generator created once at import")
        return
    maker = gs.fn()
    if maker.name in ("__init__", "__new__", "__post_init__") or not toplevel(eff, maker.node, ge):
        c.fail(name, w, "drawn from the generator kept in attribute %s, created at %s: the result depends on earlier calls" % (g[3], eff.where(gs, ge)))
        return
    user = sc.fn()
    seen, todo = set(), [user]
    while todo:
        u = todo.pop()
        if u is None or id(u.node) in seen:
            continue
        seen.add(id(u.node))
        if u is maker:
            continue
        callers = [s for s, _ in eff.callers.get(id(u.node), ())]
        if not callers or not u.name.startswith("_"):
            c.fail(name, w, "drawn from the generator kept in attribute %s by an earlier call of %s" % (g[3], maker.name))
            return
        todo += [eff.scopes[s].fn() for s in callers]
    c.ok(name, w, "dataflow")


def leaks(c, eff, par):
    """clock, process, entropy, environment values in results, branches, arguments"""
    n = 0
    for s in eff.scopes.values():
        if s.kind == "fn":
            nd = [x for x in s.ret if x[0] == "nd"]
            n += 1
            if nd:
                c.fail("result of %s" % s, eff.where(s, s.node), "depends on %s" % ", ".join(sorted({x[1] for x in nd})))
    for (cid, attr), v in sorted(eff.fields.items(), key=lambda q: str(q[0][1])):
        nd = [x for x in v if x[0] == "nd"]
        if nd and cid in eff.classes:
            k = eff.classes[cid]
            c.fail("attribute %s of %s" % (attr, k), "%s:%d %s" % (os.path.relpath(k.mod.path, c.repo), k.node.lineno, k.name), "depends on %s" % nd[0][1])
    for m in eff.P.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.If, ast.While, ast.IfExp)) and any(y[0] == "nd" for y in eff.exprs.get(id(x.test), ())):
                if isinstance(x, ast.If) and quietblock(x):
                    continue
                y = [y for y in eff.exprs[id(x.test)] if y[0] == "nd"][0]
                c.fail("branch in %s" % m.name, "%s:%d" % (os.path.relpath(m.path, c.repo), x.lineno), "decided by %s" % y[1])
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                nd = [y for y in eff.exprs.get(id(x.slice), ()) if y[0] == "nd"]
                if nd:
                    c.fail("selection in %s" % m.name, "%s:%d" % (os.path.relpath(m.path, c.repo), x.lineno), "by %s" % nd[0][1])
    for k, (sc, e, f, pos, kw) in eff.calls.items():
        if any(x[0] in ("fn", "bound", "native") for x in f) or isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend", "fill", "seed", "insert"):
            for v in list(pos) + list(kw.values()):
                nd = [y for y in v if y[0] == "nd"]
                if nd and sc.fn() is not None:
                    c.fail("argument in %s" % sc, eff.where(sc, e), "depends on %s" % nd[0][1])
    c.ok("no clock, process, address or environment value in results, attributes or branches of %d functions" % n, "src/frds", "dataflow")


def kept(c, eff, par):
    """random numbers kept in storage that outlives a computation and used by a later one"""
    seen = set()
    for m in eff.P.mods.values():
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.expr):
                continue
            for y in eff.exprs.get(id(x), ()):
                if y[0] == "oldrnd" and (y[1], y[2]) not in seen:
                    seen.add((y[1], y[2]))
                    if y[2].startswith("result cached") or y[2].startswith("cached property"):
                        continue
                    sc, e = eff.calls[y[1]][0], eff.calls[y[1]][1]
                    own = [(id(o.node), p) for o in sc.outer_fns() for p in o.params if seedish(p)]
                    keyed = False
                    for z in ast.walk(m.tree):
                        if isinstance(z, ast.Subscript) and any(("par",) + o in eff.exprs.get(id(z.slice), ()) for o in own):
                            keyed = True
                    name = "random numbers kept in %s" % y[2]
                    if keyed or not own:
                        c.unsure(name, eff.where(sc, e), "used again by later calls")
                    else:
                        c.fail(name, eff.where(sc, e), "drawn once and used again by later calls whatever their seed")
    stores = {}
    for i, s in eff.scopes.items():
        if s.kind != "fn" or s.cls is None:
            continue
        for x in ast.walk(s.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and any(y[0] == "rnd" for y in eff.exprs.get(id(x.value), ())):
                        stores.setdefault((id(s.cls), t.attr), []).append((s, x))
    for (cid, attr), ss in stores.items():
        for s, x in ss:
            name = "random numbers kept in attribute %s" % attr
            if s.name == "__init__":
                continue
            g = par.get(id(x))
            while g is not None and g is not s.node:
                if isinstance(g, ast.If) and any(isinstance(z, ast.Attribute) and z.attr == attr or isinstance(z, ast.Constant) and z.value == attr for z in ast.walk(g.test)):
                    own = [(id(s.node), p) for p in s.params if seedish(p)]
                    tok = set()
                    for z in ast.walk(g.test):
                        tok |= set(eff.exprs.get(id(z), ()))
                    if own and not any(("par",) + o in tok for o in own):
                        c.fail(name, eff.where(s, x), "drawn by the first call only and used by later calls whatever their seed")
                    else:
                        c.unsure(name, eff.where(s, x), "may be used again by later calls")
                g = par.get(id(g))


def quietblock(x):
    for s in x.body + x.orelse:
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (isinstance(s.value.func, ast.Name) and s.value.func.id == "print" or
                isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("warn", "info", "debug", "warning", "error", "log", "write"))):
            return False
    return True


def commut(body):
    """a loop body whose effect does not depend on the order of the elements"""
    for s in body:
        if isinstance(s, (ast.Pass, ast.Continue)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("add", "discard"):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "print":
            continue
        if isinstance(s, ast.Assert):
            continue
        if isinstance(s, ast.If) and commut(s.body) and commut(s.orelse):
            continue
        if isinstance(s, ast.Raise):
            continue
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Delete):
            continue
        return False
    return True


def order(c, eff, par):
    """results of iterating unordered containers"""
    n = 0
    for i, s in eff.scopes.items():
        root = s.node.body if isinstance(s.node.body, list) else [s.node.body]
        todo = list(root)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            todo += list(ast.iter_child_nodes(x))
            it = None
            if isinstance(x, ast.For):
                it = x.iter
                if commut(x.body) and not x.orelse:
                    it = None
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                it = x.generators[0].iter
                p = par.get(id(x))
                if isinstance(p, ast.Call) and x in p.args and insens(eff, p):
                    it = None
                if isinstance(x, ast.DictComp):
                    it = None
            elif isinstance(x, ast.Starred):
                it = x.value
            elif isinstance(x, ast.Call):
                f = eff.exprs.get(id(x.func), ())
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else None
                if nm == "pop" and not x.args and any(y[0] == "setm" for y in f):
                    it = x.func.value
                elif any(y[0] == "lib" for y in f) and not insens(eff, x) and x.args and not any(
                        y[0] == "lib" and y[1].startswith(("builtins.Set", "collections.abc")) for y in f):
                    p = par.get(id(x))
                    if isinstance(p, ast.Call) and x in p.args and insens(eff, p):
                        continue
                    for a in x.args:
                        if any(y[0] == "set" for y in eff.exprs.get(id(a), ())):
                            it = a
                elif nm in ("join", "extend", "update") and x.args and nm != "update":
                    it = x.args[0]
                elif nm in ("drop", "reindex", "select_dtypes", "isin", "issubset", "difference", "union"):
                    it = None
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                it = None
            if it is None:
                continue
            v = eff.exprs.get(id(it), ())
            st = [y for y in v if y[0] == "set" or y[0] == "unord" and isinstance(x, (ast.For, ast.ListComp, ast.GeneratorExp))]
            if not st:
                continue
            n += 1
            w = eff.where(s, x)
            if any(y[1] in ("str", "directory order") for y in st):
                c.fail("iteration order in %s" % s, w, "the elements of an unordered container of strings are taken in hash (or directory) order")
            else:
                c.unsure("iteration order in %s" % s, w, "elements of an unordered container are taken in its own order")
    c.ok("%d orderings of unordered containers" % n, "src/frds", "dataflow")


def insens(eff, call):
    return any(y[0] == "lib" and y[1] in INSENS for y in eff.exprs.get(id(call.func), ()))


# ---------------------------------------------------------------- compiled sources
ENGINE = re.compile(r"(mt19937|minstd_rand|ranlux|knuth_b|default_random_engine|_engine<|linear_congruential|subtract_with_carry|mersenne_twister|shuffle_order)")
BADFN = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "rand_r", "time", "clock", "gettimeofday", "clock_gettime", "getpid", "getppid",
         "getrandom", "getentropy", "arc4random", "pthread_self", "gettid", "getenv", "getloadavg", "random_shuffle"}


def native(c):
    P = R.Package(c.repo)
    for nm, src in sorted(P.native.items()):
        u = clangast.unit(c.repo, src)
        engines = 0
        for d in u.all():
            w = "%s:%s" % (rel(c, d.file), d.line)
            if d.kind == "DeclRefExpr":
                r = d.get("referencedDecl") or {}
                if r.get("kind") == "FunctionDecl" and r.get("name") in BADFN and u_extern(u, r):
                    c.fail("random or clock source in %s" % nm, w, "%s() is used" % r.get("name"))
                if r.get("kind") == "CXXMethodDecl" and r.get("name") == "now":
                    c.fail("random or clock source in %s" % nm, w, "a clock is read")
                if r.get("name") == "get_id":
                    c.fail("thread identity in %s" % nm, w, "the thread id is used")
            if d.kind == "MemberExpr" and d.name == "get_id":
                c.fail("thread identity in %s" % nm, w, "the thread id is used")
            if d.kind in ("VarDecl", "CXXConstructExpr", "CXXTemporaryObjectExpr") and "random_device" in d.type:
                c.fail("random source in %s" % nm, w, "std::random_device is used")
            if d.kind == "CXXForRangeStmt":
                for v in d.find("VarDecl"):
                    if v.get("isImplicit") and re.search(r"unordered_(multi)?(map|set)", v.type):
                        c.fail("iteration order in %s" % nm, w, "iterates an unordered container")
            if d.kind == "VarDecl" and (ENGINE.search(d.type) or re.search(r"normal_distribution|std::bernoulli|gamma_distribution|student_t", d.type)) \
                    and not d.type.rstrip().endswith(("&", "*")):
                top = d.parent is None or d.parent.kind in ("NamespaceDecl", "TranslationUnitDecl", "LinkageSpecDecl")
                if d.get("storageClass") == "static" or d.get("tls") or top:
                    c.fail("random engine in %s" % nm, w, "%s outlives the computation (static, thread-local or global)" % d.name)
            if d.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and ENGINE.search(d.type) and "distribution" not in d.type:
                args = [x for x in d.inner if x.kind != "CXXDefaultArgExpr"]
                copy = args and ENGINE.search(args[0].type)
                if copy:
                    continue
                engines += 1
                if not args:
                    c.fail("random engine in %s" % nm, w, "constructed without a seed")
                    continue
                rf = roots(u, args[0], set())
                c.check("random engine in %s: seeded from the seed argument" % nm, w, any("seed" in x.lower() for x in rf),
                        "its seed is built from %s only" % (sorted(rf) or "constants"), "dataflow")
            if d.kind == "FieldDecl" and ENGINE.search(d.type) and "distribution" not in d.type:
                c.note("engine member %s at %s" % (d.name, w))
        c.ok("sources of randomness in %s (%d engines)" % (nm, engines), src, "clang AST scan")
        c.seen(src)
        if engines:
            seedpath(c, u, nm, src)


def u_extern(u, ref):
    """the function is not defined in the repository"""
    for d in u.all():
        if d.kind in ("FunctionDecl", "CXXMethodDecl") and d.get("id") == ref.get("id") and any(x.kind == "CompoundStmt" for x in d.inner):
            return False
    return True


def roots(u, n, seen):
    """names of the members and parameters an expression depends on, through local variables"""
    out = set()
    idx = getattr(u, "_byid", None)
    if idx is None:
        idx = u._byid = {x.get("id"): x for x in u.all() if x.get("id")}
    for x in n.walk():
        if x.kind == "MemberExpr" and x.name:
            out.add(x.name)
        elif x.kind == "DeclRefExpr":
            r = x.get("referencedDecl") or {}
            if r.get("kind") == "ParmVarDecl":
                out.add(r.get("name") or "")
            elif r.get("kind") in ("VarDecl",) and r.get("id") not in seen:
                seen.add(r.get("id"))
                d = idx.get(r.get("id"))
                if d is not None:
                    out |= roots(u, d, seen)
                # assignments
                for y in u.all():
                    if y.kind in ("BinaryOperator", "CompoundAssignOperator") and (y.get("opcode") or "").endswith("=") and y.get("opcode") not in ("==", "!=", "<=", ">="):
                        l = cxx.strip(y.inner[0])
                        if l.kind == "DeclRefExpr" and (l.get("referencedDecl") or {}).get("id") == r.get("id"):
                            out |= roots(u, y.inner[1], seen)
            elif r.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                d = idx.get(r.get("id"))
                if d is not None and d.get("id") not in seen and any(q.kind == "CompoundStmt" for q in d.inner):
                    seen.add(d.get("id"))
                    for q in d.find("ReturnStmt"):
                        out |= roots(u, q, seen)
    return out


def seedpath(c, u, nm, src):
    """the seed member is set from the constructor parameter that receives the parsed seed argument"""
    mem = set()
    for d in u.all():
        if d.kind == "CXXConstructorDecl" and any(x.kind == "CompoundStmt" for x in d.inner):
            params = [x for x in d.inner if x.kind == "ParmVarDecl"]
            for i in d.inner:
                if i.kind == "CXXCtorInitializer" and "seed" in ((i.get("anyInit") or {}).get("name") or "").lower():
                    m = i.get("anyInit")["name"]
                    ps = [k for k, p in enumerate(params) if p.name in roots_params(i)]
                    mem.add((d.get("parent", None) or d.name, m, tuple(ps), d))
    for cls, m, ps, d in sorted(mem, key=lambda q: q[1]):
        w = "%s:%s" % (rel(c, d.file), d.line)
        if not ps:
            c.fail("seed member %s of %s" % (m, d.name), w, "initialised from no parameter")
            continue
        found = False
        for x in u.all():
            if x.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and x.qtype.split("::")[-1] == d.name and len(x.inner) > max(ps):
                rt = set()
                for k in ps:
                    rt |= roots(u, x.inner[k], set())
                    rt |= {y.get("referencedDecl", {}).get("name") for y in x.inner[k].walk() if y.kind == "DeclRefExpr"}
                if x.inner and d.name in x.inner[0].type:
                    continue
                found = True
                c.check("seed handed to %s" % d.name, "%s:%s" % (rel(c, x.file), x.line), any(r and "seed" in r.lower() for r in rt),
                        "the seed parameter receives %s" % sorted(r for r in rt if r), "dataflow")
        if not found:
            c.unsure("seed handed to %s" % d.name, w, "no construction found")


def roots_params(i):
    return {(x.get("referencedDecl") or {}).get("name") for x in i.walk() if x.kind == "DeclRefExpr"}
