"""P32: imports, exported names, names and internal calls resolve."""
import ast, builtins, os, re, symtable, sys
from sa.ctx import *
from sa import resolve as R

STD = set(sys.stdlib_module_names)


def run(c):
    c.rule("Every import, global name, exported name, attribute of an own object and internal call of the package's modules is resolved over "
           "the syntax trees; imports of each module are executed abstractly from an empty state in statement order (partially initialised "
           "modules included); calls are bound to the callee's parameter list, native callees to the formats they parse.")
    P = R.Package(c.repo)
    for p, e in P.bad:
        c.fail("module parses", os.path.relpath(p, c.repo), e)
    deps = declared(c)
    for name in sorted(P.mods):
        m = P.mods[name]
        w = os.path.relpath(m.path, c.repo)
        c.seen(w)
        for k, f in (("imports", imports), ("names", names), ("exports", exports), ("calls", calls)):
            c.attempt("%s of %s" % (k, name), w, lambda: f(c, P, m, w, deps))
    c.attempt("import order", "src/frds", lambda: order(c, P))
    c.attempt("extension sources", "setup.py", lambda: natives(c, P))


def declared(c):
    s = open(os.path.join(c.repo, "pyproject.toml"), encoding="utf8").read()
    m = re.search(r"^dependencies\s*=\s*\[(.*?)\]", s, re.S | re.M)
    if not m:
        raise Undecided("declared dependencies not found")
    return {re.split(r"[<>=!~\[; ]", x)[0].strip().lower().replace("-", "_") for x in re.findall(r"[\"']([^\"']+)[\"']", m.group(1))}


def guarded(tree):
    """nodes inside a try whose handlers catch ImportError"""
    out = set()
    for t_ in ast.walk(tree):
        if isinstance(t_, ast.Try):
            ok = False
            for h in t_.handlers:
                ns = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                ok = ok or any(x is None or (isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException")) for x in ns)
            if ok:
                for s in t_.body:
                    out |= {id(x) for x in ast.walk(s)}
        # scripts guarded by __main__ are not part of importing, still resolved
    return out


def imports(c, P, m, w, deps):
    g = guarded(m.tree)
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Import):
            for a in s.names:
                top = a.name.split(".")[0]
                if top == P.top:
                    c.check("import %s in %s" % (a.name, m.name), "%s:%d" % (w, s.lineno), P.exists(a.name), "there is no module %s" % a.name)
                else:
                    c.check("import %s in %s" % (a.name, m.name), "%s:%d" % (w, s.lineno), top in STD or top in deps or id(s) in g,
                            "%s is neither in the standard library nor a declared dependency" % top)
        elif isinstance(s, ast.ImportFrom):
            src = P.absname(m, s.level, s.module)
            top = src.split(".")[0]
            for a in s.names:
                nm = "from %s import %s in %s" % (src, a.name, m.name)
                at = "%s:%d" % (w, s.lineno)
                if top != P.top:
                    c.check(nm, at, top in STD or top in deps or id(s) in g, "%s is neither in the standard library nor a declared dependency" % top)
                    continue
                if not P.exists(src):
                    c.fail(nm, at, "there is no module %s" % src)
                    continue
                if a.name == "*":
                    c.ok(nm, at)
                    continue
                try:
                    b = P.bindings(src).get(a.name) if src in P.mods else None
                    if b and all(x == ("from", src, a.name) for x in b) and not P.exists(src + "." + a.name):
                        raise R.Missing("%s is bound only by importing itself" % a.name)
                    P.member(src, a.name)
                    c.ok(nm, at)
                except R.Missing as e:
                    c.fail(nm, at, str(e))


def names(c, P, m, w, deps):
    bound = set(P.bindings(m.name))
    st = symtable.symtable(m.src, m.path, "exec")
    bad = []
    n = 0
    anyglobal = bound | R.BUILTINS

    def visit(s):
        nonlocal n
        for y in s.get_symbols():
            if not y.is_referenced():
                continue
            n += 1
            nm = y.get_name()
            if s.get_type() == "module":
                if not (y.is_assigned() or y.is_imported() or y.is_namespace()) and nm not in anyglobal:
                    bad.append((nm, s))
            elif y.is_global() and nm not in anyglobal:
                bad.append((nm, s))
        for k in s.get_children():
            visit(k)
    visit(st)
    # annotations evaluated lazily or as strings may name anything only with the future import
    lazy = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
    real = []
    for nm, s in bad:
        locs = [x for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
        if lazy:
            ann = set()
            for x in ast.walk(m.tree):
                for a in (getattr(x, "annotation", None), getattr(x, "returns", None)):
                    if isinstance(a, ast.AST):
                        ann |= {id(y) for y in ast.walk(a)}
            locs = [x for x in locs if id(x) not in ann]
            if not locs:
                continue
        real.append((nm, s, locs[0].lineno if locs else s.get_lineno()))
    c.check("global names of %s are defined" % m.name, w, not real,
            "; ".join("%s (line %d, in %s) is not defined" % (a, l, s.get_name()) for a, s, l in real[:4]), "%d references" % n)


def exports(c, P, m, w, deps):
    al = P.all_of(m)
    if al is None:
        return
    b = P.bindings(m.name)
    for k in al:
        c.check("%s exports %s" % (m.name, k), w, k in b or P.exists(m.name + "." + k), "__all__ names %s, which the module does not define" % k)
    dup = {k for k in al if al.count(k) > 1}
    for k in dup:
        c.note("%s exported twice by %s" % (k, m.name))


# ---------------------------------------------------------------- import execution
def order(c, P):
    """from an empty interpreter, import each module: every intra-package name must be bound when it is imported"""
    for start in sorted(P.mods):
        state = {}                       # module -> set of bound names (partial while executing)
        errs = []

        def load(name):
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                one(".".join(parts[:i]))

        def one(name):
            if name in state or name not in P.mods:
                return
            state[name] = set()
            block(P.mods[name], P.mods[name].tree.body, state[name], False)
            par, _, leaf = name.rpartition(".")
            if par in state:
                state[par].add(leaf)

        def block(m, body, ns, safe):
            for s in body:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.name.split(".")[0] == P.top:
                            load(a.name)
                        ns.add(a.asname or a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    src = P.absname(m, s.level, s.module)
                    if src.split(".")[0] == P.top:
                        load(src)
                    for a in s.names:
                        if a.name == "*":
                            if src in state:
                                ns |= state[src]
                            continue
                        if src in P.mods and a.name not in state.get(src, ()):
                            if src + "." + a.name in P.mods:
                                load(src + "." + a.name)
                            elif src + "." + a.name in P.native:
                                pass
                            elif "__getattr__" not in P.bindings(src) and a.name not in R.BUILTINS and not safe:
                                errs.append((m, s.lineno, src, a.name))
                        ns.add(a.asname or a.name)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if isinstance(s, ast.ClassDef):
                        block(m, s.body, set(), safe)
                    ns.add(s.name)
                elif isinstance(s, ast.If):
                    d = ast.dump(s.test)
                    if "'__name__'" in d and "'__main__'" in d:
                        block(m, s.orelse, ns, safe)
                        continue
                    if "TYPE_CHECKING" in d:
                        block(m, s.orelse, ns, safe)
                        continue
                    block(m, s.body, ns, safe)
                    block(m, s.orelse, ns, safe)
                elif isinstance(s, ast.Try):
                    catches = bool(guarded(ast.Module(body=[s], type_ignores=[])))
                    block(m, s.body, ns, safe or catches)
                    for h in s.handlers:
                        block(m, h.body, ns, safe)
                    block(m, s.orelse, ns, safe)
                    block(m, s.finalbody, ns, safe)
                elif isinstance(s, (ast.With, ast.For, ast.While)):
                    block(m, s.body, ns, safe)
                else:
                    for y in ast.walk(s):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            ns.add(y.id)
        load(start)
        w = os.path.relpath(P.mods[start].path, c.repo)
        c.check("importing %s first" % start, w, not errs, "; ".join(
            "%s line %d imports %s from %s, which has not bound it yet" % (os.path.relpath(a.path, c.repo), l, n, s) for a, l, s, n in errs[:3]),
            "%d modules executed" % len(state))


def natives(c, P):
    for nm in sorted(P.native):
        n = P.nat(nm)
        c.check("extension %s has a method table" % nm, P.native[nm], bool(n.table), "no method table found")
        leaf = nm.split(".")[-1]
        src = open(os.path.join(c.repo, P.native[nm]), encoding="utf8").read()
        c.check("extension %s defines its module initialiser" % nm, P.native[nm], re.search(r"\bPyInit_%s\s*\(" % re.escape(leaf), src) is not None,
                "PyInit_%s is not defined" % leaf)


# ---------------------------------------------------------------- calls and attributes
def calls(c, P, m, w, deps):
    n = [0, 0]
    bad = []

    def scope_binds(f):
        out = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        for a in (f.args.vararg, f.args.kwarg):
            if a:
                out.add(a.arg)
        body = f.body if isinstance(f.body, list) else [f.body]
        for s in body:
            for y in ast.walk(s):
                if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                    out.add(y.id)
                elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                    out.add(y.name)
                elif isinstance(y, ast.alias):
                    out.add((y.asname or y.name).split(".")[0])
                elif isinstance(y, ast.ExceptHandler) and y.name:
                    out.add(y.name)
        for s in body:
            for y in ast.walk(s):
                if isinstance(y, ast.Global):
                    out -= set(y.names)
        return out

    def local_imports(f):
        out = {}
        for y in ast.walk(f):
            if isinstance(y, ast.Import):
                for a in y.names:
                    out[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(y, ast.ImportFrom):
                src = P.absname(m, y.level, y.module)
                for a in y.names:
                    if src.split(".")[0] == P.top and a.name != "*":
                        try:
                            out[a.asname or a.name] = P.member(src, a.name)
                        except R.Missing:
                            pass
        return out

    def den(e, env, cls, selfname):
        """denotation of an expression: module, class, function, method, instance or unknown"""
        if isinstance(e, ast.Name):
            if cls is not None and e.id == selfname:
                return ("inst", cls)
            if e.id in env:
                return env[e.id]
            b = P.bindings(m.name).get(e.id)
            if b:
                return P.denote(m.name, b)
            return R.OUTER
        if isinstance(e, ast.Attribute):
            d = den(e.value, env, cls, selfname)
            return member(d, e)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and cls is not None:
                bs = P.bases(cls)
                if bs and len(bs) == 1:
                    return ("inst", bs[0])
                return R.OUTER
            if isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
                d = den(e.args[0], env, cls, selfname)
                return d[1] if isinstance(d, tuple) and d[0] == "inst" else R.OUTER
            d = den(e.func, env, cls, selfname)
            if isinstance(d, R.Cls) and P.mro(d) is not None and not any(k.arg == "metaclass" for k in d.node.keywords):
                return ("inst", d)
            return R.OUTER
        return R.OUTER

    def member(d, e):
        attr = e.attr
        if isinstance(d, tuple) and d[0] == "module":
            if d[1].split(".")[0] != P.top:
                return R.OUTER
            n[1] += 1
            try:
                return P.member(d[1], attr)
            except R.Missing as x:
                bad.append((e.lineno, str(x)))
                return R.OUTER
        if isinstance(d, (R.Cls,)) or (isinstance(d, tuple) and d[0] == "inst"):
            k = d if isinstance(d, R.Cls) else d[1]
            attrs = P.class_attrs(k)
            if attrs is not None and isinstance(e.ctx, ast.Load):
                n[1] += 1
                if attr not in attrs:
                    sub = P.subclass_attrs(k)
                    if sub is not None and attr not in sub and not (isinstance(d, R.Cls) and any(x.arg == "metaclass" for x in k.node.keywords)):
                        bad.append((e.lineno, "%s has no attribute %s" % (k.name, attr)))
                    return R.OUTER
            r = P.mro(k)
            for b in (r or []):
                hit = [s for s in b.node.body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == attr]
                if hit:
                    if len(hit) > 1:
                        return R.OUTER
                    s = hit[0]
                    if isinstance(s, ast.ClassDef):
                        return R.Cls(b.mod, s, b)
                    ds = [R.deco(x) for x in s.decorator_list]
                    if "property" in ds or "cached_property" in ds:
                        return R.OUTER
                    # an instance attribute or subclass may shadow it
                    return ("method", R.Fn(b.mod, s, b), k, "inst" if isinstance(d, tuple) else "class")
            if isinstance(d, tuple) and r:
                return attr_type(k, attr)
        return R.OUTER

    def attr_type(k, attr):
        """class of self.attr when every assignment to it, in the class, its bases and the package, is a call of one class"""
        found = None
        for b in P.mro(k):
            for f in b.node.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args:
                    continue
                me = f.args.args[0].arg
                for y in ast.walk(f):
                    if isinstance(y, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        ts = y.targets if isinstance(y, ast.Assign) else [y.target]
                        for x in ts:
                            els = x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x]
                            for z in els:
                                if isinstance(z, ast.Attribute) and z.attr == attr and isinstance(z.value, ast.Name) and z.value.id == me:
                                    if z is not x or not isinstance(y.value, ast.Call):
                                        return R.OUTER
                                    d = P.expr_static(b.mod, y.value.func) if not isinstance(y.value.func, ast.Attribute) else R.OUTER
                                    if not isinstance(d, R.Cls) or (found is not None and found.node is not d.node):
                                        return R.OUTER
                                    # a local variable shadowing the class name
                                    if isinstance(y.value.func, ast.Name) and y.value.func.id in scope_binds(f):
                                        return R.OUTER
                                    found = d
        # assignments from outside the class (obj.attr = ...) make the type unknown
        if found is not None:
            for mm in P.mods.values():
                for y in ast.walk(mm.tree):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == attr and isinstance(y.value, ast.Name) and y.value.id != "self":
                        return R.OUTER
            return ("inst", found)
        return R.OUTER

    def check_call(e, env, cls, selfname):
        d = den(e.func, env, cls, selfname)
        sig, label = None, None
        if isinstance(d, R.Fn):
            sig, label = P.signature(d, False), d.name
        elif isinstance(d, R.Cls):
            sig, label = P.ctor(d), d.name
        elif isinstance(d, tuple) and d[0] == "method":
            f = d[1]
            ds = [R.deco(x) for x in f.node.decorator_list]
            sig, label = P.signature(f, d[3] == "inst"), "%s.%s" % (d[2].name, f.name)
        elif isinstance(d, tuple) and d[0] == "native":
            nat, attr = d[1], d[2]
            cn, acc = nat.table[attr]
            if acc is not None:
                n[0] += 1
                if e.keywords and not any(k.arg is None for k in e.keywords):
                    bad.append((e.lineno, "compiled %s accepts no keyword arguments" % attr))
                elif not any(isinstance(a, ast.Starred) for a in e.args) and len(e.args) not in acc:
                    bad.append((e.lineno, "compiled %s parses %s arguments, %d are passed" % (attr, "/".join(map(str, sorted(acc))), len(e.args))))
            return
        elif isinstance(d, tuple) and d[0] == "module":
            bad.append((e.lineno, "module %s is called" % d[1])) if d[1].split(".")[0] == P.top else None
            return
        if sig is None:
            return
        n[0] += 1
        why = R.bind(sig, e)
        if why:
            bad.append((e.lineno, "call of %s: %s" % (label, why)))

    def walk(node, env, cls, selfname):
        """visit expressions of this scope; nested scopes get their own environment"""
        for ch in ast.iter_child_nodes(node):
            visit(ch, env, cls, selfname)

    def visit(x, env, cls, selfname):
        if isinstance(x, ast.ClassDef):
            k = R.Cls(m, x, None)
            for d in x.decorator_list + x.bases + [y.value for y in x.keywords]:
                visit(d, env, cls, selfname)
            for s in x.body:
                visit(s, dict(env), k, None)
            return
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in x.args.defaults + [y for y in x.args.kw_defaults if y is not None] + (x.decorator_list if not isinstance(x, ast.Lambda) else []):
                visit(d, env, cls, selfname)
            e2 = dict(env)
            for k in scope_binds(x):
                e2[k] = R.OUTER
            e2.update(local_imports(x) if not isinstance(x, ast.Lambda) else {})
            me, k2 = selfname, cls
            if not isinstance(x, ast.Lambda):
                ds = [R.deco(d) for d in x.decorator_list]
                if cls is not None and selfname is None and x in cls.node.body:
                    ps = x.args.posonlyargs + x.args.args
                    me = None
                    if ps and "staticmethod" not in ds:
                        if "classmethod" in ds:
                            e2[ps[0].arg] = cls
                        else:
                            rebound = any(isinstance(y, ast.Name) and y.id == ps[0].arg and isinstance(y.ctx, ast.Store) for y in ast.walk(x))
                            if not rebound:
                                me = ps[0].arg
                                e2.pop(me, None)
                    if me is None:
                        me = "\0none"
                # local variables assigned exactly once from a class call
                sto = {}
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        sto[y.id] = sto.get(y.id, 0) + 1
                for y in ast.walk(x):
                    if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name) and sto.get(y.targets[0].id) == 1 \
                            and isinstance(y.value, ast.Call) and y.targets[0].id not in [a.arg for a in x.args.args + x.args.kwonlyargs + x.args.posonlyargs]:
                        d = den(y.value, e2, k2, me)
                        if isinstance(d, tuple) and d[0] == "inst":
                            e2[y.targets[0].id] = d
            if me in {a.arg for a in x.args.args} and isinstance(x, ast.Lambda):
                me = "\0none"
            for s in (x.body if isinstance(x.body, list) else [x.body]):
                visit(s, e2, k2, me)
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e2 = dict(env)
            for g in x.generators:
                for y in ast.walk(g.target):
                    if isinstance(y, ast.Name):
                        e2[y.id] = R.OUTER
            walk(x, e2, cls, selfname)
            return
        if isinstance(x, ast.Call):
            check_call(x, env, cls, selfname)
        elif isinstance(x, ast.Attribute):
            den(x, env, cls, selfname)
        if isinstance(x, ast.AnnAssign) or isinstance(x, ast.arg):
            pass
        walk(x, env, cls, selfname)
    walk(m.tree, {}, None, None)
    seen = sorted(set(bad))
    c.check("calls and attributes of %s" % m.name, w, not seen, "; ".join("line %d: %s" % b for b in seen[:4]), "%d calls, %d attributes resolved" % tuple(n))
