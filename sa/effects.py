"""Provenance analysis over the package's syntax trees: for every expression, the library objects, package objects, random
generators, caller parameters and non-deterministic sources it may come from (flow-insensitive within a scope, field-based
between methods, parameters joined over all call sites)."""
import ast, os
from . import resolve as R

SCALARTOK = ("par", "nd", "none", "cwd", "io", "rnd", "oldrnd", "cnt")


class Scope:
    def __init__(self, mod, node, parent, kind, cls=None):
        self.mod, self.node, self.parent, self.kind, self.cls = mod, node, parent, kind, cls
        self.vars = {}
        self.globals, self.nonlocals = set(), set()
        self.locals = set()
        self.ret = set()
        self.name = getattr(node, "name", "<module>" if kind == "module" else "<lambda>")
        self.params = []

    def __repr__(self):
        p = self
        out = []
        while p is not None and p.kind != "module":
            out.append(p.name)
            p = p.parent
        return self.mod.name + "." + ".".join(reversed(out)) if out else self.mod.name

    def fn(self):
        """enclosing function scope (None at module or class level)"""
        p = self
        while p is not None and p.kind not in ("fn", "lambda"):
            if p.kind in ("class", "module"):
                return None
            p = p.parent
        return p

    def outer_fns(self):
        out = []
        p = self
        while p is not None:
            if p.kind == "fn":
                out.append(p)
            p = p.parent
        return out


EMPTY = frozenset()


class Effects:
    def __init__(self, P, special=None):
        """special(eff, scope, call, tokens of the callee, argument tokens) may add tokens to the result of a call"""
        self.P = P
        self.special = special
        self.scopes = {}        # id(node) -> Scope
        self.modscope = {}
        self.classes = {}       # id(ClassDef) -> Scope
        self.fields = {}        # (id(ClassDef), attr) -> set of tokens
        self.calls = {}         # id(call) -> (scope, call, callee tokens)
        self.callers = {}       # id(fn node) -> set of (scope, call)
        self.exprs = {}
        for m in P.mods.values():
            s = Scope(m, m.tree, None, "module")
            self.modscope[m.name] = s
            self.scopes[id(m.tree)] = s
            self.declare(m.tree.body, s)
        self.counters = set()
        self.changed = True
        self.rounds = 0
        while self.changed and self.rounds < 25:
            self.changed = False
            self.rounds += 1
            self.calls = {}
            for s in list(self.scopes.values()):
                self.scan(s)

    # -------------------------------------------------------------- scopes
    def declare(self, body, sc):
        for s in body:
            self.decl(s, sc)

    def decl(self, n, sc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            k = "lambda" if isinstance(n, ast.Lambda) else "fn"
            cls = sc.node if sc.kind == "class" else None
            f = Scope(sc.mod, n, sc, k, cls)
            self.scopes[id(n)] = f
            a = n.args
            f.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
            f.locals |= set(f.params)
            if k == "fn":
                sc.locals.add(n.name)
                for d in n.decorator_list:
                    self.decl(d, sc)
            for d in a.defaults + [x for x in a.kw_defaults if x]:
                self.decl(d, sc)
            if k == "fn":
                self.declare(n.body, f)
            else:
                self.decl(n.body, f)
            return
        if isinstance(n, ast.ClassDef):
            c = Scope(sc.mod, n, sc, "class")
            self.scopes[id(n)] = c
            self.classes[id(n)] = c
            sc.locals.add(n.name)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.decl(d, sc)
            self.declare(n.body, c)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension variables live in the enclosing scope here
            pass
        if isinstance(n, ast.Global):
            sc.globals |= set(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            sc.nonlocals |= set(n.names)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            sc.locals.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != "*":
                    sc.locals.add(a.asname or a.name.split(".")[0])
                else:
                    sc.locals |= set(self.P.star(self.P.absname(sc.mod, n.level, n.module)))
        if isinstance(n, ast.ExceptHandler) and n.name:
            sc.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.decl(c, sc)

    def owner(self, sc, name):
        """scope whose variable `name` denotes"""
        if name in sc.globals:
            return self.modscope[sc.mod.name]
        p = sc
        first = True
        while p is not None:
            if (first or p.kind != "class") and name in p.locals and name not in p.nonlocals and name not in p.globals:
                return p
            first = False
            p = p.parent
        return None

    # -------------------------------------------------------------- tokens
    def put(self, d, key, toks):
        s = d.setdefault(key, set())
        n = len(s)
        s |= toks
        if len(s) != n:
            self.changed = True

    def read(self, sc, name):
        o = self.owner(sc, name)
        if o is None:
            return frozenset({("lib", "builtins." + name)}) if name in R.BUILTINS else EMPTY
        v = o.vars.get(name, ())
        if o.kind in ("module", "class") and sc.fn() is not None:
            return frozenset(self.persist(x, "%s variable %s" % (o.kind, name)) for x in v)
        return frozenset(v)

    def persist(self, tok, why):
        """a token kept in storage that outlives one computation"""
        if tok[0] == "gen":
            return ("old", tok[1], why)
        if tok[0] == "rnd":
            return ("oldrnd", tok[1], why)
        return tok

    def bind(self, sc, name, toks):
        o = self.owner(sc, name) or sc
        self.put(o.vars, name, toks)

    def mod_member(self, name, attr):
        out = set()
        if name in self.modscope and attr in self.modscope[name].locals:
            out |= {self.persist(x, "module variable %s.%s" % (name, attr)) for x in self.modscope[name].vars.get(attr, ())}
        if name in self.P.native:
            return frozenset({("native", name, attr)})
        if not out and self.P.exists(name + "." + attr):
            out.add(("mod", name + "." + attr))
        return frozenset(out)

    def resolve_import(self, dotted):
        t = self.P.top
        if dotted == t or dotted.startswith(t + "."):
            return ("mod", dotted)
        return ("lib", dotted)

    def bases(self, c):
        out = []
        for b in c.node.bases:
            for x in self.ev(b, c.parent):
                if x[0] == "cls":
                    out.append(self.classes[x[1]])
        return out

    def lineage(self, cid):
        out, todo = [], [cid]
        while todo:
            c = todo.pop(0)
            if c in out or c not in self.classes:
                continue
            out.append(c)
            todo += [id(b.node) for b in self.bases(self.classes[c])]
        return out

    def descendants(self, cid):
        return [k for k in self.classes if cid in self.lineage(k)]

    def attr_inst(self, cid, attr, sc=None):
        out = set()
        for k in set(self.lineage(cid)) | set(self.descendants(cid)):
            c = self.classes[k]
            if attr in c.vars:
                for x in c.vars[attr]:
                    if x[0] == "fn":
                        decs = self.scopes[x[1]].node.decorator_list if self.scopes[x[1]].kind == "fn" else []
                        prop = any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") or isinstance(d, ast.Attribute) and
                                   d.attr in ("cached_property", "getter", "setter") for d in decs)
                        if prop:
                            r = self.scopes[x[1]].ret
                            cached = any("cached" in ast.dump(d) for d in decs)
                            out |= {self.persist(y, "cached property %s" % attr) for y in r} if cached else r
                        else:
                            out.add(("bound", x[1], k))
                    else:
                        out.add(self.persist(x, "class variable %s" % attr) if sc is not None and sc.fn() is not None else x)
            for y in self.fields.get((k, attr), ()):
                if y[0] == "gen":
                    y = ("field", y[1], k, attr)
                out.add(y)
        return frozenset(out)

    # -------------------------------------------------------------- expressions
    def data(self, toks):
        return frozenset(x for x in toks if x[0] in SCALARTOK)

    def ev(self, e, sc):
        if e is None:
            return EMPTY
        m = getattr(self, "e_" + type(e).__name__, None)
        r = m(e, sc) if m else self.e_other(e, sc)
        self.exprs[id(e)] = r
        return r

    def e_other(self, e, sc):
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.data(self.ev(c, sc))
        return frozenset(out)

    def e_Constant(self, e, sc):
        return frozenset({("none",)}) if e.value is None else EMPTY

    def e_Name(self, e, sc):
        return self.read(sc, e.id) if isinstance(e.ctx, ast.Load) else EMPTY

    def e_Lambda(self, e, sc):
        return frozenset({("fn", id(e))})

    def e_IfExp(self, e, sc):
        self.ev(e.test, sc)
        return self.ev(e.body, sc) | self.ev(e.orelse, sc)

    def e_BoolOp(self, e, sc):
        out = set()
        for i, v in enumerate(e.values):
            r = self.ev(v, sc)
            if isinstance(e.op, ast.Or) and i < len(e.values) - 1:
                r = frozenset(x for x in r if x != ("none",))
            out |= r
        return frozenset(out)

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        self.bind(sc, e.target.id, v)
        return v

    def e_BinOp(self, e, sc):
        a, b = self.ev(e.left, sc), self.ev(e.right, sc)
        out = {x for x in self.data(a | b) if x != ("none",)}
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            out |= {x for x in a | b if x[0] == "set"}
        if isinstance(e.op, (ast.Add, ast.Mult)):
            out |= {x for x in a | b if x[0] == "unord"}
        if isinstance(e.op, ast.Div):
            out |= {x for x in a | b if x[0] == "path"}
        return frozenset(out)

    def e_Compare(self, e, sc):
        self.ev(e.left, sc)
        vals = [self.ev(c, sc) for c in e.comparators]
        if all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
            return EMPTY
        return self.data(self.exprs[id(e.left)] | frozenset().union(*vals)) - {("none",)}

    def e_Tuple(self, e, sc):
        return frozenset().union(*[self.ev(x, sc) for x in e.elts]) if e.elts else EMPTY
    e_List = e_Tuple

    def e_Set(self, e, sc):
        const = all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts)
        strs = any(isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) for x in e.elts)
        r = frozenset().union(*[self.data(self.ev(x, sc)) for x in e.elts])
        return r if const else r | {("set", "str" if strs else "?")}

    def e_Dict(self, e, sc):
        out = set()
        for x in list(e.keys) + list(e.values):
            if x is not None:
                out |= self.ev(x, sc)
        return frozenset(out)

    def gens(self, e, sc):
        for g in e.generators:
            v = self.ev(g.iter, sc)
            self.target(g.target, self.elem(v), sc)
            for i in g.ifs:
                self.ev(i, sc)
            yield v

    def elem(self, v):
        return frozenset(x for x in v if x[0] not in ("set", "unord"))

    def e_ListComp(self, e, sc):
        its = list(self.gens(e, sc))
        un = {("unord", x[1]) for v in its for x in v if x[0] in ("set", "unord")}
        return self.ev(e.elt, sc) | un
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, sc):
        list(self.gens(e, sc))
        return self.ev(e.elt, sc) | {("set", "?")}

    def e_DictComp(self, e, sc):
        its = list(self.gens(e, sc))
        un = {("unord", x[1]) for v in its for x in v if x[0] in ("set", "unord")}
        return self.ev(e.key, sc) | self.ev(e.value, sc) | un

    def e_Starred(self, e, sc):
        return self.ev(e.value, sc)

    def e_Await(self, e, sc):
        return self.ev(e.value, sc)

    def e_Yield(self, e, sc):
        if e.value is not None:
            v = self.ev(e.value, sc)
            f = sc.fn()
            if f is not None:
                n = len(f.ret)
                f.ret |= v
                self.changed |= len(f.ret) != n
        return EMPTY
    e_YieldFrom = e_Yield

    def e_Attribute(self, e, sc):
        base = self.ev(e.value, sc)
        if not isinstance(e.ctx, ast.Load):
            return EMPTY
        out = set(self.data(base)) - {("none",)}
        for x in base:
            if x[0] == "lib":
                out.add(("lib", x[1] + "." + e.attr))
            elif x[0] == "libobj":
                out.add(("libobj", x[1] + "." + e.attr))
            elif x[0] == "mod":
                out |= self.mod_member(x[1], e.attr)
            elif x[0] == "inst":
                out |= self.attr_inst(x[1], e.attr, sc)
                if (x[1], e.attr) in self.counters:
                    out.add(("cnt", "attribute " + e.attr))
            elif x[0] == "cls":
                for y in self.attr_inst(x[1], e.attr, sc):
                    out.add(("fn", y[1]) if y[0] == "bound" else y)
            elif x[0] == "par":
                out.add(x)
            elif x[0] in ("gen", "old", "field", "cached"):
                out.add(("draw", x, e.attr))
            elif x[0] == "set":
                out.add(("setm", e.attr, x[1]))
            elif x[0] == "path":
                out.add(("pathm", e.attr))
        if e.attr in ("columns", "index", "keys", "dtypes"):
            out.add(("names",))
        return frozenset(out)

    def e_Subscript(self, e, sc):
        b = self.ev(e.value, sc)
        s = self.ev(e.slice, sc)
        out = {x for x in b if x[0] not in ("set",)} | (self.data(s) - {("none",)})
        return frozenset(("libobj", x[1] + "[]") if x[0] == "lib" else x for x in out)

    def e_JoinedStr(self, e, sc):
        return self.e_other(e, sc)

    def e_FormattedValue(self, e, sc):
        return self.data(self.ev(e.value, sc))

    def args_of(self, e, sc):
        pos = [self.ev(a, sc) for a in e.args]
        kw = {k.arg: self.ev(k.value, sc) for k in e.keywords}
        return pos, kw

    def e_Call(self, e, sc):
        f = self.ev(e.func, sc)
        pos, kw = self.args_of(e, sc)
        allargs = frozenset().union(*pos, *kw.values()) if (pos or kw) else EMPTY
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.owner(sc, "super") is None:
            p = sc
            while p is not None and p.cls is None:
                p = p.parent
            if p is not None:
                return frozenset(("inst", id(b.node)) for b in self.bases(self.classes[id(p.cls)]))
        self.calls[id(e)] = (sc, e, f, pos, kw)
        out = set()
        known = False
        for x in f:
            if x[0] in ("fn", "bound"):
                known = True
                out |= self.enter(x, e, sc, pos, kw)
            elif x[0] == "cls":
                known = True
                out.add(("inst", x[1]))
                for y in self.attr_inst(x[1], "__init__"):
                    if y[0] == "bound":
                        self.enter(y, e, sc, pos, kw)
                for y in self.attr_inst(x[1], "__call__"):
                    pass
            elif x[0] == "inst":
                for y in self.attr_inst(x[1], "__call__"):
                    if y[0] == "bound":
                        known = True
                        out |= self.enter(y, e, sc, pos, kw)
            elif x[0] == "lib":
                known = True
                out |= self.lib_call(x[1], e, sc, pos, kw, allargs)
        if not known:
            out |= self.data(f | allargs) - {("none",)}
            for x in f:
                if x[0] == "libobj":
                    out.add(("libobj", x[1] + "()"))
            if isinstance(e.func, ast.Attribute):
                base = self.exprs.get(id(e.func.value), EMPTY)
                if e.func.attr in ("copy", "union", "intersection", "difference", "symmetric_difference"):
                    out |= {x for x in base if x[0] == "set"}
                if e.func.attr in ("get", "pop", "setdefault", "__getitem__", "values", "items"):
                    out |= {x for x in base if x[0] in ("gen", "old", "field", "fn", "cls", "inst", "unord")}
                if e.func.attr in ("append", "extend", "add", "insert", "update", "setdefault", "__setitem__"):
                    self.absorb(e.func.value, allargs, sc)
                if e.func.attr == "join" and any(x[0] in ("set", "unord") for x in allargs):
                    out.add(("unord", next(x[1] for x in allargs if x[0] in ("set", "unord"))))
                if e.func.attr in ("keys",):
                    out.add(("names",))
                if e.func.attr in ("joinpath", "resolve", "absolute", "with_suffix", "parent", "expanduser"):
                    out |= {x for x in base if x[0] == "path"}
        if self.special is not None:
            out |= self.special(self, sc, e, f, pos, kw)
        # functions handed to library callbacks are entered with unknown arguments
        if not any(x[0] in ("fn", "bound", "cls") for x in f):
            for x in allargs:
                if x[0] in ("fn", "bound"):
                    self.callers.setdefault(x[1], set()).add((id(sc.node), id(e)))
                    out |= {y for y in self.scopes[x[1]].ret if y[0] in SCALARTOK and y != ("none",)}
        return frozenset(out)

    def absorb(self, tgt, toks, sc):
        if isinstance(tgt, ast.Name):
            self.bind(sc, tgt.id, toks)
        elif isinstance(tgt, ast.Attribute):
            self.store(tgt, toks, sc)
        elif isinstance(tgt, ast.Subscript):
            self.absorb(tgt.value, toks, sc)

    def lib_call(self, path, e, sc, pos, kw, allargs):
        out = set(self.data(allargs))
        last = path.rsplit(".", 1)[-1]
        if path in ("builtins.set", "builtins.frozenset"):
            st = any(x == ("names",) for x in allargs) or any(isinstance(a, (ast.List, ast.Tuple)) and any(
                isinstance(y, ast.Constant) and isinstance(y.value, str) for y in a.elts) for a in e.args)
            out.add(("set", "str" if st else "?"))
            return out
        if path in ("builtins.sorted",):
            return {x for x in allargs if x[0] not in ("set", "unord", "none")}
        if path in ("builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "builtins.map", "builtins.filter", "builtins.iter",
                    "builtins.next", "builtins.reversed", "builtins.dict", "numpy.array", "numpy.asarray", "numpy.fromiter", "pandas.Index",
                    "pandas.Series", "pandas.DataFrame", "collections.OrderedDict", "itertools.chain", "itertools.product",
                    "itertools.combinations", "itertools.permutations", "itertools.islice"):
            for x in allargs:
                if x[0] in ("set", "unord"):
                    out.add(("unord", x[1]))
                elif x[0] in ("gen", "old", "field", "fn", "inst", "cls"):
                    out.add(x)
            if path in ("builtins.map", "builtins.filter"):
                for x in allargs:
                    if x[0] in ("fn", "bound"):
                        out |= self.enter(x, None, sc, pos[1:], {})
        if path in ("functools.partial", "functools.lru_cache", "functools.cache", "functools.wraps", "numpy.vectorize"):
            for x in allargs:
                if x[0] in ("fn", "bound", "lib"):
                    out.add(x)
        if path in ("copy.copy", "copy.deepcopy"):
            out |= set(allargs)
        if path.startswith("pathlib.") and last in ("Path", "PurePath", "cwd", "home"):
            out.add(("path",))
        out.discard(("none",))
        out.add(("libobj", path + "()"))
        return out

    def enter(self, x, e, sc, pos, kw):
        f = self.scopes[x[1]]
        if e is not None:
            self.callers.setdefault(x[1], set()).add((id(sc.node), id(e)))
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(f.node, "decorator_list", ()))
        off = 1 if x[0] == "bound" and not static else 0
        starred = e is not None and (any(isinstance(q, ast.Starred) for q in e.args))
        for i, v in enumerate(pos):
            if starred:
                for nme in names[off:]:
                    self.put(f.vars, nme, v)
            elif i + off < len(names):
                self.put(f.vars, names[i + off], v)
            elif a.vararg:
                self.put(f.vars, a.vararg.arg, v)
        for k, v in kw.items():
            if k is None:
                for nme in names[off:] + [p.arg for p in a.kwonlyargs]:
                    self.put(f.vars, nme, v - {("none",)})
            elif k in f.params:
                self.put(f.vars, k, v)
            elif a.kwarg:
                self.put(f.vars, a.kwarg.arg, v)
        cached = any(any(w in ast.dump(d) for w in ("lru_cache", "'cache'", "cached")) for d in getattr(f.node, "decorator_list", ()))
        if cached:
            return {self.persist(y, "result cached by %s" % f.name) for y in f.ret}
        return set(f.ret)

    # -------------------------------------------------------------- statements
    def scan(self, sc):
        n = sc.node
        if sc.kind in ("fn", "lambda"):
            a = n.args
            ps = a.posonlyargs + a.args
            for i, p in enumerate(ps + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]):
                first = sc.cls is not None and i == 0 and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in n.decorator_list)
                if first:
                    cm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in n.decorator_list)
                    self.put(sc.vars, p.arg, {("cls" if cm else "inst", id(sc.cls))})
                else:
                    self.put(sc.vars, p.arg, {("par", id(n), p.arg)})
                    self.annot(p, sc)
            for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
                v = self.ev(d, sc.parent)
                if ("none",) in v and self.none_handled(n, p.arg):
                    v = v - {("none",)}
                self.put(sc.vars, p.arg, {self.persist(x, "default value of %s" % p.arg) for x in v})
        if sc.kind == "lambda":
            v = self.ev(n.body, sc)
            k = len(sc.ret)
            sc.ret |= v
            self.changed |= len(sc.ret) != k
            return
        if sc.kind == "class":
            for d in n.decorator_list + n.bases:
                self.ev(d, sc.parent)
        self.body(n.body, sc)

    def annot(self, p, sc):
        e = p.annotation
        if e is None:
            return
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return
        if isinstance(e, (ast.Name, ast.Attribute)):
            for x in self.ev(e, sc.parent):
                if x[0] == "cls":
                    self.put(sc.vars, p.arg, {("inst", x[1])})
        else:
            for y in ast.walk(e):
                if isinstance(y, (ast.Name, ast.Attribute)) and isinstance(getattr(y, "ctx", None), ast.Load):
                    for x in self.ev(y, sc.parent):
                        if x[0] == "cls":
                            self.put(sc.vars, p.arg, {("inst", x[1])})

    def none_handled(self, fn, name):
        """the function replaces a missing value of the parameter"""
        for x in ast.walk(fn):
            if isinstance(x, (ast.If, ast.IfExp)):
                t = x.test
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == name and len(t.ops) == 1 and \
                        isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and \
                        t.comparators[0].value is None:
                    if isinstance(x, ast.IfExp):
                        return True
                    blk = x.body if isinstance(t.ops[0], (ast.Is, ast.Eq)) else x.orelse
                    for s in blk:
                        if isinstance(s, ast.Assign) and any(isinstance(y, ast.Name) and y.id == name for y in s.targets) or \
                                isinstance(s, (ast.Raise, ast.Return)):
                            return True
        return False

    def body(self, stmts, sc):
        for s in stmts:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.ev(d, sc)
            self.bind(sc, s.name, {("fn", id(s))})
        elif isinstance(s, ast.ClassDef):
            self.bind(sc, s.name, {("cls", id(s))})
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    self.bind(sc, a.asname, {self.resolve_import(a.name)})
                else:
                    self.bind(sc, a.name.split(".")[0], {self.resolve_import(a.name.split(".")[0])})
        elif isinstance(s, ast.ImportFrom):
            src = self.P.absname(sc.mod, s.level, s.module)
            for a in s.names:
                for nm in (self.P.star(src) if a.name == "*" else [a.name]):
                    tk = self.resolve_import(src)
                    v = self.mod_member(src, nm) if tk[0] == "mod" else {("lib", src + "." + nm)}
                    self.bind(sc, a.asname or nm, set(v))
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, sc)
            for t in s.targets:
                self.target(t, v, sc, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.target(s.target, self.ev(s.value, sc), sc)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, sc)
            self.target(s.target, frozenset(x for x in v if x[0] in SCALARTOK + ("unord",)) - {("none",)}, sc)
            f = sc.fn()
            if f is not None and f.name != "__init__":
                t = s.target
                if isinstance(t, ast.Attribute):
                    for x in self.ev(t.value, sc):
                        if x[0] in ("inst", "cls") and (x[1], t.attr) not in self.counters and not self.reset_in(f, t):
                            self.counters.add((x[1], t.attr))
                            self.changed = True
                elif isinstance(t, ast.Name) and t.id in sc.globals:
                    self.bind(sc, t.id, {("cnt", "module variable " + t.id)})
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, sc)
            f = sc.fn()
            if f is not None:
                n = len(f.ret)
                f.ret |= v
                self.changed |= len(f.ret) != n
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ev(s.iter, sc)
            self.target(s.target, self.elem(v), sc)
            self.body(s.body, sc)
            self.body(s.orelse, sc)
        elif isinstance(s, (ast.While, ast.If)):
            self.ev(s.test, sc)
            self.body(s.body, sc)
            self.body(s.orelse, sc)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, sc)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, v, sc)
            self.body(s.body, sc)
        elif isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            self.body(s.body, sc)
            for h in s.handlers:
                self.ev(h.type, sc)
                self.body(h.body, sc)
            self.body(s.orelse, sc)
            self.body(s.finalbody, sc)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, sc)
        elif isinstance(s, ast.Match):
            v = self.ev(s.subject, sc)
            for c in s.cases:
                self.ev(c.guard, sc)
                for y in ast.walk(c.pattern):
                    nm = getattr(y, "name", None) or getattr(y, "rest", None)
                    if isinstance(nm, str):
                        sc.locals.add(nm)
                        self.bind(sc, nm, v)
                self.body(c.body, sc)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, sc)

    def reset_in(self, f, t):
        """the attribute is assigned afresh by the same function"""
        return any(isinstance(x, ast.Assign) and any(isinstance(y, ast.Attribute) and y.attr == t.attr for y in x.targets) for x in ast.walk(f.node))

    def target(self, t, v, sc, src=None):
        if isinstance(t, ast.Name):
            self.bind(sc, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + src.elts):
                for a, b in zip(t.elts, src.elts):
                    self.target(a, self.exprs.get(id(b), EMPTY), sc, b)
            else:
                for a in t.elts:
                    self.target(a, v, sc)
        elif isinstance(t, ast.Starred):
            self.target(t.value, v, sc)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.store(t, v, sc)

    def store(self, t, v, sc):
        if isinstance(t, ast.Attribute):
            for x in self.ev(t.value, sc):
                if x[0] == "inst":
                    self.put(self.fields, (x[1], t.attr), set(v))
                elif x[0] == "cls":
                    self.put(self.classes[x[1]].vars, t.attr, set(v))
                elif x[0] == "mod" and x[1] in self.modscope:
                    self.put(self.modscope[x[1]].vars, t.attr, set(v))
        else:
            self.ev(t.slice, sc)
            self.absorb(t.value, frozenset(x for x in v if x[0] not in ("set", "none")), sc)
            self.ev(t.value, sc)

    # -------------------------------------------------------------- queries
    def where(self, sc, n):
        return "%s:%d %s" % (os.path.relpath(sc.mod.path, self.P.repo), n.lineno, sc.name)

    def parents(self):
        if not hasattr(self, "_par"):
            self._par = {}
            for m in self.P.mods.values():
                for x in ast.walk(m.tree):
                    for c in ast.iter_child_nodes(x):
                        self._par[id(c)] = x
        return self._par
