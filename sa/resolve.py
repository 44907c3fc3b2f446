"""Import, name, export and call resolution over the package's syntax trees and the extension method tables."""
import ast, builtins, os, re, symtable, sys
from . import clangast, cxx

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__", "__class__",
                                 "__module__", "__qualname__", "__annotations__", "__dict__"}


class Mod:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.pkg = os.path.basename(path) == "__init__.py"


class Native:
    """an extension module: Python name -> (C function, set of accepted argument counts or None)"""

    def __init__(self, name, table, path):
        self.name, self.table, self.path = name, table, path


class Cls:
    def __init__(self, mod, node, encl=None):
        self.mod, self.node, self.encl = mod, node, encl
        self.name = node.name


class Fn:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name


class Outer:
    """something outside the package, or nothing known about it"""


OUTER = Outer()


class Missing(Exception):
    pass


def parse_formats(unit, cname):
    """argument counts accepted by the tuple formats of a C entry point; None when it reads its arguments otherwise"""
    out = set()
    for d in unit.all():
        if d.kind in ("FunctionDecl",) and d.get("name") == cname and any(x.kind == "CompoundStmt" for x in d.inner):
            for e in d.walk():
                if e.kind == "CallExpr" and e.inner:
                    f = cxx.strip(e.inner[0])
                    nm = f.get("referencedDecl", {}).get("name") if f.kind == "DeclRefExpr" else None
                    if nm in ("PyArg_ParseTuple", "_PyArg_ParseTuple_SizeT"):
                        s = cxx.strip(e.inner[2])
                        if s.kind != "StringLiteral":
                            return None
                        lo, hi = units(s.get("value").strip('"'))
                        out |= set(range(lo, hi + 1))
                    elif nm and nm.startswith(("PyArg_", "_PyArg_")):
                        return None
    return out or None


def units(fmt):
    fmt = re.split(r"[:;]", fmt)[0]
    n, lo, i, depth = 0, None, 0, 0
    while i < len(fmt):
        ch = fmt[i]
        if ch == "|":
            lo = n
        elif ch == "(":
            if depth == 0:
                n += 1
            depth += 1
        elif ch == ")":
            depth -= 1
        elif ch in "!&#*$":
            pass
        elif ch == "e":
            i += 1
            if depth == 0:
                n += 1
        elif depth == 0:
            n += 1
        i += 1
    return (n if lo is None else lo), n


class Package:
    def __init__(self, repo, top="frds"):
        self.repo, self.top = repo, top
        self.root = os.path.join(repo, "src")
        self.mods, self.bad = {}, []
        base = os.path.join(self.root, top)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                src = open(p, encoding="utf8").read()
                try:
                    tree = ast.parse(src)
                except SyntaxError as e:
                    self.bad.append((p, "line %s: %s" % (e.lineno, e.msg)))
                    continue
                self.mods[".".join(rel)] = Mod(".".join(rel), p, tree, src)
        self.native = {}
        for nm, s in cxx.sources(repo).items():
            self.native[nm] = s[0]
        self._nat = {}
        self._binds = {}

    def nat(self, name):
        if name not in self._nat:
            u = clangast.unit(self.repo, self.native[name])
            tab = cxx.method_table(u)
            self._nat[name] = Native(name, {k: (v, parse_formats(u, v)) for k, v in tab.items()}, self.native[name])
        return self._nat[name]

    def ispkg(self, name):
        return os.path.isdir(os.path.join(self.root, *name.split(".")))

    def exists(self, name):
        return name in self.mods or name in self.native or (name == self.top or (name.startswith(self.top + ".") and self.ispkg(name)))

    def absname(self, mod, level, module):
        if not level:
            return module or ""
        parts = mod.name.split(".")
        if not mod.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))

    # ------------------------------------------------------------ module-level bindings
    def bindings(self, name):
        """name -> list of binding nodes (FunctionDef, ClassDef, ('mod', dotted), ('from', dotted, attr), other)"""
        if name in self._binds:
            return self._binds[name]
        out = {}
        self._binds[name] = out
        m = self.mods.get(name)
        if m is None:
            return out

        def add(k, v):
            out.setdefault(k, []).append(v)

        def tgt(x):
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                    add(y.id, ("value", y))

        def block(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    add(s.name, s)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            add(a.asname, ("mod", a.name))
                        else:
                            add(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
                elif isinstance(s, ast.ImportFrom):
                    src = self.absname(m, s.level, s.module)
                    for a in s.names:
                        if a.name == "*":
                            for k in self.star(src):
                                add(k, ("from", src, k))
                        else:
                            add(a.asname or a.name, ("from", src, a.name))
                else:
                    for fld in ("body", "orelse", "finalbody"):
                        block(getattr(s, fld, []) if isinstance(getattr(s, fld, []), list) else [])
                    for h in getattr(s, "handlers", []):
                        if h.name:
                            add(h.name, ("value", h))
                        block(h.body)
                    for fld in ("targets", "target", "items", "test", "iter", "value"):
                        v = getattr(s, fld, None)
                        for x in (v if isinstance(v, list) else [v]):
                            if isinstance(x, ast.withitem):
                                if x.optional_vars is not None:
                                    tgt(x.optional_vars)
                            elif isinstance(x, ast.AST):
                                if fld in ("targets", "target"):
                                    if isinstance(s, ast.AnnAssign) and s.value is None and not isinstance(x, ast.Name):
                                        continue
                                    tgt(x)
                                else:
                                    for y in ast.walk(x):
                                        if isinstance(y, ast.NamedExpr):
                                            tgt(y.target)
                    if isinstance(s, ast.Match) if hasattr(ast, "Match") else False:
                        for cs in s.cases:
                            block(cs.body)
        block(m.tree.body)
        # names declared global in functions
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global):
                for k in f.names:
                    add(k, ("value", f))
        return out

    def star(self, src):
        m = self.mods.get(src)
        if m is None:
            return []
        al = self.all_of(m)
        if al is not None:
            return al
        return [k for k in self.bindings(src) if not k.startswith("_")]

    def all_of(self, m):
        out = None
        for s in m.tree.body:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(x, ast.Name) and x.id == "__all__" for x in ts) and isinstance(s.value, (ast.List, ast.Tuple)):
                    out = (out or []) + [e.value for e in s.value.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)]
        return out

    def member(self, modname, attr):
        """what `modname.attr` denotes; Missing when the package's own module has no such name"""
        if not (modname == self.top or modname.startswith(self.top + ".")):
            return OUTER
        if modname in self.native:
            n = self.nat(modname)
            if attr in n.table:
                return ("native", n, attr)
            if attr.startswith("__"):
                return OUTER
            raise Missing("extension module %s has no function %s" % (modname, attr))
        if modname not in self.mods:
            if self.ispkg(modname):
                if self.exists(modname + "." + attr):
                    return ("module", modname + "." + attr)
                raise Missing("package %s has no member %s" % (modname, attr))
            raise Missing("there is no module %s" % modname)
        b = self.bindings(modname)
        if attr in b:
            return self.denote(modname, b[attr])
        if self.exists(modname + "." + attr):
            return ("module", modname + "." + attr)
        if attr in BUILTINS or "__getattr__" in b:
            return OUTER
        raise Missing("module %s defines no %s" % (modname, attr))

    def denote(self, modname, bs):
        """a module-level name with several bindings (fallbacks) denotes something only when one of them is in the package"""
        vals = [b for b in bs]
        if len(vals) != 1:
            cand = [b for b in vals if isinstance(b, tuple) and b[0] in ("from", "mod")]
            if len(cand) == 1 and all(isinstance(b, tuple) for b in vals):
                vals = cand           # import with a fallback value
            else:
                return OUTER
        b = vals[0]
        m = self.mods[modname]
        if isinstance(b, ast.ClassDef):
            return Cls(m, b)
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return Fn(m, b)
        if b[0] == "mod":
            return ("module", b[1])
        if b[0] == "from":
            if b[1] == self.top or b[1].startswith(self.top + "."):
                if (b[1], b[2]) == (modname, None):
                    return OUTER
                try:
                    return self.member(b[1], b[2])
                except Missing:
                    return OUTER      # reported at the import itself
            return OUTER
        if b[0] == "value":
            # NAME = OtherName
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and s.targets[0] is b[1] and isinstance(s.value, ast.Name):
                    bb = self.bindings(modname).get(s.value.id)
                    if bb and not any(x is b for x in bb):
                        return self.denote(modname, bb)
        return OUTER

    # ------------------------------------------------------------ classes
    def bases(self, c):
        """intra-package bases, or None when some base is outside"""
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name) and b.id in ("object",):
                continue
            d = self.expr_static(c.mod, b, c)
            if isinstance(d, Cls):
                out.append(d)
            else:
                return None
        return out

    def mro(self, c, seen=()):
        bs = self.bases(c)
        if bs is None or any(k.arg == "metaclass" for k in c.node.keywords):
            if bs is None:
                return None
        out = [c]
        for b in bs:
            if b.node in [s for s in seen]:
                return None
            r = self.mro(b, tuple(seen) + (c.node,))
            if r is None:
                return None
            out += [x for x in r if x.node not in [o.node for o in out]]
        return out

    def expr_static(self, mod, e, cls=None):
        """denotation of a dotted name at module (or class) level"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return OUTER
        if isinstance(e, ast.Name):
            if cls is not None:
                for s in cls.node.body:
                    if isinstance(s, ast.ClassDef) and s.name == e.id:
                        return Cls(mod, s, cls)
            b = self.bindings(mod.name).get(e.id)
            return self.denote(mod.name, b) if b else OUTER
        if isinstance(e, ast.Attribute):
            d = self.expr_static(mod, e.value, cls)
            return self.attr_of(d, e.attr)
        return OUTER

    def attr_of(self, d, attr):
        if isinstance(d, tuple) and d[0] == "module":
            try:
                return self.member(d[1], attr) if d[1].split(".")[0] == self.top else OUTER
            except Missing:
                raise
        if isinstance(d, Cls):
            r = self.mro(d)
            for c in (r or [d]):
                for s in c.node.body:
                    if isinstance(s, ast.ClassDef) and s.name == attr:
                        return Cls(c.mod, s, c)
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == attr:
                        return ("method", Fn(c.mod, s, c), d, "class")
            return OUTER
        return OUTER

    def class_attrs(self, c):
        """names every instance or the class may carry; None when unknowable"""
        r = self.mro(c)
        if r is None:
            return None
        out = set(dir(object)) | {"__dict__", "__annotations__", "__name__", "__qualname__", "__mro__", "__subclasses__"}
        for k in r:
            if any(kw.arg == "metaclass" for kw in k.node.keywords):
                pass
            for d in k.node.decorator_list:
                nm = deco(d)
                if nm == "dataclass":
                    out |= {"__dataclass_fields__", "__post_init__"}
                elif nm not in ("total_ordering", "final", "runtime_checkable"):
                    return None
            for s in k.node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if s.name in ("__getattr__", "__getattribute__"):
                        return None
                    out.add(s.name)
                else:
                    for y in ast.walk(s):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            out.add(y.id)
                        if isinstance(y, ast.alias):
                            out.add((y.asname or y.name).split(".")[0])
            for f in k.node.body:
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.args.args + f.args.posonlyargs:
                    me = (f.args.posonlyargs + f.args.args)[0].arg
                    for y in ast.walk(f):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, (ast.Store, ast.Del)) and isinstance(y.value, ast.Name) and y.value.id == me:
                            out.add(y.attr)
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("setattr", "vars"):
                            return None
                        if isinstance(y, ast.Attribute) and y.attr == "__dict__":
                            return None
        return out

    def subclass_attrs(self, c):
        out = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef) and n is not c.node:
                    k = Cls(m, n)
                    r = self.mro(k)
                    if r and any(x.node is c.node for x in r):
                        a = self.class_attrs(k)
                        if a is None:
                            return None
                        out |= a
        return out

    # ------------------------------------------------------------ calls
    def signature(self, fn, bound):
        a = fn.node.args
        decos = [deco(d) for d in fn.node.decorator_list]
        known = {"staticmethod", "classmethod", "property", "lru_cache", "cache", "cached_property", "njit", "jit", "abstractmethod", "override",
                 "wraps", "singledispatch", "setter", "overload", "final"}
        if any(d not in known for d in decos) or any(d in ("property", "cached_property", "setter", "overload", "singledispatch", "wraps") for d in decos):
            return None
        pos = [x.arg for x in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        nd = len(a.defaults)
        req = set(pos[:len(pos) - nd])
        kwo = [x.arg for x in a.kwonlyargs]
        kreq = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        if fn.cls is not None and "staticmethod" not in decos and (bound or "classmethod" in decos):
            if pos:
                req.discard(pos[0])
                if npo:
                    npo -= 1
                pos = pos[1:]
            elif not a.vararg:
                return ([], 0, set(), [], set(), False, False, "takes no arguments but is called on an object")
        return (pos, npo, req, kwo, kreq, a.vararg is not None, a.kwarg is not None, None)

    def ctor(self, c):
        """signature of a class call; None when unknown"""
        r = self.mro(c)
        if r is None or any(k.node.keywords for k in r):
            return None
        for k in r:
            ds = [deco(d) for d in k.node.decorator_list]
            for s in k.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == "__new__":
                    return None
                if isinstance(s, ast.FunctionDef) and s.name == "__init__":
                    return self.signature(Fn(k.mod, s, k), True)
            if "dataclass" in ds:
                fields, req = [], set()
                for b in reversed(r):
                    for s in b.node.body:
                        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                            if "ClassVar" in ast.dump(s.annotation):
                                continue
                            if isinstance(s.value, ast.Call) and deco(s.value) == "field":
                                kws = {x.arg: x.value for x in s.value.keywords}
                                if "init" in kws or "kw_only" in kws:
                                    return None
                                if s.target.id not in fields:
                                    fields.append(s.target.id)
                                if not ({"default", "default_factory"} & set(kws)):
                                    req.add(s.target.id)
                                continue
                            if s.target.id not in fields:
                                fields.append(s.target.id)
                            if s.value is None:
                                req.add(s.target.id)
                            else:
                                req.discard(s.target.id)
                return (fields, 0, req, [], set(), False, False, None)
            if any(d not in ("dataclass", "total_ordering", "final") for d in ds):
                return None
        return ([], 0, set(), [], set(), False, False, None)


def deco(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else "?"


def bind(sig, call):
    """why the call cannot bind to the signature, or None"""
    pos, npo, req, kwo, kreq, va, kw, why = sig
    if why:
        return why
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if not va and n > len(pos):
        return "%d positional arguments for %d parameters" % (n, len(pos))
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not star:
            return "argument %s given twice" % k.arg
        if k.arg in pos[:npo] or (k.arg not in pos and k.arg not in kwo):
            if not kw:
                return "there is no parameter %s" % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [p for p in pos if p in req and p not in given]
        if miss:
            return "missing argument %s" % ", ".join(miss)
    if not dstar:
        miss = [p for p in kreq if p not in given]
        if miss:
            return "missing keyword argument %s" % ", ".join(miss)
    return None
