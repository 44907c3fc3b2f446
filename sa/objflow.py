"""Object-level abstract interpreter for code that only wires objects together (classes, metaclasses, properties,
caches, paths).  Values are exact where they are strings, constants or objects of the analysed code; the module's own
location and the working directory are distinguished symbolic roots; library calls become recorded events or opaque
values.  A branch on an unknown value is undecided, never guessed."""
import ast, os, posixpath
from .terms import Undecided

PKG, CWD, HOME = "/<pkg>", "/<cwd>", "/<home>"


class Lib:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<%s>" % self.path


class Opaque:
    def __init__(self, why):
        self.why = why


class Class:
    def __init__(self, name, bases, meta, ns, mod):
        self.name, self.bases, self.meta, self.ns, self.mod = name, bases, meta, ns, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for k in b.mro():
                    if k in out:
                        out.remove(k)
                    out.append(k)
        return out


class Inst:
    def __init__(self, cls):
        self.cls, self.ns = cls, {}


class Func:
    def __init__(self, node, env, owner=None):
        self.node, self.env, self.owner = node, env, owner
        self.ns = {}
        self.defaults, self.kwdefaults = [], []


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Wrap:
    """property / cached_property / classmethod / staticmethod / cache"""
    def __init__(self, kind, f):
        self.kind, self.f, self.memo, self.name = kind, f, {}, None


class Super:
    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj


class Path:
    def __init__(self, s):
        self.s = s


class Data:
    def __init__(self, rid, index, parsed):
        self.rid, self.index, self.parsed = rid, index, parsed


class Module:
    def __init__(self, name, path):
        self.name, self.path, self.ns = name, path, {}


class Raised(Exception):
    def __init__(self, name, val=None):
        self.name, self.val = name, val


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Env:
    def __init__(self, ns, parent, mod, cls=None):
        self.ns, self.parent, self.mod, self.cls, self.glob = ns, parent, mod, cls, set()


EXC = {"Exception": {"*"}, "BaseException": {"*"}, "OSError": {"FileNotFoundError", "OSError", "IOError"}, "IOError": {"FileNotFoundError", "OSError"},
       "EnvironmentError": {"FileNotFoundError", "OSError"}, "FileNotFoundError": {"FileNotFoundError"}, "LookupError": {"KeyError", "IndexError"}}


class World:
    """one configuration: which files exist, and whether a read fails"""
    def __init__(self, exists, failing=0):
        self.exists, self.failing = exists, failing
        self.reads, self.cwd = [], CWD + "0"


class Flow:
    def __init__(self, root, top, world):
        self.root, self.top, self.w = root, top, world
        self.mods, self.steps, self.depth, self.fns = {}, 0, 0, set()
        self.keep = []

    # ---------------------------------------------------------- modules
    def file_of(self, name):
        rel = name.split(".")[1:]
        p = os.path.join(self.root, *rel)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.module(name.rpartition(".")[0])
        p = self.file_of(name)
        if not os.path.exists(p):
            raise Raised("ImportError")
        m = self.mods[name] = Module(name, p)
        m.ns["__name__"] = name
        m.ns["__file__"] = PKG + "/" + os.path.relpath(p, self.root).replace(os.sep, "/")
        m.ns["__package__"] = name if p.endswith("__init__.py") else name.rpartition(".")[0]
        if p.endswith("__init__.py"):
            m.ns["__path__"] = [posixpath.dirname(m.ns["__file__"])]
        m.ns["__spec__"] = Opaque("spec")
        src = open(p, encoding="utf8").read()
        self.block(ast.parse(src).body, Env(m.ns, None, m))
        if "." in name:
            self.mods[name.rpartition(".")[0]].ns.setdefault(name.rpartition(".")[2], m)
        return m

    # ---------------------------------------------------------- statements
    def block(self, body, e):
        for s in body:
            self.steps += 1
            if self.steps > 20000:
                raise Undecided("analysis does not terminate")
            getattr(self, "s_" + type(s).__name__, self.s_other)(s, e)

    def s_other(self, s, e):
        raise Undecided("%s:%s: %s statement" % (e.mod.path, s.lineno, type(s).__name__))

    def s_Expr(self, s, e):
        self.ev(s.value, e)

    def s_Pass(self, s, e):
        pass

    def s_Global(self, s, e):
        e.glob |= set(s.names)

    def s_Assign(self, s, e):
        v = self.ev(s.value, e)
        for t in s.targets:
            self.store(t, v, e)

    def s_AnnAssign(self, s, e):
        if s.value is not None:
            self.store(s.target, self.ev(s.value, e), e)

    def s_AugAssign(self, s, e):
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
        self.store(s.target, self.binop(s.op, self.ev(load, e), self.ev(s.value, e)), e)

    def s_Delete(self, s, e):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e.ns.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, e)
                if t.attr not in o.ns:
                    raise Raised("AttributeError")
                del o.ns[t.attr]
            else:
                self.s_other(s, e)

    def s_If(self, s, e):
        self.block(s.body if self.truth(self.ev(s.test, e)) else s.orelse, e)

    def s_Assert(self, s, e):
        v = self.ev(s.test, e)
        if not self.truth(v):
            raise Raised("AssertionError")

    def s_Return(self, s, e):
        raise Ret(self.ev(s.value, e) if s.value else None)

    def s_Raise(self, s, e):
        if s.exc is None:
            raise Raised("RuntimeError")
        v = self.ev(s.exc, e)
        raise Raised(v.path.split(".")[-1] if isinstance(v, Lib) else v.name if isinstance(v, Raised) else "Exception")

    def s_Try(self, s, e):
        try:
            try:
                self.block(s.body, e)
            except Raised as r:
                for h in s.handlers:
                    ns = [] if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if h.type is None or any(n == r.name or "*" in EXC.get(n, ()) or r.name in EXC.get(n, ()) for n in ns):
                        if h.name:
                            e.ns[h.name] = Opaque("exception")
                        self.block(h.body, e)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, e)
        finally:
            self.block(s.finalbody, e)

    def s_With(self, s, e):
        for i in s.items:
            v = self.ev(i.context_expr, e)
            if i.optional_vars is not None:
                self.store(i.optional_vars, v, e)
        self.block(s.body, e)

    def s_For(self, s, e):
        it = self.ev(s.iter, e)
        if not isinstance(it, (list, tuple, dict)):
            raise Undecided("loop over an unknown value at line %s" % s.lineno)
        for x in list(it):
            self.store(s.target, x, e)
            self.block(s.body, e)

    def s_Import(self, s, e):
        for a in s.names:
            if a.name.split(".")[0] == self.top:
                m = self.module(a.name)
                e.ns[a.asname or self.top] = m if a.asname else self.mods[self.top]
            else:
                e.ns[a.asname or a.name.split(".")[0]] = Lib(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, e):
        if s.level:
            base = e.mod.ns["__package__"].split(".")
            base = base[:len(base) - s.level + 1]
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if name.split(".")[0] != self.top:
            for a in s.names:
                e.ns[a.asname or a.name] = Lib(name + "." + a.name)
            return
        m = self.module(name)
        for a in s.names:
            if a.name == "*":
                for k, v in list(m.ns.items()):
                    if not k.startswith("_"):
                        e.ns[k] = v
                continue
            v = m.ns.get(a.name, self)
            if v is self:
                v = self.module(name + "." + a.name)
            e.ns[a.asname or a.name] = v

    def s_FunctionDef(self, s, e):
        f = Func(s, e)
        f.defaults = [self.ev(d, e) for d in s.args.defaults]
        f.kwdefaults = [d and self.ev(d, e) for d in s.args.kw_defaults]
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, e), [f], {}, d)
        if isinstance(f, Wrap):
            f.name = s.name
        self.bind(s.name, f, e)

    def s_ClassDef(self, s, e):
        bases = [self.ev(b, e) for b in s.bases]
        meta = None
        for k in s.keywords:
            if k.arg != "metaclass":
                raise Undecided("class keyword")
            meta = self.ev(k.value, e)
        for b in bases:
            if isinstance(b, Class) and meta is None:
                meta = b.meta
        c = Class(s.name, bases, meta, {}, e.mod)
        self.block(s.body, Env(c.ns, e, e.mod, cls=c))
        for v in list(c.ns.values()):
            g = v.f if isinstance(v, Wrap) else v
            if isinstance(g, Func) and g.owner is None:
                g.owner = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, e), [v], {}, d)
        self.bind(s.name, v, e)

    def bind(self, n, v, e):
        if n in e.glob:
            e.mod.ns[n] = v
        else:
            e.ns[n] = v

    def store(self, t, v, e):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, e)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, e)
            if isinstance(o, Data):
                if t.attr == "index" and v == ("todatetime", o.rid):
                    o.parsed = o.parsed | {"Date"} if o.index == "Date" else o.parsed
                    return
                raise Undecided("store to %s of the loaded frame" % t.attr)
            if isinstance(o, Inst):
                for k in o.cls.mro():
                    d = k.ns.get(t.attr)
                    if isinstance(d, Wrap) and d.kind == "property":
                        raise Raised("AttributeError")
            if not hasattr(o, "ns"):
                raise Undecided("store to attribute %s" % t.attr)
            o.ns[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, e)
            k = self.ev(t.slice, e)
            if isinstance(o, dict):
                o[self.key(k)] = v
            elif isinstance(o, list) and isinstance(k, int):
                o[k] = v
            elif isinstance(o, Data) and k == "Date" and v == ("todatetime", o.rid):
                o.parsed = o.parsed | {"Date"}
            else:
                raise Undecided("store to a subscript")
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (list, tuple)) or len(v) != len(t.elts):
                raise Undecided("unpacking")
            for a, b in zip(t.elts, v):
                self.store(a, b, e)
        else:
            raise Undecided("assignment target")

    def key(self, k):
        if isinstance(k, (str, int, bool, type(None), float)):
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, dict) or isinstance(k, list):
            raise Raised("TypeError")
        self.keep.append(k)
        return k if not isinstance(k, Path) else ("path", k.s)

    # ---------------------------------------------------------- expressions
    def truth(self, v):
        if isinstance(v, (Opaque,)):
            raise Undecided("branch on %s" % v.why)
        if isinstance(v, Data):
            raise Raised("ValueError")
        if isinstance(v, (str, int, float, bool, list, tuple, dict, type(None))):
            return bool(v)
        return True

    def ev(self, x, e):
        f = getattr(self, "e_" + type(x).__name__, None)
        if f is None:
            raise Undecided("%s:%s: %s" % (e.mod.path, x.lineno, type(x).__name__))
        return f(x, e)

    def e_Constant(self, x, e):
        return x.value

    def e_Name(self, x, e):
        k = e
        first = True
        while k is not None:
            if (first or k.cls is None) and x.id in k.ns and not (x.id in e.glob and k.parent is not None):
                return k.ns[x.id]
            first = False
            k = k.parent
        if x.id in e.mod.ns:
            return e.mod.ns[x.id]
        import builtins
        if hasattr(builtins, x.id):
            return Lib("builtins." + x.id)
        raise Raised("NameError")

    def e_NamedExpr(self, x, e):
        v = self.ev(x.value, e)
        self.bind(x.target.id, v, e)
        return v

    def e_JoinedStr(self, x, e):
        out = []
        for p in x.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value, e)
                if p.format_spec is not None or not isinstance(v, (str, int, Path)):
                    return Opaque("formatted text")
                out.append(v.s if isinstance(v, Path) else str(v))
        return "".join(out)

    def e_IfExp(self, x, e):
        return self.ev(x.body if self.truth(self.ev(x.test, e)) else x.orelse, e)

    def e_BoolOp(self, x, e):
        for s in x.values:
            v = self.ev(s, e)
            if self.truth(v) == isinstance(x.op, ast.Or):
                return v
        return v

    def e_UnaryOp(self, x, e):
        v = self.ev(x.operand, e)
        if isinstance(x.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(x.op, ast.USub) else v
        raise Undecided("unary operator")

    def e_BinOp(self, x, e):
        return self.binop(x.op, self.ev(x.left, e), self.ev(x.right, e))

    def binop(self, op, a, b):
        if isinstance(op, ast.Div):
            if isinstance(a, Path) and isinstance(b, (str, Path)):
                return Path(posixpath.join(a.s, b.s if isinstance(b, Path) else b))
        if isinstance(op, ast.Add) and type(a) is type(b) and isinstance(a, (str, int, float, list, tuple)):
            return a + b
        if isinstance(op, ast.Mod) and isinstance(a, str) and (isinstance(b, str) or isinstance(b, tuple) and all(isinstance(y, str) for y in b)):
            return a % b
        if isinstance(op, ast.BitOr):
            return Opaque("type union")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if isinstance(op, ast.Sub):
                return a - b
        raise Undecided("operator on unknown values")

    def e_Compare(self, x, e):
        a = self.ev(x.left, e)
        for op, r in zip(x.ops, x.comparators):
            b = self.ev(r, e)
            if isinstance(op, (ast.Is, ast.IsNot)):
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    raise Undecided("identity of an unknown value")
                v = (a is b) == isinstance(op, ast.Is)
            elif isinstance(op, (ast.In, ast.NotIn)):
                if isinstance(b, dict):
                    v = self.key(a) in b
                elif isinstance(b, (list, tuple, str)):
                    v = a in b
                elif isinstance(b, Lib) and b.path == "globals":
                    v = a in e.mod.ns
                else:
                    raise Undecided("membership in an unknown value")
                v = v == isinstance(op, ast.In)
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(a, (Opaque, Data)) or isinstance(b, (Opaque, Data)):
                    raise Undecided("equality of unknown values")
                v = (a == b) == isinstance(op, ast.Eq)
            elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
                v = {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
            else:
                raise Undecided("comparison of unknown values")
            if not v:
                return False
            a = b
        return True

    def e_Tuple(self, x, e):
        return tuple(self.ev(y, e) for y in x.elts)

    def e_List(self, x, e):
        return [self.ev(y, e) for y in x.elts]

    def e_Dict(self, x, e):
        return {self.key(self.ev(k, e)): self.ev(v, e) for k, v in zip(x.keys, x.values) if k is not None}

    def e_Lambda(self, x, e):
        f = Func(x, e)
        f.defaults = [self.ev(d, e) for d in x.args.defaults]
        f.kwdefaults = [d and self.ev(d, e) for d in x.args.kw_defaults]
        return f

    def e_Subscript(self, x, e):
        o = self.ev(x.value, e)
        if isinstance(x.slice, ast.Slice):
            if isinstance(o, (str, list, tuple)):
                b = [None if y is None else self.ev(y, e) for y in (x.slice.lower, x.slice.upper, x.slice.step)]
                return o[slice(*b)]
            raise Undecided("slice of an unknown value")
        k = self.ev(x.slice, e)
        if isinstance(o, dict):
            kk = self.key(k)
            if kk not in o:
                raise Raised("KeyError")
            return o[kk]
        if isinstance(o, (str, list, tuple)) and isinstance(k, int):
            if not -len(o) <= k < len(o):
                raise Raised("IndexError")
            return o[k]
        if isinstance(o, Data) and k == "Date":
            return ("column", o.rid)
        if isinstance(o, (Lib, Class)):
            return Opaque("generic alias")
        raise Undecided("subscript of an unknown value")

    def e_Attribute(self, x, e):
        return self.getattr(self.ev(x.value, e), x.attr)

    def instget(self, o, name, mro, default=None):
        for k in mro:
            if name in k.ns:
                d = k.ns[name]
                if isinstance(d, Wrap) and d.kind == "property":
                    return self.call(d.f, [o], {}, None)
                if isinstance(d, Wrap) and d.kind == "cached_property":
                    if name not in o.ns:
                        o.ns[name] = self.call(d.f, [o], {}, None)
                    return o.ns[name]
                if isinstance(d, Wrap) and d.kind == "classmethod":
                    return Bound(d.f, o.cls if isinstance(o, Inst) else o)
                if isinstance(d, Wrap) and d.kind == "staticmethod":
                    return d.f
                if isinstance(d, (Func, Wrap)):
                    return Bound(d, o)
                return d
        return self

    def getattr(self, o, a):
        if isinstance(o, Module):
            if a in o.ns:
                return o.ns[a]
            g = o.ns.get("__getattr__")
            if g is not None:
                return self.call(g, [a], {}, None)
            raise Raised("AttributeError")
        if isinstance(o, Lib):
            return Lib(o.path + "." + a)
        if isinstance(o, Inst):
            d = self.instget(o, a, [k for k in o.cls.mro() if isinstance(k.ns.get(a), Wrap) and k.ns[a].kind == "property"])
            if d is not self:
                return d
            if a in o.ns:
                return o.ns[a]
            if a == "__class__":
                return o.cls
            if a == "__dict__":
                return o.ns
            d = self.instget(o, a, o.cls.mro())
            if d is not self:
                return d
            g = self.instget(o, "__getattr__", o.cls.mro())
            if g is not self:
                return self.call(g, [a], {}, None)
            raise Raised("AttributeError")
        if isinstance(o, Class):
            for k in o.mro():
                if a in k.ns:
                    d = k.ns[a]
                    if isinstance(d, Wrap) and d.kind == "classmethod":
                        return Bound(d.f, o)
                    if isinstance(d, Wrap) and d.kind == "staticmethod":
                        return d.f
                    return d
            if isinstance(o.meta, Class):
                d = self.instget(o, a, o.meta.mro())
                if d is not self:
                    return d
            if a in ("__name__", "__qualname__"):
                return o.name
            if a == "__dict__":
                return o.ns
            if a in ("__new__", "__init__"):
                return Lib("object." + a)
            raise Raised("AttributeError")
        if isinstance(o, Func):
            if a in o.ns:
                return o.ns[a]
            if a == "__name__":
                return o.node.name
            raise Raised("AttributeError")
        if isinstance(o, Super):
            cls = o.obj if isinstance(o.obj, Class) and o.owner in o.obj.mro() else None
            mro = (cls.mro() if cls else o.obj.cls.mro() if isinstance(o.obj, Inst) else o.obj.meta.mro() if isinstance(o.obj, Class) and isinstance(o.obj.meta, Class) else [])
            if o.owner in mro:
                d = self.instget(o.obj, a, mro[mro.index(o.owner) + 1:])
                if d is not self:
                    return d
            return Bound(Lib("super." + a), o.obj)
        if isinstance(o, Path):
            if a == "parent":
                return Path(posixpath.dirname(o.s))
            if a == "parents":
                out, p = [], o.s
                while p not in ("/", ""):
                    p = posixpath.dirname(p)
                    out.append(Path(p))
                return out
            if a == "name":
                return posixpath.basename(o.s)
            return Bound(Lib("path." + a), o)
        if isinstance(o, Data):
            if a == "index":
                return ("column", o.rid) if o.index == "Date" else ("index", o.rid)
            if a == "empty":
                return False
            return Bound(Lib("frame." + a), o)
        if isinstance(o, (str, dict, list, tuple)):
            return Bound(Lib("value." + a), o)
        if isinstance(o, Wrap) and a in ("getter", "setter", "deleter"):
            return Lib("builtins." + a)
        if o is None:
            raise Raised("AttributeError")
        return Opaque("attribute %s" % a)

    # ---------------------------------------------------------- calls
    def e_Call(self, x, e):
        f = self.ev(x.func, e)
        if isinstance(f, Lib) and f.path == "builtins.super":
            if x.args:
                a = [self.ev(y, e) for y in x.args]
                return Super(a[0], a[1])
            k = e
            while k is not None and not isinstance(getattr(k, "fn", None), Func):
                k = k.parent
            if k is None or k.fn.owner is None:
                raise Undecided("super() outside a method")
            first = k.fn.node.args.args[0].arg
            return Super(k.fn.owner, k.ns[first])
        args, kw = [], {}
        for a in x.args:
            if isinstance(a, ast.Starred):
                args += list(self.ev(a.value, e))
            else:
                args.append(self.ev(a, e))
        for k in x.keywords:
            v = self.ev(k.value, e)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Undecided("**keywords")
                kw.update(v)
            else:
                kw[k.arg] = v
        if isinstance(f, Lib) and f.path in ("builtins.globals", "builtins.vars") and not args:
            return e.mod.ns
        if isinstance(f, Lib) and f.path == "builtins.locals":
            return e.ns
        return self.call(f, args, kw, x)

    def call(self, f, args, kw, x):
        self.depth += 1
        if self.depth > 60:
            raise Undecided("call depth")
        try:
            return self.call_(f, args, kw, x)
        finally:
            self.depth -= 1

    def call_(self, f, args, kw, x):
        if isinstance(f, Bound):
            if isinstance(f.f, Lib):
                return self.libmethod(f.f.path, f.self_, args, kw, x)
            return self.call(f.f, [f.self_] + args, kw, x)
        if isinstance(f, Func):
            return self.apply(f, args, kw)
        if isinstance(f, Wrap):
            if f.kind == "cache":
                k = tuple(self.key(a) for a in args) + tuple(sorted((n, self.key(v)) for n, v in kw.items()))
                if k not in f.memo:
                    f.memo[k] = self.call(f.f, args, kw, x)
                return f.memo[k]
            if f.kind in ("staticmethod",):
                return self.call(f.f, args, kw, x)
            raise Undecided("call of a %s" % f.kind)
        if isinstance(f, Class):
            if isinstance(f.meta, Class):
                d = self.instget(f, "__call__", f.meta.mro())
                if d is not self:
                    return self.call(d, args, kw, x)
            return self.construct(f, args, kw)
        if isinstance(f, Inst):
            d = self.instget(f, "__call__", f.cls.mro())
            if d is not self:
                return self.call(d, args, kw, x)
        if isinstance(f, Lib):
            return self.lib(f.path, args, kw, x)
        if isinstance(f, Opaque):
            return Opaque("a call of " + f.why)
        raise Undecided("call of an unknown value")

    def construct(self, c, args, kw):
        new = None
        for k in c.mro():
            if "__new__" in k.ns:
                new = k.ns["__new__"]
                break
        if new is not None:
            o = self.call(new.f if isinstance(new, Wrap) else new, [c] + args, kw, None)
            if not (isinstance(o, Inst) and c in o.cls.mro()):
                return o
        else:
            o = Inst(c)
        i = self.instget(o, "__init__", c.mro())
        if i is not self:
            self.call(i, args, kw, None)
        return o

    def apply(self, f, args, kw):
        n = f.node
        self.fns.add(getattr(n, "name", "<lambda>"))
        a = n.args
        ns = {}
        ps = a.posonlyargs + a.args
        if len(args) > len(ps) and not a.vararg:
            raise Raised("TypeError")
        for p, v in zip(ps, args):
            ns[p.arg] = v
        if a.vararg:
            ns[a.vararg.arg] = tuple(args[len(ps):])
        rest = {}
        for k, v in kw.items():
            if k in [p.arg for p in ps + a.kwonlyargs] and k not in ns:
                ns[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise Raised("TypeError")
        if a.kwarg:
            ns[a.kwarg.arg] = rest
        for p, d in zip(ps[len(ps) - len(f.defaults):], f.defaults):
            ns.setdefault(p.arg, d)
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            ns.setdefault(p.arg, d)
        for p in ps + a.kwonlyargs:
            if p.arg not in ns:
                raise Raised("TypeError")
        par = f.env
        while par is not None and par.cls is not None:
            par = par.parent
        e = Env(ns, par, f.env.mod)
        e.fn = f
        if isinstance(n, ast.Lambda):
            return self.ev(n.body, e)
        for y in ast.walk(n):
            if isinstance(y, (ast.Yield, ast.YieldFrom, ast.Nonlocal)):
                raise Undecided("generator or nonlocal in %s" % n.name)
        try:
            self.block(n.body, e)
        except Ret as r:
            return r.v
        return None

    # ---------------------------------------------------------- library
    def path(self, v):
        if isinstance(v, Path):
            return v.s
        if isinstance(v, str):
            return v
        raise Undecided("path of an unknown value")

    def absp(self, s):
        s = posixpath.normpath(posixpath.join(self.w.cwd, s))
        return s

    def lib(self, p, args, kw, x):
        b = p.split(".")[-1]
        if p in ("builtins.property", "builtins.classmethod", "builtins.staticmethod"):
            return Wrap(b, args[0])
        if p == "functools.cached_property":
            return Wrap("cached_property", args[0])
        if p in ("functools.lru_cache", "functools.cache"):
            if args and isinstance(args[0], Func):
                return Wrap("cache", args[0])
            n = args[0] if args else kw.get("maxsize", 128)
            if n == 0:
                return Lib("identity")
            return Lib("functools.cache")
        if p == "identity":
            return args[0]
        if p == "functools.wraps":
            return Lib("identity")
        if p in ("os.path.abspath", "os.path.realpath"):
            return self.absp(self.path(args[0]))
        if p == "os.path.join":
            return posixpath.join(*[self.path(a) for a in args])
        if p in ("os.path.dirname", "os.path.basename", "os.path.normpath"):
            return getattr(posixpath, b)(self.path(args[0]))
        if p == "os.path.split":
            return posixpath.split(self.path(args[0]))
        if p == "os.path.relpath":
            return posixpath.relpath(self.absp(self.path(args[0])), self.absp(self.path(args[1])) if len(args) > 1 else self.w.cwd)
        if p == "os.path.isabs":
            return self.path(args[0]).startswith("/")
        if p in ("os.path.exists", "os.path.isfile"):
            return self.w.exists(self.absp(self.path(args[0])))
        if p in ("os.path.expanduser",):
            return self.path(args[0]).replace("~", HOME, 1) if self.path(args[0]).startswith("~") else self.path(args[0])
        if p in ("os.getcwd", "pathlib.Path.cwd"):
            return self.w.cwd if p == "os.getcwd" else Path(self.w.cwd)
        if p in ("os.fspath", "builtins.str"):
            if isinstance(args[0], Path):
                return args[0].s
            if isinstance(args[0], (str, int)):
                return str(args[0])
            return Opaque("text")
        if p in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
            return Path(posixpath.join(*[self.path(a) for a in args]) if args else ".")
        if p in ("importlib.resources.files", "importlib_resources.files"):
            m = args[0] if isinstance(args[0], Module) else self.module(args[0])
            d = posixpath.dirname(m.ns["__file__"])
            return Path(d)
        if p in ("importlib.resources.as_file",):
            return args[0]
        if p == "importlib.resources.path":
            m = args[0] if isinstance(args[0], Module) else self.module(args[0])
            return Path(posixpath.join(posixpath.dirname(m.ns["__file__"]), args[1]))
        if p in ("pandas.read_csv", "pandas.read_table"):
            return self.read(args, kw, x)
        if p == "pandas.to_datetime":
            if isinstance(args[0], tuple) and args[0][:1] in (("column",),) and not kw:
                return ("todatetime", args[0][1])
            return Opaque("dates")
        if p == "builtins.isinstance":
            a, k = args
            if isinstance(k, Lib) and k.path == "pandas.DataFrame":
                if isinstance(a, Opaque):
                    raise Undecided("type of an unknown value")
                return isinstance(a, Data)
            if isinstance(k, Class):
                return isinstance(a, Inst) and k in a.cls.mro()
            if isinstance(k, Lib) and k.path == "builtins.str":
                return isinstance(a, str)
            raise Undecided("isinstance")
        if p == "builtins.type" and len(args) == 1:
            if isinstance(args[0], Inst):
                return args[0].cls
            return Opaque("type")
        if p in ("builtins.hasattr", "builtins.getattr"):
            try:
                v = self.getattr(args[0], args[1])
            except Raised as r:
                if r.name != "AttributeError":
                    raise
                if b == "hasattr":
                    return False
                if len(args) > 2:
                    return args[2]
                raise
            return True if b == "hasattr" else v
        if p in ("builtins.setattr", "object.__setattr__"):
            args[0].ns[args[1]] = args[2]
            return None
        if p == "builtins.len" and isinstance(args[0], (str, list, tuple, dict)):
            return len(args[0])
        if p == "builtins.dict" and not args:
            return dict(kw)
        if p == "builtins.list" and not args:
            return []
        if p == "builtins.id":
            self.keep.append(args[0])
            return id(args[0])
        if p in ("builtins.bool",):
            return self.truth(args[0])
        if p == "object.__new__":
            return Inst(args[0])
        if p == "type.__call__":
            return self.construct(args[0], args[1:], kw)
        if p in ("object.__init__", "builtins.print", "warnings.warn", "gc.collect"):
            return None
        if p in ("threading.Lock", "threading.RLock", "contextlib.suppress", "contextlib.nullcontext"):
            return Opaque(p)
        if p in ("copy.copy", "copy.deepcopy") and isinstance(args[0], Data):
            return Data(args[0].rid, args[0].index, args[0].parsed)
        if p.startswith("builtins.") and (b.endswith("Error") or b.endswith("Exception") or b == "Warning"):
            return Raised(b)
        if p == "os.chdir":
            self.w.cwd = self.absp(self.path(args[0]))
            return None
        return Opaque("the result of %s" % p)

    def libmethod(self, p, o, args, kw, x):
        b = p.split(".")[-1]
        if p == "super.__call__":
            if not isinstance(o, Class):
                raise Undecided("super().__call__")
            return self.construct(o, args, kw)
        if p == "super.__new__":
            c = args[0] if args and isinstance(args[0], Class) else o
            if isinstance(c, Class):
                return Inst(c)
            raise Undecided("super().__new__")
        if p == "super.__init__":
            return None
        if p == "super.__setattr__":
            o.ns[args[0]] = args[1]
            return None
        if p.startswith("super."):
            raise Undecided(p)
        if p.startswith("path."):
            if b in ("resolve", "absolute"):
                return Path(self.absp(o.s))
            if b in ("joinpath", "with_name", "with_suffix"):
                if b == "joinpath":
                    return Path(posixpath.join(o.s, *[self.path(a) for a in args]))
                if b == "with_name":
                    return Path(posixpath.join(posixpath.dirname(o.s), args[0]))
                return Path(posixpath.splitext(o.s)[0] + args[0])
            if b in ("exists", "is_file"):
                return self.w.exists(self.absp(o.s))
            if b in ("as_posix", "__str__", "__fspath__"):
                return o.s
            if b == "open":
                return o
            raise Undecided(p)
        if p.startswith("frame."):
            if b == "copy":
                return Data(o.rid, o.index, o.parsed)
            if b == "set_index" and args == ["Date"] and o.index is None:
                if kw.get("inplace") is True:
                    o.index = "Date"
                    return None
                return Data(o.rid, "Date", o.parsed)
            if b in ("sort_index",) and not args and not kw:
                return o
            raise Undecided("loaded frame transformed by %s" % b)
        if p.startswith("value."):
            if isinstance(o, dict):
                if b == "get":
                    return o.get(self.key(args[0]), args[1] if len(args) > 1 else None)
                if b == "setdefault":
                    return o.setdefault(self.key(args[0]), args[1] if len(args) > 1 else None)
                if b == "pop":
                    k = self.key(args[0])
                    if k not in o and len(args) < 2:
                        raise Raised("KeyError")
                    return o.pop(k, args[1] if len(args) > 1 else None)
                if b == "clear":
                    o.clear()
                    return None
                if b == "update":
                    for a in args:
                        o.update(a)
                    o.update(kw)
                    return None
                if b in ("items", "values", "keys"):
                    return [tuple(y) if isinstance(y, tuple) else y for y in getattr(o, b)()]
            if isinstance(o, list) and b == "append":
                o.append(args[0])
                return None
            if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and not kw and b in (
                    "replace", "strip", "rstrip", "lstrip", "split", "rsplit", "lower", "upper", "format", "startswith", "endswith", "removesuffix",
                    "removeprefix", "rpartition", "partition"):
                return getattr(o, b)(*args)
            if isinstance(o, str) and b == "join" and isinstance(args[0], (list, tuple)):
                return o.join(args[0])
            if isinstance(o, str) and b == "format":
                return Opaque("text")
        if isinstance(o, Opaque):
            return Opaque("a call of " + o.why)
        raise Undecided("method %s" % p)

    def read(self, args, kw, x):
        src = args[0] if args else kw.get("filepath_or_buffer")
        opts = {k: v for k, v in kw.items() if k != "filepath_or_buffer"}
        if len(args) > 1:
            opts["sep"] = args[1]
        if len(args) > 2:
            raise Undecided("positional options of read_csv")
        p = self.path(src)
        self.w.reads.append((self.absp(p), p, opts, getattr(x, "lineno", 0), self.w.cwd))
        if self.w.failing:
            self.w.failing -= 1
            raise Raised("OSError")
        if not self.w.exists(self.absp(p)):
            raise Raised("FileNotFoundError")
        ix, ps = opts.get("index_col"), opts.get("parse_dates")
        if isinstance(ix, (list, tuple)) and len(ix) == 1:
            ix = ix[0]
        idx = "Date" if (ix == "Date" or ix == 0 and ix is not False) else None if ix is None or ix is False else "other"
        parsed = set()
        if ps is True and idx == "Date":
            parsed = {"Date"}
        elif isinstance(ps, (list, tuple)) and ("Date" in ps or any(y == 0 and y is not False for y in ps)):
            parsed = {"Date"}
        elif isinstance(ps, str):
            raise Raised("TypeError")
        return Data(len(self.w.reads), idx, frozenset(parsed))
