"""Flow-sensitive may-alias analysis of caller-supplied objects over the package's syntax trees: which objects reachable
from a parameter can be changed in place, where, through views, containers, attributes, helpers and retained fields."""
import ast, os
from . import resolve as R

NP = "numpy."
VIEWFN = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze",
          "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "broadcast_to", "real", "imag", "flip", "flipud", "fliplr", "rot90",
          "asmatrix", "mat", "asfarray", "require", "diagonal", "matrix_transpose", "permute_dims"}
VIEWMETH = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "diagonal", "to_numpy", "get", "__getitem__", "setdefault", "pop", "items",
            "values", "newbyteorder", "__iter__", "__enter__"}
VIEWATTR = {"T", "real", "imag", "flat", "base", "data", "mT", "loc", "iloc", "at", "iat", "values", "array", "_values", "obj"}
PLAINATTR = {"shape", "ndim", "size", "dtype", "nbytes", "itemsize", "strides", "name", "columns", "index", "flags", "dtypes", "empty", "ctypes"}
MUTMETH = {"sort", "fill", "partition", "itemset", "setfield", "resize", "put", "setflags", "append", "extend", "insert", "remove", "clear", "reverse",
           "update", "popitem", "pop", "setdefault", "add", "discard", "__setitem__", "__iadd__", "__isub__", "__imul__", "__itruediv__",
           "__delitem__", "__ior__", "byteswap_inplace", "drop_inplace", "appendleft", "popleft", "isetitem", "difference_update", "intersection_update"}
PANDASCOPY = {"update": False}
MUTFN = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0, "numpy.put_along_axis": 0, "numpy.random.shuffle": 0,
         "random.shuffle": 0, "heapq.heapify": 0, "heapq.heappush": 0, "heapq.heappop": 0, "bisect.insort": 0, "bisect.insort_left": 0, "bisect.insort_right": 0,
         "operator.setitem": 0, "operator.iadd": 0, "operator.imul": 0, "operator.isub": 0, "operator.itruediv": 0, "operator.delitem": 0,
         "numpy.add.at": 0, "numpy.subtract.at": 0, "numpy.multiply.at": 0, "numpy.maximum.at": 0, "numpy.minimum.at": 0, "numpy.ndarray.sort": 0,
         "numpy.ndarray.fill": 0, "list.sort": 0, "list.append": 0}
UNARY_OUT = {"exp", "log", "sqrt", "abs", "absolute", "negative", "square", "log1p", "expm1", "log2", "log10", "floor", "ceil", "isnan", "sign", "sin", "cos",
             "tan", "tanh", "reciprocal", "rint", "trunc", "fabs", "positive", "isfinite", "isinf", "logical_not", "invert", "cbrt", "exp2"}
BINARY_OUT = {"add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "power", "maximum", "minimum", "fmax", "fmin", "mod", "remainder",
              "dot", "matmul", "hypot", "arctan2", "logaddexp", "logical_and", "logical_or", "less", "greater", "equal", "float_power", "copysign"}
ARRANN = ("ndarray", "DataFrame", "Series", "list", "List", "Sequence", "Iterable", "array", "ArrayLike", "dict", "Dict", "tuple", "Tuple", "Mapping")
SCALAR = {"float", "int", "bool", "str", "None", "complex"}
REDUCE = {"sum", "mean", "std", "var", "min", "max", "cumsum", "cumprod", "prod", "argsort", "copy", "T", "shape", "ndim", "size", "dot", "astype", "reshape",
          "any", "all", "tolist", "flatten", "ravel", "sort", "dropna", "iloc", "loc", "values", "to_numpy", "fill", "columns", "index", "argmax", "argmin"}


class Val:
    """roots: {(root, kind)}; kind 'obj' the object or a view, 'elem' one element of unknown rank; inner: what a fresh container holds"""
    __slots__ = ("roots", "inner", "cls", "fields")

    def __init__(self, roots=frozenset(), inner=None, cls=None):
        self.roots, self.inner, self.cls = frozenset(roots), inner, cls

    def join(self, o):
        if o is self:
            return self
        inner = self.inner if o.inner is None else o.inner if self.inner is None else self.inner.join(o.inner)
        return Val(self.roots | o.roots, inner, self.cls if self.cls is o.cls else (self.cls or o.cls))

    def key(self):
        return (self.roots, self.inner.key() if self.inner else None, id(self.cls))

    def held(self):
        r = set(self.roots)
        if self.inner:
            r |= self.inner.held()
        return frozenset(r)


EMPTY = Val()


def cap(v, depth=3):
    if v.inner is None:
        return v
    if depth == 0:
        return Val(v.roots | v.inner.held(), None, v.cls)
    return Val(v.roots, cap(v.inner, depth - 1), v.cls)


def elem(v):
    """a value reached by indexing or iterating v"""
    out = Val({(r, "elem") for r, k in v.roots})
    if v.inner:
        out = out.join(v.inner)
    return out


def view(v):
    return Val({(r, "view" if k != "elem" else "elem") for r, k in v.roots}, v.inner)


class FnInfo:
    def __init__(self, key, mod, node, cls, public):
        self.key, self.mod, self.node, self.cls, self.public = key, mod, node, cls, public
        self.ret = EMPTY
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.static = any(R.deco(d) == "staticmethod" for d in node.decorator_list)
        self.clsm = any(R.deco(d) == "classmethod" for d in node.decorator_list)


class Alias:
    def __init__(self, P, native_mut=None):
        self.P = P
        self.native_mut = native_mut or {}
        self.fns, self.bynode = {}, {}
        self.mut = {}                   # root -> [(function, line, how, certain)]
        self.fields = {}                # class node -> attr -> Val
        for m in P.mods.values():
            self.collect(m, m.tree.body, None, m.name)
        self.changed = True
        self.sites = 0
        n = 0
        while self.changed and n < 12:
            self.changed = False
            n += 1
            for f in self.fns.values():
                Run(self, f).go()
        self.rounds = n

    def collect(self, m, body, cls, path):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                nm = s.name
                pub = (not nm.startswith("_") or nm == "__init__" or nm == "__call__" or nm == "__new__") and not (cls is not None and cls.name.startswith("_"))
                f = FnInfo(path + "." + nm, m, s, cls, pub)
                self.fns[f.key + "@%d" % s.lineno] = f
                self.bynode[id(s)] = f
            elif isinstance(s, ast.ClassDef):
                self.collect(m, s.body, R.Cls(m, s, cls), path + "." + s.name)
            elif isinstance(s, (ast.If, ast.Try)):
                self.collect(m, s.body + s.orelse + getattr(s, "finalbody", []) + [x for h in getattr(s, "handlers", []) for x in h.body], cls, path)

    def field(self, cls, attr):
        """the value a field may hold: joined over the class and its relatives"""
        out = EMPTY
        for k in self.kin(cls):
            v = self.fields.get(id(k.node), {}).get(attr)
            if v is not None:
                out = out.join(v)
        return out

    def kin(self, cls):
        if not hasattr(self, "_kin"):
            self._kin = {}
        k = id(cls.node)
        if k not in self._kin:
            up = self.P.mro(cls) or [cls]
            down = []
            for f in self.fns.values():
                if f.cls is not None and f.cls.node not in [x.node for x in down]:
                    r = self.P.mro(f.cls)
                    if r and any(x.node is cls.node for x in r):
                        down.append(f.cls)
            self._kin[k] = up + [d for d in down if all(d.node is not u.node for u in up)]
        return self._kin[k]

    def setfield(self, cls, attr, v):
        d = self.fields.setdefault(id(cls.node), {})
        old = d.get(attr, EMPTY)
        new = cap(old.join(v))
        if new.key() != old.key():
            d[attr] = new
            self.changed = True

    def method(self, cls, name):
        out = []
        for k in self.kin(cls):
            for s in k.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == name and id(s) in self.bynode:
                    out.append(self.bynode[id(s)])
        return out


class Run:
    """one pass over one function"""

    def __init__(self, A, f):
        self.A, self.f, self.P = A, f, A.P
        self.loopvars = set()

    def go(self):
        f = self.f
        env = {}
        a = f.node.args
        pos = a.posonlyargs + a.args
        self.me = pos[0].arg if f.cls is not None and pos and not f.static else None
        for p in f.params:
            env[p] = Val({("%s:%s" % (id(f.node), p), "obj")})
        for x in (a.vararg, a.kwarg):
            if x:
                env[x.arg] = Val(inner=Val({("%s:%s" % (id(f.node), x.arg), "obj")}))
        if self.me:
            env[self.me] = Val(cls=f.cls)
        self.anns = {x.arg: x.annotation for x in pos + a.kwonlyargs}
        for x in pos + a.kwonlyargs:
            if x.annotation is not None and x.arg != self.me:
                d = self.P.expr_static(f.mod, x.annotation)
                if isinstance(d, R.Cls):
                    env[x.arg] = Val(env[x.arg].roots, cls=d)
        self.rets = EMPTY
        self.block(f.node.body, env)
        r = cap(f.ret.join(self.rets))
        if r.key() != f.ret.key():
            f.ret = r
            self.A.changed = True

    # ------------------------------------------------------------ reporting
    def mutate(self, v, line, how, certain):
        """roots of v changed in place"""
        for r, k in v.roots:
            cert = certain or k == "view"
            d = self.A.mut.setdefault(r, [])
            e = (self.f.key, line, how, cert and k != "maybe")
            if e not in d:
                d.append(e)
                self.A.changed = True

    def inherit(self, v, info, deep=False):
        """effects on v of a callee's effects on its parameter"""
        roots = v.held() if deep else v.roots
        for r, k in roots:
            d = self.A.mut.setdefault(r, [])
            for e in info:
                if e not in d:
                    d.append(e)
                    self.A.changed = True

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        """False when control does not reach the end"""
        for s in body:
            if not self.stmt(s, env):
                return False
        return True

    def merge(self, env, outs):
        env_keys = set().union(*[set(o) for o in outs]) if outs else set()
        new = {}
        for k in env_keys:
            vs = [o[k] for o in outs if k in o]
            v = vs[0]
            for x in vs[1:]:
                v = v.join(x)
            new[k] = cap(v)
        env.clear()
        env.update(new)

    def stmt(self, s, env):
        t = type(s).__name__
        if t == "Expr":
            self.ev(s.value, env)
        elif t == "Assign":
            v = self.ev(s.value, env)
            for x in s.targets:
                self.store(x, v, env, s.value)
        elif t == "AnnAssign":
            if s.value is not None:
                self.store(s.target, self.ev(s.value, env), env, s.value)
        elif t == "AugAssign":
            self.aug(s, env)
        elif t == "Return":
            if s.value is not None:
                self.rets = self.rets.join(self.ev(s.value, env))
            return False
        elif t == "Raise":
            if s.exc is not None:
                self.ev(s.exc, env)
            return False
        elif t in ("Break", "Continue"):
            self.escapes.append(dict(env)) if getattr(self, "escapes", None) is not None else None
            return False
        elif t == "If":
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            outs = [e for e, ok in ((a, self.block(s.body, a)), (b, self.block(s.orelse, b))) if ok]
            if not outs:
                return False
            self.merge(env, outs)
        elif t in ("For", "AsyncFor", "While"):
            old = getattr(self, "escapes", None)
            self.escapes = []
            it = self.ev(s.iter, env) if t != "While" else None
            for _ in range(3):
                e = dict(env)
                if t != "While":
                    self.loop_target(s.target, s.iter, it, e)
                else:
                    self.ev(s.test, e)
                ok = self.block(s.body, e)
                self.merge(env, [dict(env)] + ([e] if ok else []) + self.escapes)
            self.block(s.orelse, env)
            self.escapes = old
        elif t in ("With", "AsyncWith"):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, v, env, i.context_expr)
            return self.block(s.body, env)
        elif t in ("Try", "TryStar"):
            pre = dict(env)
            e = dict(env)
            ok = self.block(s.body, e)
            if ok:
                ok = self.block(s.orelse, e)
            outs = [e] if ok else []
            mid = dict(pre)
            self.merge(mid, [pre, e])
            for h in s.handlers:
                x = dict(mid)
                if h.name:
                    x[h.name] = EMPTY
                if self.block(h.body, x):
                    outs.append(x)
            if not outs:
                x = dict(mid)
                self.block(s.finalbody, x)
                return False
            self.merge(env, outs)
            return self.block(s.finalbody, env)
        elif t == "Delete":
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    self.change(self.ev(x.value, env), x, env, "del %s" % ast.unparse(x), x.value)
        elif t in ("FunctionDef", "AsyncFunctionDef"):
            sub = dict(env)
            for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
                sub[x.arg] = EMPTY
            keep = self.rets
            self.rets = EMPTY
            self.block(s.body, sub)
            inner = self.rets
            self.rets = keep
            env[s.name] = Val(inner=inner) if inner.held() else EMPTY
        elif t == "Assert":
            self.ev(s.test, env)
        elif t == "Match":
            v = self.ev(s.subject, env)
            outs = [dict(env)]
            for cs in s.cases:
                e = dict(env)
                for y in ast.walk(cs.pattern):
                    if getattr(y, "name", None):
                        e[y.name] = elem(v).join(v)
                if self.block(cs.body, e):
                    outs.append(e)
            self.merge(env, outs)
        return True

    def loop_target(self, tg, itx, v, env):
        for y in ast.walk(tg):
            if isinstance(y, ast.Name):
                self.loopvars.add(y.id)
        # range/enumerate indices are integers
        if isinstance(itx, ast.Call) and isinstance(itx.func, ast.Name) and itx.func.id == "enumerate" and isinstance(tg, ast.Tuple) and len(tg.elts) == 2:
            self.store(tg.elts[0], EMPTY, env, None)
            inner = self.ev(itx.args[0], env) if itx.args else EMPTY
            self.store(tg.elts[1], elem(inner), env, None)
            return
        if isinstance(itx, ast.Call) and isinstance(itx.func, ast.Name) and itx.func.id == "zip" and isinstance(tg, ast.Tuple) and len(tg.elts) == len(itx.args):
            for a, b in zip(tg.elts, itx.args):
                self.store(a, elem(self.ev(b, env)), env, None)
            return
        self.store(tg, elem(v), env, None)

    def store(self, tg, v, env, src):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(tg.elts) and not any(isinstance(x, ast.Starred) for x in list(tg.elts) + list(src.elts)):
                vs = [self.ev(x, env) for x in src.elts]
                for a, b, x in zip(tg.elts, vs, src.elts):
                    self.store(a, b, env, x)
                return
            for a in tg.elts:
                self.store(a.value if isinstance(a, ast.Starred) else a, elem(v), env, None)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, env)
            env[ast.unparse(tg)] = v
            if o.cls is not None:
                self.A.setfield(o.cls, tg.attr, v)
            if not (isinstance(tg.value, ast.Name) and tg.value.id == self.me) and o.cls is None:
                if tg.attr in ("shape", "dtype", "strides", "columns", "index", "name", "real", "imag", "flat", "data", "T", "values"):
                    self.change(o, tg, env, "%s = ..." % ast.unparse(tg), tg.value)
        elif isinstance(tg, ast.Subscript):
            self.ev(tg.slice, env)
            o = self.ev(tg.value, env)
            self.change(o, tg, env, "%s = ..." % ast.unparse(tg), tg.value)
            # the container now holds the value
            if v.held() and isinstance(tg.value, ast.Name) and tg.value.id in env:
                b = env[tg.value.id]
                if b.inner is not None:
                    env[tg.value.id] = Val(b.roots, b.inner.join(v), b.cls)
            elif v.held() and isinstance(tg.value, ast.Attribute) and o.inner is not None:
                base = self.ev(tg.value.value, env)
                if base.cls is not None:
                    self.A.setfield(base.cls, tg.value.attr, Val(inner=v))
        elif isinstance(tg, ast.Starred):
            self.store(tg.value, v, env, None)

    def change(self, o, node, env, how, base):
        """a store into o: an element that is itself a plain number cannot be stored into, so the element is an array"""
        cert = True
        if any(k == "maybe" for r, k in o.roots):
            cert = False
        self.mutate(o, node.lineno, how, cert)

    def aug(self, s, env):
        how = ast.unparse(s)
        v = self.ev(s.value, env)
        tg = s.target
        if isinstance(tg, ast.Name):
            o = env.get(tg.id, EMPTY)
            self.aug_obj(o, s, how)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(ast.copy_location(ast.Attribute(tg.value, tg.attr, ast.Load()), tg), env)
            self.aug_obj(o, s, how)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, env)
            self.ev(tg.slice, env)
            self.mutate(o, s.lineno, how, not any(k == "maybe" for r, k in o.roots))

    def aug_obj(self, o, s, how):
        for r, k in o.roots:
            cert = k == "view" or (k == "obj" and self.A_kind(r) == "array")
            if k == "obj" and self.A_kind(r) == "scalar":
                continue
            d = self.A.mut.setdefault(r, [])
            e = (self.f.key, s.lineno, how, cert)
            if e not in d:
                d.append(e)
                self.A.changed = True

    def A_kind(self, r):
        fid, _, p = r.partition(":")
        f = self.A.bynode.get(int(fid))
        return kind_of(f, p) if f is not None else "unknown"

    # ------------------------------------------------------------ expressions
    def lib(self, e, env):
        """dotted path of a library function or module"""
        if isinstance(e, ast.Name):
            if e.id in env and e.id not in self.local_imports():
                return None
            li = self.local_imports().get(e.id)
            if li:
                return li
            b = self.P.bindings(self.f.mod.name).get(e.id)
            if b:
                for x in b:
                    if isinstance(x, tuple) and x[0] == "mod":
                        return x[1]
                    if isinstance(x, tuple) and x[0] == "from":
                        return x[1] + "." + x[2]
                return None
            return "builtins." + e.id if e.id in R.BUILTINS else None
        if isinstance(e, ast.Attribute):
            b = self.lib(e.value, env)
            return b + "." + e.attr if b else None
        return None

    def local_imports(self):
        if not hasattr(self, "_li"):
            out = {}
            for y in ast.walk(self.f.node):
                if isinstance(y, ast.Import):
                    for a in y.names:
                        out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(y, ast.ImportFrom):
                    src = self.P.absname(self.f.mod, y.level, y.module)
                    for a in y.names:
                        out[a.asname or a.name] = src + "." + a.name
            self._li = out
        return self._li

    def ev(self, e, env):
        t = type(e).__name__
        f = getattr(self, "e_" + t, None)
        if f:
            return f(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return EMPTY

    def e_Name(self, e, env):
        return env.get(e.id, EMPTY)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.store(e.target, v, env, e.value)
        return v

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env).join(self.ev(e.orelse, env))

    def e_BoolOp(self, e, env):
        v = EMPTY
        for x in e.values:
            v = v.join(self.ev(x, env))
        return v

    def e_Tuple(self, e, env):
        v = EMPTY
        for x in e.elts:
            y = self.ev(x.value if isinstance(x, ast.Starred) else x, env)
            v = v.join(elem(y) if isinstance(x, ast.Starred) else y)
        return Val(inner=v)

    e_List = e_Set = e_Tuple

    def e_Dict(self, e, env):
        v = EMPTY
        for k, x in zip(e.keys, e.values):
            y = self.ev(x, env)
            v = v.join(y if k is not None else elem(y))
        return Val(inner=v)

    def comp(self, e, env, parts):
        sub = dict(env)
        for g in e.generators:
            self.loop_target(g.target, g.iter, self.ev(g.iter, sub), sub)
            for c in g.ifs:
                self.ev(c, sub)
        v = EMPTY
        for p in parts:
            v = v.join(self.ev(p, sub))
        return Val(inner=v)

    def e_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, env, [e.value])

    def e_Lambda(self, e, env):
        sub = dict(env)
        for x in e.args.posonlyargs + e.args.args + e.args.kwonlyargs:
            sub[x.arg] = EMPTY
        v = self.ev(e.body, sub)
        return Val(inner=v) if v.held() else EMPTY

    def e_Attribute(self, e, env):
        k = ast.unparse(e)
        if k in env:
            return env[k]
        o = self.ev(e.value, env)
        if o.cls is not None:
            v = self.A.field(o.cls, e.attr)
            ms = self.A.method(o.cls, e.attr)
            for m in ms:
                if any(R.deco(d) in ("property", "cached_property") for d in m.node.decorator_list):
                    v = v.join(m.ret)
            return v
        if e.attr in PLAINATTR:
            return EMPTY
        if e.attr in VIEWATTR:
            return view(o)
        if o.roots:
            # attribute of a caller's object of unknown class: shared with it
            return Val({(r, "view" if k != "elem" else "elem") for r, k in o.roots})
        return o.inner if o.inner is not None else EMPTY

    def index_kind(self, s):
        """'view' for slices, 'copy' for masks and index lists, 'elem' for integers, 'maybe' otherwise"""
        if isinstance(s, ast.Slice):
            return "view"
        if isinstance(s, ast.Tuple):
            ks = [self.index_kind(x) for x in s.elts]
            if "copy" in ks:
                return "copy"
            if "maybe" in ks:
                return "maybe"
            return "view" if "view" in ks else "elem"
        if isinstance(s, ast.Constant):
            return "view" if s.value is None or s.value is Ellipsis or isinstance(s.value, str) else "elem"
        if isinstance(s, (ast.Compare, ast.List, ast.ListComp)) or isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.Invert):
            return "copy"
        if isinstance(s, ast.Name):
            return "elem" if s.id in self.loopvars else "maybe"
        if isinstance(s, ast.UnaryOp):
            return self.index_kind(s.operand)
        if isinstance(s, ast.BinOp):
            ks = {self.index_kind(s.left), self.index_kind(s.right)}
            return "elem" if ks == {"elem"} else "copy" if "copy" in ks else "maybe"
        if isinstance(s, ast.Attribute) and s.attr in ("newaxis",):
            return "view"
        return "maybe"

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        self.ev(e.slice, env)
        k = self.index_kind(e.slice)
        if k == "copy":
            return EMPTY
        out = o.inner if o.inner is not None else EMPTY
        if k == "view":
            out = out.join(view(Val(o.roots, o.inner)))
        elif k == "elem":
            out = out.join(Val({(r, "elem") for r, _ in o.roots}))
        else:
            out = out.join(Val({(r, "maybe") for r, _ in o.roots}))
        return out

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        if e.value is not None:
            self.rets = self.rets.join(Val(inner=self.ev(e.value, env)))
        return EMPTY

    def callees(self, e, env):
        """[(FnInfo, receiver Val or None)], class constructed or None, native target or None"""
        f = e.func
        if isinstance(f, ast.Name) and f.id in env and f.id not in self.local_imports():
            return [], None, None
        # super().m / self.m / obj.m
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.f.cls is not None:
                r = self.P.mro(self.f.cls) or []
                for k in r[1:]:
                    for s in k.node.body:
                        if isinstance(s, ast.FunctionDef) and s.name == f.attr and id(s) in self.A.bynode:
                            return [(self.A.bynode[id(s)], Val(cls=self.f.cls))], None, None
                return [], None, None
            o = self.ev(f.value, env)
            if o.cls is not None:
                return [(m, o) for m in self.A.method(o.cls, f.attr)], None, None
        li = self.local_imports()
        d = None
        if isinstance(f, ast.Name) and f.id in li and li[f.id].split(".")[0] == self.P.top:
            try:
                d = self.P.member(*li[f.id].rsplit(".", 1))
            except R.Missing:
                d = None
        elif isinstance(f, (ast.Name, ast.Attribute)):
            try:
                d = self.P.expr_static(self.f.mod, f)
            except R.Missing:
                d = None
        if isinstance(d, R.Fn) and id(d.node) in self.A.bynode:
            return [(self.A.bynode[id(d.node)], None)], None, None
        if isinstance(d, tuple) and d[0] == "method" and id(d[1].node) in self.A.bynode:
            fi = self.A.bynode[id(d[1].node)]
            return [(fi, Val(cls=d[2]) if fi.clsm else None)], None, None
        if isinstance(d, tuple) and d[0] == "native":
            return [], None, (d[1].name, d[2])
        if isinstance(d, R.Cls):
            for k in self.P.mro(d) or [d]:
                for s in k.node.body:
                    if isinstance(s, ast.FunctionDef) and s.name == "__init__" and id(s) in self.A.bynode:
                        return [(self.A.bynode[id(s)], Val(cls=d))], d, None
            return [], d, None
        return [], None, None

    def e_Call(self, e, env):
        self.A.sites += 1
        args = [(None, self.ev(a.value if isinstance(a, ast.Starred) else a, env), isinstance(a, ast.Starred)) for a in e.args]
        kws = [(k.arg, self.ev(k.value, env), k.arg is None) for k in e.keywords]
        cs, made, nat = self.callees(e, env)
        if nat:
            for i in self.A.native_mut.get(nat, ()):
                if i < len(args):
                    self.mutate(args[i][1], e.lineno, "%s writes through its argument %d" % (nat[1], i + 1), True)
            return EMPTY
        if cs or made:
            out = EMPTY
            for fi, recv in cs:
                ps = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
                bound = {}
                if recv is not None and not fi.static and ps:
                    ps = ps[1:]
                va = fi.node.args.vararg
                j = 0
                for _, v, star in args:
                    if star:
                        for p in ps[j:]:
                            bound[p] = bound.get(p, EMPTY).join(elem(v))
                        if va:
                            bound[va.arg] = bound.get(va.arg, EMPTY).join(elem(v))
                    elif j < len(ps):
                        bound[ps[j]] = v
                        j += 1
                    elif va:
                        bound[va.arg] = bound.get(va.arg, EMPTY).join(v)
                kwp = set(fi.params)
                for k, v, star in kws:
                    if star:
                        for p in kwp:
                            bound.setdefault(p, elem(v))
                    elif k in kwp:
                        bound[k] = v
                    elif fi.node.args.kwarg:
                        a = fi.node.args.kwarg.arg
                        bound[a] = bound.get(a, EMPTY).join(v)
                for p, v in bound.items():
                    root = "%s:%s" % (id(fi.node), p)
                    if root in self.A.mut:
                        info = list(self.A.mut[root])
                        self.inherit(v, info)
                        if v.inner is not None and not v.roots:
                            self.inherit(v.inner, info)
                out = out.join(self.subst(fi.ret, fi, bound))
                # fields the constructor or method retains
                if made is not None:
                    for k in self.A.kin(made):
                        for at, fv in list(self.A.fields.get(id(k.node), {}).items()):
                            sv = self.subst(fv, fi, bound)
                            if sv.held() - fv.held():
                                pass
            if made is not None:
                inner = EMPTY
                for _, v, _ in args:
                    inner = inner.join(v)
                for _, v, _ in kws:
                    inner = inner.join(v)
                return Val(cls=made, inner=inner if inner.held() else None)
            return cap(out)
        # calls of unknown own objects or library functions
        p = self.lib(e.func, env)
        if isinstance(e.func, ast.Name) and e.func.id in env and env[e.func.id].inner is not None:
            return env[e.func.id].inner
        kw = {k.arg: k.value for k in e.keywords if k.arg}
        kv = {k: v for k, v, s in kws if k}
        if "out" in kv:
            self.mutate(kv["out"], e.lineno, "out=%s" % ast.unparse(kw["out"]), True)
            if kv["out"].inner is not None:
                self.mutate(kv["out"].inner, e.lineno, "out=%s" % ast.unparse(kw["out"]), True)
        for k in kw:
            if (k.startswith("overwrite_") or k == "inplace" and isinstance(e.func, ast.Attribute) and p is None) and self.truth(kw[k]):
                if k == "inplace":
                    o = self.ev(e.func.value, env)
                    self.mutate(o, e.lineno, ast.unparse(e)[:80], True)
                elif args:
                    idx = 1 if k in ("overwrite_b", "overwrite_y") and len(args) > 1 else 0
                    self.mutate(args[idx][1], e.lineno, "%s=True" % k, True)
        if p is not None:
            if p in MUTFN and len(args) > MUTFN[p]:
                self.mutate(args[MUTFN[p]][1], e.lineno, ast.unparse(e)[:80], True)
            last = p.split(".")[-1]
            if p.startswith("numpy.") and p.count(".") == 1:
                n = 1 if last in UNARY_OUT else 2 if last in BINARY_OUT else None
                if n is not None and len(args) > n:
                    self.mutate(args[n][1], e.lineno, ast.unparse(e)[:80], True)
                if last in VIEWFN and args:
                    v = view(args[0][1])
                    if last in ("atleast_1d", "atleast_2d", "asarray", "asanyarray", "ascontiguousarray", "asfarray", "require") and len(args) > 1 and last.startswith("atleast"):
                        return Val(inner=v)
                    return v
                if last in ("array", "nan_to_num") and args and "copy" in kw and not self.truth(kw["copy"]):
                    if last == "nan_to_num":
                        self.mutate(args[0][1], e.lineno, ast.unparse(e)[:80], True)
                    return view(args[0][1])
                if last in ("split", "array_split", "hsplit", "vsplit", "broadcast_arrays", "nditer", "ndenumerate") and args:
                    return Val(inner=view(args[0][1]))
                return EMPTY
            if p.startswith("numpy.lib.stride_tricks.") and args:
                return view(args[0][1])
            if p in ("pandas.DataFrame", "pandas.Series", "pandas.Index") and args:
                return view(args[0][1]) if not ("copy" in kw and self.truth(kw["copy"])) and not isinstance(e.args[0], (ast.Dict, ast.List)) else EMPTY
            if p in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed", "builtins.iter", "builtins.set", "builtins.filter", "builtins.dict"):
                return Val(inner=elem(args[-1][1])) if args and elem(args[-1][1]).held() else Val(inner=EMPTY)
            if p in ("builtins.zip", "builtins.enumerate", "builtins.map", "itertools.chain", "itertools.product", "itertools.combinations"):
                v = EMPTY
                for _, a, _ in args:
                    v = v.join(elem(a))
                return Val(inner=Val(inner=v) if p in ("builtins.zip", "builtins.enumerate") else v)
            if p in ("builtins.next", "builtins.max", "builtins.min") and args:
                return elem(args[0][1])
            if p in ("builtins.getattr",) and args:
                return view(args[0][1])
            if p in ("builtins.setattr", "builtins.delattr") and args:
                if args[0][1].cls is None:
                    self.mutate(args[0][1], e.lineno, ast.unparse(e)[:80], True)
                return EMPTY
            if p in ("copy.copy",) and args:
                return Val(inner=elem(args[0][1]))
            if p in ("functools.partial",):
                v = EMPTY
                for _, a, _ in args[1:]:
                    v = v.join(a)
                return Val(inner=v)
            return EMPTY
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, env)
            at = e.func.attr
            if at in MUTMETH and (o.roots or o.inner is not None):
                if at == "update" and not (o.roots):
                    pass
                if at in ("append", "extend", "insert", "add", "appendleft", "update", "setdefault", "__setitem__") and isinstance(e.func.value, ast.Name) and o.inner is not None:
                    v = o.inner
                    for _, a, _ in args:
                        v = v.join(elem(a) if at == "extend" else a)
                    env[e.func.value.id] = cap(Val(o.roots, v, o.cls))
                if o.roots:
                    # an element of unknown rank with a mutating method is an object
                    self.mutate(o, e.lineno, ast.unparse(e)[:80], not any(k == "maybe" for r, k in o.roots))
                return elem(o) if at in ("pop", "setdefault") else EMPTY
            if at == "shuffle" and args:
                self.mutate(args[0][1], e.lineno, ast.unparse(e)[:80], True)
                return EMPTY
            if at in ("astype", "to_numpy", "copy", "reindex", "rename", "set_axis") and "copy" in kw and not self.truth(kw["copy"]):
                return view(o)
            if at == "byteswap" and (args or "inplace" in kw):
                self.mutate(o, e.lineno, ast.unparse(e)[:80], True)
            if at in VIEWMETH:
                if at in ("items", "values"):
                    return Val(inner=elem(Val(o.roots, o.inner)))
                if at in ("get", "__getitem__", "pop", "setdefault"):
                    return elem(o).join(view(Val(o.roots)))
                return view(o)
        return EMPTY

    def subst(self, v, fi, bound):
        out = Val(cls=v.cls)
        for r, k in v.roots:
            fid, _, p = r.partition(":")
            if fid == str(id(fi.node)):
                if p in bound:
                    b = bound[p]
                    if k in ("view", "elem", "maybe"):
                        out = out.join(Val({(x, "elem" if k == "elem" else "maybe" if k == "maybe" else "view") for x, _ in b.roots}, b.inner))
                    else:
                        out = out.join(b)
            else:
                out = out.join(Val({(r, k)}))
        if v.inner is not None:
            out = out.join(Val(inner=self.subst(v.inner, fi, bound)))
        return out

    def truth(self, x):
        return not (isinstance(x, ast.Constant) and not x.value)


def kind_of(f, p):
    """'array', 'scalar' or 'unknown' for parameter p, from its annotation, default, documentation and uses"""
    a = f.node.args
    allp = a.posonlyargs + a.args + a.kwonlyargs
    ann = {x.arg: x.annotation for x in allp}.get(p)
    import re
    if ann is not None:
        s = ast.unparse(ann)
        if any(re.search(r"\b%s\b" % w, s) for w in ARRANN):
            return "array"
        if set(re.findall(r"\w+", s)) - {"Optional", "Union", "typing", "np"} <= SCALAR | {"Number", "floating", "integer"}:
            return "scalar"
    pos = a.posonlyargs + a.args
    dfl = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
    dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = dfl.get(p)
    if isinstance(d, ast.UnaryOp):
        d = d.operand
    if isinstance(d, ast.Constant) and d.value is not None:
        return "scalar"
    doc = ast.get_docstring(f.node) or ""
    m = re.search(r"^\s*%s\s*[:(]([^)\n]*)" % re.escape(p), doc, re.M)
    if m:
        if any(re.search(r"\b%s\b" % w, m.group(1)) for w in ARRANN):
            return "array"
        if re.search(r"\b(float|int|bool|str)\b", m.group(1)):
            return "scalar"
    for y in ast.walk(f.node):
        if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == p:
            return "array"
        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == p and y.attr in REDUCE:
            return "array"
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("len", "sorted", "enumerate", "zip") and any(
                isinstance(z, ast.Name) and z.id == p for z in y.args):
            return "array"
        if isinstance(y, (ast.For, ast.comprehension)) and isinstance(y.iter, ast.Name) and y.iter.id == p:
            return "array"
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "range" and any(isinstance(z, ast.Name) and z.id == p for z in y.args):
            return "scalar"
    return "unknown"
