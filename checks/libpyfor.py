"""The Python side of the isolation forest: values of a function as terms over its parameters (shared by P14 and P16)."""
import ast
import os
from sa.terms import Undecided


class Stop(Exception):
    def __init__(self, v):
        self.v = v


class Path:
    def __init__(self):
        self.calls, self.ret, self.conds, self.stores = [], None, [], []


class Py:
    """straight-line symbolic evaluation with forks at tests"""

    def __init__(self, repo, path):
        self.repo, self.path = repo, path
        self.tree = ast.parse(open(os.path.join(repo, path)).read())
        self.fns = {n.name: n for n in self.tree.body if isinstance(n, ast.FunctionDef)}
        self.glob = {}
        self.nunk = 0
        for n in self.tree.body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.glob[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.glob[a.asname or a.name] = ("mod", "%s.%s" % (n.module or "", a.name))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                try:
                    self.glob[n.targets[0].id] = ("const", ast.literal_eval(n.value))
                except ValueError:
                    self.glob[n.targets[0].id] = self.ev(n.value, {}, None)

    def where(self, n):
        return "%s:%s" % (self.path, getattr(n, "lineno", 1))

    def paths(self, name):
        f = self.fns[name]
        out = []
        todo = [[]]
        while todo:
            ch = todo.pop()
            if len(out) > 256:
                raise Undecided("too many paths through %s" % name)
            self.ch, self.pos, self.more = ch, 0, []
            self.path_ = p = Path()
            env = {}
            a = f.args
            for q in a.posonlyargs + a.args + a.kwonlyargs:
                env[q.arg] = ("par", q.arg)
            try:
                self.block(f.body, env)
                p.ret = ("const", None)
            except Stop as s:
                p.ret = s.v
            if p.ret is not None:
                out.append(p)
            todo += self.more
        return out

    def fork(self, key):
        if self.pos < len(self.ch):
            r = self.ch[self.pos]
        else:
            r = True
            self.more.append(self.ch[:self.pos] + [False])
            self.ch = self.ch + [True]
        self.pos += 1
        self.path_.conds.append((key, r))
        return r

    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        p = self.path_
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env, p)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, p)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env, p), env)
        elif isinstance(s, ast.AugAssign):
            v = ("op", type(s.op).__name__, self.ev(s.target, env, p), self.ev(s.value, env, p))
            self.bind(s.target, v, env)
        elif isinstance(s, ast.Return):
            raise Stop(self.ev(s.value, env, p) if s.value is not None else ("const", None))
        elif isinstance(s, ast.Raise):
            raise Stop(None)
        elif isinstance(s, ast.If):
            c = self.ev(s.test, env, p)
            k = self.known(c)
            r = self.fork(c) if k is None else k
            self.block(s.body if r else s.orelse, env)
        elif isinstance(s, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom)):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    env[a.asname or a.name] = ("mod", "%s.%s" % (s.module or "", a.name))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    env[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env, p)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, ("call", ("attr", v, "__enter__"), (), ()), env)
            self.block(s.body, env)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = ("fn", s)
        elif isinstance(s, ast.Try):
            self.block(s.body, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                else:
                    p.stores.append((self.ev(t.value, env, p), s))
        else:
            raise Undecided("%s at %s" % (type(s).__name__, self.where(s)))

    def known(self, c):
        if c[0] == "const":
            return bool(c[1])
        for k, r in self.path_.conds:
            if k == c:
                return r
            if k == ("op", "Not", c) or c == ("op", "Not", k):
                return not r
        return None

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind(x, v[1 + i] if v[0] in ("tuple", "list") and i + 1 < len(v) else ("item", v, i), env)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            b = self.ev(t.value, env, self.path_)
            k = ("attr", t.attr) if isinstance(t, ast.Attribute) else ("sub", self.ev(t.slice, env, self.path_))
            self.path_.stores.append((b, t, k, v))
        else:
            raise Undecided("assignment at %s" % self.where(t))

    def ev(self, e, env, p):
        if isinstance(e, ast.Constant):
            return ("const", e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.fns:
                return ("fn", self.fns[e.id])
            return self.glob.get(e.id, ("name", e.id))
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env, p)
            if b[0] == "mod":
                return ("mod", "%s.%s" % (b[1], e.attr))
            return ("attr", b, e.attr)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return ("list" if not isinstance(e, ast.Tuple) else "tuple",) + tuple(self.ev(x, env, p) for x in e.elts)
        if isinstance(e, ast.Starred):
            return ("star", self.ev(e.value, env, p))
        if isinstance(e, ast.Dict):
            return ("dict",) + tuple((self.ev(k, env, p) if k is not None else None, self.ev(v, env, p)) for k, v in zip(e.keys, e.values))
        if isinstance(e, ast.IfExp):
            c = self.ev(e.test, env, p)
            k = self.known(c) if p is not None else None
            r = self.fork(c) if k is None else k
            return self.ev(e.body if r else e.orelse, env, p)
        if isinstance(e, ast.BoolOp):
            # a or b, a and b: the value is one of the operands
            v = self.ev(e.values[0], env, p)
            for x in e.values[1:]:
                k = self.known(v)
                r = self.fork(v) if k is None else k
                if r == isinstance(e.op, ast.Or):
                    return v
                v = self.ev(x, env, p)
            return v
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, p)
            if isinstance(e.op, ast.USub) and v[0] == "const" and isinstance(v[1], (int, float)):
                return ("const", -v[1])
            return ("op", type(e.op).__name__, v)
        if isinstance(e, ast.BinOp):
            return ("op", type(e.op).__name__, self.ev(e.left, env, p), self.ev(e.right, env, p))
        if isinstance(e, ast.Compare):
            return ("op",) + tuple(type(o).__name__ for o in e.ops) + (self.ev(e.left, env, p),) + tuple(self.ev(x, env, p) for x in e.comparators)
        if isinstance(e, ast.Subscript):
            return ("sub", self.ev(e.value, env, p), self.ev(e.slice, env, p))
        if isinstance(e, ast.Slice):
            return ("slice",) + tuple(self.ev(x, env, p) if x is not None else None for x in (e.lower, e.upper, e.step))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            g = e.generators
            if len(g) != 1 or not isinstance(g[0].target, ast.Name):
                raise Undecided("comprehension at %s" % self.where(e))
            it = self.ev(g[0].iter, env, p)
            n = dict(env)
            n[g[0].target.id] = ("each", it)
            return ("comp", it, self.ev(e.elt, n, p), tuple(self.ev(x, n, p) for x in g[0].ifs))
        if isinstance(e, ast.JoinedStr):
            return ("unk", "string")
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env, p)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Call):
            return self.call(e, env, p)
        raise Undecided("%s at %s" % (type(e).__name__, self.where(e)))

    depth = 0

    def call(self, e, env, p):
        f = self.ev(e.func, env, p)
        args = []
        for a in e.args:
            v = self.ev(a, env, p)
            if v[0] == "star" and v[1][0] in ("tuple", "list"):
                args += list(v[1][1:])
            else:
                args.append(v)
        kws = []
        for k in e.keywords:
            v = self.ev(k.value, env, p)
            if k.arg is None and v[0] == "dict" and all(q[0] is not None and q[0][0] == "const" for q in v[1:]):
                kws += [(q[0][1], q[1]) for q in v[1:]]
            else:
                kws.append((k.arg, v))
        if f[0] == "fn" and self.depth < 8:
            n = f[1]
            a = n.args
            ps = [q.arg for q in a.posonlyargs + a.args]
            if not a.vararg and not a.kwarg and not any(x[0] == "star" for x in args) and len(args) <= len(ps) and all(k for k, _ in kws):
                loc = dict(env) if n not in self.fns.values() else {}
                for q, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                    loc[q] = self.ev(d, {}, p)
                for q, d in zip(a.kwonlyargs, a.kw_defaults):
                    if d is not None:
                        loc[q.arg] = self.ev(d, {}, p)
                loc.update(zip(ps, args))
                loc.update(kws)
                self.depth += 1
                try:
                    self.block(n.body, loc)
                    return ("const", None)
                except Stop as s:
                    if s.v is None:
                        raise
                    return s.v
                finally:
                    self.depth -= 1
        t = ("call", f, tuple(args), tuple(kws))
        if p is not None:
            p.calls.append((t, e))
        return t


def forest(c, e):
    """(evaluator, function name, paths) of the Python function that calls the compiled entry point"""
    base = os.path.join(c.repo, "src", "frds")
    short = e.mod.split(".")[-1]
    found = []
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith(".py") and short in open(os.path.join(d, f)).read():
                rel = os.path.relpath(os.path.join(d, f), c.repo)
                y = Py(c.repo, rel)
                for nm, fn in y.fns.items():
                    try:
                        ps = y.paths(nm)
                    except Undecided as u:
                        if short in ast.dump(y.tree):
                            err = u
                        continue
                    if any(entrycall(t, e) for p in ps for t, n in p.calls):
                        found.append((y, nm, ps))
    if not found:
        raise Undecided("no Python function calls %s of %s" % (e.py, e.mod))
    # helpers are inlined: the public function is the one not called by another
    pub = [q for q in found if not q[1].startswith("_")]
    if len(pub) != 1:
        raise Undecided("%d Python functions call %s" % (len(pub), e.py))
    return pub[0]


def entrycall(t, e):
    f = t[1]
    return f[0] == "mod" and f[1].split(".")[-1] == e.py and e.mod.split(".")[-1] in f[1].split(".")


def plain(t):
    """the value under conversions that keep it"""
    while t[0] == "call" and t[1] in (("name", "int"), ("name", "float"), ("name", "list")) and len(t[2]) == 1:
        t = t[2][0]
    return t


def positions(c, e):
    """name of the Python parameter -> position in the call of the entry point (same on every path)"""
    y, nm, ps = forest(c, e)
    out = None
    for p in ps:
        cs = [t for t, n in p.calls if entrycall(t, e)]
        if not cs:
            continue
        if len(cs) > 1:
            raise Undecided("the entry point is called more than once")
        m = {}
        for i, a in enumerate(cs[0][2]):
            a = plain(a)
            if a[0] == "par":
                m[a[1]] = i
        if out is not None and m != out:
            raise Undecided("arguments of the entry point differ between paths")
        out = m
    return out or {}
