"""Value-graph construction for Python source: a dataflow (not path-enumerating)
abstract interpreter.  States merge at every join, loops become recurrences that
are solved to closed forms where the shape allows it, library calls become
interpreted or uninterpreted applications."""
import ast
import os
from . import terms as t
from .terms import T, ZERO, ONE, NAN, INF, Undecided, const, add, sub, mul, div, neg, ite, notT, lt0, le0, eq0, subst
from .vals import *

UNROLL = 4
SRC = "src"


def binds_yield(node):
    for n in ast.walk(node):
        if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # make sure it is not inside a nested def
            return True
    return False


class Frame:
    __slots__ = ("fid", "parent", "mod", "globals_", "nonlocals", "keep", "is_class", "fn")

    def __init__(self, parent, mod, is_class=False):
        self.fid = fresh_id()
        self.parent = parent
        self.mod = mod
        self.globals_ = set()
        self.nonlocals = set()
        self.keep = False
        self.is_class = is_class
        self.fn = None


# ------------------------------------------------------------------ stfun / sel hooks
_stfuns = []


def _refn_sel(args, at):
    a0 = args[0]
    if isinstance(a0, T):
        a = t.as_atom(a0)
        if a is not None and a.kind == "fn" and a.args[0] == "stfun":
            f = _stfuns[a.args[1][1]]
            kT = a.args[2]
            return f(kT, tuple(args[1:]))
    return t.fn("sel", *args)


t.REFN["sel"] = _refn_sel


def _isbool01(x):
    return _isind(x) or x is ONE or x is ZERO or all(
        t.ATOMS[a].kind == "ind" for m in x.num for a, _ in m) and not x.den


def isnanT(x):
    if t._has(x, t.NAN_ATOM) and not x.den and len(x.num) == 1:
        return ONE
    if t.is_const(x):
        return ZERO
    # as one minus "is a number", so that a masked term x*[is a number] stays one product
    return notT(t.boolT((("s", "isnum"), x)))


class Interp:
    def __init__(self, repo="/repo", native=False, hooks=None, specdir=None, prep=None):
        self.repo = repo
        self.native = native
        self.hooks = hooks or {}
        self.st = {}
        self.pc = []
        self.mods = {}
        self.asserts = []
        self.raises = []
        self.events = []
        self.calls = {}
        self.yields = []
        self.loops = []
        self.curfile = None
        self.curnode = None
        self.depth = 0
        self.nodes = 0
        self.cells0 = None
        self.roots = {"frds": os.path.join(repo, SRC, "frds")}
        self.specdir = specdir
        self.native_mods = {}
        self.shape_reqs = []
        self.prep = prep
        self.pyfloats = None
        self.bincount_len = None
        self.event_ext = None
        self.global_rng = None
        self.optlen = None
        from . import npmodel
        self.np = npmodel

    # ------------------------------------------------------------- errors
    def undecided(self, msg):
        n = self.curnode
        raise Undecided("%s:%s: %s" % (self.curfile, getattr(n, "lineno", "?"), msg))

    # ------------------------------------------------------------- store
    def alloc(self, content):
        r = Ref()
        self.st[("h", r.id)] = content
        return r

    def content(self, r):
        k = ("h", r.id)
        v = self.st.get(k)
        if isinstance(v, Poison):
            raise NeedCarry(v.key)
        if v is None:
            self.undecided("dangling reference")
        return v

    def arr_new(self, shape, f, dt="f", kind="nd"):
        return self.alloc(Arr(shape, f, dt, kind))

    def getkey(self, k):
        v = self.st.get(k)
        if isinstance(v, Poison):
            raise NeedCarry(v.key)
        return v

    # ------------------------------------------------------------- merging
    def merge_store(self, c, A, B):
        if c is ONE:
            return A
        if c is ZERO:
            return B
        out = dict(A)
        self_st = self.st
        self.st = out
        try:
            for k, b in B.items():
                a = out.get(k, self)
                if a is b:
                    continue
                if a is self:
                    out[k] = b
                    continue
                out[k] = self.merge_val(c, a, b, A, B)
        finally:
            self.st = self_st
        return out

    def merge_val(self, c, a, b, A=None, B=None):
        if a is b:
            return a
        if c is ONE:
            return a
        if c is ZERO:
            return b
        if isinstance(a, Poison):
            raise NeedCarry(a.key)
        if isinstance(b, Poison):
            raise NeedCarry(b.key)
        if isinstance(a, (T, BT, bool)) and isinstance(b, (T, BT, bool)):
            isb = not (isinstance(a, T) or isinstance(b, T))
            v = ite(c, self.num(a), self.num(b))
            return mkbool(v) if isb else v
        if isinstance(a, str) and a == b:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and a.filt is None and b.filt is None:
            if all(x is y for x, y in zip(a.shape, b.shape)):
                return Arr(a.shape, lambda i: self.merge_val(c, a.get(i), b.get(i)), a.dt if a.dt == b.dt else "f", a.kind)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, A, B) for x, y in zip(a, b))
        if isinstance(a, PyList) and isinstance(b, PyList) and len(a.items) == len(b.items):
            return PyList([self.merge_val(c, x, y, A, B) for x, y in zip(a.items, b.items)])
        if isinstance(a, PyDict) and isinstance(b, PyDict) and list(a.items) == list(b.items):
            return PyDict({k: self.merge_val(c, a.items[k], b.items[k], A, B) for k in a.items})
        if isinstance(a, AppMark) and isinstance(b, AppMark) and a.key == b.key:
            n = 0
            while n < len(a.added) and n < len(b.added) and a.added[n][0] is b.added[n][0] and a.added[n][1] is b.added[n][1]:
                n += 1
            ad = a.added[:n] + [(mul(c, x), v) for x, v in a.added[n:]] + [(mul(notT(c), x), v) for x, v in b.added[n:]]
            return AppMark(a.key, ad, a.loop, a.base)
        if isinstance(a, AppMark) and b is a.base:
            return AppMark(a.key, [(mul(c, x), v) for x, v in a.added], a.loop, a.base)
        if isinstance(b, AppMark) and a is b.base:
            nc = notT(c)
            return AppMark(b.key, [(mul(nc, x), v) for x, v in b.added], b.loop, b.base)
        if isinstance(a, Rng) and isinstance(b, Rng):
            return Rng(ite(c, a.state, b.state), a.kind)
        if isinstance(a, Ref) and isinstance(b, Ref) and A is not None:
            ca = A.get(("h", a.id))
            cb = B.get(("h", b.id))
            if type(ca) is type(cb) and isinstance(ca, (Arr, PyList)) and self._fresh_pair(a, b, A, B):
                m = self.merge_val(c, ca, cb, A, B)
                if not isinstance(m, CondV):
                    return self.alloc(m)
        if isinstance(a, CondV) and a.c is c:
            return self.merge_val(c, a.a, b, A, B)
        if isinstance(b, CondV) and b.c is c:
            return self.merge_val(c, a, b.b, A, B)
        if isinstance(a, CondV) and self._sameval(a.b, b):
            return self.merge_val(mul(c, a.c), a.a, b, A, B)
        if isinstance(b, CondV) and self._sameval(b.a, a):
            return CondV(sub(add(c, b.c), mul(c, b.c)), a, b.b)
        if isinstance(b, CondV) and self._sameval(b.b, a):
            return CondV(mul(notT(c), b.c), b.a, a)
        return CondV(c, a, b)

    def _sameval(self, a, b):
        return a is b or (isinstance(a, (str, type(None), bool)) and a == b and type(a) is type(b))

    def _fresh_pair(self, a, b, A, B):
        # both cells allocated on exactly one side of the join: aliasing cannot be observed
        return ("h", a.id) not in B and ("h", b.id) not in A or True

    def map_cond(self, v, f):
        c = v.c
        base = self.st
        self.st = dict(base)
        self.pc.append(c)
        try:
            ra = f(v.a)
        except AbsRaise as e:
            ra = self
            self.raises.append((self.pcond(), e.name, self.curfile, self.curnode))
        self.pc.pop()
        A = self.st
        self.st = dict(base)
        self.pc.append(notT(c))
        try:
            rb = f(v.b)
        except AbsRaise as e:
            if ra is self:
                raise
            rb = self
            self.raises.append((self.pcond(), e.name, self.curfile, self.curnode))
        self.pc.pop()
        B = self.st
        if ra is self:
            return rb
        if rb is self:
            self.st = A
            return ra
        self.st = self.merge_store(c, A, B)
        old = self.st
        return self.merge_val(c, ra, rb, A, B)

    def pcond(self):
        r = ONE
        for c in self.pc:
            r = mul(r, c)
        return r

    # ------------------------------------------------------------- conversions
    def num(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, BT):
            return v.t
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if isinstance(v, (int, float)):
            return const(v)
        if isinstance(v, (Ref, View)):
            a = self.arr(v)
            if a is not None and a.ndim == 0:
                return self.num(a.get(()))
            if a is not None and a.ndim == 1 and t.cval(a.shape[0]) == 1:
                return self.num(a.get((ZERO,)))
            self.undecided("array where a scalar is required")
        if isinstance(v, CondV):
            return self.num(self.map_cond(v, self.num))
        if isinstance(v, Poison):
            raise NeedCarry(v.key)
        if v is None:
            raise AbsRaise("TypeError", self.curnode)
        self.undecided("scalar expected, got %r" % (v,))

    def arr(self, v):
        """Arr snapshot of an array-like value, or None"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, Arr):
                return c
            if isinstance(c, PyList):
                return self.list_arr(c.items)
            if isinstance(c, Cell):
                return None
            if isinstance(c, AppMark):
                raise NeedCarryList(c.key)
            return None
        if isinstance(v, View):
            base = self.content(v.ref)
            return Arr(v.shape, lambda i: base.get(v.fwd(i)), base.dt, "nd")
        if isinstance(v, tuple):
            return self.list_arr(v)
        if isinstance(v, IterV):
            return self.iter_arr(v)
        if isinstance(v, CondV):
            r = self.map_cond(v, lambda x: self.alloc(self.arr(x)) if self.arr(x) is not None else x)
            if isinstance(r, (Ref, View)):
                return self.arr(r)
        return None

    def iter_arr(self, it):
        if it.items is not None:
            return self.list_arr(it.items)
        return Arr((it.n,), lambda i: it.item(i[0]), "f", "list", filt=it.mask)

    def list_arr(self, items):
        items = list(items)
        n = const(len(items))
        subs = [self.arr(x) for x in items]
        if items and all(s is not None for s in subs):
            sh = subs[0].shape
            if all(len(s.shape) == len(sh) for s in subs):
                return Arr((n,) + sh, lambda i: self.pick([s.get(i[1:]) for s in subs], i[0]), subs[0].dt)
        vals = items
        isb = bool(vals) and all(isinstance(x, (bool, BT)) for x in vals)
        return Arr((n,), lambda i: self.pick(vals, i[0]), "b" if isb else "f")

    def pick(self, vals, i):
        c = t.cval(i)
        if c is not None:
            return vals[int(c)]
        if all(v is vals[0] for v in vals):
            return vals[0]
        if all(isinstance(v, (T, BT, bool)) for v in vals):
            nums = [self.num(v) for v in vals]
            if all(t.is_const(x) for x in nums):
                return table(nums, i)
            # affine progression?
            out = nums[-1]
            for k in range(len(nums) - 2, -1, -1):
                out = ite(eq0(sub(i, const(k))), nums[k], out)
            return out
        if all(isinstance(v, tuple) and len(v) == len(vals[0]) for v in vals):
            return tuple(self.pick([v[j] for v in vals], i) for j in range(len(vals[0])))
        subs = [self.arr(v) for v in vals]
        if all(s is not None for s in subs) and all(len(s.shape) == len(subs[0].shape) and all(a is b for a, b in zip(s.shape, subs[0].shape)) for s in subs):
            r = Arr(subs[0].shape, lambda j: self.pick([s.get(j) for s in subs], i), subs[0].dt, "list")
            return self.alloc(r)
        out = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            out = self.merge_val(eq0(sub(i, const(k))), vals[k], out, self.st, self.st)
        return out

    def is_arr(self, v):
        if isinstance(v, View):
            return True
        if isinstance(v, Ref):
            c = self.content(v)
            return isinstance(c, Arr) and c.kind == "nd"
        if isinstance(v, Arr):
            return v.kind == "nd"
        return False

    def is_native_arr(self, v):
        return False

    def is_seq(self, v):
        if isinstance(v, (tuple, IterV, View)):
            return True
        if isinstance(v, Ref):
            return isinstance(self.content(v), (Arr, PyList, AppMark))
        return isinstance(v, Arr)

    def truth(self, v):
        """condition term"""
        if isinstance(v, BT):
            return v.t
        if v is True:
            return ONE
        if v is False or v is None:
            return ZERO
        if isinstance(v, T):
            return notT(eq0(v))
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, tuple):
            return ONE if v else ZERO
        if isinstance(v, CondV):
            return self.num(self.map_cond(v, lambda x: self.truth(x)))
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, PyList):
                return ONE if c.items else ZERO
            if isinstance(c, PyDict):
                return ONE if c.items else ZERO
            if isinstance(c, Arr):
                if c.kind != "nd":
                    return lt0(neg(c.shape[0]))
                if c.ndim == 0:
                    return notT(eq0(c.get(())))
            if isinstance(c, Inst):
                return ONE
        if isinstance(v, (Func, ClassV, ModV, Ext, BoundM)):
            return ONE
        if isinstance(v, Poison):
            raise NeedCarry(v.key)
        self.undecided("truth value of %r" % (v,))

    # ------------------------------------------------------------- modules
    def mod_file(self, name):
        parts = name.split(".")
        root = self.roots.get(parts[0])
        if root is None:
            return None
        p = os.path.join(root, *parts[1:])
        if os.path.isdir(p):
            i = os.path.join(p, "__init__.py")
            return i if os.path.exists(i) else p
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load_module(self, name):
        if name in self.mods:
            return self.mods[name]
        last = name.split(".")[-1]
        if last.endswith("_ext"):
            if not self.native:
                raise AbsRaise("ImportError")
            m = self.native_mods.get(name)
            if m is None:
                from . import cxx
                m = cxx.load_native(self, name)
                self.native_mods[name] = m
            self.mods[name] = m
            return m
        parts = name.split(".")
        if parts[0] not in self.roots:
            return Ext(name)
        # parents first
        if len(parts) > 1:
            self.load_module(".".join(parts[:-1]))
            if name in self.mods:
                return self.mods[name]
        f = self.mod_file(name)
        if f is None:
            raise AbsRaise("ImportError")
        fr = Frame(None, None)
        m = ModV(name, fr, f)
        fr.mod = m
        fr.keep = True
        self.mods[name] = m
        if os.path.isdir(f):
            return m
        src = open(f, encoding="utf8").read()
        tree = ast.parse(src)
        self.exec_module(m, tree)
        return m

    def exec_module(self, m, tree):
        of, on = self.curfile, self.curnode
        opc, self.pc = self.pc, []
        self.curfile = m.path
        self.st[("v", m.frame.fid, "__name__")] = m.name
        self.st[("v", m.frame.fid, "__file__")] = m.path
        if self.prep:
            tree = self.prep(m, tree)
        try:
            ab, live = self.exec_block(tree.body, m.frame)
        finally:
            self.curfile, self.curnode = of, on
            self.pc = opc
        for k, c, s, v in ab:
            if k == "raise" and c is ONE:
                raise AbsRaise(v)

    def load_source(self, name, path):
        fr = Frame(None, None)
        m = ModV(name, fr, path)
        fr.mod = m
        fr.keep = True
        self.mods[name] = m
        self.exec_module(m, ast.parse(open(path, encoding="utf8").read()))
        return m

    def mod_attr(self, m, name):
        k = ("v", m.frame.fid, name)
        if k in self.st:
            return self.getkey(k)
        sub_ = m.name + "." + name
        if sub_ in self.mods:
            return self.mods[sub_]
        raise AbsRaise("AttributeError", self.curnode)

    # ------------------------------------------------------------- names
    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if first or not f.is_class:
                k = ("v", f.fid, name)
                if k in self.st:
                    return self.getkey(k)
            first = False
            f = f.parent
        if fr.mod is not None:
            k = ("v", fr.mod.frame.fid, name)
            if k in self.st:
                return self.getkey(k)
        b = self.np.builtin(self, name)
        if b is not None:
            return b
        raise AbsRaise("NameError:" + name, self.curnode)

    def bind(self, name, v, fr):
        if name in fr.globals_:
            self.st[("v", fr.mod.frame.fid, name)] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if ("v", f.fid, name) in self.st:
                    self.st[("v", f.fid, name)] = v
                    return
                f = f.parent
        self.st[("v", fr.fid, name)] = v

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        abrupt = []
        live = ONE
        npc = len(self.pc)
        try:
            for s in stmts:
                self.curnode = s
                self.nodes += 1
                try:
                    ab, c = self.exec(s, fr)
                except AbsRaise as e:
                    ab, c = [("raise", ONE, self.st, e.name)], ZERO
                    if e.node is None:
                        e.node = s
                    self.raise_node = (self.curfile, s)
                for k, cc, ss, v in ab:
                    abrupt.append((k, mul(live, cc), ss, v))
                live = mul(live, c)
                if live is ZERO:
                    break
                if c is not ONE:
                    # the rest of the block runs under the condition of not having left it
                    self.pc.append(c)
        finally:
            del self.pc[npc:]
        return abrupt, live

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.undecided("statement %s" % type(s).__name__)
        r = m(s, fr)
        return r if r is not None else ((), ONE)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.load_module(a.name) if a.name.split(".")[0] in self.roots else Ext(a.name)
            if a.asname:
                self.bind(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.bind(top, self.mods.get(top) or Ext(top), fr)

    def x_ImportFrom(self, s, fr):
        mod = s.module or ""
        if s.level:
            base = fr.mod.name.split(".")
            if not fr.mod.path.endswith("__init__.py"):
                base = base[:-1]
            if s.level > 1:
                base = base[:-(s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod.split(".")[0] not in self.roots:
            for a in s.names:
                self.bind(a.asname or a.name, self.np.canon_ext(Ext(mod + "." + a.name)), fr)
            return
        m = self.load_module(mod)
        for a in s.names:
            if a.name == "*":
                for k, v in list(self.st.items()):
                    if k[0] == "v" and k[1] == m.frame.fid and not k[2].startswith("_"):
                        self.bind(k[2], v, fr)
                continue
            k = ("v", m.frame.fid, a.name)
            if k in self.st:
                v = self.st[k]
            else:
                try:
                    v = self.load_module(mod + "." + a.name)
                except AbsRaise:
                    raise AbsRaise("ImportError", s)
            self.bind(a.asname or a.name, v, fr)

    def x_Global(self, s, fr):
        fr.globals_ |= set(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            v = self.apply_deco(dv, v, fr)
        self.bind(s.name, v, fr)

    x_AsyncFunctionDef = None

    def apply_deco(self, dv, v, fr):
        if isinstance(dv, Ext):
            p = dv.path
            if p == "builtins.staticmethod":
                return StaticM(v)
            if p == "builtins.classmethod":
                return ClassM(v)
            if p == "builtins.property":
                return PropV(v)
            if p in ("functools.cached_property",):
                return PropV(v, True)
            if p in ("functools.lru_cache", "functools.cache", "functools.wraps", "typing.overload", "abc.abstractmethod"):
                return v
            if p == "dataclasses.dataclass":
                if isinstance(v, ClassV):
                    v.dataclass = True
                return v
        if isinstance(dv, Meth) and dv.name == "setter":
            p = PropV(dv.obj.fn, dv.obj.cached)
            p.setter = v
            return p
        if isinstance(dv, PyFn):
            return self.call(dv, [v], {})
        if isinstance(dv, (Func, BoundM)):
            return self.call(dv, [v], {})
        self.undecided("decorator %r" % (dv,))

    def make_func(self, node, fr, name):
        f = Func()
        f.node, f.frame, f.mod, f.name = node, fr, fr.mod, name
        f.cls = None
        a = node.args
        f.defaults = [self.ev(d, fr) for d in a.defaults]
        f.kwdefaults = [self.ev(d, fr) if d is not None else UNDEF for d in a.kw_defaults]
        f.deco = None
        f.is_gen = isinstance(node, ast.FunctionDef) and self.has_yield(node)
        p = fr
        while p is not None:
            p.keep = True
            p = p.parent
        return f

    def has_yield(self, node):
        def w(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)) or w(c):
                    return True
            return False
        return w(node)

    def x_ClassDef(self, s, fr):
        c = ClassV()
        c.name, c.node, c.mod = s.name, s, fr.mod
        c.bases = []
        for b in s.bases:
            bv = self.ev(b, fr)
            c.bases.append(bv)
        c.meta = None
        for k in s.keywords:
            c.meta = self.ev(k.value, fr)
        c.attrs = {}
        c.dataclass = False
        c.fields = []
        cf = Frame(fr, fr.mod, is_class=True)
        cf.keep = True
        self.exec_block(s.body, cf)
        for k, v in self.st.items():
            if k[0] == "v" and k[1] == cf.fid:
                c.attrs[k[2]] = v
                f = v
                while isinstance(f, (StaticM, ClassM, PropV)):
                    f = f.fn
                if isinstance(f, Func) and f.cls is None:
                    f.cls = c
        for x in s.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                c.fields.append(x.target.id)
        v = c
        for d in reversed(s.decorator_list):
            v = self.apply_deco(self.ev(d.func if isinstance(d, ast.Call) else d, fr), v, fr)
        self.bind(s.name, v, fr)

    def x_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        return [("ret", ONE, self.st, v)], ZERO

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for tg in s.targets:
            self.assign(tg, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id, fr)
            v = self.ev(s.value, fr)
            r = self.inplace(cur, s.op, v)
            self.bind(tg.id, r, fr)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            cur = self.getattr(o, tg.attr)
            v = self.ev(s.value, fr)
            r = self.inplace(cur, s.op, v)
            self.setattr(o, tg.attr, r)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr)
            i = self.ev_index(tg.slice, fr)
            v = self.ev(s.value, fr)
            self.aug_item(o, i, s.op, v)
        else:
            self.undecided("augmented target")

    def aug_item(self, o, i, op, v):
        if isinstance(o, CondV):
            return self.map_cond(o, lambda x: self.aug_item(x, i, op, v))
        cur = self.getitem(o, i)
        if isinstance(cur, View):
            self.inplace(cur, op, v)
            return
        r = self.binop(op, cur, v)
        self.setitem(o, i, r)

    def inplace(self, cur, op, v):
        if isinstance(cur, CondV):
            return self.map_cond(cur, lambda x: self.inplace(x, op, v))
        if isinstance(cur, Ref):
            c = self.content(cur)
            if isinstance(c, PyList) and isinstance(op, ast.Add):
                items = self.as_items(v)
                self.st[("h", cur.id)] = PyList(c.items + items)
                return cur
            if isinstance(c, AppMark) and isinstance(op, ast.Add):
                for x in self.as_items(v):
                    self.list_append(cur, x)
                return cur
        if self.is_arr(cur):
            r = self.binop(op, cur, v)
            ra = self.arr(r)
            ca = self.arr(cur)
            self.store_all(cur, lambda i: ra.get(i), dt=None)
            return cur
        return self.binop(op, cur, v)

    def x_Delete(self, s, fr):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                self.st.pop(("v", fr.fid, tg.id), None)
            else:
                self.undecided("del")

    def x_Assert(self, s, fr):
        v = self.ev(s.test, fr)
        c = self.truth(v)
        self.asserts.append((self.pcond(), c, self.curfile, s))
        if c is ZERO:
            raise AbsRaise("AssertionError", s)
        return ()if False else None

    def x_Raise(self, s, fr):
        nm = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(e, ast.Name):
                nm = e.id
            elif isinstance(e, ast.Attribute):
                nm = e.attr
        self.raises.append((self.pcond(), nm, self.curfile, s))
        return [("raise", ONE, self.st, nm)], ZERO

    def x_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        return self.branch(c, lambda: self.exec_block(s.body, fr), lambda: self.exec_block(s.orelse, fr))

    def branch(self, c, f1, f2):
        if c is ONE:
            return f1()
        if c is ZERO:
            return f2()
        base = self.st
        self.st = dict(base)
        self.pc.append(c)
        try:
            ab1, l1 = f1()
        finally:
            self.pc.pop()
        s1 = self.st
        self.st = dict(base)
        nc = notT(c)
        self.pc.append(nc)
        try:
            ab2, l2 = f2()
        finally:
            self.pc.pop()
        s2 = self.st
        out = [(k, mul(c, cc), ss, v) for k, cc, ss, v in ab1] + [(k, mul(nc, cc), ss, v) for k, cc, ss, v in ab2]
        if l1 is ZERO and l2 is ZERO:
            return out, ZERO
        if l1 is ZERO:
            self.st = s2
            return out, mul(nc, l2)
        if l2 is ZERO:
            self.st = s1
            return out, mul(c, l1)
        self.st = self.merge_store(c, s1, s2)
        return out, add(mul(c, l1), mul(nc, l2))

    def x_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                if isinstance(v, Ref) and isinstance(self.content(v), Inst):
                    v = self.call(self.getattr(v, "__enter__"), [], {})
                self.assign(it.optional_vars, v, fr)
        return self.exec_block(s.body, fr)

    def x_Try(self, s, fr):
        base = dict(self.st)
        ab, live = self.exec_block(s.body, fr)
        st = self.st
        rs = [x for x in ab if x[0] == "raise"]
        out = [x for x in ab if x[0] != "raise"]
        if live is not ZERO and s.orelse:
            ab2, l2 = self.exec_block(s.orelse, fr)
            out += [(k, mul(live, c), ss, v) for k, c, ss, v in ab2]
            live = mul(live, l2)
            st = self.st
        states = [(live, st)] if live is not ZERO else []
        for k, c, ss, nm in rs:
            h = self.match_handler(s.handlers, nm)
            if h is None:
                out.append((k, c, ss, nm))
                continue
            self.st = dict(ss)
            if h.name:
                self.bind(h.name, ExcV(nm), fr)
            ab2, l2 = self.exec_block(h.body, fr)
            out += [(kk, mul(c, cc), sx, v) for kk, cc, sx, v in ab2]
            if l2 is not ZERO:
                states.append((mul(c, l2), self.st))
        if not states:
            self.st = st
            if s.finalbody:
                out = [(k, c, self._fin(s, fr, ss), v) for k, c, ss, v in out]
            return out, ZERO
        live, self.st = self.merge_many(states)
        if s.finalbody:
            out = [(k, c, self._fin(s, fr, ss), v) for k, c, ss, v in out]
            ab2, l2 = self.exec_block(s.finalbody, fr)
            out += [(k, mul(live, c), ss, v) for k, c, ss, v in ab2]
            live = mul(live, l2)
        return out, live

    def _fin(self, s, fr, ss):
        old = self.st
        self.st = dict(ss)
        self.exec_block(s.finalbody, fr)
        r, self.st = self.st, old
        return r

    def match_handler(self, hs, nm):
        for h in hs:
            if h.type is None:
                return h
            names = []
            for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                names.append(e.id if isinstance(e, ast.Name) else getattr(e, "attr", "?"))
            if nm.split(":")[0] in names or "Exception" in names or "BaseException" in names:
                return h
            if nm == "ImportError" and "ModuleNotFoundError" in names:
                return h
        return None

    def merge_many(self, states):
        """states: disjoint [(cond, store)] -> (cond, store)"""
        c, s = states[-1]
        for cc, ss in reversed(states[:-1]):
            s = self.merge_store(cc, ss, s)
            c = add(c, cc)
        return c, s

    def x_Break(self, s, fr):
        return [("brk", ONE, self.st, None)], ZERO

    def x_Continue(self, s, fr):
        return [("cont", ONE, self.st, None)], ZERO

    def x_For(self, s, fr):
        if isinstance(s.iter, ast.Call):
            itv = self.ev(s.iter, fr)
        else:
            itv = self.ev(s.iter, fr)
        return self.run_for(itv, lambda v: self.assign(s.target, v, fr), lambda: self.exec_block(s.body, fr), s, fr)

    def run_for(self, itv, setv, body, s, fr):
        if isinstance(itv, CondV):
            r = self.map_cond(itv, lambda x: self.alloc(self.arr(x)))
            itv = r
        if isinstance(itv, GenV):
            return self.run_gen(itv, setv, body)
        it = self.iterate(itv)
        orelse = getattr(s, "orelse", None)
        if it.items is not None:
            return self.loop_items(it.items, setv, body, orelse, fr)
        n = it.n
        c = t.cval(n)
        if c is not None and c <= UNROLL and it.mask is None:
            return self.loop_items([self.item_val(it, const(k)) for k in range(int(c))], setv, body, orelse, fr)
        if it.mask is not None:
            ob, os_ = body, setv

            def body():
                kk = cell[0]
                return self.branch(it.mask((kk,)), lambda: (os_(self.item_val(it, kk)), ob())[1], lambda: ([], ONE))
            cell = [None]

            def setk(k):
                cell[0] = k
            return self.loop_sym(n, setk, body, orelse, fr)
        return self.loop_sym(n, lambda k: setv(self.item_val(it, k)), body, orelse, fr)

    def item_val(self, it, k):
        v = it.item(k)
        return v

    def run_gen(self, g, setv, body):
        def handler(v):
            setv(v)
            ab, live = body()
            conts = [(c, s) for k, c, s, _ in ab if k == "cont"]
            other = [x for x in ab if x[0] in ("brk", "ret")]
            if other:
                self.undecided("break/return out of a generator consumer")
            sts = ([(live, self.st)] if live is not ZERO else []) + conts
            if not sts:
                raise AbsRaise(self.raises[-1][1] if self.raises else "Exception", self.curnode)
            _, self.st = self.merge_many(sts)
            return None
        self.yields.append(handler)
        try:
            self.call_body(g.fn, g.env)
        finally:
            self.yields.pop()
        return (), ONE

    def loop_items(self, items, setv, body, orelse, fr):
        out = []
        live = ONE
        broken = []
        for it in items:
            setv(it)
            ab, l = body()
            sts = [(l, self.st)] if l is not ZERO else []
            for k, c, s, v in ab:
                if k == "cont":
                    sts.append((c, s))
                elif k == "brk":
                    broken.append((mul(live, c), s))
                else:
                    out.append((k, mul(live, c), s, v))
            if not sts:
                live = ZERO
                break
            l, self.st = self.merge_many(sts)
            live = mul(live, l)
        if orelse and live is not ZERO:
            ab, l = self.exec_block(orelse, fr)
            out += [(k, mul(live, c), s, v) for k, c, s, v in ab]
            live = mul(live, l)
        sts = broken + ([(live, self.st)] if live is not ZERO else [])
        if not sts:
            return out, ZERO
        live, self.st = self.merge_many(sts)
        return out, live

    # ------------------------------------------------------------- symbolic loops
    def loop_sym(self, n, setk, body, orelse, fr, test=None):
        d = len(self.loops)
        try:
            return self._loop_sym(n, setk, body, orelse, fr, test)
        finally:
            del self.loops[d:]

    def _loop_sym(self, n, setk, body, orelse, fr, test=None):
        base = self.st
        kat = t.fresh_bv(n, tag="k")
        apps = {}        # list cells appended to (never read) in this loop
        grow = {}        # list cells appended to and read: key -> state atom
        kT = t.atomT(kat)
        carried = {}     # key -> template
        order = []
        poison = set()
        brk = ("brk", fresh_id())
        retk = ("ret", fresh_id())
        base = dict(base)
        useflag = False
        npc = len(self.pc)
        nloops = len(self.loops)
        nas, nra, nev = len(self.asserts), len(self.raises), len(self.events)
        for rnd in range(60):
            del self.pc[npc:], self.asserts[nas:], self.raises[nra:], self.events[nev:]
            entry = dict(base)
            leaves = []
            self.st = entry
            for key in poison:
                if key not in carried:
                    entry[key] = Poison(key)
            for key in order:
                tm_ = carried[key]
                entry[key] = self.tm_inst(tm_, key, leaves)
            if useflag:
                leaves_flag = self.st_leaf("s", 0)
                retflag = self.st_leaf("s", 0)
                leaves.append((("brkflag",), leaves_flag, 0, None))
                leaves.append((("retflag",), retflag, 0, None))
            for key in apps:
                if key not in grow:
                    entry[key] = AppMark(key, [], kat.id, base[key])
            for key, ga in grow.items():
                m0 = self.list_len(base[key])
                entry[key] = Arr((add(m0, kT),), lambda i, ga=ga: t.fn("sel", t.atomT(ga), *i),
                                 base[key].dt if isinstance(base[key], Arr) else "f", "list")
            entry0 = dict(entry)
            self.st = dict(entry)
            del self.loops[nloops:]
            self.loops.append((entry0, kat.id))
            try:
                cond = ONE
                if test is not None:
                    cond = test()
                setk(kT)
                ab, live = body()
            except NeedCarryList as e:
                del self.pc[npc:]
                if e.key not in apps:
                    raise
                ga = t._mk("sym", ("#st%d" % fresh_id(),))
                ga.deps = frozenset([ga.id])
                grow[e.key] = ga
                continue
            except NeedCarry as e:
                del self.pc[npc:]
                if e.key in carried or e.key not in poison:
                    raise
                carried[e.key] = self.tm_build(base.get(e.key, UNDEF), base, e.key)
                order.append(e.key)
                continue
            fall = [(live, self.st)] if live is not ZERO else []
            brks, rets = [], []
            for k, c, s, v in ab:
                if k == "cont":
                    fall.append((c, s))
                elif k == "brk":
                    brks.append((c, s))
                elif k == "ret":
                    rets.append((c, s, v))
            if (brks or rets) and not useflag:
                useflag = True
                continue
            try:
                if useflag:
                    for c, s in fall:
                        s[brk] = ZERO
                        s[("rf",) + brk] = ZERO
                    bb = []
                    for c, s in brks:
                        s = dict(s)
                        s[brk] = ONE
                        s[("rf",) + brk] = ZERO
                        bb.append((c, s))
                    rr = []
                    for c, s, v in rets:
                        s = dict(s)
                        s[brk] = ONE
                        s[("rf",) + brk] = ONE
                        s[retk] = v
                        rr.append((c, s))
                    for c, s in fall + bb:
                        s.setdefault(retk, entry0.get(retk, Poison(retk) if retk in poison else UNDEF))
                    if rets and retk not in carried:
                        carried[retk] = self.tm_build(UNDEF, base, retk)
                        order.append(retk)
                        poison.add(retk)
                        continue
                    _, end = self.merge_many(fall + bb + rr)
                    e0 = dict(entry0)
                    e0[brk] = leaves_flag
                    e0[("rf",) + brk] = retflag
                    if retk not in e0:
                        e0[retk] = end.get(retk)
                    alive = notT(eq0(sub(leaves_flag, ONE)))
                    end = self.merge_store(alive, end, e0)
                else:
                    if not fall:
                        self.st = base
                        return [], ONE
                    _, end = self.merge_many(fall)
            except NeedCarry as e:
                if e.key in carried or e.key not in poison:
                    raise
                carried[e.key] = self.tm_build(base.get(e.key, UNDEF), base, e.key)
                order.append(e.key)
                continue
            # newly changed keys
            again = False
            for key, v in end.items():
                if key in (brk, ("rf",) + brk) or key in grow:
                    continue
                if isinstance(v, AppMark) and v.loop == kat.id:
                    if key not in apps:
                        apps[key] = True
                        again = True
                    continue
                if key in entry0:
                    if v is not entry0[key] and key not in carried and key not in poison:
                        if not self.same_scalar(v, entry0[key]):
                            poison.add(key)
                            again = True
                            if key[0] == "h":
                                carried[key] = self.tm_build(base[key], base, key)
                                order.append(key)
                elif key[0] == "v" and key[1] == fr.fid and key not in poison:
                    poison.add(key)
            if again:
                continue
            # check structures
            self.st = end
            ok = True
            for key in order:
                tm_ = carried[key]
                try:
                    tm_.nextv = self.tm_extract(tm_.tree, end.get(key, UNDEF), end)
                except Mismatch:
                    tm2 = self.tm_widen(tm_, end.get(key, UNDEF), end)
                    if tm2 is None:
                        self.undecided("loop-carried value %s changes structure" % (key,))
                    carried[key] = tm2
                    ok = False
            if not ok:
                continue
            break
        else:
            self.undecided("loop analysis does not stabilise")
        # build recurrence components
        comps = []
        li = 0
        for key in order:
            tm_ = carried[key]
            self.st = base
            inits = tm_.init
            for (kind, rank, shape), st, i0, nx in zip(tm_.kinds, tm_.sts, inits, tm_.nextv):
                comps.append([rank, st, i0, nx, key])
        gpos = {}
        for key, ga in grow.items():
            nx = end[key]
            m0 = self.list_len(base[key])
            if not isinstance(nx, Arr) or sub(nx.shape[0], add(m0, kT)) is not ONE:
                self.undecided("list that grows irregularly in a loop and is read there")
            gpos[key] = len(comps)
            comps.append([1, ga, self.padded(base[key]), nx, key])
        nflag = None
        if useflag:
            nflag = len(comps)
            comps.append([0, t.as_atom(leaves_flag), ZERO, end[brk], None])
            comps.append([0, t.as_atom(retflag), ZERO, end[("rf",) + brk], None])
        rcs = []
        for rank, st, i0, nx, key in comps:
            if rank == 0:
                rcs.append((0, (), i0, nx, st))
            else:
                rb = [t.fresh_bv(i0.shape[d] if isinstance(i0, Arr) else None, tag="r") for d in range(rank)]
                idx = tuple(t.atomT(b) for b in rb)
                rcs.append((rank, tuple(rb), self.num(i0.get(idx)), self.num(nx.get(idx)), st))
        vals_ = solve(rcs, kat)
        if test is not None:
            n = self.trip_count(cond, rcs, vals_, kat)
        self.last_loop = (n, rcs, vals_)

        def at(K):
            mp = {}
            for (rank, rb, i0, nx, st), f in zip(rcs, vals_):
                if rank == 0:
                    mp[st.id] = f(K, ())
                else:
                    _stfuns.append(f)
                    mp[st.id] = t.fn("stfun", ("s", len(_stfuns) - 1), K)
            return mp
        nm1 = sub(n, ONE)
        mp = at(nm1)
        mp[kat.id] = nm1
        # remap recorded facts
        for lst, nn in ((self.asserts, nas), (self.raises, nra)):
            pass
        # final store
        final = dict(base)
        self.st = final
        pos = 0
        cache = {}
        for key in order:
            tm_ = carried[key]
            lv = []
            for (kind, rank, shape), st, i0 in zip(tm_.kinds, tm_.sts, tm_.init):
                f = vals_[pos]
                pos += 1
                if rank == 0:
                    lv.append(f(n, ()))
                else:
                    lv.append(Arr(shape, lambda i, f=f: f(n, i), i0.dt if isinstance(i0, Arr) else "f", kind))
            if key == retk:
                retval = self.tm_make(tm_.tree, iter(lv), final)
                continue
            # content keys keep their identity
            final[key] = self.tm_make(tm_.tree, iter(lv), final, content=(key[0] == "h"))
        for key, gp in gpos.items():
            m0 = self.list_len(base[key])
            final[key] = Arr((add(m0, n),), lambda i, f=vals_[gp]: f(n, i), end[key].dt, "list")
        for key, v in end.items():
            if key in carried or key in gpos or key in (brk, ("rf",) + brk, retk):
                continue
            if isinstance(v, AppMark):
                continue
            if key in base:
                if key in poison and not isinstance(v, Poison):
                    final[key] = self.sub_val(v, mp, end, final, base, cache)
            elif key[0] == "v" and not isinstance(v, Poison):
                final[key] = self.sub_val(v, mp, end, final, base, cache)
        # appended lists
        for key, v in end.items():
            if isinstance(v, AppMark) and v.loop == kat.id:
                final[key] = self.close_append(base[key], v, n, kat, at, end, final, base)
        self.st = final
        out = []
        live = ONE
        if useflag:
            rf = vals_[nflag + 1](n, ())
            if rf is not ZERO:
                c = notT(eq0(rf))
                out.append(("ret", c, dict(final), retval))
                live = notT(c)
        if orelse:
            if useflag:
                bf = vals_[nflag](n, ())
                c = eq0(bf)
                ab, l = self.branch(c, lambda: self.exec_block(orelse, fr), lambda: ([], ONE))
                out += ab
                live = mul(live, l)
            else:
                ab, l = self.exec_block(orelse, fr)
                out += ab
                live = mul(live, l)
        return out, live

    def trip_count(self, cond, rcs, vals_, kat):
        mp = {}
        kT = t.atomT(kat)
        for (rank, rb, i0, nx, st), f in zip(rcs, vals_):
            if rank == 0:
                mp[st.id] = f(kT, ())
        c = subst(cond, mp)
        pos = c
        negd = False
        a = t.as_atom(c)
        if a is None:
            a = t.as_atom(notT(c))
            negd = True
        if a is None or a.kind != "ind" or a.args[0] != "N":
            self.undecided("while loop whose trip count is not an index comparison")
        e = a.args[1]
        if negd:
            # not(e<0) <=> e>=0 <=> -e-1<0
            e = sub(neg(e), ONE)
        co = e.num.get(((kat.id, 1),))
        if co != 1:
            self.undecided("while loop trip count")
        rest = sub(e, kT)
        if kat.id in rest.deps:
            self.undecided("while loop trip count")
        return neg(rest)

    def same_scalar(self, a, b):
        if isinstance(a, (T, bool, str, type(None))) and type(a) is type(b):
            return a is b or (not isinstance(a, T) and a == b)
        if isinstance(a, BT) and isinstance(b, BT):
            return a.t is b.t
        return False

    def st_leaf(self, kind, rank):
        a = t._mk("sym", ("#st%d" % fresh_id(),), isint=(kind == "i"))
        a.deps = frozenset([a.id])
        return t.atomT(a)

    def x_While(self, s, fr):
        # try concrete unrolling first
        for _ in range(UNROLL * 2):
            save = self.st
            self.st = dict(save)
            c = self.truth(self.ev(s.test, fr))
            if c is ZERO:
                if s.orelse:
                    return self.exec_block(s.orelse, fr)
                return (), ONE
            self.st = save
            break
        return self.loop_sym(None, lambda k: None, lambda: self.exec_block(s.body, fr), s.orelse, fr,
                             test=lambda: self.truth(self.ev(s.test, fr)))

    # templates ---------------------------------------------------------
    def tm_build(self, v, st, key):
        tm_ = Tmpl()
        tm_.tree = self.tree_of(v, st)
        tm_.initv = v
        tm_.initst = st
        self._tm_leaves(tm_)
        tm_.init = self.tm_extract(tm_.tree, v, st)
        return tm_

    def _tm_leaves(self, tm_):
        tm_.kinds = []

        def walk(tr):
            if tr[0] in ("s", "b", "i"):
                tm_.kinds.append((tr[0], 0, None))
            elif tr[0] == "arr":
                tm_.kinds.append((tr[3], len(tr[1]), tr[1]))
            elif tr[0] == "rng":
                tm_.kinds.append(("s", 0, None))
            elif tr[0] in ("list", "tuple", "plist"):
                for x in tr[1]:
                    walk(x)
            elif tr[0] == "dict":
                for x in tr[1].values():
                    walk(x)
            elif tr[0] == "inst":
                for x in tr[2].values():
                    walk(x)
            elif tr[0] == "ref":
                walk(tr[1])
            elif tr[0] == "alt":
                tm_.kinds.append(("b", 0, None))
                walk(tr[1])
                walk(tr[2])
        walk(tm_.tree)
        tm_.sts = []
        for kind, rank, shape in tm_.kinds:
            a = t._mk("sym", ("#st%d" % fresh_id(),), isint=(kind == "i"))
            a.deps = frozenset([a.id])
            tm_.sts.append(a)

    def tree_of(self, v, st, depth=0):
        if depth > 8:
            self.undecided("deep loop-carried structure")
        if isinstance(v, T):
            return ("i",) if t.is_int(v) else ("s",)
        if isinstance(v, (BT, bool)):
            return ("b",)
        if isinstance(v, Arr):
            if v.filt is not None:
                return ("const", v)
            return ("arr", v.shape, v.dt, v.kind)
        if isinstance(v, tuple):
            return ("tuple", [self.tree_of(x, st, depth + 1) for x in v])
        if isinstance(v, PyList):
            return ("plist", [self.tree_of(x, st, depth + 1) for x in v.items])
        if isinstance(v, PyDict):
            return ("dict", {k: self.tree_of(x, st, depth + 1) for k, x in v.items.items()})
        if isinstance(v, Rng):
            return ("rng", v.kind)
        if isinstance(v, Ref):
            c = st.get(("h", v.id))
            if isinstance(c, Inst):
                at = {k[2]: x for k, x in st.items() if k[0] == "a" and k[1] == v.id}
                return ("inst", c.cls, {k: self.tree_of(x, st, depth + 1) for k, x in sorted(at.items())})
            if isinstance(c, (Arr, PyList, PyDict)):
                return ("ref", self.tree_of(c, st, depth + 1))
            return ("const", v)
        if isinstance(v, View):
            old, self.st = self.st, st
            a = self.arr(v)
            self.st = old
            return ("ref", self.tree_of(a, st, depth + 1))
        if isinstance(v, CondV):
            ta = self.tree_of(v.a, st, depth + 1)
            tb = self.tree_of(v.b, st, depth + 1)
            if self.tree_eq(ta, tb):
                return ta
            return ("alt", ta, tb)
        return ("const", v)

    def tree_eq(self, a, b):
        if a[0] != b[0]:
            return {a[0], b[0]} == {"i", "s"}
        if a[0] == "const":
            return a[1] is b[1] or (isinstance(a[1], (str, type(None))) and a[1] == b[1] and type(a[1]) is type(b[1]))
        if a[0] == "arr":
            return len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1]))
        if a[0] in ("tuple", "plist"):
            return len(a[1]) == len(b[1]) and all(self.tree_eq(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == "ref":
            return self.tree_eq(a[1], b[1])
        if a[0] == "inst":
            return a[1] is b[1] and list(a[2]) == list(b[2]) and all(self.tree_eq(a[2][k], b[2][k]) for k in a[2])
        if a[0] == "dict":
            return list(a[1]) == list(b[1]) and all(self.tree_eq(a[1][k], b[1][k]) for k in a[1])
        if a[0] == "alt":
            return self.tree_eq(a[1], b[1]) and self.tree_eq(a[2], b[2])
        return True

    def tm_inst(self, tm_, key, leaves):
        lv = []
        for (kind, rank, shape), a in zip(tm_.kinds, tm_.sts):
            sT = t.atomT(a)
            if rank == 0:
                lv.append(sT)
            else:
                lv.append(Arr(shape, lambda i, sT=sT: t.fn("sel", sT, *i), "f", kind))
        return self.tm_make(tm_.tree, iter(lv), self.st, content=(key[0] == "h"), key=key)

    def tm_make(self, tr, it, st, content=False, key=None):
        k = tr[0]
        if k in ("s", "i"):
            return next(it)
        if k == "b":
            v = next(it)
            return mkbool(v if (v is ONE or v is ZERO) else t.notT(eq0(v)) if not _isind(v) else v)
        if k == "arr":
            a = next(it)
            return Arr(a.shape, a.f, tr[2], tr[3])
        if k == "rng":
            return Rng(next(it), tr[1])
        if k == "const":
            return tr[1]
        if k == "tuple":
            return tuple(self.tm_make(x, it, st) for x in tr[1])
        if k == "plist":
            return PyList([self.tm_make(x, it, st) for x in tr[1]])
        if k == "dict":
            return PyDict({kk: self.tm_make(x, it, st) for kk, x in tr[1].items()})
        if k == "ref":
            c = self.tm_make(tr[1], it, st)
            r = Ref()
            st[("h", r.id)] = c
            return r
        if k == "inst":
            r = Ref()
            st[("h", r.id)] = Inst(tr[1])
            for kk, x in tr[2].items():
                st[("a", r.id, kk)] = self.tm_make(x, it, st)
            return r
        if k == "alt":
            c = next(it)
            a = self.tm_make(tr[1], it, st)
            b = self.tm_make(tr[2], it, st)
            c = c if _isind(c) else notT(eq0(c))
            if c is ONE:
                return a
            if c is ZERO:
                return b
            return CondV(c, a, b)
        raise Undecided("template " + k)

    def tm_extract(self, tr, v, st):
        """list of leaf values of v seen as tr; raises Mismatch"""
        if isinstance(v, CondV) and tr[0] != "alt":
            a = self.tm_extract(tr, v.a, st)
            b = self.tm_extract(tr, v.b, st)
            return [self._ite_leaf(v.c, x, y) for x, y in zip(a, b)]
        k = tr[0]
        if k in ("s", "i", "b"):
            if isinstance(v, (T, BT, bool)):
                return [self.num(v)]
            raise Mismatch()
        if k == "arr":
            if isinstance(v, Arr) and len(v.shape) == len(tr[1]) and v.filt is None:
                if all(x is y for x, y in zip(v.shape, tr[1])):
                    return [v]
            raise Mismatch()
        if k == "rng":
            if isinstance(v, Rng):
                return [v.state]
            raise Mismatch()
        if k == "const":
            if self._sameval(tr[1], v):
                return []
            if isinstance(tr[1], (T,)) and tr[1] is v:
                return []
            raise Mismatch()
        if k == "tuple":
            if isinstance(v, tuple) and len(v) == len(tr[1]):
                return [y for a, x in zip(tr[1], v) for y in self.tm_extract(a, x, st)]
            raise Mismatch()
        if k == "plist":
            if isinstance(v, PyList) and len(v.items) == len(tr[1]):
                return [y for a, x in zip(tr[1], v.items) for y in self.tm_extract(a, x, st)]
            raise Mismatch()
        if k == "dict":
            if isinstance(v, PyDict) and list(v.items) == list(tr[1]):
                return [y for kk, a in tr[1].items() for y in self.tm_extract(a, v.items[kk], st)]
            raise Mismatch()
        if k == "ref":
            if isinstance(v, Ref):
                return self.tm_extract(tr[1], st.get(("h", v.id)), st)
            if isinstance(v, View):
                old, self.st = self.st, st
                a = self.arr(v)
                self.st = old
                return self.tm_extract(tr[1], a, st)
            raise Mismatch()
        if k == "inst":
            if isinstance(v, Ref):
                c = st.get(("h", v.id))
                if isinstance(c, Inst) and c.cls is tr[1]:
                    out = []
                    for kk, x in tr[2].items():
                        out += self.tm_extract(x, st.get(("a", v.id, kk), UNDEF), st)
                    return out
            raise Mismatch()
        if k == "alt":
            try:
                a = self.tm_extract(tr[1], v, st) if not isinstance(v, CondV) else None
                if a is not None:
                    return [ONE] + a + self.defaults(tr[2])
            except Mismatch:
                pass
            try:
                b = self.tm_extract(tr[2], v, st) if not isinstance(v, CondV) else None
                if b is not None:
                    return [ZERO] + self.defaults(tr[1]) + b
            except Mismatch:
                pass
            if isinstance(v, CondV):
                a = self.tm_extract(tr, v.a, st)
                b = self.tm_extract(tr, v.b, st)
                return [self._ite_leaf(v.c, x, y) for x, y in zip(a, b)]
            raise Mismatch()
        raise Mismatch()

    def _ite_leaf(self, c, x, y):
        if isinstance(x, Arr):
            return Arr(x.shape, lambda i: ite(c, self.num(x.get(i)), self.num(y.get(i))), x.dt, x.kind)
        return ite(c, x, y)

    def defaults(self, tr):
        k = tr[0]
        if k in ("s", "i", "b", "rng"):
            return [ZERO]
        if k == "arr":
            return [Arr(tr[1], lambda i: ZERO, tr[2], tr[3])]
        if k in ("tuple", "plist"):
            return [y for x in tr[1] for y in self.defaults(x)]
        if k == "dict":
            return [y for x in tr[1].values() for y in self.defaults(x)]
        if k == "inst":
            return [y for x in tr[2].values() for y in self.defaults(x)]
        if k == "ref":
            return self.defaults(tr[1])
        if k == "alt":
            return [ZERO] + self.defaults(tr[1]) + self.defaults(tr[2])
        return []

    def tm_widen(self, tm_, v, st):
        d, tr = 0, tm_.tree
        while tr[0] == "alt":
            d, tr = d + 1, tr[2]
        if d >= 4:
            return None
        if isinstance(v, AppMark):
            return None
        if isinstance(v, CondV):
            # pick the alternative that is new
            alts = []

            def coll(x):
                if isinstance(x, CondV):
                    coll(x.a)
                    coll(x.b)
                else:
                    alts.append(x)
            coll(v)
            new = None
            for x in alts:
                try:
                    self.tm_extract(tm_.tree, x, st)
                except Mismatch:
                    if new is None:
                        new = self.tree_of(x, st)
            if new is None:
                return None
            tr = new
        else:
            tr = self.tree_of(v, st)
        t2 = Tmpl()
        t2.tree = ("alt", tr, tm_.tree)
        t2.initv, t2.initst = tm_.initv, tm_.initst
        self._tm_leaves(t2)
        t2.init = self.tm_extract(t2.tree, tm_.initv, tm_.initst)
        return t2

    # value substitution --------------------------------------------------
    def sub_val(self, v, mp, src, dst, base, cache):
        if isinstance(v, T):
            return subst(v, mp)
        if isinstance(v, BT):
            return mkbool(subst(v.t, mp))
        if isinstance(v, tuple):
            return tuple(self.sub_val(x, mp, src, dst, base, cache) for x in v)
        if isinstance(v, CondV):
            c = subst(v.c, mp)
            a = self.sub_val(v.a, mp, src, dst, base, cache)
            b = self.sub_val(v.b, mp, src, dst, base, cache)
            if c is ONE:
                return a
            if c is ZERO:
                return b
            return CondV(c, a, b)
        if isinstance(v, Arr):
            return self.sub_arr(v, mp, src, dst, base, cache)
        if isinstance(v, PyList):
            return PyList([self.sub_val(x, mp, src, dst, base, cache) for x in v.items])
        if isinstance(v, PyDict):
            return PyDict({k: self.sub_val(x, mp, src, dst, base, cache) for k, x in v.items.items()})
        if isinstance(v, Rng):
            return Rng(subst(v.state, mp), v.kind)
        if isinstance(v, Ref):
            key = ("h", v.id)
            if key in base or key not in src:
                return v
            if v.id in cache:
                return cache[v.id]
            r = Ref()
            cache[v.id] = r
            c = src[key]
            if isinstance(c, Inst):
                dst[("h", r.id)] = c
                for k, x in list(src.items()):
                    if k[0] == "a" and k[1] == v.id:
                        dst[("a", r.id, k[2])] = self.sub_val(x, mp, src, dst, base, cache)
            else:
                dst[("h", r.id)] = self.sub_val(c, mp, src, dst, base, cache)
            return r
        if isinstance(v, View):
            key = ("h", v.ref.id)
            shape = tuple(subst(x, mp) for x in v.shape)
            ref = self.sub_val(v.ref, mp, src, dst, base, cache)

            def fwd(i):
                bvs = [t.fresh_bv(s, tag="v") for s in v.shape]
                b = v.fwd(tuple(t.atomT(x) for x in bvs))
                m2 = {x.id: y for x, y in zip(bvs, i)}
                return tuple(subst(subst(y, mp), m2) for y in b)
            return View(ref, shape, fwd, None)
        return v

    def sub_arr(self, v, mp, src=None, dst=None, base=None, cache=None):
        shape = tuple(subst(x, mp) for x in v.shape)
        memo = []

        def f(i):
            if not memo:
                bvs = [t.fresh_bv(s, tag="v") for s in v.shape]
                old = self.st
                if src is not None and v.kind != "nd":
                    self.st = dict(src)
                b = v.get(tuple(t.atomT(x) for x in bvs))
                s2 = self.st
                self.st = old
                b = self.sub_val(b, mp, s2, self.st, base if base is not None else self.st, {}) if not isinstance(b, T) else subst(b, mp)
                # the cells of the element value, should a later reading happen in a state that lacks them
                memo.append((bvs, b, None if isinstance(b, T) else dict(self.st)))
            bvs, b, snap = memo[0]
            m2 = {x.id: y for x, y in zip(bvs, i)}
            if isinstance(b, T):
                return subst(b, m2)
            from_ = self.st
            if isinstance(b, Ref) and ("h", b.id) not in from_:
                from_ = {**snap, **from_}
            return self.sub_val(b, m2, from_, self.st, {}, {})
        return Arr(shape, f, v.dt, v.kind)

    # lists grown in loops ---------------------------------------------------
    def list_len(self, c):
        return const(len(c.items)) if isinstance(c, PyList) else c.shape[0]

    def padded(self, c):
        if isinstance(c, PyList):
            if not c.items:
                return Arr((ZERO,), lambda i: ZERO, "f", "list")
            a = self.list_arr(c.items)
            if a.ndim != 1:
                self.undecided("list of arrays that grows in a loop and is read there")
            return a
        return c

    def list_append(self, ref, v):
        c = self.content(ref)
        if isinstance(c, AppMark):
            self.st[("h", ref.id)] = AppMark(c.key, c.added + [(ONE, v)], c.loop, c.base)
            return
        key = ("h", ref.id)
        if self.loops and isinstance(c, (PyList, Arr)) and self.loops[-1][0].get(key) is c:
            self.st[key] = AppMark(key, [(ONE, v)], self.loops[-1][1], c)
            return
        if isinstance(c, PyList):
            self.st[("h", ref.id)] = PyList(c.items + [v])
            return
        if isinstance(c, Arr) and c.kind == "list":
            n = c.shape[0]
            self.st[("h", ref.id)] = Arr((add(n, ONE),), lambda i: self.merge_val(eq0(sub(i[0], n)), v, c.get(i), self.st, self.st), c.dt, "list")
            return
        self.undecided("append")

    def close_append(self, basec, mark, n, kat, at, end, final, base):
        if isinstance(basec, PyList):
            items = basec.items
        elif isinstance(basec, Arr) and basec.kind == "list" and basec.filt is None:
            items = None
        else:
            self.undecided("append to this container in a loop")
        kT = t.atomT(kat)
        mpk = at(kT)

        def inst(v, k):
            mp = dict(mpk)
            v1 = self.sub_val(v, mp, end, self.st, base, {})
            return self.sub_val(v1, {kat.id: k}, self.st, self.st, base, {})
        e = len(mark.added)
        if e == 0:
            return basec
        if all(c is ONE for c, v in mark.added):
            m = const(len(items)) if items is not None else basec.shape[0]
            vs = [v for c, v in mark.added]

            def f(i):
                j = sub(i[0], m)
                if e == 1:
                    g = inst(vs[0], j)
                else:
                    q = self.np.fdiv(j, const(e))
                    r = sub(j, mul(q, const(e)))
                    g = self.pick([inst(v, q) for v in vs], r)
                if items is not None and not items:
                    return g
                b = self.pick(items, i[0]) if items is not None else basec.get(i)
                return self.merge_val(lt0(j), b, g, self.st, self.st)
            return Arr((add(m, mul(n, const(e))),), f, "f", "list")
        if e == 1 and items is not None and not items:
            c, v = mark.added[0]
            msk = subst(c, mpk)
            return Arr((n,), lambda i: inst(v, i[0]), "f", "list", filt=lambda i: subst(msk, {kat.id: i[0]}))
        self.undecided("conditional append of several items")

    # ------------------------------------------------------------- assignment
    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.bind(tg.id, v, fr)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(tg.elts), star)
            if star:
                i = star[0]
                after = len(tg.elts) - i - 1
                mid = items[i:len(items) - after]
                items = items[:i] + [self.alloc(PyList(mid))] + items[len(items) - after:]
                for e, x in zip(tg.elts, items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
            else:
                for e, x in zip(tg.elts, items):
                    self.assign(e, x, fr)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.ev(tg.value, fr), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr)
            self.setitem(o, self.ev_index(tg.slice, fr), v)
        else:
            self.undecided("assignment target")

    def unpack(self, v, n, star):
        if isinstance(v, CondV):
            r = self.map_cond(v, lambda x: tuple(self.unpack(x, n, star)))
            if isinstance(r, tuple):
                return list(r)
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, Ref) and isinstance(self.content(v), PyList):
            items = list(self.content(v).items)
        else:
            a = self.arr(v)
            if a is None:
                self.undecided("unpacking %r" % (v,))
            c = t.cval(a.shape[0])
            if c is None:
                if star:
                    self.undecided("unpacking symbolic length")
                self.shape_reqs.append((self.pcond(), a.shape[0], const(n), self.curfile, self.curnode))
                c = n
            items = [self.getitem_arr(v, a, (const(i),)) for i in range(int(c))]
        if not star and len(items) != n:
            raise AbsRaise("ValueError", self.curnode)
        return items

    def getitem_arr(self, v, a, idx):
        if a.ndim == len(idx):
            return a.get(idx)
        return self.getitem(v, idx if len(idx) > 1 else idx[0])

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, CondV):
            return self.map_cond(o, lambda x: self.getattr(x, name))
        if isinstance(o, Poison):
            raise NeedCarry(o.key)
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, Inst):
                k = ("a", o.id, name)
                if k in self.st:
                    return self.getkey(k)
                return self.class_attr(c.cls, name, o)
        if isinstance(o, ModV):
            return self.mod_attr(o, name)
        if isinstance(o, Ext):
            return self.np.ext_attr(self, o, name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            v, c = o.lookup(name)
            if v is None:
                if ("ca", id(o), name) in self.st:
                    return self.st[("ca", id(o), name)]
                raise AbsRaise("AttributeError:" + name, self.curnode)
            if isinstance(v, StaticM):
                return v.fn
            if isinstance(v, ClassM):
                return BoundM(v.fn, o)
            return v
        if isinstance(o, SuperV):
            mro = self.obj_class(o.obj).mro() if o.obj is not None else o.cls.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.attrs:
                    return self.bind_attr(c.attrs[name], o.obj)
            if name == "__init__":
                return PyFn(lambda it, a, k: None)
            self.undecided("super().%s" % name)
        if isinstance(o, PropV) and name == "setter":
            return Meth(o, "setter")
        return self.np.value_attr(self, o, name)

    def obj_class(self, o):
        if isinstance(o, ClassV):
            return o
        c = self.content(o)
        return c.cls

    def class_attr(self, cls, name, o):
        if name == "__class__":
            return cls
        v, c = cls.lookup(name)
        if c is None:
            if name == "__dict__":
                return self.alloc(PyDict({k[2]: v for k, v in self.st.items() if k[0] == "a" and k[1] == o.id}))
            raise AbsRaise("AttributeError:" + name, self.curnode)
        return self.bind_attr(v, o, name)

    def bind_attr(self, v, o, name=None):
        if isinstance(v, Func):
            return BoundM(v, o)
        if isinstance(v, StaticM):
            return v.fn
        if isinstance(v, ClassM):
            return BoundM(v.fn, self.obj_class(o))
        if isinstance(v, PropV):
            r = self.call(v.fn, [o], {})
            if v.cached and name:
                self.st[("a", o.id, name)] = r
            return r
        return v

    def setattr(self, o, name, v):
        if isinstance(o, CondV):
            self.map_cond(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, Inst):
                p, _ = c.cls.lookup(name)
                if isinstance(p, PropV) and p.setter is not None:
                    self.call(p.setter, [o, v], {})
                    return
                self.st[("a", o.id, name)] = v
                return
        if isinstance(o, ModV):
            self.st[("v", o.frame.fid, name)] = v
            return
        if isinstance(o, ClassV):
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            self.events.append((self.pcond(), "setext", (o.path, name), self.curfile, self.curnode))
            return
        self.undecided("attribute store on %r" % (o,))

    # ------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        if isinstance(f, CondV):
            return self.map_cond(f, lambda x: self.call(x, args, kwargs))
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, PyFn):
            return f.f(self, args, kwargs)
        if isinstance(f, Ext):
            return self.np.call_ext(self, f, args, kwargs)
        if isinstance(f, Meth):
            return self.np.call_meth(self, f, args, kwargs)
        if isinstance(f, Ref):
            c = self.content(f)
            if isinstance(c, Inst):
                return self.call(self.getattr(f, "__call__"), args, kwargs)
        if isinstance(f, Poison):
            raise NeedCarry(f.key)
        if f is None:
            raise AbsRaise("TypeError", self.curnode)
        self.undecided("call of %r" % (f,))

    def instantiate(self, cls, args, kwargs):
        if cls.name in self.hooks.get("classes", {}):
            return self.hooks["classes"][cls.name](self, cls, args, kwargs)
        r = self.alloc(Inst(cls))
        init, c = cls.lookup("__init__")
        if init is not None:
            self.call(init, [r] + list(args), kwargs)
            return r
        if any(x.dataclass for x in cls.mro()):
            fields = self.dc_fields(cls)
            vals = dict(zip(fields, args))
            if len(args) > len(fields):
                raise AbsRaise("TypeError", self.curnode)
            for k, v in kwargs.items():
                if k not in fields or k in vals:
                    raise AbsRaise("TypeError", self.curnode)
                vals[k] = v
            for f in fields:
                if f not in vals:
                    v, c2 = cls.lookup(f)
                    if c2 is None:
                        raise AbsRaise("TypeError", self.curnode)
                    if isinstance(v, tuple) and len(v) == 2 and v[0] == "dcfield":
                        v = self.call(v[1], [], {})
                    vals[f] = v
                self.st[("a", r.id, f)] = vals[f]
            post, _ = cls.lookup("__post_init__")
            if post is not None:
                self.call(post, [r], {})
            return r
        if "NamedTuple" in [getattr(b, "path", "").split(".")[-1] for b in cls.bases]:
            vals = dict(zip(cls.fields, args))
            vals.update(kwargs)
            for f in cls.fields:
                self.st[("a", r.id, f)] = vals.get(f, cls.attrs.get(f))
            return r
        if args or kwargs:
            raise AbsRaise("TypeError", self.curnode)
        return r

    def dc_fields(self, cls):
        fields = []
        for c in reversed(cls.mro()):
            if c.dataclass:
                for f in c.fields:
                    if f not in fields:
                        fields.append(f)
        return fields

    def call_func(self, f, args, kwargs):
        if self.depth > 40:
            self.undecided("recursion")
        hk = self.hooks.get("funcs")
        if hk:
            q = (f.cls.name + "." if f.cls else "") + f.name
            h = hk.get(q)
            if h is not None and f.mod is not None:
                r = h(self, f, args, kwargs)
                if r is not NotImplemented:
                    return r
        env = self.bind_args(f, args, kwargs)
        if f.is_gen:
            return GenV(f, env)
        q = (getattr(f.mod, "name", "?"), (f.cls.name + "." if f.cls else "") + f.name)
        self.calls[q] = self.calls.get(q, 0) + 1
        return self.call_body(f, env)

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for nm, v in zip(pos, args):
            env[nm] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise AbsRaise("TypeError", self.curnode)
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        kwo = [x.arg for x in a.kwonlyargs]
        for k in list(kwargs):
            if k in pos or k in kwo:
                if k in env:
                    raise AbsRaise("TypeError", self.curnode)
                env[k] = kwargs.pop(k)
        if kwargs and a.kwarg is None:
            raise AbsRaise("TypeError", self.curnode)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(PyDict(kwargs))
        nd = len(f.defaults)
        for i, nm in enumerate(pos):
            if nm not in env:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise AbsRaise("TypeError", self.curnode)
                env[nm] = f.defaults[j]
        for nm, d in zip(kwo, f.kwdefaults):
            if nm not in env:
                if d is UNDEF:
                    raise AbsRaise("TypeError", self.curnode)
                env[nm] = d
        return env

    def call_body(self, f, env):
        fr = Frame(f.frame, f.mod)
        fr.fn = f
        for k, v in env.items():
            self.st[("v", fr.fid, k)] = v
        of, on = self.curfile, self.curnode
        self.curfile = f.mod.path if f.mod is not None else of
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            ab, live = self.exec_block(f.node.body, fr)
            rets = [(c, s, v) for k, c, s, v in ab if k == "ret"]
            if live is not ZERO:
                rets.append((live, self.st, None))
            rs = [(c, v) for k, c, s, v in ab if k == "raise"]
            if not rets:
                raise AbsRaise(rs[0][1] if rs else "Exception", on)
            for c, v in rs:
                self.raises.append((mul(self.pcond(), c), v, self.curfile, on))
            c, s, v = rets[-1]
            acc_s, acc_v = s, v
            for c, s, v in reversed(rets[:-1]):
                ns = self.merge_store(c, s, acc_s)
                old = self.st
                self.st = ns
                acc_v = self.merge_val(c, v, acc_v, s, acc_s)
                acc_s = self.st
            self.st = acc_s
            return acc_v
        finally:
            self.depth -= 1
            self.curfile, self.curnode = of, on
            if not fr.keep:
                for k in [k for k in self.st if k[0] == "v" and k[1] == fr.fid]:
                    del self.st[k]

    # ------------------------------------------------------------- iteration
    def iterate(self, v):
        if isinstance(v, IterV):
            return v
        if isinstance(v, tuple):
            return IterV(items=list(v))
        if isinstance(v, str):
            return IterV(items=list(v))
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, PyList):
                if len(c.items) > UNROLL and all(isinstance(x, T) for x in c.items):
                    items = list(c.items)
                    return IterV(n=const(len(items)), item=lambda k: self.pick(items, k))
                return IterV(items=list(c.items))
            if isinstance(c, PyDict):
                return IterV(items=list(c.items))
            if isinstance(c, AppMark):
                raise NeedCarryList(c.key)
        if isinstance(v, GenV):
            L = self.alloc(PyList([]))
            self.run_gen(v, lambda x: self.list_append(L, x), lambda: ((), ONE))
            return self.iterate(L)
        a = self.arr(v)
        if a is not None:
            if a.ndim == 1:
                return IterV(n=a.shape[0], item=lambda k: a.get((k,)) if a.dt != "b" else mkbool(self.num(a.get((k,)))), mask=a.filt)
            return IterV(n=a.shape[0], item=lambda k: self.getitem(v, k))
        if isinstance(v, CondV):
            r = self.map_cond(v, lambda x: self.alloc(self.arr(x)))
            return self.iterate(r)
        self.undecided("iteration over %r" % (v,))

    def as_items(self, v):
        """concrete list of items"""
        it = self.iterate(v)
        if it.items is not None:
            return list(it.items)
        c = t.cval(it.n)
        if c is None or it.mask is not None:
            if self.expect_len is not None:
                return [it.item(const(k)) for k in range(self.expect_len)]
            self.undecided("symbolic-length sequence where a fixed one is required")
        return [it.item(const(k)) for k in range(int(c))]

    expect_len = None

    # ------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.undecided("expression %s" % type(e).__name__)
        old = self.curnode
        self.curnode = e if hasattr(e, "lineno") else old
        r = m(e, fr)
        self.curnode = old
        return r

    def e_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, (int, float)):
            return const(v)
        if v is Ellipsis:
            return Ellipsis
        self.undecided("constant %r" % (v,))

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, str):
                    parts.append(x)
                elif isinstance(x, T) and t.cval(x) is not None:
                    parts.append(str(t.cval(x)))
                else:
                    parts.append("{?}")
        return "".join(parts)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.alloc(PyList(self.elts(e.elts, fr)))

    def e_Set(self, e, fr):
        return self.alloc(PyList(self.elts(e.elts, fr)))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.as_items(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.ev(v, fr)
                d.update(self.content(vv).items)
            else:
                d[self.dkey(self.ev(k, fr))] = self.ev(v, fr)
        return self.alloc(PyDict(d))

    def dkey(self, k):
        if isinstance(k, T):
            c = t.cval(k)
            if c is None:
                self.undecided("symbolic dict key")
            return c
        return k

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return mkbool(notT(self.truth(v)))
        return self.np.unary(self, type(e.op).__name__, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], fr)
        for i, x in enumerate(e.values[1:]):
            c = self.truth(v)
            if c is (ZERO if isand else ONE):
                return v
            if c is (ONE if isand else ZERO):
                v = self.ev(x, fr)
                continue
            base = self.st
            self.st = dict(base)
            self.pc.append(c if isand else notT(c))
            try:
                w = self.ev(x, fr)
            except AbsRaise:
                w = None
            self.pc.pop()
            s1 = self.st
            cc = c if isand else notT(c)
            self.st = self.merge_store(cc, s1, base)
            if isinstance(v, (BT, bool)) and isinstance(w, (BT, bool, T)):
                wt = self.truth(w)
                v = mkbool(mul(c, wt) if isand else sub(add(c, wt), mul(c, wt)))
            else:
                v = self.merge_val(cc, w, v, s1, base)
        return v

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.np.compare(self, type(op).__name__, left, right)
            if res is None:
                res = v
            else:
                if self.is_arr(res) or self.is_arr(v):
                    self.undecided("chained array comparison")
                res = mkbool(mul(self.truth(res), self.truth(v)))
            left = right
        return res

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        if c is ONE:
            return self.ev(e.body, fr)
        if c is ZERO:
            return self.ev(e.orelse, fr)
        return self.map_cond(CondV(c, e.body, e.orelse), lambda x: self.ev(x, fr))

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and f.fn is None:
                f = f.parent
            fn = f.fn
            selfname = fn.node.args.args[0].arg
            return SuperV(fn.cls, self.lookup(selfname, f))
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.star_items(self.ev(a.value, fr), f, len(args))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                d = self.content(v)
                if not isinstance(d, PyDict):
                    self.undecided("** of non-dict")
                for kk, vv in d.items.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        self.curnode = e
        return self.call(f, args, kw)

    def star_items(self, v, f, n0):
        return self.as_items(v)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(o, Ext) and o.path.split(".")[0] in ("typing", "collections", "builtins"):
            return o
        if isinstance(o, ClassV):
            return o
        return self.getitem(o, self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out += self.as_items(self.ev(x.value, fr))
                else:
                    out.append(self.ev_index(x, fr))
            return tuple(out)
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.opt_num(self.ev(x, fr))
            return SliceV(f(s.lower), f(s.upper), f(s.step))
        return self.ev(s, fr)

    def opt_num(self, v):
        return None if v is None else self.num(v)

    def e_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def e_Starred(self, e, fr):
        self.undecided("starred")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        if not self.yields:
            self.undecided("yield outside a driven generator")
        h = self.yields[-1]
        saved = self.yields
        self.yields = saved[:-1]
        try:
            h(v)
        finally:
            self.yields = saved
        return None

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        h = self.yields[-1]
        ab, l = self.run_for(v, lambda x: h(x), lambda: ((), ONE), None, fr)
        return None

    def comp(self, e, fr, emit):
        cf = Frame(fr, fr.mod)
        cf.keep = True

        def rec(i):
            if i == len(e.generators):
                emit(cf)
                return (), ONE
            g = e.generators[i]

            def body():
                c = ONE
                for x in g.ifs:
                    c = mul(c, self.truth(self.ev(x, cf)))
                return self.branch(c, lambda: rec(i + 1), lambda: ((), ONE))
            ab, l = self.run_for(self.ev(g.iter, cf if i else fr), lambda v: self.assign(g.target, v, cf), body, None, cf)
            return ab, l
        rec(0)

    def e_ListComp(self, e, fr):
        if len(e.generators) == 2 and not any(g.ifs for g in e.generators):
            r = self.comp2(e, fr)
            if r is not None:
                return r
        L = self.alloc(PyList([]))
        self.comp(e, fr, lambda cf: self.list_append(L, self.ev(e.elt, cf)))
        return L

    def comp2(self, e, fr):
        """[f for a in A for b in B] with symbolic A,B independent: flattened index"""
        cf = Frame(fr, fr.mod)
        cf.keep = True
        g1, g2 = e.generators
        i1 = self.iterate(self.ev(g1.iter, fr))
        if i1.items is not None:
            return None
        i2 = self.iterate(self.ev(g2.iter, fr)) if not self._uses(g2.iter, g1.target) else None
        if i2 is None or i2.items is not None or i1.mask or i2.mask:
            return None
        n = mul(i1.n, i2.n)

        def item(k):
            q = self.np.fdiv(k, i2.n)
            r = sub(k, mul(q, i2.n))
            self.assign(g1.target, i1.item(q), cf)
            self.assign(g2.target, i2.item(r), cf)
            return self.ev(e.elt, cf)
        return self.alloc(Arr((n,), lambda i: item(i[0]), "f", "list"))

    def _uses(self, e, tg):
        names = {x.id for x in ast.walk(tg) if isinstance(x, ast.Name)}
        return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, fr):
        D = self.alloc(PyDict())

        def emit(cf):
            d = dict(self.content(D).items)
            d[self.dkey(self.ev(e.key, cf))] = self.ev(e.value, cf)
            self.st[("h", D.id)] = PyDict(d)
        self.comp(e, fr, emit)
        return D

    # ------------------------------------------------------------- operators
    def binop(self, op, a, b):
        return self.np.binop(self, type(op).__name__ if not isinstance(op, str) else op, a, b)

    # ------------------------------------------------------------- items
    def getitem(self, o, i):
        return self.np.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.np.setitem(self, o, i, v)

    def store_all(self, target, f, cond=None, dt=None):
        """write f(view idx) to every element of array value `target`"""
        if isinstance(target, CondV):
            self.map_cond(target, lambda x: self.store_all(x, f, cond))
            return
        if isinstance(target, Ref):
            c = self.content(target)
            if cond is None:
                self.st[("h", target.id)] = Arr(c.shape, f, dt or c.dt, c.kind)
            else:
                self.st[("h", target.id)] = Arr(c.shape, lambda i: ite(cond(i), self.num(f(i)), self.num(c.get(i))), c.dt, c.kind)
            return
        if isinstance(target, View):
            if target.inv is None:
                self.undecided("store through this view")
            base = self.content(target.ref)

            def g(b):
                cc, vi = target.inv(b)
                if cond is not None and cc is not ZERO:
                    cc = mul(cc, cond(vi))
                if cc is ZERO:
                    return base.get(b)
                return ite(cc, self.num(f(vi)), self.num(base.get(b)))
            self.st[("h", target.ref.id)] = Arr(base.shape, g, base.dt, base.kind)
            return
        self.undecided("store to %r" % (target,))


def _isind(x):
    a = t.as_atom(x)
    if a is not None:
        return a.kind == "ind"
    b = t.as_atom(notT(x))
    return b is not None and b.kind == "ind"


class Mismatch(Exception):
    pass


class NeedCarryList(Exception):
    def __init__(self, key):
        self.key = key


class AppMark:
    """list cell while a loop appends to it: entry content plus the items added this iteration"""
    __slots__ = ("key", "added", "loop", "base")

    def __init__(self, key, added=(), loop=None, base=None):
        self.key, self.added, self.loop, self.base = key, list(added), loop, base


class Tmpl:
    pass


def table(vals, k):
    """k-th entry of a constant table"""
    c = t.cval(k)
    if c is not None:
        return vals[int(c)]
    if len(vals) > 2:
        d = sub(vals[1], vals[0])
        if all(sub(vals[j + 1], vals[j]) is d for j in range(len(vals) - 1)):
            return add(vals[0], mul(d, k))
    return t.fn("tab", tuple(vals), k)


def _refn_tab(args, at):
    return table(list(args[0]), args[1])


t.REFN["tab"] = _refn_tab


# ---------------------------------------------------------------------- recurrences
def _lin(nx, atom):
    """nx == A*atom + B with A,B free of atom at top level; else None"""
    if nx.den and any(atom.id in t.ATOMS[x].deps or x == atom.id for x, _ in nx.den):
        # still may be fine if denominators do not involve the atom
        return None
    A, B = {}, {}
    for m, c in nx.num.items():
        e = 0
        rest = []
        for a, x in m:
            if a == atom.id:
                e = x
            else:
                rest.append((a, x))
        if e == 0:
            B[m] = c
        elif e == 1:
            A[tuple(rest)] = c
        else:
            return None
    den = dict(nx.den)
    return t._make(A, dict(den)), t._make(B, dict(den))


def solve(comps, kat):
    """comps: list of (rank, rest bvs, init T, next T, state atom).
    Returns f_i(K, rest) = value entering iteration K."""
    n = len(comps)
    stid = {c[4].id: i for i, c in enumerate(comps)}
    deps = []
    for c in comps:
        deps.append({stid[d] for d in c[3].deps if d in stid})
    # SCCs (Tarjan order = dependencies first)
    index, low, onst, stack, out = {}, {}, set(), [], []

    def strong(v):
        index[v] = low[v] = len(index)
        stack.append(v)
        onst.add(v)
        for w in deps[v]:
            if w not in index:
                strong(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop()
                onst.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    import sys
    sys.setrecursionlimit(100000)
    for v in range(n):
        if v not in index:
            strong(v)
    vals = [None] * n
    kT = t.atomT(kat)

    def others(nx, scc, K):
        """substitute solved components (values entering iteration K) and k := K"""
        mp = {kat.id: K}
        for d in nx.deps:
            j = stid.get(d)
            if j is not None and j not in scc:
                mp[d] = stval(j, K)
        return subst(nx, mp)

    def stval(j, K):
        rank = comps[j][0]
        if rank == 0:
            return vals[j](K, ())
        _stfuns.append(vals[j])
        return t.fn("stfun", ("s", len(_stfuns) - 1), K)

    for scc in out:
        sset = set(scc)
        if len(scc) == 1:
            i = scc[0]
            f = solve1(i, comps[i], i in deps[i], kat, lambda nx, K: others(nx, sset, K))
            if f is not None:
                vals[i] = f
                continue
        # row-store arrays inside the SCC -> scalar sequences
        sys_ = []
        conv = {}
        for i in scc:
            rank, rb, i0, nx, st = comps[i]
            if rank >= 1:
                r = rowstore(comps[i], kat)
                if r is not None:
                    conv[i] = r
        okc = True
        scal = {}
        for i in scc:
            rank, rb, i0, nx, st = comps[i]
            if i in conv:
                d, off, v = conv[i]
                others_b = [b for q, b in enumerate(rb) if q != d]
                scal[i] = (rank - 1, tuple(others_b), subst(i0, {rb[d].id: sub(off_at(off, kat, ZERO), ONE)}), v)
            else:
                scal[i] = (rank, rb, i0, nx)
        # rewrite reads
        if conv:
            for i in list(scal):
                rank, rb, i0, v = scal[i]
                v2 = rewrite_reads(v, conv, comps, kat, stid)
                if v2 is None:
                    okc = False
                    break
                scal[i] = (rank, rb, i0, v2)
        if not okc:
            conv = {}
            scal = {i: comps[i][:4] for i in scc}
        cs = []
        sts = []
        for i in scc:
            rank, rb, i0, nx = scal[i]
            nx = others(nx, sset, kT)
            cs.append((rank, rb, i0, nx))
            sts.append(comps[i][4])
        # conversion may have broken the cycle
        broke = bool(conv)
        if broke:
            sub_comps = [(r, b, i0, nx, st) for (r, b, i0, nx), st in zip(cs, sts)]
            fs = solve(sub_comps, kat) if _smaller(sub_comps, comps, scc) else t.make_rec(cs, sts, kat)
        else:
            fs = t.make_rec(cs, sts, kat)
        for q, i in enumerate(scc):
            if i in conv:
                vals[i] = rowfun(comps[i], conv[i], fs[q], kat)
            else:
                vals[i] = fs[q]
    return vals


def _smaller(sub_comps, comps, scc):
    # a genuinely different (rank-reduced) system: safe to recurse
    return sum(c[0] for c in sub_comps) < sum(comps[i][0] for i in scc)


def off_at(off, kat, K):
    return subst(off, {kat.id: K})


def solve1(i, comp, selfdep, kat, others):
    rank, rb, i0, nx, st = comp
    kT = t.atomT(kat)

    def rmap(x, rest):
        return subst(x, {b.id: r for b, r in zip(rb, rest)}) if rb else x
    if not selfdep:
        def f(K, rest=()):
            if not K.num:
                return rmap(i0, rest)
            Km = sub(K, ONE)
            v = rmap(others(nx, Km), rest)
            if t.sign(K) == "pos":
                return v
            return ite(eq0(K), rmap(i0, rest), v)
        return f
    if rank == 0:
        if t.as_atom(nx) is st:
            return lambda K, rest=(): i0
        g = sub(nx, t.atomT(st))
        if st.id not in g.deps:
            def f(K, rest=()):
                b = t.fresh_bv(K, tag="j")
                return add(i0, t.sumT(K, b, others(g, t.atomT(b))))
            return f
        a = t.as_atom(nx)
        if a is not None and a.kind == "fn" and a.args[0] == "rngpos" and t.as_atom(a.args[1]) is st and st.id not in a.args[4].deps \
                and not any(d in x.deps for x in a.args[3] for d in (st.id, kat.id)):
            # a generator that draws from one distribution in every iteration
            def f(K, rest=()):
                b = t.fresh_bv(K, tag="j")
                return t.refn("rngpos", (i0, a.args[2], tuple(others(x, K) for x in a.args[3]),
                                         t.sumT(K, b, others(a.args[4], t.atomT(b)))), a)
            return f
        # geometric product: next = st * g
        return None
    idx = tuple(t.atomT(b) for b in rb)
    selT = t.fn("sel", t.atomT(st), *idx)
    if nx is selT:
        return lambda K, rest=(): rmap(i0, rest)
    la = _lin(nx, t.as_atom(selT))
    if la is None:
        return None
    A, B = la
    if st.id in A.deps or st.id in B.deps:
        return None
    if A is ONE:
        def f(K, rest=()):
            b = t.fresh_bv(K, tag="j")
            return add(rmap(i0, rest), t.sumT(K, b, rmap(others(B, t.atomT(b)), rest)))
        return f
    G = notT(A)      # guard: 1 where overwritten
    if kat.id not in G.deps and not others_dep(G, others, kat):
        def f(K, rest=()):
            if not K.num:
                return rmap(i0, rest)
            Km = sub(K, ONE)
            c = rmap(G, rest)
            if t.sign(K) != "pos":
                c = mul(c, notT(eq0(K)))
            # B == G*v
            return add(mul(notT(c), rmap(i0, rest)), mul(c, rmap(others(B, Km), rest)))
        return f
    pin = find_pin(G, kat)
    if pin is not None:
        sol = pin      # k as a function of rest

        def f(K, rest=()):
            s = rmap(sol, rest)
            inr = mul(notT(lt0(s)), lt0(sub(s, K)))
            if inr is ZERO:
                return rmap(i0, rest)
            gg = mul(inr, rmap(others(G, sol), rest))
            bb = rmap(others(B, sol), rest)
            return add(mul(notT(gg), rmap(i0, rest)), mul(gg, bb))
        return f
    return None


def others_dep(G, others, kat):
    k2 = t.fresh_bv(tag="q")
    g1 = others(G, t.atomT(k2))
    return k2.id in g1.deps


def find_pin(G, kat):
    """G contains a factor [e(k, rest)==0] in every monomial, with unit coefficient of k"""
    if G.den:
        return None
    common = None
    for m in G.num:
        z = {a for a, _ in m if t.ATOMS[a].kind == "ind" and t.ATOMS[a].args[0] == "Z"}
        common = z if common is None else common & z
    if not common:
        return None
    for a in sorted(common):
        e = t.ATOMS[a].args[1]
        if e.den:
            continue
        co = e.num.get(((kat.id, 1),))
        if co is None or abs(co) != 1:
            continue
        rest = dict(e.num)
        del rest[((kat.id, 1),)]
        r = t._intern(rest, {})
        if kat.id in r.deps:
            continue
        return neg(r) if co == 1 else r
    return None


def rowstore(comp, kat):
    """next(rest) = ite(rest[d]==k+c, v, cur(rest)): returns (d, off=k+c, v) with v in terms
    of the other rest variables; else None"""
    rank, rb, i0, nx, st = comp
    idx = tuple(t.atomT(b) for b in rb)
    selT = t.fn("sel", t.atomT(st), *idx)
    kT = t.atomT(kat)
    cand = set()
    for m in nx.num:
        for a, _ in m:
            at = t.ATOMS[a]
            if at.kind == "ind" and at.args[0] == "Z":
                cand.add(a)
    for a in sorted(cand):
        e = t.ATOMS[a].args[1]
        if e.den:
            continue
        ck = e.num.get(((kat.id, 1),))
        if ck is None or abs(ck) != 1:
            continue
        for d, b in enumerate(rb):
            cr = e.num.get(((b.id, 1),))
            if cr is None or cr != -ck:
                continue
            rest = sub(e, add(mul(const(ck), kT), mul(const(cr), t.atomT(b))))
            off = add(kT, rest if ck == 1 else neg(rest))   # b == off
            if any(x.id in off.deps for x in rb):
                continue
            v0 = t.set_ind(nx, a, 0)
            if v0 is not selT:
                continue
            v1 = t.set_ind(nx, a, 1)
            v1 = subst(v1, {b.id: off})
            return d, off, v1
    return None


def rewrite_reads(v, conv, comps, kat, stid):
    """replace sel(st_i, .., off_i(k)-1, ..) by the scalar sequence state"""
    kT = t.atomT(kat)
    bad = []

    class Stop(Exception):
        pass
    old = t.REFN["sel"]

    def hook(args, at):
        a0 = t.as_atom(args[0]) if isinstance(args[0], T) else None
        if a0 is not None and a0.id in stid and stid[a0.id] in conv:
            i = stid[a0.id]
            d, off, _ = conv[i]
            e = args[1 + d]
            rest = [x for q, x in enumerate(args[1:]) if q != d]
            diff = sub(e, off)
            if t.cval(diff) == -1:
                return t.fn("sel", args[0], *rest) if rest else t.atomT(a0)
            # never-written cells
            base = off_at(off, kat, ZERO)
            if kat.id not in e.deps and t.sign(sub(e, base)) == "neg":
                rank, rb, i0, nx, st = comps[i]
                return subst(i0, {b.id: x for b, x in zip(rb, args[1:])})
            if t.sign(diff) in ("pos", "nonneg", "zero"):
                rank, rb, i0, nx, st = comps[i]
                return subst(i0, {b.id: x for b, x in zip(rb, args[1:])})
            raise Stop()
        return old(args, at)
    t.REFN["sel"] = hook
    memo, t._submemo = t._submemo, {}
    try:
        # force a rebuild of every sel on a converted state by renaming through itself
        mp = {}
        for i in conv:
            st = comps[i][4]
            tmp = t._mk("sym", ("#tmp%d" % st.id,))
            tmp.deps = frozenset([tmp.id])
            mp[st.id] = t.atomT(st)
        r = _rebuild(v, mp)
        return r
    except Stop:
        return None
    finally:
        t.REFN["sel"] = old
        t._submemo = memo


def _rebuild(v, mp):
    return t.subst(v, mp)


def rowfun(comp, cv, f, kat):
    rank, rb, i0, nx, st = comp
    d, off, _ = cv
    c0 = off_at(off, kat, ZERO)

    def g(K, rest=()):
        r = rest[d]
        others_r = tuple(x for q, x in enumerate(rest) if q != d)
        s = add(sub(r, c0), ONE)       # sequence position
        init = subst(i0, {b.id: x for b, x in zip(rb, rest)})
        # positions 0..K are sequence values (position 0 is the cell before the first write)
        if t.sign(sub(c0, ONE)) in ("nonneg", "pos", "zero"):
            inr = mul(notT(lt0(s)), lt0(sub(s, add(K, ONE))))
        else:
            inr = mul(notT(lt0(sub(s, ONE))), lt0(sub(s, add(K, ONE))))
        if inr is ZERO:
            return init
        return ite(inr, f(s, others_r), init)
    return g
