"""Path-sensitive abstract interpretation of the native entry points.

Abstract domain: integers are polynomials over symbols (array extents, parsed arguments, loop counters) under linear path
constraints; doubles are opaque terms with the order relations learnt on the path; arrays have symbolic extents, strides and
item size; Python objects carry an ownership count, the interpreter an exception flag and a lock flag. Paths fork on every
undecided condition and on every outcome of a fallible call; loops whose trip count is not a constant are analysed for one
generic iteration (induction variables as start + step * k, everything else the body changes forgotten); container elements
and heap nodes are summarised per allocation site by the inequalities every stored value satisfies. Nothing is compiled or run."""
import re
from . import clangast
from .cxx import api_names, sources, method_table, strip
from .lin import P, P_, sym, contradicts, entails, infeasible, witness, relevant
from .terms import Undecided

ZERO, ONE = P_(0), P_(1)
SKIP = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
        "CXXDefaultArgExpr", "CXXStdInitializerListExpr"}
NPT = {"NPY_BOOL": 0, "NPY_BYTE": 1, "NPY_UBYTE": 2, "NPY_SHORT": 3, "NPY_USHORT": 4, "NPY_INT": 5, "NPY_UINT": 6, "NPY_LONG": 7, "NPY_ULONG": 8, "NPY_LONGLONG": 9,
       "NPY_ULONGLONG": 10, "NPY_FLOAT": 11, "NPY_DOUBLE": 12, "NPY_LONGDOUBLE": 13, "NPY_OBJECT": 17, "NPY_STRING": 18, "NPY_UNICODE": 19, "NPY_VOID": 20}
NPSIZE = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8, 13: 16, 17: 8}
EXC_BASE = {"bad_alloc": ("exception",), "system_error": ("runtime_error", "exception"), "length_error": ("logic_error", "exception"),
            "out_of_range": ("logic_error", "exception"), "bad_array_new_length": ("bad_alloc", "exception"), "runtime_error": ("exception",),
            "logic_error": ("exception",), "invalid_argument": ("logic_error", "exception"), "domain_error": ("logic_error", "exception")}


class PathEnd(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Throw(Exception):
    def __init__(self, kind):
        self.kind = kind


class Undef:
    def __repr__(self):
        return "uninitialised"


UNDEF = Undef()


class Dbl:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return str(self.t)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Obj:
    """Python object; arrays have extents"""

    def __init__(self, name, kind="any", own=0, borrowed=False):
        self.name, self.kind, self.own, self.borrowed = name, kind, own, borrowed
        self.ndim = None        # int once established
        self.dims = {}
        self.dtype = None
        self.contig = False
        self.itemsize = None
        self.written = False
        self.node = None
        self.wb = False

    def __repr__(self):
        return self.name


class DescrOf:
    def __init__(self, arr):
        self.arr = arr


def same_type(ty, code):
    """elements of numpy type `code` may be read through a pointer to `ty`"""
    ty = ty.replace("const ", "").replace("volatile ", "").strip()
    if ty in ("double", "npy_double"):
        return code == 12
    if ty in ("float", "npy_float"):
        return code == 11
    if ty.endswith("*"):
        return code == 17
    if code in (11, 12, 13, 17):
        return "char" in ty or "byte" in ty
    return True


class Vec:
    def __init__(self, site, size, elem, items=None, frame=None, thread=None):
        self.site, self.size, self.elem, self.items = site, size, elem, items
        self.frame, self.thread = frame, thread
        self.perm = False       # holds every index below its size exactly once
        self.sampleof = None
        self.tag = site


class Inst:
    def __init__(self, cls, name, thread=None):
        self.cls, self.name, self.f, self.generic, self.thread = cls, name, {}, None, thread


class Slot:
    """owner of an object of class cls whose content is unknown"""

    def __init__(self, cls, name):
        self.cls, self.name = cls, name


class Eng:
    def __init__(self, seed, node, thread, frame):
        self.seed, self.node, self.thread, self.frame = seed, node, thread, frame
        self.loops = ()


class Dist:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Thr:
    def __init__(self, clo, n):
        self.clo, self.n, self.joined, self.moved = clo, n, clo is None, False


class Clo:
    def __init__(self, node, body, frame, caps, byref):
        self.node, self.body, self.frame, self.caps, self.byref = node, body, frame, caps, byref


class It:
    def __init__(self, v, off, end=False):
        self.v, self.off, self.end = v, off, end


class BackIns:
    def __init__(self, v):
        self.v = v


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Ptr:
    """byte offset into an array object, a vector, a buffer or a variable"""
    __slots__ = ("o", "off")

    def __init__(self, o, off=ZERO):
        self.o, self.off = o, off


class Buf:
    def __init__(self, name, size):
        self.name, self.size = name, size
        self.freed = False


class LV:
    pass


class VarLV(LV):
    def __init__(self, m, fr, i, name):
        self.m, self.fr, self.i, self.name = m, fr, i, name

    def get(self):
        if not self.fr.alive:
            self.m.fault("scope", self.m.cur, "%s is read after its function returned" % self.name)
        return self.fr.vars.get(self.i, UNDEF)

    def set(self, v):
        self.m.wrote(("var", self.i, self.name), self.fr.thread, self.m.cur)
        self.fr.vars[self.i] = v


class FieldLV(LV):
    def __init__(self, m, o, name, ty):
        self.m, self.o, self.name, self.ty = m, o, name, ty

    def get(self):
        return self.m.getfield(self.o, self.name, self.ty)

    def set(self, v):
        self.m.wrote(("field", self.o.cls, self.name), self.o.thread, self.m.cur)
        self.o.f[self.name] = v


class ElemLV(LV):
    def __init__(self, m, v, i, node):
        self.m, self.v, self.i, self.node = m, v, i, node

    def get(self):
        return self.m.elem(self.v, self.i)

    def set(self, x):
        m = self.m
        if m.keep and self.i is not None:
            m.log.append(("slot", self.v.site, m.norm(self.i), x, m.cur, tuple(m.facts), m.thread, m.norm(self.v.size), self.v.elem, dict(m.sub), self.v.thread))
        m.wrote(("elem", self.v.site, self.i), self.v.thread, m.cur)
        m.store(self.v, self.i, x)


class MemLV(LV):
    def __init__(self, m, p, size, ty, node):
        self.m, self.p, self.size, self.ty, self.node = m, p, size, ty, node

    def get(self):
        return self.m.load(self.p, self.size, self.ty, self.node, False)

    def set(self, x):
        self.m.load(self.p, self.size, self.ty, self.node, True)
        if self.m.keep:
            self.m.log.append(("memstore", self.p, x, self.node, self.m.snap()))


class ValLV(LV):
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class DimLV(LV):
    def __init__(self, m, arr, i, stride, node):
        self.m, self.arr, self.i, self.stride, self.node = m, arr, i, stride, node

    def get(self):
        return self.m.stride(self.arr, self.i, self.node) if self.stride else self.m.dim(self.arr, self.i, self.node)

    def set(self, v):
        raise Undecided("store into the shape of an array")


class DimPtr:
    def __init__(self, arr, stride=False):
        self.arr, self.stride = arr, stride


class Fr:
    def __init__(self, parent=None, this=None, thread=None):
        self.vars, self.parent, self.this, self.thread = {}, parent, this, thread
        self.alive = True
        self.locks = 0

    def find(self, i):
        f = self
        while f is not None:
            if i in f.vars:
                return f
            f = f.parent
        return None

    def getthis(self):
        f = self
        while f is not None:
            if f.this is not None:
                return f.this
            f = f.parent
        return None


TYBITS = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
          "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False), "bool": (1, False), "__ssize_t": (64, True),
          "size_t": (64, False), "npy_intp": (64, True), "Py_ssize_t": (64, True), "value_type": None}


def bits(ty):
    t = ty.replace("const ", "").replace("volatile ", "").strip().rstrip("&").strip()
    return TYBITS.get(t)


def tsize(ty):
    t = ty.replace("const ", "").strip()
    if t == "double":
        return 8
    if t == "float":
        return 4
    b = TYBITS.get(t)
    if b:
        return max(1, b[0] // 8)
    if t.endswith("*"):
        return 8
    return None


class M:
    def __init__(self, repo, src, config=None):
        self.repo, self.src = repo, src
        self.unit = clangast.unit(repo, src)
        self.config = config or {}
        self.keep = bool(self.config.get("keep"))
        self.byid, self.defs, self.records = {}, {}, {}
        for d in self.unit.decls:
            self.index(d)
        self.table = method_table(self.unit)
        # summaries shared by all paths (monotone)
        self.sites = {}         # class -> {site: {field: summary}}
        self.elems = {}         # vector class representative -> {template: True}
        self.rep = {}
        self.sumsym = {}        # symbol -> summary it was read from
        self.stored = {}        # summary -> values stored there, with what was known of them
        self.loops = {}         # loop node -> {location: ("lin", c) | "up" | "down" | "any"}
        self.recset = None
        self.hooks = {}
        self.onend = None
        self.stats = {"paths": 0, "api": set(), "access": set(), "exits": set(), "parse": set(), "fns": set(), "loops": set(), "threads": set()}
        self.memo_sym = {}
        self.maxpaths = 6000

    # ------------------------------------------------------------ program index
    def index(self, d):
        for n in d.walk():
            i = n.get("id")
            if i and (i not in self.byid or n.inner and not self.byid[i].inner):
                self.byid[i] = n
        st = [d]
        while st:
            n = st.pop()
            if n.kind in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                if self.body(n) is not None:
                    self.defs.setdefault((n.name, n.qtype), n)
                    self.defs.setdefault(n.name, []).append(n)
            if n.kind == "CXXRecordDecl" and n.get("completeDefinition"):
                self.records[n.name] = n
            if n.kind in ("NamespaceDecl", "LinkageSpecDecl", "CXXRecordDecl", "FunctionTemplateDecl", "ClassTemplateDecl"):
                st += n.inner

    def body(self, n):
        for x in n.inner:
            if x.kind in ("CompoundStmt", "CXXTryStmt"):
                return x
        return None

    def define(self, rd):
        if not rd:
            return None
        n = self.byid.get(rd.get("id"))
        if n is not None and self.body(n) is not None:
            return n
        qt = (rd.get("type") or {}).get("qualType")
        d = self.defs.get((rd.get("name"), qt))
        if d is not None and (n is not None or rd.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl")):
            # library functions of the same name and type never have a definition in the package
            return d
        return None

    def recursive(self, d):
        if self.recset is None:
            g = {}
            for k, ds in self.defs.items():
                if isinstance(ds, list):
                    for x in ds:
                        out = set()
                        for y in x.walk():
                            if y.kind == "DeclRefExpr":
                                z = self.define(y.get("referencedDecl"))
                            elif y.kind == "MemberExpr":
                                z0 = self.byid.get(y.get("referencedMemberDecl"))
                                z = self.define({"id": z0.get("id"), "name": z0.name, "type": z0.get("type"), "kind": z0.kind}) if z0 is not None else None
                            else:
                                continue
                            if z is not None:
                                out.add(id(z))
                        g[id(x)] = out
            self.recset = set()
            for a in g:
                seen, st = set(), list(g[a])
                while st:
                    b = st.pop()
                    if b in seen:
                        continue
                    seen.add(b)
                    st += g.get(b, ())
                if a in seen:
                    self.recset.add(a)
        return id(d) in self.recset

    # ------------------------------------------------------------ exploration
    def explore(self, go):
        """go() analyses the entry point on one path"""
        for rnd in range(12):
            self.changed = False
            self.faults, self.unsure = {}, {}
            self.paths = 0
            self.trail = []
            if self.onstart:
                self.onstart()
            while True:
                self.reset()
                try:
                    try:
                        go()
                    finally:
                        if not self.injected:
                            self.publish()
                except PathEnd:
                    pass
                except Undecided as e:
                    self.unsure.setdefault((self.where(self.cur), str(e)), 0)
                except (Ret, Brk, Cont):
                    pass
                if self.onend:
                    self.onend(self)
                self.paths += 1
                if self.paths > self.maxpaths:
                    self.unsure[("", "more than %d paths" % self.maxpaths)] = 0
                    break
                while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]:
                    self.trail.pop()
                if not self.trail:
                    break
                self.trail[-1][0] += 1
            if not self.changed:
                break
        else:
            self.unsure[("", "summaries do not converge")] = 0
        self.stats["paths"] += self.paths

    onstart = None

    def reset(self):
        self.pos = 0
        self.facts = []
        self.tied = set()
        self.insumm = 0
        self.sub = {}
        self.rel = {}
        self.nan = {}
        self.inf = {}
        self.occ = {}
        self.exc = None
        self.gil = True
        self.thread = None
        self.injected = 0
        self.failedapi = 0
        self.failed_worker = self.failed_joined = False
        self.curthr = None
        self.threads = []
        self.objs = []
        self.cur = None
        self.depth = 0
        self.stack = []
        self.loopst = []
        self.curexc = []
        self.locks = 0
        self.log = []
        self.none = Obj("None", "none", 0, True)
        self.heapobjs = []
        self.path_notes = []

    def choose(self, n, what=""):
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            c = self.trail[self.pos][0]
        else:
            self.trail.append([0, n, what])
            c = 0
        self.pos += 1
        return c

    def where(self, n):
        if n is None:
            return self.src
        f = n.file
        f = f[len(self.repo) + 1:] if f.startswith(self.repo + "/") else f
        return "%s:%s" % (f, n.line)

    def fault(self, rule, n, msg):
        if isinstance(n, tuple):
            n = n[0]
        self.faults.setdefault((rule, self.where(n), msg), self.fnname)

    fnname = ""

    def doubt(self, rule, n, msg):
        self.unsure.setdefault((self.where(n), "%s: %s" % (rule, msg)), 0)

    def undecided(self, n, msg):
        self.cur = n
        raise Undecided(msg)

    # ------------------------------------------------------------ integers
    def norm(self, p):
        return p.subst(self.sub) if self.sub else p

    def assume(self, p):
        """p >= 0; ends the path when impossible"""
        p = self.norm(p)
        c = p.const()
        if c is not None:
            if c < 0:
                raise PathEnd()
            return
        self.tie(p)
        self.facts.append(p)
        if contradicts(self.facts, p):
            raise PathEnd()

    def tie(self, p):
        """symbols known only through a summary that also occur in a condition"""
        if not self.insumm:
            for x in p.syms():
                if x.startswith("?") or x in self.sumsym:
                    self.tied.add(x)

    def loose(self, w, goal):
        """the assignment may not be attained: it needs a value of a summarised symbol"""
        gs = goal.syms()
        return any((x.startswith("?") and x in gs) or x in self.tied and x not in gs for x in w)

    def attained(self, facts, g, depth=0, skip=()):
        """an assignment that violates g >= 0 and that the program reaches; values kept in a summary are those stored there"""
        w = witness(facts, [-g - 1])
        if w is None:
            return None
        ss = sorted(x for x in g.syms() if x in self.sumsym)
        if not ss:
            return None if self.loose(w, g) else w
        if depth > 3:
            return None
        tab, key = self.sumsym[ss[0]]
        if tab == id(self.elems):
            key = self.cls_of(key)
        for v, fs in self.stored.get((tab, key), {}).values():
            if ss[0] in v.syms():
                continue
            r = self.attained([f for f in (q.subst({ss[0]: v}) for q in facts if ss[0] in g.syms())] + list(fs), g.subst({ss[0]: v}), depth + 1)
            if r is not None:
                return r
        return None

    def assume_eq(self, p):
        """p == 0"""
        p = self.norm(p)
        self.tie(p)
        if p.const() is not None:
            if p.const() != 0:
                raise PathEnd()
            return
        for k, v in p.m.items():
            if len(k) == 1 and abs(v) == 1 and not any(k[0] in q for q in p.m if q != k):
                s = k[0]
                e = P({q: (-w * v) for q, w in p.m.items() if q != k})
                self.sub = {a: b.subst({s: e}) for a, b in self.sub.items()}
                self.sub[s] = e
                fs = self.facts
                self.facts = []
                for f in fs:
                    f = f.subst({s: e})
                    c = f.const()
                    if c is None:
                        self.facts.append(f)
                    elif c < 0:
                        raise PathEnd()
                if infeasible(self.facts):
                    raise PathEnd()
                return
        self.facts += [p, -p]
        if contradicts(self.facts, p):
            raise PathEnd()

    def ge0(self, p):
        return entails(self.facts, self.norm(p))

    def fresh(self, base, vague=False):
        k = (base, self.occ.get(base, 0))
        self.occ[base] = k[1] + 1
        n = base + ("#%d" % k[1] if k[1] else "")
        return sym(("?" if vague else "") + n)

    def at(self, n):
        return "%s" % (self.where(n).rsplit("/", 1)[-1])

    def num(self, v):
        if isinstance(v, LV):
            v = v.get()
        if isinstance(v, bool):
            return P_(int(v))
        if isinstance(v, P):
            return self.norm(v)
        if v is UNDEF:
            self.fault("uninit", self.cur, "an uninitialised value is used")
            return self.fresh("undef", True)
        raise Undecided("not an integer: %r" % (v,))

    def cmp(self, op, a, b):
        d = self.norm(b - a)
        c = d.const()
        if c is not None:
            return {"<": c > 0, "<=": c >= 0, ">": c < 0, ">=": c <= 0, "==": c == 0, "!=": c != 0}[op]
        if op in (">", ">="):
            return self.cmp("<" if op == ">" else "<=", b, a)
        if op == "!=":
            return not self.cmp("==", a, b)
        if op == "<":
            if self.ge0(d - 1):
                return True
            if self.ge0(-d):
                return False
            if self.choose(2, "<") == 0:
                self.assume(d - 1)
                return True
            self.assume(-d)
            return False
        if op == "<=":
            return not self.cmp("<", b, a)
        if op == "==":
            if self.ge0(d - 1) or self.ge0(-d - 1):
                return False
            if self.ge0(d) and self.ge0(-d):
                return True
            k = self.choose(3, "==")
            if k == 0:
                self.assume_eq(d)
                return True
            self.assume(d - 1 if k == 1 else -d - 1)
            return False
        raise Undecided("comparison %s" % op)

    def wrap(self, p, ty, n, src=None):
        b = bits(ty)
        if b is None:
            return p
        w, sg = b
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        c = p.const()
        if w == 64 and any(".strides[" in q for q in p.syms()):
            return p
        if c is not None:
            if lo <= c <= hi:
                return p
            c = (c - lo) % (hi - lo + 1) + lo
            return P_(c)
        if src is not None:
            s = bits(src)
            if s is not None:
                slo, shi = (-(1 << (s[0] - 1)), (1 << (s[0] - 1)) - 1) if s[1] else (0, (1 << s[0]) - 1)
                if lo <= slo and shi <= hi:
                    return p
                if sg and not s[1] and w == 64 and s[0] == 64:
                    # extents fit the address space: a value above 2^63 only comes from a wrapped difference
                    if self.ge0(P_(hi) - p):
                        return p
        okl, okh = self.ge0(p - lo), self.ge0(P_(hi) - p)
        if okl and (okh or w == 64):
            return p
        if w == 64 and not sg:
            if self.choose(2, "wrap") == 0:
                self.assume(p)
                return p
            self.assume(-p - 1)
            return p + (1 << 64)
        if self.choose(2, "wrap") == 0:
            self.assume(p - lo)
            self.assume(P_(hi) - p)
            return p
        if not okl and not okh:
            if self.choose(2, "wrap") == 0:
                self.assume(P_(lo) - p - 1)
            else:
                self.assume(p - hi - 1)
        elif not okl:
            self.assume(P_(lo) - p - 1)
        else:
            self.assume(p - hi - 1)
        r = self.fresh("wrapped@" + self.at(n))
        self.assume(r - lo)
        self.assume(P_(hi) - r)
        return r

    def divmod_(self, a, b, n):
        a, b = self.norm(a), self.norm(b)
        ca, cb = a.const(), b.const()
        if cb == 0 or cb is None and not self.ge0(b - 1) and not self.ge0(-b - 1):
            if cb == 0 or self.choose(2, "zero divisor") == 1:
                if cb is None:
                    self.assume_eq(b)
                self.fault("div", n, "integer division by zero")
                raise PathEnd()
            if self.ge0(b):
                self.assume(b - 1)
            elif self.choose(2) == 0:
                self.assume(b - 1)
            else:
                self.assume(-b - 1)
        if ca is not None and cb is not None:
            q = abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1)
            return P_(q), P_(ca - q * cb)
        k = ("div", a.key(), b.key())
        if k in self.memo_div_path:
            return self.memo_div_path[k]
        q = sym("(%r)/(%r)" % (a, b))
        r = a - q * b
        if self.ge0(a) and self.ge0(b):
            self.assume(q)
            self.assume(r)
            self.assume(b - 1 - r)
            self.assume(a - q)
        self.memo_div_path[k] = (q, r)
        return q, r

    @property
    def memo_div_path(self):
        d = getattr(self, "_mdp", None)
        if d is None or self._mdpid is not self.occ:
            d = self._mdp = {}
            self._mdpid = self.occ
        return d

    # ------------------------------------------------------------ doubles
    def dbl(self, v):
        if isinstance(v, LV):
            v = v.get()
        if isinstance(v, Dbl):
            return v
        if isinstance(v, bool):
            v = P_(int(v))
        if isinstance(v, P):
            v = self.norm(v)
            c = v.const()
            return Dbl(("c", float(c)) if c is not None else ("i", v))
        if v is UNDEF:
            self.fault("uninit", self.cur, "an uninitialised value is used")
            return self.fresh_d()
        raise Undecided("not a number: %r" % (v,))

    def drange(self, t):
        """interval of a double term that is not NaN"""
        import math
        inf = float("inf")
        if t[0] == "c":
            return (t[1], t[1]) if t[1] == t[1] else (-inf, inf)
        if t[0] == "i":
            p = self.norm(t[1])
            lo = next((float(c) for c in (2, 1, 0, -2 ** 31, -2 ** 63) if self.ge0(p - c)), -inf)
            hi = next((float(c) for c in (2 ** 31 - 1, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64) if self.ge0(P_(c) - p)), inf)
            return lo, hi
        if t[0] == "f" and len(t) == 3:
            a, b = self.drange(t[2])
            f = {"ceil": math.ceil, "floor": math.floor, "round": round, "trunc": math.trunc}.get(t[1])
            if f:
                return (float(f(a)) if abs(a) < inf else a, float(f(b)) if abs(b) < inf else b)
            f = {"log2": math.log2, "log": math.log, "log10": math.log10, "sqrt": math.sqrt}.get(t[1])
            if f:
                return (f(a) if 0 < a < inf else -inf if t[1] != "sqrt" else 0.0, f(b) if 0 < b < inf else inf)
            if t[1] == "-":
                return -b, -a
        if t[0] == "f" and len(t) == 4 and t[1] in "+-*/":
            (a, b), (c, d) = self.drange(t[2]), self.drange(t[3])
            try:
                if t[1] == "+":
                    r = (a + c, b + d)
                elif t[1] == "-":
                    r = (a - d, b - c)
                elif t[1] == "*":
                    q = [x * y for x in (a, b) for y in (c, d)]
                    r = (min(q), max(q)) if all(x == x for x in q) else (-inf, inf)
                elif c > 0 or d < 0:
                    q = [x / y for x in (a, b) for y in (c, d)]
                    r = (min(q), max(q)) if all(x == x for x in q) else (-inf, inf)
                else:
                    r = (-inf, inf)
                if r[0] == r[0] and r[1] == r[1]:
                    return r
            except (OverflowError, ZeroDivisionError):
                pass
        return -inf, inf

    def fresh_d(self):
        self.occ["d"] = self.occ.get("d", 0) + 1
        return Dbl(("u", self.occ["d"]))

    def isnan(self, x):
        t = x.t
        if t[0] == "c":
            return t[1] != t[1]
        if t[0] == "i":
            return False
        if t in self.nan:
            return self.nan[t]
        for (a, b), s in self.rel.items():
            if t in (a, b):
                if "u" not in s:
                    self.nan[t] = False
                    return False
                o = b if t == a else a
                if s == {"u"} and (a == b or self.nan.get(o) is False or o[0] == "i" or o[0] == "c" and o[1] == o[1]):
                    self.nan[t] = True
                    return True
        self.nan[t] = self.choose(2, "isnan") == 1
        for (a, b), s in self.rel.items():
            if t in (a, b):
                self.narrow((a, b))
        return self.nan[t]

    def narrow(self, k):
        a, b = k
        s = self.rel[k]
        na, nb = self.knan(a), self.knan(b)
        if na or nb:
            s = s & {"u"}
        elif na is False and nb is False:
            s = s - {"u"}
        if not s:
            raise PathEnd()
        self.rel[k] = s

    def knan(self, t):
        if t[0] == "c":
            return t[1] != t[1]
        if t[0] == "i":
            return False
        return self.nan.get(t)

    def dcmp(self, op, x, y):
        a, b = x.t, y.t
        if a[0] == "c" and b[0] == "c":
            u, v = a[1], b[1]
            return {"<": u < v, "<=": u <= v, ">": u > v, ">=": u >= v, "==": u == v, "!=": u != v}[op]
        if a[0] in "ci" and b[0] in "ci" and (a[0] == "i" or a[1] == int(a[1])) and (b[0] == "i" or b[1] == b[1] and abs(b[1]) < 1e18 and b[1] == int(b[1])):
            return self.cmp(op, a[1] if a[0] == "i" else P_(int(a[1])), b[1] if b[0] == "i" else P_(int(b[1])))
        k, flip = ((a, b), False) if str(a) <= str(b) else ((b, a), True)
        if k not in self.rel:
            self.rel[k] = {"=", "u"} if a == b else {"<", "=", ">", "u"}
        self.narrow(k)
        yes = {"<": {"<"}, "<=": {"<", "="}, ">": {">"}, ">=": {">", "="}, "==": {"="}, "!=": {"<", ">", "u"}}[op]
        if flip:
            yes = {{"<": ">", ">": "<"}.get(z, z) for z in yes}
        s = self.rel[k]
        t, f = s & yes, s - yes
        if not f:
            return True
        if not t:
            return False
        r = self.choose(2, "double") == 0
        self.rel[k] = t if r else f
        self.narrow(k)
        return r

    def dop(self, op, *xs):
        ts = [x.t for x in xs]
        if all(t[0] == "c" for t in ts) and op in "+-*/" and len(ts) == 2:
            a, b = ts[0][1], ts[1][1]
            try:
                return Dbl(("c", a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b))
            except (ZeroDivisionError, OverflowError):
                pass
        if op == "-" and len(ts) == 1 and ts[0][0] == "c":
            return Dbl(("c", -ts[0][1]))
        return Dbl(("f", op) + tuple(ts))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, LV):
            v = v.get()
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, P):
            return self.cmp("!=", v, ZERO)
        if isinstance(v, Dbl):
            return self.dcmp("!=", v, Dbl(("c", 0.0)))
        if v is UNDEF:
            self.fault("uninit", self.cur, "an uninitialised value is used")
            return self.choose(2) == 0
        if isinstance(v, Opaque):
            return v.name != "noexc"
        if isinstance(v, Slot):
            return True
        return True

    # ------------------------------------------------------------ objects
    def live(self, o, n, what="used"):
        """o may be dereferenced here"""
        if isinstance(o, LV):
            o = o.get()
        if o is None:
            self.fault("null", n, "a null pointer is %s: the call that produced it can fail" % what)
            raise PathEnd()
        if o is UNDEF:
            self.fault("uninit", n, "an uninitialised pointer is %s" % what)
            raise PathEnd()
        if isinstance(o, Obj) and o.own <= 0 and not o.borrowed:
            self.fault("released", n, "%s is %s after its last reference was released" % (o.name, what))
        return o

    def array(self, o, n):
        o = self.live(o, n)
        if isinstance(o, Ptr) and isinstance(o.o, Obj):
            o = o.o
        if not isinstance(o, Obj):
            raise Undecided("not an array object: %r" % (o,))
        if o.kind not in ("array", "new"):
            self.fault("notarray", n, "%s is read as an array, but nothing establishes that it is one" % o.name)
            o.kind = "array"
            o.ndim = o.ndim if o.ndim is not None else self.fresh("ndim(%s)" % o.name)
        return o

    def dim(self, o, i, n):
        o = self.array(o, n)
        i = self.num(i)
        c = i.const()
        nd = o.ndim if isinstance(o.ndim, P) else P_(o.ndim) if o.ndim is not None else self.setnd(o)
        if not (self.ge0(i) and self.ge0(nd - 1 - i)):
            self.oblige("extent", n, [i, nd - 1 - i], "extent %r of %s is read although it may have %r dimension(s)" % (i, o.name, nd))
        if c is None:
            return self.fresh("dim@" + self.at(n), True)
        if c not in o.dims:
            s = sym("%s.shape[%d]" % (o.name, c))
            o.dims[c] = s
            self.assume(s)
            self.assume(P_(2 ** 63 - 1) - s)
        return self.norm(o.dims[c])

    def setnd(self, o):
        o.ndim = sym("ndim(%s)" % o.name)
        self.assume(o.ndim)
        self.assume(P_(32) - o.ndim)
        return o.ndim

    def stride(self, o, i, n):
        o = self.array(o, n)
        c = self.num(i).const()
        if c is None:
            raise Undecided("stride of a varying axis")
        self.dim(o, P_(c), n)
        return sym("%s.strides[%d]" % (o.name, c))

    def isize(self, o):
        if o.itemsize is None:
            if o.dtype in NPSIZE:
                o.itemsize = P_(NPSIZE[o.dtype])
            else:
                o.itemsize = sym("itemsize(%s)" % o.name)
                self.assume(o.itemsize)
        return o.itemsize

    def oblige(self, rule, n, goals, msg):
        """goals (each >= 0) must hold on this path"""
        self.stats["access"].add((self.where(n), rule))
        bad = [g for g in (self.norm(q) for q in goals) if not self.ge0(g)]
        if not bad:
            return True
        for g in bad:
            w = self.attained(self.facts, g)
            if w is not None:
                ex = ", ".join("%s = %d" % (k, v) for k, v in sorted(w.items()) if "#" not in k)[:220]
                self.fault(rule, n, msg + (" (for example %s)" % ex if ex else ""))
                return False
        self.doubt(rule, n, msg + ": cannot establish %s" % ", ".join("%r >= 0" % b for b in bad))
        return False

    def load(self, p, size, ty, n, write):
        p = self.live(p, n, "dereferenced")
        if isinstance(p, LV):
            if write:
                return None
            return p.get()
        if isinstance(p, DimPtr):
            if p.stride:
                return self.stride(p.arr, ZERO, n)
            return self.dim(p.arr, ZERO, n)
        if not isinstance(p, Ptr):
            raise Undecided("dereference of %r" % (p,))
        o = p.o
        off = self.norm(p.off)
        self.stats["access"].add((self.where(n), "memory"))
        if isinstance(o, Vec):
            if size is None:
                raise Undecided("element of unknown size")
            i = self.exact(off, size)
            if i is None:
                raise Undecided("unaligned vector access")
            self.inside(o, i, n)
            if write:
                self.wrote(("elem", o.site, i), o.thread, n)
                return None
            return self.elem(o, i)
        if isinstance(o, Buf):
            if o.freed:
                self.fault("released", n, "%s is used after it was freed" % o.name)
            self.oblige("bounds", n, [off, self.norm(o.size) - off - size], "access outside of %s" % o.name)
            return self.fresh_d() if "double" in ty or "float" in ty else self.fresh("mem@" + self.at(n), True)
        if isinstance(o, Obj):
            o = self.array(o, n)
            self.kindof(o)
            if o.dtype is not None and not same_type(ty, o.dtype):
                self.fault("dtype", n, "%s of %s, whose elements have numpy type %d, as %s" % ("write" if write else "read", o.name, o.dtype, ty))
            if not getattr(o, "aligned", True) and (size or 1) > 1:
                self.fault("misaligned", n, "elements of %s are accessed although the array need not be aligned" % o.name)
            idx = self.access(o, off, size, n, write)
            if write:
                o.written = True
                self.wrote(("array", o.name, off), None, n)
                return None
            if "double" in ty or "float" in ty:
                return Dbl(("ld", o.name, idx)) if idx is not None and not o.written else self.fresh_d()
            return self.fresh("ld@" + self.at(n), True)
        if isinstance(o, LV):
            self.oblige("bounds", n, [off, -off], "access beside a variable")
            return None if write else o.get()
        raise Undecided("access of %r" % (o,))

    def kindof(self, o):
        """element type learnt from a test of the type number"""
        if o.dtype is None:
            c = self.norm(sym("type(%s)" % o.name)).const()
            if c is not None:
                o.dtype = c

    def exact(self, off, size):
        d = {}
        for k, v in off.m.items():
            if v % size:
                return None
            d[k] = v // size
        return P(d)

    def split(self, o, off):
        """(indices by axis, remainder) of a byte offset built from strides"""
        idx, rest = {}, {}
        pre = o.name + ".strides["
        for k, v in off.m.items():
            ss = [s for s in k if s.startswith(pre)]
            if len(ss) == 1:
                a = int(ss[0][len(pre):-1])
                q = tuple(s for s in k if s != ss[0])
                idx.setdefault(a, {})[q] = v
            elif not ss:
                rest[k] = v
            else:
                return None, None
        return {a: P(d) for a, d in idx.items()}, P(rest)

    def access(self, o, off, size, n, write):
        self.kindof(o)
        it = self.norm(self.isize(o))
        if o.ndim is None or isinstance(o.ndim, P) and self.norm(o.ndim).const() is None:
            nd = self.norm(o.ndim) if o.ndim is not None else self.setnd(o)
            lo = [k for k in range(0, 5) if not self.ge0(nd - 1 - k)]
            self.fault("ndim", n, "elements of %s are accessed before its number of dimensions is established" % o.name)
            raise PathEnd()
        nd = o.ndim if isinstance(o.ndim, int) else self.norm(o.ndim).const()
        if o.dtype is None:
            self.fault("dtype", n, "elements of %s are read before its element type is established" % o.name)
            o.dtype = 12
            it = P_(8)
            o.itemsize = it
        idx, rest = self.split(o, off)
        if idx is None:
            raise Undecided("address of an element")
        if any(a >= nd for a in idx):
            self.fault("ndim", n, "an index for axis %d of %s, which has %d dimension(s)" % (max(idx), o.name, nd))
            raise PathEnd()
        c = rest.const()
        if size is None:
            size = 1
        inner = c is not None and c >= 0 and (self.ge0(it - c - size) or c == 0)
        if inner and (idx or nd == 0 or c == 0):
            goals = []
            for a in range(nd):
                i = idx.get(a, ZERO)
                d = self.dim(o, P_(a), n)
                goals += [i, d - 1 - i]
            goals.append(it - c - size)
            self.oblige("bounds", n, goals, "%s of %s outside of its extents" % ("write" if write else "read", o.name))
            return tuple(idx.get(a, ZERO).key() for a in range(nd))
        if idx:
            if rest.const() is None:
                # a row reached by its stride, then contiguous elements
                if o.contig and set(idx) == {0} and nd == 2:
                    f = self.exact(rest, size)
                    if f is not None:
                        d0, d1 = self.dim(o, ZERO, n), self.dim(o, ONE, n)
                        self.oblige("bounds", n, [idx[0], d0 - 1 - idx[0], f, d1 - 1 - f, it - size], "access of %s outside of its extents" % o.name)
                        return (idx[0].key(), f.key())
            self.fault("bounds", n, "access of %s beside an element" % o.name) if rest.const() is not None else self.doubt("bounds", n, "address in %s" % o.name)
            return None
        # plain offset into the data: needs contiguous elements of that size
        if not o.contig and nd > 0:
            self.fault("layout", n, "elements of %s are read one after the other although it need not be contiguous" % o.name)
        f = self.exact(rest, size)
        if f is None:
            raise Undecided("unaligned access of %s" % o.name)
        tot = ONE
        ds = []
        for a in range(nd):
            d = self.dim(o, P_(a), n)
            ds.append(d)
            tot = tot * d
        tot = self.norm(tot)
        if not self.ge0(it - size):
            self.oblige("bounds", n, [it - size], "an element of %s is narrower than what is read" % o.name)
        self.oblige("bounds", n, [f, tot - 1 - f], "%s of %s outside of its extents" % ("write" if write else "read", o.name))
        return (f.key(),)

    # ------------------------------------------------------------ vectors
    def cls_of(self, site):
        r = site
        while self.rep.get(r, r) != r:
            r = self.rep[r]
        return r

    def unite(self, a, b):
        a, b = self.cls_of(a), self.cls_of(b)
        if a == b:
            return
        self.rep[b] = a
        sb = self.stored.pop((id(self.elems), b), None)
        if sb:
            self.stored.setdefault((id(self.elems), a), {}).update(sb)
        ea, eb = self.elems.get(a), self.elems.get(b)
        if ea is not None and eb is not None:
            self.elems[a] = {t: v for t, v in ea.items() if t in eb}
        elif eb is not None:
            self.elems[a] = eb
        self.changed = True

    def extents(self):
        """symbols usable in element summaries: extents and object sizes"""
        out = []
        for o in self.objs:
            for d in o.dims.values():
                if self.norm(d).const() is None:
                    out.append(self.norm(d))
        seen, r = set(), []
        for x in out:
            if x not in seen:
                seen.add(x)
                r.append(x)
        return r[:6]

    def templates(self):
        xs = self.extents()
        out = [("e", ONE, ZERO)]
        for x in xs:
            out.append(("u", x, ZERO))
            out.append(("l", x, ZERO))
        for i, x in enumerate(xs):
            for y in xs[i + 1:]:
                out.append(("u", x + y, ZERO))
        return out

    def inst(self, t, e):
        k, x, _ = t
        return e if k == "e" else x - 1 - e if k == "u" else e - x

    def summ_store(self, tab, key, v):
        """tab[key]: inequalities every stored integer satisfies"""
        v = self.norm(v)
        st = self.stored.setdefault((id(tab), key), {})
        if len(st) < 12 and v.key() not in st:
            st[v.key()] = (v, tuple(relevant(self.facts, v)))
        cur = tab.get(key)
        ts = {(t[0], t[1].key()): t for t in self.templates()}
        if cur is None:
            cur = tab[key] = {k: t for k, t in ts.items()}
            self.changed = True
        for k, t in list(cur.items()):
            g = self.norm(self.inst(t, v))
            if not self.ge0(g):
                del cur[k]
                self.changed = True

    def summ_read(self, tab, key, base):
        s = self.fresh(base)
        self.sumsym[next(iter(s.syms()))] = (id(tab), key)
        self.insumm += 1
        try:
            for t in tab.get(key, {}).values():
                self.assume(self.inst(t, s))
        finally:
            self.insumm -= 1
        return s

    def inside(self, v, i, n):
        self.oblige("bounds", n, [i, self.norm(v.size) - 1 - i], "index %r of a vector of length %r" % (self.norm(i), self.norm(v.size)))

    def elem(self, v, i):
        i = self.norm(i)
        if v.items is not None and i.const() is not None and 0 <= i.const() < len(v.items):
            return v.items[i.const()].get()
        e = v.elem
        if "thread" in e:
            raise Undecided("thread of an unknown vector")
        if "vector" in e and "unique_ptr" not in e:
            raise Undecided("vector of vectors")
        if "unique_ptr" in e:
            m = re.search(r"unique_ptr<(?:[\w]+::)*(\w+)", e)
            return Slot(m.group(1), "%s[%r]" % (v.site, i))
        b = bits(e)
        if b is not None:
            if v.perm:
                s = self.fresh("e(%s)" % self.cls_of(v.site))
                self.assume(s)
                self.assume(self.norm(v.size) - 1 - s)
                self.log.append(("elem", v, i, s))
                return s
            c = self.cls_of(v.site)
            if c not in self.elems:
                # nothing was stored so far: no path reads an element yet
                raise PathEnd()
            s = self.summ_read(self.elems, c, "e(%s)" % c)
            if not b[1]:
                self.insumm += 1
                try:
                    self.assume(s)
                finally:
                    self.insumm -= 1
            self.log.append(("elem", v, i, s))
            return s
        d = self.fresh_d()
        self.log.append(("elemd", v, i, d))
        return d

    def store(self, v, i, x):
        if v.items is not None:
            c = i.const() if i is not None else None
            if c is not None and 0 <= c < len(v.items):
                v.items[c].set(x)
            else:
                v.items = None
        if isinstance(x, Inst):
            self.heapobjs.append(x)
        b = bits(v.elem)
        if b is not None:
            v.perm = False
            self.summ_store(self.elems, self.cls_of(v.site), self.num(x))

    def fill(self, v, x):
        """every element is x"""
        if bits(v.elem) is not None and self.norm(v.size).const() != 0:
            old = list(self.facts)
            try:
                self.assume(self.norm(v.size) - 1)
                self.summ_store(self.elems, self.cls_of(v.site), self.num(x))
            except PathEnd:
                pass
            self.facts = old

    def vsite(self, n):
        """one name per place that creates containers (several may share a line)"""
        at = self.at(n)
        ids = self.__dict__.setdefault("vsites", {}).setdefault(at, [])
        i = n.get("id") or id(n)
        if i not in ids:
            ids.append(i)
        k = ids.index(i)
        return at if k == 0 else "%s(%d)" % (at, k + 1)

    def newvec(self, n, ty, size, fill=None, fr=None):
        m = re.search(r"vector<(.*)>", ty)
        el = self.elemtype(ty)
        size = self.norm(size)
        v = Vec(self.vsite(n), size, el, None, fr, self.thread)
        if self.keep:
            self.log.append(("vec", v, size, n))
        if size.const() is not None and size.const() <= 64:
            v.items = [ValLV(fill if fill is not None else self.zero(el)) for _ in range(size.const())]
        if fill is not None or size.const() != 0:
            self.fill(v, fill if fill is not None else ZERO) if bits(el) is not None else None
        return v

    def zero(self, el):
        if bits(el) is not None:
            return ZERO
        if el in ("double", "float"):
            return Dbl(("c", 0.0))
        if "thread" in el:
            return Thr(None, -1)
        return None

    def elemtype(self, ty):
        t = ty.replace("const ", "").strip().rstrip("&").strip()
        m = re.search(r"vector<(.*)>$", t)
        if not m:
            m = re.search(r"vector<(.*)>", t)
        if not m:
            return "?"
        s, d = m.group(1), 0
        for i, ch in enumerate(s):
            d += ch in "<("
            d -= ch in ">)"
            if ch == "," and d == 0:
                s = s[:i]
                break
        s = s.strip()
        return {"size_t": "unsigned long", "std::size_t": "unsigned long"}.get(s, s)

    def alloc(self, n, size):
        """an allocation whose size depends on the arguments may fail"""
        if self.norm(size).const() is not None and self.norm(size).const() < 4096:
            return
        self.inject(n, "bad_alloc")

    def inject(self, n, kind):
        if self.injected or self.config.get("noinject"):
            return
        if self.choose(2, "throw") == 1:
            self.injected += 1
            raise Throw(kind)

    # ------------------------------------------------------------ heap objects
    def getfield(self, o, name, ty):
        if name in o.f:
            v = o.f[name]
            return self.norm(v) if isinstance(v, P) else v
        if o.generic is not None:
            s = self.sites.get(o.cls, {}).get(o.generic, {}).get(name)
            if s is not None and s.get("const", "no") != "no":
                v = s["const"]
                v = v[0]
            elif "unique_ptr" in ty:
                m = re.search(r"unique_ptr<(?:[\w]+::)*(\w+)", ty)
                v = Slot(m.group(1), o.name + "." + name)
                if s is not None and s.get("null") and self.choose(2, "null") == 1:
                    v = None
            elif bits(ty) is not None and s is not None and s.get("int"):
                v = self.summ_read(self.sites[o.cls][o.generic][name], "t", "%s.%s" % (o.cls, name))
                if not bits(ty)[1]:
                    self.assume(v)
            elif "char" in ty and "*" in ty and s is not None and s.get("ptr"):
                arr = [q for q in self.objs if q.name == s["ptr"]]
                if not arr:
                    raise Undecided("pointer kept in %s.%s" % (o.cls, name))
                v = Ptr(arr[0], sym("off(%s.%s)" % (o.cls, name)))
            elif ty.replace("const ", "") in ("double", "float") or s is not None and s.get("dbl"):
                v = Dbl(("fld", o.cls, name))
            else:
                raise Undecided("field %s of %s" % (name, o.cls))
            o.f[name] = v
            return v
        t = ty.replace("const ", "")
        if "vector<" in t:
            v = Vec("%s.%s" % (o.cls, name), ZERO, self.elemtype(t), [], None, o.thread)
        elif "exception_ptr" in t:
            v = Opaque("noexc")
        elif "mutex" in t or "atomic" in t:
            v = Opaque(name)
        elif "unique_ptr" in t:
            v = None
        elif "uniform_int_distribution" in t:
            v = Dist(ZERO, P_(2 ** 64 - 1))
        elif "mersenne" in t or "mt19937" in t:
            v = Eng(P_(5489), None, None, None)
        else:
            v = UNDEF
        o.f[name] = v
        return v

    def heap(self, x, n):
        """the object a unique_ptr owns"""
        if isinstance(x, LV):
            y = x.get()
            if isinstance(y, Slot):
                y = self.heap(y, n)
                if not isinstance(x, (ValLV,)):
                    if isinstance(x, VarLV):
                        x.fr.vars[x.i] = y
                    elif isinstance(x, FieldLV):
                        x.o.f[x.name] = y
            x = y
        if isinstance(x, Slot):
            if self.failed_worker and (self.thread is None or self.curthr.late):
                self.fault("worker", n, "results are read although a worker failed")
            ss = sorted(self.sites.get(x.cls, {}))
            if not ss:
                raise PathEnd()
            k = ss[self.choose(len(ss), "site of " + x.cls)]
            o = Inst(x.cls, x.name)
            o.generic = k
            o.thread = "?"
            self.log.append(("node", o, k, n))
            return o
        x = self.live(x, n, "dereferenced")
        return x

    def publish(self):
        """objects handed to a container on this path, with everything they own"""
        st, seen = list(self.heapobjs), set()
        while st:
            o = st.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if getattr(o, "heap", None) is not None:
                self.record(o, o.heap)
            st += [v for v in o.f.values() if isinstance(v, Inst)]

    def record(self, o, n):
        """an object was built here: its fields join the summary of the site"""
        key = self.vsite(n)
        st = self.sites.setdefault(o.cls, {})
        if key not in st:
            st[key] = {}
            self.changed = True
        d = st[key]
        for f, v in o.f.items():
            s = d.setdefault(f, {})
            kk = v.key() if isinstance(v, P) else v if isinstance(v, (bool, type(None))) else v.t if isinstance(v, Dbl) else "obj"
            simple = isinstance(v, (bool, type(None))) or isinstance(v, P) and v.const() is not None or isinstance(v, Dbl) and v.t[0] == "c"
            if "const" not in s:
                s["const"] = (v, kk) if simple else "no"
                self.changed = True
            elif s["const"] != "no" and (not simple or repr(s["const"][1]) != repr(kk)):
                s["const"] = "no"
                self.changed = True
            if isinstance(v, P):
                s["int"] = True
                self.summ_store(s, "t", v)
            if isinstance(v, Dbl):
                s["dbl"] = True
            if isinstance(v, Ptr) and isinstance(v.o, Obj):
                s["ptr"] = v.o.name
            k = "null" if v is None else "obj" if isinstance(v, (Slot, Inst)) else None
            if k and not s.get(k):
                s[k] = True
                self.changed = True

    # ------------------------------------------------------------ effects
    def wrote(self, loc, owner, n):
        """a store to a location created by thread `owner`"""
        for ls in self.loopst:
            ls.add(loc)
        if self.thread is not None and owner != self.thread:
            self.log.append(("shared", self.thread, loc, bool(self.locks), n, tuple(self.facts)))
            if self.onshared:
                self.onshared(self, loc, n)

    onshared = None

    # ------------------------------------------------------------ functions
    def call(self, d, args, this=None, parent=None, n=None):
        if self.depth > 40:
            raise Undecided("call depth")
        key = id(d)
        self.stats["fns"].add((self.where(d), d.name))
        fr = Fr(parent, this, self.thread)
        ps = [x for x in d.inner if x.kind == "ParmVarDecl"]
        rec = self.recursive(d)
        if rec and any(k == key for k, _ in self.stack):
            return self.reccall(d, args, ps, [q for k, q in self.stack if k == key][-1], n)
        vals = []
        for i, p in enumerate(ps):
            if i < len(args):
                a = args[i]
            elif p.inner:
                a = self.ev(p.inner[-1], fr)
            else:
                raise Undecided("missing argument")
            v = self.bind(p, a)
            if rec:
                v = self.generalise(p, v, d)
            vals.append(v)
            fr.vars[p.get("id")] = Ref(v) if isinstance(v, LV) else v
        if rec and self.keep:
            self.log.append(("top", d.name, [self.bind(p, args[i]) if i < len(args) else None for i, p in enumerate(ps)], vals, n, self.snap(), d))
        self.stack.append((key, vals))
        self.depth += 1
        of = self.fnname
        self.fnname = d.name or of
        nt = len(self.threads)
        try:
            if d.kind == "CXXConstructorDecl":
                self.inits(d, fr)
            self.stmt(self.body(d), fr)
            return None
        except Ret as r:
            if self.keep:
                self.log.append(("ret", d, r.v, vals, self.snap(), this))
            return r.v
        finally:
            self.depth -= 1
            self.stack.pop()
            fr.alive = False
            self.locks -= fr.locks
            self.fnname = of

    def defaults(self, rd, av):
        ps = [x for x in rd.inner if x.kind == "ParmVarDecl"]
        out = []
        for i, a in enumerate(av):
            if isinstance(a, Opaque) and a.name == "default" and i < len(ps):
                if not ps[i].inner:
                    raise Undecided("default argument")
                a = self.ev(ps[i].inner[-1], Fr())
                if isinstance(a, LV):
                    a = a.get()
            out.append(a)
        return out

    def bind(self, p, a):
        ty = p.type
        if ty.rstrip().endswith("&"):
            if isinstance(a, LV):
                v = a.get()
                if isinstance(v, (Vec, Inst, Eng, Dist)) :
                    return v
                return a if "const" not in ty or not isinstance(v, (P, Dbl, bool)) else v
            return a
        if isinstance(a, LV):
            a = a.get()
        if isinstance(a, P) and bits(ty):
            return a
        if isinstance(a, Dist):
            return Dist(a.lo, a.hi)
        if isinstance(a, Vec) and "vector" in ty:
            return self.copyvec(a)
        return a

    def copyvec(self, a):
        v = Vec(a.site, a.size, a.elem, [ValLV(x.get()) for x in a.items] if a.items is not None else None, None, self.thread)
        v.perm, v.sampleof = a.perm, a.sampleof
        return v

    def generalise(self, p, v, d):
        """a generic argument of a recursive function"""
        nm = "%s.%s" % (d.name, p.name)
        if isinstance(v, P):
            s = sym(nm)
            b = bits(p.type)
            if b and not b[1]:
                self.assume(s)
            if self.ge0(v):
                g = self.loops.setdefault(("rec", nm), {"nonneg": True})
                if g["nonneg"]:
                    self.assume(s)
            # passed through unchanged: checked at the recursive call
            g = self.loops.setdefault(("rec", nm), {"nonneg": True})
            if not g.get("varies"):
                return v
            if g.get("steps"):
                # changes by a constant per nested call; the stack holds fewer than 2^26 frames
                lo, hi = min(g["steps"]), max(g["steps"])
                self.assume(s - v - min(0, lo) * 2 ** 26)
                self.assume(v + max(0, hi) * 2 ** 26 - s)
            return s
        if isinstance(v, Vec):
            q = Vec(v.site, sym("len(%s)" % nm), v.elem, None, None, self.thread)
            self.assume(q.size)
            q.tag = nm
            return q
        if isinstance(v, LV):
            x = v.get()
            if x is None or isinstance(x, (Inst, Slot)):
                return v
            return v
        return v

    def reccall(self, d, args, ps, top, n):
        for i, p in enumerate(ps):
            if i >= len(args):
                continue
            v = self.bind(p, args[i])
            if isinstance(v, Vec):
                if isinstance(top[i], Vec):
                    self.unite(top[i].site, v.site)
            elif isinstance(v, P):
                nm = "%s.%s" % (d.name, p.name)
                g = self.loops.setdefault(("rec", nm), {"nonneg": True})
                if isinstance(top[i], P) and self.norm(top[i]) != self.norm(v) and not g.get("varies"):
                    g["varies"] = True
                    self.changed = True
                st = self.norm(v - top[i]).const() if isinstance(top[i], P) else None
                if g.get("steps", ()) is not None and (st is None or st not in g.get("steps", ())):
                    g["steps"] = None if st is None else sorted(set(g.get("steps", ())) | {st})
                    self.changed = True
                if g["nonneg"] and not self.ge0(v):
                    g["nonneg"] = False
                    self.changed = True
        self.log.append(("rec", d.name, [self.bind(p, args[i]) if i < len(args) else None for i, p in enumerate(ps)], n, list(top),
                         [args[i] if i < len(args) else None for i in range(len(ps))], self.snap()))
        rt = d.qtype.split("(")[0].strip()
        if rt in ("double", "float"):
            return Dbl(("rec", d.name))
        if rt == "void":
            # what it stored through its reference arguments is unknown
            for i, p in enumerate(ps):
                if i < len(args) and isinstance(args[i], LV) and "unique_ptr" in p.type:
                    m = re.search(r"unique_ptr<(?:[\w]+::)*(\w+)", p.type)
                    args[i].set(Slot(m.group(1), "grown"))
            return None
        if bits(rt):
            return self.fresh("rec(%s)" % d.name, True)
        if "unique_ptr" in rt:
            m = re.search(r"unique_ptr<(?:[\w]+::)*(\w+)", rt)
            return Slot(m.group(1), "grown")
        raise Undecided("recursive function returning %s" % rt)

    def inits(self, d, fr):
        """constructor initialisers and default member initialisers, in order"""
        this = fr.this
        rec = self.records.get(this.cls)
        byname = {}
        for x in d.inner:
            if x.kind == "CXXCtorInitializer":
                nm = (x.get("anyInit") or {}).get("name")
                if nm:
                    byname[nm] = x
        for x in d.inner:
            if x.kind != "CXXCtorInitializer":
                continue
            ai = x.get("anyInit") or {}
            nm = ai.get("name")
            if not nm or not x.inner:
                continue
            e = x.inner[-1]
            if e.kind == "CXXDefaultInitExpr":
                f = self.byid.get(ai.get("id"))
                if f is None or not f.inner:
                    continue
                e = f.inner[-1]
            v = self.ev(e, fr)
            if isinstance(v, LV):
                v = v.get()
            if isinstance(v, Vec):
                v.site = v.tag = "%s.%s" % (this.cls, nm)
                v.thread = this.thread
            if isinstance(v, (Opaque,)) and v.name == "default":
                continue
            this.f[nm] = v

    # ------------------------------------------------------------ statements
    def stmt(self, s, fr):
        self.cur = s
        k = s.kind
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s, fr)
        self.ev(s, fr)

    def s_CompoundStmt(self, s, fr):
        lk = fr.locks
        try:
            for x in s.inner:
                self.stmt(x, fr)
        finally:
            self.locks -= fr.locks - lk
            fr.locks = lk

    def s_NullStmt(self, s, fr):
        pass

    def s_StaticAssertDecl(self, s, fr):
        pass

    def s_DeclStmt(self, s, fr):
        for d in s.inner:
            if d.kind == "VarDecl":
                self.decl(d, fr)
            elif d.kind in ("StaticAssertDecl", "UsingDecl", "UsingDirectiveDecl", "TypedefDecl", "TypeAliasDecl", "CXXRecordDecl"):
                pass
            else:
                raise Undecided("declaration %s" % d.kind)

    def decl(self, d, fr):
        i = d.get("id")
        if d.get("storageClass") == "static":
            raise Undecided("static local variable")
        if not d.inner or d.inner[-1].kind in ("CXXRecordDecl",):
            fr.vars[i] = self.default(d.type, d)
            return
        e = d.inner[-1]
        v = self.ev(e, fr)
        if d.type.rstrip().endswith("&") or d.qtype.rstrip().endswith("&"):
            if isinstance(v, LV):
                x = v.get() if not isinstance(v, (MemLV,)) else None
                if isinstance(x, (Vec, Inst, Eng, Dist, Thr)):
                    v = x
                fr.vars[i] = v if isinstance(v, (Vec, Inst, Eng, Dist, Thr)) else Ref(v)
            else:
                fr.vars[i] = v
            return
        if isinstance(v, LV):
            v = v.get()
        v = self.copyval(v, d.type)
        if isinstance(v, Vec) and v.site != "":
            pass
        if isinstance(v, Thr):
            pass
        if isinstance(v, Eng) and v.frame is None:
            v.frame = fr
        fr.vars[i] = v

    def copyval(self, v, ty):
        if isinstance(v, Dist):
            return Dist(v.lo, v.hi)
        return v

    def default(self, ty, d):
        t = ty.replace("const ", "").strip()
        if "vector<" in t and not t.endswith("*"):
            return self.newvec(d, t, ZERO)
        if t.startswith("std::thread") or t == "thread":
            return Thr(None, -1)
        m = re.search(r"(?:^|::)(\w+)$", t)
        if m and m.group(1) in self.records:
            return Inst(m.group(1), self.at(d), self.thread)
        if "[" in t:
            c = re.search(r"\[(\d+)\]", t)
            return Vec(self.vsite(d), P_(int(c.group(1))) if c else ZERO, t.split("[")[0].strip(), None, None, self.thread)
        if "unique_ptr" in t:
            return None
        if "uniform" in t:
            return Dist(ZERO, P_(2 ** 64 - 1))
        if "mersenne" in t or "mt19937" in t:
            return Eng(P_(5489), d, self.thread, None)
        if "mutex" in t:
            return Opaque(d.name)
        return UNDEF

    def s_ReturnStmt(self, s, fr):
        v = None
        if s.inner:
            v = self.ev(s.inner[0], fr)
            if isinstance(v, LV) and not self.refret(s):
                v = v.get()
        raise Ret(v)

    def refret(self, s):
        p = s
        while p is not None and p.kind not in ("FunctionDecl", "CXXMethodDecl", "LambdaExpr"):
            p = p.parent
        return p is not None and p.kind != "LambdaExpr" and p.qtype.split("(")[0].strip().endswith("&")

    def s_IfStmt(self, s, fr):
        inner = list(s.inner)
        if s.get("hasInit"):
            self.stmt(inner.pop(0), fr)
        if s.get("hasVar"):
            self.stmt(inner.pop(0), fr)
        c = self.truth(self.ev(inner[0], fr))
        if c:
            self.stmt(inner[1], fr)
        elif len(inner) > 2:
            self.stmt(inner[2], fr)

    def s_BreakStmt(self, s, fr):
        raise Brk()

    def s_ContinueStmt(self, s, fr):
        raise Cont()

    def s_ForStmt(self, s, fr):
        # inner: init, condvar, cond, inc, body with empty placeholders kept as kind None
        raw = s.d.get("inner", [])
        it = iter(s.inner)
        parts = [next(it) if (x and x.get("kind")) else (next(it) if x else None) for x in raw]
        init, var, cond, inc, body = (parts + [None] * 5)[:5]
        if init is not None and init.kind:
            self.stmt(init, fr)
        self.loop(s, cond if cond is not None and cond.kind else None, inc if inc is not None and inc.kind else None, body, fr)

    def s_WhileStmt(self, s, fr):
        self.loop(s, s.inner[-2], None, s.inner[-1], fr)

    def s_DoStmt(self, s, fr):
        self.iterate(s.inner[0], fr)
        self.loop(s, s.inner[1], None, s.inner[0], fr)

    def iterate(self, body, fr):
        try:
            self.stmt(body, fr)
        except Cont:
            pass

    def loop(self, s, cond, inc, body, fr):
        self.stats["loops"].add(self.where(s))
        try:
            # constant trip counts are followed
            for k in range(80):
                if cond is None:
                    break
                t = self.consttruth(cond, fr)
                if t is None:
                    break
                if not t:
                    return
                self.iterate(body, fr)
                if inc is not None:
                    self.ev(inc, fr)
            else:
                raise Undecided("loop of more than 80 iterations")
            self.generic(s, lambda: cond is None or self.truth(self.ev(cond, fr)), lambda: self.iterate(body, fr),
                         lambda: self.ev(inc, fr) if inc is not None else None, cond, fr)
        except Brk:
            return

    def consttruth(self, cond, fr):
        c = strip(cond)
        if c.kind == "BinaryOperator" and c.get("opcode") in ("<", "<=", ">", ">=", "!=", "==") and bits(strip(c.inner[0]).type) and not self.effects(c):
            a, b = self.num(self.ev(c.inner[0], fr)), self.num(self.ev(c.inner[1], fr))
            x, y = a.const(), b.const()
            if x is None or y is None:
                # following the first iteration only: an undecided trip count is generic
                return None
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "!=": x != y, "==": x == y}[c.get("opcode")]
        if c.kind == "CXXBoolLiteralExpr":
            return None
        if c.kind == "BinaryOperator" and c.get("opcode") in ("<", "!=", "<=") and not self.effects(c):
            return None
        return None

    def effects(self, n):
        return any(x.kind in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CompoundAssignOperator") and not
                   (x.kind == "CXXMemberCallExpr" and x.inner and x.inner[0].name in ("size", "length")) or
                   x.kind == "UnaryOperator" and x.get("opcode") in ("++", "--") or x.kind == "BinaryOperator" and x.get("opcode") == "="
                   for x in n.walk())

    def getloc(self, loc, fr):
        if loc[0] == "var":
            f = fr.find(loc[1])
            if f is None:
                return None
            return f.vars.get(loc[1])
        return None

    def generic(self, s, test, body, step, cond, fr):
        key = s.get("id")
        info = self.loops.setdefault(key, {})
        kk = self.fresh("k@" + self.at(s))
        self.assume(kk)
        start = {}
        for loc, how in list(info.items()):
            if loc[0] == "var":
                f = fr.find(loc[1])
                if f is None:
                    continue
                v = f.vars.get(loc[1])
                if isinstance(v, Ref):
                    v = v.lv
                start[loc] = v
                f.vars[loc[1]] = self.havoc(loc, v, how, kk)
            elif loc[0] == "vecsize":
                pass
        # containers whose length the body changes
        for loc, how in list(info.items()):
            if loc[0] == "vec":
                for v in self.vecs(loc[1], fr):
                    if self.keep:
                        self.log.append(("loopvec", s, v, v.size))
                    v.items = None
                    v.perm = False if loc[2] != "size" else v.perm
                    if isinstance(how, tuple):
                        v.size = self.norm(v.size) + kk * how[1]
                        self.assume(v.size)
                    else:
                        v.size = self.fresh("len(%s)" % loc[1])
                        self.assume(v.size)
            if loc[0] == "field":
                o = fr.getthis()
                if o is not None and o.cls == loc[1] and loc[2] in o.f:
                    v = o.f[loc[2]]
                    o.f[loc[2]] = self.havoc(loc, v, how, kk)
        head = {loc: self.getloc(loc, fr) for loc in info if loc[0] == "var"}
        if self.keep:
            for loc in head:
                self.log.append(("loopvar", s, loc, start.get(loc), head[loc]))
        which = self.choose(2, "loop")
        if which == 1:
            # after the loop
            self.neqhint(cond, fr, start, head, kk)
            if test():
                raise PathEnd()
            return
        self.neqhint(cond, fr, start, head, kk)
        if not test():
            raise PathEnd()
        mut = set()
        self.loopst.append(mut)
        before = {}
        f = fr
        while f is not None:
            for i, v in f.vars.items():
                before[i] = v
            f = f.parent
        sizes = {id(v): (v, v.size) for v in self.vecs(None, fr)}
        self.log.append(("iter", s, kk, self.guard(cond, fr), self.thread))
        try:
            body()
            self.log.append(("iterend", s, kk, self.thread, self.snap()))
            step()
        finally:
            self.loopst.pop()
        if self.keep:
            for loc in mut:
                if loc[0] == "var" and loc[1] in before:
                    self.log.append(("upd", s, loc, head.get(loc), self.getloc(loc, fr)))
        # the summary of the loop
        for loc in mut:
            if loc[0] == "var" and loc[1] in before:
                v0, v1 = before[loc[1]], self.getloc(loc, fr)
                how = self.delta(v0, v1)
                self.weaken(info, loc, how)
            elif loc[0] == "vec":
                for v in self.vecs(loc[1], fr):
                    self.weaken(info, loc, self.delta(sizes[id(v)][1], v.size) if id(v) in sizes else "any")
                self.weaken(info, loc, info.get(loc, "any"))
            elif loc[0] == "field":
                self.weaken(info, loc, "any")
        raise PathEnd()

    def guard(self, cond, fr):
        """(left, operator, right) of the test that let an iteration start"""
        if cond is None or not self.keep:
            return None
        c = strip(cond)
        if c.kind == "BinaryOperator" and c.get("opcode") in ("<", "<=", ">", ">=", "!=") and bits(strip(c.inner[0]).type) and not self.effects(c):
            return self.num(self.ev(c.inner[0], fr)), c.get("opcode"), self.num(self.ev(c.inner[1], fr))
        return None

    def snap(self):
        """what is known on the path"""
        if not self.keep:
            return None
        eqs = []
        for k, p in self.sub.items():
            eqs += [sym(k) - p, p - sym(k)]
        return tuple(self.facts) + tuple(eqs), dict(self.nan), dict(self.rel)

    def pure(self, n, fr):
        """exact value of an operand of a loop test.  The bound drawn from it holds by induction over the iterations: the
        sum was in range when the previous test passed, so it is no wrapped one"""
        c = strip(n)
        b = bits(c.type)
        if c.kind == "BinaryOperator" and b and (c.get("opcode") == "+" or c.get("opcode") == "-" and b[1]):
            x, y = self.pure(c.inner[0], fr), self.pure(c.inner[1], fr)
            return self.norm(x + y if c.get("opcode") == "+" else x - y)
        return self.num(self.ev(n, fr))

    def neqhint(self, cond, fr, start, head, kk):
        """i != n with unit steps towards n: i is not beyond n"""
        if cond is None:
            return
        c = strip(cond)
        if c.kind == "BinaryOperator" and c.get("opcode") == "!=" and bits(strip(c.inner[0]).type) and not self.effects(c):
            a, b = self.pure(c.inner[0], fr), self.pure(c.inner[1], fr)
            d = b - a
            k = self.norm(kk).m
            nm = list(kk.syms())[0]
            co = d.m.get((nm,), 0)
            if abs(co) == 1:
                d0 = d.subst({nm: ZERO})
                if co == -1 and self.ge0(d0):
                    self.assume(d)
                elif co == 1 and self.ge0(-d0):
                    self.assume(-d)
        # counting loops: the previous iteration passed the test
        if c.kind == "BinaryOperator" and c.get("opcode") in ("<", "<=", ">", ">=") and bits(strip(c.inner[0]).type) and not self.effects(c):
            a, b = self.pure(c.inner[0], fr), self.pure(c.inner[1], fr)
            op = c.get("opcode")
            d = b - a if op in ("<", "<=") else a - b
            if op in ("<", ">"):
                d = d - 1
            nm = list(kk.syms())[0] if kk.syms() else None
            co = d.m.get((nm,), 0)
            d0 = d.subst({nm: ZERO}) if nm else d
            if co < 0 and self.ge0(d0 - co):
                # d + |co| >= 0 always holds at the head when it holds before the first test
                self.assume(d - co)
            elif co < 0 and self.ge0(d0):
                self.assume(d - co)

    def vecs(self, site, fr):
        out, seen = [], set()

        def add(v):
            if isinstance(v, Ref):
                return
            if isinstance(v, Vec) and site in (None, v.tag) and id(v) not in seen:
                seen.add(id(v))
                out.append(v)
            if isinstance(v, Inst):
                for q in v.f.values():
                    if isinstance(q, Vec):
                        add(q)
        f = fr
        while f is not None:
            for v in f.vars.values():
                add(v)
            if f.this is not None:
                add(f.this)
            f = f.parent
        return out

    def havoc(self, loc, v, how, kk):
        if isinstance(v, LV):
            v = v.get()
        if isinstance(v, bool):
            v = P_(int(v))
        if isinstance(v, P):
            if isinstance(how, tuple) and how[0] == "lin":
                return v + kk * how[1]
            s = self.fresh("loop(%s)" % loc[-1], True)
            if how == "up":
                self.assume(s - v)
            elif how == "down":
                self.assume(v - s)
            return s
        if isinstance(v, Dbl):
            return self.fresh_d()
        if isinstance(v, Ptr) and isinstance(how, tuple) and how[0] == "lin":
            return Ptr(v.o, v.off + kk * how[1])
        if isinstance(v, It) and isinstance(how, tuple) and how[0] == "lin":
            return It(v.v, v.off + kk * how[1])
        if v is UNDEF:
            return UNDEF
        if isinstance(v, (Eng, Dist, Opaque, Thr)):
            return v
        raise Undecided("a loop changes %s" % loc[-1])

    def delta(self, a, b):
        if isinstance(a, P) and isinstance(b, P):
            d = self.norm(b - a)
            if d.const() is not None:
                return ("lin", d.const())
            if self.ge0(d):
                return "up"
            if self.ge0(-d):
                return "down"
            return "any"
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            d = self.norm(b.off - a.off)
            if d.const() is not None:
                return ("lin", d.const())
        if isinstance(a, It) and isinstance(b, It) and a.v is b.v:
            d = self.norm(b.off - a.off)
            if d.const() is not None:
                return ("lin", d.const())
        return "any"

    def weaken(self, info, loc, how):
        old = info.get(loc)
        if old == how:
            return
        if old is None:
            new = how
        elif isinstance(old, tuple) or isinstance(how, tuple):
            def dirn(h):
                return ("up" if h[1] >= 0 else "down") if isinstance(h, tuple) else h
            a, b = dirn(old), dirn(how)
            if isinstance(how, tuple) and how[1] == 0:
                b = a
            if isinstance(old, tuple) and old[1] == 0:
                a = b
            new = a if a == b else "any"
        else:
            new = old if old == how else "any"
        if new != old:
            info[loc] = new
            self.changed = True

    def s_CXXForRangeStmt(self, s, fr):
        self.stats["loops"].add(self.where(s))
        decls = [x for x in s.inner if x.kind == "DeclStmt"]
        rng = decls[0].inner[0]
        var = decls[-1].inner[0]
        body = s.inner[-1]
        v = self.ev(rng.inner[-1], fr)
        if isinstance(v, LV):
            v = v.get()
        if not isinstance(v, Vec):
            raise Undecided("range of %r" % (v,))
        byref = var.qtype.rstrip().endswith("&")
        try:
            if v.items is not None:
                for x in list(v.items):
                    fr.vars[var.get("id")] = self.refval(x) if byref else self.copyval(x.get(), var.type)
                    self.iterate(body, fr)
                return
            st = {}

            def bodyf():
                k = st["k"]
                lv = ElemLV(self, v, k, s)
                x = lv.get()
                self.log.append(("rangeelem", v, x, k, s))
                if byref:
                    # one element: reads through the reference agree
                    fr.vars[var.get("id")] = Ref(CachedElem(self, v, k, s, x)) if not isinstance(x, (Inst,)) else x
                else:
                    fr.vars[var.get("id")] = x
                self.iterate(body, fr)

            def test():
                k = self.fresh("i@" + self.at(s))
                st["k"] = k
                self.assume(k)
                if self.choose(2, "range") == 1:
                    return False
                self.assume(self.norm(v.size) - 1 - k)
                return True
            self.generic(s, test, bodyf, lambda: None, None, fr)
        except Brk:
            return

    def refval(self, x):
        v = x.get()
        return v if isinstance(v, (Vec, Inst, Eng, Dist, Thr)) else Ref(x)

    def s_CXXTryStmt(self, s, fr):
        lk, fl = self.locks, fr.locks
        try:
            self.stmt(s.inner[0], fr)
        except Throw as e:
            self.locks, fr.locks = lk, fl
            for c in s.inner[1:]:
                var = c.inner[0] if c.inner and c.inner[0].kind == "VarDecl" else None
                if var is None or self.catches(var.type, e.kind):
                    un = [t for t in self.threads if not t.joined]
                    if un and self.thread is None and self.leftscope(un, fr):
                        self.fault("threads", s, "an exception leaves a function while threads it started are not joined")
                    if var is not None:
                        fr.vars[var.get("id")] = Opaque("exc:" + e.kind)
                    self.curexc.append(e.kind)
                    if self.thread is not None or e.kind == "system_error":
                        self.failed_worker = True
                    try:
                        self.stmt(c.inner[-1], fr)
                    finally:
                        self.curexc.pop()
                    return
            raise

    def leftscope(self, un, fr):
        return any(getattr(t, "depth", 0) > self.depth for t in un)

    def catches(self, ty, kind):
        t = re.sub(r"const |&|std::", "", ty).strip()
        t = t.split("::")[-1]
        return t == kind or t in EXC_BASE.get(kind, ("exception",))

    def s_SwitchStmt(self, s, fr):
        raise Undecided("switch")

    # ------------------------------------------------------------ expressions
    def rv(self, n, fr):
        v = self.ev(n, fr)
        if isinstance(v, LV):
            v = v.get()
        return v

    def ev(self, n, fr):
        k = n.kind
        while k in SKIP:
            if not n.inner:
                return Opaque("default")
            n = n.inner[-1]
            k = n.kind
        self.cur = n
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Undecided("C++ construct %s" % k)
        return m(n, fr)

    def e_IntegerLiteral(self, n, fr):
        return P_(int(n.get("value")))

    e_CharacterLiteral = e_IntegerLiteral

    def e_FloatingLiteral(self, n, fr):
        return Dbl(("c", float(n.get("value"))))

    def e_CXXBoolLiteralExpr(self, n, fr):
        return bool(n.get("value"))

    def e_StringLiteral(self, n, fr):
        v = n.get("value")
        import json
        try:
            return Str(json.loads(v))
        except Exception:
            return Str(v.strip('"'))

    def e_CXXNullPtrLiteralExpr(self, n, fr):
        return None

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n, fr):
        t = fr.getthis()
        if t is None:
            raise Undecided("this")
        return t

    def e_DeclRefExpr(self, n, fr):
        rd = n.get("referencedDecl") or {}
        kd, nm = rd.get("kind"), rd.get("name")
        if kd == "EnumConstantDecl":
            if nm in NPT:
                return P_(NPT[nm])
            raise Undecided("enumerator %s" % nm)
        if kd in ("FunctionDecl", "CXXMethodDecl"):
            return Opaque("fn:" + nm)
        if nm and nm.startswith("PyExc_"):
            return ValLV(Opaque(nm))
        if nm == "_Py_NoneStruct":
            return ValLV(self.none)
        f = fr.find(rd.get("id"))
        if f is None:
            g = self.byid.get(rd.get("id"))
            if g is not None and g.kind == "VarDecl":
                if "const" in g.qtype and g.inner and g.parent is None or g.get("constexpr"):
                    return self.ev(g.inner[-1], Fr())
                return GlobLV(self, g)
            if nm and (nm.endswith("_Type") or nm.startswith("_Py")):
                return ValLV(Opaque(nm))
            raise Undecided("variable %s" % nm)
        v = f.vars[rd.get("id")]
        if isinstance(v, Ref):
            return v.lv
        return VarLV(self, f, rd.get("id"), nm)

    def cast(self, n, fr):
        ck = n.get("castKind")
        x = n.inner[-1]
        if ck == "LValueToRValue":
            v = self.ev(x, fr)
            if isinstance(v, LV):
                v = v.get()
            if v is UNDEF:
                self.fault("uninit", n, "an uninitialised variable is read")
                raise PathEnd()
            return v
        v = self.ev(x, fr)
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase"):
            return v
        if ck == "ToVoid":
            return None
        if ck == "UserDefinedConversion":
            return v
        if ck == "ArrayToPointerDecay":
            y = v.get() if isinstance(v, LV) else v
            return Ptr(y) if isinstance(y, Vec) else y
        if isinstance(v, LV):
            v = v.get()
        if ck in ("BitCast", "LValueBitCast", "IntegralToPointer", "PointerToIntegral", "BaseToDerived"):
            return v
        if ck == "NullToPointer":
            return None
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.truth(v)
        if ck == "IntegralCast":
            if n.type.replace("const ", "") in ("bool", "_Bool"):
                return self.truth(v)
            return self.wrap(self.num(v), n.type, n, x.type)
        if ck == "IntegralToFloating":
            return self.dbl(v)
        if ck == "FloatingCast":
            return self.dbl(v)
        if ck == "FloatingToIntegral":
            d = self.dbl(v)
            if d.t[0] == "c" and d.t[1] == d.t[1] and abs(d.t[1]) < 2 ** 53:
                return P_(int(d.t[1]))
            if d.t[0] == "i":
                return self.wrap(d.t[1], n.type, n)
            s = sym("int%r" % (tstr(d.t),))
            self.__dict__.setdefault("intterms", {})["int%r" % (tstr(d.t),)] = d.t
            b = bits(n.type)
            lo, hi = self.drange(d.t)
            if lo > -2.0 ** 62:
                self.assume(s - int(lo))
            elif b and not b[1]:
                self.assume(s)
            if hi < 2.0 ** 62:
                self.assume(P_(int(hi)) - s)
            return s
        raise Undecided("conversion %s" % ck)

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = cast

    def e_CXXFunctionalCastExpr(self, n, fr):
        return self.cast(n, fr)

    def e_UnaryOperator(self, n, fr):
        op = n.get("opcode")
        x = n.inner[0]
        if op == "&":
            v = self.ev(x, fr)
            if isinstance(v, MemLV):
                return v.p
            if isinstance(v, ElemLV):
                s = tsize(v.v.elem)
                if s is None:
                    raise Undecided("address of an element")
                return Ptr(v.v, v.i * s)
            if isinstance(v, DimLV):
                return v
            return v
        if op == "*":
            v = self.rv(x, fr)
            return self.deref(v, n.type, n)
        if op in ("++", "--"):
            lv = self.ev(x, fr)
            if not isinstance(lv, LV):
                raise Undecided("increment")
            old = lv.get()
            d = 1 if op == "++" else -1
            new = self.advance(old, P_(d), x.type, n)
            if isinstance(new, P):
                new = self.ovf(new, n.type, n)
            lv.set(new)
            return old if n.get("isPostfix") else lv
        v = self.rv(x, fr)
        if op == "!":
            return not self.truth(v)
        if op == "-":
            if isinstance(v, Dbl):
                return self.dop("-", v)
            r = -self.num(v)
            return self.wrap(r, n.type, n) if bits(n.type) and not bits(n.type)[1] else r
        if op == "+":
            return v
        if op == "~" and self.num(v).const() is not None:
            return self.wrap(P_(~self.num(v).const()), n.type, n)
        raise Undecided("operator %s" % op)

    def advance(self, old, d, ty, n):
        if isinstance(old, Ptr):
            s = tsize(ty.replace("const ", "").rstrip()[:-1].strip())
            if s is None:
                raise Undecided("pointer arithmetic")
            return Ptr(old.o, old.off + d * s)
        if isinstance(old, It):
            return It(old.v, old.off + d)
        if isinstance(old, Dbl):
            return self.dop("+", old, self.dbl(d))
        return self.num(old) + d

    def deref(self, v, ty, n):
        if isinstance(v, LV):
            return v
        if isinstance(v, It):
            self.inside(v.v, v.off, n)
            return ElemLV(self, v.v, v.off, n)
        if isinstance(v, (Ptr, DimPtr)):
            return MemLV(self, v, tsize(ty), ty, n)
        if isinstance(v, (Inst, Vec, Obj)):
            return v
        if isinstance(v, Opaque):
            return v
        self.live(v, n, "dereferenced")
        raise Undecided("dereference")

    def ovf(self, p, ty, n):
        """result of arithmetic in type ty"""
        b = bits(ty)
        p = self.norm(p)
        if b is None or p.const() is not None:
            return self.wrap(p, ty, n) if b else p
        w, sg = b
        if w == 64 and any(".strides[" in q for q in p.syms()):
            # address arithmetic is modular
            return p
        if not sg:
            if w == 64:
                return p if self.ge0(p) else self.wrap(p, ty, n)
            return self.wrap(p, ty, n)
        if w == 32:
            lo, hi = -2 ** 31, 2 ** 31 - 1
            if not (self.ge0(p - lo) and self.ge0(P_(hi) - p)):
                if any(x in self.sumsym for x in p.syms()):
                    if self.attained(self.facts, p - lo) or self.attained(self.facts, P_(hi) - p):
                        self.fault("overflow", n, "32-bit arithmetic overflows")
                elif not any(s.startswith("?") for s in p.syms()):
                    self.oblige("overflow", n, [p - lo, P_(hi) - p], "32-bit arithmetic overflows")
                s = self.facts
                try:
                    self.assume(p - lo)
                    self.assume(P_(hi) - p)
                except PathEnd:
                    raise
        return p

    def e_BinaryOperator(self, n, fr):
        op = n.get("opcode")
        a, b = n.inner
        if op == "&&":
            return self.truth(self.ev(a, fr)) and self.truth(self.ev(b, fr))
        if op == "||":
            return self.truth(self.ev(a, fr)) or self.truth(self.ev(b, fr))
        if op == ",":
            self.ev(a, fr)
            return self.ev(b, fr)
        if op == "=":
            v = self.ev(b, fr)
            if isinstance(v, LV):
                v = v.get()
            lv = self.ev(a, fr)
            if not isinstance(lv, LV):
                raise Undecided("assignment")
            self.cur = n
            lv.set(v)
            return lv
        return self.arith(op, self.rv(a, fr), self.rv(b, fr), n, a.type, b.type)

    def arith(self, op, x, y, n, ta="", tb=""):
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(op, x, y, n)
        if isinstance(x, (Ptr, It, DimPtr)) or isinstance(y, (Ptr, It, DimPtr)):
            return self.parith(op, x, y, n, ta, tb)
        if isinstance(x, Dbl) or isinstance(y, Dbl) or n.type in ("double", "float", "const double"):
            return self.dop(op, self.dbl(x), self.dbl(y))
        x, y = self.num(x), self.num(y)
        ty = n.type
        if op == "+":
            return self.ovf(x + y, ty, n)
        if op == "-":
            return self.ovf(x - y, ty, n)
        if op == "*":
            return self.ovf(x * y, ty, n)
        if op in "/%":
            q, r = self.divmod_(x, y, n)
            return q if op == "/" else r
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            return P_({"&": cx & cy, "|": cx | cy, "^": cx ^ cy, "<<": cx << cy, ">>": cx >> cy}[op])
        if op == "<<" and cy is not None:
            return self.ovf(x * (1 << cy), ty, n)
        if op == ">>" and cy is not None and self.ge0(x):
            return self.divmod_(x, P_(1 << cy), n)[0]
        if op == "&" and cy is not None and cy >= 0 or op == "&" and cx is not None and cx >= 0:
            s = self.fresh("and@" + self.at(n), True)
            self.assume(s)
            self.assume(P_(cy if cy is not None else cx) - s)
            return s
        return self.fresh("bits@" + self.at(n), True)

    def parith(self, op, x, y, n, ta, tb):
        if isinstance(x, P) or isinstance(x, bool):
            x, y, ta, tb = y, x, tb, ta
        if isinstance(y, (P, bool)):
            d = self.num(y)
            if op == "-":
                d = -d
            if isinstance(x, DimPtr):
                return DimLV(self, x.arr, d, x.stride, n)
            if isinstance(x, It):
                return It(x.v, x.off + d)
            s = tsize(ta.replace("const ", "").rstrip()[:-1].strip())
            if s is None:
                raise Undecided("pointer arithmetic on %s" % ta)
            return Ptr(x.o, x.off + d * s)
        if isinstance(x, It) and isinstance(y, It) and x.v is y.v and op == "-":
            return self.norm(x.off - y.off)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o and op == "-":
            s = tsize(ta.replace("const ", "").rstrip()[:-1].strip())
            r = self.exact(self.norm(x.off - y.off), s or 1)
            if r is not None:
                return r
        raise Undecided("pointer arithmetic")

    def compare(self, op, x, y, n):
        if isinstance(x, Dbl) or isinstance(y, Dbl):
            return self.dcmp(op, self.dbl(x), self.dbl(y))
        if isinstance(x, (P, bool)) and isinstance(y, (P, bool)):
            return self.cmp(op, self.num(x), self.num(y))
        if isinstance(x, It) and isinstance(y, It) and x.v is y.v:
            return self.cmp(op, x.off, y.off)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o:
            return self.cmp(op, x.off, y.off)
        if op in ("==", "!="):
            if x is None or y is None:
                same = x is y
                o = y if x is None else x
                if isinstance(o, Slot):
                    same = self.choose(2, "null") == 1
                return same == (op == "==")
            if x is y:
                return op == "=="
            if isinstance(x, Obj) and isinstance(y, Obj):
                if x.kind == "none" or y.kind == "none" or x.kind == "any" or y.kind == "any":
                    return (self.choose(2, "same object") == 0) == (op == "==")
                return op == "!="
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                return self.choose(2, "opaque") == 0
        raise Undecided("comparison of %r and %r" % (x, y))

    def e_CompoundAssignOperator(self, n, fr):
        op = n.get("opcode")[:-1]
        v = self.rv(n.inner[1], fr)
        lv = self.ev(n.inner[0], fr)
        if not isinstance(lv, LV):
            raise Undecided("assignment")
        old = lv.get()
        r = self.arith(op, old, v, n, n.inner[0].type, n.inner[1].type)
        self.cur = n
        lv.set(r)
        return lv

    def e_ConditionalOperator(self, n, fr):
        return self.ev(n.inner[1] if self.truth(self.ev(n.inner[0], fr)) else n.inner[2], fr)

    def e_ArraySubscriptExpr(self, n, fr):
        b = self.rv(n.inner[0], fr)
        i = self.num(self.rv(n.inner[1], fr))
        if isinstance(b, DimPtr):
            return DimLV(self, b.arr, i, b.stride, n)
        if isinstance(b, DimLV):
            return DimLV(self, b.arr, b.i + i, b.stride, n)
        if isinstance(b, Ptr):
            s = tsize(n.type)
            if s is None:
                raise Undecided("subscript of %s" % n.type)
            return MemLV(self, Ptr(b.o, b.off + i * s), s, n.type, n)
        if isinstance(b, It):
            self.inside(b.v, b.off + i, n)
            return ElemLV(self, b.v, b.off + i, n)
        if b is None or b is UNDEF:
            self.live(b, n)
        raise Undecided("subscript of %r" % (b,))

    def e_UnaryExprOrTypeTraitExpr(self, n, fr):
        ty = (n.get("argType") or {}).get("qualType") or (n.inner[0].type if n.inner else "")
        s = tsize(ty)
        if n.name == "sizeof" and s:
            return P_(s)
        raise Undecided("sizeof %s" % ty)

    def e_InitListExpr(self, n, fr):
        vs = [self.rv(x, fr) for x in n.inner]
        m = re.search(r"(.*)\[(\d+)\]", n.type)
        if m:
            v = Vec(self.vsite(n), P_(int(m.group(2))), m.group(1).strip(), [ValLV(x) for x in vs], None, self.thread)
            return v
        if len(vs) == 1:
            return vs[0]
        return tuple(vs)

    def e_CXXScalarValueInitExpr(self, n, fr):
        return self.zero(n.type)

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_CXXDefaultInitExpr(self, n, fr):
        raise Undecided("default member initialiser")

    def e_LambdaExpr(self, n, fr):
        rec = [x for x in n.inner if x.kind == "CXXRecordDecl"][0]
        body = n.inner[-1]
        fields = [x for x in rec.inner if x.kind == "FieldDecl"]
        caps = [x for x in n.inner[1:-1]]
        cf = Fr(None, fr.getthis(), self.thread)
        byref = []
        for f, c in zip(fields, caps):
            c0 = c
            while c0.kind in SKIP | {"ImplicitCastExpr", "CXXConstructExpr", "ParenListExpr"} and c0.inner:
                c0 = c0.inner[-1]
            if c0.kind == "CXXThisExpr":
                continue
            if c0.kind != "DeclRefExpr":
                raise Undecided("capture")
            rd = c0.get("referencedDecl") or {}
            i = rd.get("id")
            src = fr.find(i)
            if src is None:
                raise Undecided("capture of %s" % rd.get("name"))
            if f.qtype.rstrip().endswith("&"):
                byref.append((rd.get("name"), src, i))
                v = src.vars[i]
                cf.vars[i] = v if isinstance(v, (Ref, Vec, Inst, Eng)) else Ref(VarLV(self, src, i, rd.get("name")))
                if isinstance(v, (Vec, Inst, Eng)):
                    cf.vars[i] = Ref(VarLV(self, src, i, rd.get("name")))
            else:
                v = src.vars[i]
                if isinstance(v, Ref):
                    v = v.lv.get()
                cf.vars[i] = self.copyvec(v) if isinstance(v, Vec) else v
        return Clo(n, body, cf, None, byref)

    def callclo(self, c, args):
        fr = Fr(c.frame, None, self.thread)
        rec = [x for x in c.node.inner if x.kind == "CXXRecordDecl"][0]
        op = [x for x in rec.walk() if x.kind == "CXXMethodDecl" and x.name == "operator()"][0]
        ps = [x for x in op.inner if x.kind == "ParmVarDecl"]
        for p, a in zip(ps, args):
            fr.vars[p.get("id")] = self.bind(p, a)
            if isinstance(fr.vars[p.get("id")], LV):
                fr.vars[p.get("id")] = Ref(fr.vars[p.get("id")])
        self.depth += 1
        try:
            self.stmt(c.body, fr)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            fr.alive = False
            self.locks -= fr.locks

    # ------------------------------------------------------------ members and constructors
    def e_MemberExpr(self, n, fr):
        o = self.ev(n.inner[0], fr)
        if isinstance(o, LV):
            o = o.get()
        nm = n.name
        bt = n.inner[0].type
        if isinstance(o, Slot) or o is None and "unique_ptr" in bt:
            o = self.heap(o, n)
        if nm in ("dimensions", "strides", "data", "nd", "descr", "flags", "base") and ("PyArrayObject" in bt or "tagPyArrayObject" in bt):
            a = self.array(o, n)
            if nm == "dimensions":
                return DimPtr(a)
            if nm == "strides":
                return DimPtr(a, True)
            if nm == "data":
                return Ptr(a)
            if nm == "nd":
                return a.ndim if isinstance(a.ndim, P) else P_(a.ndim) if a.ndim is not None else self.setnd(a)
            if nm == "descr":
                return DescrOf(a)
            raise Undecided("array member %s" % nm)
        if isinstance(o, DescrOf) and nm in ("elsize", "type_num"):
            if nm == "elsize":
                return self.isize(o.arr)
            return P_(o.arr.dtype) if o.arr.dtype is not None else sym("type(%s)" % o.arr.name)
        if isinstance(o, Inst):
            if isinstance(o.f.get(nm), Ref):
                return o.f[nm].lv
            return FieldLV(self, o, nm, n.type)
        if o is None or o is UNDEF:
            self.live(o, n)
        if isinstance(o, tuple) and nm in ("first", "second"):
            return ValLV(o[0 if nm == "first" else 1])
        raise Undecided("member %s of %r" % (nm, o))

    def e_CXXConstructExpr(self, n, fr):
        ty = n.type.replace("const ", "").strip()
        real = [x for x in n.inner if x.kind != "CXXDefaultArgExpr"]
        if "std::thread" in ty and not "vector" in ty or ty == "thread":
            if not real:
                return Thr(None, -1)
            v = self.rv(real[0], fr)
            if isinstance(v, Thr):
                return v
            args = [self.ev(x, fr) for x in real[1:]]
            if isinstance(v, Clo):
                self.inject(n, "system_error")
                self.stats["threads"].add(self.where(n))
                t = Thr(v, len(self.threads))
                t.args = args
                t.depth = self.depth
                t.node = n
                self.addthread(t)
                self.log.append(("start", t.n, n))
                return t
            raise Undecided("thread of %r" % (v,))
        if "lock_guard" in ty or "unique_lock" in ty or "scoped_lock" in ty:
            for x in real:
                self.ev(x, fr)
            self.locks += 1
            fr.locks += 1
            return Opaque("lock")
        if "vector<" in ty:
            return self.cvec(n, ty, real, fr)
        if "uniform_int_distribution" in ty:
            vs = [self.rv(x, fr) for x in real]
            if len(vs) == 1 and isinstance(vs[0], Dist):
                return Dist(vs[0].lo, vs[0].hi)
            lo = self.num(vs[0]) if vs else ZERO
            hi = self.num(vs[1]) if len(vs) > 1 else P_(2 ** 64 - 1)
            return Dist(lo, hi)
        if "mersenne" in ty or "mt19937" in ty or "linear_congruential" in ty or "random_engine" in ty:
            vs = [self.ev(x, fr) for x in real]
            vs = [x.get() if isinstance(x, LV) else x for x in vs]
            if len(vs) == 1 and isinstance(vs[0], Eng):
                e = Eng(vs[0].seed, n, self.thread, fr)
                e.copied = True
                return e
            e = Eng(self.num(vs[0]) if vs and isinstance(vs[0], (P, bool)) else P_(5489) if not vs else None, n, self.thread, fr)
            e.raw = vs
            self.log.append(("eng", e, n, self.norm(e.seed) if e.seed is not None else None))
            e.loops = tuple(x[2] for x in self.log if x[0] == "iter")
            return e
        if "random_device" in ty:
            return Opaque("random_device")
        if "unique_ptr" in ty or "shared_ptr" in ty:
            if not real:
                return None
            v = self.rv(real[0], fr)
            return v
        if "exception_ptr" in ty:
            return self.rv(real[0], fr) if real else Opaque("noexc")
        if "mutex" in ty:
            return Opaque("mutex")
        if "tuple<" in ty or "pair<" in ty:
            vs = [self.rv(x, fr) for x in real]
            return vs[0] if len(vs) == 1 and isinstance(vs[0], tuple) else tuple(vs)
        if "normal_iterator" in ty or ty.endswith("iterator"):
            return self.rv(real[0], fr)
        m = re.search(r"(?:^|::)(\w+)$", ty)
        if m and m.group(1) in self.records:
            if len(real) == 1:
                v = self.ev(real[0], fr)
                if isinstance(v, LV):
                    v = v.get()
                if isinstance(v, Inst) and v.cls == m.group(1):
                    return v
            return self.construct(m.group(1), [self.ev(x, fr) for x in real], n, ctor=n)
        if len(real) == 1:
            return self.rv(real[0], fr)
        raise Undecided("construction of %s" % ty)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def cvec(self, n, ty, real, fr):
        if not real:
            return self.newvec(n, ty, ZERO, None, fr)
        vs = [self.ev(x, fr) for x in real]
        vs = [x.get() if isinstance(x, LV) else x for x in vs]
        if len(vs) == 1 and isinstance(vs[0], Vec):
            return vs[0] if strip(real[0]).kind in ("CallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") else self.copyvec(vs[0])
        if len(vs) >= 2 and isinstance(vs[0], (Ptr, It)) and isinstance(vs[1], (Ptr, It)):
            return self.rangevec(n, ty, vs[0], vs[1], real[0].type)
        if isinstance(vs[0], (P, bool)):
            size = self.num(vs[0])
            if not self.ge0(size):
                size = self.wrap(size, "unsigned long", n)
            self.alloc(n, size)
            fillv = vs[1] if len(vs) > 1 else None
            return self.newvec(n, ty, size, fillv)
        if isinstance(vs[0], Dbl):
            raise Undecided("vector from a double")
        raise Undecided("vector construction")

    def rangevec(self, n, ty, a, b, pty):
        if isinstance(a, It):
            cnt = self.norm(b.off - a.off)
            v = self.newvec(n, ty, cnt)
            v.items = None
            self.alloc(n, cnt)
            if bits(v.elem) is not None:
                if a.v.perm and a.off == ZERO and self.norm(b.off - a.v.size) == ZERO:
                    v.perm = True
                else:
                    old = list(self.facts)
                    x = self.elem(a.v, a.off)
                    self.summ_store(self.elems, self.cls_of(v.site), x)
                    self.facts = old
            return v
        s = tsize(pty.replace("const ", "").rstrip()[:-1].strip()) or 8
        cnt = self.exact(self.norm(b.off - a.off), s)
        if cnt is None or a.o is not b.o:
            raise Undecided("vector from pointers")
        self.alloc(n, cnt)
        c = cnt.const()
        if c == 0:
            return self.newvec(n, ty, ZERO)
        # first and last element are in range (offsets between follow for contiguous data)
        self.load(a, s, "double", n, False)
        self.load(Ptr(b.o, b.off - s), s, "double", n, False)
        v = self.newvec(n, ty, cnt)
        v.items = None
        return v

    def construct(self, cls, args, n, ctor=None, heap=False):
        rec = self.records.get(cls)
        o = Inst(cls, "%s@%s" % (cls, self.at(n)), self.thread)
        cs = [x for x in rec.inner if x.kind == "CXXConstructorDecl"]
        best = None
        for c in cs:
            if c.get("isImplicit") and len(args) == 1:
                continue
            ps = [x for x in c.inner if x.kind == "ParmVarDecl"]
            need = len([p for p in ps if not p.inner])
            if need <= len(args) <= len(ps):
                best = c
                break
        if best is None:
            if args:
                raise Undecided("constructor of %s" % cls)
        else:
            d = best if self.body(best) is not None else self.defs.get((best.name, best.qtype))
            if d is not None and not isinstance(d, list) and self.body(d) is not None:
                # implicit conversions of forwarded arguments
                ps = [x for x in best.inner if x.kind == "ParmVarDecl"]
                args = self.defaults(best, args)
                cv = []
                for a, p in zip(args, ps):
                    v = a.get() if isinstance(a, LV) else a
                    if isinstance(v, (P, bool)) and bits(p.type):
                        v = self.wrap(self.num(v), p.type, n)
                        cv.append(v)
                    elif isinstance(v, (P, bool)) and p.type.replace("const ", "") == "double":
                        cv.append(self.dbl(v))
                    else:
                        cv.append(a)
                self.call(d, cv, o, None, n)
        if heap:
            o.heap = n
        self.log.append(("new", cls, o, n, args, self.snap()))
        return o

    def e_CXXNewExpr(self, n, fr):
        ty = n.type.rstrip("*").strip()
        m = re.search(r"(?:^|::)(\w+)$", ty)
        if m and m.group(1) in self.records:
            c = [x for x in n.inner if x.kind == "CXXConstructExpr"]
            args = [self.ev(x, fr) for x in (c[0].inner if c else [])]
            return self.construct(m.group(1), args, n, heap=True)
        if n.get("isArray"):
            cnt = self.num(self.rv(n.inner[0], fr))
            s = tsize(ty)
            if s:
                self.alloc(n, cnt)
                return Ptr(Buf("buffer@" + self.at(n), cnt * s))
        raise Undecided("new %s" % ty)

    def e_CXXDeleteExpr(self, n, fr):
        v = self.rv(n.inner[0], fr)
        if isinstance(v, Ptr) and isinstance(v.o, Buf):
            if v.o.freed:
                self.fault("released", n, "freed twice")
            v.o.freed = True
        return None

    def e_CXXThrowExpr(self, n, fr):
        if not n.inner:
            raise Throw(self.curexc[-1] if self.curexc else "exception")
        m = re.search(r"(\w+)$", n.inner[0].type.replace("const ", "").strip())
        for x in n.inner[0].walk():
            pass
        raise Throw(m.group(1) if m else "exception")

    def e_CXXNoexceptExpr(self, n, fr):
        return True

    def opname(self, n):
        c = strip(n.inner[0])
        return (c.get("referencedDecl") or {}).get("name", ""), c

    def e_CXXOperatorCallExpr(self, n, fr):
        nm, c = self.opname(n)
        args = n.inner[1:]
        op = nm[8:]
        d = self.define(c.get("referencedDecl"))
        if op == "()":
            f = self.ev(args[0], fr)
            if isinstance(f, LV):
                f = f.get()
            av = [self.ev(x, fr) for x in args[1:]]
            if isinstance(f, Clo):
                return self.callclo(f, av)
            return self.draw(n, f, av)
        a = self.ev(args[0], fr)
        if op == "[]":
            v = a.get() if isinstance(a, LV) else a
            i = self.num(self.rv(args[1], fr))
            if isinstance(v, Vec):
                self.inside(v, i, n)
                return ElemLV(self, v, i, n)
            if isinstance(v, It):
                self.inside(v.v, v.off + i, n)
                return ElemLV(self, v.v, v.off + i, n)
            raise Undecided("operator[] of %r" % (v,))
        if op == "=":
            v = self.ev(args[1], fr)
            if isinstance(v, LV):
                v = v.get()
            if isinstance(a, Vec):
                # vector assignment keeps the identity of the target
                if isinstance(v, Vec):
                    a.size, a.items, a.perm, a.sampleof = v.size, v.items, v.perm, v.sampleof
                    if bits(a.elem) is not None and a.site != v.site:
                        self.unite(a.site, v.site)
                    self.wrote(("vec", a.tag, "content"), a.thread, n)
                    return a
            if isinstance(a, LV):
                if isinstance(a, ElemLV):
                    self.inside(a.v, a.i, n)
                self.cur = n
                if isinstance(a, TieLV):
                    a.set(v)
                    return a
                if isinstance(v, Dist):
                    v = Dist(v.lo, v.hi)
                if isinstance(v, Vec):
                    ov = a.get()
                    if isinstance(ov, Vec):
                        if bits(ov.elem) is not None:
                            self.unite(ov.site, v.site)
                        ov.size, ov.items, ov.perm, ov.sampleof = v.size, v.items, v.perm, v.sampleof
                        self.wrote(("vec", ov.tag, "content"), ov.thread, n)
                        return a
                a.set(v)
                return a
            if isinstance(a, (Eng,)) and isinstance(v, Eng):
                a.seed, a.node, a.loops = v.seed, v.node, v.loops
                return a
            if isinstance(a, Dist) and isinstance(v, Dist):
                a.lo, a.hi = v.lo, v.hi
                return a
            if isinstance(a, Thr) and isinstance(v, Thr):
                raise Undecided("assignment of a thread through a reference")
            raise Undecided("assignment to %r" % (a,))
        if op == "->" or op == "*" and len(args) == 1:
            v = a.get() if isinstance(a, LV) else a
            if isinstance(v, It):
                self.inside(v.v, v.off, n)
                lv = ElemLV(self, v.v, v.off, n)
                return self.refval(lv) if False else lv
            return self.heap(a, n)
        if op in ("++", "--"):
            old = a.get() if isinstance(a, LV) else a
            new = self.advance(old, P_(1 if op == "++" else -1), "", n)
            if isinstance(a, LV):
                a.set(new)
            return old if len(args) > 1 else a
        if op == "+=" or op == "-=":
            old = a.get() if isinstance(a, LV) else a
            k = self.num(self.rv(args[1], fr))
            new = self.advance(old, k if op == "+=" else -k, "", n)
            a.set(new)
            return a
        if op in ("+", "-", "==", "!=", "<", "<=", ">", ">="):
            x = a.get() if isinstance(a, LV) else a
            y = self.rv(args[1], fr)
            return self.arith(op, x, y, n)
        if op == " bool":
            return self.truth(a)
        raise Undecided("operator%s" % op)

    def draw(self, n, f, av):
        vs = [x.get() if isinstance(x, LV) else x for x in av]
        if isinstance(f, Eng):
            self.uses(f, n)
            s = self.fresh("draw@" + self.at(n))
            self.assume(s)
            return s
        if isinstance(f, Opaque) and f.name == "random_device":
            self.log.append(("entropy", n))
            s = self.fresh("entropy@" + self.at(n))
            self.assume(s)
            return s
        if isinstance(f, Dist) and vs and isinstance(vs[0], Eng):
            self.uses(vs[0], n)
            lo, hi = self.norm(f.lo), self.norm(f.hi)
            if not self.ge0(hi - lo):
                self.oblige("range", n, [hi - lo], "random draw from an empty range")
            s = self.fresh("draw@" + self.at(n))
            self.assume(s - lo)
            self.assume(hi - s)
            self.log.append(("uniform", s, lo, hi, n))
            return s
        if isinstance(f, Opaque) and f.name.startswith("dist"):
            if vs and isinstance(vs[0], Eng):
                self.uses(vs[0], n)
            return self.fresh_d()
        raise Undecided("call of %r" % (f,))

    def uses(self, e, n):
        self.log.append(("draw", e, n))
        if self.thread is not None and e.thread != self.thread:
            self.wrote(("engine", self.at(e.node) if e.node is not None else "member"), e.thread, n)

    # ------------------------------------------------------------ calls
    def callee(self, n):
        c = strip(n.inner[0])
        if c.kind == "DeclRefExpr":
            return (c.get("referencedDecl") or {}).get("name"), c
        for x in c.walk():
            if x.kind == "ArraySubscriptExpr" and strip(x.inner[0]).kind == "DeclRefExpr" and \
                    (strip(x.inner[0]).get("referencedDecl") or {}).get("name") == "PyArray_API":
                i = strip(x.inner[1])
                if i.kind == "IntegerLiteral":
                    return api_names().get(int(i.get("value"))), c
        return None, c

    def e_CXXMemberCallExpr(self, n, fr):
        m = strip(n.inner[0])
        args = n.inner[1:]
        if m.kind != "MemberExpr":
            raise Undecided("member call")
        nm = m.name
        o = self.ev(m.inner[0], fr)
        olv = o
        if isinstance(o, LV):
            o = o.get()
        rd = self.byid.get(m.get("referencedMemberDecl"))
        if rd is not None and rd.kind == "CXXMethodDecl":
            d = rd if self.body(rd) is not None else self.defs.get((rd.name, rd.qtype))
            if d is not None and not isinstance(d, list):
                av = self.defaults(rd, [self.ev(x, fr) for x in args])
                if isinstance(o, Slot) or o is None:
                    o = self.heap(olv, n)
                h = self.hooks.get(nm)
                if h is not None:
                    r = h(self, n, o, av)
                    if r is not NotImplemented:
                        return r
                return self.call(d, av, o, None, n)
        if isinstance(o, Vec):
            return self.vmethod(n, o, nm, args, fr, olv)
        if isinstance(o, Thr):
            return self.tmethod(n, o, nm)
        if isinstance(o, Opaque):
            if nm in ("lock", "unlock"):
                self.locks += 1 if nm == "lock" else -1
                return None
            if nm.startswith("operator"):
                return self.truth(o)
            if nm == "what":
                return Opaque("text")
            if nm in ("load", "fetch_add", "store", "exchange"):
                raise Undecided("atomic operation")
            return Opaque("value")
        if isinstance(o, Eng):
            if nm == "seed":
                v = self.rv(args[0], fr) if args else P_(5489)
                o.seed = self.num(v)
                o.loops = tuple(x[2] for x in self.log if x[0] == "iter")
                o.node = n
                o.copied = False
                self.log.append(("eng", o, n, o.seed))
                if self.thread is not None and o.thread != self.thread:
                    self.wrote(("engine", "member"), o.thread, n)
                return None
            if nm == "discard":
                self.uses(o, n)
                return None
        if isinstance(o, Dist):
            if nm in ("reset",):
                return None
            if nm in ("min", "a"):
                return o.lo
            if nm in ("max", "b"):
                return o.hi
        if isinstance(o, (Inst, Slot)) or o is None:
            if nm == "get":
                return self.heap(olv, n) if o is not None else None
            if nm == "reset":
                v = self.rv(args[0], fr) if args else None
                olv.set(v)
                return None
            if nm == "release":
                return o
            if nm.startswith("operator"):
                return self.truth(o) if not isinstance(o, Slot) else True
        raise Undecided("member function %s of %r" % (nm, o))

    def tmethod(self, n, o, nm):
        if nm == "joinable":
            return not o.joined
        if nm == "join":
            if o.joined:
                # joining a thread that never started raises
                self.fault("threads", n, "a thread that is not running is joined")
                raise PathEnd()
            o.joined = True
            if self.gil and self.config.get("gilwait", True):
                pass
            self.runthread(o, n)
            self.failed_joined = self.failed_worker
            return None
        if nm == "detach":
            self.fault("threads", n, "a worker thread is detached: nothing waits for its results")
            o.joined = True
            return None
        raise Undecided("thread operation %s" % nm)

    def addthread(self, t):
        t.late = self.failed_joined
        self.threads.append(t)

    def runthread(self, t, n):
        old = (self.thread, self.gil, self.locks, self.stack)
        self.thread, self.gil, self.locks, self.stack = t.n, False, 0, []
        self.curthr = t
        self.log.append(("run", t.n, n))
        try:
            c = t.clo
            self.callclo(c, getattr(t, "args", []))
        except Throw as e:
            self.fault("threads", t.node, "an exception (%s) leaves a worker thread, which ends the process" % e.kind)
            raise PathEnd()
        finally:
            self.thread, self.gil, self.locks, self.stack = old
            self.curthr = None

    def vmethod(self, n, o, nm, args, fr, olv):
        if nm in ("size", "length"):
            return self.norm(o.size)
        if nm == "empty":
            return self.cmp("==", o.size, ZERO)
        if nm in ("capacity",):
            s = self.fresh("cap")
            self.assume(s - self.norm(o.size))
            return s
        if nm == "reserve":
            self.alloc(n, self.num(self.rv(args[0], fr)))
            return None
        if nm == "shrink_to_fit":
            return None
        if nm in ("push_back", "emplace_back"):
            if nm == "emplace_back" and "thread" in o.elem:
                v = self.ev(args[0], fr)
                v = v.get() if isinstance(v, LV) else v
                if isinstance(v, Clo):
                    self.inject(n, "system_error")
                    t = Thr(v, len(self.threads))
                    t.args = [self.ev(x, fr) for x in args[1:]]
                    t.depth, t.node = self.depth, n
                    self.addthread(t)
                    self.log.append(("start", t.n, n))
                    v = t
            else:
                v = self.ev(args[0], fr) if args else self.zero(o.elem)
                v = v.get() if isinstance(v, LV) else v
            self.wrote(("vec", o.tag, "size"), o.thread, n)
            self.log.append(("push", o, v, n, self.snap()))
            if isinstance(v, Inst):
                self.heapobjs.append(v)
            if bits(o.elem) is not None:
                self.summ_store(self.elems, self.cls_of(o.site), self.num(v))
            o.perm = False
            if o.items is not None:
                o.items.append(ValLV(v))
            o.size = self.norm(o.size) + 1
            return None
        if nm == "clear":
            self.wrote(("vec", o.tag, "size"), o.thread, n)
            o.size, o.items, o.perm, o.sampleof = ZERO, [], False, None
            self.log.append(("vecop", nm, o, n))
            return None
        if nm in ("resize", "assign") and not (len(args) > 1 and nm == "assign" and not bits(args[0].type)):
            self.wrote(("vec", o.tag, "content"), o.thread, n)
            self.log.append(("vecop", nm, o, n))
            k = self.num(self.rv(args[0], fr))
            if not self.ge0(k):
                k = self.wrap(k, "unsigned long", n)
            self.alloc(n, k)
            v = self.rv(args[1], fr) if len(args) > 1 else None
            was0 = self.norm(o.size).const() == 0
            if nm == "resize" and o.perm and not was0:
                # a prefix of a permutation is no longer all of it
                o.perm = False
                o.sampleof = o.sampleof or ("prefix", n)
            o.size = k
            o.items = None
            if o.size.const() is not None and o.size.const() <= 64 and (was0 or nm == "assign"):
                o.items = [ValLV(v if v is not None else self.zero(o.elem)) for _ in range(o.size.const())]
            if bits(o.elem) is not None:
                self.fill(o, v if v is not None else ZERO)
            return None
        if nm == "assign" and len(args) == 2:
            a, b = (self.ev(x, fr) for x in args)
            a, b = (x.get() if isinstance(x, LV) else x for x in (a, b))
            x = self.rangevec(n, "std::vector<%s>" % o.elem, a, b, args[0].type)
            self.wrote(("vec", o.tag, "content"), o.thread, n)
            self.log.append(("vecop", nm, o, n))
            self.unite(x.site, o.site)
            o.size, o.items, o.perm, o.sampleof = x.size, None, x.perm, None
            return None
        if nm in ("begin", "cbegin"):
            return It(o, ZERO)
        if nm in ("end", "cend"):
            return It(o, self.norm(o.size), True)
        if nm == "data":
            return Ptr(o)
        if nm == "at":
            i = self.num(self.rv(args[0], fr))
            ok = self.ge0(i) and self.ge0(self.norm(o.size) - 1 - i)
            if not ok:
                k = self.choose(2, "at")
                if k == 1:
                    raise Throw("out_of_range")
                self.assume(i)
                self.assume(self.norm(o.size) - 1 - i)
            return ElemLV(self, o, i, n)
        if nm in ("front", "back"):
            i = ZERO if nm == "front" else self.norm(o.size) - 1
            self.inside(o, i, n)
            return ElemLV(self, o, i, n)
        if nm == "pop_back":
            self.inside(o, ZERO, n)
            self.wrote(("vec", o.tag, "size"), o.thread, n)
            self.log.append(("vecop", nm, o, n))
            o.size = self.norm(o.size) - 1
            if o.items:
                o.items.pop()
            o.perm = False
            return None
        if nm in ("erase", "insert", "swap"):
            raise Undecided("vector %s" % nm)
        raise Undecided("vector member %s" % nm)

    def e_CallExpr(self, n, fr):
        name, c = self.callee(n)
        args = n.inner[1:]
        if name is None:
            f = self.rv(n.inner[0], fr)
            if isinstance(f, Clo):
                return self.callclo(f, [self.ev(x, fr) for x in args])
            raise Undecided("indirect call")
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, n, None, args, fr)
            if r is not NotImplemented:
                return r
        if c.kind == "DeclRefExpr":
            d = self.define(c.get("referencedDecl"))
            if d is not None:
                rd = self.byid.get((c.get("referencedDecl") or {}).get("id")) or d
                return self.call(d, self.defaults(rd, [self.ev(x, fr) for x in args]), None, None, n)
        from . import capi
        f = capi.CALLS.get(name)
        if f is None:
            raise Undecided("call of %s" % name)
        self.cur = n
        return f(self, n, args, fr)


class Ref:
    """a reference variable"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class CachedElem(ElemLV):
    def __init__(self, m, v, i, node, x):
        ElemLV.__init__(self, m, v, i, node)
        self.x = x

    def get(self):
        return self.x

    def set(self, x):
        ElemLV.set(self, x)
        self.x = x


class GlobLV(LV):
    def __init__(self, m, g):
        self.m, self.g = m, g

    def get(self):
        g = self.g
        if g.inner and "const" in g.qtype:
            return self.m.ev(g.inner[-1], Fr())
        self.m.log.append(("globalread", g.name, self.m.cur))
        raise Undecided("global variable %s" % g.name)

    def set(self, v):
        self.m.log.append(("globalwrite", self.g.name, self.m.cur))
        self.m.wrote(("global", self.g.name), None, self.m.cur)


class TieLV(LV):
    def __init__(self, parts):
        self.parts = parts

    def get(self):
        return tuple(p.get() if isinstance(p, LV) else p for p in self.parts)

    def set(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.parts):
            raise Undecided("tie")
        for p, x in zip(self.parts, v):
            if isinstance(p, LV):
                p.set(x)


def tstr(t):
    if isinstance(t, tuple):
        return "(" + " ".join(tstr(x) for x in t) + ")"
    return repr(t) if not isinstance(t, str) else t
