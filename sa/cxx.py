"""C++ front end of the value-graph interpreter: evaluates the type-checked clang syntax
tree of the native sources over the same abstract domain as the Python front end."""
import glob
import os
import re
from . import terms as t
from .terms import T, ZERO, ONE, add, sub, mul, neg, div, const, ite, eq0, lt0, le0, notT
from .vals import *
from . import pyeval as pe, npmodel as npm
from . import clangast

_api = None
ENUM = {"NPY_BOOL": 0, "NPY_INT": 5, "NPY_LONG": 7, "NPY_LONGLONG": 9, "NPY_FLOAT": 11, "NPY_DOUBLE": 12, "NPY_FLOAT64": 12,
        "NPY_STRING": 18, "NPY_UNICODE": 19, "NPY_OBJECT": 17}


def api_names():
    """slot -> name of the numpy C-API table"""
    global _api
    if _api is None:
        _api = {}
        for inc in clangast.includes():
            p = os.path.join(inc, "numpy", "__multiarray_api.h")
            if os.path.exists(p):
                s = open(p).read()
                for m in re.finditer(r"#define\s+(Py\w+)\s*\\?\s*\n?(?:[^#]*?)PyArray_API\[(\d+)\]", s):
                    _api.setdefault(int(m.group(2)), m.group(1))
    return _api


_views = {}


def aid(o):
    """stable name of an array object"""
    if isinstance(o, Ref):
        return str(o.id)
    if o not in _views:
        _views[o] = "v%d" % len(_views)
    return _views[o]


class Ptr:
    """pointer into the data of an array: base cell, element offset, byte offset"""
    __slots__ = ("base", "off", "byte")

    def __init__(self, base, off=ZERO, byte=ZERO):
        self.base, self.off, self.byte = base, off, byte


class Strides:
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr


class Dims(Strides):
    __slots__ = ()


class It:
    """iterator into a sequence"""
    __slots__ = ("seq", "off", "end")

    def __init__(self, seq, off, end=False):
        self.seq, self.off, self.end = seq, off, end


class Closure:
    __slots__ = ("node", "fr", "this", "cx")


PYNONE = Ext("c.Py_None")


class LV:
    def get(self):
        raise NotImplementedError


class VarLV(LV):
    __slots__ = ("it", "key")

    def __init__(self, it, key):
        self.it, self.key = it, key

    def get(self):
        return self.it.getkey(self.key)

    def set(self, v):
        self.it.st[self.key] = v


class ElemLV(LV):
    __slots__ = ("cx", "o", "idx")

    def __init__(self, cx, o, idx):
        self.cx, self.o, self.idx = cx, o, idx

    def get(self):
        return self.cx.load(self.o, self.idx)

    def set(self, v):
        self.cx.store(self.o, self.idx, v)


class AttrLV(LV):
    __slots__ = ("it", "r", "name")

    def __init__(self, it, r, name):
        self.it, self.r, self.name = it, r, name

    def get(self):
        k = ("a", self.r.id, self.name)
        if k not in self.it.st:
            return UNDEF
        return self.it.getkey(k)

    def set(self, v):
        self.it.st[("a", self.r.id, self.name)] = v


class TieLV(LV):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def get(self):
        return tuple(p.get() for p in self.parts)

    def set(self, v):
        for p, x in zip(self.parts, v):
            p.set(x)


class ValLV(LV):
    """temporary"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


SKIP = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
        "CXXStdInitializerListExpr", "SubstNonTypeTemplateParmExpr", "FullExpr"}
INTT = re.compile(r"^(const |volatile )*(unsigned |signed )?(int|long|long long|short|char|unsigned|signed|size_t|npy_intp|Py_ssize_t|std::size_t|size_type|value_type|result_type|bool|std::ptrdiff_t|ptrdiff_t|(u?int(8|16|32|64)_t)|unsigned long|Py_intptr_t)( int)?( const)?( &)?$")


def strip(n):
    while n.kind in SKIP or n.kind in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr",
                                      "CXXConstCastExpr", "CXXFunctionalCastExpr"):
        if not n.inner:
            break
        n = n.inner[-1]
    return n


def is_int(n):
    ty = n.type
    if ty in ("double", "float", "long double", "const double", "const float"):
        return False
    if INTT.match(ty):
        return True
    return bool(INTT.match(n.qtype)) and "double" not in ty and "float" not in ty


def is_double(n):
    return n.type.replace("const ", "") in ("double", "long double")


class Cx:
    def __init__(self, it, unit):
        self.it, self.unit = it, unit
        self.byid = {}
        self.defs = {}
        self.records = {}
        self.hooks = {}
        self.fnseen = set()
        self.modframe = pe.Frame(None, None)
        self.modframe.keep = True
        self.globals = {}
        for d in unit.decls:
            self.index(d, None)

    def index(self, d, rec):
        for n in d.walk():
            i = n.get("id")
            if i:
                self.byid.setdefault(i, n)
        stack = [(d, rec)]
        while stack:
            n, rec = stack.pop()
            if n.kind in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
                if any(x.kind == "CompoundStmt" or x.kind == "CXXTryStmt" for x in n.inner):
                    self.defs.setdefault((n.name, n.qtype), n)
                    self.defs.setdefault(n.name, []).append(n)
            if n.kind == "CXXRecordDecl" and n.get("completeDefinition"):
                self.records[n.name] = n
            if n.kind == "VarDecl":
                self.globals[n.get("id")] = n
            if n.kind in ("NamespaceDecl", "LinkageSpecDecl", "CXXRecordDecl", "FunctionTemplateDecl", "ClassTemplateDecl"):
                for x in n.inner:
                    stack.append((x, n))

    def undecided(self, n, msg):
        self.it.curnode = n
        self.it.undecided(msg)

    # ------------------------------------------------------------ functions
    def define(self, ref):
        """definition node for a referencedDecl dict"""
        n = self.byid.get(ref.get("id"))
        qt = (ref.get("type") or {}).get("qualType")
        nm = ref.get("name")
        if n is not None and any(x.kind == "CompoundStmt" for x in n.inner):
            return n
        if n is not None or (nm, qt) in self.defs:
            d = self.defs.get((nm, qt))
            if d is not None and not isinstance(d, list):
                return d
        return None

    def call_fn(self, d, args, this=None, pfr=None):
        """args: list of LV or values, bound to the parameters"""
        it = self.it
        if it.depth > 60:
            self.undecided(d, "recursion")
        self.fnseen.add((d.file, d.line, d.name))
        fr = pe.Frame(pfr, None)
        fr.fn = this
        params = [x for x in d.inner if x.kind == "ParmVarDecl"]
        for i, p in enumerate(params):
            k = ("v", fr.fid, p.get("id"))
            if i < len(args):
                it.st[k] = self.pass_arg(p, args[i])
            elif p.inner:
                it.st[k] = self.ev(p.inner[-1], fr)
            else:
                self.undecided(d, "missing argument")
        body = [x for x in d.inner if x.kind == "CompoundStmt"][0]
        return self.run_body(body, fr, d)

    def pass_arg(self, p, a):
        ty = p.type
        if isinstance(a, LV):
            if ty.endswith("&") and "const" not in ty:
                v = a.get()
                if isinstance(v, Ref) and not isinstance(a, (AttrLV,)) and not ty.startswith("std::unique_ptr"):
                    return v
                return a
            a = a.get()
        if (ty.endswith("&") or ty.endswith("&&")):
            return a
        return self.convert(p, a)

    def convert(self, p, a):
        return a

    def run_body(self, body, fr, d):
        it = self.it
        of, on = it.curfile, it.curnode
        it.curfile = d.file
        it.depth += 1
        try:
            ab, live = self.stmt(body, fr)
            rets = [(c, s, v) for k, c, s, v in ab if k == "ret"]
            if live is not ZERO:
                rets.append((live, it.st, None))
            rs = [(c, v) for k, c, s, v in ab if k == "raise"]
            if not rets:
                raise AbsRaise(rs[0][1] if rs else "Exception", d)
            for c, v in rs:
                it.raises.append((mul(it.pcond(), c), v, it.curfile, d))
            c, s, v = rets[-1]
            acc_s, acc_v = s, v
            for c, s, v in reversed(rets[:-1]):
                ns = it.merge_store(c, s, acc_s)
                it.st = ns
                acc_v = it.merge_val(c, v, acc_v, s, acc_s)
                acc_s = it.st
            it.st = acc_s
            return acc_v
        finally:
            it.depth -= 1
            it.curfile, it.curnode = of, on

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        it = self.it
        ab = []
        live = ONE
        for s in stmts:
            r = self.stmt1(s, fr)
            a, l = r if r is not None else ((), ONE)
            for k, c, ss, v in a:
                ab.append((k, mul(live, c), ss, v))
            if l is not ONE and l is not ZERO and a:
                # the remainder runs under the residual condition
                live = mul(live, l)
                continue
            live = mul(live, l)
            if live is ZERO:
                break
        return ab, live

    def stmt1(self, s, fr):
        it = self.it
        it.curnode = s
        try:
            return self.stmt(s, fr)
        except AbsRaise as e:
            it.raises.append((it.pcond(), e.name, it.curfile, s))
            return [("raise", ONE, it.st, e.name)], ZERO

    def stmt(self, s, fr):
        it = self.it
        k = s.kind
        if k == "CompoundStmt":
            return self.block(s.inner, fr)
        if k == "DeclStmt":
            for d in s.inner:
                self.decl(d, fr)
            return None
        if k == "NullStmt":
            return None
        if k == "IfStmt":
            inner = list(s.inner)
            if s.get("hasInit"):
                self.stmt(inner.pop(0), fr)
            if s.get("hasVar"):
                self.stmt(inner.pop(0), fr)
            c = self.cond(inner[0], fr)
            th = inner[1]
            el = inner[2] if len(inner) > 2 else None
            return it.branch(c, lambda: self.block([th], fr), lambda: self.block([el], fr) if el is not None else ([], ONE))
        if k == "ReturnStmt":
            v = self.ev(s.inner[0], fr) if s.inner else None
            if isinstance(v, LV):
                v = v.get()
            return [("ret", ONE, it.st, v)], ZERO
        if k == "BreakStmt":
            return [("brk", ONE, it.st, None)], ZERO
        if k == "ContinueStmt":
            return [("cont", ONE, it.st, None)], ZERO
        if k == "ForStmt":
            return self.for_(s, fr)
        if k == "WhileStmt":
            return self.while_(s, fr)
        if k == "DoStmt":
            body, cnd = s.inner[0], s.inner[1]
            ab, live = self.block([body], fr)
            if any(x[0] in ("brk", "cont") for x in ab):
                self.undecided(s, "break in do-while")
            a2, l2 = it.loop_sym(None, lambda k: None, lambda: self.block([body], fr), None, fr, test=lambda: self.cond(cnd, fr))
            return list(ab) + [(q, mul(live, c), ss, v) for q, c, ss, v in a2], mul(live, l2)
        if k == "CXXForRangeStmt":
            return self.range_for(s, fr)
        if k == "CXXTryStmt":
            # C++ exceptions (allocation failures) are outside the value analysis; see the path rules
            return self.block([s.inner[0]], fr)
        if k in ("SwitchStmt", "GotoStmt", "LabelStmt"):
            self.undecided(s, "statement %s" % k)
        self.ev(s, fr)
        return None

    def decl(self, d, fr):
        it = self.it
        if d.kind != "VarDecl":
            return
        key = ("v", fr.fid, d.get("id"))
        ty = d.type
        if not d.inner or (d.get("init") is None):
            it.st[key] = self.default(d, ty)
            return
        x = d.inner[-1]
        if ty.endswith("&") and not ty.endswith("&&"):
            lv = self.lv(x, fr)
            v = lv.get()
            it.st[key] = v if isinstance(v, Ref) and not isinstance(lv, AttrLV) else (lv if "const" not in ty or not isinstance(v, (T, BT, bool)) else v)
            return
        v = self.rv(x, fr)
        it.st[key] = v

    def default(self, d, ty):
        it = self.it
        if self.is_vec(ty):
            return it.alloc(PyList([]))
        if ty.startswith("std::unique_ptr") or ty.endswith("*"):
            return None
        m = re.match(r"^(.*)\[(\d+)\]$", ty)
        if m:
            u = pe.fresh_id()
            return it.alloc(Arr((const(int(m.group(2))),), lambda i: t.fn("uninit", ("s", u), *i), "f", "list"))
        if INTT.match(ty) or ty in ("double", "float"):
            return t.fn("uninit", ("s", pe.fresh_id()))
        return it.alloc(Inst(ty))

    def is_vec(self, ty):
        ty = ty.replace("const ", "")
        return ty.startswith("std::vector<") or ty.startswith("vector<") or ty.startswith("std::array<")

    def assigned(self, n):
        """ids of variables written inside n"""
        out = set()
        for x in n.walk():
            if x.kind in ("BinaryOperator", "CompoundAssignOperator") and (x.get("opcode") or "").endswith("=") and x.get("opcode") not in ("==", "!=", "<=", ">="):
                r = strip(x.inner[0])
            elif x.kind == "UnaryOperator" and x.get("opcode") in ("++", "--", "&"):
                r = strip(x.inner[0])
            elif x.kind == "CXXMemberCallExpr" and x.inner and x.inner[0].kind == "MemberExpr":
                if x.inner[0].name in ("size", "begin", "end", "at", "front", "back", "data", "empty", "capacity", "get"):
                    continue
                r = strip(x.inner[0].inner[0])
            elif x.kind == "CXXOperatorCallExpr":
                op = self.opname(x)
                if op not in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator++", "operator--"):
                    continue
                r = strip(x.inner[1])
            elif x.kind == "CallExpr":
                # arguments bound to non-const references
                for a in x.inner[1:]:
                    b = a
                    if b.kind == "DeclRefExpr" and b.get("valueCategory") == "lvalue":
                        out.add(b.get("referencedDecl", {}).get("id"))
                continue
            else:
                continue
            while r.kind in ("ArraySubscriptExpr", "MemberExpr") and r.inner:
                if r.kind == "ArraySubscriptExpr":
                    r = None
                    break
                r = strip(r.inner[0])
            if r is not None and r.kind == "DeclRefExpr":
                out.add(r.get("referencedDecl", {}).get("id"))
        return out

    def for_(self, s, fr):
        it = self.it
        kids = s.d.get("inner", [])
        # clang keeps empty slots: init, condvar, cond, inc, body
        slots = []
        j = 0
        for x in kids:
            if x:
                slots.append(s.inner[j])
                j += 1
            else:
                slots.append(None)
        init, _, cnd, inc, body = slots
        if init is not None:
            self.stmt(init, fr)
        c = self.canonical(init, cnd, inc, body, fr)
        if c is not None:
            lo, n, step, key = c
            if t.sign(n) not in ("pos", "nonneg", "zero"):
                n = t.maxT(n, ZERO)

            def setv(v):
                it.st[key] = v
            r = it.run_for(IterV(n=n, item=lambda k: add(lo, mul(step, k))), setv, lambda: self.block([body], fr), None, fr)
            return r

        def body_():
            ab, live = self.block([body], fr)
            conts = [(cc, ss) for q, cc, ss, v in ab if q == "cont"]
            other = [x for x in ab if x[0] != "cont"]
            sts = ([(live, it.st)] if live is not ZERO else []) + conts
            if not sts:
                return other, ZERO
            l, it.st = it.merge_many(sts)
            if inc is not None:
                self.ev(inc, fr)
            return other, l
        return it.loop_sym(None, lambda k: None, body_, None, fr, test=lambda: self.cond(cnd, fr) if cnd is not None else ONE)

    def canonical(self, init, cnd, inc, body, fr):
        it = self.it
        if init is None or cnd is None or inc is None or init.kind != "DeclStmt" or not init.inner:
            if init is None or cnd is None or inc is None or init.kind != "BinaryOperator":
                return None
            v0 = strip(init.inner[0])
            if v0.kind != "DeclRefExpr":
                return None
            return None
        var = init.inner[0]
        vid = var.get("id")
        if not is_int(var):
            return None
        b = strip(cnd)
        if b.kind != "BinaryOperator" or b.get("opcode") not in ("<", "<=", "!=", ">", ">="):
            return None
        l, r = b.inner
        op = b.get("opcode")
        sl = strip(l)
        sr = strip(r)
        if not (sl.kind == "DeclRefExpr" and sl.get("referencedDecl", {}).get("id") == vid):
            if sr.kind == "DeclRefExpr" and sr.get("referencedDecl", {}).get("id") == vid:
                l, r = r, l
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
            else:
                return None
        step = None
        i = strip(inc)
        if i.kind == "UnaryOperator" and i.get("opcode") in ("++", "--"):
            step = 1 if i.get("opcode") == "++" else -1
        elif i.kind == "CompoundAssignOperator" and i.get("opcode") in ("+=", "-="):
            q = strip(i.inner[1])
            if q.kind == "IntegerLiteral":
                step = int(q.get("value")) * (1 if i.get("opcode") == "+=" else -1)
        if step is None:
            return None
        tg = strip(i.inner[0])
        if tg.kind != "DeclRefExpr" or tg.get("referencedDecl", {}).get("id") != vid:
            return None
        wr = self.assigned(body)
        if vid in wr:
            return None
        for x in r.walk():
            if x.kind == "DeclRefExpr" and x.get("referencedDecl", {}).get("id") in wr:
                return None
            if x.kind == "CXXThisExpr":
                pass
        lo = it.num(it.getkey(("v", fr.fid, vid)))
        hi = it.num(self.rv(r, fr))
        if step > 0:
            if op == "<=":
                hi = add(hi, ONE)
            elif op == "!=" and step != 1:
                return None
            elif op in (">", ">="):
                return None
            d = sub(hi, lo)
        else:
            if op == ">=":
                hi = sub(hi, ONE)
            elif op == "!=" and step != -1:
                return None
            elif op in ("<", "<="):
                return None
            d = sub(lo, hi)
        a = abs(step)
        n = d if a == 1 else npm.fdiv(add(d, const(a - 1)), const(a))
        return lo, n, const(step), ("v", fr.fid, vid)

    def while_(self, s, fr):
        it = self.it
        inner = list(s.inner)
        if s.get("hasVar"):
            self.stmt(inner.pop(0), fr)
        cnd, body = inner[0], inner[1]
        # while ((item = PyIter_Next(iter))) ...
        b = strip(cnd)
        if b.kind == "BinaryOperator" and b.get("opcode") in ("!=",):
            b2 = strip(b.inner[0])
            if b2.kind == "BinaryOperator" and b2.get("opcode") == "=":
                b = b2
        if b.kind == "BinaryOperator" and b.get("opcode") == "=":
            call = strip(b.inner[1])
            if call.kind == "CallExpr" and self.callee(call)[0] == "PyIter_Next":
                itv = self.rv(call.inner[1], fr)
                lv = self.lv(b.inner[0], fr)
                if isinstance(itv, It):
                    r = it.run_for(itv.seq, lambda v: lv.set(v), lambda: self.block([body], fr), None, fr)
                    lv.set(None)
                    return r
        return it.loop_sym(None, lambda k: None, lambda: self.block([body], fr), None, fr, test=lambda: self.cond(cnd, fr))

    def range_for(self, s, fr):
        it = self.it
        decls = [x for x in s.inner if x.kind == "DeclStmt"]
        rng = [d for x in decls for d in x.inner if (d.name or "").startswith("__range")][0]
        var = decls[-1].inner[0]
        body = s.inner[-1]
        seq = self.rv(rng.inner[-1], fr)
        key = ("v", fr.fid, var.get("id"))
        byref = var.type.endswith("&") and "const" not in var.type
        if isinstance(seq, LV):
            seq = seq.get()
        if byref:
            n = self.size(seq)
            wr = self.assigned(body)
            writes = var.get("id") in wr
            if writes:
                return it.run_for(IterV(n=n, item=lambda k: k), lambda k: it.st.__setitem__(key, ElemLV(self, seq, (k,))),
                                  lambda: self.block([body], fr), None, fr)
        return it.run_for(seq, lambda v: it.st.__setitem__(key, v), lambda: self.block([body], fr), None, fr)

    # ------------------------------------------------------------ data
    def size(self, o):
        it = self.it
        if isinstance(o, (Ref, View)):
            c = it.content(o) if isinstance(o, Ref) else None
            if isinstance(c, PyList):
                return const(len(c.items))
            a = it.arr(o)
            if a is not None:
                return a.shape[0]
        if isinstance(o, tuple):
            return const(len(o))
        if isinstance(o, IterV):
            return o.n if o.n is not None else const(len(o.items))
        it.undecided("size of %r" % (o,))

    def index_of(self, p, extra):
        """index tuple of the element a pointer denotes"""
        it = self.it
        a = it.arr(p.base)
        off = add(p.off, extra)
        nd = a.ndim
        if p.byte is not ZERO:
            ats = {}
            for d in range(nd):
                ats[d] = t.as_atom(self.stride(p.base, d))
            z = {x.id: ZERO for x in ats.values()}
            c0 = t.subst(p.byte, z)
            if c0 is not ZERO:
                it.undecided("byte offset that is no multiple of the strides: %s for base %s" % (t.show(p.byte), aid(p.base)))
            idx = []
            for d in range(nd):
                m = dict(z)
                m[ats[d].id] = ONE
                idx.append(t.subst(p.byte, m))
            # a stride of a dimension the array does not have
            rest = t.subst(p.byte, {ats[d].id: ZERO for d in ats})
            for aid in p.byte.deps if hasattr(p.byte, "deps") else ():
                pass
            if nd == 1 and off is not ZERO:
                idx[0] = add(idx[0], off)
            elif off is not ZERO:
                idx[-1] = add(idx[-1], off)
            return tuple(idx)
        if nd == 0:
            return ()
        if nd == 1:
            return (off,)
        return npm.unflat(off, a.shape, "C")

    def stride(self, base, d):
        return t.sym("stride.%s.%d" % (aid(base), d), isint=True, pos=True)

    def load(self, o, idx):
        it = self.it
        if isinstance(o, CondV):
            return it.map_cond(o, lambda x: self.load(x, idx))
        if isinstance(o, Poison):
            raise NeedCarry(o.key)
        if isinstance(o, Ptr):
            ix = self.index_of(o, idx[0])
            self.note_access(o, ix, "read")
            return it.arr(o.base).get(ix)
        if isinstance(o, Strides):
            k = t.cval(idx[0])
            if isinstance(o, Dims):
                a = it.arr(o.arr)
                if k is None or not 0 <= k < a.ndim:
                    raise AbsRaise("MemoryError", it.curnode)
                return a.shape[int(k)]
            return self.stride(o.arr, int(k))
        if isinstance(o, tuple):
            k = t.cval(idx[0])
            return o[int(k)]
        if isinstance(o, LV):
            return self.load(o.get(), idx)
        if isinstance(o, Ref):
            c = it.content(o)
            if isinstance(c, PyList):
                k = t.cval(idx[0])
                if k is not None and not 0 <= k < len(c.items):
                    raise AbsRaise("MemoryError", it.curnode)
                return it.pick(c.items, idx[0])
            if isinstance(c, pe.AppMark):
                raise pe.NeedCarryList(c.key)
        a = it.arr(o)
        if a is None:
            it.undecided("subscript of %r" % (o,))
        return a.get(idx)

    def store(self, o, idx, v):
        it = self.it
        if isinstance(o, Ptr):
            ix = self.index_of(o, idx[0])
            self.note_access(o, ix, "write")
            return self.put(o.base, ix, v)
        if isinstance(o, LV):
            return self.store(o.get(), idx, v)
        return self.put(o, idx, v)

    def put(self, ref, idx, v):
        it = self.it
        if isinstance(ref, View):
            return npm.setitem(it, ref, idx if len(idx) > 1 else idx[0], v)
        c = it.content(ref)
        if isinstance(c, PyList):
            return npm.setitem(it, ref, idx[0], v)
        if not isinstance(c, Arr):
            it.undecided("store into %r" % (c,))
        k = [t.sub(i, j) for i, j in zip(idx, idx)]

        def g(b):
            cnd = ONE
            for i, j in zip(b, idx):
                cnd = mul(cnd, eq0(sub(i, j)))
            return it.merge_val(cnd, v, c.get(b), it.st, it.st) if not (isinstance(v, T)) else ite(cnd, v, it.num(c.get(b)))
        it.st[("h", ref.id)] = Arr(c.shape, g, c.dt, c.kind)

    def note_access(self, p, ix, how):
        it = self.it
        acc = getattr(it, "accesses", None)
        if acc is not None:
            acc.append((p.base, ix, how, it.pcond(), it.curfile, it.curnode))

    # ------------------------------------------------------------ lvalues
    def lv(self, n, fr):
        it = self.it
        while n.kind in SKIP or (n.kind in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr") and n.get("castKind") in ("NoOp", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase")):
            n = n.inner[-1]
        k = n.kind
        if k == "DeclRefExpr":
            rd = n.get("referencedDecl") or {}
            key = self.varkey(rd, fr, n)
            v = it.getkey(key)
            if isinstance(v, LV):
                return v
            return VarLV(it, key)
        if k == "ArraySubscriptExpr":
            o = self.rv(n.inner[0], fr)
            i = it.num(self.rv(n.inner[1], fr))
            return ElemLV(self, o, (i,))
        if k == "UnaryOperator" and n.get("opcode") == "*":
            p = self.rv(n.inner[0], fr)
            if isinstance(p, LV):
                return p
            if isinstance(p, It):
                return ElemLV(self, p.seq, (p.off,))
            if isinstance(p, Ref):
                return ValLV(p)
            return ElemLV(self, p, (ZERO,))
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            self.ev(n, fr)
            return self.lv(n.inner[0], fr)
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n.get("opcode") or "").endswith("="):
            self.ev(n, fr)
            return self.lv(n.inner[0], fr)
        if k == "MemberExpr":
            o = self.rv(n.inner[0], fr) if n.get("isArrow") else self.rv(n.inner[0], fr)
            if isinstance(o, LV):
                o = o.get()
            if isinstance(o, Ref) and isinstance(it.content(o), Inst):
                lv = AttrLV(it, o, n.name)
                v = lv.get()
                return v if isinstance(v, LV) else lv
            return ValLV(self.member(n, o, fr))
        if k == "CXXOperatorCallExpr":
            op = self.opname(n)
            if op == "operator[]":
                o = self.rv(n.inner[1], fr)
                i = it.num(self.rv(n.inner[2], fr))
                return ElemLV(self, o, (i,))
            if op in ("operator*",):
                p = self.rv(n.inner[1], fr)
                if isinstance(p, It):
                    return ElemLV(self, p.seq, (p.off,))
                if isinstance(p, LV):
                    return p
                return ValLV(p)
        if k == "CXXMemberCallExpr":
            m = strip(n.inner[0])
            if m.kind == "MemberExpr" and m.name in ("at", "front", "back"):
                o = self.rv(m.inner[0], fr)
                if m.name == "at":
                    return ElemLV(self, o, (it.num(self.rv(n.inner[1], fr)),))
                return ElemLV(self, o, (ZERO if m.name == "front" else sub(self.size(o), ONE),))
        if k == "CallExpr":
            name, _ = self.callee(n)
            if name == "tie":
                return TieLV([self.lv(x, fr) for x in n.inner[1:]])
            if name == "get" and len(n.inner) == 2:
                v = self.ev(n, fr)
                return ValLV(v)
        if k == "ConditionalOperator":
            return ValLV(self.ev(n, fr))
        v = self.ev(n, fr)
        return v if isinstance(v, LV) else ValLV(v)

    def varkey(self, rd, fr, n):
        it = self.it
        i = rd.get("id")
        f = fr
        while f is not None:
            k = ("v", f.fid, i)
            if k in it.st:
                return k
            f = f.parent
        k = ("v", self.modframe.fid, i)
        if k in it.st:
            return k
        d = self.byid.get(i)
        if d is not None and d.kind == "VarDecl":
            it.st[k] = self.rv(d.inner[-1], self.modframe) if d.inner and d.get("init") else self.default(d, d.type)
            return k
        it.curnode = n
        it.undecided("unknown variable %s" % rd.get("name"))

    def rv(self, n, fr):
        v = self.ev(n, fr)
        if isinstance(v, LV):
            v = v.get()
        if isinstance(v, Poison):
            raise NeedCarry(v.key)
        return v

    # ------------------------------------------------------------ expressions
    def cond(self, n, fr):
        return self.truth(self.rv(n, fr))

    def truth(self, v):
        it = self.it
        if v is None:
            return ZERO
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if isinstance(v, BT):
            return v.t
        if isinstance(v, T):
            if pe._isbool01(v):
                return v
            return notT(eq0(v))
        if isinstance(v, CondV):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Poison):
            raise NeedCarry(v.key)
        if isinstance(v, LV):
            return self.truth(v.get())
        return ONE

    def ev(self, n, fr):
        it = self.it
        it.nodes += 1
        k = n.kind
        if k in SKIP:
            return self.ev(n.inner[-1], fr)
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.undecided(n, "C++ expression %s" % k)
        it.curnode = n
        return m(n, fr)

    def e_IntegerLiteral(self, n, fr):
        return const(int(n.get("value")))

    def e_CharacterLiteral(self, n, fr):
        return const(int(n.get("value")))

    def e_FloatingLiteral(self, n, fr):
        # the source spelling is the exact decimal; clang prints the shortest round-trip form
        s = n.get("value")
        src = self.spelling(n)
        from fractions import Fraction
        from decimal import Decimal
        try:
            if src is not None:
                return const(Fraction(Decimal(src)))
        except Exception:
            pass
        return const(Fraction(Decimal(str(float(s)))))

    def spelling(self, n):
        b = (n.d.get("range") or {}).get("begin") or {}
        if "offset" not in b or "tokLen" not in b:
            return None
        f = n.file
        self.unit.line(f, 0)
        data = self.unit.files.get(f)
        if data is None:
            return None
        s = data[b["offset"]:b["offset"] + b["tokLen"]].decode(errors="replace").replace("'", "")
        return s.rstrip("fFlL") if re.match(r"^[0-9.]", s) else None

    def e_CXXBoolLiteralExpr(self, n, fr):
        return bool(n.get("value"))

    def e_StringLiteral(self, n, fr):
        v = n.get("value")
        import json
        try:
            return json.loads(v)
        except Exception:
            return v.strip('"')

    def e_CXXNullPtrLiteralExpr(self, n, fr):
        return None

    def e_GNUNullExpr(self, n, fr):
        return None

    def e_CXXThisExpr(self, n, fr):
        f = fr
        while f is not None:
            if f.fn is not None:
                return f.fn
            f = f.parent
        self.undecided(n, "this")

    def e_DeclRefExpr(self, n, fr):
        rd = n.get("referencedDecl") or {}
        kd = rd.get("kind")
        if kd == "EnumConstantDecl":
            nm = rd.get("name")
            return const(ENUM[nm]) if nm in ENUM else t.fn("enum", ("s", nm))
        if kd in ("FunctionDecl", "CXXMethodDecl"):
            return Ext("c." + rd.get("name"))
        if rd.get("name", "").startswith("PyExc_"):
            return rd["name"][6:]
        if rd.get("name") == "_Py_NoneStruct":
            return ValLV(PYNONE)
        if rd.get("name") == "PyArray_API":
            return Ext("c.PyArray_API")
        return self.lv(n, fr)

    def cast(self, n, fr):
        it = self.it
        ck = n.get("castKind")
        x = n.inner[-1]
        if ck == "LValueToRValue":
            v = self.rv(x, fr)
            if isinstance(v, Undef):
                self.undecided(n, "uninitialised member")
            return v
        if ck in ("ToVoid",):
            self.ev(x, fr)
            return None
        v = self.ev(x, fr)
        if ck == "FloatingToIntegral":
            return npm.truncT(it.num(self.val(v)))
        if ck == "FloatingCast":
            src = x.type.replace("const ", "")
            dst = n.type.replace("const ", "")
            if dst == "float" and src != "float":
                y = it.num(self.val(v))
                c = t.cval(y)
                if c is not None and float(c) == c and abs(c) < 2 ** 20 and c.denominator <= 2 ** 20:
                    return y
                return t.fn("f32", y)
            return self.val(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return mkbool(self.truth(self.val(v)))
        if ck == "NullToPointer":
            return None
        if ck in ("BitCast", "NoOp", "IntegralCast", "IntegralToFloating", "FunctionToPointerDecay", "ArrayToPointerDecay",
                  "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "BuiltinFnToFnPtr",
                  "LValueBitCast", "BaseToDerived", "IntegralToPointer", "PointerToIntegral"):
            if ck == "IntegralToFloating" and n.type.replace("const ", "") == "float":
                return t.fn("f32", it.num(self.val(v)))
            if ck == "IntegralCast":
                v = self.val(v)
                dst = n.type.replace("const ", "")
                if dst in ("bool", "_Bool"):
                    return mkbool(self.truth(v))
                if isinstance(v, (BT, bool)):
                    return it.num(v)
            return v
        self.undecided(n, "cast %s" % ck)

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = cast
    e_CXXFunctionalCastExpr = cast

    def val(self, v):
        if isinstance(v, LV):
            v = v.get()
        if isinstance(v, Poison):
            raise NeedCarry(v.key)
        return v

    def e_UnaryOperator(self, n, fr):
        it = self.it
        op = n.get("opcode")
        x = n.inner[0]
        if op == "&":
            lv = self.lv(x, fr)
            return lv
        if op == "*":
            return self.lv(n, fr)
        if op in ("++", "--"):
            lv = self.lv(x, fr)
            old = lv.get()
            d = ONE if op == "++" else neg(ONE)
            if isinstance(old, It):
                new = It(old.seq, add(old.off, d))
            elif isinstance(old, Ptr):
                new = Ptr(old.base, add(old.off, d), old.byte)
            else:
                new = add(it.num(old), d)
            lv.set(new)
            return old if n.get("isPostfix") else lv
        v = self.rv(x, fr)
        if op == "-":
            return neg(it.num(v))
        if op == "+":
            return it.num(v)
        if op == "!":
            return mkbool(notT(self.truth(v)))
        self.undecided(n, "operator %s" % op)

    def e_BinaryOperator(self, n, fr):
        it = self.it
        op = n.get("opcode")
        a, b = n.inner
        if op == "=":
            v = self.rv(b, fr)
            lv = self.lv(a, fr)
            lv.set(v)
            return lv
        if op == ",":
            self.ev(a, fr)
            return self.ev(b, fr)
        if op in ("&&", "||"):
            x = self.cond(a, fr)
            if op == "&&":
                if x is ZERO:
                    return False
                y = self.guarded(x, b, fr)
                return mkbool(mul(x, y))
            if x is ONE:
                return True
            y = self.guarded(notT(x), b, fr)
            return mkbool(sub(add(x, y), mul(x, y)))
        x = self.rv(a, fr)
        y = self.rv(b, fr)
        return self.arith(op, x, y, n)

    def guarded(self, c, b, fr):
        it = self.it
        if c is ONE:
            return self.cond(b, fr)
        base = it.st
        it.st = dict(base)
        it.pc.append(c)
        try:
            y = self.cond(b, fr)
        except AbsRaise as e:
            it.raises.append((it.pcond(), e.name, it.curfile, it.curnode))
            it.st = base
            return ZERO
        finally:
            it.pc.pop()
        it.st = it.merge_store(c, it.st, base)
        return y

    def arith(self, op, x, y, n):
        it = self.it
        if op in ("<", ">", "<=", ">=") and isinstance(x, T) and isinstance(y, T) and is_int(n.inner[0]) and is_int(n.inner[1]):
            # array extents are assumed to fit an int
            if t.cval(y) is not None and t.cval(y) >= 2147483647 and t.cval(x) is None:
                return op in ("<", "<=")
            if t.cval(x) is not None and t.cval(x) >= 2147483647 and t.cval(y) is None:
                return op in (">", ">=")
        if isinstance(x, CondV):
            return it.map_cond(x, lambda v: self.arith(op, v, y, n))
        if isinstance(y, CondV):
            return it.map_cond(y, lambda v: self.arith(op, x, v, n))
        if op in ("==", "!="):
            if not (isinstance(x, (T, BT, bool)) and isinstance(y, (T, BT, bool))):
                if x is None or y is None:
                    e = x is None and y is None
                elif isinstance(x, It) and isinstance(y, It):
                    return mkbool(eq0(sub(x.off, y.off)) if op == "==" else notT(eq0(sub(x.off, y.off))))
                elif isinstance(x, Ptr) and isinstance(y, Ptr):
                    self.undecided(n, "pointer comparison")
                else:
                    e = x is y or (isinstance(x, str) and x == y)
                return e if op == "==" else not e
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(y, Ptr) and op == "+":
                x, y = y, x
            if isinstance(y, Ptr):
                if op == "-" and x.base is y.base:
                    return sub(x.off, y.off)
                self.undecided(n, "pointer arithmetic")
            d = it.num(y)
            if op == "-":
                d = neg(d)
            ty = n.type.replace("const ", "")
            if ty in ("char *", "void *", "unsigned char *"):
                # byte arithmetic with explicit strides
                ats = [a for m in d.num for a, _ in m if t.ATOMS[a].kind == "fn" and t.ATOMS[a].args[0] == "stride"]
                if ats:
                    return Ptr(x.base, x.off, add(x.byte, d))
                return Ptr(x.base, x.off, add(x.byte, d))
            return Ptr(x.base, add(x.off, d), x.byte)
        if isinstance(x, It):
            if isinstance(y, It) and op == "-":
                return sub(x.off, y.off)
            d = it.num(y)
            return It(x.seq, add(x.off, d if op == "+" else neg(d)))
        if isinstance(x, LV) or isinstance(y, LV):
            x, y = self.val(x), self.val(y)
        a, b = it.num(x), it.num(y)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if is_int(n):
                return npm.truncT(div(a, b))
            return div(a, b)
        if op == "%":
            return sub(a, mul(b, npm.truncT(div(a, b))))
        if op == "<":
            return mkbool(lt0(sub(a, b)))
        if op == ">":
            return mkbool(lt0(sub(b, a)))
        if op == "<=":
            return mkbool(le0(sub(a, b)))
        if op == ">=":
            return mkbool(le0(sub(b, a)))
        if op == "==":
            return mkbool(eq0(sub(a, b)))
        if op == "!=":
            return mkbool(notT(eq0(sub(a, b))))
        if op in ("&", "|") and pe._isbool01(a) and pe._isbool01(b):
            return mkbool(mul(a, b) if op == "&" else sub(add(a, b), mul(a, b)))
        if op in ("&", "|", "^", "<<", ">>"):
            return t.fn("bit", ("s", op), a, b, isint=True)
        self.undecided(n, "operator %s" % op)

    def e_CompoundAssignOperator(self, n, fr):
        op = n.get("opcode")[:-1]
        y = self.rv(n.inner[1], fr)
        lv = self.lv(n.inner[0], fr)
        x = lv.get()
        # integer division only if the computation type is integral
        ct = (n.get("computeResultType") or {}).get("qualType", "")
        v = self.arith(op, x, y, n) if not (op == "/" and ct in ("double", "float")) else div(self.it.num(x), self.it.num(y))
        if is_int(n) and ct in ("double", "float"):
            v = npm.truncT(v)
        lv.set(v)
        return lv

    def e_ConditionalOperator(self, n, fr):
        it = self.it
        c = self.cond(n.inner[0], fr)
        if c is ONE:
            return self.rv(n.inner[1], fr)
        if c is ZERO:
            return self.rv(n.inner[2], fr)
        base = it.st
        it.st = dict(base)
        it.pc.append(c)
        a = self.rv(n.inner[1], fr)
        it.pc.pop()
        A = it.st
        it.st = dict(base)
        it.pc.append(notT(c))
        b = self.rv(n.inner[2], fr)
        it.pc.pop()
        B = it.st
        it.st = it.merge_store(c, A, B)
        return it.merge_val(c, a, b, A, B)

    def e_ArraySubscriptExpr(self, n, fr):
        return self.lv(n, fr)

    def e_UnaryExprOrTypeTraitExpr(self, n, fr):
        return t.fn("sizeof", ("s", (n.get("argType") or {}).get("qualType", "?")), isint=True, pos=True)

    def e_InitListExpr(self, n, fr):
        it = self.it
        m = re.search(r"\[(\d+)\]$", n.type)
        items = [self.rv(x, fr) for x in n.inner]
        if not m and len(items) == 1 and not self.is_vec(n.type):
            return items[0]
        if m:
            while len(items) < int(m.group(1)):
                items.append(ZERO)
        return it.alloc(PyList(items))

    def e_CXXScalarValueInitExpr(self, n, fr):
        return ZERO

    def e_ImplicitValueInitExpr(self, n, fr):
        return ZERO

    def e_CXXDefaultInitExpr(self, n, fr):
        return self.rv(n.inner[-1], fr) if n.inner else ZERO

    def e_LambdaExpr(self, n, fr):
        c = Closure()
        c.node, c.fr, c.cx = n, fr, self
        c.this = None
        f = fr
        while f is not None:
            if f.fn is not None:
                c.this = f.fn
                break
            f = f.parent
        return c

    def call_closure(self, c, args):
        rec = c.node.inner[0]
        op = None
        for x in rec.walk():
            if x.kind == "CXXMethodDecl" and x.name == "operator()" and any(y.kind == "CompoundStmt" for y in x.inner):
                op = x
                # a generic lambda lists its instantiations last
                pass
        if op is None:
            self.undecided(c.node, "lambda")
        # the body refers to the enclosing variables by declaration id
        body = c.node.inner[-1]
        return self.call_fn(op, args, None, c.fr)

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n, fr):
        it = self.it
        ty = n.type.replace("const ", "")
        args = [x for x in n.inner if x.kind != "CXXDefaultArgExpr"]
        if self.is_vec(ty):
            if not args:
                return it.alloc(PyList([]))
            if len(args) == 1:
                x = args[0]
                if self.is_vec(x.type.rstrip("& ")) or "initializer_list" in x.type:
                    v = self.rv(x, fr)
                    if x.get("valueCategory") == "lvalue" or "const" in x.type:
                        return npm.copy_val(it, v)
                    return v
                size = it.num(self.rv(x, fr))
                return self.vec(size, ZERO)
            a0, a1 = self.rv(args[0], fr), self.rv(args[1], fr)
            if isinstance(a0, It):
                return self.slice_vec(a0, a1)
            if isinstance(a0, Ptr):
                return self.slice_ptr(a0, a1)
            return self.vec(it.num(a0), a1)
        if ty.startswith("std::tuple") or ty.startswith("tuple<") or ty.startswith("std::pair") or ty.startswith("pair<"):
            if len(args) == 1:
                return self.rv(args[0], fr)
            return tuple(self.rv(x, fr) for x in args)
        if ty.startswith("std::unique_ptr") or "unique_ptr" in ty.split("<")[0] or "std::basic_string" in ty:
            return self.rv(args[0], fr) if args else None
        base = ty.split("<")[0]
        if any(x in ty for x in ("_distribution", "mersenne_twister", "std::mt19937")):
            return self.random_obj(n, ty, [self.rv(x, fr) for x in args])
        if ty in self.records or ty.split("::")[-1] in self.records:
            if len(args) == 1 and args[0].type.replace("const ", "").rstrip("& ").split("::")[-1] == ty.split("::")[-1]:
                return self.rv(args[0], fr)
            return self.construct(ty.split("::")[-1], [self.lv(x, fr) for x in args], n)
        if len(args) == 1:
            return self.rv(args[0], fr)
        r = it.alloc(Inst(ty))
        return r

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def random_obj(self, n, ty, args):
        it = self.it
        if args and isinstance(args[0], Ref):
            return npm.copy_val(it, args[0])
        r = it.alloc(Inst("rng" if "mersenne" in ty or "mt19937" in ty else "dist"))
        it.st[("a", r.id, "args")] = tuple(args)
        it.st[("a", r.id, "type")] = ty
        it.st[("a", r.id, "state")] = t.fn("seed", *[a for a in args if isinstance(a, T)]) if args else t.fn("seed")
        return r

    def vec(self, n, v):
        it = self.it
        c = t.cval(n)
        if c is not None and c <= 16:
            return it.alloc(PyList([npm.copy_val(it, v) if isinstance(v, Ref) else v for _ in range(int(c))]))
        if isinstance(v, Ref):
            v = it.arr(v)
            return it.alloc(Arr((n,) + v.shape, lambda i: v.get(i[1:]), v.dt, "list"))
        return it.alloc(Arr((n,), lambda i: v, "f", "list"))

    def slice_ptr(self, a, b):
        arr = self.it.arr(a.base)
        return self.it.alloc(Arr((sub(b.off, a.off),), lambda i: arr.get(self.index_of(a, i[0])), "f", "list"))

    def slice_vec(self, a, b):
        it = self.it
        arr = it.arr(a.seq)
        n = sub(b.off, a.off)
        return it.alloc(Arr((n,) + arr.shape[1:], lambda i: arr.get((add(i[0], a.off),) + i[1:]), arr.dt, "list"))

    def construct(self, name, args, n):
        it = self.it
        rec = self.records[name]
        r = it.alloc(Inst(name))
        for f in rec.inner:
            if f.kind == "FieldDecl":
                k = ("a", r.id, f.name)
                if f.inner and f.get("hasInClassInitializer"):
                    it.st[k] = self.rv(f.inner[-1], self.modframe)
                elif not f.type.endswith("*") and not INTT.match(f.type) and f.type not in ("double",):
                    it.st[k] = self.default(f, f.type)
        cands = [d for d in self.defs.get(name, []) if isinstance(d, clangast.Node) and d.kind == "CXXConstructorDecl"
                 and not d.get("isImplicit")]
        cands = [d for d in cands if len([x for x in d.inner if x.kind == "ParmVarDecl"]) >= len(args)]
        if not cands:
            if not args:
                return r
            self.undecided(n, "constructor of %s" % name)
        d = cands[0]
        fr = pe.Frame(None, None)
        fr.fn = r
        params = [x for x in d.inner if x.kind == "ParmVarDecl"]
        for i, p in enumerate(params):
            if i < len(args):
                it.st[("v", fr.fid, p.get("id"))] = self.pass_arg(p, args[i])
            elif p.inner:
                it.st[("v", fr.fid, p.get("id"))] = self.ev(p.inner[-1], fr)
            else:
                # default given on the declaration in the class
                dv = None
                for q in rec.walk():
                    if q.kind == "CXXConstructorDecl":
                        ps = [x for x in q.inner if x.kind == "ParmVarDecl"]
                        if len(ps) == len(params) and ps[i].inner:
                            dv = ps[i].inner[-1]
                if dv is None:
                    self.undecided(n, "constructor argument")
                it.st[("v", fr.fid, p.get("id"))] = self.rv(dv, fr)
        for x in d.inner:
            if x.kind == "CXXCtorInitializer":
                nm = (x.get("anyInit") or {}).get("name")
                if nm and x.inner:
                    it.st[("a", r.id, nm)] = self.rv(x.inner[-1], fr)
        body = [x for x in d.inner if x.kind == "CompoundStmt"]
        if body:
            self.fnseen.add((d.file, d.line, d.name))
            self.run_body(body[0], fr, d)
        return r

    # ------------------------------------------------------------ members and operators
    def member(self, n, o, fr):
        it = self.it
        nm = n.name
        if isinstance(o, CondV):
            return it.map_cond(o, lambda x: self.member(n, x, fr))
        if isinstance(o, LV):
            o = o.get()
        if o is None:
            raise AbsRaise("MemoryError", n)
        if isinstance(o, (Ref, View)):
            c = it.content(o) if isinstance(o, Ref) else None
            if isinstance(c, Inst):
                v = AttrLV(it, o, nm).get()
                return v
            if nm == "dimensions":
                return Dims(o)
            if nm == "strides":
                return Strides(o)
            if nm == "data":
                return Ptr(o)
            if nm == "nd":
                return const(it.arr(o).ndim)
            if nm == "descr":
                return Ptr(o, ZERO, t.fn("descr"))
            if nm == "flags":
                return t.fn("flags", ("s", aid(o)), isint=True)
        if isinstance(o, Ptr) and nm == "type_num":
            a = it.arr(o.base)
            return const({"f": 12, "i": 7, "b": 0, "s": 18}.get(a.dt, 12))
        if isinstance(o, Ptr) and nm in ("elsize",):
            return t.fn("elsize", ("s", aid(o.base)), isint=True, pos=True)
        if isinstance(o, tuple) and nm in ("first", "second"):
            return o[0 if nm == "first" else 1]
        self.undecided(n, "member %s of %r" % (nm, type(o)))

    def e_MemberExpr(self, n, fr):
        return self.lv(n, fr)

    def opname(self, n):
        c = strip(n.inner[0])
        return (c.get("referencedDecl") or {}).get("name", "")

    def e_CXXOperatorCallExpr(self, n, fr):
        it = self.it
        op = self.opname(n)
        args = n.inner[1:]
        if op == "operator[]":
            return self.lv(n, fr)
        if op == "operator=":
            v = self.rv(args[1], fr)
            lv = self.lv(args[0], fr)
            if isinstance(lv, TieLV):
                lv.set(v)
                return lv
            cur = lv.get()
            if self.is_vec(args[0].type.rstrip("& ")) and isinstance(cur, Ref) and isinstance(v, Ref):
                it.st[("h", cur.id)] = it.content(v)
                return cur
            lv.set(v)
            return lv
        if op == "operator->":
            return self.rv(args[0], fr)
        if op == "operator*" and len(args) == 1:
            return self.lv(n, fr)
        if op in ("operator!=", "operator=="):
            return self.arith(op[8:], self.rv(args[0], fr), self.rv(args[1], fr), n)
        if op in ("operator++", "operator--"):
            lv = self.lv(args[0], fr)
            o = lv.get()
            lv.set(It(o.seq, add(o.off, ONE if op[8] == "+" else neg(ONE))))
            return o if len(args) > 1 else lv
        if op in ("operator+", "operator-") and len(args) == 2:
            return self.arith(op[8:], self.rv(args[0], fr), self.rv(args[1], fr), n)
        if op in ("operator+=", "operator-="):
            lv = self.lv(args[0], fr)
            lv.set(self.arith(op[8:-1], lv.get(), self.rv(args[1], fr), n))
            return lv
        if op == "operator()":
            f = self.rv(args[0], fr)
            if isinstance(f, Closure):
                return self.call_closure(f, [self.lv(x, fr) for x in args[1:]])
            h = self.hooks.get("operator()")
            if h is not None:
                return h(self, n, f, [self.lv(x, fr) for x in args[1:]])
            return self.draw(n, f, [self.lv(x, fr) for x in args[1:]])
        self.undecided(n, "operator %s" % op)

    def draw(self, n, f, args):
        it = self.it
        g = args[0].get() if args else f
        if not isinstance(g, Ref):
            self.undecided(n, "call of a function object")
        k = ("a", g.id, "state")
        s = it.getkey(k)
        dist = ()
        if args:
            dist = it.st.get(("a", f.id, "args"), ())
        it.st[k] = t.fn("rngnext", s)
        return t.fn("rdraw", s, *[x for x in dist if isinstance(x, T)], isint=True, nonneg=True)

    # ------------------------------------------------------------ calls
    def callee(self, n):
        c = strip(n.inner[0])
        if c.kind == "DeclRefExpr":
            return (c.get("referencedDecl") or {}).get("name"), c
        # (*(T*)PyArray_API[k])(...)
        for x in c.walk():
            if x.kind == "ArraySubscriptExpr" and strip(x.inner[0]).kind == "DeclRefExpr" and \
                    (strip(x.inner[0]).get("referencedDecl") or {}).get("name") == "PyArray_API":
                i = strip(x.inner[1])
                if i.kind == "IntegerLiteral":
                    return api_names().get(int(i.get("value"))), c
        return None, c

    def e_CXXMemberCallExpr(self, n, fr):
        it = self.it
        m = strip(n.inner[0])
        args = n.inner[1:]
        if m.kind != "MemberExpr":
            self.undecided(n, "member call")
        nm = m.name
        o = self.rv(m.inner[0], fr)
        rd = self.byid.get(m.get("referencedMemberDecl"))
        if rd is not None and rd.kind in ("CXXMethodDecl",):
            d = rd if any(x.kind == "CompoundStmt" for x in rd.inner) else self.defs.get((rd.name, rd.qtype))
            if d is not None and not isinstance(d, list):
                h = self.hooks.get(nm)
                if h is not None:
                    r = h(self, n, o, [self.lv(x, fr) for x in args])
                    if r is not NotImplemented:
                        return r
                return self.call_fn(d, [self.lv(x, fr) for x in args], o)
        h = self.hooks.get("." + nm)
        if h is not None:
            return h(self, n, o, [self.lv(x, fr) for x in args])
        if nm in ("size", "length"):
            return self.size(o)
        if nm == "empty":
            return mkbool(eq0(self.size(o)))
        if nm in ("reserve", "shrink_to_fit"):
            return None
        if nm in ("push_back", "emplace_back"):
            it.list_append(o, self.rv(args[0], fr))
            return None
        if nm == "clear":
            it.st[("h", o.id)] = PyList([])
            return None
        if nm == "assign" and len(args) == 2:
            a0, a1 = self.rv(args[0], fr), self.rv(args[1], fr)
            if isinstance(a0, (It, Ptr)):
                x = self.slice_vec(a0, a1) if isinstance(a0, It) else self.slice_ptr(a0, a1)
                it.st[("h", o.id)] = it.content(x)
                return None
        if nm in ("resize", "assign"):
            k = it.num(self.rv(args[0], fr))
            v = self.rv(args[1], fr) if len(args) > 1 else ZERO
            c = it.content(o)
            if isinstance(c, PyList) and not c.items or nm == "assign":
                x = self.vec(k, v)
                it.st[("h", o.id)] = it.content(x)
                return None
            self.undecided(n, "resize of a non-empty vector")
        if nm in ("begin", "cbegin", "data"):
            return It(o, ZERO) if nm != "data" else Ptr(o)
        if nm in ("end", "cend"):
            return It(o, self.size(o), True)
        if nm in ("at", "front", "back"):
            return self.lv(n, fr)
        if nm == "get":
            return o
        if nm == "pop_back":
            c = it.content(o)
            if isinstance(c, PyList):
                it.st[("h", o.id)] = PyList(c.items[:-1])
                return None
        if nm.startswith("operator"):
            return o
        if nm in ("lock", "unlock", "join", "joinable", "detach"):
            it.events.append((nm, it.curfile, n))
            return True
        self.undecided(n, "member function %s" % nm)

    def e_CallExpr(self, n, fr):
        it = self.it
        name, c = self.callee(n)
        args = n.inner[1:]
        if name is None:
            f = self.rv(n.inner[0], fr)
            if isinstance(f, Closure):
                return self.call_closure(f, [self.lv(x, fr) for x in args])
            self.undecided(n, "indirect call")
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, n, None, [self.lv(x, fr) for x in args])
            if r is not NotImplemented:
                return r
        if c.kind == "DeclRefExpr":
            d = self.define(c.get("referencedDecl") or {})
            if d is not None:
                return self.call_fn(d, [self.lv(x, fr) for x in args])
        f = CALLS.get(name)
        if f is None:
            self.undecided(n, "call of %s" % name)
        return f(self, n, args, fr)


CALLS = {}


def cfn(names):
    def deco(f):
        for x in names.split():
            CALLS[x] = f
        return f
    return deco


def _num1(g):
    def f(cx, n, args, fr):
        return g(cx.it, *[cx.it.num(cx.rv(a, fr)) for a in args])
    return f


CALLS["sqrt"] = CALLS["sqrtf"] = CALLS["sqrtl"] = _num1(lambda it, x: t.sqrtT(x))
CALLS["pow"] = _num1(lambda it, x, y: t.powT(x, y))
CALLS["exp"] = _num1(lambda it, x: t.expT(x))
CALLS["expm1"] = _num1(lambda it, x: sub(t.expT(x), ONE))
CALLS["log"] = _num1(lambda it, x: t.logT(x))
CALLS["log1p"] = _num1(lambda it, x: t.logT(add(x, ONE)))
CALLS["log2"] = _num1(lambda it, x: div(t.logT(x), t.logT(const(2))))
CALLS["log10"] = _num1(lambda it, x: div(t.logT(x), t.logT(const(10))))
CALLS["fabs"] = CALLS["abs"] = _num1(lambda it, x: t.absT(x))
CALLS["fmax"] = _num1(lambda it, x, y: t.maxT(x, y))
CALLS["fmin"] = _num1(lambda it, x, y: t.minT(x, y))
CALLS["ceil"] = _num1(lambda it, x: neg(npm.floorT(neg(x))))
CALLS["floor"] = _num1(lambda it, x: npm.floorT(x))
CALLS["trunc"] = _num1(lambda it, x: npm.truncT(x))
CALLS["hypot"] = _num1(lambda it, x, y: t.sqrtT(add(mul(x, x), mul(y, y))))
CALLS["fma"] = _num1(lambda it, x, y, z: add(mul(x, y), z))
CALLS["isnan"] = CALLS["__builtin_isnan"] = _num1(lambda it, x: mkbool(pe.isnanT(x)))
CALLS["isinf"] = _num1(lambda it, x: mkbool(npm.isinf(x)))
CALLS["isfinite"] = _num1(lambda it, x: mkbool(mul(notT(pe.isnanT(x)), notT(npm.isinf(x)))))
CALLS["__builtin_nanf"] = CALLS["__builtin_nan"] = lambda cx, n, a, fr: t.NAN
CALLS["__builtin_inff"] = CALLS["__builtin_inf"] = CALLS["__builtin_huge_val"] = lambda cx, n, a, fr: t.INF


@cfn("max min")
def _max(cx, n, args, fr):
    it = cx.it
    vs = [cx.rv(a, fr) for a in args]
    if len(vs) == 1:
        vs = it.as_items(vs[0])
    r = it.num(vs[0])
    f = t.maxT if cx.callee(n)[0] == "max" else t.minT
    for v in vs[1:]:
        r = f(r, it.num(v))
    return r


@cfn("make_tuple make_pair forward_as_tuple")
def _mkt(cx, n, args, fr):
    return tuple(cx.rv(a, fr) for a in args)


@cfn("tie")
def _tie(cx, n, args, fr):
    return TieLV([cx.lv(a, fr) for a in args])


@cfn("get")
def _get(cx, n, args, fr):
    v = cx.rv(args[0], fr)
    ty = strip(n.inner[0]).qtype
    it = cx.it
    # std::get<K>: the index is part of the callee's spelling
    s = cx.unit
    o = n.offset()
    cx.unit.line(n.file, 0)
    txt = s.files[n.file][o:o + 60].decode(errors="replace")
    m = re.search(r"get\s*<\s*(\d+)\s*>", txt)
    if not m:
        cx.undecided(n, "std::get")
    return v[int(m.group(1))]


@cfn("move forward ref cref as_const")
def _move(cx, n, args, fr):
    return cx.ev(args[0], fr)


@cfn("accumulate reduce")
def _acc(cx, n, args, fr):
    it = cx.it
    a, b = cx.rv(args[0], fr), cx.rv(args[1], fr)
    init = it.num(cx.rv(args[2], fr)) if len(args) > 2 else ZERO
    if len(args) > 3:
        cx.undecided(n, "accumulate with an operation")
    if len(args) > 2 and is_int(args[2]) and not is_int(n):
        pass
    if is_int(n):
        # integral accumulator truncates every step
        cx.undecided(n, "integral accumulator")
    arr = it.arr(a.seq)
    k = t.fresh_bv(sub(b.off, a.off))
    return add(init, t.sumT(sub(b.off, a.off), k, it.num(arr.get((add(t.atomT(k), a.off),)))))


@cfn("inner_product")
def _ip(cx, n, args, fr):
    it = cx.it
    a, b, c = [cx.rv(x, fr) for x in args[:3]]
    init = it.num(cx.rv(args[3], fr))
    A, C = it.arr(a.seq), it.arr(c.seq)
    k = t.fresh_bv(sub(b.off, a.off))
    kT = t.atomT(k)
    return add(init, t.sumT(sub(b.off, a.off), k, mul(it.num(A.get((add(kT, a.off),))), it.num(C.get((add(kT, c.off),))))))


@cfn("copy copy_n memcpy")
def _copy(cx, n, args, fr):
    it = cx.it
    name = cx.callee(n)[0]
    if name != "copy":
        cx.undecided(n, name)
    a, b, d = [cx.rv(x, fr) for x in args[:3]]
    src = it.arr(a.seq if isinstance(a, It) else a.base)
    base = a.off
    cnt = sub(b.off, a.off)
    tgt = d.base if isinstance(d, Ptr) else d.seq
    c = it.content(tgt)
    if not isinstance(c, Arr):
        cx.undecided(n, "copy target")
    off = d.off
    if c.ndim != 1:
        cx.undecided(n, "copy target rank")

    def g(i):
        j = sub(i[0], off)
        inside = mul(notT(lt0(j)), lt0(sub(j, cnt)))
        if inside is ONE:
            return src.get((add(j, base),))
        return ite(inside, it.num(src.get((add(j, base),))), it.num(c.get(i)))
    it.st[("h", tgt.id)] = Arr(c.shape, g, c.dt, c.kind)
    return None


@cfn("fill")
def _fill(cx, n, args, fr):
    it = cx.it
    a = cx.rv(args[0], fr)
    v = cx.rv(args[2], fr)
    tgt = a.base if isinstance(a, Ptr) else a.seq
    c = it.content(tgt)
    it.st[("h", tgt.id)] = Arr(it.arr(tgt).shape, lambda i: v, "f", "list")
    return None


@cfn("begin cbegin")
def _begin(cx, n, args, fr):
    return It(cx.rv(args[0], fr), ZERO)


@cfn("end cend")
def _end(cx, n, args, fr):
    o = cx.rv(args[0], fr)
    return It(o, cx.size(o), True)


@cfn("make_unique make_shared")
def _mu(cx, n, args, fr):
    ty = n.type + " " + n.qtype
    m = re.findall(r"<\s*([\w:]+)", ty)
    for x in m:
        nm = x.split("::")[-1]
        if nm in cx.records:
            return cx.construct(nm, [cx.lv(a, fr) for a in args], n)
    cx.undecided(n, "make_unique of %s" % ty)


@cfn("strlen strnlen strcmp strncmp memcmp memchr")
def _str(cx, n, args, fr):
    it = cx.it
    vs = []
    for a in args:
        v = cx.rv(a, fr)
        if isinstance(v, Ptr):
            v = it.num(it.arr(v.base).get(cx.index_of(v, ZERO)))
        elif v is None:
            v = t.fn("nullptr")
        elif isinstance(v, CondV):
            v = it.num(it.map_cond(v, lambda p: it.num(it.arr(p.base).get(cx.index_of(p, ZERO))) if isinstance(p, Ptr) else t.fn("nullptr")))
        vs.append(v)
    return t.fn(cx.callee(n)[0], *[x if isinstance(x, T) else ("s", str(x)) for x in vs], isint=True)


# ---- Python / numpy C API
def _nop(cx, n, args, fr):
    for a in args:
        pass
    return None


for _x in ("Py_DECREF Py_XDECREF Py_INCREF Py_XINCREF PyErr_Clear PyEval_RestoreThread PyEval_SaveThread PyGILState_Release "
           "Py_CLEAR _Py_DECREF _Py_XDECREF printf fprintf assert").split():
    CALLS[_x] = _nop
CALLS["PyErr_Occurred"] = lambda cx, n, a, fr: None
CALLS["PyEval_SaveThread"] = lambda cx, n, a, fr: t.fn("tstate")
CALLS["PyTuple_Size"] = CALLS["PyTuple_GET_SIZE"] = CALLS["PySequence_Size"] = CALLS["PySequence_Length"] = CALLS["PyObject_Length"] = \
    CALLS["PyObject_Size"] = CALLS["PyList_Size"] = CALLS["PyVectorcall_NARGS"] = CALLS["Py_SIZE"] = CALLS["PyList_GET_SIZE"] = \
    lambda cx, n, a, fr: _seqsize(cx, cx.rv(a[0], fr))


def _seqsize(cx, o):
    it = cx.it
    if isinstance(o, Ref) and isinstance(it.content(o), PyList):
        return const(len(it.content(o).items))
    return cx.size(o)


@cfn("PyErr_SetString PyErr_Format")
def _seterr(cx, n, args, fr):
    e = cx.rv(args[0], fr)
    cx.pyerr = e if isinstance(e, str) else "Exception"
    return None


@cfn("PyErr_NoMemory")
def _nomem(cx, n, args, fr):
    cx.pyerr = "MemoryError"
    return None


@cfn("PyArg_ParseTuple _PyArg_ParseTuple_SizeT")
def _parse(cx, n, args, fr):
    it = cx.it
    tup = cx.rv(args[0], fr)
    fmt = cx.rv(args[1], fr)
    fmt = fmt.split(":")[0].split(";")[0]
    dests = args[2:]
    units = re.findall(r"\||\$|[a-zA-Z][!#*&]?", fmt)
    if not isinstance(tup, tuple):
        cx.undecided(n, "argument tuple")
    j = 0
    i = 0
    opt = False
    need = 0
    for u in units:
        if u in "|$":
            opt = True
            continue
        if not opt:
            need += 1
        if u.endswith("!"):
            ty = dests[j]
            j += 1
        if j >= len(dests):
            cx.undecided(n, "argument format %r needs more destinations" % fmt)
        dst = dests[j]
        j += 1
        if i >= len(tup):
            if not opt:
                raise AbsRaise("TypeError", n)
            i += 1
            continue
        v = tup[i]
        i += 1
        if u[0] in "df":
            v = it.num(v)
            if u[0] == "f":
                v = t.fn("f32", v)
        elif u[0] in "ilnkKLHIbBh":
            x = it.num(v)
            if not t.is_int(x):
                if t.cval(x) is not None:
                    raise AbsRaise("TypeError", n)
            v = x
        elif u[0] == "p":
            v = mkbool(cx.truth(v if isinstance(v, (T, BT, bool)) or v is None else ONE))
        elif u == "O!":
            if not it.is_arr(v) or (isinstance(v, Ref) and isinstance(it.content(v), PyList)):
                if isinstance(v, CondV):
                    pass
                else:
                    raise AbsRaise("TypeError", n)
        lv = cx.val_lv(dst, fr)
        lv.set(v)
    if j != len(dests):
        cx.undecided(n, "argument format %r leaves destinations unset" % fmt)
    if len(tup) > len([u for u in units if u not in "|$"]) or len(tup) < need:
        raise AbsRaise("TypeError", n)
    return ONE


def _val_lv(self, n, fr):
    v = self.ev(n, fr)
    if isinstance(v, LV):
        return v
    self.undecided(n, "output argument")


Cx.val_lv = _val_lv


@cfn("Py_BuildValue _Py_BuildValue_SizeT")
def _build(cx, n, args, fr):
    it = cx.it
    fmt = cx.rv(args[0], fr)
    vals = [cx.rv(a, fr) for a in args[1:]]
    codes = [c for c in fmt if c.isalpha()]
    out = []
    for c, v in zip(codes, vals):
        if c in "df":
            v = it.num(v)
        elif c in "bBhHiIlkLKn":
            v = it.num(v)
        out.append(v)
    if len(codes) != len(vals):
        cx.undecided(n, "Py_BuildValue format")
    if len(out) == 1 and not fmt.startswith("("):
        return out[0]
    return tuple(out)


@cfn("PyFloat_FromDouble PyLong_FromLong PyLong_FromSsize_t PyFloat_AsDouble PyFloat_AS_DOUBLE PyLong_AsLong PyNumber_Float PyLong_AsSsize_t PyLong_FromSize_t PyLong_AsSize_t")
def _pf(cx, n, args, fr):
    return cx.it.num(cx.rv(args[0], fr))


@cfn("PyBool_FromLong")
def _pb(cx, n, args, fr):
    return mkbool(cx.truth(cx.rv(args[0], fr)))


@cfn("PyObject_GetIter")
def _gi(cx, n, args, fr):
    return It(cx.rv(args[0], fr), ZERO)


@cfn("PySequence_Fast PySequence_List PySequence_Tuple")
def _sf(cx, n, args, fr):
    v = cx.rv(args[0], fr)
    return v


@cfn("PySequence_GetItem PySequence_Fast_GET_ITEM PyTuple_GetItem PyTuple_GET_ITEM PyList_GetItem PyList_GET_ITEM PySequence_ITEM")
def _sg(cx, n, args, fr):
    return cx.load(cx.rv(args[0], fr), (cx.it.num(cx.rv(args[1], fr)),))


@cfn("PyTuple_Pack")
def _tp(cx, n, args, fr):
    return tuple(cx.rv(a, fr) for a in args[1:])


def _newarr(cx, nd, dims, zero):
    it = cx.it
    k = t.cval(it.num(nd))
    if isinstance(dims, LV):
        dims = dims.get()
    if isinstance(dims, Dims):
        shape = list(it.arr(dims.arr).shape)[:int(k)]
    elif isinstance(dims, T):
        shape = [dims]
    else:
        a = it.arr(dims)
        shape = [it.num(a.get((const(i),))) for i in range(int(k))]
    u = pe.fresh_id()
    return it.alloc(Arr(tuple(shape), (lambda i: ZERO) if zero else (lambda i: t.fn("uninit", ("s", u), *i)), "f", "nd"))


@cfn("PyArray_New")
def _pan(cx, n, args, fr):
    v = [cx.ev(a, fr) if j == 2 else None for j, a in enumerate(args)]
    tn = cx.rv(args[3], fr)
    c = t.cval(cx.it.num(tn))
    if c != 12:
        cx.undecided(n, "array of another element type")
    return _newarr(cx, cx.rv(args[1], fr), v[2], False)


@cfn("PyArray_Zeros PyArray_Empty")
def _paz(cx, n, args, fr):
    return _newarr(cx, cx.rv(args[0], fr), cx.ev(args[1], fr), cx.callee(n)[0].endswith("Zeros"))


@cfn("PyArray_FromAny PyArray_CheckFromAny PyArray_FROM_OTF PyArray_FROMANY PyArray_ContiguousFromAny")
def _pfa(cx, n, args, fr):
    it = cx.it
    v = cx.rv(args[0], fr)
    a = it.arr(v)
    if a is None:
        x = it.num(v)
        return it.alloc(Arr((), lambda i: x))
    mn, mx = (t.cval(it.num(cx.rv(args[2], fr))), t.cval(it.num(cx.rv(args[3], fr)))) if len(args) > 3 else (0, 0)
    if mn and a.ndim < mn or mx and a.ndim > mx:
        raise AbsRaise("ValueError", n)
    if isinstance(v, Ref) and isinstance(it.content(v), Arr) and it.content(v).kind == "nd":
        return v
    return it.alloc(Arr(a.shape, a.f, "f", "nd"))


@cfn("PyArray_DescrFromType")
def _pdt(cx, n, args, fr):
    return cx.rv(args[0], fr)


def _arrfn(name, f):
    CALLS[name] = lambda cx, n, args, fr: f(cx, cx.rv(args[0], fr), [cx.rv(a, fr) for a in args[1:]])


_arrfn("PyArray_DIM", lambda cx, o, a: cx.load(Dims(o), (cx.it.num(a[0]),)))
_arrfn("PyArray_STRIDE", lambda cx, o, a: cx.stride(o, int(t.cval(cx.it.num(a[0])))))
_arrfn("PyArray_DIMS", lambda cx, o, a: Dims(o))
_arrfn("PyArray_SHAPE", lambda cx, o, a: Dims(o))
_arrfn("PyArray_STRIDES", lambda cx, o, a: Strides(o))
_arrfn("PyArray_NDIM", lambda cx, o, a: const(cx.it.arr(o).ndim))
_arrfn("PyArray_DATA", lambda cx, o, a: Ptr(o))
_arrfn("PyArray_BYTES", lambda cx, o, a: Ptr(o))
_arrfn("PyArray_TYPE", lambda cx, o, a: const(12))
_arrfn("PyArray_DESCR", lambda cx, o, a: Ptr(o, ZERO, t.fn("descr")))
_arrfn("PyArray_ITEMSIZE", lambda cx, o, a: t.fn("elsize", ("s", aid(o)), isint=True, pos=True))
_arrfn("PyArray_FLAGS", lambda cx, o, a: t.fn("flags", ("s", aid(o)), isint=True))
_arrfn("PyArray_CHKFLAGS", lambda cx, o, a: True)
_arrfn("PyArray_Check", lambda cx, o, a: bool(cx.it.is_arr(o)))
_arrfn("PyObject_TypeCheck", lambda cx, o, a: bool(cx.it.is_arr(o)) or isinstance(o, Ref))
_arrfn("PyArray_ResolveWritebackIfCopy", lambda cx, o, a: ZERO)
_arrfn("PyArray_MultiplyList", lambda cx, o, a: npm.prod(cx.it.arr(o.arr).shape) if isinstance(o, Dims) else cx.it.undecided("size"))


@cfn("PyArray_SETITEM")
def _psi(cx, n, args, fr):
    it = cx.it
    p = cx.rv(args[1], fr)
    v = it.num(cx.rv(args[2], fr))
    cx.store(p, (ZERO,), v)
    return ZERO


def sources(repo):
    """extension module name -> source file, from setup.py"""
    import ast
    out = {}
    try:
        tree = ast.parse(open(os.path.join(repo, "setup.py")).read())
    except (OSError, SyntaxError):
        return out
    for c in ast.walk(tree):
        if isinstance(c, ast.Call) and getattr(c.func, "id", getattr(c.func, "attr", "")) == "Extension" and c.args:
            nm = c.args[0].value if isinstance(c.args[0], ast.Constant) else None
            for k in c.keywords:
                if k.arg == "name" and isinstance(k.value, ast.Constant):
                    nm = k.value.value
                if k.arg == "sources" and isinstance(k.value, ast.List):
                    s = [e.value for e in k.value.elts if isinstance(e, ast.Constant)]
                    if nm and s:
                        out[nm] = s
    return out


def method_table(unit):
    """Python name -> C function name, from the PyMethodDef tables"""
    out = {}
    for d in unit.all():
        if d.kind == "VarDecl" and "PyMethodDef" in d.type and "[" in d.type and d.inner:
            for e in d.inner[-1].inner:
                if e.kind == "InitListExpr" and len(e.inner) >= 2:
                    s = strip(e.inner[0])
                    f = strip(e.inner[1])
                    if s.kind == "StringLiteral" and f.kind == "DeclRefExpr":
                        out[s.get("value").strip('"')] = f.get("referencedDecl", {}).get("name")
    return out


def cx_for(it, name):
    cache = getattr(it, "cxcache", None)
    if cache is None:
        cache = it.cxcache = {}
    c = cache.get(name)
    if c is None:
        src = sources(it.repo).get(name)
        if not src:
            raise AbsRaise("ImportError")
        u = clangast.unit(it.repo, src[0])
        c = cache[name] = Cx(it, u)
    return c


def result(cx, it, v):
    """Python value of a returned PyObject*; NULL raises the exception that was set"""
    if v is PYNONE:
        return None
    if v is None:
        raise AbsRaise(getattr(cx, "pyerr", None) or "SystemError", it.curnode)
    if isinstance(v, CondV):
        parts = []
        for c, x in ((v.c, v.a), (notT(v.c), v.b)):
            it.pc.append(c)
            try:
                parts.append((True, result(cx, it, x)))
            except AbsRaise as e:
                it.raises.append((it.pcond(), e.name, it.curfile, it.curnode))
                parts.append((False, None))
            finally:
                it.pc.pop()
        if not parts[0][0] and not parts[1][0]:
            raise AbsRaise(getattr(cx, "pyerr", None) or "SystemError", it.curnode)
        if not parts[0][0]:
            return parts[1][1]
        if not parts[1][0]:
            return parts[0][1]
        return CondV(v.c, parts[0][1], parts[1][1])
    return v


def load_native(it, name):
    cx = cx_for(it, name)
    fr = pe.Frame(None, None)
    m = ModV(name, fr, cx.unit.path)
    fr.mod = m
    fr.keep = True
    for py, cname in method_table(cx.unit).items():
        ds = cx.defs.get(cname)
        if not ds:
            continue
        d = ds[0]

        def call(it_, args, kw, d=d):
            if kw:
                raise AbsRaise("TypeError", it_.curnode)
            cx.pyerr = None
            return result(cx, it_, cx.call_fn(d, [None, tuple(args)]))
        it.st[("v", fr.fid, py)] = PyFn(call, name + "." + py)
    return m
