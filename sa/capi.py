"""Model of the CPython / numpy C API and of the C++ standard library used by the native sources: what each call establishes,
how it can fail, which references it takes and returns."""
import re
from .lin import P, P_, sym
from .terms import Undecided
from . import cpath as C
from .cxx import strip

ZERO, ONE = P_(0), P_(1)
CALLS = {}


def api(*names):
    def deco(f):
        for n in names:
            CALLS[n] = f
        return f
    return deco


def gil(m, n, name):
    m.stats["api"].add((m.where(n), name))
    if not m.gil:
        m.fault("gil", n, "%s is called while the interpreter lock is released" % name)


def failing(m, n, what, exc):
    """one path on which this call fails"""
    if m.failedapi >= 2 or m.config.get("noinject"):
        return False
    if m.choose(2, what) == 1:
        m.failedapi += 1
        m.exc = exc
        return True
    return False


def notnull(m, n, o, what):
    if isinstance(o, C.LV):
        o = o.get()
    if o is None:
        m.fault("null", n, "%s is null when passed to %s: the call that produced it can fail" % ("the object", what))
        raise C.PathEnd()
    if o is C.UNDEF:
        m.fault("uninit", n, "an uninitialised pointer is passed to %s" % what)
        raise C.PathEnd()
    if isinstance(o, C.Obj) and o.own <= 0 and not o.borrowed:
        m.fault("released", n, "%s is passed to %s after its last reference was released" % (o.name, what))
    return o


def newobj(m, name, kind):
    k = m.occ.get("obj:" + name, 0)
    m.occ["obj:" + name] = k + 1
    o = C.Obj(name + ("'" * k), kind, 1)
    m.objs.append(o)
    return o


# ------------------------------------------------------------------ argument parsing
UNITS = {"d": ("double",), "f": ("float",), "i": ("int",), "I": ("unsigned int",), "l": ("long",), "k": ("unsigned long",), "L": ("long long",), "K": ("unsigned long long",),
         "n": ("long", "Py_ssize_t", "__ssize_t", "ssize_t", "npy_intp"), "h": ("short",), "H": ("unsigned short",), "b": ("unsigned char",), "B": ("unsigned char",), "c": ("char",), "p": ("int",)}
TEXT = {"s": 1, "z": 1, "y": 1, "s#": 2, "z#": 2, "y#": 2, "U": 1, "S": 1, "Y": 1}


def units(fmt):
    fmt = re.split(r"[:;]", fmt)[0]
    out, opt, i = [], False, 0
    while i < len(fmt):
        ch = fmt[i]
        if ch in "|$":
            opt = opt or ch == "|"
            i += 1
            continue
        if ch in "() ":
            i += 1
            continue
        if fmt[i:i + 2] in ("O!", "O&"):
            out.append((fmt[i:i + 2], opt))
            i += 2
            continue
        if fmt[i:i + 2] in TEXT:
            out.append((fmt[i:i + 2], opt))
            i += 2
            continue
        out.append((ch, opt))
        i += 1
    return out


@api("PyArg_ParseTuple", "_PyArg_ParseTuple_SizeT", "PyArg_ParseTupleAndKeywords", "_PyArg_ParseTupleAndKeywords_SizeT")
def parsetuple(m, n, args, fr):
    gil(m, n, "PyArg_ParseTuple")
    kw = len(args) and "Keywords" in (m.callee(n)[0] or "")
    notnull(m, n, m.rv(args[0], fr), "PyArg_ParseTuple")
    f = m.rv(args[2 if kw else 1], fr)
    if not isinstance(f, C.Str):
        raise Undecided("format of PyArg_ParseTuple")
    dst = args[4 if kw else 2:]
    us = units(f.s)
    m.stats["parse"].add(m.where(n))
    need = sum(2 if u[0] in ("O!", "O&") else TEXT.get(u[0], 1) for u in us)
    if need != len(dst):
        m.fault("parse", n, "format \"%s\" takes %d destinations, %d are given" % (f.s, need, len(dst)))
        raise C.PathEnd()
    if m.choose(2, "parse") == 1:
        m.exc = "TypeError"
        return ZERO
    j = 0
    m.parsed = []
    for u, opt in us:
        if u == "O&":
            raise Undecided("converter function in a format")
        ty = None
        if u == "O!":
            ty = strip(dst[j])
            j += 1
        d = dst[j]
        s = strip(d)
        t = s.type
        lv = m.ev(d, fr)
        j += 1
        if not isinstance(lv, C.LV):
            raise Undecided("destination of PyArg_ParseTuple")
        base = t.replace("const ", "").strip()
        base = base[:-1].strip() if base.endswith("*") else base
        nm = getattr(lv, "name", None) or "arg%d" % j
        m.parsed.append(nm)
        if u in ("O", "O!"):
            if not base.endswith("*") or "PyObject" not in base and "_object" not in base and "PyArrayObject" not in base and "tagPyArray" not in base:
                m.fault("parse", n, "format unit O is stored into %s of type %s" % (nm, base))
                raise C.PathEnd()
            if opt and m.choose(2, "optional") == 1:
                continue
            o = C.Obj(nm, "any", 0, True)
            if u == "O!":
                if any((x.get("referencedDecl") or {}).get("name") == "PyArray_API" for x in ty.walk()):
                    o.kind = "array"
            elif "Array" in base:
                o.kind = "any"
            lv.set(o)
            continue
        if u in UNITS:
            ok = base in UNITS[u] or C.bits(base) is not None and C.bits(UNITS[u][0]) == C.bits(base) and u not in "dfc"
            if not ok:
                m.fault("parse", n, "format unit %s is stored into %s of type %s" % (u, nm, base))
                raise C.PathEnd()
            if opt and m.choose(2, "optional") == 1:
                continue
            if u in "df":
                lv.set(C.Dbl(("arg", nm)))
            else:
                v = sym("arg:" + nm)
                w, sg = C.bits(UNITS[u][0])
                if u == "p":
                    w, sg = 1, False
                m.assume(v - (-(1 << (w - 1)) if sg else 0))
                m.assume(P_((1 << (w - 1)) - 1 if sg else (1 << w) - 1) - v)
                lv.set(v)
            continue
        if u in TEXT and TEXT[u] == 1 and u in "szy":
            if "char" not in base:
                m.fault("parse", n, "format unit %s is stored into %s of type %s" % (u, nm, base))
            lv.set(C.Opaque("text"))
            continue
        raise Undecided("format unit %s" % u)
    return ONE


@api("Py_BuildValue", "_Py_BuildValue_SizeT")
def buildvalue(m, n, args, fr):
    gil(m, n, "Py_BuildValue")
    f = m.rv(args[0], fr)
    if not isinstance(f, C.Str):
        raise Undecided("format of Py_BuildValue")
    us = [u for u, _ in units(re.sub(r"[(){}\[\],: ]", "", f.s))]
    m.stats["parse"].add(m.where(n))
    if len(us) != len(args) - 1:
        m.fault("parse", n, "format \"%s\" takes %d values, %d are given" % (f.s, len(us), len(args) - 1))
        raise C.PathEnd()
    vals = [m.rv(x, fr) for x in args[1:]]
    null = False
    for u, x, v in zip(us, args[1:], vals):
        t = x.type.replace("const ", "")
        if u in "df":
            if t not in ("double", "float"):
                m.fault("parse", n, "format unit %s is given a value of type %s" % (u, t))
                raise C.PathEnd()
        elif u in UNITS:
            b = C.bits(t)
            w = C.bits(UNITS[u][0])[0]
            if b is None or (b[0] > 32) != (w > 32):
                m.fault("parse", n, "format unit %s is given a value of type %s" % (u, t))
                raise C.PathEnd()
        elif u in "ONS":
            if v is None:
                null = True
            else:
                notnull(m, n, v, "Py_BuildValue")
    if null:
        m.exc = m.exc or "SystemError"
        r = None
    else:
        r = None if failing(m, n, "Py_BuildValue", "MemoryError") else newobj(m, "value@" + m.at(n), "value")
    for u, v in zip(us, vals):
        if u == "N" and isinstance(v, C.Obj):
            drop(m, n, v)
    if r is not None and not us:
        r.own = 0
        return m.none
    return r


# ------------------------------------------------------------------ references
def drop(m, n, o):
    if o.kind == "none":
        o.own -= 1
        return
    if o.own <= 0:
        m.fault("released", n, "a reference to %s is released that is not owned here" % o.name)
        return
    o.own -= 1
    if o.own == 0 and o.wb:
        m.fault("writeback", n, "%s is released before its write-back copy is resolved or discarded" % o.name)


@api("Py_DECREF", "Py_DecRef", "_Py_DECREF", "Py_XDECREF", "Py_CLEAR", "_Py_DecRef")
def decref(m, n, args, fr):
    nm = m.callee(n)[0]
    gil(m, n, "Py_DECREF")
    o = m.rv(args[-1], fr)
    if o is None:
        if nm in ("Py_DECREF", "_Py_DECREF"):
            m.fault("null", n, "Py_DECREF of a null pointer")
            raise C.PathEnd()
        return None
    if o is C.UNDEF:
        m.fault("uninit", n, "an uninitialised pointer is released")
        raise C.PathEnd()
    if isinstance(o, C.Obj):
        drop(m, n, o)
    return None


@api("Py_INCREF", "Py_IncRef", "_Py_INCREF", "Py_XINCREF", "_Py_IncRef", "Py_NewRef", "Py_XNewRef", "_Py_NewRef", "_Py_XNewRef")
def incref(m, n, args, fr):
    gil(m, n, "Py_INCREF")
    o = m.rv(args[-1], fr)
    nm = m.callee(n)[0]
    if o is None:
        if "X" not in nm:
            m.fault("null", n, "Py_INCREF of a null pointer")
            raise C.PathEnd()
        return None
    if isinstance(o, C.Obj):
        notnull(m, n, o, "Py_INCREF")
        o.own += 1
        if o not in m.objs and o.kind != "none":
            m.objs.append(o)
    return o


# ------------------------------------------------------------------ exceptions
@api("PyErr_SetString", "PyErr_Format", "PyErr_SetNone", "PyErr_SetObject", "PyErr_NoMemory", "PyErr_BadArgument", "PyErr_SetFromErrno", "PyErr_FormatV", "PyErr_BadInternalCall")
def seterr(m, n, args, fr):
    nm = m.callee(n)[0]
    gil(m, n, nm)
    vs = [m.rv(x, fr) for x in args]
    m.exc = "MemoryError" if nm == "PyErr_NoMemory" else getattr(vs[0], "name", "error") if vs else "error"
    return ZERO if nm == "PyErr_BadArgument" else None


@api("PyErr_Occurred")
def occurred(m, n, args, fr):
    gil(m, n, "PyErr_Occurred")
    return None if m.exc is None else C.Opaque("exception")


@api("PyErr_Clear")
def clear(m, n, args, fr):
    gil(m, n, "PyErr_Clear")
    m.exc = None
    return None


@api("PyErr_Print", "PyErr_WriteUnraisable")
def errprint(m, n, args, fr):
    gil(m, n, "PyErr_Print")
    [m.rv(x, fr) for x in args]
    m.exc = None
    return None


@api("PyErr_WarnEx", "PyErr_WarnFormat")
def warn(m, n, args, fr):
    gil(m, n, "PyErr_WarnEx")
    [m.rv(x, fr) for x in args]
    return P_(-1) if failing(m, n, "warning as error", "Warning") else ZERO


# ------------------------------------------------------------------ interpreter lock
@api("PyEval_SaveThread")
def save(m, n, args, fr):
    gil(m, n, "PyEval_SaveThread")
    m.gil = False
    return C.Opaque("threadstate")


@api("PyEval_RestoreThread")
def restore(m, n, args, fr):
    v = m.rv(args[0], fr)
    m.stats["api"].add((m.where(n), "PyEval_RestoreThread"))
    if m.gil:
        m.fault("gil", n, "the interpreter lock is taken although it is held")
    if v is C.UNDEF or v is None:
        m.fault("gil", n, "the interpreter lock is restored from no thread state")
    m.gil = True
    return None


@api("PyGILState_Ensure")
def ensure(m, n, args, fr):
    if m.thread is None and m.gil:
        m.stack_gil = getattr(m, "stack_gil", 0) + 1
        return C.Opaque("gil:held")
    m.gil = True
    return C.Opaque("gil:taken")


@api("PyGILState_Release")
def release(m, n, args, fr):
    v = m.rv(args[0], fr)
    if isinstance(v, C.Opaque) and v.name == "gil:taken":
        m.gil = False
    return None


# ------------------------------------------------------------------ numpy
@api("PyArray_DescrFromType")
def descr(m, n, args, fr):
    gil(m, n, "PyArray_DescrFromType")
    c = m.num(m.rv(args[0], fr)).const()
    if c is None:
        raise Undecided("type number")
    o = newobj(m, "descr@" + m.at(n), "descr")
    o.dtype = c
    return o


@api("PyArray_FromAny", "PyArray_CheckFromAny")
def fromany(m, n, args, fr):
    gil(m, n, "PyArray_FromAny")
    vs = [m.rv(x, fr) for x in args]
    src = notnull(m, n, vs[0], "PyArray_FromAny")
    d = vs[1]
    lo, hi, fl = (m.num(x).const() for x in vs[2:5])
    if None in (lo, hi):
        lo, hi = m.num(vs[2]), m.num(vs[3])
    if fl is None:
        raise Undecided("array flags")
    if isinstance(d, C.Obj):
        d.own -= 1
    if failing(m, n, "PyArray_FromAny", "ValueError"):
        return None
    return mkarray(m, n, src, d.dtype if isinstance(d, C.Obj) else None, lo, hi, fl)


def mkarray(m, n, src, dtype, lo, hi, fl):
    o = newobj(m, "array(%s)" % getattr(src, "name", "?"), "array")
    o.dtype = dtype
    if isinstance(lo, P) or isinstance(hi, P):
        lo, hi = P_(lo), P_(hi)
        if m.norm(lo - hi).const() == 0:
            o.ndim = lo
        else:
            raise Undecided("dimensions asked of PyArray_FromAny")
    elif lo == hi and hi > 0:
        o.ndim = hi
    elif lo > 0 or hi > 0:
        s = sym("ndim(%s)" % o.name)
        m.assume(s - lo)
        m.assume(P_(hi if hi > 0 else 64) - s)
        o.ndim = s
    o.contig = bool(fl & 1)
    o.aligned = bool(fl & 0x100) or dtype is None
    o.wb = bool(fl & 0x2000)
    o.writeable = bool(fl & 0x400)
    o.src = src
    o.made = n
    return o


@api("PyArray_FromObject", "PyArray_ContiguousFromAny", "PyArray_ContiguousFromObject", "PyArray_CopyFromObject")
def fromobject(m, n, args, fr):
    vs = [m.rv(x, fr) for x in args]
    gil(m, n, "PyArray_FromObject")
    src = notnull(m, n, vs[0], "PyArray_FromObject")
    c, lo, hi = (m.num(x).const() for x in vs[1:4])
    if failing(m, n, "conversion to an array", "ValueError"):
        return None
    nm = m.callee(n)[0]
    return mkarray(m, n, src, c, lo, hi, 0x101 if "Contig" in nm else 0x500)


@api("PyArray_FromArray", "PyArray_NewCopy", "PyArray_CastToType", "PyArray_GETCONTIGUOUS", "PyArray_FromStructInterface")
def fromarray(m, n, args, fr):
    raise Undecided("array conversion %s" % m.callee(n)[0])


def newarray(m, n, nd, dims, code, extra=None):
    c = m.num(nd).const()
    code = m.num(code).const()
    if c is None or code is None:
        raise Undecided("dimensions of a new array")
    ds = []
    for a in range(c):
        if isinstance(dims, C.DimPtr):
            ds.append(m.dim(dims.arr, P_(a), n))
        elif isinstance(dims, C.Ptr) and isinstance(dims.o, C.Vec):
            i = m.exact(dims.off, 8)
            m.inside(dims.o, i + a, n)
            ds.append(m.num(m.elem(dims.o, i + a)))
        elif isinstance(dims, C.LV) and a == 0:
            ds.append(m.num(dims))
        elif dims is None:
            m.fault("null", n, "no extents for a new array")
            raise C.PathEnd()
        else:
            raise Undecided("extents of a new array")
    if failing(m, n, "allocation of an array", "MemoryError"):
        return None
    o = newobj(m, "new@" + m.at(n), "new")
    o.dtype, o.ndim, o.contig, o.aligned, o.writeable = code, c, True, True, True
    for a, d in enumerate(ds):
        # a negative extent makes the call fail
        m.assume(d)
        o.dims[a] = d
    return o


@api("PyArray_New")
def pynew(m, n, args, fr):
    gil(m, n, "PyArray_New")
    vs = [None if i == 0 else m.ev(x, fr) if i == 2 else m.rv(x, fr) for i, x in enumerate(args)]
    if vs[5] is not None:
        raise Undecided("array over foreign memory")
    d = vs[2]
    if isinstance(d, C.LV) and isinstance(d.get(), (C.Ptr, C.DimPtr)):
        d = d.get()
    return newarray(m, n, vs[1], d, vs[3])


@api("PyArray_Zeros", "PyArray_Empty")
def zeros(m, n, args, fr):
    gil(m, n, "PyArray_Zeros")
    vs = [m.ev(x, fr) if i == 1 else m.rv(x, fr) for i, x in enumerate(args)]
    d = vs[1]
    if isinstance(d, C.LV) and isinstance(d.get(), (C.Ptr, C.DimPtr)):
        d = d.get()
    t = vs[2]
    if isinstance(t, C.Obj):
        t.own -= 1
    return newarray(m, n, vs[0], d, P_(t.dtype if isinstance(t, C.Obj) else 12))


@api("PyArray_ResolveWritebackIfCopy")
def resolve(m, n, args, fr):
    gil(m, n, "PyArray_ResolveWritebackIfCopy")
    o = notnull(m, n, m.rv(args[0], fr), "PyArray_ResolveWritebackIfCopy")
    o.wb = False
    return P_(-1) if failing(m, n, "write-back", "TypeError") else ZERO


@api("PyArray_DiscardWritebackIfCopy")
def discard(m, n, args, fr):
    gil(m, n, "PyArray_DiscardWritebackIfCopy")
    o = notnull(m, n, m.rv(args[0], fr), "PyArray_DiscardWritebackIfCopy")
    o.wb = False
    return None


def acc(f):
    def g(m, n, args, fr):
        vs = [m.rv(x, fr) for x in args]
        return f(m, n, m.array(vs[0], n), *vs[1:])
    return g


CALLS["PyArray_DIM"] = acc(lambda m, n, a, i: m.dim(a, i, n))
CALLS["PyArray_STRIDE"] = acc(lambda m, n, a, i: m.stride(a, i, n))
CALLS["PyArray_DIMS"] = CALLS["PyArray_SHAPE"] = acc(lambda m, n, a: C.DimPtr(a))
CALLS["PyArray_STRIDES"] = acc(lambda m, n, a: C.DimPtr(a, True))
CALLS["PyArray_DATA"] = CALLS["PyArray_BYTES"] = acc(lambda m, n, a: C.Ptr(a))
CALLS["PyArray_NDIM"] = acc(lambda m, n, a: P_(a.ndim) if a.ndim is not None else m.setnd(a))
CALLS["PyArray_ITEMSIZE"] = acc(lambda m, n, a: m.norm(m.isize(a)))


def pysize(m, n, a):
    nd = m.norm(P_(a.ndim)).const() if a.ndim is not None else None
    if nd is None:
        raise Undecided("size of an array of unknown dimensions")
    t = ONE
    for i in range(nd):
        t = t * m.dim(a, P_(i), n)
    return m.norm(t)


CALLS["PyArray_SIZE"] = CALLS["PyArray_MultiplyList"] = acc(pysize)


def pytype(m, n, a):
    if a.dtype is not None:
        return P_(a.dtype)
    return C.TypeNum(a, sym("type(%s)" % a.name)) if hasattr(C, "TypeNum") else sym("type(%s)" % a.name)


CALLS["PyArray_TYPE"] = acc(pytype)


@api("PyArray_GETPTR1", "PyArray_GetPtr")
def getptr(m, n, args, fr):
    raise Undecided("PyArray_GetPtr")


@api("PyObject_TypeCheck", "PyType_IsSubtype", "Py_IS_TYPE")
def typecheck(m, n, args, fr):
    o = m.rv(args[0], fr)
    if isinstance(o, C.Obj) and any((x.get("referencedDecl") or {}).get("name") == "PyArray_API" for x in args[1].walk()):
        notnull(m, n, o, "PyArray_Check")
        if o.kind in ("array", "new"):
            return ONE
        if o.kind == "any":
            if m.choose(2, "is an array") == 0:
                o.kind = "array"
                return ONE
            o.kind = "other"
            return ZERO
        return ZERO
    raise Undecided("type test")


@api("PyFloat_FromDouble", "PyLong_FromLong", "PyLong_FromSsize_t", "PyLong_FromSize_t", "PyLong_FromUnsignedLong", "PyLong_FromLongLong", "PyBool_FromLong",
     "PyUnicode_FromString", "PyTuple_New", "PyList_New", "PyDict_New")
def mkvalue(m, n, args, fr):
    nm = m.callee(n)[0]
    gil(m, n, nm)
    vs = [m.rv(x, fr) for x in args]
    for v in vs:
        if v is C.UNDEF:
            m.fault("uninit", n, "an uninitialised value is passed to %s" % nm)
    if nm == "PyBool_FromLong" or not failing(m, n, nm, "MemoryError"):
        return newobj(m, "value@" + m.at(n), "value")
    return None


@api("PyTuple_Pack")
def pack(m, n, args, fr):
    gil(m, n, "PyTuple_Pack")
    vs = [m.rv(x, fr) for x in args]
    c = m.num(vs[0]).const()
    if c is not None and c != len(vs) - 1:
        m.fault("parse", n, "PyTuple_Pack of %d values is given %d" % (c, len(vs) - 1))
    for v in vs[1:]:
        notnull(m, n, v, "PyTuple_Pack")
    return None if failing(m, n, "PyTuple_Pack", "MemoryError") else newobj(m, "value@" + m.at(n), "value")


@api("PyTuple_SetItem", "PyTuple_SET_ITEM", "PyList_SetItem")
def setitem(m, n, args, fr):
    gil(m, n, "PyTuple_SetItem")
    vs = [m.rv(x, fr) for x in args]
    notnull(m, n, vs[0], "PyTuple_SetItem")
    if isinstance(vs[2], C.Obj):
        vs[2].own -= 1
    return ZERO


@api("PyFloat_AsDouble")
def asdouble(m, n, args, fr):
    gil(m, n, "PyFloat_AsDouble")
    o = notnull(m, n, m.rv(args[0], fr), "PyFloat_AsDouble")
    if failing(m, n, "PyFloat_AsDouble", "TypeError"):
        return C.Dbl(("c", -1.0))
    return m.fresh_d()


@api("PyModule_Create2", "PyModule_Create", "_import_array", "PyModule_Create2TraceRefs")
def skip(m, n, args, fr):
    return newobj(m, "module", "value")


# ------------------------------------------------------------------ mathematics
def mathfn(name):
    def f(m, n, args, fr):
        vs = [m.dbl(m.rv(x, fr)) for x in args]
        return C.Dbl(("f", name) + tuple(v.t for v in vs))
    return f


for _n in ("sqrt", "log", "log2", "log10", "log1p", "exp", "exp2", "expm1", "pow", "ceil", "floor", "fabs", "round", "trunc", "sin", "cos", "tan", "tanh", "fmax", "fmin",
           "hypot", "cbrt", "copysign", "fma", "lgamma", "tgamma", "erf", "erfc", "fmod"):
    CALLS[_n] = CALLS["__builtin_" + _n] = CALLS["__" + _n] = mathfn(_n)


@api("abs", "labs", "llabs")
def absf(m, n, args, fr):
    v = m.rv(args[0], fr)
    if isinstance(v, C.Dbl):
        return C.Dbl(("f", "fabs", v.t))
    v = m.num(v)
    return v if m.cmp(">=", v, ZERO) else -v


@api("isnan", "__builtin_isnan", "__isnan")
def isnan(m, n, args, fr):
    return m.isnan(m.dbl(m.rv(args[0], fr)))


@api("isinf", "__builtin_isinf", "__builtin_isinf_sign")
def isinf(m, n, args, fr):
    x = m.dbl(m.rv(args[0], fr))
    if x.t[0] == "i" or x.t[0] == "c" and abs(x.t[1]) != float("inf"):
        return False
    if x.t not in m.inf:
        m.inf[x.t] = m.choose(2, "isinf") == 1
    return m.inf[x.t]


@api("isfinite", "__builtin_isfinite", "isnormal", "signbit", "__builtin_signbit")
def isfin(m, n, args, fr):
    x = m.dbl(m.rv(args[0], fr))
    k = ("fin", x.t)
    if k not in m.inf:
        m.inf[k] = m.choose(2, "isfinite") == 0
    return m.inf[k]


@api("__builtin_nanf", "__builtin_nan", "nan", "quiet_NaN")
def nanf(m, n, args, fr):
    return C.Dbl(("c", float("nan")))


@api("__builtin_inff", "__builtin_inf", "__builtin_huge_val", "__builtin_huge_valf", "infinity")
def inff(m, n, args, fr):
    return C.Dbl(("c", float("inf")))


def minmax(big):
    def f(m, n, args, fr):
        vs = [m.rv(x, fr) for x in args]
        if len(vs) != 2:
            raise Undecided("min/max")
        a, b = vs
        if isinstance(a, C.Dbl) or isinstance(b, C.Dbl):
            a, b = m.dbl(a), m.dbl(b)
            less = m.dcmp("<", a, b) if big else m.dcmp("<", b, a)
        else:
            a, b = m.num(a), m.num(b)
            less = m.cmp("<", a, b) if big else m.cmp("<", b, a)
        return b if less else a
    return f


CALLS["max"], CALLS["min"] = minmax(True), minmax(False)


@api("clamp")
def clampf(m, n, args, fr):
    v, lo, hi = [m.rv(x, fr) for x in args]
    if isinstance(v, C.Dbl):
        return lo if m.dcmp("<", m.dbl(v), m.dbl(lo)) else hi if m.dcmp("<", m.dbl(hi), m.dbl(v)) else v
    v, lo, hi = m.num(v), m.num(lo), m.num(hi)
    return lo if m.cmp("<", v, lo) else hi if m.cmp("<", hi, v) else v


# ------------------------------------------------------------------ standard library
@api("move", "forward", "as_const", "addressof", "ref", "cref")
def move(m, n, args, fr):
    if len(args) == 3:
        return copy(m, n, args, fr)
    return m.ev(args[0], fr)


@api("swap")
def swap(m, n, args, fr):
    a, b = m.ev(args[0], fr), m.ev(args[1], fr)
    if not isinstance(a, C.LV) or not isinstance(b, C.LV):
        raise Undecided("swap")
    x, y = a.get(), b.get()
    a.set(y)
    b.set(x)
    return None


@api("make_unique", "make_shared")
def make_unique(m, n, args, fr):
    ty = n.type + " " + n.qtype
    best = None
    for r in m.records:
        for t in re.finditer(r"(?<![\w])%s(?![\w])" % re.escape(r or "?"), ty):
            if best is None or len(r) > len(best) or t.start() > 0 and ty.find(best + ">") < 0:
                best = r
    mm = re.search(r"(?:unique_ptr|_MakeUniq|shared_ptr|__detail::__unique_ptr_t)<([\w:]+)", ty)
    if mm and mm.group(1).split("::")[-1] in m.records:
        best = mm.group(1).split("::")[-1]
    if best is None:
        raise Undecided("make_unique of %s" % ty)
    av = [m.ev(x, fr) for x in args]
    av = [a.get() if isinstance(a, C.LV) and not isinstance(a.get(), (C.Vec, C.Inst)) else a for a in av]
    m.inject(n, "bad_alloc")
    return m.construct(best, av, n, heap=True)


@api("make_tuple", "make_pair", "forward_as_tuple")
def make_tuple(m, n, args, fr):
    return tuple(m.rv(x, fr) for x in args)


@api("tie")
def tie(m, n, args, fr):
    return C.TieLV([m.ev(x, fr) for x in args])


@api("get")
def getf(m, n, args, fr):
    v = m.rv(args[0], fr)
    mm = re.search(r"get<(\d+)", (strip(n.inner[0]).get("referencedDecl") or {}).get("name") or "")
    raise Undecided("std::get")


@api("begin", "cbegin")
def begin(m, n, args, fr):
    v = m.rv(args[0], fr)
    if isinstance(v, C.Vec):
        return C.It(v, ZERO)
    raise Undecided("begin")


@api("end", "cend")
def end(m, n, args, fr):
    v = m.rv(args[0], fr)
    if isinstance(v, C.Vec):
        return C.It(v, m.norm(v.size), True)
    raise Undecided("end")


@api("size")
def sizef(m, n, args, fr):
    v = m.rv(args[0], fr)
    if isinstance(v, C.Vec):
        return m.norm(v.size)
    raise Undecided("size")


@api("back_inserter", "inserter")
def back(m, n, args, fr):
    v = m.rv(args[0], fr)
    if not isinstance(v, C.Vec):
        raise Undecided("inserter")
    return C.BackIns(v)


def span(m, it0, it1, n):
    """a range of one vector, array or buffer: (holder, first, count)"""
    if isinstance(it0, C.It) and isinstance(it1, C.It) and it0.v is it1.v:
        cnt = m.norm(it1.off - it0.off)
        whole = it0.off == ZERO and m.norm(it1.off - it0.v.size).const() == 0
        if not whole:
            m.oblige("bounds", n, [m.norm(it0.off), cnt, m.norm(it0.v.size) - it1.off], "a range beyond a vector of length %r" % m.norm(it0.v.size))
        return it0.v, m.norm(it0.off), cnt, whole
    if isinstance(it0, C.Ptr) and isinstance(it1, C.Ptr) and it0.o is it1.o:
        c = m.exact(m.norm(it1.off - it0.off), 8)
        if c is None:
            raise Undecided("range of elements")
        probe(m, it0, c, 8, n, False)
        return it0.o, m.norm(it0.off), c, False
    raise Undecided("range")


def probe(m, p, cnt, size, n, write):
    """every element of [p, p + cnt) may be accessed"""
    cnt = m.norm(cnt)
    if cnt.const() == 0:
        return
    old = list(m.facts)
    try:
        m.assume(cnt - 1)
        m.load(p, size, "double", n, write)
        m.load(C.Ptr(p.o, m.norm(p.off) + (cnt - 1) * size), size, "double", n, write)
    except C.PathEnd:
        pass
    m.facts = old


@api("accumulate", "reduce", "inner_product")
def accumulate(m, n, args, fr):
    vs = [m.rv(x, fr) for x in args]
    h, off, cnt, whole = span(m, vs[0], vs[1], n)
    if isinstance(vs[2], C.Dbl) or any(isinstance(v, C.Dbl) for v in vs):
        return m.fresh_d()
    return m.fresh("sum@" + m.at(n), True)


@api("iota")
def iota(m, n, args, fr):
    vs = [m.rv(x, fr) for x in args]
    h, off, cnt, whole = span(m, vs[0], vs[1], n)
    if not isinstance(h, C.Vec):
        raise Undecided("iota")
    m.wrote(("vec", h.tag, "content"), h.thread, n)
    first = m.num(vs[2])
    h.items = None
    h.sampleof = None
    if C.bits(h.elem) is None:
        return None
    generic(m, h, cnt, first, cnt)
    h.perm = whole and first == ZERO
    m.log.append(("iota", h, first, whole, n))
    return None


def generic(m, v, cnt, first, width):
    """elements first .. first + width - 1 are stored into v"""
    old = list(m.facts)
    try:
        m.assume(m.norm(cnt) - 1)
        e = m.fresh("e")
        m.assume(e - first)
        m.assume(first + width - 1 - e)
        m.summ_store(m.elems, m.cls_of(v.site), e)
    except C.PathEnd:
        pass
    m.facts = old


@api("sample")
def sample(m, n, args, fr):
    vs = [m.ev(x, fr) for x in args]
    vs = [x.get() if isinstance(x, C.LV) else x for x in vs]
    h, off, cnt, whole = span(m, vs[0], vs[1], n)
    out, k, eng = vs[2], m.num(vs[3]), vs[4]
    if not isinstance(h, C.Vec) or not isinstance(eng, C.Eng):
        raise Undecided("std::sample")
    m.uses(eng, n)
    s = m.fresh("sampled")
    m.assume(s)
    m.assume(k - s)
    m.assume(cnt - s)
    if not m.ge0(k):
        m.oblige("range", n, [k], "a negative sample size")
    if isinstance(out, C.BackIns):
        v = out.v
        before = m.norm(v.size)
        h.spanned = whole
        m.log.append(("sample", h, h.perm and whole, v, before, k, eng, n, m.thread, m.snap()))
        m.wrote(("vec", v.tag, "size"), v.thread, n)
        m.inject(n, "bad_alloc")
        v.size = before + s
        v.items = None
        v.perm = False
        v.sampleof = (h, h.perm and whole, before, k, s, eng, n)
    elif isinstance(out, C.It):
        v = out.v
        m.log.append(("sample", h, h.perm and whole, v, m.norm(out.off), k, eng, n, m.thread, m.snap()))
        m.oblige("bounds", n, [m.norm(out.off), m.norm(v.size) - out.off - s], "the sample exceeds its destination")
        m.wrote(("vec", v.tag, "content"), v.thread, n)
        v.items = None
        v.sampleof = (h, h.perm and whole, m.norm(out.off), k, s, eng, n)
        return C.It(v, out.off + s)
    else:
        raise Undecided("destination of a sample")
    if C.bits(v.elem) is not None:
        if h.perm and whole:
            generic(m, v, h.size, ZERO, m.norm(h.size))
        else:
            m.unite(h.site, v.site)
    return out


@api("shuffle", "random_shuffle")
def shuffle(m, n, args, fr):
    vs = [m.ev(x, fr) for x in args]
    vs = [x.get() if isinstance(x, C.LV) else x for x in vs]
    h, off, cnt, whole = span(m, vs[0], vs[1], n)
    if len(vs) > 2 and isinstance(vs[2], C.Eng):
        m.uses(vs[2], n)
    if not isinstance(h, C.Vec):
        raise Undecided("shuffle")
    m.wrote(("vec", h.tag, "order"), h.thread, n)
    m.log.append(("shuffle", h, whole, vs[2] if len(vs) > 2 else None, n))
    h.items = None
    return None


@api("sort", "stable_sort", "reverse", "partition", "stable_partition", "nth_element")
def reorder(m, n, args, fr):
    vs = [m.rv(x, fr) for x in args]
    h, off, cnt, whole = span(m, vs[0], vs[1], n)
    if not isinstance(h, C.Vec) or len(args) > 2:
        raise Undecided("reordering")
    m.wrote(("vec", h.tag, "order"), h.thread, n)
    h.items = None
    return None


@api("copy", "copy_n")
def copy(m, n, args, fr):
    vs = [m.rv(x, fr) for x in args]
    if (m.callee(n)[0] or "") == "copy_n":
        k = m.num(vs[1])
        a = vs[0]
        vs = [a, C.It(a.v, a.off + k) if isinstance(a, C.It) else C.Ptr(a.o, a.off + k * 8), vs[2]]
    h, off, cnt, whole = span(m, vs[0], vs[1], n)
    out = vs[2]
    if isinstance(out, C.BackIns):
        v = out.v
        m.wrote(("vec", v.tag, "size"), v.thread, n)
        v.size = m.norm(v.size) + cnt
        v.items, v.perm = None, False
        m.log.append(("vecop", "copy", v, n))
        if C.bits(v.elem) is not None and isinstance(h, C.Vec):
            m.unite(h.site, v.site)
        return out
    if isinstance(out, C.It):
        v = out.v
        m.oblige("bounds", n, [m.norm(out.off), m.norm(v.size) - out.off - cnt], "copy beyond a vector of length %r" % m.norm(v.size))
        m.wrote(("vec", v.tag, "content"), v.thread, n)
        v.items, v.perm = None, False
        m.log.append(("vecop", "copy", v, n))
        if C.bits(v.elem) is not None and isinstance(h, C.Vec):
            m.unite(h.site, v.site)
        return C.It(v, out.off + cnt)
    if isinstance(out, C.Ptr):
        probe(m, out, cnt, 8, n, True)
        return C.Ptr(out.o, out.off + cnt * 8)
    if out is None or out is C.UNDEF:
        m.live(out, n)
    raise Undecided("destination of a copy")


@api("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove")
def memcpy(m, n, args, fr):
    vs = [m.rv(x, fr) for x in args]
    k = m.num(vs[2])
    for p, w in ((vs[0], True), (vs[1], False)):
        p = m.live(p, n, "copied from or to")
        c = m.exact(k, 8)
        if c is None or not isinstance(p, C.Ptr):
            raise Undecided("memcpy")
        probe(m, p, c, 8, n, w)
    return vs[0]


@api("fill", "fill_n")
def fillf(m, n, args, fr):
    vs = [m.rv(x, fr) for x in args]
    if (m.callee(n)[0] or "") == "fill_n":
        k = m.num(vs[1])
        a = vs[0]
        vs = [a, C.It(a.v, a.off + k) if isinstance(a, C.It) else C.Ptr(a.o, a.off + k * 8), vs[2]]
    h, off, cnt, whole = span(m, vs[0], vs[1], n)
    if isinstance(h, C.Vec):
        m.wrote(("vec", h.tag, "content"), h.thread, n)
        h.items, h.perm = None, False
        m.log.append(("vecop", "fill", h, n))
        if C.bits(h.elem) is not None:
            m.fill(h, vs[2])
    return None


# ------------------------------------------------------------------ strings
def chars(m, p, width, n):
    """width bytes from p may be read"""
    p = m.live(p, n, "read")
    if not isinstance(p, C.Ptr):
        raise Undecided("string")
    if not isinstance(p.o, C.Obj):
        raise Undecided("string")
    o = m.array(p.o, n)
    w = m.norm(width)
    if w.const() == 0:
        return
    off = m.norm(p.off)
    sp = [s for s in off.syms() if s.startswith("off(")]
    if sp and off == sym(sp[0]):
        # an address kept earlier: the start of some element
        idx, rest = {}, ZERO
        it = m.norm(m.isize(o))
        m.oblige("bounds", n, [it - w], "%r bytes are read from an element of %s of %r bytes" % (w, o.name, it))
        return
    m.access(o, off, None, n, False) if False else None
    idx, rest = m.split(o, off)
    if idx is None or rest.const() is None:
        raise Undecided("address of a string")
    if o.ndim is None or isinstance(o.ndim, P):
        m.fault("ndim", n, "strings of %s are read before its number of dimensions is established" % o.name)
        raise C.PathEnd()
    if o.dtype is None:
        m.fault("dtype", n, "strings of %s are read before its element type is established" % o.name)
        raise C.PathEnd()
    it = m.norm(m.isize(o))
    goals = []
    for a in range(o.ndim):
        i = idx.get(a, ZERO)
        goals += [i, m.dim(o, P_(a), n) - 1 - i]
    goals.append(it - rest - w)
    m.oblige("bounds", n, goals, "%r bytes read from an element of %s of %r bytes" % (w, o.name, it))


def pkey(m, p):
    if isinstance(p, C.LV):
        p = p.get()
    return "%s+%r" % (getattr(p.o, "name", "?"), m.norm(p.off))


def atoms(m):
    """what the symbols of string functions stand for"""
    return m.__dict__.setdefault("strs", {})


@api("strnlen", "__builtin_strnlen")
def strnlen(m, n, args, fr):
    p, w = m.rv(args[0], fr), m.num(m.rv(args[1], fr))
    chars(m, p, w, n)
    s = sym("strnlen(%s,%r)" % (pkey(m, p), m.norm(w)))
    atoms(m)[list(s.syms())[0]] = ("strnlen", (p,), m.norm(w))
    m.assume(s)
    m.assume(w - s)
    return m.norm(s)


@api("strlen", "__builtin_strlen")
def strlen(m, n, args, fr):
    p = m.live(m.rv(args[0], fr), n, "read")
    if isinstance(p, C.Str):
        return P_(len(p.s))
    if isinstance(p, C.Ptr) and isinstance(p.o, C.Obj):
        m.fault("bounds", n, "strlen of an element of %s, which need not be terminated, reads past it" % p.o.name)
    s = sym("strlen(%s)" % pkey(m, p))
    atoms(m)[list(s.syms())[0]] = ("strlen", (p,), None)
    m.assume(s)
    return s


@api("memcmp", "__builtin_memcmp", "strncmp", "__builtin_strncmp")
def memcmp(m, n, args, fr):
    nm = m.callee(n)[0].replace("__builtin_", "")
    a, b, w = m.rv(args[0], fr), m.rv(args[1], fr), m.num(m.rv(args[2], fr))
    chars(m, a, w, n)
    chars(m, b, w, n)
    w = m.norm(w)
    if w.const() == 0:
        return ZERO
    s = sym("%s(%s,%s,%r)" % (nm, pkey(m, a), pkey(m, b), w))
    atoms(m)[list(s.syms())[0]] = (nm, (a, b), w)
    return m.norm(s)


@api("strcmp", "__builtin_strcmp")
def strcmp(m, n, args, fr):
    a, b = m.rv(args[0], fr), m.rv(args[1], fr)
    for p in (a, b):
        if isinstance(p, C.Ptr) and isinstance(p.o, C.Obj):
            m.fault("bounds", n, "strcmp of an element of %s, which need not be terminated, reads past it" % p.o.name)
    s = sym("strcmp(%s,%s)" % (pkey(m, a), pkey(m, b)))
    atoms(m)[list(s.syms())[0]] = ("strcmp", (a, b), None)
    return s


# ------------------------------------------------------------------ exceptions and threads
@api("current_exception")
def current(m, n, args, fr):
    return C.Opaque("exc:" + m.curexc[-1]) if m.curexc else C.Opaque("noexc")


@api("rethrow_exception")
def rethrow(m, n, args, fr):
    v = m.rv(args[0], fr)
    if isinstance(v, C.Opaque) and v.name.startswith("exc:"):
        raise C.Throw(v.name[4:])
    m.fault("null", n, "no exception to rethrow")
    raise C.PathEnd()


@api("hardware_concurrency")
def hwc(m, n, args, fr):
    m.log.append(("workers", n))
    if "workers" in m.config:
        return P_(m.config["workers"])
    s = sym("cores")
    m.assume(s)
    m.assume(P_(2 ** 32 - 1) - s)
    return s


@api("operator==", "operator!=")
def nothing(m, n, args, fr):
    raise Undecided("operator")


@api("async")
def asyncf(m, n, args, fr):
    raise Undecided("std::async")
