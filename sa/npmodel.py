"""Transfer functions of the library operations used by the analysed sources
(numpy, scipy, math, builtins) over abstract values."""
import ast
from . import terms as t
from .terms import (T, ZERO, ONE, NAN, INF, Undecided, const, add, sub, mul, div, neg, ite, notT, lt0, le0, eq0,
                    subst, fn, sumT)
from .vals import *
from . import pyeval as pe

PI = t.PI
HALF = const(t.Fr(1, 2))

# ------------------------------------------------------------------ scalar helpers


def floorT(x):
    if t.is_int(x):
        return x
    c = t.cval(x)
    if c is not None:
        return const(c.numerator // c.denominator)
    if not x.den:
        ip, rp = {}, {}
        for m, co in x.num.items():
            if co.denominator == 1 and all(t.ATOMS[a].isint and isinstance(e, int) and e > 0 for a, e in m):
                ip[m] = co
            elif m == () and co.denominator != 1:
                f = co.numerator // co.denominator
                if f:
                    ip[m] = t.Fr(f)
                rp[m] = co - f
            else:
                # integer part of a rational multiple of integer atoms
                if all(t.ATOMS[a].isint and isinstance(e, int) and e > 0 for a, e in m):
                    f = co.numerator // co.denominator
                    if f:
                        ip[m] = t.Fr(f)
                    r = co - f
                    if r:
                        rp[m] = r
                else:
                    rp[m] = co
        if ip:
            i = t._intern(ip, {})
            r = t._intern(rp, {})
            return add(i, floorT(r))
        # 0 <= x < 1 provable with integers over a common denominator
        d = 1
        for co in x.num.values():
            d = d * co.denominator // __import__("math").gcd(d, co.denominator)
        y = mul(x, const(d))
        if t.is_int(y):
            lo = t.bound(y, False)
            hi = t.bound(y, True)
            if lo is not None and hi is not None and lo >= 0 and hi < d:
                return ZERO
    else:
        # (r + q*b)/b with 0<=r<b
        r = _symfloor(x)
        if r is not None:
            return r
    return t.atomT(t.fn_atom("floor", (x,), isint=True))


def _symfloor(x):
    """floor((r + q*b)/b) = q when 0 <= r < b (integers)"""
    # x = num/den; den a product of integer atoms b
    den = t._intern({tuple((a, e) for a, e in x.den): t.Fr(1)}, {})
    num = t._intern(dict(x.num), {})
    if not (t.is_int(den) and t.is_int(num)):
        return None
    q, r = {}, {}
    for m, c in num.num.items():
        d = t._mdiv(m, x.den) if all(dict(m).get(a, 0) >= e for a, e in x.den) else None
        if d is not None:
            q[d] = c
        else:
            r[m] = c
    r = t._intern(r, {})
    if t.sign(r) in ("pos", "nonneg", "zero") and t.sign(sub(r, den)) == "neg":
        return t._intern(q, {})
    return None


def _refn_floor(args, at):
    return floorT(args[0])


t.REFN["floor"] = _refn_floor


def fdiv(a, b):
    return floorT(div(a, b))


def modT(a, b):
    return sub(a, mul(b, fdiv(a, b)))


def truncT(x):
    if t.is_int(x):
        return x
    s = t.sign(x)
    f = floorT(x)
    if s in ("pos", "nonneg", "zero"):
        return f
    g = neg(floorT(neg(x)))
    if s in ("neg", "nonpos"):
        return g
    return ite(lt0(x), g, f)


def rintT(x):
    if t.is_int(x):
        return x
    c = t.cval(x)
    if c is not None:
        return const(round(c))
    return t.atomT(t.fn_atom("rint", (x,), isint=True))


t.REFN["rint"] = lambda args, at: rintT(args[0])


def opaque(name, *args, **kw):
    return t.atomT(t.fn_atom(name, args, **kw))


def ppfT(p):
    return fn("ppf", p)


def isnan(x):
    return pe.isnanT(x)


def isinf(x):
    if t._has(x, t.INF_ATOM):
        return ONE
    if t.is_const(x):
        return ZERO
    return t.boolT((("s", "isinf"), x))


def signT(x):
    return sub(lt0(neg(x)), lt0(x))


# ------------------------------------------------------------------ arrays

def new(it, shape, f, dt="f", kind="nd"):
    shape = tuple(shape)
    return it.alloc(Arr(shape, f, dt, kind))


def wrap(it, shape, f, dt="f", filt=None):
    """array result; 0-d results become scalars"""
    shape = tuple(shape)
    if not shape:
        v = it.num(f(()))
        if it.pyfloats is not None:
            return new(it, (), lambda i: v, dt)
        return mkbool(v) if dt == "b" else v
    return it.alloc(Arr(shape, f, dt, "nd", filt=filt))


def as_arr(it, v):
    a = it.arr(v)
    if a is None:
        if isinstance(v, (T, BT, bool)):
            x = it.num(v)
            return Arr((), lambda i: x, "b" if isinstance(v, (BT, bool)) else "f", "nd")
        if isinstance(v, CondV):
            r = it.map_cond(v, lambda x: it.alloc(as_arr(it, x)))
            if isinstance(r, Ref):
                return it.arr(r)
        if v is None:
            raise AbsRaise("TypeError", it.curnode)
        it.undecided("array expected, got %r" % (v,))
    if a.ndim >= 1 and a.kind != "nd":
        return deep(it, a)
    return a


def deep(it, a):
    """nested sequence -> rectangular nd view"""
    bv = [t.fresh_bv(s, tag="d") for s in a.shape]
    c0 = t.cval(a.shape[0])
    if c0 == 0:
        return Arr(a.shape, a.f, a.dt, "nd")
    probe_idx = tuple(t.atomT(b) for b in bv)
    if c0 is not None:
        probe_idx = (ZERO,) + probe_idx[1:]
    p = a.get(probe_idx)
    s = it.arr(p) if not isinstance(p, (T, BT, bool)) else None
    if s is None:
        return Arr(a.shape, a.f, a.dt, "nd", filt=a.filt)
    if s.kind != "nd":
        s = deep(it, s)
    k = a.ndim

    def f(i):
        v = a.get(i[:k])
        if isinstance(v, Ref) and ("h", v.id) not in it.st:
            v = a.f(tuple(i[:k]))        # remembered from a state that is gone
        x = as_arr(it, v)
        return x.get(i[k:])
    sh = s.shape
    if c0 is None:
        for d in sh:
            if bv[0].id in d.deps:
                it.undecided("ragged sequence")
    return Arr(a.shape + sh, f, s.dt, "nd", filt=a.filt)


def dim_join(it, a, b):
    if a is b:
        return a
    ca, cb = t.cval(a), t.cval(b)
    if ca == 1:
        return b
    if cb == 1:
        return a
    if ca is not None and cb is not None:
        raise AbsRaise("ValueError", it.curnode)
    it.shape_reqs.append((it.pcond(), a, b, it.curfile, it.curnode))
    return a if ca is not None else b


def bshape(it, arrs):
    n = max(a.ndim for a in arrs)
    out = []
    for d in range(n):
        cur = None
        for a in arrs:
            j = d - (n - a.ndim)
            if j < 0:
                continue
            if cur is not None and cur is not a.shape[j] and a.filt is None and eq0(sub(cur, a.shape[j])) is ZERO and \
                    eq0(sub(cur, ONE)) is ZERO and eq0(sub(a.shape[j], ONE)) is ZERO and all(x.filt is None for x in arrs):
                raise AbsRaise("ValueError", it.curnode)
            cur = a.shape[j] if cur is None else dim_join(it, cur, a.shape[j])
        out.append(cur)
    return tuple(out)


def bget(a, idx):
    """element of a broadcast against an index of higher rank"""
    i = idx[len(idx) - a.ndim:]
    return a.get(tuple(ZERO if t.cval(s) == 1 else x for s, x in zip(a.shape, i)))


def same_filt(it, arrs):
    fs = [a.filt for a in arrs if a.filt is not None]
    if not fs:
        return None
    if len(fs) > 1:
        b = t.fresh_bv(tag="m")
        v = [f((t.atomT(b),)) for f in fs]
        if any(x is not v[0] for x in v[1:]):
            it.undecided("operation on differently selected elements")
    return fs[0]


class Spectrum(Arr):
    """discrete Fourier transform of a circular convolution of real sequences"""
    __slots__ = ("seqs",)

    def __init__(self, it, seqs):
        n = seqs[0].shape[0]
        Arr.__init__(self, (n,), lambda i: it.undecided("element of a Fourier transform"))
        self.seqs = list(seqs)


def spectrum_op(it, f, arrs):
    if len(arrs) == 2 and f is mul:
        a, b = arrs
        if isinstance(a, Spectrum) and isinstance(b, Spectrum):
            dim_join(it, a.shape[0], b.shape[0])
            return it.alloc(Spectrum(it, a.seqs + b.seqs))
        if not isinstance(a, Spectrum):
            a, b = b, a
        if b.ndim == 0:
            k = it.num(b.get(()))
            x = a.seqs[0]
            return it.alloc(Spectrum(it, [Arr(x.shape, lambda i: mul(k, it.num(x.get(i))))] + a.seqs[1:]))
    if len(arrs) == 1 and f is CONJ:
        x = [Arr(q.shape, lambda i, q=q: q.get((modT(neg(i[0]), q.shape[0]),))) for q in arrs[0].seqs]
        return it.alloc(Spectrum(it, x))
    it.undecided("operation on a Fourier transform")


def elementwise(it, f, vals, dt=None):
    """apply scalar function f(*T) with broadcasting"""
    arrs = []
    anyarr = False
    for v in vals:
        if isinstance(v, (T, BT, bool)):
            x = it.num(v)
            arrs.append(Arr((), lambda i, x=x: x, "f", "nd"))
        else:
            if isinstance(v, CondV):
                r = it.map_cond(v, lambda x: x if isinstance(x, (T, BT, bool)) else it.alloc(as_arr(it, x)))
                if isinstance(r, (T, BT, bool)):
                    x = it.num(r)
                    arrs.append(Arr((), lambda i, x=x: x, "f", "nd"))
                    continue
                v = r
            a = as_arr(it, v)
            arrs.append(a)
            anyarr = anyarr or a.ndim > 0 or it.pyfloats is not None
    if not anyarr:
        r = f(*[it.num(a.get(())) for a in arrs])
        return mkbool(r) if dt == "b" else r
    if any(isinstance(a, Spectrum) for a in arrs):
        return spectrum_op(it, f, arrs)
    sh = bshape(it, arrs)
    flt = same_filt(it, arrs)
    if dt is None:
        dt = "i" if all(a.dt in "ib" or (a.ndim == 0 and t.is_int(it.num(a.get(())))) for a in arrs) and f in INTOPS else "f"
    if not sh:
        r = f(*[it.num(a.get(())) for a in arrs])
        return new(it, (), lambda i: r, dt)
    return it.alloc(Arr(sh, lambda i: f(*[it.num(bget(a, i)) for a in arrs]), dt, "nd", filt=flt))


INTOPS = {add, sub, mul}


# ------------------------------------------------------------------ operators

def powop(a, b):
    cb = t.cval(b)
    if cb is not None and cb.denominator == 1 and abs(cb) <= 12:
        return t.powi(a, int(cb))
    return t.powT(a, b)


def unary(it, op, v):
    if isinstance(v, CondV):
        return it.map_cond(v, lambda x: unary(it, op, x))
    if op == "USub":
        return elementwise(it, neg, [v])
    if op == "UAdd":
        return v
    if op == "Invert":
        if isinstance(v, (Ref, View)):
            return elementwise(it, notT, [v], dt="b")
        if isinstance(v, (BT,)):
            return mkbool(notT(v.t))
        return sub(neg(it.num(v)), ONE)
    it.undecided("unary " + op)


BIN = {"Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": powop, "FloorDiv": fdiv, "Mod": modT}


def isseq_list(it, v):
    if isinstance(v, tuple):
        return True
    if isinstance(v, Ref):
        c = it.content(v)
        return isinstance(c, (PyList, pe.AppMark)) or (isinstance(c, Arr) and c.kind == "list")
    return False


def binop(it, op, a, b):
    if isinstance(a, CondV):
        return it.map_cond(a, lambda x: binop(it, op, x, b))
    if isinstance(b, CondV):
        return it.map_cond(b, lambda x: binop(it, op, a, x))
    if isinstance(a, Poison):
        raise NeedCarry(a.key)
    if isinstance(b, Poison):
        raise NeedCarry(b.key)
    if isinstance(a, str) or isinstance(b, str):
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Mod":
            return "{fmt}"
        if op == "Mult":
            c = t.cval(b if isinstance(a, str) else a)
            if c is not None:
                return (a if isinstance(a, str) else b) * int(c)
        raise AbsRaise("TypeError", it.curnode)
    if a is None or b is None:
        raise AbsRaise("TypeError", it.curnode)
    if isinstance(a, Ref) and isinstance(it.content(a), Inst):
        return inst_op(it, a, op, b)
    if isinstance(b, Ref) and isinstance(it.content(b), Inst):
        return inst_op(it, b, op, a, True)
    if isinstance(a, Ref) and isinstance(it.content(a), PyDict) and op == "BitOr":
        d = dict(it.content(a).items)
        d.update(it.content(b).items)
        return it.alloc(PyDict(d))
    la, lb = isseq_list(it, a), isseq_list(it, b)
    if la and lb and op == "Add":
        return seq_concat(it, a, b)
    if op == "Mult" and (la or lb) and not (it.is_arr(a) or it.is_arr(b)):
        return seq_repeat(it, a if la else b, it.num(b if la else a))
    if la and lb:
        raise AbsRaise("TypeError", it.curnode)
    if op in ("BitAnd", "BitOr", "BitXor"):
        f = {"BitAnd": mul, "BitOr": lambda x, y: sub(add(x, y), mul(x, y)),
             "BitXor": lambda x, y: sub(add(x, y), mul(const(2), mul(x, y)))}[op]
        if isinstance(a, (BT, bool)) or isinstance(b, (BT, bool)) or it.is_arr(a) or it.is_arr(b):
            return elementwise(it, f, [a, b], dt="b")
        ca, cb = t.cval(it.num(a)), t.cval(it.num(b))
        if ca is not None and cb is not None:
            return const({"BitAnd": int(ca) & int(cb), "BitOr": int(ca) | int(cb), "BitXor": int(ca) ^ int(cb)}[op])
        it.undecided("bit operation")
    if op == "MatMult":
        return matmul(it, a, b)
    f = BIN.get(op)
    if f is None:
        it.undecided("operator " + op)
    return elementwise(it, f, [a, b])


def inst_op(it, o, op, b, rev=False):
    nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow"}.get(op, op.lower())
    m = it.getattr(o, "__%s%s__" % ("r" if rev else "", nm))
    return it.call(m, [b], {})


def seq_concat(it, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    x, y = it.content(a) if isinstance(a, Ref) else PyList(a), it.content(b) if isinstance(b, Ref) else PyList(b)
    if isinstance(x, PyList) and isinstance(y, PyList):
        return it.alloc(PyList(x.items + y.items))
    p, q = it.arr(a), it.arr(b)
    n = p.shape[0]

    def f(i):
        c = lt0(sub(i[0], n))
        if c is ONE:
            return p.get(i)
        if c is ZERO:
            return q.get((sub(i[0], n),))
        return it.merge_val(c, p.get(i), q.get((sub(i[0], n),)), it.st, it.st)
    return it.alloc(Arr((add(n, q.shape[0]),), f, p.dt, "list"))


def seq_repeat(it, a, n):
    items = it.as_items(a)
    c = t.cval(n)
    if c is not None and c * len(items) <= 64:
        r = items * int(c)
        return tuple(r) if isinstance(a, tuple) else it.alloc(PyList(r))
    if len(items) == 1:
        x = items[0]
        return it.alloc(Arr((n,), lambda i: x, "b" if isinstance(x, (bool, BT)) else "f", "list"))
    m = const(len(items))
    return it.alloc(Arr((mul(n, m),), lambda i: it.pick(items, modT(i[0], m)), "f", "list"))


def eqval(it, a, b):
    """python equality -> condition T"""
    if a is b:
        if isinstance(a, T) and t._has(a, t.NAN_ATOM):
            return ZERO
        return ONE
    if isinstance(a, CondV) or isinstance(b, CondV):
        if isinstance(a, CondV):
            return it.num(it.map_cond(a, lambda x: mkbool(eqval(it, x, b))))
        return eqval(it, b, a)
    num = (T, BT, bool)
    if isinstance(a, num) and isinstance(b, num):
        return eq0(sub(it.num(a), it.num(b)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return ZERO
        r = ONE
        for x, y in zip(a, b):
            r = mul(r, eqval(it, x, y))
        return r
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        if type(a) is type(b):
            return ONE if a == b else ZERO
        return ZERO
    if isinstance(a, Ref) and isinstance(b, Ref):
        ca, cb = it.content(a), it.content(b)
        if isinstance(ca, PyList) and isinstance(cb, PyList):
            return eqval(it, tuple(ca.items), tuple(cb.items))
        if isinstance(ca, Inst) or isinstance(cb, Inst):
            return ZERO
    if isinstance(a, (Ref, tuple)) and isinstance(b, (Ref, tuple)) and isseq_list(it, a) != isseq_list(it, b):
        return ZERO
    if isinstance(a, (Ext, Func, ClassV, ModV)) or isinstance(b, (Ext, Func, ClassV, ModV)):
        return ZERO
    it.undecided("equality of %r and %r" % (a, b))


def compare(it, op, a, b):
    if op in ("Is", "IsNot"):
        if isinstance(a, CondV):
            return it.map_cond(a, lambda x: compare(it, op, x, b))
        if isinstance(b, CondV):
            return it.map_cond(b, lambda x: compare(it, op, a, x))
        r = a is b or (isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id)
        if not r and isinstance(a, BT) and isinstance(b, bool):
            return mkbool(a.t if b else notT(a.t)) if op == "Is" else mkbool(notT(a.t) if b else a.t)
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        if isinstance(b, str) and isinstance(a, str):
            r = ONE if a in b else ZERO
        elif isinstance(b, Ref) and isinstance(it.content(b), PyDict):
            r = ONE if it.dkey(a) in it.content(b).items else ZERO
        else:
            r = ZERO
            for x in it.as_items(b):
                e = eqval(it, a, x)
                r = sub(add(r, e), mul(r, e))
        return mkbool(r if op == "In" else notT(r))
    if isinstance(a, CondV):
        return it.map_cond(a, lambda x: compare(it, op, x, b))
    if isinstance(b, CondV):
        return it.map_cond(b, lambda x: compare(it, op, a, x))
    if it.is_arr(a) or it.is_arr(b):
        if a is None or b is None:
            return op == "NotEq"
        f = {"Lt": lambda x, y: lt0(sub(x, y)), "Gt": lambda x, y: lt0(sub(y, x)), "LtE": lambda x, y: le0(sub(x, y)),
             "GtE": lambda x, y: le0(sub(y, x)), "Eq": lambda x, y: eq0(sub(x, y)), "NotEq": lambda x, y: notT(eq0(sub(x, y)))}[op]
        return elementwise(it, f, [a, b], dt="b")
    if op == "Eq":
        return mkbool(eqval(it, a, b))
    if op == "NotEq":
        return mkbool(notT(eqval(it, a, b)))
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
    if a is None or b is None:
        raise AbsRaise("TypeError", it.curnode)
    if isinstance(a, tuple) and isinstance(b, tuple):
        # lexicographic
        return mkbool(lexlt(it, op, a, b))
    x, y = it.num(a), it.num(b)
    d = sub(x, y)
    if op == "Lt":
        return mkbool(lt0(d))
    if op == "Gt":
        return mkbool(lt0(neg(d)))
    if op == "LtE":
        return mkbool(le0(d))
    return mkbool(le0(neg(d)))


def lexlt(it, op, a, b):
    if not a or not b:
        if op == "Lt":
            return ONE if not a and b else ZERO
        if op == "Gt":
            return ONE if a and not b else ZERO
        return notT(lexlt(it, "Gt" if op == "LtE" else "Lt", a, b))
    x, y = it.num(a[0]), it.num(b[0])
    s = {"Lt": lt0(sub(x, y)), "LtE": lt0(sub(x, y)), "Gt": lt0(sub(y, x)), "GtE": lt0(sub(y, x))}[op]
    return add(s, mul(eq0(sub(x, y)), lexlt(it, op, a[1:], b[1:])))


def matmul(it, a, b):
    x, y = as_arr(it, a), as_arr(it, b)
    return dot(it, x, y)


def dot(it, x, y):
    if x.ndim == 0 or y.ndim == 0:
        return elementwise(it, mul, [it.alloc(x), it.alloc(y)])
    m1, m2 = x.shape[-1], y.shape[0] if y.ndim == 1 else y.shape[-2]
    if eq0(sub(m1, m2)) is ZERO and x.filt is None and y.filt is None:
        raise AbsRaise("ValueError", it.curnode)
    n = dim_join(it, m1, m2)
    flt = x.filt if x.ndim == 1 else (y.filt if y.ndim == 1 else None)
    if flt is not None and x.ndim == 1 and y.ndim == 1:
        flt = same_filt(it, [x, y])
    if y.ndim == 1:
        sh = x.shape[:-1]

        def f(i):
            k = t.fresh_bv(n, tag="s")
            kt = t.atomT(k)
            v = mul(it.num(x.get(i + (kt,))), it.num(y.get((kt,))))
            if flt is not None:
                v = mul(flt((kt,)), v)
            return sumT(n, k, v)
        return wrap(it, sh, f)
    sh = x.shape[:-1] + y.shape[:-2] + y.shape[-1:]

    def f(i):
        k = t.fresh_bv(n, tag="s")
        kt = t.atomT(k)
        xi = i[:x.ndim - 1]
        yi = i[x.ndim - 1:]
        return sumT(n, k, mul(it.num(x.get(xi + (kt,))), it.num(y.get(yi[:-1] + (kt,) + yi[-1:]))))
    return wrap(it, sh, f)


# ------------------------------------------------------------------ reductions

def axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, tuple):
        return [int(t.cval(x)) % a.ndim for x in axis]
    return [int(t.cval(axis)) % a.ndim]


def reduce_(it, v, axis, f, keepdims=False, dt="f"):
    """f(list of (bv, n), element T, filt mask T or None) -> T"""
    a = as_arr(it, v)
    ax = axes(a, axis)
    if a.filt is not None and 0 not in ax:
        it.undecided("reduction along other axes of a selection")
    rest = [d for d in range(a.ndim) if d not in ax]

    def g(i):
        bvs = [(t.fresh_bv(a.shape[d], tag="s"), a.shape[d]) for d in ax]
        idx = [None] * a.ndim
        for (b, _), d in zip(bvs, ax):
            idx[d] = t.atomT(b)
        ii = iter(i if not keepdims else [x for d, x in enumerate(i) if d not in ax])
        for d in rest:
            idx[d] = next(ii)
        e = it.num(a.get(tuple(idx)))
        m = a.filt((idx[0],)) if a.filt is not None else None
        return f(bvs, e, m)
    if keepdims:
        sh = [a.shape[d] if d in rest else ONE for d in range(a.ndim)]
    else:
        sh = [a.shape[d] for d in rest]
    return wrap(it, sh, g, dt)


def f_sum(bvs, e, m):
    if m is not None:
        e = mul(m, e)
    for b, n in reversed(bvs):
        e = sumT(n, b, e)
    return e


def cnt(bvs, m):
    c = ONE if m is None else m
    for b, n in reversed(bvs):
        c = sumT(n, b, c)
    return c


def f_mean(bvs, e, m):
    return div(f_sum(bvs, e, m), cnt(bvs, m))


def rebind(bvs, e):
    mp = {}
    nb = []
    for b, n in bvs:
        b2 = t.fresh_bv(n, tag="s")
        mp[b.id] = t.atomT(b2)
        nb.append((b2, n))
    return nb, (subst(e, mp) if e is not None else None), mp


def f_var(ddof):
    def f(bvs, e, m):
        nb, e2, mp = rebind(bvs, e)
        mu = f_mean(nb, e2, subst(m, mp) if m is not None else None)
        d = sub(e, mu)
        return div(f_sum(bvs, mul(d, d), m), sub(cnt(bvs, m), ddof))
    return f


def f_opq(name, *extra, **kw):
    def f(bvs, e, m):
        if m is not None:
            e = ite(m, e, fn("skip"))
        ns = []
        for b, n in reversed(bvs):
            e = t.lam(e, b, n)
        # flatten multi-axis reductions as nested abstraction
        return opaque(name, e, *extra, **kw)
    return f


def f_extreme(name):
    def f(bvs, e, m):
        if m is None:
            small = 1
            for b, n in bvs:
                c = t.cval(n)
                small = None if c is None or small is None else small * int(c)
            if small is not None and small <= 6 and small > 0:
                vals = [e]
                for b, n in bvs:
                    vals = [subst(v, {b.id: const(k)}) for v in vals for k in range(int(t.cval(n)))]
                r = vals[0]
                for v in vals[1:]:
                    r = t.maxT(r, v) if name == "rmax" else t.minT(r, v)
                return r
        mono = [x for b, n in bvs for x in ()]
        return f_opq(name)(bvs, e, m)
    return f


def nan_split(f):
    def g(bvs, e, m):
        k = notT(isnan(e))
        if k is not ONE:
            m = k if m is None else mul(m, k)
        return f(bvs, e, m)
    return g


def f_anyall(isall):
    def f(bvs, e, m):
        x = notT(e) if isall else e
        s = f_sum(bvs, x, m)
        z = eq0(s)
        return z if isall else notT(z)
    return f


# ------------------------------------------------------------------ shapes / indexing

def prod(xs):
    r = ONE
    for x in xs:
        r = mul(r, x)
    return r


def norm_index(it, x, n):
    x = it.num(x)
    if t.sign(x) == "neg":
        x = add(n, x)
        if t.sign(x) not in ("nonneg", "pos", "zero"):
            it.events.append((it.pcond(), "index", (x, n), it.curfile, it.curnode))
        return x
    c = t.cval(x)
    cn = t.cval(n)
    if c is not None and cn is not None and c >= cn:
        raise AbsRaise("IndexError", it.curnode)
    if c is None or cn is None:
        if t.sign(x) not in ("nonneg", "pos", "zero") or t.sign(sub(n, x)) != "pos":
            it.events.append((it.pcond(), "index", (x, n), it.curfile, it.curnode))
    return x


def norm_slice(it, s, n):
    """(start, length, step int)"""
    st = ONE if s.s is None else s.s
    c = t.cval(st)
    if c is None:
        it.undecided("symbolic slice step")
    c = int(c)

    def clamp(x, hi):
        sg = t.sign(x)
        if sg == "neg":
            return t.maxT(add(n, x), ZERO) if t.sign(add(n, x)) not in ("pos", "nonneg", "zero") else add(n, x)
        return x if t.sign(sub(hi, x)) in ("pos", "nonneg", "zero") else t.minT(x, hi)
    if c > 0:
        a = ZERO if s.a is None else clamp(s.a, n)
        b = n if s.b is None else clamp(s.b, n)
        L = sub(b, a)
        if c > 1:
            L = fdiv(add(L, const(c - 1)), const(c))
        if t.sign(L) not in ("pos", "nonneg", "zero"):
            L = t.maxT(L, ZERO)
        return a, L, c
    nm = sub(n, ONE)
    a = nm if s.a is None else clamp(s.a, nm)
    if s.b is None:
        b = neg(ONE)
    else:
        b = clamp(s.b, nm)
    L = fdiv(add(sub(a, b), const(-c - 1)), const(-c))
    if t.sign(L) not in ("pos", "nonneg", "zero"):
        L = t.maxT(L, ZERO)
    return a, L, c


def is_mask(it, x):
    if isinstance(x, (Ref, View)):
        a = it.arr(x)
        return a is not None and a.dt == "b" and a.ndim >= 1
    return False


def basic_parts(it, shape, idx):
    """expand an index tuple to full rank. returns list of entries:
    ('i', d, T) ('s', d, start, len, step) ('n',)"""
    idx = list(idx)
    used = sum(1 for x in idx if x is not None and x is not Ellipsis)
    out = []
    d = 0
    seen = False
    for x in idx:
        if x is Ellipsis:
            seen = True
            for _ in range(len(shape) - used):
                out.append(("s", d, ZERO, shape[d], 1))
                d += 1
            continue
        if x is None:
            out.append(("n",))
            continue
        if d >= len(shape):
            raise AbsRaise("IndexError", it.curnode)
        if isinstance(x, SliceV):
            a, L, c = norm_slice(it, x, shape[d])
            out.append(("s", d, a, L, c))
        elif isinstance(x, (T, bool, BT)):
            out.append(("i", d, norm_index(it, x, shape[d])))
        elif isinstance(x, (Ref, View, tuple)):
            a = it.arr(x)
            if a is not None and a.ndim == 0:
                out.append(("i", d, norm_index(it, a.get(()), shape[d])))
            else:
                out.append(("a", d, x))
        elif isinstance(x, str):
            raise AbsRaise("IndexError", it.curnode)
        else:
            it.undecided("index %r" % (x,))
        d += 1
    while d < len(shape):
        out.append(("s", d, ZERO, shape[d], 1))
        d += 1
    return out


def make_view(it, shape, parts):
    vsh = []
    for p in parts:
        if p[0] == "s":
            vsh.append(p[3])
        elif p[0] == "n":
            vsh.append(ONE)

    def fwd(i):
        out = []
        j = 0
        for p in parts:
            if p[0] == "i":
                out.append(p[2])
            elif p[0] == "n":
                j += 1
            else:
                x = i[j]
                j += 1
                out.append(add(p[2], mul(const(p[4]), x)))
        return tuple(out)

    def inv(b):
        c = ONE
        vi = []
        for p in parts:
            if p[0] == "i":
                c = mul(c, eq0(sub(b[p[1]], p[2])))
            elif p[0] == "n":
                vi.append(ZERO)
            else:
                _, d, a, L, st = p
                if st == 1:
                    v = sub(b[d], a)
                elif st == -1:
                    v = sub(a, b[d])
                else:
                    r = div(sub(b[d], a), const(st))
                    v = floorT(r)
                    c = mul(c, eq0(sub(mul(v, const(st)), sub(b[d], a))))
                if not (a is ZERO and L is shape[d] and st == 1):
                    c = mul(c, mul(notT(lt0(v)), lt0(sub(v, L))))
                vi.append(v)
        return c, tuple(vi)
    return tuple(vsh), fwd, inv


def getitem(it, o, i):
    if isinstance(o, Poison):
        raise NeedCarry(o.key)
    if isinstance(i, Poison):
        raise NeedCarry(i.key)
    if isinstance(o, CondV):
        return it.map_cond(o, lambda x: getitem(it, x, i))
    if isinstance(i, CondV):
        return it.map_cond(i, lambda x: getitem(it, o, x))
    if isinstance(o, str):
        if isinstance(i, T) and t.cval(i) is not None:
            return o[int(t.cval(i))]
        if isinstance(i, SliceV):
            f = lambda x: None if x is None else int(t.cval(x))
            return o[slice(f(i.a), f(i.b), f(i.s))]
        it.undecided("string index")
    if isinstance(o, Ref):
        c = it.content(o)
        if isinstance(c, PyDict):
            k = it.dkey(i)
            if k not in c.items:
                raise AbsRaise("KeyError", it.curnode)
            return c.items[k]
        if isinstance(c, Inst):
            return it.call(it.getattr(o, "__getitem__"), [i], {})
        if isinstance(c, pe.AppMark):
            raise pe.NeedCarryList(c.key)
    if isinstance(o, tuple) or (isinstance(o, Ref) and isinstance(it.content(o), PyList)):
        items = list(o) if isinstance(o, tuple) else it.content(o).items
        if isinstance(i, SliceV):
            f = lambda x: None if x is None else t.cval(x)
            abc = [f(i.a), f(i.b), f(i.s)]
            if any(x is not None and y is None for x, y in zip((i.a, i.b, i.s), abc)):
                a = it.list_arr(items)
                return slice_list(it, a, i)
            r = items[slice(*[None if x is None else int(x) for x in abc])]
            return tuple(r) if isinstance(o, tuple) else it.alloc(PyList(r))
        if isinstance(i, (tuple, str)) or i is None:
            raise AbsRaise("TypeError", it.curnode)
        x = it.num(i)
        c = t.cval(x)
        if c is not None:
            if c.denominator != 1:
                raise AbsRaise("TypeError", it.curnode)
            c = int(c)
            if not -len(items) <= c < len(items):
                raise AbsRaise("IndexError", it.curnode)
            return items[c]
        if t.sign(x) == "neg":
            x = add(const(len(items)), x)
        return it.pick(items, x)
    if isinstance(o, IterV):
        a = it.iter_arr(o)
        o = it.alloc(a)
    if isinstance(o, (T, BT, bool)) or o is None:
        raise AbsRaise("TypeError", it.curnode)
    if isinstance(o, Meth) and o.name == "__iter__":
        it.undecided("subscript")
    a = it.arr(o)
    if a is None:
        it.undecided("subscript of %r" % (o,))
    idx = i if isinstance(i, tuple) else (i,)
    if a.kind == "list":
        if isinstance(i, SliceV):
            return slice_list(it, a, i)
        x = norm_index(it, idx[0], a.shape[0])
        r = a.get((x,)) if a.ndim == 1 else sub_arr_row(it, a, x)
        return mkbool(it.num(r)) if a.dt == "b" and isinstance(r, T) else r
    return index_nd(it, o, a, idx)


def sub_arr_row(it, a, x):
    return it.alloc(Arr(a.shape[1:], lambda j: a.get((x,) + j), a.dt, "list"))


def slice_list(it, a, s):
    st, L, c = norm_slice(it, s, a.shape[0])
    return it.alloc(Arr((L,) + a.shape[1:], lambda i: a.get((add(st, mul(const(c), i[0])),) + tuple(i[1:])), a.dt, "list"))


def index_nd(it, o, a, idx):
    # boolean masks
    if len(idx) == 1 and is_mask(it, idx[0]):
        m = it.arr(idx[0])
        if m.ndim == a.ndim == 1 or m.ndim == 1:
            dim_join(it, a.shape[0], m.shape[0])
            if a.filt is not None:
                same = a.filt
                mf = m.get
                return it.alloc(Arr(a.shape, a.f, a.dt, "nd", filt=lambda i: mul(same(i), it.num(mf(i)))))
            if m.filt is not None:
                it.undecided("mask that is itself a selection")
            return it.alloc(Arr(a.shape, a.f, a.dt, "nd", filt=lambda i: it.num(m.get((i[0],)))))
        if m.ndim == a.ndim == 2:
            n1 = a.shape[1]
            g = Arr((mul(a.shape[0], n1),), lambda i: a.get((fdiv(i[0], n1), modT(i[0], n1))), a.dt)
            return it.alloc(Arr(g.shape, g.f, a.dt, "nd", filt=lambda i: it.num(m.get((fdiv(i[0], n1), modT(i[0], n1))))))
        it.undecided("mask index")
    if any(is_mask(it, x) for x in idx):
        # convert to selection on that axis when the others are full slices / ints
        pos = [k for k, x in enumerate(idx) if is_mask(it, x)]
        if len(pos) == 1:
            m = it.arr(idx[pos[0]])
            full = tuple(SliceV(None, None, None) if k == pos[0] else x for k, x in enumerate(idx))
            r = index_nd(it, o, a, full)
            ra = it.arr(r)
            parts = basic_parts(it, a.shape, full)
            ax = 0
            for p in parts:
                if p[0] != "i" and p[1] == pos[0]:
                    break
                if p[0] != "i":
                    ax += 1
            if ax == 0 and m.ndim == 1:
                return it.alloc(Arr(ra.shape, ra.f, ra.dt, "nd", filt=lambda i: it.num(m.get((i[0],)))))
        it.undecided("mask in a mixed index")
    parts = basic_parts(it, a.shape, idx)
    if a.filt is not None and (parts[0][0] != "s" or parts[0][2] is not ZERO or parts[0][3] is not a.shape[0]):
        if parts[0][0] == "n":
            it.undecided("newaxis on selection")
        it.undecided("positional index into a selection")
    adv = [p for p in parts if p[0] == "a"]
    if not adv:
        vsh, fwd, inv = make_view(it, a.shape, parts)
        if not vsh:
            r = a.get(fwd(()))
            if isinstance(r, T) and a.dt == "b":
                return mkbool(r)
            return r
        if a.filt is not None:
            return it.alloc(Arr(vsh, lambda i: a.get(fwd(i)), a.dt, "nd", filt=a.filt))
        if isinstance(o, Ref):
            return View(o, vsh, fwd, inv)
        if isinstance(o, View):
            of, oi = o.fwd, o.inv

            def inv2(b):
                if oi is None:
                    return None
                c, vi = oi(b)
                if c is ZERO:
                    return ZERO, tuple(ZERO for _ in vsh)
                c2, v2 = inv(vi)
                return mul(c, c2), v2
            return View(o.ref, vsh, lambda i: of(fwd(i)), inv2 if oi is not None else None)
        return it.alloc(Arr(vsh, lambda i: a.get(fwd(i)), a.dt, "nd"))
    # advanced integer indexing
    arrs = [as_arr(it, p[2]) for p in adv]
    bsh = bshape(it, arrs)
    flt = same_filt(it, arrs)
    k = len(bsh)
    ints = [p for p in parts if p[0] in ("i", "a")]
    kinds = "".join("a" if p[0] in ("i", "a") else "s" for p in parts)
    contiguous = "a" in kinds and "s" not in kinds[kinds.index("a"):kinds.rindex("a") + 1]
    pre = [p for p in parts[:kinds.index("a")]] if contiguous else []
    sh = []
    if contiguous:
        sh += [p[3] if p[0] == "s" else ONE for p in pre]
    sh += list(bsh)
    rest = [p for p in parts if p[0] in ("s", "n") and not any(p is q for q in pre)]
    sh += [p[3] if p[0] == "s" else ONE for p in rest]
    np_ = len(pre)
    if flt is not None and np_:
        it.undecided("selection index after a slice")

    def f(i):
        pi, bi, ri = i[:np_], i[np_:np_ + k], i[np_ + k:]
        out = [None] * a.ndim
        ai = 0
        pj = rj = 0
        for p in parts:
            if p[0] == "i":
                out[p[1]] = p[2]
            elif p[0] == "a":
                out[p[1]] = norm_index(it, bget(arrs[ai], bi), a.shape[p[1]])
                ai += 1
            elif any(p is q for q in pre):
                if p[0] == "s":
                    out[p[1]] = add(p[2], mul(const(p[4]), pi[pj]))
                pj += 1
            else:
                if p[0] == "s":
                    out[p[1]] = add(p[2], mul(const(p[4]), ri[rj]))
                rj += 1
        return a.get(tuple(out))
    return it.alloc(Arr(sh, f, a.dt, "nd", filt=flt))


def setitem(it, o, i, v):
    if isinstance(o, Poison):
        raise NeedCarry(o.key)
    if isinstance(i, Poison):
        raise NeedCarry(i.key)
    if isinstance(o, CondV):
        return it.map_cond(o, lambda x: setitem(it, x, i, v))
    if isinstance(i, CondV):
        return it.map_cond(i, lambda x: setitem(it, o, x, v))
    if isinstance(o, Ref):
        c = it.content(o)
        if isinstance(c, PyDict):
            d = dict(c.items)
            d[it.dkey(i)] = v
            it.st[("h", o.id)] = PyDict(d)
            return
        if isinstance(c, PyList):
            if isinstance(i, SliceV):
                f = lambda x: None if x is None else int(t.cval(x))
                L = list(c.items)
                L[slice(f(i.a), f(i.b), f(i.s))] = it.as_items(v)
                it.st[("h", o.id)] = PyList(L)
                return
            x = it.num(i)
            cc = t.cval(x)
            items = list(c.items)
            if cc is not None:
                if not -len(items) <= cc < len(items):
                    raise AbsRaise("IndexError", it.curnode)
                items[int(cc)] = v
            else:
                if t.sign(x) == "neg":
                    x = add(const(len(items)), x)
                items = [it.merge_val(eq0(sub(x, const(k))), v, y, it.st, it.st) for k, y in enumerate(items)]
            it.st[("h", o.id)] = PyList(items)
            return
        if isinstance(c, Inst):
            it.call(it.getattr(o, "__setitem__"), [i, v], {})
            return
        if isinstance(c, Arr) and c.kind == "list":
            if isinstance(i, SliceV):
                it.undecided("slice store into a list")
            x = norm_index(it, i, c.shape[0])
            if c.ndim == 1:
                it.st[("h", o.id)] = Arr(c.shape, lambda j: it.merge_val(eq0(sub(j[0], x)), v, c.get(j), it.st, it.st), c.dt, "list")
                return
            va = as_arr(it, v)
            it.st[("h", o.id)] = Arr(c.shape, lambda j: it.merge_val(eq0(sub(j[0], x)), va.get(j[1:]), c.get(j), it.st, it.st), c.dt, "list")
            return
    if isinstance(o, (T, tuple, str, BT, bool)) or o is None:
        raise AbsRaise("TypeError", it.curnode)
    a = it.arr(o)
    if a is None:
        it.undecided("item store on %r" % (o,))
    if isinstance(v, CondV):
        v = it.map_cond(v, lambda x: x if isinstance(x, (T, BT, bool)) else it.alloc(as_arr(it, x)))
    if v is None:
        raise AbsRaise("TypeError", it.curnode)
    va = as_arr(it, v)
    idx = i if isinstance(i, tuple) else (i,)
    if a.kind == "list":
        it.undecided("store into list view")
    if a.filt is not None:
        it.undecided("store into a selection")
    tr = (lambda x: truncT(x)) if a.dt == "i" and va.dt not in "ib" else (lambda x: x)
    if len(idx) == 1 and is_mask(it, idx[0]):
        m = it.arr(idx[0])
        if va.ndim == 0:
            x = tr(it.num(va.get(())))
            it.store_all(o, lambda j: x, cond=lambda j: it.num(m.get(j[:m.ndim])))
            return
        if va.filt is not None and m.ndim == 1:
            b = t.fresh_bv(tag="m")
            if va.filt((t.atomT(b),)) is it.num(m.get((t.atomT(b),))):
                it.store_all(o, lambda j: tr(it.num(va.get(j))), cond=lambda j: it.num(m.get(j[:1])))
                return
        it.undecided("masked store of an array")
    parts = basic_parts(it, a.shape, idx)
    adv = [p for p in parts if p[0] == "a"]
    if adv:
        if len(adv) == 1 and len(parts) == 1:
            ia = as_arr(it, adv[0][2])
            if ia.filt is not None and va.ndim == 0:
                b = t.fresh_bv(tag="m")
                bt = t.atomT(b)
                if ia.get((bt,) + (ZERO,) * (ia.ndim - 1)) is bt:
                    x = tr(it.num(va.get(())))
                    it.store_all(o, lambda j: x, cond=lambda j: ia.filt(j[:1]))
                    return
        if len(adv) == 1 and len(parts) == 1 and ia.filt is None and ia.ndim == 1 and a.ndim == 1:
            # store through a permutation of all elements
            b = t.fresh_bv(ia.shape[0], tag="m")
            bt = t.atomT(b)
            at = argsort_of(it.num(ia.get((bt,))))
            if at is not None and at.args[2] is bt:
                dim_join(it, ia.shape[0], a.shape[0])
                if va.ndim:
                    dim_join(it, va.shape[0], a.shape[0])
                it.store_all(o, lambda j: tr(it.num(bget(va, (opaque("argrank", at.args[1], j[0], at.args[3], isint=True, nonneg=True),)))))
                return
        it.undecided("scatter store")
    vsh, fwd, inv = make_view(it, a.shape, parts)
    if vsh and va.ndim:
        vs = list(va.shape)
        if len(vs) > len(vsh):
            while len(vs) > len(vsh) and t.cval(vs[0]) == 1:
                vs.pop(0)
            if len(vs) > len(vsh):
                raise AbsRaise("ValueError", it.curnode)
            va0 = va
            va = Arr(vs, lambda j: va0.get((ZERO,) * (va0.ndim - len(vs)) + j), va0.dt)
        for x, y in zip(reversed(vsh), reversed(vs)):
            if x is not y and t.cval(y) != 1:
                dim_join(it, x, y)
                if t.cval(x) == 1:
                    raise AbsRaise("ValueError", it.curnode)
    elif va.ndim:
        # element store of a size-1 array
        if all(t.cval(s) == 1 for s in va.shape):
            x0 = va.get((ZERO,) * va.ndim)
            va = Arr((), lambda j: x0)
        else:
            raise AbsRaise("ValueError", it.curnode)
    if not vsh:
        x = tr(it.num(va.get(())))

        def val(j):
            return x
    else:
        def val(j):
            return tr(it.num(bget(va, j)))
    if isinstance(o, Ref):
        base = it.content(o)

        def g(b):
            c, vi = inv(b)
            if c is ZERO:
                return base.get(b)
            if c is ONE:
                return val(vi)
            return ite(c, val(vi), it.num(base.get(b)))
        it.st[("h", o.id)] = Arr(base.shape, g, base.dt, base.kind)
        return
    if isinstance(o, View):
        if o.inv is None:
            it.undecided("store through this view")
        base = it.content(o.ref)

        def g(b):
            c, vi = o.inv(b)
            if c is not ZERO:
                c2, v2 = inv(vi)
                c = mul(c, c2)
            if c is ZERO:
                return base.get(b)
            if c is ONE:
                return val(v2)
            return ite(c, val(v2), it.num(base.get(b)))
        it.st[("h", o.ref.id)] = Arr(base.shape, g, base.dt, base.kind)
        return
    it.undecided("store")


# ------------------------------------------------------------------ signatures

class NA:
    pass


_na = NA()


def sig(spec):
    names = []
    for p in spec.split(","):
        p = p.strip()
        if not p:
            continue
        if "=" in p:
            n, d = p.split("=")
            d = {"None": None, "True": True, "False": False}.get(d, d)
            if isinstance(d, str):
                if d.startswith("'"):
                    d = d.strip("'")
                elif d == "inf":
                    d = INF
                elif d == "ninf":
                    d = neg(INF)
                else:
                    d = const(t.Fr(d))
            names.append((n, d))
        else:
            names.append((p, _na))
    return names


NPF = {}
METHS = {}


def npf(names, spec):
    s = sig(spec)

    def deco(f):
        for n in names.split():
            NPF[n] = (s, f)
        return f
    return deco


def bind_sig(it, s, args, kw, name):
    vals = {}
    if len(args) > len(s):
        it.undecided("call of %s with %d arguments" % (name, len(args)))
    for (n, d), v in zip(s, args):
        vals[n] = v
    for k, v in kw.items():
        if k not in [n for n, _ in s]:
            if k in ("dtype", "copy", "out", "order", "casting", "subok", "ndmin", "like", "where"):
                if k in ("out", "where"):
                    it.undecided("%s(%s=)" % (name, k))
                continue
            it.undecided("call of %s with keyword %s" % (name, k))
        vals[k] = v
    for n, d in s:
        if n not in vals:
            if d is _na:
                raise AbsRaise("TypeError", it.curnode)
            vals[n] = d
    return [vals[n] for n, _ in s]


def axis_of(x):
    return x


# ---- construction
@npf("numpy.asarray numpy.asanyarray numpy.ascontiguousarray numpy.asfortranarray numpy.asfarray numpy.require", "a, dtype=None, order=None")
def _asarray(it, a, dtype, order):
    if isinstance(a, CondV):
        return it.map_cond(a, lambda x: _asarray(it, x, dtype, order))
    if it.is_arr(a) and dt_of(dtype) in (None, it.arr(a).dt, "f"):
        if it.is_native_arr(a):
            return a
        return a
    return _array(it, a, dtype, True)


def dt_of(d):
    if d is None:
        return None
    p = d.path if isinstance(d, Ext) else d
    if isinstance(p, str):
        q = p.split(".")[-1]
        if q in ("float64", "float", "double", "float32", "float_", "f8", "longdouble"):
            return "f"
        if q in ("int", "int64", "int32", "intp", "uint64", "int_", "uint", "long", "i8", "uint32", "size_t"):
            return "i"
        if q in ("bool", "bool_"):
            return "b"
        if q in ("object", "O", "object_"):
            return "o"
    return None


@npf("numpy.array numpy.copy", "a, dtype=None, copy=True")
def _array(it, a, dtype, copy):
    x = as_arr(it, a)
    d = dt_of(dtype)
    if d is None and isinstance(a, Ref) and isinstance(it.content(a), PyList) and x.ndim:
        if x.dt == "f" and t.cval(x.shape[0]) is not None and x.ndim == 1:
            pass
    if d == "i" and x.dt == "f":
        return new(it, x.shape, lambda i: truncT(it.num(x.get(i))), "i")
    return it.alloc(Arr(x.shape, x.f, d or x.dt, "nd", filt=x.filt))


def shape_of(it, s):
    if isinstance(s, (T, bool)):
        return (s,)
    if isinstance(s, (tuple,)):
        return tuple(it.num(x) for x in s)
    return tuple(it.num(x) for x in it.as_items(s))


@npf("numpy.zeros", "shape, dtype=None, order=None")
def _zeros(it, shape, dtype, order):
    return new(it, shape_of(it, shape), lambda i: ZERO, dt_of(dtype) or "f")


@npf("numpy.ones", "shape, dtype=None, order=None")
def _ones(it, shape, dtype, order):
    return new(it, shape_of(it, shape), lambda i: ONE, dt_of(dtype) or "f")


@npf("numpy.empty", "shape, dtype=None, order=None")
def _empty(it, shape, dtype, order):
    u = fresh_id()
    e = fn("uninit", ("s", u))
    return new(it, shape_of(it, shape), lambda i: e, dt_of(dtype) or "f")


@npf("numpy.full", "shape, fill_value, dtype=None, order=None")
def _full(it, shape, v, dtype, order):
    x = it.num(v)
    return new(it, shape_of(it, shape), lambda i: x, dt_of(dtype) or "f")


@npf("numpy.zeros_like", "a, dtype=None")
def _zl(it, a, dtype):
    x = as_arr(it, a)
    return new(it, x.shape, lambda i: ZERO, dt_of(dtype) or x.dt)


@npf("numpy.ones_like", "a, dtype=None")
def _ol(it, a, dtype):
    x = as_arr(it, a)
    return new(it, x.shape, lambda i: ONE, dt_of(dtype) or x.dt)


@npf("numpy.empty_like", "a, dtype=None")
def _el(it, a, dtype):
    x = as_arr(it, a)
    e = fn("uninit", ("s", fresh_id()))
    return new(it, x.shape, lambda i: e, dt_of(dtype) or x.dt)


@npf("numpy.full_like", "a, fill_value, dtype=None")
def _fl(it, a, v, dtype):
    x = as_arr(it, a)
    y = it.num(v)
    return new(it, x.shape, lambda i: y, dt_of(dtype) or x.dt)


@npf("numpy.arange", "a, b=None, c=None, dtype=None")
def _arange(it, a, b, c, dtype):
    if b is None:
        s, e = ZERO, it.num(a)
    else:
        s, e = it.num(a), it.num(b)
    st = ONE if c is None else it.num(c)
    q = div(sub(e, s), st)
    n = q if t.is_int(q) else neg(floorT(neg(q)))
    if t.sign(n) not in ("pos", "nonneg", "zero"):
        n = t.maxT(n, ZERO)
    isi = t.is_int(s) and t.is_int(st)
    return new(it, (n,), lambda i: add(s, mul(st, i[0])), "i" if isi and dt_of(dtype) != "f" else "f")


@npf("numpy.linspace", "start, stop, num=50, endpoint=True")
def _linspace(it, a, b, n, ep):
    a, b, n = it.num(a), it.num(b), it.num(n)
    d = div(sub(b, a), sub(n, ONE) if ep is True else n)
    return new(it, (n,), lambda i: add(a, mul(d, i[0])))


@npf("numpy.eye numpy.identity", "n, m=None")
def _eye(it, n, m):
    n = it.num(n)
    return new(it, (n, n if m is None else it.num(m)), lambda i: eq0(sub(i[0], i[1])))


@npf("numpy.diag", "v, k=0")
def _diag(it, v, k):
    a = as_arr(it, v)
    if a.ndim == 2:
        return new(it, (a.shape[0],), lambda i: a.get((i[0], i[0])), a.dt)
    return new(it, (a.shape[0], a.shape[0]), lambda i: mul(eq0(sub(i[0], i[1])), it.num(a.get((i[0],)))), a.dt)


@npf("numpy.fromiter", "a, dtype=None, count=None")
def _fromiter(it, a, dtype, count):
    x = as_arr(it, gen_list(it, a))
    return it.alloc(Arr(x.shape, x.f, dt_of(dtype) or x.dt, "nd", filt=x.filt))


def gen_list(it, a):
    if isinstance(a, GenV):
        L = it.alloc(PyList([]))
        it.run_gen(a, lambda x: it.list_append(L, x), lambda: ((), ONE))
        return L
    return a


# ---- joining
def seqs(it, v):
    v = gen_list(it, v)
    return [as_arr(it, x) for x in it.as_items(v)]


def concat(it, arrs, ax):
    if len(arrs) == 1:
        a = arrs[0]
        return new(it, a.shape, a.f, a.dt)
    offs = [ZERO]
    for a in arrs:
        offs.append(add(offs[-1], a.shape[ax]))
    sh = list(arrs[0].shape)
    for a in arrs[1:]:
        if a.ndim != len(sh):
            raise AbsRaise("ValueError", it.curnode)
        for d in range(len(sh)):
            if d != ax and sh[d] is not a.shape[d]:
                it.shape_reqs.append((it.pcond(), sh[d], a.shape[d], it.curfile, it.curnode))
    sh[ax] = offs[-1]

    def f(i):
        r = None
        for a, o in zip(reversed(arrs), reversed(offs[:-1])):
            j = list(i)
            j[ax] = sub(i[ax], o)
            if r is None:
                c = ONE
            else:
                c = lt0(sub(j[ax], a.shape[ax]))
            if c is ZERO:
                continue
            v = it.num(a.get(tuple(j)))
            r = v if r is None or c is ONE else ite(c, v, r)
        return r
    return new(it, sh, f, arrs[0].dt)


@npf("numpy.concatenate numpy.append", "a, axis=0, c=None")
def _concat(it, a, axis, c):
    arrs = seqs(it, a)
    if axis is None:
        arrs = [ravel(it, x) for x in arrs]
        return concat(it, arrs, 0)
    return concat(it, arrs, int(t.cval(axis)) % arrs[0].ndim)


def np_append(it, a, b, axis):
    x, y = as_arr(it, a), as_arr(it, b)
    if axis is None:
        x, y = ravel(it, x), ravel(it, y)
        return concat(it, [x, y], 0)
    return concat(it, [x, y], int(t.cval(axis)) % x.ndim)


NPF["numpy.append"] = (sig("a, b, axis=None"), np_append)


def atleast(a, n):
    while a.ndim < n:
        b = a
        if n == 1 or a.ndim == 0:
            a = Arr((ONE,), lambda i, b=b: b.get(()), b.dt)
        elif a.ndim == 1:
            a = Arr((ONE,) + b.shape, lambda i, b=b: b.get(i[1:]), b.dt)
        else:
            a = Arr(b.shape + (ONE,), lambda i, b=b: b.get(i[:-1]), b.dt)
    return a


@npf("numpy.vstack numpy.row_stack", "a")
def _vstack(it, a):
    return concat(it, [atleast(x, 2) for x in seqs(it, a)], 0)


@npf("numpy.hstack", "a")
def _hstack(it, a):
    arrs = [atleast(x, 1) for x in seqs(it, a)]
    return concat(it, arrs, 0 if arrs[0].ndim == 1 else 1)


@npf("numpy.column_stack", "a")
def _colstack(it, a):
    arrs = []
    for x in seqs(it, a):
        if x.ndim == 1:
            x = Arr((x.shape[0], ONE), lambda i, x=x: x.get(i[:1]), x.dt)
        arrs.append(x)
    return concat(it, arrs, 1)


@npf("numpy.dstack", "a")
def _dstack(it, a):
    q = it.arr(a) if isinstance(a, Ref) else None
    if q is not None and q.kind == "list" and t.cval(q.shape[0]) is None:
        q = deep(it, q)
        if q.ndim == 3:
            return new(it, q.shape[1:] + q.shape[:1], lambda i: q.get((i[2], i[0], i[1])), q.dt)
        it.undecided("dstack of these arrays")
    return concat(it, [atleast(x, 3) for x in seqs(it, a)], 2)


@npf("numpy.stack", "a, axis=0")
def _stack(it, a, axis):
    arrs = seqs(it, a)
    ax = int(t.cval(axis)) % (arrs[0].ndim + 1)
    arrs = [Arr(x.shape[:ax] + (ONE,) + x.shape[ax:], lambda i, x=x: x.get(i[:ax] + i[ax + 1:]), x.dt) for x in arrs]
    return concat(it, arrs, ax)


def ravel(it, a, order="C"):
    if a.ndim == 1:
        return a
    n = prod(a.shape)

    def f(i):
        return a.get(unflat(i[0], a.shape, order))
    return Arr((n,), f, a.dt)


def unflat(k, shape, order="C"):
    """indices of flat position k"""
    shape = list(shape)
    if order == "F":
        return tuple(reversed(unflat(k, shape[::-1], "C")))
    out = []
    for d in range(len(shape)):
        rest = prod(shape[d + 1:])
        if d == len(shape) - 1:
            out.append(k)
        elif t.cval(shape[d]) == 1:
            out.append(ZERO)
        else:
            if rest is ONE:
                q = k
                k = ZERO
            else:
                q = fdiv(k, rest)
                k = sub(k, mul(q, rest))
            out.append(q)
    return tuple(out)


def flat(idx, shape, order="C"):
    if order == "F":
        return flat(idx[::-1], shape[::-1], "C")
    k = ZERO
    for i, s in zip(idx, shape):
        k = add(mul(k, s), i)
    return k


def reshape(it, a, shape, order="C"):
    shape = list(shape)
    tot = prod(a.shape)
    for d, s in enumerate(shape):
        if t.cval(s) == -1:
            other = prod(shape[:d] + shape[d + 1:])
            shape[d] = div(tot, other)
    shape = tuple(shape)
    if len(shape) == a.ndim and all(x is y for x, y in zip(shape, a.shape)):
        return Arr(shape, a.f, a.dt)
    p = prod(shape)
    if p is not tot:
        if t.cval(sub(p, tot)) is not None:
            raise AbsRaise("ValueError", it.curnode)
        it.shape_reqs.append((it.pcond(), p, tot, it.curfile, it.curnode))
    # same dims up to unit dims
    ra = [(d, s) for d, s in enumerate(a.shape) if t.cval(s) != 1]
    rs = [(d, s) for d, s in enumerate(shape) if t.cval(s) != 1]
    if len(ra) == len(rs) and all(x[1] is y[1] for x, y in zip(ra, rs)):
        def f(i):
            out = [ZERO] * a.ndim
            for (d, _), (e, _) in zip(ra, rs):
                out[d] = i[e]
            return a.get(tuple(out))
        return Arr(shape, f, a.dt)
    return Arr(shape, lambda i: a.get(unflat(flat(i, shape, order), a.shape, order)), a.dt)


@npf("numpy.reshape", "a, newshape, order='C'")
def _reshape(it, a, shape, order):
    x = as_arr(it, a)
    return view_or_new(it, a, reshape(it, x, shape_of(it, shape), order))


def view_or_new(it, src, arr):
    return new(it, arr.shape, arr.f, arr.dt)


@npf("numpy.ravel", "a, order='C'")
def _ravel(it, a, order):
    x = ravel(it, as_arr(it, a), order)
    return new(it, x.shape, x.f, x.dt)


@npf("numpy.squeeze", "a, axis=None")
def _squeeze(it, a, axis):
    x = as_arr(it, a)
    keep = [d for d in range(x.ndim) if not (t.cval(x.shape[d]) == 1 and (axis is None or d in axes(x, axis)))]
    if len(keep) == x.ndim:
        return a if isinstance(a, (Ref, View)) else it.alloc(x)

    def f(i):
        out = [ZERO] * x.ndim
        for d, v in zip(keep, i):
            out[d] = v
        return x.get(tuple(out))
    if not keep:
        v = f(())
        return new(it, (), lambda i: v, x.dt)
    return new(it, [x.shape[d] for d in keep], f, x.dt)


@npf("numpy.transpose", "a, axes=None")
def _transpose(it, a, axes_):
    x = as_arr(it, a)
    if x.ndim < 2:
        return a
    perm = list(range(x.ndim))[::-1] if axes_ is None else [int(t.cval(it.num(k))) for k in it.as_items(axes_)]
    inv = [perm.index(d) for d in range(x.ndim)]
    sh = tuple(x.shape[p] for p in perm)
    if isinstance(a, (Ref, View)) and x.filt is None and it.is_arr(a):
        ref = a if isinstance(a, Ref) else a.ref
        if isinstance(a, Ref):
            return View(ref, sh, lambda i: tuple(i[k] for k in inv), lambda b: (ONE, tuple(b[p] for p in perm)))
        of, oi = a.fwd, a.inv

        def inv2(b):
            c, vi = oi(b)
            return c, tuple(vi[p] for p in perm)
        return View(ref, sh, lambda i: of(tuple(i[k] for k in inv)), inv2 if oi else None)
    return new(it, sh, lambda i: x.get(tuple(i[k] for k in inv)), x.dt)


@npf("numpy.swapaxes", "a, x, y")
def _swapaxes(it, a, p, q):
    n = as_arr(it, a).ndim
    perm = list(range(n))
    p, q = int(t.cval(p)) % n, int(t.cval(q)) % n
    perm[p], perm[q] = perm[q], perm[p]
    return _transpose(it, a, tuple(const(k) for k in perm))


@npf("numpy.expand_dims", "a, axis")
def _expand(it, a, axis):
    x = as_arr(it, a)
    ax = int(t.cval(axis)) % (x.ndim + 1)
    return new(it, x.shape[:ax] + (ONE,) + x.shape[ax:], lambda i: x.get(i[:ax] + i[ax + 1:]), x.dt)


@npf("numpy.atleast_1d", "a")
def _al1(it, a):
    x = as_arr(it, a)
    return a if x.ndim and it.is_arr(a) else it.alloc(atleast(x, 1))


@npf("numpy.atleast_2d", "a")
def _al2(it, a):
    x = as_arr(it, a)
    return a if x.ndim >= 2 and it.is_arr(a) else it.alloc(atleast(x, 2))


@npf("numpy.tile numpy.matlib.repmat", "a, reps, n=None")
def _tile(it, a, reps, n):
    x = as_arr(it, a)
    if n is not None:
        r = (it.num(reps), it.num(n))
        x = atleast(x, 2)
    else:
        r = shape_of(it, reps)
    while len(r) < x.ndim:
        r = (ONE,) + r
    x0 = x
    k = len(r) - x.ndim
    sh0 = (ONE,) * k + x.shape
    sh = tuple(mul(p, q) for p, q in zip(r, sh0))

    def idx(j, s, rep, total):
        if t.cval(s) == 1:
            return ZERO
        if rep is ONE:
            return j
        return modT(j, s)
    return new(it, sh, lambda i: x0.get(tuple(idx(j, s, rp, tt) for j, s, rp, tt in zip(i, sh0, r, sh))[k:]), x.dt)


@npf("numpy.repeat", "a, reps, axis=None")
def _repeat(it, a, reps, axis):
    x = as_arr(it, a)
    r = it.num(reps)
    if axis is None:
        x = ravel(it, x) if x.ndim else atleast(x, 1)
        ax = 0
    else:
        ax = int(t.cval(axis)) % x.ndim
    sh = list(x.shape)
    one = t.cval(sh[ax]) == 1
    sh[ax] = mul(sh[ax], r)

    def f(i):
        j = list(i)
        j[ax] = ZERO if one else fdiv(i[ax], r)
        return x.get(tuple(j))
    return new(it, sh, f, x.dt)


@npf("numpy.broadcast_to", "a, shape")
def _bto(it, a, shape):
    x = as_arr(it, a)
    return new(it, shape_of(it, shape), lambda i: bget(x, i), x.dt)


@npf("numpy.flip", "a, axis=None")
def _flip(it, a, axis):
    x = as_arr(it, a)
    ax = axes(x, axis)
    return new(it, x.shape, lambda i: x.get(tuple(sub(sub(x.shape[d], ONE), j) if d in ax else j for d, j in enumerate(i))), x.dt)


NPF["numpy.flipud"] = (sig("a"), lambda it, a: _flip(it, a, ZERO))
NPF["numpy.fliplr"] = (sig("a"), lambda it, a: _flip(it, a, ONE))


@npf("numpy.roll", "a, shift, axis=None")
def _roll(it, a, sh, axis):
    x = as_arr(it, a)
    ax = 0 if axis is None and x.ndim == 1 else int(t.cval(axis)) % x.ndim
    s = it.num(sh)

    def f(i):
        j = list(i)
        j[ax] = modT(sub(i[ax], s), x.shape[ax])
        return x.get(tuple(j))
    return new(it, x.shape, f, x.dt)


@npf("numpy.meshgrid", "a, b, c=None, d=None, indexing='xy'")
def _meshgrid(it, a, b, c, d, indexing):
    arrs = [as_arr(it, x) for x in (a, b, c, d) if x is not None]
    n = len(arrs)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    sh = tuple(arrs[k].shape[0] for k in order)
    out = []
    for k in range(n):
        pos = order.index(k)
        out.append(new(it, sh, lambda i, k=k, pos=pos: arrs[k].get((i[pos],)), arrs[k].dt))
    return it.alloc(PyList(out))


@npf("numpy.diff", "a, n=1, axis=-1")
def _diff(it, a, n, axis):
    x = as_arr(it, a)
    ax = int(t.cval(axis)) % x.ndim
    sh = list(x.shape)
    sh[ax] = sub(sh[ax], ONE)

    def f(i):
        j = list(i)
        j[ax] = add(i[ax], ONE)
        return sub(it.num(x.get(tuple(j))), it.num(x.get(i)))
    return new(it, sh, f, x.dt)


@npf("numpy.outer", "a, b")
def _outer(it, a, b):
    x, y = ravel(it, as_arr(it, a)), ravel(it, as_arr(it, b))
    return new(it, (x.shape[0], y.shape[0]), lambda i: mul(it.num(x.get(i[:1])), it.num(y.get(i[1:]))))


# ---- elementwise
def ew(names, f, spec="a", dt=None):
    n = len(sig(spec))

    def g(it, *args):
        return elementwise(it, f, list(args[:n]), dt)
    for nm in names.split():
        NPF[nm] = (sig(spec), g)


ew("numpy.log math.log0", t.logT)
ew("numpy.exp math.exp", t.expT)
ew("numpy.sqrt math.sqrt cmath.sqrt", t.sqrtT)
ew("numpy.abs numpy.absolute numpy.fabs math.fabs builtins.abs", t.absT)
ew("numpy.square", lambda x: mul(x, x))
ew("numpy.negative", neg)
ew("numpy.reciprocal", lambda x: div(ONE, x))
ew("numpy.log1p math.log1p", lambda x: t.logT(add(ONE, x)))
ew("numpy.expm1 math.expm1", lambda x: sub(t.expT(x), ONE))
ew("numpy.log2 math.log2", lambda x: div(t.logT(x), t.logT(const(2))))
ew("numpy.log10 math.log10", lambda x: div(t.logT(x), t.logT(const(10))))
ew("numpy.sign", signT)
ew("numpy.floor math.floor", floorT)
ew("numpy.ceil math.ceil", lambda x: neg(floorT(neg(x))))
ew("numpy.trunc math.trunc numpy.fix", truncT)
ew("numpy.rint", rintT)
ew("numpy.isnan math.isnan", isnan, dt="b")
ew("numpy.isinf math.isinf", isinf, dt="b")
ew("numpy.isfinite math.isfinite", lambda x: mul(notT(isnan(x)), notT(isinf(x))), dt="b")
ew("numpy.real", lambda x: x)
CONJ = lambda x: fn("conj", x)
ew("numpy.conj numpy.conjugate", CONJ)
ew("numpy.add operator.add", add, "a, b")
ew("numpy.subtract operator.sub", sub, "a, b")
ew("numpy.multiply operator.mul", mul, "a, b")
ew("numpy.divide numpy.true_divide operator.truediv", div, "a, b")
ew("numpy.power numpy.float_power math.pow", powop, "a, b")
ew("numpy.mod numpy.remainder", modT, "a, b")
ew("numpy.floor_divide", fdiv, "a, b")
ew("numpy.maximum numpy.fmax", t.maxT, "a, b")
ew("numpy.minimum numpy.fmin", t.minT, "a, b")
ew("numpy.less", lambda a, b: lt0(sub(a, b)), "a, b", "b")
ew("numpy.greater", lambda a, b: lt0(sub(b, a)), "a, b", "b")
ew("numpy.less_equal", lambda a, b: le0(sub(a, b)), "a, b", "b")
ew("numpy.greater_equal", lambda a, b: le0(sub(b, a)), "a, b", "b")
ew("numpy.equal", lambda a, b: eq0(sub(a, b)), "a, b", "b")
ew("numpy.not_equal", lambda a, b: notT(eq0(sub(a, b))), "a, b", "b")
ew("numpy.logical_and", lambda a, b: mul(a, b), "a, b", "b")
ew("numpy.logical_or", lambda a, b: sub(add(a, b), mul(a, b)), "a, b", "b")
ew("numpy.logical_not", notT, "a", "b")
ew("scipy.stats.norm.cdf_ scipy.special.ndtr", t.cdfT)
ew("scipy.special.ndtri", ppfT)
ew("scipy.special.xlogy", lambda x, y: mul(x, t.logT(y)), "a, b")
ew("math.hypot numpy.hypot", lambda a, b: t.sqrtT(add(mul(a, a), mul(b, b))), "a, b")
ew("numpy.angle", lambda x: fn("angle", x))


@npf("math.log", "a, base=None")
def _mlog(it, a, base):
    r = t.logT(it.num(a))
    return r if base is None else div(r, t.logT(it.num(base)))


@npf("scipy.stats.norm.cdf", "x, loc=0, scale=1")
def _ncdf(it, x, loc, scale):
    return elementwise(it, lambda a, l, s: t.cdfT(div(sub(a, l), s)), [x, loc, scale])


@npf("scipy.stats.norm.sf", "x, loc=0, scale=1")
def _nsf(it, x, loc, scale):
    return elementwise(it, lambda a, l, s: sub(ONE, t.cdfT(div(sub(a, l), s))), [x, loc, scale])


@npf("scipy.stats.norm.ppf", "q, loc=0, scale=1")
def _nppf(it, q, loc, scale):
    return elementwise(it, lambda a, l, s: add(l, mul(s, ppfT(a))), [q, loc, scale])


@npf("scipy.stats.norm.pdf", "x, loc=0, scale=1")
def _npdf(it, x, loc, scale):
    def f(a, l, s):
        z = div(sub(a, l), s)
        return div(t.expT(neg(mul(HALF, mul(z, z)))), mul(s, t.sqrtT(mul(const(2), PI))))
    return elementwise(it, f, [x, loc, scale])


@npf("numpy.clip", "a, lo=None, hi=None")
def _clip(it, a, lo, hi):
    r = a
    if lo is not None:
        r = elementwise(it, t.maxT, [r, lo])
    if hi is not None:
        r = elementwise(it, t.minT, [r, hi])
    return r


NPF["numpy.clip"] = (sig("a, a_min=None, a_max=None"), _clip)


@npf("numpy.round numpy.around numpy.round_ builtins.round", "a, decimals=None")
def _round(it, a, dec):
    if dec is None:
        return elementwise(it, rintT, [a])
    k = const(t.Fr(10) ** int(t.cval(dec)))
    return elementwise(it, lambda x: div(rintT(mul(x, k)), k), [a])


@npf("numpy.where", "c, a=None, b=None")
def _where(it, c, a, b):
    if a is None:
        m = as_arr(it, c)
        if m.ndim != 1:
            it.undecided("where on a 2-D mask")
        return (it.alloc(Arr(m.shape, lambda i: i[0], "i", "nd", filt=lambda i: it.num(m.get(i[:1])))),)
    return elementwise(it, lambda p, x, y: ite(p if pe._isbool01(p) else notT(eq0(p)), x, y), [c, a, b])


NPF["numpy.nonzero"] = (sig("c"), lambda it, c: _where(it, c, None, None))
NPF["numpy.flatnonzero"] = (sig("c"), lambda it, c: _where(it, c, None, None)[0])


@npf("numpy.argwhere", "c")
def _argwhere(it, c):
    m = as_arr(it, c)
    if m.ndim != 1:
        it.undecided("argwhere on a 2-D mask")
    return it.alloc(Arr((m.shape[0], ONE), lambda i: i[0], "i", "nd", filt=lambda i: it.num(m.get(i[:1]))))


@npf("numpy.nan_to_num", "a, copy=True, nan=0, posinf=None, neginf=None")
def _n2n(it, a, copy, nan, pi, ni):
    z = it.num(nan)
    return elementwise(it, lambda x: ite(isnan(x), z, x), [a])


# ---- reductions
def red(names, mk, spec="a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True", dt="f"):
    def g(it, a, axis, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if out is not None:
            it.undecided("reduction into an output array")
        a = gen_list(it, a)
        if where is not True and where is not ONE:
            tr = lambda x, m: mul(notT(eq0(m)) if not pe._isbool01(m) else m, x)
            if mk not in (f_sum, f_mean):
                it.undecided("reduction with a where= mask")
            r = reduce_(it, elementwise(it, tr, [a, where]), axis, f_sum, keepdims is True, dt)
            if mk is f_mean:
                k = reduce_(it, elementwise(it, lambda x, m: tr(ONE, m), [a, where]), axis, f_sum, keepdims is True, dt)
                r = elementwise(it, div, [r, k])
        else:
            r = reduce_(it, a, axis, mk, keepdims is True, dt)
        if initial is not None:
            if mk is not f_sum:
                it.undecided("reduction with an initial value")
            r = elementwise(it, add, [r, initial])
        return r
    for n in names.split():
        NPF[n] = (sig(spec), g)


red("numpy.sum math.fsum", f_sum)
red("numpy.mean", f_mean)
red("numpy.nanmean", nan_split(f_mean))
red("numpy.nansum", nan_split(f_sum))
red("numpy.any", f_anyall(False), dt="b")
red("numpy.all", f_anyall(True), dt="b")
red("numpy.max numpy.amax", f_extreme("rmax"))
red("numpy.min numpy.amin", f_extreme("rmin"))
red("numpy.nanmax", nan_split(f_opq("rmax")))
red("numpy.nanmin", nan_split(f_opq("rmin")))
red("numpy.median", lambda b, e, m: f_opq("quant", HALF)(b, e, m))
red("numpy.nanmedian", lambda b, e, m: nan_split(f_opq("quant", HALF))(b, e, m))
red("numpy.count_nonzero", lambda b, e, m: f_sum(b, notT(eq0(e)), m))
red("numpy.argmax", f_opq("argmax", isint=True, nonneg=True))
red("numpy.argmin", f_opq("argmin", isint=True, nonneg=True))


def f_prod(bvs, e, m):
    if m is not None:
        e = ite(m, e, ONE)
    for b, n in reversed(bvs):
        c = t.cval(n)
        if c is not None and c <= 8:
            r = ONE
            for k in range(int(c)):
                r = mul(r, subst(e, {b.id: const(k)}))
            e = r
        else:
            e = opaque("prod", t.lam(e, b, n))
    return e


red("numpy.prod", f_prod)


@npf("numpy.var", "a, axis=None, dtype=None, out=None, ddof=0, keepdims=False")
def _var(it, a, axis, dtype, out, ddof, kd):
    return reduce_(it, a, axis, f_var(it.num(ddof)), kd is True)


@npf("numpy.std", "a, axis=None, dtype=None, out=None, ddof=0, keepdims=False")
def _std(it, a, axis, dtype, out, ddof, kd):
    g = f_var(it.num(ddof))
    return reduce_(it, a, axis, lambda b, e, m: t.sqrtT(g(b, e, m)), kd is True)


@npf("numpy.nanstd", "a, axis=None, dtype=None, out=None, ddof=0, keepdims=False")
def _nstd(it, a, axis, dtype, out, ddof, kd):
    g = nan_split(f_var(it.num(ddof)))
    return reduce_(it, a, axis, lambda b, e, m: t.sqrtT(g(b, e, m)), kd is True)


@npf("numpy.nanvar", "a, axis=None, dtype=None, out=None, ddof=0, keepdims=False")
def _nvar(it, a, axis, dtype, out, ddof, kd):
    return reduce_(it, a, axis, nan_split(f_var(it.num(ddof))), kd is True)


@npf("numpy.average", "a, axis=None, weights=None")
def _average(it, a, axis, w):
    if w is None:
        return reduce_(it, a, axis, f_mean)
    p = elementwise(it, mul, [a, w])
    n = reduce_(it, p, axis, f_sum)
    d = reduce_(it, w, axis if as_arr(it, w).ndim == as_arr(it, a).ndim else None, f_sum)
    return elementwise(it, div, [n, d])


@npf("numpy.maximum.reduce numpy.fmax.reduce", "a, axis=0")
def _maxred(it, a, axis):
    return reduce_(it, a, axis, f_extreme("rmax"))


@npf("numpy.minimum.reduce", "a, axis=0")
def _minred(it, a, axis):
    return reduce_(it, a, axis, f_extreme("rmin"))


@npf("numpy.add.reduce", "a, axis=0")
def _addred(it, a, axis):
    return reduce_(it, a, axis, f_sum)


@npf("numpy.logaddexp", "a, b")
def _lae(it, a, b):
    return elementwise(it, lambda x, y: t.logT(add(t.expT(x), t.expT(y))), [a, b])


@npf("scipy.special.logsumexp", "a, axis=None, b=None")
def _lse(it, a, axis, b):
    x = elementwise(it, t.expT, [a])
    if b is not None:
        x = elementwise(it, mul, [x, b])
    return elementwise(it, t.logT, [reduce_(it, x, axis, f_sum)])


@npf("numpy.cumsum", "a, axis=None")
def _cumsum(it, a, axis):
    x = as_arr(it, a)
    if axis is None:
        x = ravel(it, x)
        ax = 0
    else:
        ax = int(t.cval(axis)) % x.ndim

    def f(i):
        b = t.fresh_bv(add(i[ax], ONE), tag="s")
        j = list(i)
        j[ax] = t.atomT(b)
        return sumT(add(i[ax], ONE), b, it.num(x.get(tuple(j))))
    return new(it, x.shape, f, x.dt)


QUANT = {"linear": "quant", "lower": "quant_lower", "higher": "quant_higher", "nearest": "quant_nearest", "midpoint": "quant_midpoint"}


def quant(it, a, q, axis, method="linear", skipnan=False):
    x = as_arr(it, a)
    if method not in QUANT:
        it.undecided("quantile method %s" % (method,))
    nm = QUANT[method]

    def opq(e):
        g = f_opq(nm, e)
        return nan_split(g) if skipnan else g
    if not isinstance(q, (T, BT, bool)):
        qa = as_arr(it, q)
        if qa.ndim == 1:
            def f(i):
                qq = it.num(qa.get(i[:1]))
                r = reduce_(it, a, axis, opq(qq))
                return it.num(r) if len(i) == 1 else as_arr(it, r).get(i[1:])
            r0 = reduce_(it, a, axis, opq(ZERO))
            sh = () if isinstance(r0, T) else as_arr(it, r0).shape
            return new(it, qa.shape + sh, f)
        q = qa.get(())
    return reduce_(it, a, axis, opq(it.num(q)))


def _quantiles(p, scale, skip):
    def f(it, a, q, axis, method, interpolation, keepdims):
        if keepdims is True:
            it.undecided("quantile keeping dimensions")
        if scale:
            q = elementwise(it, lambda x: div(x, const(100)), [q])
        return quant(it, a, q, axis, interpolation if interpolation is not None else method, skip)
    NPF[p] = (sig("a, q, axis=None, method='linear', interpolation=None, keepdims=False"), f)


_quantiles("numpy.percentile", True, False)
_quantiles("numpy.quantile", False, False)
_quantiles("numpy.nanpercentile", True, True)
_quantiles("numpy.nanquantile", False, True)


@npf("numpy.sort", "a, axis=-1, kind=None")
def _sort(it, a, axis, kind):
    x = as_arr(it, a)
    ax = int(t.cval(axis)) % x.ndim
    return new(it, x.shape, lambda i: sort_elem(it, x, ax, i), x.dt)


def sort_elem(it, x, ax, i):
    b = t.fresh_bv(x.shape[ax], tag="s")
    j = list(i)
    j[ax] = t.atomT(b)
    e = it.num(x.get(tuple(j)))
    at = t.as_atom(e)
    if at is not None and at.kind == "fn" and at.args[0] == "eigsorted" and at.args[-1] is t.atomT(b):
        return it.num(x.get(i))
    return opaque("sorted", t.lam(e, b, x.shape[ax]), i[ax])


@npf("numpy.argsort", "a, axis=-1, kind=None")
def _argsort(it, a, axis, kind):
    x = as_arr(it, a)
    ax = int(t.cval(axis)) % x.ndim
    st = ONE if kind in ("stable", "mergesort") else ZERO      # ties in index order

    def f(i):
        b = t.fresh_bv(x.shape[ax], tag="s")
        j = list(i)
        j[ax] = t.atomT(b)
        e = it.num(x.get(tuple(j)))
        at = argsort_of(e)
        if at is not None and at.args[2] is t.atomT(b):
            # position of each element in the sorted order
            return opaque("argrank", at.args[1], i[ax], at.args[3], isint=True, nonneg=True)
        return opaque("argsort", t.lam(e, b, x.shape[ax]), i[ax], st, isint=True, nonneg=True)
    return new(it, x.shape, f, "i")


@npf("numpy.fft.fft scipy.fft.fft scipy.fftpack.fft numpy.fft.rfft scipy.fft.rfft", "a, n=None")
def _fft(it, a, n):
    x = as_arr(it, a)
    if x.ndim != 1 or isinstance(x, Spectrum):
        it.undecided("Fourier transform of this array")
    if n is not None:
        m, x0 = it.num(n), x
        if m is not x.shape[0]:
            x = Arr((m,), lambda i: ite(lt0(sub(i[0], x0.shape[0])), it.num(x0.get(i)), ZERO), x0.dt)
    return it.alloc(Spectrum(it, [x]))


@npf("numpy.fft.ifft scipy.fft.ifft scipy.fftpack.ifft numpy.fft.irfft scipy.fft.irfft", "a, n=None")
def _ifft(it, a, n):
    x = as_arr(it, a)
    if not isinstance(x, Spectrum):
        it.undecided("inverse Fourier transform of this array")
    if n is not None:
        dim_join(it, it.num(n), x.shape[0])
    r = x.seqs[0]
    for q in x.seqs[1:]:
        r = circular(it, r, q)
    return new(it, r.shape, r.get)


def circular(it, p, q):
    """circular convolution"""
    n = p.shape[0]

    def f(i):
        b = t.fresh_bv(n, tag="c")
        bt = t.atomT(b)
        return t.sumT(n, b, mul(it.num(p.get((bt,))), it.num(q.get((modT(sub(i[0], bt), n),)))))
    return Arr((n,), f)


def argsort_of(ev):
    """the sort keys whose argsort this element function value is"""
    at = t.as_atom(ev)
    return at if at is not None and at.kind == "fn" and at.args[0] == "argsort" else None


@npf("numpy.searchsorted", "a, v, side='left'")
def _ss(it, a, v, side):
    x = as_arr(it, a)
    b = t.fresh_bv(x.shape[0], tag="s")
    bt = t.atomT(b)

    def f(y):
        e = it.num(x.get((bt,)))
        return sumT(x.shape[0], b, lt0(sub(e, y)) if side == "left" else le0(sub(e, y)))
    return elementwise(it, f, [v])


@npf("numpy.bincount", "a, weights=None, minlength=0")
def _bincount(it, a, w, minlength):
    x = as_arr(it, a)
    L = it.num(minlength)
    b = t.fresh_bv(x.shape[0], tag="s")
    bt = t.atomT(b)
    if it.bincount_len is None:
        # length is max(a)+1 if that exceeds minlength; callers of interest pass a sufficient minlength
        n = L
    else:
        n = it.bincount_len
    wa = as_arr(it, w) if w is not None else None

    def f(i):
        e = eq0(sub(it.num(x.get((bt,))), i[0]))
        if wa is not None:
            e = mul(e, it.num(wa.get((bt,))))
        return sumT(x.shape[0], b, e)
    return new(it, (n,), f, "i" if w is None else "f")


@npf("numpy.cov", "m, y=None, rowvar=True, bias=False, ddof=None")
def _cov(it, m, y, rowvar, bias, ddof):
    return new(it, *cov_(it, m, y, rowvar, bias, ddof))


def cov_(it, m, y, rowvar, bias, ddof):
    x = as_arr(it, m)
    if y is not None:
        x = it.arr(concat(it, [atleast(x, 2), atleast(as_arr(it, y), 2)], 0))
    if rowvar is False or (isinstance(rowvar, T) and rowvar is ZERO):
        if x.ndim == 2:
            x0 = x
            x = Arr((x.shape[1], x.shape[0]), lambda i: x0.get((i[1], i[0])), x0.dt)
    dd = it.num(ddof) if ddof is not None else (ZERO if bias is True else ONE)
    n = x.shape[-1]

    def c(g, h):
        b = t.fresh_bv(n, tag="s")
        bt = t.atomT(b)
        mg = div(sumT(n, b, g(bt)), n)
        mh = div(sumT(n, b, h(bt)), n)
        return div(sumT(n, b, mul(sub(g(bt), mg), sub(h(bt), mh))), sub(n, dd))
    if x.ndim == 1:
        return (), lambda i: c(lambda k: it.num(x.get((k,))), lambda k: it.num(x.get((k,))))
    p = x.shape[0]
    return (p, p), lambda i: c(lambda k: it.num(x.get((i[0], k))), lambda k: it.num(x.get((i[1], k))))


@npf("numpy.corrcoef", "m, y=None, rowvar=True")
def _corrcoef(it, m, y, rowvar):
    sh, f = cov_(it, m, y, rowvar, True, None)

    def g(i):
        same = eq0(sub(i[0], i[1]))
        if same is ONE:
            return ONE
        v = div(f(i), t.sqrtT(mul(f((i[0], i[0])), f((i[1], i[1])))))
        return ite(same, ONE, v)
    return new(it, sh, g)


# ---- linear algebra
NPF["numpy.dot"] = (sig("a, b"), lambda it, a, b: dot(it, as_arr(it, a), as_arr(it, b)))
NPF["numpy.matmul"] = NPF["numpy.dot"]
NPF["numpy.inner"] = (sig("a, b"), lambda it, a, b: dot(it, as_arr(it, a), as_arr(it, b)))
NPF["numpy.vdot"] = NPF["numpy.dot"]


@npf("numpy.trace", "a")
def _trace(it, a):
    x = as_arr(it, a)
    b = t.fresh_bv(x.shape[0], tag="s")
    bt = t.atomT(b)
    return sumT(x.shape[0], b, it.num(x.get((bt, bt))))


def lam2(it, x):
    b0 = t.fresh_bv(x.shape[0], tag="m")
    b1 = t.fresh_bv(x.shape[1], tag="m")
    return t.lam(t.lam(it.num(x.get((t.atomT(b0), t.atomT(b1)))), b1, x.shape[1]), b0, x.shape[0])


def lam1(it, x):
    b0 = t.fresh_bv(x.shape[0], tag="m")
    return t.lam(it.num(x.get((t.atomT(b0),))), b0, x.shape[0])


@npf("numpy.linalg.eigvalsh scipy.linalg.eigvalsh", "a, UPLO='L'")
def _eigvalsh(it, a, u):
    x = as_arr(it, a)
    l = lam2(it, x)
    return new(it, (x.shape[0],), lambda i: fn("eigsorted", l, i[0]))


@npf("numpy.linalg.eigh scipy.linalg.eigh", "a, UPLO='L'")
def _eigh(it, a, u):
    x = as_arr(it, a)
    l = lam2(it, x)
    return (new(it, (x.shape[0],), lambda i: fn("eigsorted", l, i[0])), new(it, x.shape, lambda i: fn("eigvech", l, *i)))


@npf("numpy.linalg.eigvals scipy.linalg.eigvals", "a")
def _eigvals(it, a):
    x = as_arr(it, a)
    l = lam2(it, x)
    return new(it, (x.shape[0],), lambda i: fn("eiggeneral", l, i[0]))


@npf("numpy.linalg.eig scipy.linalg.eig", "a")
def _eig(it, a):
    x = as_arr(it, a)
    l = lam2(it, x)
    return (new(it, (x.shape[0],), lambda i: fn("eiggeneral", l, i[0])), new(it, x.shape, lambda i: fn("eigvec", l, *i)))


def square(it, x):
    if x.ndim != 2 or eq0(sub(x.shape[0], x.shape[1])) is ZERO:
        raise AbsRaise("LinAlgError", it.curnode)
    return x


@npf("numpy.linalg.cholesky", "a")
def _chol(it, a):
    x = square(it, as_arr(it, a))
    l = lam2(it, x)
    return new(it, x.shape, lambda i: fn("chol", l, *i))


@npf("scipy.linalg.cholesky", "a, lower=False")
def _scchol(it, a, lower):
    x = square(it, as_arr(it, a))
    l = lam2(it, x)
    if lower is True:
        return new(it, x.shape, lambda i: fn("chol", l, *i))
    return new(it, x.shape, lambda i: fn("chol", l, i[1], i[0]))


@npf("numpy.linalg.inv scipy.linalg.inv numpy.linalg.pinv", "a")
def _inv(it, a):
    x = as_arr(it, a)
    c = t.cval(x.shape[0])
    if c == 2:
        g = lambda i, j: it.num(x.get((const(i), const(j))))
        d = sub(mul(g(0, 0), g(1, 1)), mul(g(0, 1), g(1, 0)))
        tab = [[div(g(1, 1), d), div(neg(g(0, 1)), d)], [div(neg(g(1, 0)), d), div(g(0, 0), d)]]
        return new(it, x.shape, lambda i: it.pick([it.pick(tab[0], i[1]), it.pick(tab[1], i[1])], i[0]))
    l = lam2(it, x)
    return new(it, x.shape, lambda i: fn("inv", l, *i))


@npf("numpy.linalg.det", "a")
def _det(it, a):
    x = as_arr(it, a)
    if t.cval(x.shape[0]) == 2:
        g = lambda i, j: it.num(x.get((const(i), const(j))))
        return sub(mul(g(0, 0), g(1, 1)), mul(g(0, 1), g(1, 0)))
    return fn("det", lam2(it, x))


@npf("numpy.linalg.lstsq scipy.linalg.lstsq", "a, b, rcond=None")
def _lstsq(it, a, b, rcond):
    x, y = as_arr(it, a), as_arr(it, b)
    if x.ndim != 2:
        raise AbsRaise("LinAlgError", it.curnode)
    dim_join(it, x.shape[0], y.shape[0])
    if t.cval(x.shape[1]) == 1 and y.ndim == 1:
        n = x.shape[0]
        k = t.fresh_bv(n, tag="s")
        kt = t.atomT(k)
        xv, yv = it.num(x.get((kt, ZERO))), it.num(y.get((kt,)))
        c = div(sumT(n, k, mul(xv, yv)), sumT(n, k, mul(xv, xv)))
        coef = new(it, (ONE,), lambda i: c)
    else:
        lx = lam2(it, x)
        ly = lam1(it, y) if y.ndim == 1 else lam2(it, y)
        coef = new(it, (x.shape[1],) + y.shape[1:], lambda i: fn("lstsq", lx, ly, *i))
    o = [new(it, (ONE,), lambda i: fn("lstsq_res")), fn("lstsq_rank"), new(it, (ONE,), lambda i: fn("lstsq_sv"))]
    return (coef, o[0], o[1], o[2])


@npf("numpy.linalg.solve scipy.linalg.solve", "a, b")
def _solve(it, a, b):
    x, y = as_arr(it, a), as_arr(it, b)
    lx = lam2(it, x)
    ly = lam1(it, y) if y.ndim == 1 else lam2(it, y)
    return new(it, (x.shape[1],) + y.shape[1:], lambda i: fn("linsolve", lx, ly, *i))


@npf("numpy.linalg.norm", "a, ord=None, axis=None")
def _norm(it, a, o, axis):
    r = reduce_(it, elementwise(it, lambda x: mul(x, x), [a]), axis, f_sum)
    return elementwise(it, t.sqrtT, [r])


@npf("scipy.interpolate.griddata", "points, values, xi, method='linear', fill_value=None, rescale=False")
def _griddata(it, pts, vals, xi, method, fv, rs):
    def enc(v):
        if isinstance(v, tuple) or (isinstance(v, Ref) and isinstance(it.content(v), PyList)):
            return tuple(enc(x) for x in it.as_items(v))
        a = as_arr(it, v)
        if a.ndim == 0:
            return it.num(a.get(()))
        return lam1(it, a) if a.ndim == 1 else lam2(it, a)
    P = enc(pts)
    V = enc(vals)
    if isinstance(xi, tuple) or isseq_list(it, xi):
        xs = [as_arr(it, x) for x in it.as_items(xi)]
        sh = bshape(it, xs)
        f = lambda i: fn("griddata", P, V, ("s", method), tuple(it.num(bget(x, i)) for x in xs))
    else:
        x = as_arr(it, xi)
        sh = x.shape[:-1]
        c = int(t.cval(x.shape[-1]))
        f = lambda i: fn("griddata", P, V, ("s", method), tuple(it.num(x.get(i + (const(k),))) for k in range(c)))
    return wrap(it, sh, f)


# ---- predicates
@npf("numpy.isscalar", "a")
def _isscalar(it, a):
    return isinstance(a, (T, BT, bool, str))


@npf("numpy.ndim", "a")
def _ndim(it, a):
    return const(as_arr(it, a).ndim)


@npf("numpy.size", "a")
def _size(it, a):
    return prod(as_arr(it, a).shape)


@npf("numpy.shape", "a")
def _shape(it, a):
    return as_arr(it, a).shape


@npf("numpy.array_equal", "a, b")
def _aeq(it, a, b):
    return reduce_(it, compare(it, "Eq", it.alloc(as_arr(it, a)), b), None, f_anyall(True), dt="b")


@npf("numpy.allclose", "a, b, rtol=0.00001, atol=0.00000001")
def _allclose(it, a, b, r, at):
    x, y = as_arr(it, a), as_arr(it, b)
    e = elementwise(it, lambda p, q: le0(sub(t.absT(sub(p, q)), add(it.num(at), mul(it.num(r), t.absT(q))))), [it.alloc(x), it.alloc(y)], "b")
    if isinstance(e, (BT, bool)):
        return e
    return reduce_(it, e, None, f_anyall(True), dt="b")


ew("numpy.isclose math.isclose", lambda p, q: le0(sub(t.absT(sub(p, q)), add(const(t.Fr(1, 10**8)), mul(const(t.Fr(1, 10**5)), t.absT(q))))), "a, b", "b")


@npf("numpy.errstate numpy.seterr numpy.set_printoptions", "a=None, divide=None, invalid=None, over=None, under=None, all=None")
def _errstate(it, *a):
    if it.event_ext is not None:
        it.event_ext("numpy.errstate")
    return None


# ------------------------------------------------------------------ builtins

BUILTINS = {}


def bi(names, spec=None):
    def deco(f):
        for n in names.split():
            BUILTINS[n] = f
            NPF["builtins." + n] = (None if spec is None else sig(spec), f)
        return f
    return deco


@bi("len")
def _len(it, args, kw):
    v = args[0]
    if isinstance(v, CondV):
        return it.map_cond(v, lambda x: _len(it, [x], {}))
    if isinstance(v, (tuple, str)):
        return const(len(v))
    if isinstance(v, Ref):
        c = it.content(v)
        if isinstance(c, (PyList, PyDict)):
            return const(len(c.items))
        if isinstance(c, Inst):
            return it.call(it.getattr(v, "__len__"), [], {})
    if isinstance(v, IterV):
        return const(len(v.items)) if v.items is not None else v.n
    a = it.arr(v)
    if a is None or a.ndim == 0:
        raise AbsRaise("TypeError", it.curnode)
    if a.filt is not None:
        b = t.fresh_bv(a.shape[0], tag="s")
        return sumT(a.shape[0], b, a.filt((t.atomT(b),)))
    return a.shape[0]


@bi("range")
def _range(it, args, kw):
    a = [it.num(x) for x in args]
    s, e, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
    for x in (s, e, st):
        if t.cval(x) is not None and t.cval(x).denominator != 1:
            raise AbsRaise("TypeError", it.curnode)
    d = sub(e, s)
    c = t.cval(st)
    if c is not None and c < 0:
        d = neg(d)
        q = const(-c)
    else:
        q = st
    n = d if q is ONE else fdiv(sub(add(d, q), ONE), q)
    if t.sign(n) not in ("pos", "nonneg", "zero"):
        n = t.maxT(n, ZERO)
    cn = t.cval(n)
    if cn is not None and cn <= pe.UNROLL:
        return IterV(items=[add(s, mul(st, const(k))) for k in range(int(cn))])
    return IterV(n=n, item=lambda k: add(s, mul(st, k)))


@bi("enumerate")
def _enum(it, args, kw):
    st = it.num(args[1]) if len(args) > 1 else (it.num(kw["start"]) if "start" in kw else ZERO)
    i = it.iterate(args[0])
    if i.items is not None:
        return IterV(items=[(add(st, const(k)), x) for k, x in enumerate(i.items)])
    if i.mask is not None:
        it.undecided("enumerate over a selection")
    return IterV(n=i.n, item=lambda k: (add(st, k), i.item(k)))


@bi("zip")
def _zip(it, args, kw):
    its = [it.iterate(a) for a in args]
    if all(i.items is not None for i in its):
        return IterV(items=list(zip(*[i.items for i in its])))
    conv = []
    n = None
    for i in its:
        if i.items is not None:
            items = list(i.items)
            m = const(len(items))
            conv.append(lambda k, items=items: it.pick(items, k))
        else:
            if i.mask is not None:
                it.undecided("zip over a selection")
            m = i.n
            conv.append(i.item)
        if n is None:
            n = m
        elif n is not m:
            s = t.sign(sub(n, m))
            n = n if s in ("neg", "nonpos", "zero") else (m if s in ("pos", "nonneg") else t.minT(n, m))
            it.shape_reqs.append((it.pcond(), n, m, it.curfile, it.curnode))
    return IterV(n=n, item=lambda k: tuple(f(k) for f in conv))


@bi("map")
def _map(it, args, kw):
    f = args[0]
    z = it.iterate(_zip(it, args[1:], {})) if len(args) > 2 else it.iterate(args[1])
    ap = (lambda x: it.call(f, list(x), {})) if len(args) > 2 else (lambda x: it.call(f, [x], {}))
    if z.items is not None:
        return IterV(items=[ap(x) for x in z.items])
    return IterV(n=z.n, item=lambda k: ap(z.item(k)), mask=z.mask)


@bi("reversed")
def _reversed(it, args, kw):
    i = it.iterate(args[0])
    if i.items is not None:
        return IterV(items=list(reversed(i.items)))
    n = i.n
    return IterV(n=n, item=lambda k: i.item(sub(sub(n, ONE), k)))


@bi("list")
def _list(it, args, kw):
    if not args:
        return it.alloc(PyList([]))
    v = args[0]
    if isinstance(v, CondV):
        return it.map_cond(v, lambda x: _list(it, [x], kw))
    i = it.iterate(v)
    if i.items is not None:
        return it.alloc(PyList(i.items))
    c = t.cval(i.n)
    if c is not None and c <= 64 and i.mask is None:
        return it.alloc(PyList([i.item(const(k)) for k in range(int(c))]))
    if it.optlen is not None:
        pass
    return it.alloc(Arr((i.n,), lambda j: i.item(j[0]), "f", "list", filt=i.mask))


@bi("tuple")
def _tuple(it, args, kw):
    if not args:
        return ()
    i = it.iterate(args[0])
    if i.items is not None:
        return tuple(i.items)
    c = t.cval(i.n)
    if c is not None and c <= 64 and i.mask is None:
        return tuple(i.item(const(k)) for k in range(int(c)))
    return it.alloc(Arr((i.n,), lambda j: i.item(j[0]), "f", "list", filt=i.mask))


@bi("set frozenset")
def _set(it, args, kw):
    if not args:
        return it.alloc(PyList([]))
    return it.alloc(PyList(it.as_items(args[0])))


@bi("dict")
def _dict(it, args, kw):
    d = {}
    if args:
        c = it.content(args[0]) if isinstance(args[0], Ref) else None
        if isinstance(c, PyDict):
            d.update(c.items)
        else:
            for x in it.as_items(args[0]):
                k, v = it.as_items(x)
                d[it.dkey(k)] = v
    d.update(kw)
    return it.alloc(PyDict(d))


@bi("sum")
def _sum(it, args, kw):
    st = args[1] if len(args) > 1 else kw.get("start", ZERO)
    i = it.iterate(gen_list(it, args[0]))
    if i.items is not None:
        r = st
        for x in i.items:
            r = binop(it, "Add", r, x)
        return r
    b = t.fresh_bv(i.n, tag="s")
    e = i.item(t.atomT(b))
    if isinstance(e, (T, BT, bool)):
        x = it.num(e)
        if i.mask is not None:
            x = mul(i.mask((t.atomT(b),)), x)
        return add(it.num(st), sumT(i.n, b, x))
    a = it.arr(e)
    if a is not None:
        def f(j):
            b2 = t.fresh_bv(i.n, tag="s")
            x = it.num(as_arr(it, i.item(t.atomT(b2))).get(j))
            if i.mask is not None:
                x = mul(i.mask((t.atomT(b2),)), x)
            return add(it.num(st), sumT(i.n, b2, x))
        return wrap(it, a.shape, f)
    it.undecided("sum over %r" % (e,))


def extreme(it, args, kw, f, name):
    if "key" in kw:
        return key_extreme(it, args, kw, name)
    if len(args) == 1:
        i = it.iterate(gen_list(it, args[0]))
        if i.items is None:
            b = t.fresh_bv(i.n, tag="s")
            bt = t.atomT(b)
            return f_extreme(name)([(b, i.n)], it.num(i.item(bt)), i.mask((bt,)) if i.mask else None)
        args = i.items
        if not args:
            if "default" in kw:
                return kw["default"]
            raise AbsRaise("ValueError", it.curnode)
    if any(isinstance(a, CondV) for a in args):
        args = [it.num(a) for a in args]
    r = it.num(args[0])
    for x in args[1:]:
        r = f(r, it.num(x))
    return r


def key_extreme(it, args, kw, name):
    """max(items, key=f): first item attaining the extreme of f"""
    i = it.iterate(gen_list(it, args[0]) if len(args) == 1 else tuple(args))
    key = kw["key"]
    if i.items is not None:
        best = i.items[0]
        bk = it.num(it.call(key, [best], {}))
        for x in i.items[1:]:
            k = it.num(it.call(key, [x], {}))
            c = lt0(sub(bk, k)) if name == "rmax" else lt0(sub(k, bk))
            best = it.merge_val(c, x, best, it.st, it.st)
            bk = ite(c, k, bk)
        return best
    b = t.fresh_bv(i.n, tag="s")
    bt = t.atomT(b)
    k = it.num(it.call(key, [i.item(bt)], {}))
    j = opaque("argmax" if name == "rmax" else "argmin", t.lam(k, b, i.n), isint=True, nonneg=True)
    return i.item(j)


@bi("max")
def _max(it, args, kw):
    return extreme(it, args, kw, t.maxT, "rmax")


@bi("min")
def _min(it, args, kw):
    return extreme(it, args, kw, t.minT, "rmin")


@bi("abs")
def _abs(it, args, kw):
    return elementwise(it, t.absT, [args[0]])


@bi("float")
def _float(it, args, kw):
    v = args[0] if args else ZERO
    if isinstance(v, str):
        return {"inf": INF, "nan": NAN, "-inf": neg(INF)}.get(v.lower()) or const(float(v))
    return it.num(v)


@bi("int")
def _int(it, args, kw):
    v = args[0] if args else ZERO
    if isinstance(v, str):
        return const(int(v))
    if isinstance(v, CondV):
        return it.num(it.map_cond(v, lambda x: _int(it, [x], kw)))
    return truncT(it.num(v))


@bi("bool")
def _bool(it, args, kw):
    return mkbool(it.truth(args[0]))


@bi("str repr format")
def _str(it, args, kw):
    v = args[0] if args else ""
    if isinstance(v, str):
        return v
    if isinstance(v, T) and t.cval(v) is not None:
        c = t.cval(v)
        return str(c) if c.denominator == 1 else str(float(c))
    return "{str}"


@bi("print")
def _print(it, args, kw):
    return None


@bi("pow")
def _pow(it, args, kw):
    return binop(it, "Pow", args[0], args[1])


@bi("divmod")
def _divmod(it, args, kw):
    return (binop(it, "FloorDiv", args[0], args[1]), binop(it, "Mod", args[0], args[1]))


@bi("all")
def _all(it, args, kw):
    i = it.iterate(gen_list(it, args[0]))
    if i.items is not None:
        r = ONE
        for x in i.items:
            r = mul(r, it.truth(x))
        return mkbool(r)
    b = t.fresh_bv(i.n, tag="s")
    return mkbool(f_anyall(True)([(b, i.n)], it.truth(i.item(t.atomT(b))), i.mask((t.atomT(b),)) if i.mask else None))


@bi("any")
def _any(it, args, kw):
    i = it.iterate(gen_list(it, args[0]))
    if i.items is not None:
        r = ONE
        for x in i.items:
            r = mul(r, notT(it.truth(x)))
        return mkbool(notT(r))
    b = t.fresh_bv(i.n, tag="s")
    return mkbool(f_anyall(False)([(b, i.n)], it.truth(i.item(t.atomT(b))), i.mask((t.atomT(b),)) if i.mask else None))


@bi("slice")
def _slice(it, args, kw):
    a = [None if x is None else it.num(x) for x in args]
    return SliceV(None, a[0], None) if len(a) == 1 else SliceV(*(a + [None] * (3 - len(a))))


@bi("sorted")
def _sorted(it, args, kw):
    rev = kw.get("reverse", False) is True
    if "key" in kw:
        it.undecided("sorted with a key")
    x = as_arr(it, gen_list(it, args[0]))
    n = x.shape[0]

    def f(i):
        k = sub(sub(n, ONE), i[0]) if rev else i[0]
        return sort_elem(it, x, 0, (k,))
    c = t.cval(n)
    if c is not None and c <= 8:
        return it.alloc(PyList([f((const(k),)) for k in range(int(c))]))
    return it.alloc(Arr((n,), f, x.dt, "list"))


@bi("type")
def _type(it, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        c = it.content(v)
        if isinstance(c, Inst):
            return c.cls
        if isinstance(c, Arr):
            return Ext("numpy.ndarray") if c.kind == "nd" else Ext("builtins.list")
        if isinstance(c, PyDict):
            return Ext("builtins.dict")
        return Ext("builtins.list")
    if isinstance(v, View):
        return Ext("numpy.ndarray")
    if isinstance(v, T):
        return Ext("builtins.int") if t.is_int(v) and t.cval(v) is not None else Ext("builtins.float")
    if isinstance(v, (bool, BT)):
        return Ext("builtins.bool")
    if isinstance(v, str):
        return Ext("builtins.str")
    if isinstance(v, tuple):
        return Ext("builtins.tuple")
    it.undecided("type()")


@bi("id hash")
def _id(it, args, kw):
    return fn("id", ("s", str(getattr(args[0], "id", args[0]))))


@bi("isinstance")
def _isinstance(it, args, kw):
    v, c = args
    if isinstance(v, CondV):
        return it.map_cond(v, lambda x: _isinstance(it, [x, c], {}))
    cs = list(c) if isinstance(c, tuple) else [c]
    return any(isinst(it, v, x) for x in cs)


def isinst(it, v, c):
    if isinstance(c, ClassV):
        if isinstance(v, Ref):
            k = it.content(v)
            return isinstance(k, Inst) and c in k.cls.mro()
        return False
    p = c.path if isinstance(c, Ext) else "?"
    n = p.split(".")[-1]
    if n == "ndarray":
        return it.is_arr(v)
    if n in ("float", "floating", "float64", "Real"):
        return isinstance(v, T) and not (t.cval(v) is not None and t.is_int(v) and n != "Real")
    if n in ("int", "integer", "Integral", "int64"):
        return isinstance(v, T) and t.is_int(v) or isinstance(v, (bool, BT))
    if n in ("Number", "number"):
        return isinstance(v, (T, bool, BT))
    if n in ("list", "List"):
        return isinstance(v, Ref) and not it.is_arr(v) and isinstance(it.content(v), (PyList, Arr, pe.AppMark))
    if n in ("tuple",):
        return isinstance(v, tuple)
    if n in ("Sequence", "Iterable", "Collection"):
        return isinstance(v, tuple) or isinstance(v, str) or (isinstance(v, Ref) and isinstance(it.content(v), (PyList, Arr)))
    if n in ("str",):
        return isinstance(v, str)
    if n in ("bool", "bool_"):
        return isinstance(v, (bool, BT))
    if n in ("dict", "Mapping"):
        return isinstance(v, Ref) and isinstance(it.content(v), PyDict)
    if n in ("NoneType",):
        return v is None
    if n in ("RandomState", "Generator"):
        return isinstance(v, Ref) and isinstance(it.content(v), Rng) and it.content(v).kind == n
    if n in ("Series", "DataFrame"):
        return False
    it.undecided("isinstance(.., %s)" % p)


@bi("callable")
def _callable(it, args, kw):
    return isinstance(args[0], (Func, BoundM, PyFn, ClassV, Ext, Meth))


@bi("hasattr")
def _hasattr(it, args, kw):
    try:
        it.getattr(args[0], args[1])
        return True
    except AbsRaise:
        return False


@bi("getattr")
def _getattr(it, args, kw):
    try:
        return it.getattr(args[0], args[1])
    except AbsRaise:
        if len(args) > 2:
            return args[2]
        raise


@bi("setattr")
def _setattr(it, args, kw):
    it.setattr(args[0], args[1], args[2])


@bi("next")
def _next(it, args, kw):
    v = args[0]
    i = it.iterate(v)
    if i.items:
        return i.items[0]
    it.undecided("next()")


@bi("iter")
def _iter(it, args, kw):
    return args[0]


@bi("filter")
def _filter(it, args, kw):
    i = it.iterate(args[1])
    if i.items is not None:
        out = []
        for x in i.items:
            c = it.truth(it.call(args[0], [x], {}) if args[0] is not None else x)
            if c is ONE:
                out.append(x)
            elif c is not ZERO:
                it.undecided("filter")
        return IterV(items=out)
    m = lambda k: it.truth(it.call(args[0], [i.item(k[0])], {}))
    return IterV(n=i.n, item=i.item, mask=m)


@bi("open")
def _open(it, args, kw):
    it.events.append((it.pcond(), "open", args, it.curfile, it.curnode))
    it.undecided("file access")


EXC = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "ImportError", "RuntimeError",
       "ModuleNotFoundError", "NotImplementedError", "AssertionError", "ZeroDivisionError", "OSError", "FileNotFoundError",
       "StopIteration", "ArithmeticError", "OverflowError", "Warning", "RuntimeWarning", "UserWarning", "DeprecationWarning",
       "FutureWarning", "BaseException", "NameError", "LookupError", "KeyboardInterrupt", "MemoryError"}


def builtin(it, name):
    if name in ("True", "False", "None"):
        return {"True": True, "False": False, "None": None}[name]
    if name in BUILTINS or name in EXC or name in ("object", "property", "staticmethod", "classmethod", "slice", "complex", "bytes", "memoryview", "super", "vars", "dir", "NotImplemented", "bytearray", "__name__"):
        return Ext("builtins." + name)
    return None


# ------------------------------------------------------------------ externals

ALIAS = {"numpy.random.mtrand.RandomState": "numpy.random.RandomState", "numpy.float_": "numpy.float64",
         "numpy.Inf": "numpy.inf", "numpy.NaN": "numpy.nan", "numpy.NAN": "numpy.nan", "numpy.infty": "numpy.inf"}
CONSTS = {"numpy.pi": PI, "math.pi": PI, "scipy.pi": PI, "numpy.inf": INF, "math.inf": INF, "numpy.nan": NAN, "math.nan": NAN,
          "numpy.newaxis": None, "numpy.e": t.expT(ONE), "math.e": t.expT(ONE)}


def canon_ext(e):
    p = ALIAS.get(e.path, e.path)
    if p in CONSTS:
        return CONSTS[p]
    return Ext(p)


def ext_attr(it, o, name):
    p = o.path + "." + name
    if o.path == "numpy" and name in ("float", "int", "bool", "object"):
        # removed aliases: numpy>=1.24 raises AttributeError
        raise AbsRaise("AttributeError:" + p, it.curnode)
    if name in ("__name__",):
        return o.path.split(".")[-1]
    return canon_ext(Ext(p))


def call_ext(it, f, args, kw):
    p = f.path
    h = it.hooks.get("ext", {}).get(p)
    if h is not None:
        r = h(it, args, kw)
        if r is not NotImplemented:
            return r
    e = NPF.get(p)
    if e is not None:
        s, g = e
        if s is None:
            return g(it, args, kw)
        kw = {ALIASKW.get((p, k), k): v for k, v in kw.items()}
        vals = bind_sig(it, s, args, kw, p)
        return g(it, *vals)
    if p.startswith("numpy.random.") or p.startswith("random."):
        return rng_ext(it, p, args, kw)
    if p.startswith("builtins.") and p.split(".")[1] in EXC:
        return ExcV(p.split(".")[1])
    if p in SPECIAL:
        return SPECIAL[p](it, args, kw)
    if p.startswith("warnings."):
        it.events.append((it.pcond(), "warnings", (p, args), it.curfile, it.curnode))
        return None
    if p.startswith("builtins.object"):
        return it.alloc(PyList([]))
    if p.startswith("typing."):
        return f
    it.undecided("library call %s" % p)


ALIASKW = {("numpy.array", "object"): "a", ("numpy.asarray", "a"): "a"}


def _sp(names):
    def deco(f):
        for n in names.split():
            SPECIAL[n] = f
        return f
    return deco


SPECIAL = {}


@_sp("itertools.product")
def _product(it, args, kw):
    if "repeat" in kw:
        args = list(args) * int(t.cval(it.num(kw["repeat"])))
    lists = []
    for a in args:
        i = it.iterate(a)
        if i.items is not None:
            lists.append((const(len(i.items)), lambda k, items=list(i.items): it.pick(items, k), list(i.items)))
        else:
            c = t.cval(i.n)
            lists.append((i.n, i.item, [i.item(const(k)) for k in range(int(c))] if c is not None and c <= 8 else None))
    tot = prod([l[0] for l in lists])
    c = t.cval(tot)
    if c is not None and c <= pe.UNROLL and all(l[2] is not None for l in lists):
        import itertools
        return IterV(items=[tuple(x) for x in itertools.product(*[l[2] for l in lists])])

    def item(k):
        idx = unflat(k, [l[0] for l in lists])
        return tuple(l[1](i) for l, i in zip(lists, idx))
    return IterV(n=tot, item=item)


@_sp("itertools.chain")
def _chain(it, args, kw):
    out = []
    for a in args:
        out += it.as_items(a)
    return IterV(items=out)


@_sp("dataclasses.asdict")
def _asdict(it, args, kw):
    v = args[0]
    c = it.content(v)
    return it.alloc(PyDict({n: it.getattr(v, n) for n in it.dc_fields(c.cls)}))


@_sp("dataclasses.astuple")
def _astuple(it, args, kw):
    v = args[0]
    c = it.content(v)
    return tuple(it.getattr(v, n) for n in it.dc_fields(c.cls))


@_sp("dataclasses.field")
def _field(it, args, kw):
    if "default_factory" in kw:
        return ("dcfield", kw["default_factory"])
    return kw.get("default")


@_sp("dataclasses.replace")
def _replace(it, args, kw):
    v = args[0]
    c = it.content(v)
    vals = {n: it.getattr(v, n) for n in it.dc_fields(c.cls)}
    vals.update(kw)
    return it.instantiate(c.cls, [], vals)


@_sp("copy.copy copy.deepcopy")
def _copy(it, args, kw):
    v = args[0]
    return copy_val(it, v)


def copy_val(it, v):
    if isinstance(v, CondV):
        return it.map_cond(v, lambda x: copy_val(it, x))
    if isinstance(v, Ref):
        c = it.content(v)
        if isinstance(c, Arr):
            return it.alloc(Arr(c.shape, c.f, c.dt, c.kind, filt=c.filt))
        if isinstance(c, PyList):
            return it.alloc(PyList([x for x in c.items]))
        if isinstance(c, PyDict):
            return it.alloc(PyDict(c.items))
        if isinstance(c, Inst):
            r = it.alloc(c)
            for k, x in list(it.st.items()):
                if k[0] == "a" and k[1] == v.id:
                    it.st[("a", r.id, k[2])] = x
            return r
        if isinstance(c, Rng):
            return it.alloc(Rng(c.state, c.kind))
        it.undecided("copy")
    if isinstance(v, View):
        a = it.arr(v)
        return it.alloc(Arr(a.shape, a.f, a.dt, "nd"))
    return v


@_sp("statistics.NormalDist")
def _nd(it, args, kw):
    a = list(args)
    mu = it.num(kw.get("mu", a[0] if a else ZERO))
    sg = it.num(kw.get("sigma", a[1] if len(a) > 1 else ONE))
    return ("normaldist", mu, sg)


@_sp("decimal.Decimal")
def _decimal(it, args, kw):
    v = args[0]
    if isinstance(v, str):
        return const(v)
    return it.num(v)


@_sp("functools.partial")
def _partial(it, args, kw):
    f, pre = args[0], list(args[1:])
    return PyFn(lambda it2, a, k: it2.call(f, pre + list(a), dict(kw, **k)), "partial")


@_sp("functools.reduce")
def _freduce(it, args, kw):
    items = it.as_items(args[1])
    acc = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        acc = it.call(args[0], [acc, x], {})
    return acc


@_sp("time.time time.perf_counter")
def _time(it, args, kw):
    it.events.append((it.pcond(), "time", (), it.curfile, it.curnode))
    return fn("clock", ("s", fresh_id()))


@_sp("warnings.catch_warnings")
def _cw(it, args, kw):
    it.events.append((it.pcond(), "catch_warnings", (), it.curfile, it.curnode))
    return None


# ---- optimisers
def canon_fun(it, f, n, extra, name):
    """canonical lambda of a scalar objective in an n-vector"""
    xs = [t.fresh_bv(isint=False, tag="x") for _ in range(n)]
    save = it.st
    it.st = dict(save)
    x = it.alloc(it.list_arr([t.atomT(b) for b in xs]))
    a = it.content(x)
    it.st[("h", x.id)] = Arr(a.shape, a.f, "f", "nd")
    x0 = it.content(x)
    npc = len(it.pc)
    r = it.call(f, [x] + list(extra), {})
    after = it.st
    if after.get(("h", x.id)) is not x0:
        it.events.append((it.pcond(), "objective-mutates-argument", (name,), it.curfile, it.curnode))
    out = enc(it, r)
    it.st = save
    if name == "fsolve":
        # a root does not depend on the sign and scale of an equation, nor on its being a vector of one
        sc = lambda e: t._scale(e)[1] if isinstance(e, T) and e.num else e
        if isinstance(out, tuple):
            out = tuple(sc(e) for e in out)
            if len(out) == 1:
                out = out[0]
        else:
            out = sc(out)
    for b in reversed(xs):
        out = t.lam(out, b)
    return out


def enc(it, v):
    """encode a value as a term-argument"""
    if isinstance(v, (T, BT, bool)):
        return it.num(v)
    if v is None:
        return ("s", "None")
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, tuple):
        return tuple(enc(it, x) for x in v)
    if isinstance(v, Ref) and isinstance(it.content(v), PyList):
        return tuple(enc(it, x) for x in it.content(v).items)
    if isinstance(v, Ref) and isinstance(it.content(v), PyDict):
        return tuple((("s", str(k)), enc(it, x)) for k, x in sorted(it.content(v).items.items(), key=lambda z: str(z[0])))
    if isinstance(v, Ref) and isinstance(it.content(v), Rng):
        return it.content(v).state
    if isinstance(v, CondV):
        return (("s", "?"), v.c, enc(it, v.a), enc(it, v.b))
    a = it.arr(v)
    if a is not None:
        if a.kind != "nd":
            a = deep(it, a)
        return enc_arr(it, a)
    if isinstance(v, ExcV):
        return ("s", "exc:" + v.name)
    it.undecided("cannot encode %r" % (v,))


def enc_arr(it, a):
    c = [t.cval(s) for s in a.shape]
    if a.ndim == 0:
        return it.num(a.get(()))
    if a.ndim == 1 and c[0] is not None and c[0] <= 6 and a.filt is None:
        return tuple(it.num(a.get((const(k),))) for k in range(int(c[0])))
    bvs = [t.fresh_bv(s, tag="m") for s in a.shape]
    e = it.num(a.get(tuple(t.atomT(b) for b in bvs)))
    if a.filt is not None:
        e = ite(a.filt((t.atomT(bvs[0]),)), e, fn("skip"))
    for b, s in reversed(list(zip(bvs, a.shape))):
        e = t.lam(e, b, s)
    return e


@_sp("scipy.optimize.fsolve")
def _fsolve(it, args, kw):
    names = ["func", "x0", "args", "fprime", "full_output", "col_deriv", "xtol", "maxfev"]
    a = dict(zip(names, args))
    a.update(kw)
    x0 = a["x0"]
    extra = a.get("args", ())
    extra = list(extra) if isinstance(extra, tuple) else [extra]
    xa = as_arr(it, x0)
    scalar = xa.ndim == 0
    n = 1 if scalar else t.cval(xa.shape[0])
    if n is None:
        # elementwise system: encode with a symbolic vector unknown
        u = opaque("fsolve_unknown", ("s", fresh_id()))
        it.undecided("fsolve with symbolic dimension")
    n = int(n)
    if scalar:
        f0 = a["func"]
    lamf = canon_fun(it, a["func"], n, extra, "fsolve")
    start = enc(it, x0)
    if not isinstance(start, tuple):
        start = (start,)
    sol = [fn("fsolve", lamf, start, const(k)) for k in range(n)]
    x = new(it, (const(n),), lambda i: it.pick(sol, i[0]))
    if a.get("full_output") in (True, ONE):
        return (x, it.alloc(PyDict({"fvec": new(it, (const(n),), lambda i: fn("fsolve_f", lamf, start, i[0]))})), fn("fsolve_ier", lamf, start), "{msg}")
    return x


@_sp("scipy.optimize.brentq scipy.optimize.newton scipy.optimize.root_scalar scipy.optimize.bisect scipy.optimize.brenth")
def _brentq(it, args, kw):
    f = args[0]
    extra = kw.get("args", args[3] if len(args) > 3 else ())
    extra = list(extra) if isinstance(extra, tuple) else [extra]
    b = t.fresh_bv(isint=False, tag="x")
    r = it.num(it.call(f, [t.atomT(b)] + extra, {}))
    return fn("root1", t.lam(r, b), *[it.num(x) for x in args[1:3]])


# ------------------------------------------------------------------ random numbers

# distributions numpy fills one element after the other: a draw of any shape is a stretch of the stream
STREAM = {"stdnormal", "uniform01", "stdexp", "int", "triangular", "binomial", "poisson", "lognormal", "beta"}


def rngpos(base, method, params, cnt):
    """state of the generator after cnt draws of one distribution from state base"""
    if cnt is ZERO:
        return base
    a = t.as_atom(base)
    if a is not None and a.kind == "fn" and a.args[0] == "rngpos" and a.args[2] == method and a.args[3] == params:
        return rngpos(a.args[1], method, params, add(a.args[4], cnt))
    return fn("rngpos", base, method, params, cnt)


def drawT(kind, method, st, params, pos, isint):
    a = t.as_atom(st)
    if a is not None and a.kind == "fn" and a.args[0] == "rngpos" and a.args[2] == method and a.args[3] == params:
        return drawT(kind, method, a.args[1], params, add(a.args[4], pos), isint)
    return t.atomT(t.fn_atom("draw", (kind, method, st, params, pos), isint=isint, nonneg=isint))


t.REFN["rngpos"] = lambda args, at: rngpos(*args)
t.REFN["draw"] = lambda args, at: drawT(*args, at.isint) if len(args) == 5 and isinstance(args[4], T) else \
    t.fn("draw", *args, isint=at.isint, nonneg=at.nonneg)


def draw(it, ref, method, params, size, dt="f"):
    r = it.content(ref)
    st = r.state
    if size is None:
        sh = None
    else:
        sh = shape_of(it, size)
    key = tuple(sh) if sh is not None else ()
    it.events.append((it.pcond(), "draw", (ref, method), it.curfile, it.curnode))
    isint = dt == "i"
    ps = []
    for x in params:
        a = as_arr(it, x) if not isinstance(x, (T, tuple)) else None
        ps.append(it.num(a.get(())) if a is not None and a.ndim == 0 else x)
    params = tuple(ps)
    if method in STREAM and all(isinstance(x, T) for x in params):
        kind, me = ("s", r.kind), ("s", method)
        n = ONE
        for d in key:
            n = mul(n, d)
        it.st[("h", ref.id)] = Rng(rngpos(st, me, params, n), r.kind)

        def f(i):
            p = ZERO
            for d, x in zip(key, i):
                p = add(mul(p, d), x)
            return drawT(kind, me, st, params, p, isint)
    else:
        it.st[("h", ref.id)] = Rng(fn("rngnext", st, ("s", method), ("s", "sz" if sh is not None else "-"), key, tuple(params)), r.kind)

        def f(i):
            return t.atomT(t.fn_atom("draw", (("s", r.kind), ("s", method), st, key, tuple(params)) + tuple(i), isint=isint, nonneg=isint))
    if sh is None:
        return f(())
    return new(it, sh, f, dt)


RNG_SIG = {
    "normal": "loc=0, scale=1, size=None", "standard_normal": "size=None", "uniform": "low=0, high=1, size=None",
    "random": "size=None", "random_sample": "size=None", "triangular": "left, mode, right, size=None",
    "choice": "a, size=None, replace=True, p=None", "integers": "low, high=None, size=None, dtype=None, endpoint=False",
    "randint": "low, high=None, size=None, dtype=None", "permutation": "x", "shuffle": "x",
    "beta": "a, b, size=None", "exponential": "scale=1, size=None", "poisson": "lam=1, size=None",
    "binomial": "n, p, size=None", "multivariate_normal": "mean, cov, size=None", "lognormal": "mean=0, sigma=1, size=None",
}


def rng_meth(it, ref, name, args, kw):
    if name in ("rand", "randn"):
        size = tuple(args) if args else None
        return draw(it, ref, "uniform01" if name == "rand" else "stdnormal", (), size)
    if name == "seed":
        it.st[("h", ref.id)] = Rng(fn("rng", ("s", it.content(ref).kind), enc(it, args[0] if args else None)), it.content(ref).kind)
        return None
    if name not in RNG_SIG:
        it.undecided("random method " + name)
    s = sig(RNG_SIG[name])
    v = dict(zip([n for n, _ in s], bind_sig(it, s, args, kw, "rng." + name)))
    size = v.get("size")
    kind = it.content(ref).kind
    if name in ("random", "random_sample"):
        return draw(it, ref, "uniform01", (), size)
    if name == "standard_normal":
        return draw(it, ref, "stdnormal", (), size)
    if name == "normal":
        z = draw(it, ref, "stdnormal", (), bsize(it, size, [v["loc"], v["scale"]]))
        return elementwise(it, lambda l, s_, x: add(l, mul(s_, x)), [v["loc"], v["scale"], z])
    if name == "uniform":
        u = draw(it, ref, "uniform01", (), bsize(it, size, [v["low"], v["high"]]))
        return elementwise(it, lambda l, h, x: add(l, mul(sub(h, l), x)), [v["low"], v["high"], u])
    if name == "exponential":
        u = draw(it, ref, "stdexp", (), size)
        return elementwise(it, mul, [v["scale"], u])
    if name in ("integers", "randint"):
        lo, hi = v["low"], v["high"]
        if hi is None:
            lo, hi = ZERO, lo
        if v.get("endpoint") is True:
            hi = add(it.num(hi), ONE)
        d = draw(it, ref, "int", (it.num(lo), it.num(hi)), size, "i")
        return d
    if name == "choice":
        a = v["a"]
        rep = v["replace"]
        p = v["p"]
        xa = None
        if isinstance(a, T):
            n = a
        else:
            xa = as_arr(it, a)
            n = xa.shape[0]
        if rep is not False and p is None:
            # numpy draws the positions with integers / randint
            d = draw(it, ref, "int", (ZERO, n), size, "i")
        else:
            params = (n, ("s", "rep" if rep is not False else "norep")) + ((enc(it, p),) if p is not None else ())
            d = draw(it, ref, "choice", params, size, "i")
        if xa is None:
            return d
        if xa.ndim == 1 and isinstance(d, T):
            return xa.get((d,))
        da = as_arr(it, d)
        return new(it, da.shape + xa.shape[1:], lambda i: xa.get((it.num(da.get(i[:da.ndim])),) + i[da.ndim:]), xa.dt)
    if name == "permutation":
        a = v["x"]
        if isinstance(a, T):
            return draw(it, ref, "perm", (a,), (a,), "i")
        xa = as_arr(it, a)
        d = as_arr(it, draw(it, ref, "perm", (xa.shape[0],), (xa.shape[0],), "i"))
        return new(it, xa.shape, lambda i: xa.get((it.num(d.get(i[:1])),) + i[1:]), xa.dt)
    if name == "shuffle":
        a = v["x"]
        xa = as_arr(it, a)
        d = as_arr(it, draw(it, ref, "perm", (xa.shape[0],), (xa.shape[0],), "i"))
        it.store_all(a, lambda i: xa.get((it.num(d.get(i[:1])),) + i[1:]))
        return None
    params = tuple(enc(it, v[n]) for n, _ in s if n != "size")
    return draw(it, ref, name, params, size)


def bsize(it, size, ps):
    if size is not None:
        return size
    arrs = [as_arr(it, p) for p in ps]
    sh = bshape(it, arrs)
    return sh if sh else None


def rng_ext(it, p, args, kw):
    n = p.split(".")[-1]
    if n in ("RandomState", "default_rng", "Generator"):
        kind = "RandomState" if n == "RandomState" else "Generator"
        seed = args[0] if args else kw.get("seed")
        if isinstance(seed, Ref) and isinstance(it.content(seed), Rng):
            return seed
        if seed is None:
            it.events.append((it.pcond(), "unseeded", (p,), it.curfile, it.curnode))
            s = fn("rng", ("s", kind), ("s", "entropy%d" % fresh_id()))
        else:
            s = fn("rng", ("s", kind), enc(it, seed))
        return it.alloc(Rng(s, kind))
    if n in ("SeedSequence", "PCG64", "MT19937"):
        return args[0] if args else None
    it.events.append((it.pcond(), "global-rng", (p,), it.curfile, it.curnode))
    if it.global_rng is None:
        it.global_rng = it.alloc(Rng(fn("rng", ("s", "RandomState"), ("s", "process-global")), "RandomState"))
    if ("h", it.global_rng.id) not in it.st:
        it.st[("h", it.global_rng.id)] = Rng(fn("rng", ("s", "RandomState"), ("s", "process-global")), "RandomState")
    return rng_meth(it, it.global_rng, n, args, kw)


# ------------------------------------------------------------------ attributes and methods of values

ARR_METHS = {"sum": "numpy.sum", "mean": "numpy.mean", "std": "numpy.std", "var": "numpy.var", "max": "numpy.max", "min": "numpy.min",
             "dot": "numpy.dot", "argsort": "numpy.argsort", "argmax": "numpy.argmax", "argmin": "numpy.argmin", "cumsum": "numpy.cumsum",
             "squeeze": "numpy.squeeze", "ravel": "numpy.ravel", "flatten": "numpy.ravel", "clip": "numpy.clip", "round": "numpy.round",
             "transpose": "numpy.transpose", "any": "numpy.any", "all": "numpy.all", "copy": "numpy.array", "repeat": "numpy.repeat",
             "prod": "numpy.prod", "trace": "numpy.trace", "nonzero": "numpy.nonzero", "conj": "numpy.conj", "swapaxes": "numpy.swapaxes"}


def value_attr(it, o, name):
    if isinstance(o, Ref):
        c = it.content(o)
        if isinstance(c, Rng):
            return Meth(o, name)
        if isinstance(c, (PyList, PyDict, pe.AppMark)) or (isinstance(c, Arr) and c.kind == "list"):
            if name in LIST_OK or isinstance(c, PyDict):
                return Meth(o, name)
            raise AbsRaise("AttributeError:" + name, it.curnode)
        if isinstance(c, Cell):
            it.undecided("attribute of cell")
    if isinstance(o, (tuple,)):
        if o and o[0] == "normaldist":
            return Meth(o, name)
        return Meth(o, name)
    if isinstance(o, str):
        return Meth(o, name)
    if isinstance(o, IterV):
        it.undecided("attribute %s of an iterator" % name)
    if isinstance(o, ExcV):
        return "{exc}"
    if o is None:
        raise AbsRaise("AttributeError:None." + name, it.curnode)
    isarr = it.is_arr(o)
    if isarr or isinstance(o, (T, BT, bool)):
        if isinstance(o, T) and it.pyfloats is not None:
            raise AbsRaise("AttributeError:float." + name, it.curnode)
        a = as_arr(it, o)
        if name == "shape":
            if a.filt is not None:
                return (_len(it, [o], {}),) + a.shape[1:]
            return a.shape
        if name == "ndim":
            return const(a.ndim)
        if name == "size":
            if a.filt is not None:
                return mul(_len(it, [o], {}), prod(a.shape[1:]))
            return prod(a.shape)
        if name == "T":
            return _transpose(it, o, None) if a.ndim >= 2 else o
        if name in ("real",):
            return elementwise(it, lambda x: fn("realpart", x) if False else x, [o]) if isarr else o
        if name == "imag":
            return elementwise(it, lambda x: fn("imag", x), [o])
        if name == "dtype":
            return Ext("numpy.dtype_" + a.dt)
        if name == "flat":
            return new(it, *(lambda r: (r.shape, r.f, r.dt))(ravel(it, a)))
        if name in ARR_METHS or name in ("reshape", "astype", "tolist", "item", "fill", "sort", "is_integer", "to_integral_value", "quantize", "view", "dump", "searchsorted", "put", "take", "setflags", "to_numpy"):
            return Meth(o, name)
        raise AbsRaise("AttributeError:" + name, it.curnode)
    if isinstance(o, Meth):
        it.undecided("attribute of method")
    if isinstance(o, Func):
        if name == "__name__":
            return o.name
        if name == "__wrapped__":
            return o
    it.undecided("attribute %s of %r" % (name, o))


LIST_OK = {"append", "extend", "insert", "pop", "sort", "index", "reverse", "copy", "clear", "remove", "count", "add", "update", "union"}


def call_meth(it, m, args, kw):
    o, name = m.obj, m.name
    if isinstance(o, CondV):
        return it.map_cond(o, lambda x: call_meth(it, Meth(x, name), args, kw))
    if isinstance(o, str):
        return str_meth(it, o, name, args)
    if isinstance(o, tuple):
        if o and o[0] == "normaldist":
            mu, sg = o[1], o[2]
            x = it.num(args[0])
            if name == "inv_cdf":
                return add(mu, mul(sg, ppfT(x)))
            if name == "cdf":
                return t.cdfT(div(sub(x, mu), sg))
        if name == "index":
            for k, x in enumerate(o):
                if eqval(it, x, args[0]) is ONE:
                    return const(k)
        if name == "count":
            return const(sum(1 for x in o if eqval(it, x, args[0]) is ONE))
        it.undecided("tuple method " + name)
    if isinstance(o, Ref):
        c = it.content(o)
        if isinstance(c, Rng):
            return rng_meth(it, o, name, args, kw)
        if isinstance(c, PyDict):
            return dict_meth(it, o, c, name, args, kw)
        if isinstance(c, PyList) or isinstance(c, pe.AppMark) or (isinstance(c, Arr) and c.kind == "list"):
            return list_meth(it, o, c, name, args, kw)
    if name in ("to_integral_value", "quantize"):
        x = it.num(o)
        r = None
        for a in list(args) + list(kw.values()):
            if isinstance(a, Ext) and a.path.split(".")[-1].startswith("ROUND"):
                r = a.path.split(".")[-1]
        if r == "ROUND_HALF_UP":
            s = t.sign(x)
            up = floorT(add(x, HALF))
            if s in ("pos", "nonneg", "zero"):
                return up
            return ite(lt0(x), neg(floorT(add(neg(x), HALF))), up)
        if r in ("ROUND_HALF_EVEN", None):
            return rintT(x)
        if r == "ROUND_FLOOR":
            return floorT(x)
        if r == "ROUND_DOWN":
            return truncT(x)
        it.undecided("rounding mode")
    if name == "is_integer":
        x = it.num(o)
        return mkbool(eq0(sub(x, floorT(x))))
    if name == "item":
        a = as_arr(it, o)
        if a.ndim == 0:
            return it.num(a.get(()))
        if args:
            return it.num(getitem(it, o, args[0] if len(args) == 1 else tuple(args)))
        return it.num(a.get((ZERO,) * a.ndim))
    if name == "reshape":
        order = kw.get("order", "C")
        sh = args[0] if len(args) == 1 else tuple(args)
        return _reshape(it, o, sh, order)
    if name == "astype":
        return _array(it, o, args[0] if args else kw.get("dtype"), True)
    if name == "to_numpy":
        return o
    if name == "tolist":
        a = as_arr(it, o)
        c = t.cval(a.shape[0]) if a.ndim else None
        if a.ndim == 1 and c is not None and c <= 64 and a.filt is None:
            return it.alloc(PyList([a.get((const(k),)) for k in range(int(c))]))
        return it.alloc(Arr(a.shape, a.f, a.dt, "list", filt=a.filt))
    if name == "fill":
        x = it.num(args[0])
        it.store_all(o, lambda i: x)
        return None
    if name == "sort":
        a = as_arr(it, o)
        it.store_all(o, lambda i: sort_elem(it, a, a.ndim - 1, i))
        return None
    if name == "flatten" or name == "ravel":
        a = as_arr(it, o)
        order = args[0] if args else kw.get("order", "C")
        if a.filt is not None:
            if all(t.cval(s) == 1 for s in a.shape[1:]):
                return it.alloc(Arr(a.shape[:1], lambda i: a.get(i + (ZERO,) * (a.ndim - 1)), a.dt, "nd", filt=a.filt))
            it.undecided("ravel of a selection")
        r = ravel(it, a, order) if a.ndim else atleast(a, 1)
        return new(it, r.shape, r.f, r.dt)
    if name == "copy":
        return copy_val(it, o) if not isinstance(o, T) else o
    if name == "transpose":
        return _transpose(it, o, (tuple(args) if len(args) > 1 else args[0]) if args else None)
    if name == "clip":
        ren = {"min": "a_min", "max": "a_max"}
        kw = {ren.get(k, k): v for k, v in kw.items()}
    if name == "take":
        return getitem(it, o, args[0])
    if name == "searchsorted":
        return _ss(it, o, args[0], args[1] if len(args) > 1 else kw.get("side", "left"))
    p = ARR_METHS.get(name)
    if p is not None:
        return call_ext(it, Ext(p), [o] + list(args), kw)
    it.undecided("method %s" % name)


def str_meth(it, o, name, args):
    if name in ("join",):
        return "{joined}"
    if name in ("format",):
        return "{fmt}"
    if name in ("lower", "upper", "strip", "title"):
        return getattr(o, name)()
    if name in ("startswith", "endswith") and isinstance(args[0], str):
        return getattr(o, name)(args[0])
    if name == "split":
        return it.alloc(PyList(o.split(*args)))
    if name == "replace":
        return o.replace(*args)
    it.undecided("string method " + name)


def dict_meth(it, o, c, name, args, kw):
    if name == "keys":
        return IterV(items=[dk(k) for k in c.items])
    if name == "values":
        return IterV(items=list(c.items.values()))
    if name == "items":
        return IterV(items=[(dk(k), v) for k, v in c.items.items()])
    if name == "get":
        k = it.dkey(args[0])
        return c.items.get(k, args[1] if len(args) > 1 else None)
    if name == "copy":
        return it.alloc(PyDict(c.items))
    if name == "update":
        d = dict(c.items)
        if args:
            d.update(it.content(args[0]).items)
        d.update(kw)
        it.st[("h", o.id)] = PyDict(d)
        return None
    if name == "setdefault":
        k = it.dkey(args[0])
        if k not in c.items:
            d = dict(c.items)
            d[k] = args[1] if len(args) > 1 else None
            it.st[("h", o.id)] = PyDict(d)
            return d[k]
        return c.items[k]
    if name == "pop":
        k = it.dkey(args[0])
        if k in c.items:
            d = dict(c.items)
            v = d.pop(k)
            it.st[("h", o.id)] = PyDict(d)
            return v
        if len(args) > 1:
            return args[1]
        raise AbsRaise("KeyError", it.curnode)
    it.undecided("dict method " + name)


def dk(k):
    return const(k) if isinstance(k, t.Fr) else k


def list_meth(it, o, c, name, args, kw):
    if name in ("append", "add"):
        it.list_append(o, args[0])
        return None
    if name == "extend":
        if isinstance(c, PyList):
            i = it.iterate(args[0])
            if i.items is None and not c.items:
                it.st[("h", o.id)] = Arr((i.n,), lambda j: i.item(j[0]), "f", "list", filt=i.mask)
                return None
        for x in it.as_items(args[0]):
            it.list_append(o, x)
        return None
    if name == "copy":
        return copy_val(it, o)
    if isinstance(c, PyList):
        L = list(c.items)
        if name == "insert":
            L.insert(int(t.cval(it.num(args[0]))), args[1])
            it.st[("h", o.id)] = PyList(L)
            return None
        if name == "pop":
            if not L:
                raise AbsRaise("IndexError", it.curnode)
            v = L.pop(int(t.cval(it.num(args[0]))) if args else -1)
            it.st[("h", o.id)] = PyList(L)
            return v
        if name == "clear":
            it.st[("h", o.id)] = PyList([])
            return None
        if name == "reverse":
            it.st[("h", o.id)] = PyList(L[::-1])
            return None
        if name == "index":
            for k, x in enumerate(L):
                e = eqval(it, x, args[0])
                if e is ONE:
                    return const(k)
                if e is not ZERO:
                    return first_index(it, L, args[0])
            raise AbsRaise("ValueError", it.curnode)
        if name == "sort":
            r = _sorted(it, [o], kw)
            it.st[("h", o.id)] = it.content(r)
            return None
    if isinstance(c, Arr) and name == "sort":
        r = _sorted(it, [o], kw)
        it.st[("h", o.id)] = it.content(r)
        return None
    it.undecided("list method " + name)


def first_index(it, L, v):
    r = const(len(L))
    for k in range(len(L) - 1, -1, -1):
        r = ite(eqval(it, L[k], v), const(k), r)
    return r
