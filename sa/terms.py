"""Canonical scalar terms for global value numbering.

A term is a rational function num/den over hash-consed atoms; atoms are input
symbols, bound indices, uninterpreted applications, log/exp/abs/power/indicator
atoms, finite sums and recurrence sequences.  Two program expressions that are
equal under the algebra below get the *same object*.  Nothing is executed and no
solver is involved: the only decision is identity of the canonical term.
"""
from fractions import Fraction as Fr
from functools import cmp_to_key

MAX_TERMS = 6000


class Blowup(Exception):
    pass


class Undecided(Exception):
    """The analysed source uses something this analysis has no rule for."""


# --------------------------------------------------------------------- atoms
ATOMS = []
_atom_tab = {}


class Atom:
    __slots__ = ("id", "kind", "args", "pos", "nonneg", "isint", "h", "deps", "lo", "ext", "name")

    def __repr__(self):
        return show_atom(self)


def _mk(kind, args, key=None, **kw):
    k = (kind, key if key is not None else args)
    a = _atom_tab.get(k)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.args = kind, args
    a.pos = kw.get("pos", False)
    a.nonneg = kw.get("nonneg", False) or a.pos
    a.isint = kw.get("isint", False)
    a.lo = kw.get("lo")
    a.ext = kw.get("ext")
    a.h = kw.get("h", 0)
    a.deps = kw.get("deps", frozenset())
    ATOMS.append(a)
    _atom_tab[k] = a
    return a


def sym_atom(name, pos=False, nonneg=False, isint=False, lo=None):
    a = _mk("sym", (name,), pos=pos, nonneg=nonneg or (lo is not None and lo >= 0), isint=isint, lo=lo)
    if not a.deps:
        a.deps = frozenset([a.id])
    return a


def sym(name, **kw):
    return atomT(sym_atom(name, **kw))


_bvcount = [0]


def fresh_bv(ext=None, isint=True, tag="i"):
    _bvcount[0] += 1
    a = _mk("bv", (tag, _bvcount[0]), isint=isint, nonneg=isint, lo=0 if isint else None, ext=ext)
    a.deps = frozenset([a.id])
    return a


def bnd(level, isint=True):
    return _mk("bnd", (level,), isint=isint, nonneg=isint, lo=0 if isint else None, h=level)


# canonical values appearing as arguments of applications:
#   T | ("s", str) | ("t", tuple-of-values) | Lam
class Lam:
    """A closed one-parameter abstraction body with bound atom level h."""
    __slots__ = ("h", "body", "deps", "id", "n")
    _tab = {}

    def __new__(cls, h, body, n=None):
        k = (h, body, n)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.h, o.body, o.n = h, body, n
            o.deps = val_deps(body) | (n.deps if n is not None else frozenset())
            o.id = len(cls._tab)
            cls._tab[k] = o
        return o

    def __repr__(self):
        return "λ%d<%s.%s" % (self.h, self.n, self.body)


def val_h(v):
    if isinstance(v, T):
        return v.h
    if isinstance(v, Lam):
        return v.h
    if isinstance(v, tuple):
        return max([val_h(x) for x in v], default=0)
    return 0


def val_deps(v):
    if isinstance(v, (T, Lam)):
        return v.deps
    if isinstance(v, tuple):
        d = frozenset()
        for x in v:
            d |= val_deps(x)
        return d
    return frozenset()


def fn_atom(name, args, **kw):
    args = tuple(args)
    h = max([val_h(a) for a in args], default=0)
    deps = frozenset()
    for a in args:
        deps |= val_deps(a)
    return _mk("fn", (name,) + args, h=h, deps=deps, **kw)


_POSFN = {"cdf": "nonneg"}


def fn(name, *args, **kw):
    return atomT(fn_atom(name, args, **kw))


# --------------------------------------------------------------------- polynomials
# mono: tuple of (atom id, exponent) sorted by atom id; poly: dict mono -> Fraction

def _mcmp(m1, m2):
    i = j = 0
    while i < len(m1) or j < len(m2):
        if j >= len(m2):
            return 1 if m1[i][1] > 0 else -1
        if i >= len(m1):
            return -1 if m2[j][1] > 0 else 1
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e != f:
                return 1 if e > f else -1
            i += 1
            j += 1
        elif a < b:
            return 1 if e > 0 else -1
        else:
            return -1 if f > 0 else 1
    return 0


_mkey = cmp_to_key(_mcmp)


class T:
    __slots__ = ("num", "den", "id", "h", "deps", "_items")
    _tab = {}

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    # python operator sugar for the analyser's own code
    def __add__(self, o): return add(self, tm(o))
    __radd__ = __add__
    def __sub__(self, o): return add(self, neg(tm(o)))
    def __rsub__(self, o): return add(tm(o), neg(self))
    def __mul__(self, o): return mul(self, tm(o))
    __rmul__ = __mul__
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return div(self, tm(o))
    def __rtruediv__(self, o): return div(tm(o), self)


def tm(x):
    if isinstance(x, T):
        return x
    return const(x)


def _intern(num, den):
    """num: dict mono->Fr without zeros; den: dict aid->int"""
    if not num:
        den = {}
    if len(num) > MAX_TERMS:
        raise Blowup("term with %d monomials" % len(num))
    d = tuple(sorted(den.items()))
    k = (frozenset(num.items()), d)
    t = T._tab.get(k)
    if t is not None:
        return t
    t = object.__new__(T)
    t.num, t.den = num, d
    t.id = len(T._tab) + 1
    h = 0
    deps = set()
    seen = set()
    for m in num:
        for a, _ in m:
            if a not in seen:
                seen.add(a)
                at = ATOMS[a]
                if at.h > h:
                    h = at.h
                deps |= at.deps
    for a, _ in d:
        at = ATOMS[a]
        if at.h > h:
            h = at.h
        deps |= at.deps
    t.h = h
    t.deps = frozenset(deps)
    t._items = None
    T._tab[k] = t
    return t


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c:
            return NAN
        if c == float("inf"):
            return INF
        if c == float("-inf"):
            return neg(INF)
        c = Fr(repr(c)) if "e" not in repr(c) or True else Fr(c)
    c = Fr(c)
    return _intern({(): c} if c else {}, {})


def atomT(a, e=1):
    return _intern({((a.id, e),): Fr(1)}, {})


def is_const(t):
    return not t.den and (not t.num or (len(t.num) == 1 and () in t.num))


def cval(t):
    """constant value as Fraction or None"""
    if not is_const(t):
        return None
    return t.num.get((), Fr(0))


def as_atom(t):
    if t.den or len(t.num) != 1:
        return None
    (m, c), = t.num.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
        return ATOMS[m[0][0]]
    return None


def _nrm(e):
    if isinstance(e, Fr) and e.denominator == 1:
        return int(e)
    return e


def mono_mul(m1, m2):
    """returns (mono, coef, [extra T factors]) or None if zero"""
    if not m1:
        return m2, 1, ()
    if not m2:
        return m1, 1, ()
    out = []
    coef = 1
    extra = []
    inds = None
    i = j = 0
    while i < len(m1) or j < len(m2):
        if j >= len(m2) or (i < len(m1) and m1[i][0] < m2[j][0]):
            out.append(m1[i])
            i += 1
        elif i >= len(m1) or m2[j][0] < m1[i][0]:
            out.append(m2[j])
            j += 1
        else:
            a = m1[i][0]
            e = _nrm(m1[i][1] + m2[j][1])
            i += 1
            j += 1
            at = ATOMS[a]
            k = at.kind
            if k == "ind":
                out.append((a, 1))
                continue
            if e == 0:
                continue
            if k == "poly":
                w = e.__floor__() if isinstance(e, Fr) else e
                f = e - w
                if w:
                    extra.append((at, w))
                if f:
                    out.append((a, f))
                continue
            if k == "prime":
                w = e.__floor__() if isinstance(e, Fr) else e
                f = e - w
                coef = coef * Fr(at.args[0]) ** int(w)
                if f:
                    out.append((a, f))
                continue
            if k == "abs" and (e >= 2 or e <= -2) and isinstance(e, int):
                w = e - (e % 2)
                extra.append((at, w))
                if e % 2:
                    out.append((a, e % 2))
                continue
            out.append((a, e))
    # exclusive indicators: N(e)*Z(e) = 0
    inds = [ATOMS[a] for a, _ in out if ATOMS[a].kind == "ind"]
    if len(inds) > 1:
        seen = {}
        for a in inds:
            k = a.args[1] if a.args[0] in ("N", "Z") else None
            if k is None:
                continue
            if k in seen:
                return None
            seen[k] = a
    return tuple(out), coef, extra


def _extraT(at, w):
    if at.kind == "poly":
        base = at.args[0]
    else:
        base = at.args[0]
    return powi(base, w)


LET_LIMIT = int(__import__("os").environ.get("SA_LET", "1500"))
LETS = [0]


def let_poly(p):
    """abstraction barrier: a large polynomial becomes a named node of the value graph"""
    LETS[0] += 1
    c, mono, prim = primitive(p)
    x = _intern(prim, {})
    s = sign(x)
    a = fn_atom("let", (x,), pos=(s == "pos"), nonneg=(s in ("pos", "nonneg")), isint=is_int(x))
    return {mono_mul(mono, ((a.id, 1),))[0]: c} if mono else {((a.id, 1),): c}


def letT(x):
    """named node for x (evaluates to x)"""
    if is_const(x) or as_atom(x) is not None:
        return x
    s = sign(x)
    return fn("let", x, pos=(s == "pos"), nonneg=(s in ("pos", "nonneg")), isint=is_int(x))


def pmul(p, q):
    """product of two polys -> T-free dict plus list of side terms"""
    out = {}
    side = []
    if len(p) * len(q) > LET_LIMIT and len(p) > 1 and len(q) > 1:
        if len(p) >= len(q):
            p = let_poly(p)
        else:
            q = let_poly(q)
        if len(p) * len(q) > LET_LIMIT and len(p) > 1 and len(q) > 1:
            p, q = let_poly(p), let_poly(q)
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            r = mono_mul(m1, m2)
            if r is None:
                continue
            m, c, ex = r
            c = c1 * c2 * c
            if ex:
                side.append((m, c, ex))
                continue
            v = out.get(m)
            if v is None:
                out[m] = c
            else:
                v = v + c
                if v:
                    out[m] = v
                else:
                    del out[m]
        if len(out) > MAX_TERMS:
            raise Blowup("product with %d monomials" % len(out))
    return out, side


def padd(p, q, k=1):
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + k * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def pdivexact(p, d):
    """exact division of Laurent-Puiseux polynomials; None if not divisible"""
    if not p:
        return {}
    if len(p) < 2:
        return None
    lmd = max(d, key=_mkey)
    lcd = d[lmd]
    # shift so that exponents are non-negative
    p = dict(p)
    shift = _mcontent(p)
    if shift:
        p = {_mdiv(m, shift): c for m, c in p.items()}
    q = {}
    steps = 0
    while p:
        steps += 1
        if steps > 400:
            return None
        lm = max(p, key=_mkey)
        qm = _mdiv(lm, lmd)
        for a, e in qm:
            if e < 0:
                return None
        qc = p[lm] / lcd
        q[qm] = q.get(qm, 0) + qc
        for m, c in d.items():
            r = mono_mul(m, qm)
            if r is None or r[2] or r[1] != 1:
                return None
            v = p.get(r[0], 0) - qc * c
            if v:
                p[r[0]] = v
            else:
                p.pop(r[0], None)
    if shift:
        q2 = {}
        for m, c in q.items():
            r = mono_mul(m, shift)
            if r is None or r[2] or r[1] != 1:
                return None
            q2[r[0]] = c
        q = q2
    return q


def _mdiv(m, d):
    if not d:
        return m
    x = dict(m)
    for a, e in d:
        v = _nrm(x.get(a, 0) - e)
        if v:
            x[a] = v
        else:
            x.pop(a, None)
    return tuple(sorted(x.items()))


def _mcontent(p):
    """monomial content: min exponent of every non-indicator, non-poly atom"""
    it = iter(p)
    cont = {a: e for a, e in next(it) if ATOMS[a].kind not in ("ind", "poly")}
    for m in it:
        x = dict(m)
        for a in list(cont):
            e = min(cont[a], x.get(a, 0))
            if e:
                cont[a] = e
            else:
                del cont[a]
        for a, e in m:
            if e < 0 and a not in cont and ATOMS[a].kind not in ("ind", "poly"):
                cont[a] = e
        if not cont:
            # still need negative exponents of later monomials
            continue
    # atoms with negative exponent that were absent from the first monomials
    for m in p:
        for a, e in m:
            if e < 0 and ATOMS[a].kind not in ("ind", "poly"):
                if cont.get(a, 0) > e:
                    cont[a] = e
    # min over monomials lacking the atom is 0
    for a in list(cont):
        mn = min(dict(m).get(a, 0) for m in p)
        if mn:
            cont[a] = mn
        else:
            del cont[a]
    return tuple(sorted(cont.items()))


def primitive(p):
    """p = c * mono * q with q primitive, leading coefficient 1"""
    m = _mcontent(p) if p else ()
    if m:
        p = {_mdiv(k, m): c for k, c in p.items()}
    lm = max(p, key=_mkey)
    lc = p[lm]
    if lc != 1:
        p = {k: c / lc for k, c in p.items()}
    return lc, m, p


def poly_atom(q):
    base = _intern(q, {})
    return _mk("poly", (base,), h=base.h, deps=base.deps, pos=(sign(base) == "pos"),
               nonneg=sign(base) in ("pos", "nonneg"))


def _make(num, den):
    """normalise a fraction: cancel common poly factors, then indicator rules"""
    if den:
        for a in list(den):
            base = ATOMS[a].args[0].num
            while a in den:
                q = pdivexact(num, base)
                if q is None:
                    break
                num = q
                if den[a] == 1:
                    del den[a]
                else:
                    den[a] -= 1
    t = _intern(num, den)
    return canon_ind(t)


_addmemo = {}


def add(x, y):
    if not x.num:
        return y
    if not y.num:
        return x
    k = (x.id, y.id) if x.id < y.id else (y.id, x.id)
    r = _addmemo.get(k)
    if r is None:
        r = _addmemo[k] = _add(x, y)
    return r


def _expand_den(num, fac):
    """num * prod(P^e) as T numerator"""
    t = _intern(num, {})
    for a, e in fac:
        for _ in range(e):
            t = mul(t, ATOMS[a].args[0])
    return t


def _add(x, y):
    if x.den == y.den:
        num = padd(x.num, y.num)
        if not x.den:
            t = _intern(num, {})
            return canon_ind(t)
        return _make(num, dict(x.den))
    dx, dy = dict(x.den), dict(y.den)
    l = dict(dx)
    for a, e in dy.items():
        l[a] = max(l.get(a, 0), e)
    fx = [(a, e - dx.get(a, 0)) for a, e in l.items() if e > dx.get(a, 0)]
    fy = [(a, e - dy.get(a, 0)) for a, e in l.items() if e > dy.get(a, 0)]
    nx, ny = _expand_den(x.num, fx), _expand_den(y.num, fy)
    s = add(nx, ny) if (nx.den or ny.den) else None
    if s is not None:
        dd = dict(s.den)
        for a, e in l.items():
            dd[a] = dd.get(a, 0) + e
        return _make(dict(s.num), dd)
    return _make(padd(nx.num, ny.num), l)


def neg(x):
    return _intern({m: -c for m, c in x.num.items()}, dict(x.den)) if x.num else x


def sub(x, y):
    return add(x, neg(y))


_mulmemo = {}


def mul(x, y):
    if not x.num or not y.num:
        return ZERO
    if x is ONE:
        return y
    if y is ONE:
        return x
    k = (x.id, y.id) if x.id < y.id else (y.id, x.id)
    r = _mulmemo.get(k)
    if r is None:
        r = _mulmemo[k] = _mul(x, y)
    return r


def _mul(x, y):
    num, side = pmul(x.num, y.num)
    den = dict(x.den)
    for a, e in y.den:
        den[a] = den.get(a, 0) + e
    if not side:
        if not den:
            return canon_ind(_intern(num, {}))
        return _make(num, den)
    t = _make(num, dict(den)) if num else ZERO
    d = _intern({(): Fr(1)}, {})
    for m, c, ex in side:
        s = _make({m: Fr(c)}, dict(den))
        for at, w in ex:
            s = mul(s, _extraT(at, w))
        t = add(t, s)
    return t


def powi(x, n):
    if n == 0:
        return ONE
    if n < 0:
        return powi(inv(x), -n)
    r = ONE
    b = x
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


# --------------------------------------------------------------------- indicators

def inds_of(t):
    s = set()
    for m in t.num:
        for a, _ in m:
            if ATOMS[a].kind == "ind":
                s.add(a)
    for a, _ in t.den:
        for m in ATOMS[a].args[0].num:
            for b, _ in m:
                if ATOMS[b].kind == "ind":
                    s.add(b)
    return s


def set_ind(t, aid, val):
    """substitute a top-level indicator by 0/1 (exclusive partner becomes 0 if val=1)"""
    at = ATOMS[aid]
    zero = set()
    one = set()
    (one if val else zero).add(aid)
    if val and at.args[0] in ("N", "Z"):
        p = _atom_tab.get(("ind", ({"N": "Z", "Z": "N"}[at.args[0]], at.args[1])))
        if p is not None:
            zero.add(p.id)
    out = ZERO
    num = {}
    ch = False
    for m, c in t.num.items():
        if any(a in zero for a, _ in m):
            ch = True
            continue
        if any(a in one for a, _ in m):
            ch = True
            m = tuple(x for x in m if x[0] not in one)
        num[m] = num.get(m, 0) + c
    num = {m: c for m, c in num.items() if c}
    t2 = _intern(num, {})
    if t.den:
        for a, e in t.den:
            b = ATOMS[a].args[0]
            if inds_of(b) & (one | zero):
                b2 = set_ind(b, aid, val)
                t2 = mul(t2, powi(b2, -e))
            else:
                t2 = _mul_den(t2, a, e)
    return t2 if ch or t.den else t


def _mul_den(t, a, e):
    d = dict(t.den)
    d[a] = d.get(a, 0) + e
    return _make(dict(t.num), d)


def shannon(f, t, rest=()):
    """apply f to t pushing indicators of t outside"""
    s = inds_of(t)
    if not s or len(s) > 8:
        return None
    a = min(s)
    i = atomT(ATOMS[a])
    t1, t0 = set_ind(t, a, 1), set_ind(t, a, 0)
    return add(mul(i, f(t1)), mul(sub(ONE, i), f(t0)))


_canon_busy = [0]


def canon_ind(t):
    """reduce coefficients of N(e)/Z(e) indicators"""
    s = inds_of_num(t)
    if not s or _canon_busy[0] > 6:
        return t
    for aid in s:
        at = ATOMS[aid]
        k = at.args[0]
        if k not in ("N", "Z"):
            continue
        e = at.args[1]
        if k == "N":
            if e.den:
                continue
            lm = max(e.num, key=_mkey)
            ab = _atom_tab.get(("abs", (e,)))
            if ab is not None and any(any(a == aid for a, _ in m) and any(a == ab.id for a, _ in m) for m in t.num):
                # [e<0]*|e| = (|e|-e)/2
                res = ZERO
                keep = {}
                rep = mul(const(Fr(1, 2)), sub(atomT(ab), e))
                for m, c in t.num.items():
                    d_ = dict(m)
                    if aid in d_ and ab.id in d_:
                        m2 = tuple(x for x in m if x[0] not in (aid, ab.id))
                        f_ = mul(_intern({m2: c}, {}), rep)
                        if d_[ab.id] != 1:
                            f_ = mul(f_, _mono_pow(ab.id, d_[ab.id] - 1))
                        res = add(res, f_)
                    else:
                        keep[m] = c
                res = add(res, _intern(keep, {}))
                for a, x in t.den:
                    res = _mul_den(res, a, x)
                return res
            # is some coefficient monomial divisible by the leading monomial of e?
            grp = {}
            rest = {}
            hit = False
            for m, c in t.num.items():
                if any(a == aid for a, _ in m):
                    m2 = tuple(x for x in m if x[0] != aid)
                    grp[m2] = c
                    if _mdivides(lm, m2):
                        hit = True
                else:
                    rest[m] = c
            if not hit:
                continue
            qr = _pdivrem(grp, e.num, lm)
            if qr is None:
                continue
            q, r = qr
            if not q:
                continue
            _canon_busy[0] += 1
            try:
                q = _intern(q, {})
                half = const(Fr(1, 2))
                res = add(_intern(rest, {}), mul(mul(q, half), sub(e, absT(e))))
                if r:
                    res = add(res, mul(_intern(r, {}), atomT(at)))
                for a, x in t.den:
                    res = _mul_den(res, a, x)
            finally:
                _canon_busy[0] -= 1
            return res
        else:
            sol = solve_index(e)
            grp = {}
            rest = {}
            for m, c in t.num.items():
                if any(a == aid for a, _ in m):
                    grp[tuple(x for x in m if x[0] != aid)] = c
                else:
                    rest[m] = c
            g = _intern(grp, {})
            if sol is not None:
                va, vt = sol
                dd = [x for x in t.den if va.id in ATOMS[x[0]].deps]
                if va.id in g.deps or dd:
                    _canon_busy[0] += 1
                    try:
                        gg = g
                        for a, x in t.den:
                            gg = _mul_den(gg, a, x)
                        g2 = mul(subst(gg, {va.id: vt}), atomT(at))
                        r2 = _intern(rest, {})
                        for a, x in t.den:
                            r2 = _mul_den(r2, a, x)
                        return add(r2, g2)
                    finally:
                        _canon_busy[0] -= 1
            elif not e.den:
                lm = max(e.num, key=_mkey)
                if any(_mdivides(lm, m) for m in grp):
                    qr = _pdivrem(grp, e.num, lm)
                    if qr and qr[0]:
                        res = _intern(rest, {})
                        if qr[1]:
                            res = add(res, mul(_intern(qr[1], {}), atomT(at)))
                        for a, x in t.den:
                            res = _mul_den(res, a, x)
                        return res
    return t


def inds_of_num(t):
    s = None
    for m in t.num:
        for a, _ in m:
            if ATOMS[a].kind == "ind":
                if s is None:
                    s = set()
                s.add(a)
    return sorted(s) if s else ()


def _mdivides(d, m):
    x = dict(m)
    for a, e in d:
        if x.get(a, 0) < e or x.get(a, 0) * e <= 0:
            return False
    return True


def _pdivrem(p, d, lm):
    lc = d[lm]
    p = dict(p)
    q = {}
    r = {}
    steps = 0
    while p:
        steps += 1
        if steps > 500:
            return None
        m = max(p, key=_mkey)
        c = p[m]
        if _mdivides(lm, m):
            qm = _mdiv(m, lm)
            qc = c / lc
            q[qm] = q.get(qm, 0) + qc
            for dm, dc in d.items():
                x = mono_mul(dm, qm)
                if x is None:
                    continue
                if x[2] or x[1] != 1:
                    return None
                v = p.get(x[0], 0) - qc * dc
                if v:
                    p[x[0]] = v
                else:
                    p.pop(x[0], None)
            if m in p:
                return None
        else:
            r[m] = c
            del p[m]
    return {k: v for k, v in q.items() if v}, r


def solve_index(e):
    """e == 0 linear with +-1 coefficient in an index atom -> (atom, T)"""
    if e.den:
        return None
    best = None
    for m, c in e.num.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = ATOMS[m[0][0]]
            if a.kind in ("bv", "bnd") and a.isint:
                # must not occur elsewhere in e
                if sum(1 for m2 in e.num for b, _ in m2 if a.id in ATOMS[b].deps or b == a.id) == 1:
                    if best is None or a.id > best[0].id:
                        best = (a, m, c)
    if best is None:
        return None
    a, m, c = best
    rest = dict(e.num)
    del rest[m]
    t = _intern(rest, {})
    return a, (neg(t) if c == 1 else t)


def bound(t, hi):
    """constant upper (hi) / lower bound of an integer linear term or None"""
    for _ in range(12):
        if t.den:
            return None
        c = cval(t)
        if c is not None:
            return c
        done = True
        tot = Fr(0)
        repl = None
        for m, co in t.num.items():
            if m == ():
                tot += co
                continue
            up = (co > 0) == hi
            if len(m) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0]]
                if up:
                    if a.ext is not None:
                        repl = (a, sub(a.ext, ONE))
                        done = False
                        break
                    return None
                if a.ext is not None and False:
                    pass
                if a.lo is not None:
                    if a.kind == "bv":
                        # substitute only if it does not lose correlation with extents
                        pass
                    tot += co * a.lo
                    continue
                if a.nonneg:
                    continue
                return None
            # products: sign known
            s = "pos" if all(ATOMS[a].nonneg for a, _ in m) else None
            if s and not up:
                continue
            return None
        if done:
            return tot
        # resolve bound variable with extent first; others keep
        v, e = repl
        lin = ((v.id, 1),)
        # only the linear occurrence is moved to its extreme; any other occurrence is bounded on its own
        t = add(_intern({m: co for m, co in t.num.items() if m != lin}, {}), mul(const(t.num[lin]), e))
    return None


def sign(t):
    """'pos','nonneg','neg','nonpos','zero' or None"""
    if not t.num:
        return "zero"
    c = cval(t)
    if c is not None:
        return "pos" if c > 0 else "neg"
    strict = False
    sg = None
    for m, co in t.num.items():
        s = 1 if co > 0 else -1
        pos = True
        nn = True
        for a, e in m:
            at = ATOMS[a]
            if at.pos or (at.lo is not None and at.lo > 0):
                continue
            pos = False
            if at.nonneg:
                continue
            if isinstance(e, int) and e % 2 == 0:
                continue
            nn = False
        if not nn:
            sg = None
            break
        if sg is None:
            sg = s
        elif sg != s:
            sg = None
            break
        strict = strict or pos
    else:
        for a, e in t.den:
            if not ATOMS[a].pos:
                if e % 2:
                    return None
        if strict:
            return "pos" if sg > 0 else "neg"
        return "nonneg" if sg > 0 else "nonpos"
    if t.den:
        if all(ATOMS[a].pos or e % 2 == 0 for a, e in t.den):
            return sign(_intern(dict(t.num), {}))
        return None
    # c*(|e| +- e)
    for m, co in t.num.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "abs":
            e = ATOMS[m[0][0]].args[0]
            rest = _intern({k: c for k, c in t.num.items() if k != m}, {})
            ce = mul(const(co), e)
            if rest is ce or rest is neg(ce):
                return "nonneg" if co > 0 else "nonpos"
    # infinity
    for m, co in t.num.items():
        if m == ((INF_ATOM.id, 1),):
            return "pos" if co > 0 else "neg"
    r = _sign_relu(t)
    if r is not None:
        return r
    b = bound(t, True)
    if b is not None:
        if b < 0:
            return "neg"
        if b == 0:
            return "nonpos"
    b = bound(t, False)
    if b is not None:
        if b > 0:
            return "pos"
        if b == 0:
            return "nonneg"
    return None


def ispos(t):
    return sign(t) == "pos"


def is_int(t):
    if t.den:
        return False
    for m, c in t.num.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not ATOMS[a].isint or not isinstance(e, int) or e < 0:
                return False
    return True


def ind_atom(k, e):
    if k == "B":
        return _mk("ind", (k, e), h=val_h(e), deps=val_deps(e), nonneg=True, isint=True)
    return _mk("ind", (k, e), h=e.h, deps=e.deps, nonneg=True, isint=True)


def _scale(e):
    """e up to a positive factor: (sign, normalised e)"""
    num, den = dict(e.num), dict(e.den)
    for a in list(den):
        if ATOMS[a].pos or den[a] % 2 == 0:
            del den[a]
    m = _mcontent(num)
    strip = tuple((a, x) for a, x in m if ATOMS[a].pos)
    if strip:
        num = {_mdiv(k, strip): c for k, c in num.items()}
    lm = max(num, key=_mkey)
    lc = abs(num[lm])
    sg = 1 if num[lm] > 0 else -1
    num = {k: c / (lc * sg) for k, c in num.items()}
    return sg, _intern(num, den)


def _has(t, atom):
    return any(a == atom.id for m in t.num for a, _ in m)


NONFINITE = set()     # symbols that may be infinite or undefined
_finmemo = {}


def _finite(v):
    """no infinity or undefined value occurs anywhere in v"""
    if isinstance(v, tuple):
        return all(_finite(x) for x in v)
    if isinstance(v, Lam):
        return _finite(v.body)
    if not isinstance(v, T):
        return True
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Lam):
            stack.append(x.body)
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.id in _finmemo:
                if not _finmemo[x.id]:
                    return False
                continue
            for m in list(x.num) + [x.den]:
                for a, _ in m:
                    at = ATOMS[a]
                    if at is INF_ATOM or at is NAN_ATOM:
                        _finmemo[v.id] = False
                        return False
                    if at.kind == "sym" and at.args[0] in NONFINITE or at.kind == "fn" and at.args[0] == "recip0":
                        _finmemo[v.id] = False
                        return False
                    stack.extend(at.args)
        elif hasattr(x, "__slots__") and not isinstance(x, (str, bytes)):
            for k in x.__slots__:
                y = getattr(x, k, None)
                if isinstance(y, (T, tuple, Lam, list)):
                    stack.append(tuple(y) if isinstance(y, list) else y)
        if len(seen) > 4000:
            return False
    _finmemo[v.id] = True
    return True


def _infpart(e):
    """sign of c in e = c*INF + finite rest, else 0"""
    c = e.num.get(((INF_ATOM.id, 1),))
    if c is None or e.den:
        return 0
    rest = {m: k for m, k in e.num.items() if m != ((INF_ATOM.id, 1),)}
    if rest and not _finite(_intern(rest, {})):
        return 0
    return 1 if c > 0 else -1


def lt0(e):
    """indicator of e < 0"""
    if _has(e, NAN_ATOM):
        return ZERO
    s = _infpart(e)
    if s:
        return ONE if s < 0 else ZERO
    r = shannon(lt0, e)
    if r is not None:
        return r
    s = sign(e)
    if s == "neg":
        return ONE
    if s in ("pos", "nonneg", "zero"):
        return ZERO
    if is_int(e):
        lm = max(e.num, key=_mkey)
        if e.num[lm] > 0:
            return atomT(ind_atom("N", e))
        # e<0  <=>  -e>0 <=> not(-e<=0) <=> not(-e-1<0)
        f = sub(neg(e), ONE)
        if f is not e and is_int(f):
            return sub(ONE, atomT(ind_atom("N", f)))
    sg, n = _scale(e)
    N = atomT(ind_atom("N", n))
    if sg > 0:
        return N
    return sub(sub(ONE, N), eq0(n))


def le0(e):
    return sub(ONE, lt0(neg(e)))


def eq0(e):
    if not e.num:
        return ONE
    if _has(e, NAN_ATOM):
        return ZERO
    if _infpart(e):
        return ZERO
    r = shannon(eq0, e)
    if r is not None:
        return r
    s = sign(e)
    if s in ("pos", "neg"):
        return ZERO
    if is_int(e):
        lm = max(e.num, key=_mkey)
        if e.num[lm] < 0:
            e = neg(e)
        return atomT(ind_atom("Z", e))
    sg, n = _scale(e)
    return atomT(ind_atom("Z", n))


def boolT(v):
    """indicator of an opaque boolean value"""
    return atomT(ind_atom("B", v))


def notT(c):
    return sub(ONE, c)


def ite(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    if len(b.num) > LET_LIMIT:
        b = letT(b)
    if len(a.num) > LET_LIMIT:
        a = letT(a)
    if len(c.num) > LET_LIMIT:
        c = letT(c)
    return add(b, mul(c, sub(a, b)))


def absT(e):
    if not e.num:
        return ZERO
    r = shannon(absT, e)
    if r is not None:
        return r
    s = sign(e)
    if s in ("pos", "nonneg"):
        return e
    if s in ("neg", "nonpos"):
        return neg(e)
    c, m, q = primitive(e.num)
    out = const(abs(c))
    for a, x in m:
        at = ATOMS[a]
        if at.nonneg or (isinstance(x, int) and x % 2 == 0):
            out = mul(out, _intern({((a, x),): Fr(1)}, {}))
        elif len(q) == 1 and not e.den and len(m) == 1 and x == 1:
            aa = _mk("abs", (atomT(at),), h=at.h, deps=at.deps, nonneg=True)
            out = mul(out, atomT(aa))
        else:
            aa = absT(atomT(at))
            out = mul(out, powfrac(aa, x))
    if len(q) > 1:
        b = _intern(q, {})
        if sign(b) in ("pos", "nonneg"):
            out = mul(out, b)
        else:
            out = mul(out, atomT(_mk("abs", (b,), h=b.h, deps=b.deps, nonneg=True)))
    for a, x in e.den:
        if ATOMS[a].pos or x % 2 == 0:
            out = _mul_den(out, a, x)
        else:
            out = div(out, powi(absT(ATOMS[a].args[0]), x))
    return out


def maxT(a, b):
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if _is_inf(x) > 0:
            return x
        if _is_inf(x) < 0:
            return y
    d = sub(a, b)
    s = sign(d)
    if s in ("pos", "nonneg", "zero"):
        return a
    if s in ("neg", "nonpos"):
        return b
    if is_int(a) and is_int(b):
        return add(b, relu(d))
    return mul(const(Fr(1, 2)), add(add(a, b), absT(d)))


def minT(a, b):
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if _is_inf(x) > 0:
            return y
        if _is_inf(x) < 0:
            return x
    d = sub(a, b)
    s = sign(d)
    if s in ("pos", "nonneg", "zero"):
        return b
    if s in ("neg", "nonpos"):
        return a
    if is_int(a) and is_int(b):
        return sub(a, relu(d))
    return mul(const(Fr(1, 2)), sub(add(a, b), absT(d)))


def relu(e):
    """max(e, 0) of an integer term"""
    r = shannon(relu, e)
    if r is not None:
        return r
    s = sign(e)
    if s in ("pos", "nonneg", "zero"):
        return e
    if s in ("neg", "nonpos"):
        return ZERO
    if not is_int(e):
        return mul(const(Fr(1, 2)), add(e, absT(e)))
    lm = max(e.num, key=_mkey)
    if e.num[lm] < 0:
        return add(e, relu(neg(e)))
    return atomT(fn_atom("relu", (e,), isint=True, nonneg=True))


_sgdepth = [0]


def _sign_relu(t):
    """sign by cases on one relu atom: relu(e)=e or relu(e)=0"""
    if t.den or _sgdepth[0] > 1:
        return None
    at = None
    for m in t.num:
        for a, e in m:
            if ATOMS[a].kind == "fn" and ATOMS[a].args[0] == "relu":
                at = ATOMS[a]
                break
        if at is not None:
            break
    if at is None:
        return None
    _sgdepth[0] += 1
    try:
        # two bounds valid in either case: relu>=e and relu>=0, equal to one of them
        e = at.args[1]
        t1, t2 = _replace_atom(t, at, e), _replace_atom(t, at, ZERO)
        s1 = _sign_hyp(t1, e)
        if s1 is None:
            return None
        s2 = _sign_hyp(t2, neg(e))
    finally:
        _sgdepth[0] -= 1
    up, dn = ("pos", "nonneg", "zero"), ("neg", "nonpos", "zero")
    if s1 == s2:
        return s1
    if s1 in up and s2 in up:
        return "nonneg"
    if s1 in dn and s2 in dn:
        return "nonpos"
    return None


def _sign_hyp(t, h):
    """sign of t given h >= 0"""
    s = sign(t)
    if s is not None:
        return s
    s = sign(sub(t, h))
    if s in ("pos", "nonneg", "zero"):
        return "pos" if s == "pos" else "nonneg"
    s = sign(add(t, h))
    if s in ("neg", "nonpos", "zero"):
        return "neg" if s == "neg" else "nonpos"
    return None


def _replace_atom(t, at, v):
    out = ZERO
    for m, c in t.num.items():
        d = dict(m)
        if at.id in d:
            e = d.pop(at.id)
            out = add(out, mul(_intern({tuple(sorted(d.items())): c}, {}), powi(v, e)))
        else:
            out = add(out, _intern({m: c}, {}))
    return out


def _is_inf(t):
    if len(t.num) == 1 and not t.den:
        (m, c), = t.num.items()
        if m == ((INF_ATOM.id, 1),):
            return 1 if c > 0 else -1
    return 0


# --------------------------------------------------------------------- inverse, powers, log, exp
_invmemo = {}


def inv(x):
    r = _invmemo.get(x.id)
    if r is None:
        r = _invmemo[x.id] = _inv(x)
    return r


def _inv(x):
    if not x.num:
        return fn("recip0")
    if _is_inf(x):
        return ZERO
    r = shannon(inv, x)
    if r is not None:
        return r
    c, m, q = primitive(x.num)
    out = ONE
    for a, e in x.den:
        out = mul(out, powi(ATOMS[a].args[0], e))
    out = mul(out, const(1 / c))
    for a, e in m:
        out = mul(out, _mono_pow(a, -e))
    if len(q) > 1:
        pa = poly_atom(q)
        out = _mul_den(out, pa.id, 1)
    else:
        (qm, qc), = q.items()
        for a, e in qm:           # fractional poly atoms
            out = mul(out, _mono_pow(a, -e))
    return out


def _mono_pow(a, e):
    """atom^e for any rational e"""
    at = ATOMS[a]
    e = _nrm(Fr(e))
    if e == 0:
        return ONE
    if at.kind == "ind":
        return atomT(at)
    if at.kind == "poly":
        w = Fr(e).__floor__()
        f = e - w
        base = at.args[0]
        out = ONE
        if f:
            out = _intern({((a, _nrm(f)),): Fr(1)}, {})
        if w > 0:
            out = mul(out, powi(base, w))
        elif w < 0:
            if len(base.num) > 1:
                out = _mul_den(out, a, -w)
            else:
                out = mul(out, powi(base, w))
        return out
    if at.kind == "prime":
        w = Fr(e).__floor__()
        f = _nrm(e - w)
        out = const(Fr(at.args[0]) ** int(w))
        if f:
            out = mul(out, _intern({((a, f),): Fr(1)}, {}))
        return out
    if at.kind == "abs" and isinstance(e, int) and e % 2 == 0:
        return powi(at.args[0], e)
    return _intern({((a, e),): Fr(1)}, {})


def div(x, y):
    c = cval(y)
    if c is not None and c != 0:
        return mul(x, const(1 / c))
    return mul(x, inv(y))


def _factor(n):
    out = {}
    n = int(n)
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _rat_factor(c):
    out = _factor(c.numerator)
    for p, e in _factor(c.denominator).items():
        out[p] = out.get(p, 0) - e
    return {p: e for p, e in out.items() if e}


def prime_pow(p, e):
    a = _mk("prime", (p,), pos=True)
    return _mono_pow(a.id, e)


def powfrac(x, f):
    """x**f for rational f"""
    f = Fr(f)
    if f.denominator == 1:
        return powi(x, int(f))
    if not x.num:
        return ZERO
    r = shannon(lambda t: powfrac(t, f), x)
    if r is not None:
        return r
    c, m, q = primitive(x.num)
    out = ONE
    grp = ONE          # factors of unknown sign, kept together
    ngrp = 0
    sgn = 1 if c > 0 else -1
    for p, e in _rat_factor(abs(c)).items():
        out = mul(out, prime_pow(p, e * f))
    unk = []
    for a, e in m:
        at = ATOMS[a]
        if at.nonneg:
            out = mul(out, _mono_pow(a, e * f))
        elif isinstance(e, int) and e % 2 == 0:
            out = mul(out, powfrac(absT(atomT(at)), e * f))
        else:
            unk.append((a, e))
    polys = []
    if len(q) > 1:
        b = _intern(q, {})
        if ispos(b) or sign(b) == "nonneg":
            out = mul(out, _mono_pow(poly_atom(q).id, f))
        else:
            polys.append((b, 1))
    else:
        (qm, qc), = q.items()
        for a, e in qm:
            out = mul(out, _mono_pow(a, e * f))
    for a, e in x.den:
        if ATOMS[a].pos or e % 2 == 0:
            base = ATOMS[a].args[0]
            if not ATOMS[a].pos:
                base = absT(base)
                out = mul(out, powfrac(base, -e * f))
            else:
                out = mul(out, _mono_pow(a, -e * f))
        else:
            polys.append((ATOMS[a].args[0], -e))
    if len(unk) + len(polys) <= 1 and sgn > 0:
        for a, e in unk:
            out = mul(out, _mono_pow(a, e * f))
        for b, e in polys:
            pa = poly_atom(b.num)
            out = mul(out, _mono_pow(pa.id, e * f))
        return out
    g = const(sgn)
    for a, e in unk:
        g = mul(g, _mono_pow(a, e))
    for b, e in polys:
        g = mul(g, powi(b, e))
    if g is ONE:
        return out
    if g.den:
        ga = fn_atom("powbase", (g,))
        out = mul(out, _mono_pow(ga.id, f))
    else:
        pa = _mk("poly", (g,), h=g.h, deps=g.deps, nonneg=False)
        out = mul(out, _mono_pow(pa.id, f))
    return out


def sqrtT(x):
    return powfrac(x, Fr(1, 2))


def powT(x, y):
    c = cval(y)
    if c is not None:
        return powfrac(x, c)
    r = shannon(lambda t: powT(x, t), y)
    if r is not None:
        return r
    return expT(mul(y, logT(x)))


def logT(x):
    if not x.num:
        return neg(INF)
    if _is_inf(x) > 0:
        return x
    r = shannon(logT, x)
    if r is not None:
        return r
    c, m, q = primitive(x.num)
    sgn = 1 if c > 0 else -1
    out = ZERO
    for p, e in _rat_factor(abs(c)).items():
        out = add(out, mul(const(e), atomT(_mk("log", (const(p),), pos=True))))
    unk = []
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "exp":
            out = add(out, mul(const(e), at.args[0]))
        elif at.kind == "prime":
            out = add(out, mul(const(e), atomT(_mk("log", (const(at.args[0]),), pos=True))))
        elif at.nonneg:
            out = add(out, mul(const(e), _logatom(atomT(at))))
        elif isinstance(e, int) and e % 2 == 0:
            out = add(out, mul(const(e), logT(absT(atomT(at)))))
        else:
            unk.append((atomT(at), e))
    if len(q) > 1:
        b = _intern(q, {})
        if sign(b) in ("pos", "nonneg"):
            out = add(out, _logatom(b))
        else:
            unk.append((b, 1))
    else:
        (qm, qc), = q.items()
        for a, e in qm:
            b = ATOMS[a].args[0]
            if sign(b) in ("pos", "nonneg"):
                out = add(out, mul(const(e), logT(b)))
            else:
                unk.append((b, e))
    for a, e in x.den:
        b = ATOMS[a].args[0]
        if ATOMS[a].pos:
            out = sub(out, mul(const(e), _logatom(b)))
        else:
            unk.append((b, -e))
    if len(unk) == 1 and sgn > 0:
        b, e = unk[0]
        return add(out, mul(const(e), _logatom(b)))
    if not unk and sgn > 0:
        return out
    g = const(sgn)
    for b, e in unk:
        g = mul(g, powfrac(b, e) if Fr(e).denominator != 1 else powi(b, e))
    return add(out, _logatom(g))


def _logatom(t):
    a = as_atom(t)
    if a is not None and a.kind == "exp":
        return a.args[0]
    return atomT(_mk("log", (t,), h=t.h, deps=t.deps))


def expT(x):
    if not x.num:
        return ONE
    i = _is_inf(x)
    if i:
        return x if i > 0 else ZERO
    r = shannon(expT, x)
    if r is not None:
        return r
    out = ONE
    for m, c in x.num.items():
        if len(m) == 1 and m[0][1] == 1 and not x.den and ATOMS[m[0][0]].kind == "log":
            out = mul(out, powfrac(ATOMS[m[0][0]].args[0], c))
            continue
        base = _make({m: Fr(1)}, dict(x.den))
        # after cancellation the base may have changed: use canonical as is
        a = _mk("exp", (base,), h=base.h, deps=base.deps, pos=True)
        out = mul(out, _intern({((a.id, _nrm(c)),): Fr(1)}, {}))
    return out


def cdfT(x):
    if not x.num:
        return const(Fr(1, 2))
    r = shannon(cdfT, x)
    if r is not None:
        return r
    lm = max(x.num, key=_mkey)
    if x.num[lm] < 0:
        return sub(ONE, cdfT(neg(x)))
    return fn("cdf", x, nonneg=True)


# --------------------------------------------------------------------- sums

def close(body, a):
    """abstract bound-variable atom a out of a value; returns (level, body)"""
    h = val_h(body) + 1
    return h, subst_val(body, {a.id: atomT(bnd(h, a.isint))})


def lam(body, a, n=None):
    h, b = close(body, a)
    return Lam(h, b, n)


def open_lam(l, ext=None):
    a = fresh_bv(ext if ext is not None else l.n)
    return a, subst_val(l.body, {bnd(l.h).id: atomT(a)})


def sumT(n, a, body):
    """sum over bound atom a in 0..n-1 of body"""
    if not body.num:
        return ZERO
    c = cval(n)
    if c is not None and c <= 6:
        out = ZERO
        for k in range(int(c)):
            out = add(out, subst(body, {a.id: const(k)}))
        return out
    if a.id not in body.deps:
        return mul(n, body)
    out = ZERO
    dd = {}
    di = []
    for x, e in body.den:
        if a.id in ATOMS[x].deps:
            dd[x] = e
        else:
            di.append((x, e))
    for m, co in body.num.items():
        dep = tuple(x for x in m if a.id in ATOMS[x[0]].deps or x[0] == a.id)
        ind = tuple(x for x in m if not (a.id in ATOMS[x[0]].deps or x[0] == a.id))
        # delta functions: sum_k [k == e] g(k)
        g = _make({dep: Fr(1)}, dict(dd))
        s = _delta(n, a, g)
        if s is None:
            if a.id not in g.deps:
                s = mul(n, g)
            elif not (len(dep) == 1 and not dd) and len(g.num) > 1:
                s = sumT(n, a, g)
            else:
                s = _sum_atom(n, a, g)
        out = add(out, mul(_intern({ind: co}, {}), s))
    for x, e in di:
        out = _mul_den(out, x, e)
    return out


def _delta(n, a, g):
    if len(g.num) != 1:
        return None
    (m, c), = g.num.items()
    for x, e in m:
        at = ATOMS[x]
        if at.kind == "ind" and at.args[0] == "Z" and not at.args[1].den:
            ee = at.args[1]
            cc = ee.num.get(((a.id, 1),))
            if cc is not None and abs(cc) == 1:
                rest = dict(ee.num)
                del rest[((a.id, 1),)]
                v = _intern(rest, {})
                v = neg(v) if cc == 1 else v
                if a.id in v.deps:
                    continue
                rem = tuple(y for y in m if y[0] != x)
                body = _make({rem: c}, dict(g.den))
                r = subst(body, {a.id: v})
                inr = mul(notT(lt0(v)), lt0(sub(v, n)))
                return mul(inr, r)
    return None


def _sum_atom(n, a, g):
    # closed form of sum of the index itself is left symbolic; powers likewise
    # orientation: prefer the smaller of the body and its reversal when the index
    # occurs only negatively
    if _only_negative(g, a):
        g = subst(g, {a.id: sub(sub(n, ONE), atomT(a))})
    h, b = close(g, a)
    at = _mk("sum", (n, Lam(h, b, n)), h=max(h, n.h), deps=(b.deps | n.deps) - frozenset([bnd(h).id]),
             pos=False, nonneg=sign(g) in ("pos", "nonneg"))
    if sign(g) == "pos" and sign(n) == "pos":
        at.pos = True
    return atomT(at)


def _only_negative(t, a, depth=0):
    """index a occurs in argument positions only with coefficient < 0"""
    found = []
    seen = set()

    def walk(x, top):
        if isinstance(x, T):
            if a.id not in x.deps:
                return
            if not top:
                if id(x) in seen:
                    return
                seen.add(id(x))
            if not x.den and ((a.id, 1),) in x.num and not top:
                rest = {m: c for m, c in x.num.items() if m != ((a.id, 1),)}
                if a.id not in _intern(rest, {}).deps:
                    found.append(x.num[((a.id, 1),)])
                    return
            for m in x.num:
                for b, _ in m:
                    if b == a.id:
                        found.append(1)
                    elif a.id in ATOMS[b].deps:
                        for y in ATOMS[b].args:
                            walk(y, False)
            for b, _ in x.den:
                walk(ATOMS[b].args[0], top)
        elif isinstance(x, Lam):
            walk(x.body, False)
        elif isinstance(x, tuple):
            for y in x:
                walk(y, False)
        elif isinstance(x, RecDef):
            found.append(1)
    walk(t, True)
    return bool(found) and all(c < 0 for c in found)


# --------------------------------------------------------------------- recurrences
class RecDef:
    """A minimised system of mutually recurrent sequences.

    comps: list of (rank, rest bv atoms, init T, next T); next refers to the state
    symbols st[i] (scalars: the atom itself; rank>0: fn('sel', st, idx...)) and to
    the iteration index atom k."""
    __slots__ = ("comps", "st", "k", "colors", "deps", "h", "fns")


_color_tab = {}
_color_def = {}


def _color_id(key):
    c = _color_tab.get(key)
    if c is None:
        c = _color_tab[key] = len(_color_tab) + 1
    return c


def canon_rec(comps, st, k):
    """returns (list of canonical colour ids per component, RecDef)"""
    n = len(comps)
    kcan = atomT(_mk("sym", ("#k",), isint=True, nonneg=True, lo=0))
    rests = [_mk("sym", ("#r%d" % i,), isint=True, nonneg=True, lo=0) for i in range(6)]
    inits = []
    for rank, rb, i0, nx in comps:
        inits.append(subst(i0, {b.id: atomT(rests[j]) for j, b in enumerate(rb)}))
    # reachable classes
    uses = []
    stid = {s.id: i for i, s in enumerate(st)}
    for rank, rb, i0, nx in comps:
        uses.append({stid[d] for d in nx.deps if d in stid})
    reach = []
    for i in range(n):
        r = {i}
        w = [i]
        while w:
            for y in uses[w.pop()]:
                if y not in r:
                    r.add(y)
                    w.append(y)
        reach.append(r)

    col = [_color_id(("init", comps[i][0], inits[i].id)) for i in range(n)]

    def round_(col):
        out = []
        for i, (rank, rb, i0, nx) in enumerate(comps):
            mp = {k.id: kcan}
            for j, b in enumerate(rb):
                mp[b.id] = atomT(rests[j])
            for j in uses[i]:
                mp[st[j].id] = atomT(_mk("sym", ("#c%d" % col[j],)))
            out.append(_color_id(("rec", col[i], inits[i].id, subst(nx, mp).id)))
        return out

    hist = [col]
    while True:
        hist.append(round_(hist[-1]))
        if len(set(hist[-1])) == len(set(hist[-2])) or len(hist) > n + 2:
            break
    # the minimised system reachable from i, at the first depth where its classes are stable
    final = []
    for i in range(n):
        m = next((r for r in range(len(hist) - 1)
                  if len({hist[r][j] for j in reach[i]}) == len({hist[r + 1][j] for j in reach[i]})), len(hist) - 2)
        nx = hist[m + 1]
        final.append(_color_id(("min", nx[i], tuple(sorted({nx[j] for j in reach[i]})))))
    return final, reach


def seq_atom(color, rdef, idx, kT, rest, deps, h):
    args = (color, idx, kT) + tuple(rest)
    dd = frozenset(deps) | kT.deps
    hh = max(h, kT.h)
    for r in rest:
        dd |= r.deps
        hh = max(hh, r.h)
    a = _mk("seq", (color, rdef, idx, kT) + tuple(rest), key=(color, kT) + tuple(rest), h=hh, deps=dd)
    return a


_recmemo = {}


def make_rec(comps, st, k):
    """comps: list of (rank, rest bvs, init, next).  Returns list of functions
    (kT, rest)->T giving the value *entering* iteration k."""
    mk = (tuple((rank, tuple(b.id for b in rb), i0.id, nx.id) for rank, rb, i0, nx in comps), tuple(x.id for x in st), k.id)
    fns = _recmemo.get(mk)
    if fns is not None:
        return fns
    colors, reach = canon_rec(comps, st, k)
    rd = RecDef()
    rd.comps, rd.st, rd.k, rd.colors = comps, st, k, colors
    dd = set()
    for rank, rb, i0, nx in comps:
        dd |= (set(i0.deps) | set(nx.deps)) - {b.id for b in rb}
    rd.deps = frozenset(dd - {x.id for x in st} - {k.id})
    fns = []
    for i in range(len(comps)):
        deps = set()
        h = 0
        for j in reach[i]:
            rank, rb, i0, nx = comps[j]
            deps |= set(i0.deps) | set(nx.deps)
            deps -= {b.id for b in rb}
            h = max(h, i0.h, nx.h)
        deps -= {s.id for s in st}
        deps.discard(k.id)
        rank, rb, i0, nx = comps[i]

        def f(kT, rest=(), i=i, deps=frozenset(deps), h=h, i0=i0, rb=rb):
            if not kT.num:
                return subst(i0, {b.id: r for b, r in zip(rb, rest)})
            return atomT(seq_atom(colors[i], rd, i, kT, rest, deps, h))
        fns.append(f)
    rd.fns = fns
    _recmemo[mk] = fns
    return fns


def seq_rebuild(at, mp):
    """substitute inside a seq atom"""
    color, rd, idx, kT = at.args[:4]
    rest = at.args[4:]
    kT2 = subst(kT, mp)
    rest2 = tuple(subst(r, mp) for r in rest)
    inner = at.deps - kT.deps
    bound = {rd.k.id} | {s.id for s in rd.st}
    rel = {x: v for x, v in mp.items() if x not in bound and (
        ATOMS[x].kind == "bnd" or any((x in c[2].deps or x in c[3].deps) and all(x != b.id for b in c[1]) for c in rd.comps))}
    if not rel:
        return _seq_apply(rd, idx, kT2, rest2)
    comps = []
    k = rd.k
    cs0 = rd.comps
    cap = set()
    for v in rel.values():
        cap |= v.deps
    clash = {b.id: b for c in cs0 for b in c[1] if b.id in cap}
    if k.id in cap:
        clash[k.id] = k
    if clash:
        new = {i: fresh_bv(a.ext) for i, a in clash.items()}
        new = {i: as_atom(a) if isinstance(a, T) else a for i, a in new.items()}
        ren = {i: atomT(a) for i, a in new.items()}
        cs0 = [(rank, tuple(new.get(b.id, b) for b in rb), subst(i0, {x: v for x, v in ren.items() if x != k.id}), subst(nx, ren))
               for rank, rb, i0, nx in cs0]
        k = new.get(k.id, k)
    for rank, rb, i0, nx in cs0:
        comps.append((rank, rb, subst(i0, rel), subst(nx, rel)))
    if all(x[2] is y[2] and x[3] is y[3] for x, y in zip(comps, rd.comps)):
        return _seq_apply(rd, idx, kT2, rest2)
    return make_rec(comps, rd.st, k)[idx](kT2, rest2)


def _seq_apply(rd, idx, kT, rest):
    return rd.fns[idx](kT, rest)


# --------------------------------------------------------------------- substitution
def subst_val(v, mp):
    if isinstance(v, T):
        return subst(v, mp)
    if isinstance(v, Lam):
        if not any(x in v.deps for x in mp):
            return v
        a = _mk("bv", ("open", v.h, v.id), isint=True, nonneg=True, lo=0, ext=v.n)
        if not a.deps:
            a.deps = frozenset([a.id])
        body = subst_val(v.body, {bnd(v.h).id: atomT(a)})
        body = subst_val(body, mp)
        n = subst(v.n, mp) if v.n is not None else None
        return lam(body, a, n)
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp) for x in v)
    return v


_submemo = {}


def subst(t, mp):
    if not mp:
        return t
    # bnd atoms are leaves without deps entry: treat via heights
    if not _touches(t, mp):
        return t
    key = (t.id, tuple(sorted((k, v.id) for k, v in mp.items())))
    r = _submemo.get(key)
    if r is None:
        r = _submemo[key] = _subst(t, mp)
    return r


def _touches(t, mp):
    for k in mp:
        if k in t.deps:
            return True
        a = ATOMS[k]
        if a.kind == "bnd" and t.h >= a.args[0]:
            return True
    return False


def _atouch(at, mp):
    if at.id in mp:
        return True
    for k in mp:
        if k in at.deps:
            return True
        a = ATOMS[k]
        if a.kind == "bnd" and at.h >= a.args[0]:
            return True
    return False


def _subst(t, mp):
    out = ZERO
    fac = {}
    stay = {}
    for m, c in t.num.items():
        keep = []
        f = None
        for a, e in m:
            at = ATOMS[a]
            if not _atouch(at, mp):
                keep.append((a, e))
                continue
            b = fac.get((a, e))
            if b is None:
                b = rebuild_atom(at, mp)
                b = powfrac(b, e) if not (at.kind == "ind") else b
                fac[(a, e)] = b
            f = b if f is None else mul(f, b)
        if f is None:
            stay[m] = c
            continue
        out = add(out, mul(_intern({tuple(keep): c}, {}), f))
    if stay:
        out = add(out, _intern(stay, {}))
    for a, e in t.den:
        at = ATOMS[a]
        if _atouch(at, mp):
            out = div(out, powi(subst(at.args[0], mp), e))
        else:
            out = _mul_den(out, a, e)
    return out


def rebuild_atom(at, mp):
    if at.id in mp:
        return mp[at.id]
    k = at.kind
    if k in ("sym", "bv", "bnd", "prime"):
        return atomT(at)
    if k == "poly":
        return subst(at.args[0], mp)
    if k == "log":
        return logT(subst(at.args[0], mp))
    if k == "exp":
        return expT(subst(at.args[0], mp))
    if k == "abs":
        return absT(subst(at.args[0], mp))
    if k == "ind":
        if at.args[0] == "N":
            return lt0(subst(at.args[1], mp))
        if at.args[0] == "Z":
            return eq0(subst(at.args[1], mp))
        return boolT(subst_val(at.args[1], mp))
    if k == "sum":
        n, l = at.args
        a = _mk("bv", ("open", l.h, l.id), isint=True, nonneg=True, lo=0, ext=l.n)
        if not a.deps:
            a.deps = frozenset([a.id])
        body = subst(l.body, {bnd(l.h).id: atomT(a)})
        n2 = subst(n, mp)
        return sumT(n2, a, subst(body, mp))
    if k == "seq":
        return seq_rebuild(at, mp)
    if k == "fn":
        name = at.args[0]
        args = tuple(subst_val(x, mp) for x in at.args[1:])
        return refn(name, args, at)
    raise Undecided("rebuild " + k)


# callbacks to re-simplify applications after substitution
REFN = {}


def refn(name, args, at):
    f = REFN.get(name)
    if f is not None:
        return f(args, at)
    return fn(name, *args, pos=at.pos, nonneg=at.nonneg, isint=at.isint, lo=at.lo)


REFN["relu"] = lambda args, at: relu(args[0])
REFN["cdf"] = lambda args, at: cdfT(args[0])

ZERO = _intern({}, {})
ONE = const(1)
INF_ATOM = sym_atom("inf", pos=True)
INF = atomT(INF_ATOM)
NAN_ATOM = sym_atom("nan")
NAN = atomT(NAN_ATOM)
PI = sym("pi", pos=True)


# --------------------------------------------------------------------- printing
_show_left = [0]


def show(t, depth=0):
    if depth == 0:
        _show_left[0] = 400
    _show_left[0] -= 1
    if not t.num:
        return "0"
    if depth > 7 or _show_left[0] < 0:
        return "…"
    items = sorted(t.num.items(), key=lambda kv: kv[0])
    parts = []
    for m, c in items[:12]:
        s = "*".join(("%s" % show_atom(ATOMS[a], depth) if e == 1 else "%s^%s" % (show_atom(ATOMS[a], depth), e)) for a, e in m)
        if not s:
            parts.append(str(c))
        elif c == 1:
            parts.append(s)
        elif c == -1:
            parts.append("-" + s)
        else:
            parts.append("%s*%s" % (c, s))
    if len(items) > 12:
        parts.append("…(%d terms)" % len(items))
    s = " + ".join(parts).replace("+ -", "- ")
    if t.den:
        s = "(%s)/%s" % (s, "".join("(%s)%s" % (show(ATOMS[a].args[0], depth + 1), "" if e == 1 else "^%d" % e) for a, e in t.den))
    return s


def show_val(v, depth=0):
    if isinstance(v, T):
        return show(v, depth)
    if isinstance(v, Lam):
        return "λ$%d.%s" % (v.h, show_val(v.body, depth + 1))
    if isinstance(v, tuple):
        return "(" + ", ".join(show_val(x, depth + 1) for x in v) + ")"
    return str(v)


def show_atom(at, depth=0):
    k = at.kind
    if depth > 7 or _show_left[0] < 0:
        return "…"
    if k == "sym":
        return str(at.args[0])
    if k == "bv":
        return "%s%s" % (at.args[0], at.args[1])
    if k == "bnd":
        return "$%d" % at.args[0]
    if k == "prime":
        return str(at.args[0])
    if k in ("poly",):
        return "(%s)" % show(at.args[0], depth + 1)
    if k in ("log", "exp", "abs"):
        return "%s(%s)" % (k, show(at.args[0], depth + 1))
    if k == "ind":
        e = show_val(at.args[1], depth + 1)
        return {"N": "[%s<0]", "Z": "[%s==0]", "B": "[%s]"}[at.args[0]] % e
    if k == "sum":
        return "Σ{$%d<%s}(%s)" % (at.args[1].h, show(at.args[0], depth + 1), show_val(at.args[1].body, depth + 1))
    if k == "seq":
        rd, i = at.args[1], at.args[2]
        return "seq#%d[%s]" % (at.args[0], ",".join(show(x, depth + 1) for x in at.args[3:]))
    if k == "fn":
        if at.args[0] == "sel":
            return "%s[%s]" % (show_val(at.args[1], depth + 1), ",".join(show_val(x, depth + 1) for x in at.args[2:]))
        return "%s(%s)" % (at.args[0], ", ".join(show_val(x, depth + 1) for x in at.args[1:]))
    return k
