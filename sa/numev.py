"""Random interpretation of value graphs.

When two value numbers are not syntactically identical, their equality is decided by
evaluating both *terms* (never the program) at random points of the input space in
high-precision arithmetic (Gulwani-Necula style).  Uninterpreted applications are
random functions of their (canonically evaluated) arguments."""
import decimal
import hashlib
from decimal import Decimal as D
from fractions import Fraction as Fr
from . import terms as t
from .terms import T, Lam

PREC = 60
CTX = decimal.Context(prec=PREC, Emax=10**12, Emin=-10**12, traps=[])
decimal.setcontext(CTX)
NAN = D("NaN")
PINF = D("Infinity")
D0, D1 = D(0), D(1)


class Skip(Exception):
    """this sample point cannot be evaluated"""


class Budget(Exception):
    pass


_PI = D("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")


def cdf(x):
    """standard normal distribution function"""
    if x.is_nan():
        return NAN
    if x.is_infinite():
        return D1 if x > 0 else D0
    if abs(x) > 14:
        # asymptotic tail
        s = D1
        term = D1
        x2 = x * x
        for k in range(1, 40):
            nt = term * (-(2 * k - 1)) / x2
            if abs(nt) > abs(term):
                break
            term = nt
            s += term
        q = (-(x2) / 2).exp() / ((2 * _PI).sqrt() * abs(x)) * s
        return D1 - q if x > 0 else q
    x2 = x * x
    term = x
    s = x
    k = 0
    while True:
        k += 1
        term = term * x2 / (2 * k + 1)
        s += term
        if abs(term) < abs(s) * D(10) ** -(PREC + 5) or term == 0:
            break
        if k > 2000:
            break
    return D("0.5") + s * (-(x2) / 2).exp() / (2 * _PI).sqrt()


def ppf(p):
    if p.is_nan() or p < 0 or p > 1:
        return NAN
    if p == 0:
        return -PINF
    if p == 1:
        return PINF
    lo, hi = D(-40), D(40)
    x = D0
    import statistics
    try:
        x = D(statistics.NormalDist().inv_cdf(float(p)))
    except Exception:
        return NAN
    for _ in range(6):
        f = cdf(x) - p
        d = (-(x * x) / 2).exp() / (2 * _PI).sqrt()
        if d == 0:
            break
        st = f / d
        x -= st
        if abs(st) < D(10) ** -(PREC - 15):
            break
    return x


def h01(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return D(int.from_bytes(h, "big")) / D(2 ** 64)


def rnd(x):
    """hash key of a number: rounded to 25 significant digits"""
    if x.is_nan():
        return "nan"
    if x.is_infinite():
        return "inf" if x > 0 else "-inf"
    if x == 0:
        return "0"
    # absolute noise floor as well
    y = x.quantize(D(10) ** -28) if abs(x) < D(10) ** 6 else x
    if y == 0:
        return "0"
    y = y.normalize(decimal.Context(prec=25))
    return str(y)


def powd(b, e):
    if isinstance(e, int) or (isinstance(e, Fr) and e.denominator == 1):
        e = int(e)
        if b == 0 and e < 0:
            return NAN
        if b.is_infinite() and e < 0:
            return D0
        return b ** e
    if b.is_nan():
        return NAN
    if b < 0:
        return NAN
    if b == 0:
        return D0 if e > 0 else PINF
    if b.is_infinite():
        return PINF if e > 0 else D0
    if e.denominator == 2:
        r = b.sqrt()
        return r ** int(e.numerator)
    return (b.ln() * D(e.numerator) / D(e.denominator)).exp()


_FL = {}
_NOLV = frozenset()


def flev(v):
    """levels of the bound variables that occur free in a canonical value"""
    if isinstance(v, T):
        if not v.h:
            return _NOLV
        k = v.id
        r = _FL.get(k)
        if r is None:
            s = set()
            for m in v.num:
                for a, _ in m:
                    s |= aflev(t.ATOMS[a])
            for a, _ in v.den:
                s |= aflev(t.ATOMS[a])
            r = _FL[k] = frozenset(s)
        return r
    if isinstance(v, Lam):
        r = flev(v.body) - {v.h}
        return r | flev(v.n) if v.n is not None else r
    if isinstance(v, tuple):
        s = _NOLV
        for x in v:
            s = s | flev(x)
        return s
    if isinstance(v, t.RecDef):
        k = ("rd", id(v))
        r = _FL.get(k)
        if r is None:
            s = _NOLV
            for c in v.comps:
                s = s | flev(c[2]) | flev(c[3])
            r = _FL[k] = s
            _KEEP.append(v)
        return r
    return _NOLV


_KEEP = []


def aflev(a):
    if a.kind == "bnd":
        return frozenset([a.args[0]])
    if not a.h:
        return _NOLV
    k = -a.id - 1
    r = _FL.get(k)
    if r is None:
        r = _FL[k] = flev(tuple(a.args))
    return r


class Eval:
    junk, salt = False, 0       # values that guards should cancel were used; their salt

    """evaluation of terms at one sample point"""

    def __init__(self, seed, syms=None, fns=None, budget=3000000, nmax=400):
        self.seed = seed
        self.syms = dict(syms or {})       # name -> Decimal
        self.fns = dict(fns or {})         # name -> f(ev, args(list of evaluated))
        self.bv = {}                       # atom id -> Decimal
        self.bnd = {}                      # level -> Decimal
        self.st = {}                       # state atom id -> (rd, j, kval, outerkey)
        self.memo = {}
        self.smemo = {}
        self.budget = budget
        self.nmax = nmax
        self.frame = 0
        self.nframes = 0
        self.frames = {}
        self.fsyms = frozenset()

    # ------------------------------------------------------------ core
    def key(self, x, lv):
        """what the value of x depends on: the frame of its recurrence and the bound variables in it"""
        if self.frame and self.fsyms.isdisjoint(x.deps):
            f = 0
        else:
            f = self.frame
        b = self.bnd
        if not lv or not b:
            return f
        return (f,) + tuple([b.get(l) for l in lv])

    def ev(self, x):
        k = (x.id, self.key(x, flev(x)))
        v = self.memo.get(k)
        if v is None:
            v = self._ev(x)
            self.memo[k] = v
        return v

    def _ev(self, x):
        self.budget -= len(x.num) + 1
        if self.budget < 0:
            raise Budget()
        groups = {}
        for m, c in x.num.items():
            ind = []
            rest = []
            for a, e in m:
                (ind if t.ATOMS[a].kind == "ind" else rest).append((a, e))
            groups.setdefault(tuple(rest), []).append((c, ind))
        tot = D0
        live = False
        icache = {}
        for rest, lst in groups.items():
            co = Fr(0)
            for c, ind in lst:
                ok, late = True, None
                for a, _ in ind:
                    v = icache.get(a)
                    if v is None:
                        try:
                            v = icache[a] = self.atom(t.ATOMS[a])
                        except Skip as e:
                            late = e        # undefined, unless another guard excludes this case
                            continue
                    if v == 0:
                        ok = False
                        break
                if ok and late is not None:
                    raise late
                if ok:
                    co += c
            if not co:
                continue
            live = True
            v = D(co.numerator) / D(co.denominator)
            z = False
            fac = []
            for a, e in rest:
                b = self.atom(t.ATOMS[a])
                fac.append((a, powd(b, e)))
            for a, b in fac:
                v = v * b
            tot = tot + v
        if x.den:
            if tot == 0 and not groups:
                return tot
            d = D1
            for a, e in x.den:
                d = d * powd(self.atom(t.ATOMS[a]), e)
            if not live and d.is_nan():
                return D0           # every term is masked out
            if d == 0:
                if tot == 0 or tot.is_nan():
                    return NAN
                return PINF if tot > 0 else -PINF
            tot = tot / d
        return tot

    def atom(self, a):
        k = (-a.id - 1, self.key(a, aflev(a)))
        v = self.memo.get(k)
        if v is None:
            v = self._atom(a)
            self.memo[k] = v
        return v

    def intval(self, x):
        v = self.ev(x)
        if v.is_nan() or v.is_infinite():
            raise Skip()
        i = int(v.to_integral_value())
        if abs(v - i) > D("1e-20"):
            raise Skip()
        return i

    def _atom(self, a):
        k = a.kind
        if k == "bv":
            if a.id not in self.bv:
                raise Skip()
            return self.bv[a.id]
        if k == "bnd":
            return self.bnd[a.args[0]]
        if k == "sym":
            s = self.st.get(a.id)
            if s is not None:
                return self.state(s, ())
            n = a.args[0]
            if n in self.syms:
                return self.syms[n]
            if n == "inf":
                return PINF
            if n == "nan":
                return NAN
            if n == "pi":
                return _PI
            v = self.default_sym(a)
            self.syms[n] = v
            return v
        if k == "prime":
            return D(a.args[0])
        if k == "poly":
            return self.ev(a.args[0])
        if k == "log":
            x = self.ev(a.args[0])
            if x.is_nan() or x < 0:
                return NAN
            if x == 0:
                return -PINF
            return x.ln()
        if k == "exp":
            x = self.ev(a.args[0])
            if x.is_nan():
                return NAN
            if x > 10**9:
                return PINF
            if x < -10**9:
                return D0
            return x.exp()
        if k == "abs":
            return abs(self.ev(a.args[0]))
        if k == "ind":
            return self.indv(a)
        if k == "sum":
            return self.sumv(a)
        if k == "seq":
            color, rd, idx, kT = a.args[:4]
            kv = self.intval(kT)
            rest = tuple(self.intval(r) for r in a.args[4:])
            return self.state((rd, idx, kv, self.outer(rd)), rest)
        if k == "fn":
            return self.fnv(a)
        raise Skip()

    def default_sym(self, a):
        u = h01(self.seed, "sym", a.args[0])
        if a.isint:
            return D(int(a.lo or 0) + int(u * 5))
        if a.pos or a.nonneg:
            return D("0.1") + u * 2
        return u * 4 - 2

    def tol0(self, v):
        return abs(v) < D("1e-35")

    def indv(self, a):
        kind = a.args[0]
        if kind == "B":
            v = a.args[1]
            if isinstance(v, tuple) and v and v[0] == ("s", "isnum"):
                return D0 if self.ev(v[1]).is_nan() else D1
            if isinstance(v, tuple) and v and v[0] == ("s", "isinf"):
                return D1 if self.ev(v[1]).is_infinite() else D0
            return D1 if h01(self.seed, "B", self.hk(v)) < D("0.5") else D0
        e = self.ev(a.args[1])
        if e.is_nan():
            return D0
        if self.tol0(e):
            e = D0
        if kind == "N":
            return D1 if e < 0 else D0
        return D1 if e == 0 else D0

    def with_bnd(self, h, v, f):
        old = self.bnd
        self.bnd = dict(old)
        self.bnd[h] = v
        try:
            return f()
        finally:
            self.bnd = old

    def sumv(self, a):
        n, l = a.args
        nv = self.intval(n)
        if nv > self.nmax:
            raise Skip()
        s = D0
        old = self.bnd
        for i in range(nv):
            self.bnd = dict(old)
            self.bnd[l.h] = D(i)
            s = s + self.ev(l.body)
        self.bnd = old
        return s

    # ------------------------------------------------------------ recurrences
    def outer(self, rd):
        lv = flev(rd)
        return (self.frame if not self.fsyms.isdisjoint(rd.deps) else 0, tuple(sorted((l, v) for l, v in self.bnd.items() if l in lv)))

    def state(self, s, rest):
        rd, j, kv, outer = s
        k = (id(rd), j, kv, rest, outer)
        v = self.smemo.get(k)
        if v is not None:
            return v
        if kv > self.nmax:
            raise Skip()
        if kv < 0:
            # before the first element: any value does, guards that exclude this case cancel it
            self.junk = True
            return D("0.5") + h01(self.seed, "before", self.salt, rd.colors[j], kv, rest)
        # fill earlier iterations first (bounds the recursion depth)
        rank, rb, i0, nx = rd.comps[j]
        if kv == 0:
            v = self.in_frame(rd, 0, outer, None, rb, rest, i0)
        else:
            if not rest and kv > 1 and (id(rd), j, kv - 1, rest, outer) not in self.smemo:
                for q in range(0, kv):
                    self.state((rd, j, q, outer), rest)
            v = self.in_frame(rd, kv, outer, kv - 1, rb, rest, nx)
        self.smemo[k] = v
        return v

    def in_frame(self, rd, kv, outer, kprev, rb, rest, x):
        fk = (id(rd), kv, outer, rest)
        fid = self.frames.get(fk)
        if fid is None:
            self.nframes += 1
            fid = self.frames[fk] = self.nframes
        sf, sb, ss, sv, sy = self.frame, self.bnd, self.st, self.bv, self.fsyms
        try:
            self.frame = fid
            self.bnd = dict(outer[1])
            self.bv = dict(sv)
            for b, r in zip(rb, rest):
                self.bv[b.id] = D(r)
            if kprev is not None:
                self.st = dict(ss)
                for q, sa in enumerate(rd.st):
                    self.st[sa.id] = (rd, q, kprev, outer)
                self.bv[rd.k.id] = D(kprev)
            self.fsyms = frozenset(self.bv) | frozenset(self.st)
            return self.ev(x)
        finally:
            self.frame, self.bnd, self.st, self.bv, self.fsyms = sf, sb, ss, sv, sy

    # ------------------------------------------------------------ applications
    def hk(self, v):
        """hashable canonical evaluation of an application argument"""
        if isinstance(v, T):
            return rnd(self.ev(v))
        if isinstance(v, Lam):
            pts = []
            if v.n is not None:
                n = self.intval(v.n)
                if n > self.nmax:
                    raise Skip()
                pts = [D(i) for i in range(n)]
            else:
                pts = [D("0.3137"), D("1.7713"), D("-0.8521")]
            out = []
            for p in pts:
                out.append(self.with_bnd(v.h, p, lambda: self.hk(v.body)))
            return ("lam", len(pts), tuple(out))
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "s":
                return v
            return tuple(self.hk(x) for x in v)
        return repr(v)

    def elems(self, l):
        """evaluated elements of a (nested) abstraction, flattened; skips 'skip'"""
        if isinstance(l, Lam):
            n = self.intval(l.n)
            if n > self.nmax:
                raise Skip()
            out = []
            for i in range(n):
                out += self.with_bnd(l.h, D(i), lambda: self.elems(l.body))
            return out
        if isinstance(l, T):
            at = t.as_atom(l)
            v = self.ev_skip(l)
            return [] if v is None else [v]
        raise Skip()

    def ev_skip(self, x):
        """value, or None when the element is deselected (term 'skip')"""
        ids = [a for m in x.num for a, _ in m if t.ATOMS[a].kind == "fn" and t.ATOMS[a].args[0] == "skip"]
        if not ids:
            return self.ev(x)
        sid = ids[0]
        co = Fr(0)
        rest = {}
        for m, c in x.num.items():
            if any(a == sid for a, _ in m):
                ok = all(self.atom(t.ATOMS[a]) != 0 for a, _ in m if a != sid)
                if ok:
                    co += c
            else:
                rest[m] = c
        if co != 0:
            return None
        return self.ev(t._intern(rest, dict(x.den)))

    def rngpos(self, args):
        """generator state after some draws of one distribution: (value, (start, distribution, parameters, number drawn))"""
        base, m, ps, c = self.ev(args[0]), args[1], tuple(rnd(self.ev(x)) for x in args[2]), self.ev(args[3])
        reg = self.__dict__.setdefault("rngreg", {})
        b = reg.get(base)
        if b is not None and b[1] == m and b[2] == ps:
            base, c = b[0], b[3] + c
        k = (base, m, ps, c)
        v = base if c == 0 else h01(self.seed, "rngpos", rnd(base), m, ps, rnd(c)) * 3 - 1
        if c != 0:
            reg[v] = k
        return v, k

    def fnv(self, a):
        name = a.args[0]
        args = a.args[1:]
        if name in self.fns:
            return self.fns[name](self, args)
        f = INTERP.get(name)
        if f is not None:
            return f(self, args)
        if name == "sel":
            st = t.as_atom(args[0])
            s = self.st.get(st.id) if st is not None else None
            if s is None:
                raise Skip()
            return self.state(s, tuple(self.intval(x) for x in args[1:]))
        if name == "rngpos":
            return self.rngpos(args)[0]
        if name == "draw" and len(args) == 5 and isinstance(args[4], T):
            base, m, ps, c = self.rngpos((args[2], args[1], args[3], args[4]))[1]
            u = h01(self.seed, name, self.hk(args[0]), m, rnd(base), ps, rnd(c))
            if a.isint:
                lo, hi = (self.ev(x) for x in args[3][:2]) if m == ("s", "int") else (D(0), D(3))
                return lo + D(int(u * (hi - lo)))
        else:
            u = h01(self.seed, name, tuple(self.hk(x) for x in args))
        if a.isint:
            return D(int(u * 3))
        if name == "draw":
            m = args[1][1]
            if m == "uniform01":
                return u
            if m == "stdnormal":
                return u * 4 - 2
            return u
        if a.pos or a.nonneg:
            return D("0.1") + u * 2
        return u * 3 - 1


def _quant_(how):
    def f(ev, args):
        xs = sorted_(ev.elems(args[0]))
        q = ev.ev(args[1])
        if not xs or q.is_nan():
            return NAN
        if any(x.is_nan() for x in xs):
            return NAN
        if q < 0 or q > 1:
            raise Skip()
        pos = q * (len(xs) - 1)
        r = pos.to_integral_value()
        if abs(r - pos) < D("1e-30"):
            return xs[int(r)]
        i = int(pos.to_integral_value(rounding=decimal.ROUND_FLOOR))
        f = pos - i
        if i + 1 >= len(xs):
            return xs[-1]
        if how == "lower":
            return xs[i]
        if how == "higher":
            return xs[i + 1]
        if how == "midpoint":
            return (xs[i] + xs[i + 1]) / 2
        if how == "nearest":
            return xs[i + 1] if f > D("0.5") or (f == D("0.5") and i % 2) else xs[i]
        return xs[i] + (xs[i + 1] - xs[i]) * f
    return f


def sorted_(xs):
    return sorted(xs, key=lambda v: (v.is_nan(), v if not v.is_nan() else D0))


def _ext(f):
    def g(ev, args):
        xs = ev.elems(args[0])
        if not xs:
            raise Skip()
        if any(x.is_nan() for x in xs):
            return NAN
        return f(xs)
    return g


def _argext(mx):
    def g(ev, args):
        xs = ev.elems(args[0])
        if not xs or any(x.is_nan() for x in xs):
            raise Skip()
        best = 0
        for i, x in enumerate(xs):
            d = x - xs[best]
            if abs(d) < D("1e-35"):
                continue
            if (d > 0) == mx and d != 0:
                best = i
        return D(best)
    return g


def _order(ev, args):
    xs = ev.elems(args[0])
    k = ev.intval(args[1])
    if k < 0 or k >= len(xs) or any(x.is_nan() for x in xs):
        raise Skip()
    stable = len(args) < 3 or ev.ev(args[2]) == 1
    o = sorted(range(len(xs)), key=lambda i: xs[i])
    # groups of ties: in index order if the sort is stable, otherwise in an order nothing may depend on
    out, grp = [], []
    for i in o:
        if grp and abs(xs[i] - xs[grp[-1]]) >= D("1e-30"):
            out += sorted(grp, reverse=not stable)
            grp = []
        grp.append(i)
    return out + sorted(grp, reverse=not stable), k


def _argsort(ev, args):
    o, k = _order(ev, args)
    return D(o[k])


def _argrank(ev, args):
    o, k = _order(ev, args)
    return D(o.index(k))


def _sorted(ev, args):
    xs = sorted_(ev.elems(args[0]))
    k = ev.intval(args[1])
    if k < 0 or k >= len(xs):
        raise Skip()
    return xs[k]


def _floor(ev, args):
    v = ev.ev(args[0])
    if v.is_nan() or v.is_infinite():
        raise Skip()
    r = v.to_integral_value()
    if abs(v - r) < D("1e-30"):
        return r
    return v.to_integral_value(rounding=decimal.ROUND_FLOOR)


def _rint(ev, args):
    v = ev.ev(args[0])
    if v.is_nan() or v.is_infinite():
        raise Skip()
    d = (v * 2).to_integral_value()
    if abs(v * 2 - d) < D("1e-30"):
        v = d / 2
    return v.to_integral_value(rounding=decimal.ROUND_HALF_EVEN)


def _tab(ev, args):
    k = ev.intval(args[1])
    if not 0 <= k < len(args[0]):
        raise Skip()
    return ev.ev(args[0][k])


def _prod(ev, args):
    r = D1
    for x in ev.elems(args[0]):
        r *= x
    return r


def _relu(ev, args):
    v = ev.ev(args[0])
    return v if v > 0 else D0


def _powf(ev, args):
    b, e = ev.ev(args[0]), ev.ev(args[1])
    if b.is_nan() or e.is_nan():
        return NAN
    if b == 0:
        return D1 if e == 0 else (D0 if e > 0 else PINF)
    if e == e.to_integral_value() and abs(e) < 10**6:
        return b ** int(e)
    if b < 0:
        return NAN
    return (b.ln() * e).exp()


# ------------------------------------------------------------ linear algebra on sampled matrices

def mat(ev, l):
    """rows of a nested abstraction"""
    n = ev.intval(l.n)
    if n > max(ev.nmax, 8):
        raise Skip()
    out = []
    for i in range(n):
        def row():
            if isinstance(l.body, Lam):
                m = ev.intval(l.body.n)
                return [ev.with_bnd(l.body.h, D(j), lambda: ev.ev(l.body.body)) for j in range(m)]
            return [ev.ev(l.body)]
        r = ev.with_bnd(l.h, D(i), row)
        if any(not v.is_finite() for v in r):
            raise Skip()
        out.append(r)
    return out


def gauss(A, B):
    n = len(A)
    M = [list(A[i]) + list(B[i]) for i in range(n)]
    big = max([abs(v) for r in A for v in r] or [D0])
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) <= big * D("1e-25"):
            raise Skip()
        M[c], M[p] = M[p], M[c]
        for r in range(n):
            if r != c:
                f = M[r][c] / M[c][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [[M[i][n + j] / M[i][i] for j in range(len(B[0]))] for i in range(n)]


def cached(name, f):
    """whole-matrix results, one per evaluated operand"""
    def g(ev, args):
        ms = [mat(ev, x) for x in args if isinstance(x, Lam)]
        key = ("lin", name, repr([[ [rnd(v) for v in r] for r in m] for m in ms]))
        v = ev.memo.get(key)
        if v is None:
            v = f(*ms)
            ev.memo[key] = v
        idx = [ev.intval(x) for x in args if not isinstance(x, Lam)]
        for k in idx:
            if not 0 <= k < len(v):
                raise Skip()
            v = v[k]
        return v[0] if isinstance(v, list) else v
    return g


def l_lstsq(X, Y):
    """minimum-norm least squares"""
    XT = list(zip(*X))
    n = len(XT)
    A = [[sum((a * b for a, b in zip(r, c)), D0) for c in XT] for r in XT]
    B = [[sum((a * b for a, b in zip(r, c)), D0) for c in zip(*Y)] for r in XT]
    M = [A[i] + B[i] for i in range(n)]
    big = max([abs(v) for r in A for v in r] or [D0])
    piv = []
    row = 0
    for c in range(n):
        if row >= n:
            break
        p = max(range(row, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) <= big * D("1e-25"):
            continue
        M[row], M[p] = M[p], M[row]
        d = M[row][c]
        M[row] = [x / d for x in M[row]]
        for r in range(n):
            if r != row:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[row])]
        piv.append(c)
        row += 1
    out = [[D0] * len(B[0]) for _ in range(n)]
    for r, c in enumerate(piv):
        for j in range(len(B[0])):
            out[c][j] = M[r][n + j]
    free = [c for c in range(n) if c not in piv]
    if free:
        N = []          # null space basis
        for f in free:
            v = [D0] * n
            v[f] = D1
            for r, c in enumerate(piv):
                v[c] = -M[r][f]
            N.append(v)
        G = [[sum((a * b for a, b in zip(u, v)), D0) for v in N] for u in N]
        for j in range(len(B[0])):
            x = [out[i][j] for i in range(n)]
            w = gauss(G, [[sum((a * b for a, b in zip(v, x)), D0)] for v in N])
            for k, v in enumerate(N):
                x = [a - w[k][0] * b for a, b in zip(x, v)]
            for i in range(n):
                out[i][j] = x[i]
    return out


def l_inv(A):
    n = len(A)
    return gauss(A, [[D1 if i == j else D0 for j in range(n)] for i in range(n)])


def l_det(A):
    n = len(A)
    M = [list(r) for r in A]
    d = D1
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if M[p][c] == 0:
            return D0
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return d


def l_chol(A):
    n = len(A)
    L = [[D0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = A[i][j] - sum((L[i][k] * L[j][k] for k in range(j)), D0)
            if i == j:
                if s <= 0:
                    raise Skip()
                L[i][i] = s.sqrt()
            else:
                L[i][j] = s / L[j][j]
    return L


def l_eig(A):
    """eigenvalues of a symmetric matrix, ascending (cyclic Jacobi)"""
    n = len(A)
    A = [list(r) for r in A]
    for i in range(n):
        for j in range(n):
            if abs(A[i][j] - A[j][i]) > D("1e-25") * (abs(A[i][j]) + 1):
                raise Skip()
    for _ in range(60):
        off = sum((A[i][j] ** 2 for i in range(n) for j in range(n) if i != j), D0)
        if off < D("1e-70"):
            break
        for p in range(n):
            for q in range(p + 1, n):
                if A[p][q] == 0:
                    continue
                th = (A[q][q] - A[p][p]) / (2 * A[p][q])
                tt = (D1 if th >= 0 else -D1) / (abs(th) + (th * th + 1).sqrt())
                c = 1 / (tt * tt + 1).sqrt()
                s_ = tt * c
                for k in range(n):
                    x, y = A[k][p], A[k][q]
                    A[k][p], A[k][q] = c * x - s_ * y, s_ * x + c * y
                for k in range(n):
                    x, y = A[p][k], A[q][k]
                    A[p][k], A[q][k] = c * x - s_ * y, s_ * x + c * y
    return sorted(A[i][i] for i in range(n))



INTERP = {"let": lambda ev, a: ev.ev(a[0]), "cdf": lambda ev, a: cdf(ev.ev(a[0])), "ppf": lambda ev, a: ppf(ev.ev(a[0])),
          "quant": _quant_("linear"), "quant_lower": _quant_("lower"), "quant_higher": _quant_("higher"),
          "quant_nearest": _quant_("nearest"), "quant_midpoint": _quant_("midpoint"), "rmax": _ext(max), "rmin": _ext(min), "argmax": _argext(True), "argmin": _argext(False),
          "argsort": _argsort, "argrank": _argrank, "sorted": _sorted, "floor": _floor, "rint": _rint, "tab": _tab, "prod": _prod,
          "relu": _relu, "pow": _powf, "lstsq": cached("lstsq", l_lstsq), "linsolve": cached("solve", gauss),
          "inv": cached("inv", l_inv), "det": cached("det", l_det), "chol": cached("chol", l_chol), "eigsorted": cached("eig", l_eig)}


def close_to(a, b, tol=D("1e-15")):
    if a.is_nan() or b.is_nan():
        return a.is_nan() and b.is_nan()
    if a.is_infinite() or b.is_infinite():
        return a == b
    d = abs(a - b)
    return d <= tol * max(abs(a), abs(b)) or d <= D("1e-25")
