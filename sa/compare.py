"""Comparison of value-graph results.

Obligation: two values (results of analysing the code under check and a reference
definition) denote the same function of the inputs.
 1. congruence: both reduce to the same canonical (hash-consed) value number;
 2. otherwise random interpretation of the two terms (Gulwani-Necula): agreement at
    every sampled point discharges the obligation, a disagreement refutes it and gives
    the witness."""
import decimal
import os
from decimal import Decimal as D
from . import terms as t, numev
from .terms import T, ZERO, ONE, mul, add, sub, const, ite, Undecided
from .vals import *
from .pyeval import isnanT


SEED0 = 100000 * int(os.environ.get("VERIF_SEED", "1") or 1)


class Diff:
    def __init__(self, path, why, got=None, want=None, point=None):
        self.path, self.why, self.got, self.want, self.point = path, why, got, want, point

    def __str__(self):
        s = "%s: %s" % (self.path, self.why)
        if self.point:
            s += " at " + self.point
        if self.got is not None:
            s += "; got %s, expected %s" % (short(self.got), short(self.want))
        return s


def short(x):
    s = t.show(x) if isinstance(x, T) else str(x)
    return s if len(s) < 200 else s[:200] + "..."


def dshort(d):
    try:
        return "%.12g" % d
    except Exception:
        return str(d)


class Dom:
    """sampling domain of the symbolic inputs"""

    def __init__(self, syms=None, fns=None, assume=(), nmax=6, points=None, special=True, tol=None, hook=None, strict=False):
        self.syms = syms or {}      # name -> f(u in [0,1), mode) -> Decimal
        self.fns = fns or {}        # name -> f(u, mode)
        self.assume = list(assume)  # 0/1 terms that must be 1
        self.nmax = nmax
        self.points = points
        self.special = special
        self.tol = tol
        self.hook = hook
        self.pts = {}
        self.strict = strict        # undefined (NaN) exactly where the reference is


def _dec(x):
    return x if isinstance(x, D) else D(str(x))


def has_isinf(v, seen):
    """does the value test its operands for infinity?"""
    if isinstance(v, tuple):
        return v[:1] == (("s", "isinf"),) or any(has_isinf(x, seen) for x in v)
    if isinstance(v, t.Lam):
        return has_isinf(v.body, seen)
    if not isinstance(v, T) or v.id in seen:
        return False
    seen[v.id] = 1
    for m in list(v.num) + [v.den]:
        for a, _ in m:
            if any(has_isinf(x, seen) for x in t.ATOMS[a].args):
                return True
    return False


class Pt(numev.Eval):
    isinf_free = False

    def indv(self, a):
        if self.isinf_free and a.args[0] == "B":
            v = a.args[1]
            if isinstance(v, tuple) and v[:1] == (("s", "isinf"),) and self.seed % 3 == 0:
                # overflow to infinity as a free event, at any operand value
                return D(1) if self.u("isinf", self.hk(v[1])) < D("0.7") else D(0)
        return numev.Eval.indv(self, a)

    def __init__(self, seed, dom, budget=400000):
        numev.Eval.__init__(self, seed, budget=budget)
        self.dom = dom
        self.mode = seed % 4 if dom.special else 0
        self.used = {}

    def u(self, *k):
        return numev.h01(self.seed, *k)

    def default_sym(self, a):
        n = a.args[0]
        f = self.dom.syms.get(n)
        u = self.u("sym", n)
        if f is not None:
            v = _dec(f(u, self.mode)) if callable(f) else _dec(f)
        elif a.isint:
            lo = int(a.lo if a.lo is not None else (1 if a.pos else (0 if a.nonneg else -3)))
            v = D(lo + (0 if self.seed % 8 == 3 else int(u * self.dom.nmax)))
        elif a.pos:
            v = D(1 + int(u * 3)) if self.mode == 3 else D("0.1") + u * 2
        elif a.nonneg:
            v = D(int(u * 3)) if self.mode == 3 else u * 2
        else:
            v = D(int(u * 4) - 2) if self.mode == 3 else u * 4 - 2
        if not n.startswith("#"):
            self.used[n] = v
        return v

    def fnv(self, a):
        name = a.args[0]
        f = self.dom.fns.get(name)
        if f is None or name in numev.INTERP:
            if name in numev.INTERP or name == "sel":
                return numev.Eval.fnv(self, a)
            if self.dom.hook is not None:
                r = self.dom.hook(self, a)
                if r is not None:
                    return r
            if self.mode in (2, 3) and not a.isint and name.startswith("@"):
                key = tuple(self.hk(x) for x in a.args[1:])
                u = self.u(name, key)
                if self.mode == 2:
                    v = [D(-1), D(0), D(1), D(2)][int(u * 4)]
                    if a.pos:
                        v = D(1 + int(u * 3))
                    elif a.nonneg:
                        v = D(int(u * 3))
                    if not key or all(isinstance(k, str) for k in key):
                        self.used["%s%s" % (name, list(key))] = v
                    return v
            v = numev.Eval.fnv(self, a)
            if name.startswith("@"):
                key = tuple(self.hk(x) for x in a.args[1:])
                self.used["%s%s" % (name, list(key))] = v
            return v
        key = tuple(self.hk(x) for x in a.args[1:])
        v = _dec(f(self.u(name, key), self.mode, *key))
        if all(isinstance(k, str) for k in key):
            self.used["%s%s" % (name, list(key))] = v
        return v

    def describe(self):
        it = sorted(self.used.items())
        s = ", ".join("%s=%s" % (k.lstrip("@"), dshort(v)) for k, v in it[:12])
        if len(it) > 12:
            s += ", ... (%d inputs)" % len(it)
        return s


def inarr(name, shape, **kw):
    """symbolic input array named name: elements @name(i, ...)"""
    return Arr(tuple(x if isinstance(x, T) else const(x) for x in shape),
               lambda i: t.fn("@" + name, *i, **kw), "f", "nd")


class Comparer:
    def __init__(self, it_a, it_b, dom=None, tier="quick"):
        self.A, self.B = it_a, it_b
        self.dom = dom or Dom()
        self.tier = tier
        self.npoints = self.dom.points or (24 if tier == "quick" else 160)
        self.diffs = []
        self.stats = {"congruent": 0, "sampled": 0, "points": 0, "skipped": 0}
        self.bvs = []     # (atom id, extent)
        self.nanguard = False

    # ------------------------------------------------------------ structure
    def norm(self, it, v):
        if isinstance(v, BT):
            return v.t
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if isinstance(v, (int, float)):
            return const(v)
        if isinstance(v, Ref):
            c = it.content(v)
            if isinstance(c, (Arr, PyList, PyDict)):
                return c
            return v
        if isinstance(v, View):
            return it.arr(v)
        if isinstance(v, Poison):
            raise Undecided("poisoned value")
        return v

    def compare(self, a, b, path="result", cond=ONE):
        if cond is ZERO:
            return
        a, b = self.norm(self.A, a), self.norm(self.B, b)
        if isinstance(a, CondV) and isinstance(b, CondV) and a.c is b.c:
            self.compare(a.a, b.a, path, mul(cond, a.c))
            self.compare(a.b, b.b, path, mul(cond, t.notT(a.c)))
            return
        if isinstance(a, CondV):
            self.compare(a.a, b, path, mul(cond, a.c))
            self.compare(a.b, b, path, mul(cond, t.notT(a.c)))
            return
        if isinstance(b, CondV):
            self.compare(a, b.a, path, mul(cond, b.c))
            self.compare(a, b.b, path, mul(cond, t.notT(b.c)))
            return
        if isinstance(a, T) and isinstance(b, T):
            self.leaf(a, b, path, cond)
            return
        if isinstance(a, T) and isinstance(b, Arr) and b.ndim == 0:
            return self.leaf(a, self.B.num(b.get(())), path, cond)
        if isinstance(b, T) and isinstance(a, Arr) and a.ndim == 0:
            return self.leaf(self.A.num(a.get(())), b, path, cond)
        if isinstance(a, (tuple, PyList)) or isinstance(b, (tuple, PyList)):
            ia, ib = self.items(a), self.items(b)
            if ia is not None and ib is not None:
                if len(ia) != len(ib):
                    return self.fail(path, cond, "%d items instead of %d" % (len(ia), len(ib)))
                for i, (x, y) in enumerate(zip(ia, ib)):
                    self.compare(x, y, "%s[%d]" % (path, i), cond)
                return
            aa, bb = self.A.arr(self.unnorm(a)), self.B.arr(self.unnorm(b))
            if aa is None or bb is None:
                return self.fail(path, cond, "different kinds of value: %s / %s" % (kind(a), kind(b)))
            a, b = aa, bb
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.arrs(a, b, path, cond)
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if list(a.items) != list(b.items):
                return self.fail(path, cond, "keys %s instead of %s" % (list(a.items), list(b.items)))
            for k in a.items:
                self.compare(a.items[k], b.items[k], "%s[%r]" % (path, k), cond)
            return
        if a is None and b is None:
            return
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, Ext) and isinstance(b, Ext):
            if a != b:
                self.fail(path, cond, "%r instead of %r" % (a, b))
            else:
                self.stats["congruent"] += 1
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.A.content(a), self.B.content(b)
            if isinstance(ca, Inst) and isinstance(cb, Inst):
                if ca.cls.name != cb.cls.name:
                    return self.fail(path, cond, "instance of %s instead of %s" % (ca.cls.name, cb.cls.name))
                fa = {k[2]: v for k, v in self.A.st.items() if k[0] == "a" and k[1] == a.id}
                fb = {k[2]: v for k, v in self.B.st.items() if k[0] == "a" and k[1] == b.id}
                for k in fb:
                    if k not in fa:
                        self.fail(path + "." + k, cond, "attribute missing")
                    else:
                        self.compare(fa[k], fb[k], path + "." + k, cond)
                return
            if a is b or a.id == b.id:
                return
        if isinstance(a, Undef) and isinstance(b, Undef):
            return
        self.fail(path, cond, "different kinds of value: %s / %s" % (kind(a), kind(b)))

    def unnorm(self, v):
        return tuple(v.items) if isinstance(v, PyList) else v

    def items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            return list(v.items)
        return None

    def arrs(self, a, b, path, cond):
        if len(a.shape) != len(b.shape):
            # a length-1 axis of an inner scalar is not interchangeable: report
            return self.fail(path, cond, "%d-dimensional instead of %d-dimensional" % (len(a.shape), len(b.shape)))
        n0 = len(self.diffs)
        for d, (x, y) in enumerate(zip(a.shape, b.shape)):
            if a.filt is None or d:
                self.leaf(x, y, "%s.shape[%d]" % (path, d), cond)
        if len(self.diffs) > n0:
            return
        mark = len(self.bvs)
        idx = []
        for x in b.shape:
            c = t.cval(x)
            if c is not None and c == 1:
                idx.append(ZERO)
                continue
            at = t.fresh_bv(x, tag="q")
            idx.append(t.atomT(at))
            self.bvs.append((at.id, x))
        idx = tuple(idx)
        if (a.filt is None) != (b.filt is None):
            return self.fail(path, cond, "selection of elements instead of all elements" if a.filt else "all elements instead of a selection")
        if a.filt is not None:
            fa, fb = self.A.num(mk(a.filt(idx[:1]))), self.B.num(mk(b.filt(idx[:1])))
            self.leaf(fa, fb, path + " selection", cond)
            cond = mul(cond, fb)
        self.compare(a.get(idx), b.get(idx), path + "[.]", cond)
        del self.bvs[mark:]

    # ------------------------------------------------------------ leaves
    def leaf(self, x, y, path, cond):
        if x is y:
            self.stats["congruent"] += 1
            return
        if cond is not ONE:
            if ite(cond, x, ZERO) is ite(cond, y, ZERO):
                self.stats["congruent"] += 1
                return
        self.sample(x, y, path, cond)

    def fail(self, path, cond, why):
        """structural disagreement under cond"""
        if cond is ONE:
            self.diffs.append(Diff(path, why))
            return
        p = self.reach(cond)
        if p is not None:
            self.diffs.append(Diff(path, why, point=p))

    def point(self, seed):
        """the evaluator of a sample point; what it has computed is kept as long as no bound variable is free"""
        if self.bvs:
            return Pt(seed, self.dom)
        ev = self.dom.pts.get(seed)
        if ev is None or len(ev.memo) > 400000 or ev.bv:
            if len(self.dom.pts) > 64:
                self.dom.pts.clear()
            ev = self.dom.pts[seed] = Pt(seed, self.dom)
        ev.budget = 400000
        ev.bnd, ev.st, ev.bv, ev.frame, ev.fsyms = {}, {}, {}, 0, frozenset()
        if ev.isinf_free:
            ev.isinf_free = False
            ev.memo.clear()
            ev.smemo.clear()
        return ev

    def points(self):
        """yield evaluators at valid sample points"""
        got = tried = 0
        seed = SEED0
        while got < self.npoints and tried < self.npoints * 12:
            seed += 1
            tried += 1
            ev = self.point(seed)
            try:
                ok = all(ev.ev(c) == 1 for c in self.dom.assume)
                if not ok:
                    continue
                bad = False
                for aid, ext in self.bvs:
                    n = ev.intval(ext) if ext is not None else 5
                    if n <= 0:
                        bad = True
                        break
                    u = ev.u("bv", len(ev.bv))
                    ev.bv[aid] = D(0 if seed % 5 == 0 else int(u * n))
                if bad:
                    continue
            except numev.Skip:
                continue
            got += 1
            yield ev

    def reach(self, cond):
        seen = 0
        for ev in self.points():
            try:
                v = ev.ev(cond)
            except (numev.Skip, numev.Budget, RecursionError):
                continue
            seen += 1
            if v == 1:
                return ev.describe() or "every input"
        if not seen:
            raise Undecided("no sample point reaches the condition %s" % short(cond))
        return None

    def index_events(self, events):
        """every element access whose index is not in range by construction: evaluated at the sample points.
        returns [(file, line, point)] of accesses outside the array, number decided"""
        bad, done, seen = [], 0, set()
        for pc, kind_, v, f, node in events:
            if kind_ != "index":
                continue
            x, n = v
            k = (pc.id, x.id, n.id)
            if k in seen:
                continue
            seen.add(k)
            bvs, todo, ok = {}, [pc, x, n], True
            while todo and ok:
                for d in todo.pop().deps:
                    a = t.ATOMS[d]
                    if a.kind == "sym" and str(a.args[0]).startswith("#"):
                        ok = False
                        break
                    if a.kind == "bv" and d not in bvs:
                        bvs[d] = a.ext
                        if isinstance(a.ext, T):
                            todo.append(a.ext)
            if not ok:
                continue
            # extents first
            order, left = [], dict(bvs)
            while left:
                free = [d for d, e in left.items() if not isinstance(e, T) or not any(q in left for q in e.deps)]
                if not free:
                    break
                for d in free:
                    order.append((d, left.pop(d)))
            if left:
                continue
            self.bvs, got = order, 0
            for ev in self.points():
                try:
                    if ev.ev(pc) != 1:
                        continue
                    xv, nv = ev.ev(x), ev.ev(n)
                except (numev.Skip, numev.Budget, RecursionError):
                    continue
                if xv.is_nan() or nv.is_nan():
                    continue
                got += 1
                if not -nv <= xv < nv:
                    bad.append((f, getattr(node, "lineno", 0), "index %s of %s; %s" % (dshort(xv), dshort(nv), ev.describe())))
                    break
            done += got > 0
            self.bvs = []
        return bad, done

    def sample(self, x, y, path, cond):
        ok = skipped = off = 0
        rnd = has_isinf(x, {}) and has_isinf(y, {})
        for ev in self.points():
            if ev.isinf_free != rnd:
                ev.isinf_free = rnd
                ev.memo.clear()
                ev.smemo.clear()
            try:
                if cond is not ONE and ev.ev(cond) != 1:
                    off += 1
                    continue
                # points at which some guard is undefined are not compared
                a, b = ev.ev(x), ev.ev(y)
            except numev.Skip:
                skipped += 1
                continue
            except (numev.Budget, RecursionError):
                skipped += 1
                if skipped > 6 and not ok:
                    break
                continue
            tol = self.dom.tol or D("1e-15")
            if a.is_nan() or b.is_nan():
                if a.is_nan() and b.is_nan():
                    skipped += 1
                    continue
                if not self.nanguard and not self.dom.strict:
                    # 0/0 at a degenerate point: the real-number semantics is undefined there
                    skipped += 1
                    continue
            if not numev.close_to(a, b, tol) and ev.junk:
                # do values from before the first iteration leak into the result?
                ev.salt += 1
                ev.memo.clear()
                ev.smemo.clear()
                try:
                    a2, b2 = ev.ev(x), ev.ev(y)
                except (numev.Skip, numev.Budget, RecursionError):
                    a2 = b2 = numev.NAN
                if not numev.close_to(a, a2, tol) or not numev.close_to(b, b2, tol):
                    skipped += 1
                    continue
            if not numev.close_to(a, b, tol):
                idx = [int(v) for v in ev.bv.values()]
                self.diffs.append(Diff(path.replace("[.]", "[%s]" % ",".join(map(str, idx)) if idx else "[.]"),
                                       "values differ: %s instead of %s" % (dshort(a), dshort(b)), x, y,
                                       ev.describe()))
                return
            ok += 1
        self.stats["points"] += ok
        self.stats["skipped"] += skipped
        if ok:
            self.stats["sampled"] += 1
        elif off and not skipped:
            self.stats["sampled"] += 1
        else:
            raise Undecided("%s: %s vs %s cannot be compared (%d points skipped)" % (path, short(x), short(y), skipped))


def mk(v):
    return v


def kind(v):
    if isinstance(v, T):
        return "number"
    if isinstance(v, Arr):
        return "array of rank %d" % v.ndim
    if v is None:
        return "None"
    return type(v).__name__
