"""Records of the native forest analysis, arranged per thread (shared by P13-P16)."""
import math
import re
from sa import cpath as C
from sa.lin import P, P_, entails, infeasible, sym
from sa.terms import Undecided
from checks import libnat as N


def forests(c, counts, faults=False):
    """entries of every extension that starts threads, one per worker count, with their path records"""
    out = []
    for nm, src in N.modules(c.repo):
        m = C.M(c.repo, src)
        if not N.uses_threads(m):
            continue
        for py, cn in sorted(m.table.items()):
            for w in counts:
                e = N.explore(c.repo, nm, src, py, cn, {"workers": w, "keep": True, "noinject": not faults})
                e.w = w
                for wm in e.unsure:
                    c.unsure("%s with %d workers: path" % (py, w), wm[0], wm[1])
                for wh, f in e.stats["fns"]:
                    c.seen("%s %s" % (wh, f))
                out.append(e)
    if not out:
        raise Undecided("no extension starts worker threads")
    return out


def iterations(log):
    """(thread, loop node, k, guard, records up to the end of the iteration or None when it is not reached)"""
    out, stack = [], []
    for i, r in enumerate(log):
        if r[0] == "iter":
            stack.append((i, r))
        elif r[0] == "iterend":
            for j in range(len(stack) - 1, -1, -1):
                if stack[j][1][1] is r[1] or stack[j][1][1].get("id") == r[1].get("id"):
                    i0, q = stack.pop(j)
                    out.append((q[4], q[1], q[2], q[3], log[i0 + 1:i], True))
                    break
    for i0, q in stack:
        out.append((q[4], q[1], q[2], q[3], log[i0 + 1:], False))
    return out


def one(p):
    s = list(p.syms())
    return s[0] if len(s) == 1 and p == sym(s[0]) else None


def split(idx, k):
    """index = base + step * k"""
    s = one(k)
    step = idx.m.get((s,), 0)
    base = idx - sym(s) * step if s else idx
    if s is None or s in base.syms():
        return None, None
    return base, step


def rename(p, k, t):
    s = one(k)
    return p.subst({s: sym("%s of worker %s" % (s, t))})


def eq(facts, a, b):
    return entails(facts, a - b) and entails(facts, b - a)


# ---------------------------------------------------------------- trees
class Iter:
    """one iteration of a loop of the growing function"""


class Split:
    """a path of the growing function that builds a node, with the nested calls it makes (none for a leaf)"""


class Grow:
    """the growing function: recursive over a container of observations"""

    def __init__(self, name, d):
        self.name, self.d = name, d
        self.tops, self.iters, self.splits = [], [], []


class Score:
    """the scoring function: recursive over nodes, returns a number"""

    def __init__(self, name, d):
        self.name, self.d = name, d
        self.tops, self.routes, self.leaves = [], [], []


class Call:
    pass


def calls(e):
    """path records after the first call of each recursive function"""
    for log in e.logs:
        for i, r in enumerate(log):
            if r[0] == "top":
                q = Call()
                q.log, q.i, q.name, q.actual, q.vals, q.node, q.snap, q.d = log, i, r[1], r[2], r[3], r[4], r[5], r[6]
                q.before, q.after = log[:i], log[i + 1:]
                yield q


def trees(e):
    """(growing functions, scoring functions)"""
    grow, score = {}, {}
    for q in calls(e):
        pv = [j for j, v in enumerate(q.vals) if isinstance(v, C.Vec)]
        ret = q.d.qtype.split("(")[0].strip()
        if pv and ret == "void":
            g = grow.setdefault(q.name, Grow(q.name, q.d))
            g.pv = pv[0]
            growpath(e, g, q)
        elif ret in ("double", "float") or ret.endswith("DataType"):
            s = score.setdefault(q.name, Score(q.name, q.d))
            scorepath(e, s, q)
    return grow, score


def fieldof(a):
    """(owner, field) of a reference argument that is a child of a node"""
    if isinstance(a, C.FieldLV):
        return a.o, a.name
    return None


def growpath(e, g, q):
    V = q.vals[g.pv]
    g.V = V.tag
    g.vals = q.vals
    g.tops.append(q)
    its = iterations(q.after)
    inner = [x for x in its]
    if inner:
        # the path ends with this iteration
        t, node, k, guard, recs, ended = inner[-1]
        if not ended:
            return
        j = next(i for i, r in enumerate(q.after) if r[0] == "iter" and r[2] == k)
        end = next((r for r in q.after[j:] if r[0] == "iterend" and r[2] == k), None)
        x = Iter()
        x.node, x.k, x.guard, x.recs, x.snap, x.pre = node, k, guard, recs, end[4] if end else None, q.after[:j]
        x.where = e.m.where(node)
        x.vals = q.vals
        g.iters.append(x)
        return
    done = any(r[0] == "iterend" for r in q.after) or any(r[0] in ("ret", "slot") for r in q.after)
    recs = [r for r in q.after if r[0] == "rec" and r[1] == g.name]
    news = [r for r in q.after if r[0] == "new"]
    if not done and not recs:
        return
    x = Split()
    x.recs, x.news, x.after, x.vals, x.q = recs, news, q.after, q.vals, q
    x.done = done
    g.splits.append(x)


def scorepath(e, s, q):
    s.tops.append(q)
    s.vals = q.vals
    rets = [r for r in q.after if r[0] == "ret" and r[1].name == s.name]
    if not rets:
        return
    rt = rets[-1]
    x = Split()
    j = q.after.index(rt)
    body = q.after[:j]
    x.nodes = [r for r in body if r[0] == "node"]
    x.recs = [r for r in body if r[0] == "rec" and r[1] == s.name]
    x.value, x.snap, x.vals, x.ret, x.body = rt[2], rt[4], q.vals, rt, body
    (s.routes if x.recs else s.leaves).append(x)


# ---------------------------------------------------------------- roles
SHARED = re.compile(r"^(array\(|arg:|itemsize\(|OB$|off\(|int|\(|[A-Z]\w*\.\w+$)")


def private(s):
    return not SHARED.match(s) or "@" in s or "len(" in s or s.startswith("?")


class Ren:
    """renaming of the symbols of a path to the roles they play"""

    def __init__(self, m, subst=None, dterm=None, offs=None, own=""):
        self.own = own                # prefix of the symbols that only mean something on this path
        self.m, self.subst, self.dterm, self.offs = m, dict(subst or {}), dict(dterm or {}), dict(offs or {})
        self.atoms = {}
        self.memo = {}

    def ptr(self, p):
        o = getattr(p.o, "name", "?")
        k = (o, p.off.key())
        if k in self.offs:
            return (o, self.offs[k].key())
        return (o, self.P(p.off).key())

    def atom(self, s):
        if s in self.memo:
            return self.memo[s]
        fn, ps, w = self.m.strs[s]
        if any(not isinstance(p, C.Ptr) for p in ps):
            raise Undecided("%s of something else than array elements" % fn)
        qs = [self.ptr(p) for p in ps]
        w2 = None if w is None else self.P(w)
        sign = 1
        if len(qs) == 2 and str(qs[0]) > str(qs[1]):
            qs, sign = [qs[1], qs[0]], -1
        nm = "%s(%s;%r)" % (fn, ";".join("%s+%r" % (o, P(dict(k))) for o, k in qs), w2)
        self.atoms[nm] = (fn, tuple(qs), w2)
        r = self.memo[s] = sym(nm) * sign
        return r

    def P(self, p):
        strs = getattr(self.m, "strs", {})
        if not self.own and not any(s in self.subst or s in strs for s in p.syms()):
            return p
        r = P_(0)
        for mono, c in p.m.items():
            t = P_(c)
            for s in mono:
                t = t * (self.subst[s] if s in self.subst else self.atom(s) if s in strs else sym(self.own + s if self.own and private(s) else s))
            r = r + t
        return r

    def T(self, t):
        if t in self.dterm:
            return self.dterm[t]
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "ld":
            return (t[0], t[1]) + tuple(tuple(self.key(k) for k in x) if isinstance(x, tuple) else x for x in t[2:])
        if t[0] == "i":
            return ("i", self.P(t[1]))
        return tuple(self.T(x) if isinstance(x, tuple) else x for x in t)

    def key(self, x):
        """a polynomial kept as its key"""
        try:
            return self.P(P(dict(x))).key()
        except (TypeError, ValueError):
            return x

    def snap(self, sn):
        facts, nan, rel = sn
        out, seen = [], set()
        for f in facts:
            f = self.P(f)
            if f.const() is not None and f.const() >= 0:
                continue
            k = f.key()
            if k not in seen:
                seen.add(k)
                out.append(f)
        n2 = {self.T(t): v for t, v in nan.items()}
        r2 = {}
        for (a, b), s in rel.items():
            a, b = self.T(a), self.T(b)
            if str(a) > str(b):
                a, b = b, a
                s = {{"<": ">", ">": "<"}.get(z, z) for z in s}
            r2[(a, b)] = r2.get((a, b), {"<", "=", ">", "u"}) & set(s)
        return out, n2, r2


def together(*snaps):
    """facts of several paths about the same thing, or None when they exclude each other"""
    facts, nan, rel = [], {}, {}
    seen = set()
    for f, n, r in snaps:
        for x in f:
            if x.key() not in seen:
                seen.add(x.key())
                facts.append(x)
        for t, v in n.items():
            if nan.setdefault(t, v) != v:
                return None
        for k, s in r.items():
            rel[k] = rel.get(k, {"<", "=", ">", "u"}) & set(s)
    for (a, b), s in list(rel.items()):
        na = isnan(nan, a)
        nb = isnan(nan, b)
        if na or nb:
            s = s & {"u"}
        elif na is False and nb is False:
            s = s - {"u"}
        if not s:
            return None
        rel[(a, b)] = s
    for t, v in nan.items():
        if isnan({}, t) is not None and isnan({}, t) != v:
            return None
    if infeasible(facts):
        return None
    return facts, nan, rel


def isnan(nan, t):
    if t[0] == "c":
        return t[1] != t[1]
    if t[0] == "i":
        return False
    return nan.get(t)


def owner(a):
    f = fieldof(a)
    return f[1] if f else None


def child(r):
    """name of the child a nested call goes to"""
    for a in r[5]:
        f = fieldof(a)
        if f:
            return f
    for a in r[2]:
        f = fieldof(a)
        if f:
            return f
    return None


# ---------------------------------------------------------------- values of extracted terms


FN = {"+": lambda a, b=None: a if b is None else a + b, "-": lambda a, b=None: -a if b is None else a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
      "log": math.log, "log2": math.log2, "log10": math.log10, "log1p": math.log1p, "exp": math.exp, "exp2": lambda x: 2.0 ** x, "sqrt": math.sqrt, "ceil": math.ceil, "floor": math.floor,
      "fabs": abs, "abs": abs, "pow": lambda a, b: a ** b, "ldexp": math.ldexp, "trunc": math.trunc, "round": round, "max": max, "min": min, "fmax": max, "fmin": min}


def value(m, t, env):
    """number of a term; raises Undecided when a part has no value in env"""
    if isinstance(t, C.Dbl):
        t = t.t
    if isinstance(t, P):
        r = 0
        for mono, c in t.m.items():
            x = c
            for s in mono:
                x = x * symvalue(m, s, env)
            r += x
        return r
    if t in env:
        return env[t]
    if t[0] == "c":
        return t[1]
    if t[0] == "i":
        return float(value(m, t[1], env))
    if t[0] == "f":
        f = FN.get(t[1].split("::")[-1].replace("__builtin_", ""))
        if f is None:
            raise Undecided("value of %s" % t[1])
        xs = [value(m, x, env) for x in t[2:]]
        try:
            return f(*xs)
        except (ValueError, ZeroDivisionError, OverflowError):
            if t[1] == "log" and xs[0] == 0:
                return -math.inf
            return math.nan
    raise Undecided("value of %s" % (t,))


def symvalue(m, s, env):
    if s in env:
        return env[s]
    t = getattr(m, "intterms", {}).get(s)
    if t is not None:
        return int(value(m, t, env))
    raise Undecided("value of %s" % s)


def syms(m, t, seen=None):
    """symbols of a term"""
    if hasattr(t, "t") and isinstance(t, C.Dbl):
        t = t.t
    if isinstance(t, P):
        out = set()
        for s in t.syms():
            it = getattr(m, "intterms", {}).get(s)
            out |= syms(m, it) if it is not None else {s}
        return out
    if isinstance(t, tuple):
        out = set()
        for x in t[1:]:
            if isinstance(x, (tuple, P)):
                out |= syms(m, x)
        return out
    return set()
