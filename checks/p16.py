"""P16: anomaly scores follow the published formula and keep row order."""
import ast
import math
import re
from sa.ctx import *
from sa import cpath as C
from sa.lin import P, P_, entails, infeasible, sym
from sa.terms import Undecided
from checks import libforest as F, libpyfor as Y, p14, p15

GAMMA = 0.5772156649015329


def norm(n):
    return 2 * (math.log(n - 1) + GAMMA) - 2 * (n - 1) / n


def close(a, b):
    return a == b or isinstance(a, (int, float)) and not math.isnan(a) and abs(a - b) <= 1e-6 * max(1.0, abs(b))


def run(c):
    c.rule("From the paths of the native forest: the value of the scoring function at a leaf is the depth (plus c(n) for a leaf of n > 1 observations, n being the number of observations the "
           "growing function was given there), every step down adds one, the sum over every slot of the container of trees starts at 0, and the value stored in slot i of the scores is "
           "2^(-(sum/forest_size)/c(tree_size)) with the sum for observation i, which is written to element i of the result array. From the Python function: the arrays passed hold every numeric and "
           "string column of the frame except the excluded ones, one column per row in the frame's order, and the result array comes back with the frame's index and the requested name.")
    es = c.attempt("native forest", "setup.py", lambda: F.forests(c, (1,)))
    for e in es or []:
        c.attempt("%s" % e.py, e.where, lambda e=e: entry(c, e))


def entry(c, e):
    grow, score = F.trees(e)
    if not score:
        raise Undecided("no recursive function that scores an observation")
    pos = Y.positions(c, e)
    for nm, s in sorted(score.items()):
        c.attempt("path length %s" % nm, e.m.where(s.d), lambda s=s: length(c, e, s, grow, p14.role(e, pos, "tree_size")))
        c.attempt("average of %s" % nm, e.m.where(s.d), lambda s=s: average(c, e, s, pos))
    c.attempt("scores written to the result", e.where, lambda: result(c, e))
    c.attempt("frame passed to %s" % e.py, e.where, lambda: python(c, e))


# ---------------------------------------------------------------- path length
def lengths(s):
    """index of the argument that counts the steps, with the step, or (None, 0)"""
    obs = p15.observation(s)
    out = set()
    for j, v in enumerate(s.vals):
        if j == obs or not isinstance(p15.deref(v), P):
            continue
        for x in s.routes:
            for r in x.recs:
                a, b = p15.deref(r[2][j]), p15.deref(x.vals[j])
                d = (a - b).const() if isinstance(a, P) and isinstance(b, P) else None
                out.add((j, d))
    js = {j for j, d in out}
    if not js:
        return None, {0}
    if len(js) > 1:
        raise Undecided("several numbers are passed down by %s" % s.name)
    return js.pop(), {d for j, d in out}


def length(c, e, s, grow, ts):
    m = e.m
    j, ds = lengths(s)
    what = "step of %s" % s.name
    wh = m.where(s.d)
    if not s.routes or not s.leaves:
        raise Undecided("paths of %s" % s.name)
    bad = {}
    used = set()
    for x in s.leaves:
        L = F.one(p15.deref(x.vals[j])) if j is not None else None
        if j is not None and L is None:
            raise Undecided("depth argument")
        used.add(leaf(m, x, L, bad))
    if len(used - {None}) > 1:
        bad.setdefault("some leaves count their depth, others do not", wh)
    uses = True in used
    steps = 0
    for x in s.routes:
        if len(x.recs) != 1:
            raise Undecided("a path of %s makes %d nested calls" % (s.name, len(x.recs)))
        r = x.recs[0]
        d = 0
        L = None
        if j is not None:
            a, b = p15.deref(r[2][j]), p15.deref(x.vals[j])
            L = F.one(b)
            d = (a - b).const()
            if d is None:
                raise Undecided("depth passed to the nested call")
        R = ("rec", s.name)
        for l, v in ((3, 7.5), (5, 11.25), (8, 9.0)):
            env = {R: v}
            if L:
                env[L] = l
            got = F.value(m, x.value, env)
            add = got - v + (d if uses else 0)
            if not close(add, 1):
                bad.setdefault("a step down to a child adds %s to the path length, not 1" % round(add, 6), m.where(r[3]))
                break
        steps += 1
    for msg, w in sorted(bad.items()):
        c.fail("path length of %s" % s.name, w, msg)
    if not bad:
        c.ok("path length of %s" % s.name, wh, "%d leaf paths: depth, plus c(n) for leaves of n > 1 observations; %d paths step down by one" % (len(s.leaves), steps))
    # the size of the leaf is that of the container it was built from
    fields = set()
    for x in s.leaves:
        for t in F.syms(m, x.value):
            if "." in t and t.split(".")[0][:1].isupper():
                fields.add(t)
    probs, n = {}, 0
    for nm, g in sorted(grow.items()):
        for x in g.splits:
            if x.recs:
                continue
            for r in x.news:
                size = x.vals[g.pv].size
                facts = r[5][0] if len(r) > 5 else ()
                if infeasible(list(facts) + [ts - size]):
                    continue                       # no node holds more than the sample of its tree (P14)
                for fld in fields:
                    cls, f = fld.split(".", 1)
                    if r[1] != cls or f not in r[2].f:
                        continue
                    v = r[2].f[f]
                    n += 1
                    if not isinstance(v, P):
                        raise Undecided("%s of a leaf" % fld)
                    if not F.eq(facts, v, size):
                        probs.setdefault("a leaf stores %r as %s, not the number of its observations" % (v, fld), m.where(r[3]))
    for msg, w in sorted(probs.items()):
        c.fail("size of a leaf", w, msg)
    if not probs:
        if not n:
            raise Undecided("field that holds the size of a leaf")
        c.ok("size of a leaf", wh, "%s is the number of observations the leaf was built from (%d paths)" % (", ".join(sorted(fields)), n))


def leaf(m, x, L, bad):
    """checks the value of a leaf path; whether it counts the depth (None: does not show)"""
    facts = x.snap[0]
    ns = sorted({t for t in list(F.syms(m, x.value)) + [t for f in facts for t in f.syms()] if t != L and "." in t and t.split(".")[0][:1].isupper() and isint(facts, t)})
    got = None
    names = [t for t in F.syms(m, x.value) if t != L]
    if len(names) > 1:
        raise Undecided("value of a leaf")
    if not names:
        names = [t for t in ns if any(abs(f.m.get((t,), 0)) == 1 and len(f.syms()) == 1 for f in facts)]
    if len(names) > 1:
        names = [t for t in names if entailsupper(facts, t)]
        if len(names) > 1:
            raise Undecided("size of a leaf")
    N = names[0] if names else None
    if N is not None and infeasible(list(facts) + [sym(N)]):
        return None                                # no container has a negative size
    wh = m.where(x.ret[1])
    uses = None
    some = False
    for n in list(range(0, 40)) + [63, 64, 255, 256, 1000, 10 ** 5, 10 ** 7]:
        if N is not None and infeasible(list(facts) + [sym(N) - n, P_(n) - sym(N)]):
            continue
        some = True
        want = 0.0 if n <= 1 else norm(n)
        vs = []
        for l in (0, 1, 6):
            env = {L: l} if L else {}
            if N is not None:
                env[N] = n
            vs.append(F.value(m, x.value, env) - want)
        if all(close(v, 0) for v in vs):
            u = False
        elif all(close(v, l) for v, l in zip(vs, (0, 1, 6))):
            u = True
        else:
            msg = "a leaf of %s at depth 6 has path length %s, not %s" % ("%d observations" % n if N else "any number of observations", round(vs[2] + want, 6), round(6 + want, 6))
            bad.setdefault(msg, wh)
            return None
        if uses is not None and uses != u:
            bad.setdefault("leaves do not all count their depth", wh)
            return None
        uses = u
    if not some:
        raise Undecided("sizes of a leaf")
    return uses


def isint(facts, t):
    return any(t in f.syms() for f in facts)


def entailsupper(facts, t):
    return entails(facts, 1 - sym(t)) or entails(facts, sym(t) - 2)


# ---------------------------------------------------------------- average
def loopof(its, node):
    return [x for x in its if x[1] is node or x[1].get("id") == node.get("id")]


def average(c, e, s, pos):
    m = e.m
    fs, ts = p14.role(e, pos, "forest_size"), p14.role(e, pos, "tree_size")
    obs = p15.observation(s)
    j, ds = lengths(s)
    bad, w, sums = {}, {}, {}
    n = 0
    rows = set()
    for log in e.logs:
        tops = [i for i, r in enumerate(log) if r[0] == "top" and r[1] == s.name]
        if not tops:
            continue
        i = tops[0]
        q = log[i]
        rets = [r for r in log[i:] if r[0] == "ret" and r[1].name == s.name]
        upds = [r for r in log[i:] if r[0] == "upd"]
        if not rets:
            continue
        R = rets[-1][2]
        wh = m.where(q[5] if hasattr(q[5], "kind") else q[4])
        if j is not None:
            a = p15.deref(q[2][j])
            if not isinstance(a, P) or a.const() != 0:
                bad.setdefault("the path length of a tree begins at %r, not 0" % (a,), m.where(q[4]))
        its = [r for r in log[:i] if r[0] == "iter"]
        inner = its[-1]
        # which trees
        el = [r for r in log[:i] if r[0] == "rangeelem" and r[4] is inner[1]]
        accs = []
        for u in upds:
            if u[1] is not inner[1] and u[1].get("id") != inner[1].get("id"):
                continue
            if has(u[4], R) and (isinstance(u[3], C.Dbl) or isinstance(u[4], C.Dbl)):
                accs.append(u)
        if not accs:
            # the path ended before the sum is updated
            if any(r[0] == "iterend" and r[1].get("id") == inner[1].get("id") for r in log[i:]):
                bad.setdefault("no sum over the trees is updated with the path length of a tree", m.where(q[4]))
            continue
        u = accs[0]
        start = [r for r in log[:i] if r[0] == "loopvar" and r[1].get("id") == inner[1].get("id") and r[2] == u[2]]
        if not start:
            raise Undecided("start of the sum over the trees")
        try:
            z = F.value(m, term(start[-1][3]), {})
        except Undecided:
            raise Undecided("start of the sum over the trees")
        if z != 0:
            bad.setdefault("the sum over the trees starts at %s" % z, m.where(inner[1]))
        head = term(start[-1][4])
        ws = set()
        F_, T_ = F.one(fs), F.one(ts)
        for f0, t0 in ((100, 64), (7, 256)):
            for u0, r0 in ((0.0, 1.0), (5.0, 1.0), (5.0, 4.0)):
                base = F.value(m, term(u[4]), {head: u0, F_: f0, T_: t0, term(R): r0})
                ws.add((f0, t0, round((base - u0) / r0, 12)))
        by = {}
        for f0, t0, x in ws:
            by.setdefault((f0, t0), set()).add(x)
        if any(len(v) > 1 for v in by.values()):
            bad.setdefault("the update is no sum of path lengths", m.where(u[1]))
            continue
        w = {k: v.pop() for k, v in by.items()}
        sums[(u[2], u[1].get("id"))] = (w, head, u)
        # every tree, once
        if el:
            v, facts = el[-1][1], q[5][0] if not hasattr(q[5], "kind") else q[6][0]
            if not F.eq(facts, v.size, fs):
                bad.setdefault("the sum is over %r trees, not forest_size" % v.size, m.where(inner[1]))
            if el[-1][3] is not None and F.one(el[-1][3] if isinstance(el[-1][3], P) else P_(0)) is None:
                raise Undecided("tree of an iteration")
        else:
            k, guard = inner[2], inner[3]
            facts = q[5][0] if not hasattr(q[5], "kind") else q[6][0]
            ix = treeindex(q, k)
            if ix is None:
                raise Undecided("tree that an iteration looks at")
            d = p14_domain(m, ix, k, guard, facts, fs)
            if d is not True:
                bad.setdefault("the sum visits trees %r to %r (exclusive) of forest_size" % d, m.where(inner[1]))
        # the observation: that of the slot
        o = p15.deref(q[2][obs])
        outer = [r for r in its[:-1] if F.one(r[2]) and isinstance(o, P) and F.one(r[2]) in o.syms()]
        if not outer:
            outer = its[:-1]
        if not outer or not isinstance(o, P):
            raise Undecided("observation that is scored")
        rows.add((outer[-1][1].get("id"), o.key()))
        n += 1
    if not n and not bad:
        raise Undecided("no loop adds up the path lengths of the trees")
    slots(c, e, s, sums, rows, fs, ts, bad)


def has(t, R):
    t, R = term(t), term(R)
    if t == R:
        return True
    return isinstance(t, tuple) and any(has(x, R) for x in t if isinstance(x, tuple))


def term(x):
    if isinstance(x, C.Dbl):
        return x.t
    if isinstance(x, P):
        return ("i", x)
    return x


def treeindex(q, k):
    """index into the container of trees on the way to the node passed"""
    s = F.one(k)
    for a in q[2]:
        o = F.fieldof(a)
        if o and o[0].name and "[" in o[0].name:
            t = o[0].name[o[0].name.index("[") + 1:o[0].name.rindex("]")]
            if t == s:
                return sym(s)
            if s and re.fullmatch(re.escape(s) + r" [+-] \d+", t):
                return sym(s) + int(t[len(s):].replace(" ", ""))
    return None


def p14_domain(m, ix, k, guard, facts, size):
    base, step = F.split(ix, k)
    if base is None or step not in (1, -1):
        raise Undecided("trees that the loop visits")
    import checks.p13 as p13
    end = p13.hi(base, step, k, guard)
    lo, hi = (base, end) if step == 1 else (end, base + 1)
    if F.eq(facts, lo, P_(0)) and F.eq(facts, hi, size):
        return True
    return (lo, hi)


def slots(c, e, s, sums, rows, fs, ts, bad):
    m = e.m
    n = 0
    F_, T_ = F.one(fs), F.one(ts)
    where = None
    for log in e.logs:
        for i, r in enumerate(log):
            if r[0] != "slot" or not isinstance(r[3], C.Dbl):
                continue
            heads = [(k, v) for k, v in sums.items() if any(x[0] == "loopvar" and x[2] == k[0] and x[1].get("id") == k[1] for x in log[:i])]
            if not heads:
                continue
            (var, lid), (w, head0, u) = heads[-1]
            lv = [x for x in log[:i] if x[0] == "loopvar" and x[2] == var and x[1].get("id") == lid][-1]
            head = term(lv[4])
            if not has(r[3], head):
                continue
            where = m.where(r[4]) if hasattr(r[4], "kind") else None
            n += 1
            for f0, t0 in w:
                if infeasible(list(r[5]) + [fs - f0, P_(f0) - fs, ts - t0, P_(t0) - ts]):
                    continue
                for S in (0.0, 3.5 * f0, 8.0 * f0, 20.0 * f0):
                    got = F.value(m, r[3].t, {**{q: 1000 for q in F.syms(m, r[3].t) if q.startswith("array(")}, head: w[(f0, t0)] * S, F_: f0, T_: t0})
                    want = 2.0 ** (-(S / f0) / norm(t0))
                    if not close(got, want):
                        bad.setdefault("with %d trees of %d observations and an average path length of %s the score is %s, not %s" % (f0, t0, S / f0, round(got, 6), round(want, 6)), where)
            # the row
            it = [x for x in log[:i] if x[0] == "iter"]
            o = [k for k in rows if any(x[1].get("id") == k[0] for x in it)]
            if not o:
                raise Undecided("row of a score")
            for lid2, key in o:
                if P(dict(key)) != r[2]:
                    bad.setdefault("slot %r of the scores gets the score of observation %r" % (r[2], P(dict(key))), where)
    for msg, w2 in sorted(bad.items()):
        c.fail("score of a row", w2, msg)
    if not bad:
        if not n:
            raise Undecided("no value stored in a container depends on the sum over the trees")
        c.ok("score of a row", where, "%d paths: 2^(-(sum over all trees / forest_size) / c(tree_size)), for the observation of the slot" % n)


# ---------------------------------------------------------------- result array
def result(c, e):
    m = e.m
    n = p14.nobs(e)
    bad, ok = {}, 0
    wh = e.where
    for log in e.logs:
        for i, r in enumerate(log):
            if r[0] != "memstore":
                continue
            its = [x for x in log[:i] if x[0] == "iter"]
            ptr, val, node, snap = r[1], r[2], r[3], r[4]
            wh = m.where(node)
            if not its:
                raise Undecided("element of the result written outside a loop")
            k, guard = its[-1][2], its[-1][3]
            ks = F.one(k)
            el = [x for x in log[:i] if x[0] == "elemd" and term(x[3]) == term(val)]
            if not el:
                raise Undecided("value written to the result")
            ix = el[-1][2]
            stride = sym("%s.strides[0]" % ptr.o.name)
            st = stride if F.one(stride) in ptr.off.syms() else None
            # offset = stride * index
            want = (stride * ix) if st is not None else None
            if want is None:
                if (ptr.off - ix * 8).const() == 0:
                    pass
                elif F.one(ix) in ptr.off.syms():
                    raise Undecided("element of the result that is written")
                else:
                    bad.setdefault("the score of row %r is written to another element of the result" % ix, wh)
                    continue
            elif ptr.off != want:
                bad.setdefault("the score of row %r is written to offset %r of the result" % (ix, ptr.off), wh)
                continue
            d = p14_domain(m, ix, k, guard, snap[0], n)
            if d is not True:
                bad.setdefault("scores of rows %r to %r (exclusive) of %r are written to the result" % (d + (n,)), wh)
                continue
            if not any(x[0] == "slot" and x[1] == el[-1][1].site for lg in e.logs for x in lg):
                bad.setdefault("the result is written from a container that holds no scores", wh)
                continue
            ok += 1
    for msg, w in sorted(bad.items()):
        c.fail("scores written to the result", w, msg)
    if not bad:
        if not ok:
            raise Undecided("no element of an array is written")
        c.ok("scores written to the result", wh, "element i gets the score of row i, for every row (%d paths)" % ok)


# ---------------------------------------------------------------- Python side
NUM = {("mod", "numpy.number"), ("const", "number"), ("name", "number")}
OBJ = {("name", "object"), ("const", "object"), ("mod", "numpy.object_"), ("const", "O"), ("mod", "builtins.object")}
STR = {("const", "string"), ("call", ("mod", "pandas.StringDtype"), (), ()), ("mod", "pandas.StringDtype")}
DOUBLE = {("mod", "numpy.double"), ("mod", "numpy.float64"), ("name", "float"), ("const", "float64"), ("const", "double"), ("const", "float"), ("const", "d"), ("const", "f8"), ("mod", "numpy.float_")}
NARROW = {("mod", "numpy.float32"), ("mod", "numpy.single"), ("const", "float32"), ("mod", "numpy.float16"), ("mod", "numpy.half"), ("name", "int"), ("mod", "numpy.int64"), ("mod", "numpy.int32"), ("const", "f4")}
BYTES = {("mod", "numpy.string_"), ("mod", "numpy.bytes_"), ("const", "S"), ("name", "bytes"), ("const", "bytes"), ("call", ("mod", "numpy.dtype"), (("const", "S"),), ())}
REORDER = {"sort_values", "sort_index", "sample", "nlargest", "nsmallest", "dropna", "drop_duplicates", "head", "tail", "query", "truncate", "reindex", "shift", "explode"}
VALUES = {"fillna", "replace", "abs", "round", "rank", "clip", "interpolate", "ffill", "bfill", "diff", "cumsum", "pct_change", "mask", "where"}
KEEP = {"copy", "infer_objects"}


class Bad(Exception):
    pass


class Frame:
    def __init__(self, base):
        self.base, self.drops, self.sel, self.T, self.dtype, self.kind = base, [], [], 0, None, "frame"

    def copy(self):
        f = Frame(self.base)
        f.drops, f.sel, f.T, f.dtype, f.kind = list(self.drops), list(self.sel), self.T, self.dtype, self.kind
        return f


def kw(t, *names):
    """argument of a call by position name"""
    d = dict(t[3])
    for i, n in enumerate(names):
        if n in d:
            return d[n]
        if i < len(t[2]) and i == 0:
            return t[2][0]
    return None


def frame(t):
    """what a value is made of, starting from a parameter"""
    if t[0] == "par":
        return Frame(t)
    if t[0] == "attr":
        f = frame(t[1]).copy()
        if t[2] == "T":
            f.T += 1
            return f
        if t[2] == "values":
            f.kind = "array"
            return f
        raise Undecided("attribute %s" % t[2])
    if t[0] == "sub":
        f = frame(t[1]).copy()
        s = t[2]
        if s[0] == "slice":
            if all(x is None for x in s[1:]):
                return f
            raise Bad("rows are selected or reordered by a slice")
        if s[0] == "comp" and s[1] == ("attr", t[1], "columns") and s[2] == ("each", s[1]) and len(s[3]) == 1:
            q = s[3][0]
            if q[0] == "op" and q[1] == "NotIn" and q[2] == s[2]:
                f.drops.append(q[3])
                return f
        raise Undecided("subscript of the frame")
    if t[0] == "call" and t[1][0] == "attr":
        nm = t[1][2]
        b = t[1][1]
        if nm in ("drop", "select_dtypes", "to_numpy", "astype", "transpose", "reset_index", "set_axis", "swapaxes") or nm in REORDER or nm in VALUES or nm in KEEP:
            f = frame(b).copy()
            d = dict(t[3])
            if nm == "drop":
                if d.get("axis") in (("const", 1), ("const", "columns")) and len(t[2]) == 1:
                    f.drops.append(t[2][0])
                elif len(t[2]) == 2 and t[2][1] in (("const", 1), ("const", "columns")):
                    f.drops.append(t[2][0])
                elif "columns" in d and not t[2] and "index" not in d:
                    f.drops.append(d["columns"])
                elif "labels" in d and d.get("axis") in (("const", 1), ("const", "columns")):
                    f.drops.append(d["labels"])
                else:
                    raise Bad("rows are dropped")
                return f
            if nm == "select_dtypes":
                inc = d.get("include", t[2][0] if t[2] else None)
                exc = d.get("exclude", t[2][1] if len(t[2]) > 1 else None)
                f.sel.append((items(inc), items(exc)))
                return f
            if nm in ("to_numpy", "astype"):
                dt = d.get("dtype", t[2][0] if t[2] else None)
                if nm == "to_numpy":
                    f.kind = "array"
                    if "na_value" in d:
                        raise Undecided("na_value")
                if dt is not None:
                    if f.dtype is None or f.dtype == dt:
                        f.dtype = dt
                    elif f.dtype in NARROW or dt in NARROW:
                        f.dtype = dt if dt in NARROW else f.dtype
                    else:
                        f.dtype = dt
                return f
            if nm == "transpose":
                if t[2] or t[3]:
                    raise Undecided("transpose")
                f.T += 1
                return f
            if nm in KEEP:
                return f
            if nm in REORDER:
                raise Bad("rows are selected or reordered by %s" % nm)
            if nm in VALUES:
                raise Bad("values are changed by %s" % nm)
            raise Undecided(nm)
        raise Undecided("call of %s" % nm)
    if t[0] == "call" and t[1][0] == "mod":
        nm = t[1][1].split(".")[-1]
        if nm in ("ascontiguousarray", "asarray", "array", "require", "asfortranarray") and t[2]:
            f = frame(t[2][0]).copy()
            dt = dict(t[3]).get("dtype", t[2][1] if len(t[2]) > 1 else None)
            f.kind = "array"
            if dt is not None:
                f.dtype = dt
            return f
        if nm == "transpose" and len(t[2]) == 1 and not t[3]:
            f = frame(t[2][0]).copy()
            f.T += 1
            return f
        if nm in ("flip", "flipud", "fliplr", "sort", "roll"):
            raise Bad("rows are reordered by %s" % nm)
    raise Undecided("value of an array passed to the extension")


def items(t):
    if t is None or t == ("const", None):
        return None
    if t[0] in ("list", "tuple"):
        return list(t[1:])
    return [t]


def roles(e):
    """C names of the numeric, string and result arrays"""
    ptrs = {p.o.name for fn, ps, w in e.m.strs.values() for p in ps if isinstance(p, C.Ptr) and isinstance(p.o, C.Obj)}
    outs = {r[1].o.name for log in e.logs for r in log if r[0] == "memstore"}
    arr = [nm for nm in e.m.parsed if not nm.startswith("_")]
    chars = [i for i, nm in enumerate(e.m.parsed) if "array(%s)" % nm in ptrs]
    out = [i for i, nm in enumerate(e.m.parsed) if "array(%s)" % nm in outs]
    lds = set()
    for log in e.logs:
        for r in log:
            if r[0] == "new":
                for v in r[2].f.values() if hasattr(r[2], "f") else ():
                    if isinstance(v, C.Dbl) and v.t[0] == "ld":
                        lds.add(v.t[1])
    nums = [i for i, nm in enumerate(e.m.parsed) if "array(%s)" % nm in lds]
    if len(chars) != 1 or len(out) != 1 or len(nums) != 1:
        raise Undecided("arrays of the entry point")
    return nums[0], chars[0], out[0]


def python(c, e):
    y, nm, ps = Y.forest(c, e)
    num, char, out = roles(e)
    bad, n, un = {}, 0, []
    fn = y.fns[nm]
    where = y.where(fn)
    for p in ps:
        cs = [(t, nd) for t, nd in p.calls if Y.entrycall(t, e)]
        if not cs:
            raise Undecided("a path returns without calling the extension")
        if len(cs) > 1:
            raise Undecided("the extension is called more than once")
        t, nd = cs[0]
        wh = y.where(nd)
        if t[3] or len(t[2]) != len(e.m.parsed):
            raise Undecided("arguments of the extension")
        n += 1
        base = None
        for i, kind in ((num, "numeric"), (char, "string")):
            try:
                f = frame(t[2][i])
            except Bad as b:
                bad.setdefault("%s columns: %s" % (kind, b), wh)
                continue
            check(f, kind, p, bad, wh, un)
            if base is not None and f.base != base:
                bad.setdefault("numeric and string columns come from different frames", wh)
            base = f.base
        o = t[2][out]
        after = [q for q, _ in p.calls[[k for k, (q, _) in enumerate(p.calls) if q is t][0] + 1:]]
        for q in after:
            if q[1][0] == "attr" and q[1][1] is o:
                if q[1][2] in ("sort", "partition", "fill", "itemset", "put", "byteswap"):
                    bad.setdefault("the scores are changed by %s before they are returned" % q[1][2], wh)
        if any(s[0] is o for s in p.stores):
            un.append("the scores are assigned to before they are returned")
        if not un:
            back(p, o, base, bad, where, un)
    for msg, w in sorted(bad.items()):
        c.fail("%s: data and result of the extension" % nm, w, msg)
    if not bad:
        if un:
            raise Undecided(un[0])
        c.ok("%s: data and result of the extension" % nm, where, "%d paths: all numeric and string columns but the excluded ones, rows in order; scores returned with the frame's index" % n)


def excluded(p, t):
    """the dropped columns are the excluded ones on this path: True, False or None"""
    par = ("par", "exclude_cols")
    t = Y.plain(t)
    if t == par:
        return True
    if t[0] in ("list", "tuple") and len(t) == 1 or t == ("const", None):
        # nothing is dropped: only right when nothing is to be excluded
        for cnd, r in p.conds:
            if (cnd == ("op", "Is", par, ("const", None)) or cnd == ("op", "Eq", par, ("const", None)) or cnd == ("op", "Not", par)) and r:
                return True
            if (cnd == par or cnd == ("op", "IsNot", par, ("const", None))) and not r:
                return True
        return False
    if t[0] == "list" and len(t) == 2 and t[1] == ("star", par):
        return True
    if t[0] in ("list", "tuple", "const"):
        return False if t[0] == "const" or all(x[0] == "const" for x in t[1:]) else None
    return None


def check(f, kind, p, bad, wh, un):
    if not (f.base[0] == "par" and f.base[1] == "data"):
        un.append("the frame passed to the extension")
        return
    rs = [excluded(p, d) for d in f.drops if not (d[0] in ("list", "tuple") and len(d) == 1)] or [excluded(p, ("list",))]
    if False in rs:
        if any(d[0] in ("list", "tuple") and len(d) > 1 for d in f.drops):
            bad.setdefault("other columns than the excluded ones are dropped from the %s ones" % kind, wh)
        else:
            bad.setdefault("excluded columns are not dropped from the %s ones" % kind, wh)
    elif None in rs:
        un.append("columns dropped from the frame")
    if f.T % 2 != 1:
        bad.setdefault("the %s array has one row per observation instead of one column" % kind, wh)
    if not f.sel:
        un.append("columns are not selected by type")
    for inc, exc in f.sel:
        if exc or inc is None:
            un.append("columns selected by exclusion")
            continue
        if kind == "numeric":
            if not any(x in NUM for x in inc):
                if all(x in DOUBLE | NARROW | OBJ | STR or x[0] == "const" for x in inc):
                    bad.setdefault("numeric columns of other types than %s are left out" % ", ".join(str(x[-1]) for x in inc), wh)
                else:
                    un.append("types of the numeric columns")
            if any(x in OBJ | STR for x in inc):
                un.append("string columns among the numeric ones")
        else:
            for nmx, st in (("object", OBJ), ("string", STR)):
                if not any(x in st for x in inc):
                    bad.setdefault("columns of the %s type are left out" % nmx, wh)
            if any(x in NUM for x in inc):
                bad.setdefault("numeric columns are used as strings too", wh)
    good = DOUBLE if kind == "numeric" else BYTES
    if f.dtype is not None and f.dtype not in good:
        if kind == "numeric" and f.dtype in NARROW:
            bad.setdefault("numbers are converted to %s" % f.dtype[1], wh)
        elif kind == "string" and f.dtype[0] == "const" and isinstance(f.dtype[1], str) and f.dtype[1][:1] in "Sa|" and any(ch.isdigit() for ch in f.dtype[1]):
            bad.setdefault("strings are cut to %s" % f.dtype[1], wh)
        else:
            un.append("type of the %s array" % kind)


def indexof(t, base):
    """t is the index of a frame with the rows of base: True, False (other) or None"""
    if t[0] == "attr" and t[2] == "index":
        try:
            f = frame(t[1])
        except Bad:
            return False
        return f.base == base and f.T % 2 == 0
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy":
        return indexof(t[1][1], base)
    if t == ("const", None):
        return False
    if t[0] == "call" and t[1] in (("name", "range"), ("mod", "numpy.arange"), ("mod", "pandas.RangeIndex")):
        return False
    return None


def back(p, o, base, bad, where, un):
    t = p.ret
    name = ("par", "name")
    if t[0] == "call" and t[1] == ("mod", "pandas.DataFrame"):
        d = dict(t[3])
        a = list(t[2])
        data = a[0] if a else d.get("data")
        idx = a[1] if len(a) > 1 else d.get("index")
        cols = a[2] if len(a) > 2 else d.get("columns")
        if data is not None and data[0] == "dict" and len(data) == 2:
            cols, data = ("list", data[1][0]), data[1][1]
    elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "to_frame" and t[1][1][0] == "call" and t[1][1][1] == ("mod", "pandas.Series"):
        s = t[1][1]
        d = dict(s[3])
        data = s[2][0] if s[2] else d.get("data")
        idx = s[2][1] if len(s[2]) > 1 else d.get("index")
        nm = dict(t[3]).get("name", t[2][0] if t[2] else d.get("name"))
        cols = ("list", nm) if nm is not None else None
    else:
        try:
            if t[0] == "call" and t[1][0] == "attr" and t[1][2] in REORDER | {"reset_index"}:
                bad.setdefault("the scores are returned through %s" % t[1][2], where)
                return
        finally:
            pass
        un.append("value that is returned")
        return
    if data is not o:
        if data is not None and data[0] == "sub" and data[1] is o or data is not None and data[0] == "call" and any(x is o for x in data[2]) and data[1][0] == "mod" and data[1][1].split(".")[-1] in ("sort", "flip", "argsort", "roll"):
            bad.setdefault("the scores are reordered before they are returned", where)
            return
        un.append("scores that are returned")
        return
    if idx is None:
        bad.setdefault("the scores are returned without the index of the frame", where)
        return
    r = indexof(idx, base)
    if r is False:
        bad.setdefault("the scores are not returned with the index of the frame", where)
    elif r is None:
        un.append("index of the result")
    if cols is None or cols[0] != "list" or len(cols) != 2:
        un.append("columns of the result")
    elif cols[1] != name:
        if cols[1][0] == "const":
            bad.setdefault("the column is called %r whatever name is asked for" % (cols[1][1],), where)
        else:
            un.append("columns of the result")
