"""P14: each isolation tree is grown on a fresh bounded subsample."""
import itertools
import math
from sa.ctx import *
from sa import cpath as C
from sa.lin import P, P_, entails, infeasible, sym
from sa.terms import Undecided
from checks import libforest as F, libpyfor as Y


def run(c):
    c.rule("On every path of the native forest (one worker, every outcome of every test): the container handed to the growing function is, when a tree is begun, a sample without replacement of "
           "tree_size observations drawn from a container that holds every observation once, into an empty container, by an engine created for that tree; the depth passed down starts at 0 and grows "
           "by one; a path makes a leaf exactly when the facts of the path give one observation at most or the depth limit, which equals ceil(log2(tree_size)); every iteration over the "
           "observations of a node puts its observation into exactly one of the two containers handed to the nested calls, which are distinct and empty before; the column a node stores is a number drawn uniformly from 0 to the number of columns - 1, and its value is read at an observation of the node whose position is drawn uniformly.")
    es = c.attempt("native forest", "setup.py", lambda: F.forests(c, (1,)))
    for e in es or []:
        c.attempt("%s" % e.py, e.where, lambda e=e: entry(c, e))


def entry(c, e):
    grow, score = F.trees(e)
    if not grow:
        raise Undecided("no recursive function over a container of observations")
    pos = Y.positions(c, e)
    for nm, g in sorted(grow.items()):
        samples(c, e, g, pos)
        depth(c, e, g, pos)
        routing(c, e, g)
        choice(c, e, g)


def role(e, pos, name):
    """symbol of the entry argument that carries the named parameter of the Python function"""
    if name not in pos:
        raise Undecided("parameter %s is not passed to the extension" % name)
    return sym("arg:" + e.m.parsed[pos[name]])


def samples(c, e, g, pos):
    m = e.m
    ts = role(e, pos, "tree_size")
    bad, ok, where = {}, set(), None
    for q in g.tops:
        v = q.actual[g.pv]
        where = m.where(q.node)
        if not isinstance(v, C.Vec):
            raise Undecided("argument of the growing function")
        facts = q.snap[0]
        j = max([i for i, r in enumerate(q.before) if r[0] == "iter"] or [0])
        it = q.before[j:]
        ss = [r for r in it if r[0] == "sample"]
        if v.sampleof is None:
            if v.perm:
                bad.setdefault((where, "the tree is grown on all observations, not on a sample of tree_size of them"), q)
                continue
            if ss and any(r[3] is v for r in ss):
                bad.setdefault((where, "the sample is no longer in the container that the tree is grown on"), q)
                continue
            raise Undecided("how the observations of a tree are chosen")
        if v.sampleof[0] == "prefix":
            raise Undecided("how the observations of a tree are chosen")
        pop, whole, before, k, got, eng, node = v.sampleof
        where = m.where(node)
        mine = [r for r in ss if r[7] is node or r[7].get("id") == node.get("id")]
        if not mine:
            bad.setdefault((where, "the sample is drawn before the loop over the trees: every tree is grown on the same one"), q)
            continue
        if not F.eq(facts, before, P_(0)):
            bad.setdefault((where, "the container that receives the sample still holds observations of earlier trees"), q)
            continue
        later = [r for r in it[it.index(mine[-1]) + 1:] if r[0] in ("push",) and r[1] is v or r[0] == "vecop" and r[2] is v]
        if later:
            if any(r[0] == "push" for r in later):
                bad.setdefault((m.where(later[0][3]), "observations are added to the sample of a tree"), q)
                continue
            if not F.eq(facts, v.size, got):
                raise Undecided("the sample is changed before the tree is grown")
        if not F.eq(facts, v.size, got + before):
            bad.setdefault((where, "the container the tree is grown on has %r elements, the sample %r: the others are no drawn observations" % (v.size, got)), q)
            continue
        if not whole and not counted(e, pop, facts):
            bad.setdefault((where, "the sample is not drawn from a container of all the observations, each once"), q)
            continue
        n = nobs(e)
        if not F.eq(facts, pop.size, n):
            bad.setdefault((where, "the sample is drawn from %r of the %r observations" % (pop.size, n)), q)
            continue
        if not F.eq(facts, k, ts):
            bad.setdefault((where, "%r observations are sampled instead of tree_size (%r)" % (k, ts)), q)
            continue
        es = [i for i, r in enumerate(it) if r[0] == "eng" and r[1] is eng]
        if not es or es[0] > it.index(mine[-1]) or getattr(eng, "copied", False):
            bad.setdefault((where, "the engine that draws the sample is not created for this tree: samples of different trees are not independent of each other"), q)
            continue
        ok.add(where)
    what = "sample %s is grown on" % g.name
    for (w, msg), q in sorted(bad.items(), key=lambda z: z[0]):
        c.fail(what, w, msg)
    if not bad:
        c.ok(what, sorted(ok)[0], "%d call paths: tree_size observations of all, without replacement, into an empty container, own engine" % len(g.tops))


def counted(e, pop, facts):
    """the container is filled by a loop that stores each index below its size in its own slot"""
    import checks.p13 as p13
    if not getattr(pop, "spanned", False):
        return False
    fills, inside = {}, set()
    for log in e.logs:
        for t, node, k, guard, recs, ended in F.iterations(log):
            sl = [r for r in recs if r[0] == "slot" and r[1] == pop.site and F.one(k) in r[2].syms()]
            if sl or node.get("id") in fills:
                fills.setdefault(node.get("id"), []).append((k, guard, sl, ended))
                inside |= {id(r) for r in sl}
        for r in log:
            if r[0] == "slot" and r[1] == pop.site and id(r) not in inside:
                return False
            if r[0] == "push" and r[1].site == pop.site:
                return False
    if len(fills) != 1:
        return False
    for k, guard, sl, ended in next(iter(fills.values())):
        if len(sl) != 1 or not isinstance(sl[0][3], P) or not F.eq(sl[0][5], sl[0][2], sl[0][3]):
            return False
        base, step = F.split(sl[0][2], k)
        if base is None or step not in (1, -1):
            return False
        end = p13.hi(base, step, k, guard)
        lo, hi = (base, end) if step == 1 else (end, base + 1)
        fs = list(sl[0][5]) + [f for s, p in sl[0][9].items() for f in (sym(s) - p, p - sym(s))]
        if not F.eq(fs, lo, P_(0)) or not F.eq(fs, hi, sl[0][7]):
            return False
    return True


def nobs(e):
    """the number of columns of the first array the entry takes"""
    for nm in e.m.parsed:
        s = "array(%s).shape[1]" % nm
        if any(s in f.syms() for log in e.logs for r in log if r[0] == "top" for f in r[5][0]):
            return sym(s)
    raise Undecided("arrays of the entry")


def depth(c, e, g, pos):
    m = e.m
    ts = role(e, pos, "tree_size")
    where = m.where(g.d)
    splits = [x for x in g.splits if x.recs]
    leaves = [x for x in g.splits if not x.recs]
    if not splits or not leaves:
        raise Undecided("no path of %s makes %s" % (g.name, "a leaf" if splits else "nested calls"))
    # the depth argument
    ints = [j for j, v in enumerate(g.vals) if isinstance(v, P)]
    hs = []
    for j in ints:
        st = set()
        for x in splits:
            for r in x.recs:
                d = (r[2][j] - r[4][j]).const() if isinstance(r[4][j], P) and isinstance(r[2][j], P) else None
                st.add(d)
        if st == {1}:
            hs.append(j)
        elif st - {0}:
            c.fail("depth of nested calls of %s" % g.name, m.where(splits[0].recs[0][3]), "the depth passed to nested calls changes by %s" % ", ".join(str(s) for s in sorted(st, key=str)))
            return
    if len(hs) != 1:
        if ints:
            c.fail("depth of nested calls of %s" % g.name, m.where(splits[0].recs[0][3]), "no argument of the nested calls counts the depth")
            return
        raise Undecided("no argument counts the depth")
    h = hs[0]
    tops = {repr(q.actual[h]) for q in g.tops}
    if tops != {"0"}:
        c.fail("depth of nested calls of %s" % g.name, m.where(g.tops[0].node), "trees begin at depth %s" % ", ".join(sorted(tops)))
    else:
        c.ok("depth of nested calls of %s" % g.name, m.where(splits[0].recs[0][3]), "0 at the root, one more in every nested call")
    n, hv = g.vals[g.pv].size, None
    lim = {}
    bad = {}
    for x in splits:
        facts = x.recs[0][6][0]
        hv = x.vals[h]
        n = x.vals[g.pv].size
        if not entails(facts, n - 2):
            bad["a node of one observation or none is split"] = m.where(x.recs[0][3])
        cand = limits(m, facts, hv, 1, ts)
        if not cand:
            bad["a node is split whatever its depth"] = m.where(x.recs[0][3])
        for k, p in cand.items():
            lim.setdefault(k, p)
    for x in leaves:
        news = [r for r in x.news]
        if not news:
            continue
        facts = news[-1][5][0]
        hv = x.vals[h]
        n = x.vals[g.pv].size
        if entails(facts, 1 - n):
            continue
        cand = limits(m, facts, hv, 0, ts)
        if not cand:
            bad["a node of more than one observation above the depth limit becomes a leaf"] = m.where(news[-1][3])
        for k, p in cand.items():
            lim.setdefault(k, p)
    for msg, w in sorted(bad.items()):
        c.fail("leaves of %s" % g.name, w, msg)
    if not bad:
        c.ok("leaves of %s" % g.name, where, "%d splitting and %d leaf paths: split exactly with two observations or more above the depth limit" % (len(splits), len(leaves)))
    s = F.one(ts)
    wrong = []
    for k, p in sorted(lim.items()):
        for v in list(range(1, 3000)) + [2 ** 12, 2 ** 12 + 1, 2 ** 16 - 1, 2 ** 16, 10 ** 6, 2 ** 30]:
            got = F.value(m, p, {s: v})
            want = (v - 1).bit_length()
            if got != want:
                wrong.append((p, v, got, want))
                break
    if wrong:
        p, v, got, want = wrong[0]
        c.fail("depth limit of %s" % g.name, where, "%s is %s for tree size %d, not ceil(log2(%d)) = %d" % (p, got, v, v, want))
    elif lim:
        c.ok("depth limit of %s" % g.name, where, "%s = ceil(log2(tree size)) for every size up to 3000 and around powers of two" % ", ".join(sorted(lim)))


def limits(m, facts, hv, strict, ts):
    """polynomials L over the arguments with L >= height + 1 (strict) or height >= L on the path"""
    hs = F.one(hv) if isinstance(hv, P) else None
    out = {}
    if hs is None:
        return out
    for f in facts:
        co = f.m.get((hs,), 0)
        if abs(co) != 1 or any(hs in k and len(k) > 1 for k in f.m):
            continue
        if strict and co == -1:
            p = f + sym(hs) + 1          # L - height - 1 >= 0
        elif not strict and co == 1:
            p = sym(hs) - f              # height - L >= 0
        else:
            continue
        try:
            F.value(m, p, {F.one(ts): 16})
        except Undecided:
            continue
        if p.const() is not None:
            continue
        out[repr(p)] = p
    return out


def elements(x, tag):
    """symbols that stand for an element of the container in this iteration -> index"""
    out = {}
    for r in x.recs:
        if r[0] == "rangeelem" and r[1].tag == tag and isinstance(r[2], P):
            out[F.one(r[2])] = r[3]
        elif r[0] == "elem" and r[1].tag == tag:
            out.setdefault(F.one(r[3]), r[2])
    return out


def domain(m, x, tag, size):
    """the iterations of the loop take every index of the container once"""
    if any(r[0] == "rangeelem" and r[1].tag == tag and r[4] is x.node for r in x.recs):
        return True
    ixs = {}
    for r in x.recs:
        if r[0] == "elem" and r[1].tag == tag and F.one(x.k) in r[2].syms():
            ixs[r[2].key()] = r[2]
    if len(ixs) != 1:
        return None
    base, step = F.split(next(iter(ixs.values())), x.k)
    if base is None or step not in (1, -1):
        return None
    import checks.p13 as p13
    end = p13.hi(base, step, x.k, x.guard)
    facts = x.snap[0]
    lo, hi = (base, end) if step == 1 else (end, base + 1)
    if F.eq(facts, lo, P_(0)) and F.eq(facts, hi, size):
        return True
    return (lo, hi)


def plan(c, e, g):
    """for each splitting path: [(facts of a way through the loops, [(container, child name)])], with the node"""
    m = e.m
    splits = {}
    for x in g.splits:
        if x.recs:
            splits.setdefault(signature(m, x), []).append(x)
    loops = {}
    for it in g.iters:
        loops.setdefault(it.node.get("id"), []).append(it)
    use = {}
    for k, its in loops.items():
        tag = g.V
        if any(F.one(x.k) is not None and elements(x, tag) for x in its) and any(r[0] == "push" and not isinstance(r[2], C.Thr) for x in its for r in x.recs):
            use[k] = its
    return splits, use


def signature(m, x):
    nd = "; ".join("%s %s" % (m.where(r[3]), [repr(a) for a in r[4] if not isinstance(a, (C.Ptr,))]) for r in x.news)
    return "%s | %s" % (nd, "; ".join("%s %s %s" % (m.where(r[3]), F.child(r)[1] if F.child(r) else None, [a.tag for a in r[2] if isinstance(a, C.Vec)]) for r in x.recs))


def routing(c, e, g):
    m = e.m
    splits, loops = plan(c, e, g)
    if not loops:
        raise Undecided("no loop of %s distributes the observations" % g.name)
    size = None
    for k, its in loops.items():
        x = its[0]
        d = domain(m, x, g.V, x.vals[g.pv].size)
        what = "observations of a node visited by the loop"
        if d is True:
            c.ok(what, x.where, "every one, once")
        elif d is None:
            c.unsure(what, x.where, "indices of the loop")
        else:
            c.fail(what, x.where, "the loop visits indices %r to %r (exclusive) of %r" % (d[0], d[1], x.vals[g.pv].size))
    for sg, xs in sorted(splits.items()):
        x = xs[0]
        wh = m.where(x.recs[0][3])
        what = "children of a node of %s" % g.name
        probs, ways, seen = {}, 0, set()
        for x in xs:
            w = one_split(m, g, x, loops, probs, seen)
            if w is None:
                break
            ways += w
        for msg, w in sorted(probs.items()):
            c.fail(what, w, msg)
        if not probs:
            if not ways:
                raise Undecided("ways through the loops")
            c.ok(what, wh, "%d paths, %d ways through the loops: each sends the observation to one child; the children get distinct containers, empty before" % (len(xs), ways))


def one_split(m, g, x, loops, probs, seen):
    """number of ways through the loops before these nested calls, None when there is a problem that stops the analysis"""
    wh = m.where(x.recs[0][3])
    vs = []
    for r in x.recs:
        v = [a for a in r[2] if isinstance(a, C.Vec)]
        ch = F.child(r)
        if len(v) != 1 or ch is None:
            raise Undecided("arguments of the nested calls")
        vs.append((v[0].tag, ch[1], v[0]))
    if len(vs) != 2 or len({v[1] for v in vs}) != 2:
        probs.setdefault("%d nested calls for the children %s" % (len(vs), ", ".join(v[1] for v in vs)), wh)
        return None
    if vs[0][2] is vs[1][2]:
        probs.setdefault("both children are grown on the same observations", wh)
        return None
    if vs[0][0] == vs[1][0]:
        raise Undecided("containers of the children cannot be told apart")
    late = [r for r in x.after if r[0] == "push" and r[1].tag in (vs[0][0], vs[1][0])]
    if late:
        raise Undecided("observations are moved after the loops")
    ops = [r for r in x.after[:x.after.index(x.recs[0])] if r[0] == "vecop" and r[2] in (vs[0][2], vs[1][2])]
    if ops:
        raise Undecided("the containers of the children are changed outside the loops")
    kids = {vs[0][0]: vs[0][1], vs[1][0]: vs[1][1]}
    rn0 = F.Ren(m)
    snap = rn0.snap(x.recs[0][6])
    key = (tuple(sorted(f.key() for f in snap[0])), str(sorted(map(str, snap[1].items()))), str(sorted(map(str, snap[2].items()))))
    if key in seen:
        return 0
    seen.add(key)
    mine = {}
    for k, its in loops.items():
        ok = []
        for it in its:
            if not it.snap:
                continue
            rn = F.Ren(m, sub(it, g))
            sn = rn.snap(it.snap)
            if F.together(snap, sn) is not None:
                ok.append((it, rn, sn))
        if ok:
            mine[k] = ok
    if not mine:
        probs.setdefault("no loop distributes the observations before these nested calls", wh)
        return None
    ways = 0
    for combo in itertools.product(*mine.values()):
        if len(combo) > 1 and F.together(snap, *[q[2] for q in combo]) is None:
            continue
        ways += 1
        got = []
        for it, rn, sn in combo:
            empty(m, it, kids, probs)
            for r in it.recs:
                if r[0] == "push" and r[1].tag in kids:
                    if not isinstance(r[2], P) or rn.P(r[2]) != sym("OB"):
                        probs.setdefault("%r is put into the container of %s instead of the observation" % (r[2], kids[r[1].tag]), m.where(r[3]))
                    got.append(r)
                elif r[0] == "vecop" and r[2].tag in kids:
                    probs.setdefault("the container of %s is changed by %s while the observations are distributed" % (kids[r[2].tag], r[1]), m.where(r[3]))
        if len(got) != 1:
            w = m.where(got[0][3]) if got else combo[0][0].where
            probs.setdefault("an observation is sent to %s" % ("no child" if not got else "the children %s" % ", ".join(kids[r[1].tag] for r in got)), w)
    return ways


def sub(it, g):
    """the element of the iteration is the observation"""
    out = {}
    for s, i in elements(it, g.V).items():
        if F.one(it.k) in i.syms() or any(r[0] == "rangeelem" and r[4] is it.node and F.one(r[2]) == s for r in it.recs):
            out[s] = sym("OB")
    k = F.one(it.k)
    if k is not None and k not in out:
        out[k] = sym("at:" + k)          # the counter of this iteration, not its value after the loop
    return out


def empty(m, it, kids, probs):
    """the containers of the children are created empty in this call"""
    for tag, ch in kids.items():
        made = [r for r in it.pre if r[0] == "vec" and r[1].tag == tag]
        if not made or made[-1][2].const() != 0:
            probs.setdefault("the container of %s is not created empty for this node" % ch, it.where)
        elif any(r[0] == "push" and r[1] is made[-1][1] for r in it.pre):
            probs.setdefault("the container of %s holds observations before the loop" % ch, it.where)


# ---------------------------------------------------------------- what a split is drawn from
def choice(c, e, g):
    m = e.m
    ncols = columns(e)
    pa, pv, good, n = {}, {}, set(), 0
    for x in g.splits:
        if not x.recs:
            continue
        cls = {F.child(r)[0].cls for r in x.recs if F.child(r) is not None}
        node = [r for r in x.news if r[1] in cls]
        if len(cls) != 1 or len(node) != 1:
            raise Undecided("node built on a path with nested calls")
        node = node[0]
        n += 1
        wh = m.where(node[3])
        facts = x.recs[0][6][0]
        uni = {F.one(r[1]): (r[2], r[3], r[4]) for r in x.after if r[0] == "uniform"}
        size = x.vals[g.pv].size
        elems = {F.one(r[3]): r[2] for r in x.after if r[0] == "elem" and r[1].tag == g.V and F.one(r[3])}
        attr, val = [], []
        for f, v in sorted(node[2].f.items()):
            if isinstance(v, bool):
                continue
            if isinstance(v, P):
                ds = [s for s in v.syms() if s in uni]
                if ds:
                    attr.append((f, v, ds))
            elif isinstance(v, C.Dbl) and v.t[0] == "ld":
                val.append((f, [P(dict(k)) for k in v.t[2]]))
            elif isinstance(v, C.Ptr) and isinstance(v.o, C.Obj):
                val.append((f, [v.off]))
        if not uni:
            pa.setdefault("nothing is drawn for a split", wh)
            continue
        if not attr:
            ints = [v for v in node[2].f.values() if isinstance(v, P) and not isinstance(v, bool) and not F.eq(facts, v, size)]
            if ints and all(v.const() is not None for v in ints):
                pa.setdefault("the column of a split is not drawn", wh)
            else:
                raise Undecided("column of a split")
        for f, v, ds in attr:
            lo, hi, nd = uni[ds[0]]
            co = v.m.get((ds[0],), 0)
            rest = v - sym(ds[0]) * co
            if len(ds) != 1 or abs(co) != 1 or ds[0] in rest.syms():
                raise Undecided("column of a split")
            a, b = (lo + rest, hi + rest) if co == 1 else (rest - hi, rest - lo)
            if not F.eq(facts, a, P_(0)) or not F.eq(facts, b, ncols - 1):
                if decided(facts, a, P_(0)) or decided(facts, b, ncols - 1):
                    pa.setdefault("the column of a split is drawn from %r to %r, not from all of 0 to %r" % (a, b, ncols - 1), m.where(nd))
                else:
                    raise Undecided("columns a split is drawn from: %r to %r" % (a, b))
        if len(val) != 1:
            raise Undecided("value of a split")
        f, ix = val[0]
        cand = [s for p in ix for s in p.syms() if s in elems]
        if not cand:
            drawn = [s for p in ix for s in p.syms() if s in uni and not any(s in q[2] for q in attr)]
            if drawn:
                pv.setdefault("the value of a split is that of observation %r, which need not be one of the node's" % drawn[0], wh)
            else:
                raise Undecided("observation a split value is taken from")
        for s in sorted(set(cand)):
            i = elems[s]
            d = F.one(i)
            if d not in uni:
                if i.const() is not None:
                    pv.setdefault("the value of a split always comes from observation %r of the node" % i, wh)
                    continue
                raise Undecided("observation a split value is taken from")
            lo, hi, nd = uni[d]
            if not F.eq(facts, lo, P_(0)) or not F.eq(facts, hi, size - 1):
                pv.setdefault("the observation of a split value is drawn from %r to %r of the node's 0 to %r" % (lo, hi, size - 1), m.where(nd))
            elif attr and d in attr[0][2]:
                pv.setdefault("the same number is drawn for the column and the observation of a split", m.where(nd))
    where = m.where(g.d)
    for what, probs, msg in (("column of a split of %s" % g.name, pa, "drawn uniformly from all %r columns" % ncols), ("value of a split of %s" % g.name, pv, "taken from an observation drawn uniformly from those of the node")):
        for t, w in sorted(probs.items()):
            c.fail(what, w, t)
        if not probs and n:
            c.ok(what, where, "%d splitting paths: %s" % (n, msg))


def decided(facts, a, b):
    """the two are told apart by a constant"""
    return (a - b).const() not in (None, 0)


def columns(e):
    """the sum of the first dimensions of the arrays that hold the data (not of the results, one per observation)"""
    n = nobs(e)
    q = next(r for log in e.logs for r in log if r[0] == "top")
    facts = q[5][0]
    syms = {s for f in facts for s in f.syms()}
    r, some = P_(0), False
    for nm in e.m.parsed:
        s = "array(%s).shape[0]" % nm
        if s in syms and not F.eq(facts, sym(s), n):
            r, some = r + sym(s), True
    if not some:
        raise Undecided("data arrays of the entry")
    return r
