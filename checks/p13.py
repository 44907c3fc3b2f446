"""P13: isolation forests do not depend on thread count or scheduling."""
from sa.ctx import *
from sa import cpath as C
from sa.lin import P, P_, entails, infeasible, sym
from sa.terms import Undecided
from checks import libforest as F


class S:
    """writes of one worker to the slots of one container"""

    def __init__(self):
        self.ix = {}     # repr -> (base, step, k, guard, facts, node, size)
        self.rand = False


def run(c):
    c.rule("For each worker count the native entry points are analysed path by path and every record of a worker is kept: (1) a worker writes memory it did not create only under a lock or "
           "in a slot of a container; (2) the slots of a container form, over the workers, disjoint index ranges that together are exactly 0 .. size-1 for every size (linear facts of the "
           "loops), each iteration writing one slot; (3) random numbers come from an engine created in the same iteration, and its seed, as a polynomial in the slot index, is the same for all "
           "workers and all worker counts; (4) no other entropy or writable global is used; (5) a worker that reads a container starts after the workers that fill it were joined; "
           "(6) sample and forest sizes are the same polynomials for all worker counts.")
    counts = (1, 2, 3) if c.tier == "quick" else (1, 2, 3, 4)
    es = c.attempt("native forest", "setup.py", lambda: F.forests(c, counts))
    if not es:
        return
    seeds, sizes, samples = {}, {}, {}
    for e in es:
        c.attempt("%s with %d workers" % (e.py, e.w), e.where, lambda e=e: entry(c, e, seeds, sizes, samples))
    for e in c.attempt("native forest with failing calls", "setup.py", lambda: F.forests(c, (2,), True)) or []:
        c.attempt("%s with failing calls" % e.py, e.where, lambda e=e: shares(c, e))
    for site, ss in sorted(seeds.items()):
        pol = {}
        for (w, t, pl, node) in ss:
            pol.setdefault(repr(pl), (pl, w, t, node))
        by = {}
        for (w, t, pl, node) in ss:
            by.setdefault((w, t), set()).add(repr(pl))
        alts = {frozenset(v) for v in by.values()}
        where = es[0].m.where(ss[0][3])
        bad = [p for p in pol.values() if "index" not in p[0].syms()]
        if bad:
            c.fail("seed of the engine that fills a slot of %s" % site, where, "the seed %s does not depend on the index of the slot" % bad[0][0])
        elif len(alts) > 1:
            d = sorted(alts, key=sorted)
            k0, k1 = [next(k for k, v in by.items() if frozenset(v) == q) for q in d[:2]]
            c.fail("seed of the engine that fills a slot of %s" % site, where,
                   "as a function of the slot index it is %s for worker %d of %d but %s for worker %d of %d" % (sorted(d[0])[0], k0[1], k0[0], sorted(d[1])[0], k1[1], k1[0]))
        else:
            c.ok("seed of the engine that fills a slot of %s" % site, where, "%s for every worker of every count" % ", ".join(sorted(pol)))
    for what, tab in (("number of slots", sizes), ("sample", samples)):
        for site, ss in sorted(tab.items()):
            by = {}
            for w, pl, node in ss:
                by.setdefault(w, set()).add(pl)
            where = es[0].m.where(ss[0][2])
            if len({frozenset(v) for v in by.values()}) > 1:
                c.fail("%s of %s" % (what, site), where, "depends on the number of workers: %s" % "; ".join("%d: %s" % (w, ", ".join(sorted(v))) for w, v in sorted(by.items())))
            else:
                c.ok("%s of %s" % (what, site), where, "%s for every worker count" % ", ".join(sorted(next(iter(by.values())))))


def entry(c, e, seeds, sizes, samples):
    m, w = e.m, e.w
    slots, sharedf, entropy, order = {}, {}, {}, {}
    runs, seen_share = {}, {}
    complete = {}
    for log in e.logs:
        # who starts before whom has finished
        done, started = set(), {}
        writer = {}
        for r in log:
            if r[0] == "start":
                started[r[1]] = set(done)
            elif r[0] == "run":
                done.add(r[1])
                cur = r[1]
        cur = None
        for r in log:
            if r[0] == "run":
                cur = r[1]
            elif r[0] == "entropy":
                entropy.setdefault(m.where(r[1]), "random numbers of the operating system")
            elif r[0] == "globalwrite" and cur is not None and r[2] is not None:
                entropy.setdefault(m.where(r[2]), "the variable %s, shared by all workers, is written" % r[1])
            elif r[0] == "shared":
                _, t, loc, locked, node, facts = r
                seen_share.setdefault((loc[0], str(loc[1]), m.where(node)), []).append((t, loc, locked, node))
            elif r[0] == "rangeelem" and cur is not None:
                order.setdefault((r[1].tag, cur), set()).add(frozenset(started.get(cur, ())))
        for t, node, k, guard, recs, ended in F.iterations(log):
            if t is None and e.stats["threads"]:
                continue
            sl = [r for r in recs if r[0] == "slot" and r[6] == t and r[10] != t and F.one(k) in r[2].syms()]
            for r in sl:
                base, step = F.split(r[2], k)
                if base is None:
                    raise Undecided("slot index %r" % (r[2],))
                q = slots.setdefault(r[1], {}).setdefault(t, {})
                facts = tuple(r[5]) + tuple(f for s_, p_ in r[9].items() for f in (sym(s_) - p_, p_ - sym(s_)))
                key = (repr(base), step, str(guard))
                if key in q:
                    # what every path with this range knows
                    facts = tuple(f for f in q[key][4] if f in set(facts))
                q[key] = (base, step, k, guard, facts, r[4], r[7])
                before = recs[:recs.index(r)]
                engs = {id(x[1]): (i, x) for i, x in enumerate(before) if x[0] == "eng"}
                for i, x in enumerate(before):
                    if x[0] != "draw":
                        continue
                    g = engs.get(id(x[1]))
                    if g is None or g[0] > i or getattr(x[1], "copied", False):
                        entropy.setdefault(m.where(x[2]), "the random engine used for a slot of %s is not created in the iteration that fills it: what it yields depends on the slots the same worker filled before" % r[1])
                    elif g[1][3] is None:
                        c.unsure("seed of a random engine", m.where(g[1][2]), "the seed is not an integer expression")
                    else:
                        pl = g[1][3].subst(r[9])
                        s = F.one(k)
                        if step in (1, -1):
                            pl = pl.subst({s: (sym("index") - base) * step})
                        elif s in pl.syms() or not pl.const() is not None:
                            # index = base + step * k
                            co = pl.m.get((s,), 0)
                            rest = pl - sym(s) * co
                            if s in rest.syms() or co % step:
                                raise Undecided("seed %r" % (pl,))
                            pl = rest + (sym("index") - base) * (co // step)
                        seeds.setdefault(r[1], []).append((w, t, pl, g[1][2]))
                for x in before:
                    if x[0] == "sample":
                        samples.setdefault(r[1], []).append((w, "%s of %s" % (m_r(x[5]), m_r(x[1].size)), x[7]))
                sizes.setdefault(r[1], []).append((w, m_r(r[7]), r[4]))
            if ended:
                key = (node.get("id"), t)
                complete.setdefault(key, [node, set()])[1].add(tuple(sorted({r[1] for r in sl})) if len({id(r) for r in sl}) == len(sl) else ("twice",))
    for wh, msg in sorted(entropy.items()):
        c.fail("randomness with %d workers" % w, wh, msg)
    # shared writes
    for (kind, name, wh), rs in sorted(seen_share.items()):
        free = [r for r in rs if not r[2]]
        what = "write to %s with %d workers" % (name, w)
        if kind == "elem":
            if free and not any(name == s for s in slots):
                c.fail(what, wh, "an element of %s is written by worker %s without a lock and not as the slot of an iteration" % (name, free[0][0]))
            continue
        if free and w >= 2:
            c.fail(what, wh, "%s is shared by the workers and written without a lock" % (" ".join(str(x) for x in free[0][1][1:3])))
        elif not free:
            if kind == "vec":
                c.unsure(what, wh, "the order of the elements of %s depends on the schedule" % name)
            else:
                c.ok(what, wh, "under a lock")
    # every iteration fills one slot
    for (_, t), (node, kinds) in sorted(complete.items(), key=lambda q: (m.where(q[1][0]), str(q[0][1]))):
        ks = {k for k in kinds}
        if any(ks_ for ks_ in ks) and len(ks) > 1:
            c.fail("slots of an iteration with %d workers" % w, m.where(node), "some iterations of worker %s store no result" % t)
    # tiling
    for site, by in sorted(slots.items()):
        tile(c, e, site, by, w)
    # readers start after the writers were joined
    for (tag, t), sts in sorted(order.items(), key=str):
        wr = {x for x in slots.get(tag, {}) if x is not None}
        if not wr:
            continue
        wh = m.where(next(iter(by_node(slots[tag]))))
        late = [s for s in sts if not wr <= s]
        if late and not t in wr:
            c.fail("reader of %s with %d workers" % (tag, w), wh, "worker %s reads it and is started before workers %s, which fill it, are joined" % (t, sorted(wr - late[0])))
        elif not t in wr:
            c.ok("reader of %s with %d workers" % (tag, w), wh, "worker %s starts after all slots are filled" % t)
    if not slots:
        raise Undecided("no worker fills slots of a container")


def shares(c, e):
    """writes that only happen when a call of a worker fails"""
    seen = {}
    for log in e.logs:
        for r in log:
            if r[0] == "shared" and r[2][0] != "elem":
                seen.setdefault((" ".join(str(x) for x in r[2][1:3]), e.m.where(r[4])), set()).add(r[3])
    for (name, wh), locked in sorted(seen.items()):
        what = "write to %s when a call of a worker fails" % name
        if False in locked:
            c.fail(what, wh, "shared by the workers and written without a lock")
        else:
            c.ok(what, wh, "under a lock")


def by_node(q):
    for d in q.values():
        for v in d.values():
            yield v[5]


def m_r(x):
    return repr(x)


def tile(c, e, site, by, w):
    """the index ranges of the workers are disjoint and cover the container.  A path follows one worker into its loop, so
    the ranges of different workers come from different paths: those that can be of one run are compared"""
    import itertools
    m = e.m
    ts = sorted(by, key=lambda x: -1 if x is None else x)
    wh = m.where(next(iter(by_node(by))))
    n = len(ts)
    what = "slots of %s with %d workers" % (site, w)
    alls = []
    for t in ts:
        own = F.Ren(m, own="%s:" % t)
        rs = {}
        for base, step, k, guard, facts, node, size in by[t].values():
            r = (own.P(base), step, own.P(hi(base, step, k, guard)), {own.P(f) for f in facts}, own.P(size))
            key = (repr(r[0]), step, repr(r[2]))
            if key in rs:
                r = r[:3] + (rs[key][3] & r[3],) + r[4:]
            rs[key] = r
        alls.append(list(rs.values()))
    combos, bad = 0, None
    for cmb in itertools.product(*alls):
        combos += 1
        if combos > 200:
            raise Undecided("too many combinations of ranges")
        facts = sorted(set().union(*[r[3] for r in cmb]), key=lambda f: f.key())
        if infeasible(facts):
            continue
        bad = adjacent(facts, cmb, cmb[0][4], n)
        if bad:
            break
    if bad:
        c.fail(what, wh, bad)
    else:
        c.ok(what, wh, "%d ranges, disjoint, exactly 0 .. %r" % (n, alls[0][0][4]))


def adjacent(facts, rs, size, n):
    steps = {r[1] for r in rs}
    if steps <= {1, -1}:
        lo = [r[0] if r[1] == 1 else r[2] for r in rs]
        up = [r[2] if r[1] == 1 else r[0] + 1 for r in rs]
        order = order_of(facts, lo, up)
        if order is None:
            return "the ranges %s of the workers are not adjacent for every size" % ", ".join("[%r, %r)" % q for q in zip(lo, up))
        if not (F.eq(facts, lo[order[0]], P_(0)) and F.eq(facts, up[order[-1]], size)):
            return "together the workers fill [%r, %r) of %r slots" % (lo[order[0]], up[order[-1]], size)
        return None
    st = steps.pop() if len(steps) == 1 else None
    starts = sorted((r[0].const() if r[0].const() is not None else -1) for r in rs)
    if st is None or st != len(rs) or starts != list(range(st)) or not all(F.eq(facts, r[2], size) for r in rs):
        return "the strided ranges of the workers do not cover every slot once"
    return None


def order_of(facts, lo, up):
    import itertools
    n = len(lo)
    for o in itertools.permutations(range(n)):
        if all(F.eq(facts, up[o[i]], lo[o[i + 1]]) for i in range(n - 1)):
            return o
    return None


def hi(base, step, k, guard):
    """exclusive end (step > 0) or smallest index (step < 0) from the loop test"""
    if guard is None:
        raise Undecided("test of the loop over the slots")
    a, op, b = guard
    s = F.one(k)
    ca, cb = a.m.get((s,), 0), b.m.get((s,), 0)
    if cb and not ca:
        a, b = b, a
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
        ca, cb = cb, ca
    if cb or ca == 0 or any(s in q and len(q) > 1 for q in a.m):
        raise Undecided("test of the loop over the slots")
    # a = ca * k + ra
    ra = a - sym(s) * ca
    if ca != step:
        raise Undecided("test of the loop over the slots advances differently")
    end = b - ra + base          # index at which a == b
    if step > 0:
        return end if op in ("<", "!=") else end + 1
    return end + 1 if op in (">", "!=") else end
