"""P15: scoring routes an observation exactly as growing did."""
import itertools
from sa.ctx import *
from sa import cpath as C
from sa.lin import P, P_, entails, infeasible, sym
from sa.terms import Undecided
from checks import libforest as F, p14


def run(c):
    c.rule("The paths through the growing function that send an observation to a child and the paths through the scoring function that follow a child are written over the same roles (the "
           "observation, and the attribute and split value the node stores); for every node-building site and every pair of a growing and a scoring path that disagree on the child, the conditions "
           "of the two paths (order and NaN-ness of numbers, linear facts over string lengths and comparisons) exclude each other, and each growing path agrees with some scoring path.")
    es = c.attempt("native forest", "setup.py", lambda: F.forests(c, (1,)))
    for e in es or []:
        c.attempt("%s" % e.py, e.where, lambda e=e: entry(c, e))


class Route:
    pass


def entry(c, e):
    grow, score = F.trees(e)
    if not grow:
        raise Undecided("no recursive function over a container of observations")
    if not score:
        raise Undecided("no recursive function that scores an observation")
    m = e.m
    sc = {}
    for nm, s in sorted(score.items()):
        for site, rs in scoring(e, s).items():
            sc.setdefault(site, []).extend(rs)
    for nm, g in sorted(grow.items()):
        gr, leaf = growing(e, g)
        for site, routes in sorted(gr.items()):
            compare(c, e, nm, site, routes, sc.get(site, []))
        for site, wh in sorted(leaf.items()):
            on = [r for r in sc.get(site, []) if r.child is not None]
            what = "leaf built at %s" % wh
            if on:
                c.fail(what, on[0].where, "scoring goes on to the child %s of a leaf" % on[0].child)
            elif not sc.get(site):
                c.unsure(what, wh, "no path of the scoring function meets this leaf")
            else:
                c.ok(what, wh, "scoring ends there on %d paths" % len(sc[site]))


def scoring(e, s):
    """site -> routes, over roles"""
    out, seen = {}, set()
    m = e.m
    for x in s.routes + s.leaves:
        ob = [v for v in x.vals if isinstance(v, P) or isinstance(v, C.LV) and isinstance(v.get(), P)]
        ob = [v if isinstance(v, P) else v.get() for v in ob]
        names = [F.one(v) for v in ob]
        # the observation is the argument that nested calls pass on unchanged
        keep = []
        for j, v in enumerate(x.vals):
            if isinstance(v, P) and all(isinstance(deref(r[2][j]), P) and deref(r[2][j]) == v for r in x.recs):
                keep.append(v)
        if not x.nodes:
            raise Undecided("the node a scoring path looks at")
        if len({r[2] for r in x.nodes}) != 1 and len(x.nodes) > 1:
            raise Undecided("a scoring path looks at several nodes")
        site = x.nodes[-1][2]
        r = Route()
        r.path = x
        r.site = site
        obs = observation(s)
        sub = {}
        v = deref(x.vals[obs])
        if isinstance(v, P) and F.one(v):
            sub[F.one(v)] = sym("OB")
        else:
            raise Undecided("observation of the scoring function")
        rn = F.Ren(m, sub, None, None, "scoring:")
        sn = x.recs[-1][6] if x.recs else x.snap
        r.snap = rn.snap(sn)
        r.atoms = rn.atoms
        r.where = m.where(x.recs[-1][3]) if x.recs else m.where(x.ret[1])
        if len(x.recs) > 1:
            raise Undecided("a scoring path makes several nested calls")
        r.child = None
        if x.recs:
            ch = F.child(x.recs[0])
            if ch is None:
                raise Undecided("child of a nested call")
            r.child = ch[1]
            if deref(x.recs[0][2][obs]) != v:
                raise Undecided("a nested call scores another observation")
        key = (site, r.child, tuple(sorted(f.key() for f in r.snap[0])), str(sorted(map(str, r.snap[1].items()))), str(sorted((str(k), sorted(v)) for k, v in r.snap[2].items())))
        if key in seen:
            continue
        seen.add(key)
        out.setdefault(site, []).append(r)
    return out


def deref(v):
    return v.get() if isinstance(v, C.LV) else v


def observation(s):
    """index of the argument that all nested calls pass on unchanged and that is no length"""
    js = None
    for x in s.routes:
        k = {j for j, v in enumerate(x.vals) if isinstance(deref(v), P) and all(isinstance(deref(r[2][j]), P) and deref(r[2][j]) == deref(v) for r in x.recs)}
        js = k if js is None else js & k
    if js is None or len(js) != 1:
        raise Undecided("the observation among the arguments of the scoring function")
    return js.pop()


def growing(e, g):
    """site -> routes over roles; leaf sites"""
    m = e.m
    out, leaf = {}, {}
    groups, loops = p14.plan(None, e, g)
    splits = {}
    for x in g.splits:
        if x.recs:
            splits.setdefault(p14.signature(m, x), []).append(x)
        else:
            for r in x.news[-1:]:
                leaf[m.vsite(r[3])] = m.where(r[3])
    for sg, xs in sorted(splits.items()):
        for x in xs:
            cls = {F.child(r)[0].cls for r in x.recs if F.child(r) is not None}
            if len(cls) != 1:
                raise Undecided("nodes of nested calls")
            node = [r for r in x.news if r[1] in cls]
            if len(node) != 1:
                raise Undecided("node built on a path with nested calls")
            node = node[0]
            site = m.vsite(node[3])
            sub, dterm, offs, eqs = stored(node[2])
            kids = {}
            for r in x.recs:
                v = [a for a in r[2] if isinstance(a, C.Vec)]
                ch = F.child(r)
                if len(v) != 1 or ch is None:
                    raise Undecided("arguments of the nested calls")
                kids[v[0].tag] = ch[1]
            base = F.Ren(m, sub, dterm, offs).snap(x.recs[0][6])
            base = (base[0] + eqs, base[1], base[2])
            mine = {}
            for k, its in loops.items():
                ok = []
                for it in its:
                    if it.snap is None:
                        continue
                    rn = F.Ren(m, dict(sub, **p14.sub(it, g)), dterm, offs)
                    sn = rn.snap(it.snap)
                    if F.together(base, sn) is not None:
                        ok.append((it, rn, sn))
                if ok:
                    mine[k] = ok
            if not mine:
                raise Undecided("loop that distributes the observations")
            for combo in itertools.product(*mine.values()):
                if len(combo) > 1 and F.together(base, *[q[2] for q in combo]) is None:
                    continue
                kid = [kids[r[1].tag] for it, rn, sn in combo for r in it.recs if r[0] == "push" and r[1].tag in kids]
                if len(kid) != 1:
                    continue                      # an observation sent to no child or both is a matter of P14
                r = Route()
                r.child, r.site = kid[0], site
                t = merge(base, *[q[2] for q in combo])
                r.snap, r.cond = t, merge(*[q[2] for q in combo])
                r.atoms = {}
                for q in combo:
                    r.atoms.update(q[1].atoms)
                r.where = combo[0][0].where
                key = (site, r.child, str(sorted(map(str, t[1].items()))), str(sorted((str(k), sorted(v)) for k, v in t[2].items())), tuple(sorted(f.key() for f in t[0])))
                if any(q.key == key for q in out.setdefault(site, [])):
                    continue
                r.key = key
                out[site].append(r)
    return out, leaf


def merge(*snaps):
    f, n, r = [], {}, {}
    for a, b, d in snaps:
        f += [x for x in a if x not in f]
        n.update(b)
        for k, s in d.items():
            r[k] = r.get(k, {"<", "=", ">", "u"}) & set(s)
    return f, n, r


def stored(o):
    """what the fields of a node say about the values the path computed"""
    sub, dterm, offs, eqs = {}, {}, {}, []
    for f, v in sorted(o.f.items()):
        role = "%s.%s" % (o.cls, f)
        if isinstance(v, bool):
            continue
        if isinstance(v, P):
            s = F.one(v)
            if s and s.startswith("draw@") and s not in sub:
                sub[s] = sym(role)
            elif v.const() is None:
                # solve for a drawn number
                ds = [q for q in v.syms() if q.startswith("draw@") and q not in sub and abs(v.m.get((q,), 0)) == 1 and not any(q in k and len(k) > 1 for k in v.m)]
                if ds:
                    co = v.m[(ds[0],)]
                    sub[ds[0]] = (sym(role) - (v - sym(ds[0]) * co)) * co
                else:
                    eqs += [sym(role) - v, v - sym(role)]
        elif isinstance(v, C.Dbl) and v.t[0] != "c":
            dterm[v.t] = ("fld", o.cls, f)
        elif isinstance(v, C.Ptr) and isinstance(v.o, C.Obj):
            offs[(v.o.name, v.off.key())] = sym("off(%s)" % role)
    return sub, dterm, offs, eqs


# ---------------------------------------------------------------- comparison
def compare(c, e, nm, site, routes, scores):
    what = "routing at the nodes built at %s" % site
    wh = routes[0].where
    if not scores:
        c.unsure(what, wh, "no path of the scoring function meets these nodes")
        return
    pairs, bad, open_ = 0, [], []
    for g in routes:
        hit = False
        for s in scores:
            pairs += 1
            t = F.together(g.snap, s.snap)
            if t is None:
                continue
            if g.child == s.child:
                hit = True
                continue
            w = confirm(g, s, t)
            (bad if w else open_).append((g, s, w))
        if not hit and not any(q[0] is g for q in bad):
            open_.append((g, None, None))
    if bad:
        g, s, w = bad[0]
        c.fail(what, s.where, "%s: growing sends it to %s (%s), scoring %s" % (w, g.child, g.where, "follows %s" % s.child if s.child else "stops at the node"))
    elif open_:
        g, s, w = open_[0]
        c.unsure(what, s.where if s else g.where, "conditions of a growing path to %s and of a scoring path to %s cannot be compared" % (g.child, s.child if s else "none"))
    else:
        c.ok(what, wh, "%d growing and %d scoring paths, %d pairs: those that disagree exclude each other" % (len(routes), len(scores), pairs))


def confirm(g, s, t):
    """what an observation on which the two paths disagree looks like, or None"""
    kg, ks = kind(g), kind(s)
    if s.child is None and not (kg and ks):
        return "every observation" if not ks else None
    if kg and ks and kg != ks:
        return "an attribute that growing reads from %s and scoring from %s" % (kg, ks)
    dirty = [q for q in list(g.atoms) + [str(k) for k in g.cond[1]] + [str(k) for k in g.cond[2]] if "draw@" in q]
    strings = bool(g.atoms or s.atoms)
    if strings:
        w = strings_witness(g, s)
        return w
    terms = set()
    for q in (g.cond, s.snap):
        terms |= set(q[1])
        for a, b in q[2]:
            terms |= {a, b}
    if any(x[0] not in ("ld", "fld", "c") for x in terms):
        return None
    nan = [name(k) + (" missing" if v else " not missing") for k, v in sorted(t[1].items(), key=str) if k in terms]
    rel = ["%s %s %s" % (name(a), "/".join(sorted(v)).replace("u", "unordered with"), name(b)) for (a, b), v in sorted(t[2].items(), key=str) if {a, b} <= terms and v != {"u"}]
    return "for " + ", ".join(nan + rel) if nan or rel else "every observation"


def name(t):
    if t[0] == "fld":
        return "the node's %s" % t[2]
    if t[0] == "ld":
        ix = ", ".join(repr(P(dict(k))) for k in t[2])
        return "the observation's number" if ix.endswith("OB") and "Node." in ix and ix.count(",") == 1 and " " not in ix.split(",")[0] else "number [%s]" % ix
    return str(t[1])


def kind(r):
    """which array the conditions of a route read"""
    out = set()
    for t in list(r.cond[1] if hasattr(r, "cond") else r.snap[1]) + [x for k in (r.cond[2] if hasattr(r, "cond") else r.snap[2]) for x in k]:
        if t[0] == "ld":
            out.add(t[1])
    for fn, ps, w in r.atoms.values():
        for o, k in ps:
            out.add(o)
    return "/".join(sorted(out)) if out else None


def strings_witness(g, s):
    """strings on which both conditions hold, by evaluating the extracted conditions on all strings of small widths"""
    atoms = dict(g.atoms)
    atoms.update(s.atoms)
    ptrs = sorted({p for fn, ps, w in atoms.values() for p in ps})
    if len(ptrs) > 3 or not ptrs:
        return None
    facts = []
    for f in g.cond[0] + s.snap[0]:
        if any(q in atoms for q in f.syms()):
            if all(q in atoms or q.startswith("itemsize(") for q in f.syms()):
                facts.append(f)
            else:
                return None
    for W in (1, 2, 3):
        if len(ptrs) == 3 and W == 3:
            break
        strs = [q for q in itertools.product(range(3), repeat=W)]
        strs = [q for q in strs if all(not (q[i] == 0 and q[i + 1]) for i in range(W - 1))]
        for ws in itertools.product(strs, repeat=len(ptrs)):
            val = dict(zip(ptrs, ws))
            try:
                env = {}
                for nm in atoms:
                    env[nm] = strval(atoms, nm, val, W, env)
                if all(ev(f, env, W) >= 0 for f in facts):
                    d = {p: "".join("\\0ab"[b + 1] if b else "" for b in val[p]) for p in ptrs}
                    return "for strings of width %d: %s" % (W, ", ".join("%s '%s'" % ("the node's" if "off(" in repr(P(dict(p[1]))) else "the observation's", v) for p, v in sorted(d.items(), key=str)))
            except KeyError:
                return None
    return None


def ev(f, env, W):
    r = 0
    for mono, c in f.m.items():
        x = c
        for q in mono:
            x = x * (W if q.startswith("itemsize(") else env[q])
        r += x
    return r


def strval(atoms, nm, val, W, env):
    fn, ps, w = atoms[nm]

    def num(p):
        r = 0
        for mono, c in p.m.items():
            x = c
            for q in mono:
                x = x * (W if q.startswith("itemsize(") else strval(atoms, q, val, W, env))
            r += x
        return r
    k = W if w is None else num(w)
    a = val[ps[0]] + (0,) * 8
    if fn == "strnlen":
        n = (val[ps[0]] + (0,)).index(0)
        return min(n, k)
    if fn == "strlen":
        return (val[ps[0]] + (0,)).index(0)
    b = val[ps[1]] + (0,) * 8
    for i in range(max(0, min(k, W + 1))):
        if a[i] != b[i]:
            return 1 if a[i] > b[i] else -1
        if fn in ("strncmp", "strcmp") and a[i] == 0:
            return 0
    return 0
