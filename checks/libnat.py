"""The native entry points, analysed path by path (shared by P11-P16)."""
import os
from sa import cpath as C, capi, cxx
from sa.terms import Undecided

MEM = ("bounds", "extent", "ndim", "dtype", "layout", "notarray", "overflow", "range", "div", "scope", "misaligned")
API = ("null", "released", "uninit", "gil", "threads", "exit", "parse", "writeback", "worker", "leak")
MODS = ("utils_ext", "measures_ext", "iforest_ext")


class Entry:
    def __init__(self, mod, src, py, cn, config):
        self.mod, self.src, self.py, self.cn, self.config = mod, src, py, cn, config
        self.faults, self.unsure, self.stats, self.m = {}, {}, {}, None
        self.logs = []


def modules(repo):
    out = []
    for nm, ss in sorted(cxx.sources(repo).items()):
        out.append((nm, ss[0]))
    return out


def atexit(m, d, r):
    """obligations where control returns to the interpreter"""
    w = d
    if r is C.UNDEF:
        m.fault("uninit", w, "an uninitialised pointer is returned")
        return
    if isinstance(r, (C.P, bool)) and m.num(r).const() == 0:
        r = None
    if r is None and m.exc is None:
        m.fault("exit", w, "NULL is returned without an exception set%s" % notes(m))
    if r is not None and m.exc is not None:
        m.fault("exit", w, "a result is returned with an exception (%s) set" % m.exc)
    if not m.gil:
        m.fault("gil", w, "the function returns with the interpreter lock released")
    balance(m, w, r)


def notes(m):
    return ""


def balance(m, w, r):
    for o in m.objs:
        if o.borrowed:
            # INCREFs of borrowed references
            extra = o.own - (1 if o is r else 0)
            if extra > 0:
                m.fault("leak", w, "a new reference to %s is never released" % o.name)
            elif extra < 0:
                m.fault("released", w, "the borrowed %s is returned without a new reference" % o.name)
            continue
        want = 1 if o is r else 0
        if o.own > want:
            m.fault("leak", o.made if getattr(o, "made", None) is not None else w, "%s is not released on a path that %s" % (o.name, "returns a result" if r is not None else "fails"))
        elif o.own < want:
            m.fault("released", w, "%s is returned after its last reference was released" % o.name)
    if isinstance(r, C.Obj) and r.borrowed and r.kind != "none" and r not in m.objs:
        m.fault("released", w, "the borrowed %s is returned without a new reference" % r.name)
    for t in m.threads:
        if not t.joined:
            m.fault("threads", t.node, "a worker thread is not joined on a path to the end of the entry point")
            break


def explore(repo, nm, src, py, cn, config, prep=None):
    e = Entry(nm, src, py, cn, config)
    m = C.M(repo, src, config)
    e.m = m
    ds = m.defs.get(cn)
    if not ds:
        raise Undecided("entry point %s of %s not found" % (cn, nm))
    d = ds[0]
    e.where = m.where(d)
    if prep:
        prep(m)

    def go():
        m.fnname = cn
        m.ended = None
        s, a = C.Obj("self", "module", 0, True), C.Obj("args", "tuple", 0, True)
        try:
            r = m.call(d, [s, a], None, None, d)
        except C.Throw as x:
            m.fault("exit", d, "a C++ exception (%s) leaves the entry point" % x.kind)
            return
        m.ended = "result" if r is not None else "failure"
        m.stats["exits"].add((m.ended, m.exc))
        atexit(m, d, r)
    m.onend = lambda mm: e.logs.append(list(mm.log)) if config and config.get("keep") else None
    m.onstart = lambda: e.logs.clear()
    m.explore(go)
    e.faults, e.unsure, e.stats = m.faults, m.unsure, m.stats
    e.paths = m.paths
    return e


def configs(tier):
    return ((0, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4))


def every(c, prep=None, only=None):
    """all entries under all configurations"""
    out = []
    ms = modules(c.repo)
    if not ms:
        raise Undecided("setup.py names no extension module")
    for nm, src in ms:
        short = nm.split(".")[-1]
        if only and short not in only:
            continue

        def one(nm=nm, src=src):
            m = C.M(c.repo, src)
            if not m.table:
                raise Undecided("no method table in %s" % src)
            thr = uses_threads(m)
            for py, cn in sorted(m.table.items()):
                for w in (configs(c.tier) if thr else (None,)):
                    def two():
                        e = explore(c.repo, nm, src, py, cn, {"workers": w} if w is not None else {}, prep)
                        out.append(e)
                    c.attempt("entry point %s.%s%s" % (nm, py, "" if w is None else " with %d workers" % w), src, two)
        c.attempt("extension " + nm, src, one)
    return out


def uses_threads(m):
    return any(n.kind in ("DeclRefExpr", "CXXConstructExpr") and ("hardware_concurrency" in ((n.get("referencedDecl") or {}).get("name") or "") or "std::thread" in n.type)
               for dd in m.unit.decls for n in dd.walk())


def label(e):
    return "%s.%s" % (e.mod.split(".")[-1], e.py)


def report(c, entries, rules, kind):
    """one obligation per construct and entry point, joined over the configurations"""
    by = {}
    for e in entries:
        by.setdefault(label(e), []).append(e)
    for lb, es in by.items():
        faults, unsure, sites = {}, {}, set()
        for e in es:
            for (rule, where, msg), fn in e.faults.items():
                if rule in rules:
                    faults.setdefault((rule, where), []).append(msg)
            for (where, msg) in e.unsure:
                unsure.setdefault((where, msg), e)
            sites |= kind(e)
            for w, f in e.stats["fns"]:
                c.seen("%s %s" % (w, f))
        seen = set()
        for (rule, where), ms in sorted(faults.items()):
            msgs = sorted(set(ms), key=len)
            c.fail("%s: %s" % (lb, rule), where, "; ".join(msgs[:2]))
            seen.add(where)
        uw = {w for w, _ in unsure}
        for where, what in sorted(sites):
            if where in seen or where in uw:
                continue
            c.ok("%s: %s" % (lb, what), where, "on all %d paths" % sum(e.paths for e in es))
        for where, msg in sorted(unsure):
            if where in seen:
                continue
            mem = msg.split(":")[0] in MEM
            if mem and not (set(rules) & set(MEM)):
                continue
            c.unsure("%s: path" % lb, where, msg)
        c.note("%s: %s" % (lb, ", ".join("%s%d paths, %d loops, %d API calls" % ("%d workers: " % e.config["workers"] if e.config.get("workers") is not None else "", e.paths, len(e.stats["loops"]), len(e.stats["api"])) for e in es)))
