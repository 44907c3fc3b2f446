"""P34: the bundled data set is located next to the module, parsed with its dates, loaded once and shipped."""
import ast, csv, fnmatch, io, os, re, zipfile, datetime
from sa.ctx import *
from sa import objflow as O

DS = "frds.datasets"
GOOD = {"compression": ("infer", "zip"), "sep": (",",), "delimiter": (",", None), "header": (0, "infer"), "encoding": ("utf-8", "utf8", None), "engine": ("c", "python", None),
        "low_memory": (True, False), "memory_map": (True, False), "cache_dates": (True, False), "dayfirst": (False,), "float_precision": (None, "high", "round_trip", "legacy"),
        "date_format": (None, "%Y-%m-%d", "ISO8601"), "skip_blank_lines": (True,), "decimal": (".",), "verbose": (False,), "quotechar": ('"',)}


def run(c):
    c.rule("The data set module is interpreted abstractly with its own location and the working directory as distinct symbolic roots, over histories "
           "(import; first access; change of directory; repeated access; second construction; access after a failed read): every read must name the "
           "file beside the module, with options that keep all rows and index them by parsed dates, and happen once. The distribution's manifest is "
           "evaluated over the tree.")
    root = os.path.join(c.repo, "src", "frds")
    c.attempt("access", DS, lambda: access(c, root))
    c.attempt("distribution", "setup.py", lambda: shipped(c, root))


def files(root):
    out = set()
    for d, ds, fs in os.walk(root):
        for f in fs:
            out.add(O.PKG + "/" + os.path.relpath(os.path.join(d, f), root).replace(os.sep, "/"))
    return out


def access(c, root):
    have = files(root)
    worlds = [("an empty working directory", lambda p: p in have),
              ("a working directory holding files of the same names", lambda p: p in have or not p.startswith(O.PKG)),
              ]
    found = None
    for wn, ex in worlds:
        for fail in (0, 1):
            w = O.World(ex, 0)
            fl = O.Flow(root, "frds", w)
            w.failing = 0
            name = "bundled data, %s%s" % (wn, ", first read fails" if fail else "")
            try:
                m = fl.module(DS)
                at_import = len(w.reads)
                w.cwd = O.CWD + "1/a"
                w.failing = fail
                obj = m.ns.get("StockReturns")
                if obj is None:
                    raise Undecided("no StockReturns in %s" % DS)
                vals = []
                if fail:
                    try:
                        fl.getattr(obj, "stocks_us")
                        if at_import:
                            c.note("data loaded at import")
                        else:
                            c.fail(name, DS, "a failed read is swallowed: the access returns as if the data had been loaded")
                            continue
                    except O.Raised:
                        pass
                for cwd in "123":
                    w.cwd = O.CWD + cwd + "/a" * int(cwd)
                    vals.append(fl.getattr(obj, "stocks_us"))
                cls = obj.cls if isinstance(obj, O.Inst) else None
                if cls is not None:
                    o2 = fl.call(cls, [], {}, None)
                    w.cwd = O.CWD + "4"
                    vals.append(fl.getattr(o2, "stocks_us"))
                    # a fresh import statement elsewhere
                    vals.append(fl.getattr(fl.module(DS).ns["StockReturns"], "stocks_us"))
            except O.Raised as r:
                last = w.reads[-1] if w.reads else None
                c.fail(name, DS, "access raises %s%s" % (r.name, " after reading %s (working directory %s)" % (last[0], last[4]) if last else ""))
                continue
            for f in fl.fns:
                c.seen("src/frds/datasets:" + f)
            for v in vals:
                if not isinstance(v, O.Data):
                    if isinstance(v, O.Opaque):
                        raise Undecided("stocks_us returns %s" % v.why)
                    c.fail(name, DS, "stocks_us returns %r, not the loaded frame" % (v,))
                    break
            else:
                for ap, p, opts, ln, cwd in w.reads:
                    c.check(name + ": path", "src/frds/datasets line %s" % ln, ap in have,
                            "reads %s, which is not a file of the installed package" % p)
                    options(c, name, ln, opts)
                    found = ap
                ok = len(w.reads) - fail <= 1 and len({v.rid for v in vals}) == 1
                c.check(name + ": loaded once", DS, ok, "%d reads for five accesses (working directories %s)" % (len(w.reads), [r[4] for r in w.reads]))
                c.check(name + ": dates as index", DS, all(v.index == "Date" and "Date" in v.parsed for v in vals),
                        "index %s, parsed columns %s" % (vals[0].index, sorted(vals[0].parsed)))
    if found is not None:
        p = os.path.join(root, found[len(O.PKG) + 1:])
        z = zipfile.ZipFile(p)
        c.check("archive holds one member", found, len(z.namelist()) == 1, "members %s" % z.namelist())
        rows = list(csv.reader(io.TextIOWrapper(z.open(z.namelist()[0]), encoding="utf8")))
        c.check("first column is Date", found, rows[0][0] == "Date", "header %s" % rows[0])
        bad = []
        for r in rows[1:]:
            try:
                datetime.date.fromisoformat(r[0])
            except ValueError:
                bad.append(r[0])
        c.check("all dates parse", found, not bad, "unparsable dates %s" % bad[:3])
        c.zip = found


def options(c, name, ln, opts):
    for k, v in opts.items():
        if k in ("index_col", "parse_dates"):
            continue
        if k in GOOD:
            c.check(name + ": option " + k, "src/frds/datasets line %s" % ln, not isinstance(v, O.Opaque) and v in GOOD[k], "%s=%r changes what is read" % (k, v))
        elif k in ("nrows", "skiprows", "usecols", "skipfooter", "names", "chunksize", "iterator", "thousands", "comment"):
            c.check(name + ": option " + k, "src/frds/datasets line %s" % ln, v is None or v == 0 and k != "nrows", "%s=%r changes what is read" % (k, v))
        else:
            raise Undecided("read_csv option %s" % k)


def shipped(c, root):
    zips = [f for f in files(root) if f.endswith(".zip")]
    tgt = getattr(c, "zip", None)
    if tgt is None:
        raise Undecided("data file not determined")
    rel = "src/frds" + tgt[len(O.PKG):]
    tree = ast.parse(open(os.path.join(c.repo, "setup.py"), encoding="utf8").read())
    call = [x for x in ast.walk(tree) if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] == "setup"]
    if len(call) != 1:
        raise Undecided("setup() call")
    kw = {k.arg: k.value for k in call[0].keywords}
    pyp = open(os.path.join(c.repo, "pyproject.toml"), encoding="utf8").read()
    pk = "packages" in kw and ast.unparse(kw["packages"]) or ""
    c.check("package directory is a package", "setup.py", os.path.exists(os.path.join(c.repo, os.path.dirname(rel), "__init__.py")) and
            (("find_packages" in pk or "find_namespace_packages" in pk) or "frds.datasets" in pk or "packages" not in kw), "packages=%s" % pk)
    c.seen("setup.py", "MANIFEST.in")
    pd = None
    if "package_data" in kw:
        try:
            pd = ast.literal_eval(kw["package_data"])
        except ValueError:
            raise Undecided("package_data")
    base = os.path.basename(rel)
    by_pd = bool(pd) and any(k in ("", "frds", "frds.datasets") and any(fnmatch.fnmatch(base if k != "frds" else "datasets/" + base, g) for g in v) for k, v in pd.items())
    by_pd = by_pd or bool(re.search(r"^\[tool\.setuptools\.package-data\][^\[]*\.zip", pyp, re.S | re.M))
    inc = "include_package_data" in kw and ast.unparse(kw["include_package_data"]) == "True"
    inc = inc or bool(re.search(r"^include-package-data\s*=\s*true", pyp, re.M))
    man = manifest(os.path.join(c.repo, "MANIFEST.in"), rel)
    if "exclude_package_data" in kw:
        raise Undecided("exclude_package_data")
    c.check("data file is shipped", "setup.py, MANIFEST.in", by_pd or inc and man, "%s is covered neither by package_data nor by include_package_data with the manifest" % rel)


def manifest(p, rel):
    on = False
    if not os.path.exists(p):
        return False
    for ln in open(p, encoding="utf8"):
        w = ln.split("#")[0].split()
        if not w:
            continue
        d, b = os.path.split(rel)
        k = w[0]
        pats = w[1:]
        if k in ("include", "exclude"):
            hit = any(fnmatch.fnmatch(rel, g) and g.count("/") == rel.count("/") for g in pats)
        elif k in ("recursive-include", "recursive-exclude"):
            hit = (d + "/").startswith(pats[0].rstrip("/") + "/") and any(fnmatch.fnmatch(b, g) for g in pats[1:])
        elif k in ("global-include", "global-exclude"):
            hit = any(fnmatch.fnmatch(b, g) for g in pats)
        elif k in ("graft", "prune"):
            hit = (d + "/").startswith(pats[0].rstrip("/") + "/")
        else:
            raise Undecided("manifest command %s" % k)
        if hit:
            on = k in ("include", "recursive-include", "global-include", "graft")
    return on
