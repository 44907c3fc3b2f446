"""P10: no lasting change to process-wide state, no stray file access, no network."""
import ast, os, re
from sa.ctx import *
from sa import resolve as R, effects as E, clangast
from checks.lib import *

# process-wide setters -> context managers that undo them
SET = [(re.compile(r"^warnings\.(filterwarnings|simplefilter|resetwarnings)$"), ("warnings.catch_warnings",)),
       (re.compile(r"^numpy\.(seterr|seterrcall|seterrobj|_set_errstate)$"), ("numpy.errstate",)),
       (re.compile(r"^numpy\.(set_printoptions|set_string_function)$"), ("numpy.printoptions",)),
       (re.compile(r"^pandas\.(set_option|reset_option|set_eng_float_format)$"), ("pandas.option_context",)),
       (re.compile(r"^pandas\.(plotting\.register_matplotlib_converters|core\.config_init\.)"), ()),
       (re.compile(r"^matplotlib(\.pyplot)?\.(rc|rcdefaults|rc_file|rc_file_defaults|rcParams\.\w+|style\.use|xkcd)$"),
        ("matplotlib.rc_context", "matplotlib.pyplot.rc_context", "matplotlib.style.context", "matplotlib.pyplot.style.context")),
       (re.compile(r"^matplotlib\.(use|pyplot\.(switch_backend|ion|ioff))$"), ("matplotlib.pyplot.ion", "matplotlib.pyplot.ioff")),
       (re.compile(r"^os\.(chdir|fchdir|chroot|putenv|unsetenv|umask|nice|setuid|setgid|setpriority|sched_setaffinity|environ\.(update|setdefault|pop|clear|popitem|"
                   r"__setitem__|__delitem__))$"), ("contextlib.chdir",)),
       (re.compile(r"^sys\.(setrecursionlimit|settrace|setprofile|setswitchinterval|set_int_max_str_digits|path\.\w+|modules\.(update|setdefault|pop|clear)|"
                   r"meta_path\.\w+|path_hooks\.\w+|set_asyncgen_hooks|setdlopenflags)$"), ()),
       (re.compile(r"^(locale\.setlocale|logging\.(basicConfig|disable|captureWarnings|shutdown|setLoggerClass|addLevelName)|signal\.(signal|alarm|setitimer)|"
                   r"gc\.(disable|enable|freeze|set_threshold|set_debug)|decimal\.(setcontext)|threading\.(setprofile|settrace|stack_size)|"
                   r"multiprocessing\.set_start_method|faulthandler\.\w+|tracemalloc\.(start|stop)|time\.tzset|atexit\.register|socket\.setdefaulttimeout|"
                   r"resource\.setrlimit|random\.(seed|setstate)|numpy\.random\.(seed|set_state)|mpmath\.\w+\.dps|asyncio\.set_event_loop\w*|"
                   r"csv\.(field_size_limit|register_dialect)|mimetypes\.init|codecs\.register\w*|copyreg\.pickle|builtins\.setattr|importlib\.reload|"
                   r"numba\.set_num_threads|pandas\.api\.extensions\.register_\w+|pandas\.option_context\.__enter__|warnings\.filters\.\w+|numpy\.setbufsize)$"),
        ("decimal.localcontext",))]
WRITEFN = re.compile(r"^(os\.(remove|unlink|rmdir|removedirs|mkdir|makedirs|rename|renames|replace|link|symlink|truncate|mkfifo|mknod|chmod|chown|utime|open|"
                     r"system|popen|spawn\w*|exec\w*|posix_spawn\w*|write|kill|fork|startfile)|shutil\.(?!which|get_terminal_size|disk_usage)\w+|subprocess\.\w+|"
                     r"pty\.\w+|tempfile\.\w+|sqlite3\.connect|shelve\.open|dbm\.\w+|"
                     r"numpy\.(save|savez|savez_compressed|savetxt|memmap|lib\.format\.\w+)|pickle\.(dump|Pickler)|joblib\.dump|scipy\.io\.(savemat|\w*write\w*)|"
                     r"json\.dump|logging\.(FileHandler|handlers\.\w+)|pandas\.(HDFStore|ExcelWriter)|matplotlib\.pyplot\.(savefig|imsave)|matplotlib\.image\.imsave|"
                     r"zipfile\.ZipFile|tarfile\.open|gzip\.open|bz2\.open|lzma\.open|matplotlib\.backends\.backend_pdf\.PdfPages|builtins\.open|io\.open|codecs\.open|"
                     r"ctypes\.\w*DLL.*|webbrowser\.\w+)$")
WRITEMETH = {"to_csv", "to_excel", "to_parquet", "to_pickle", "to_hdf", "to_feather", "to_stata", "to_sql", "to_json", "to_html", "to_latex", "to_markdown",
             "to_xml", "to_gbq", "to_orc", "to_string", "to_clipboard", "savefig", "imsave", "tofile", "dump", "write_text", "write_bytes", "mkdir", "touch", "unlink", "rmdir",
             "symlink_to", "hardlink_to", "savez", "print_figure", "print_png", "print_pdf", "save"}
OPTPATH = {"to_csv", "to_json", "to_html", "to_latex", "to_markdown", "to_xml", "to_string"}
OPEN = {"builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "zipfile.ZipFile", "tarfile.open", "os.open", "numpy.memmap"}
NET = re.compile(r"^(urllib\.request|urllib3|requests|http\.(client|server)|socket\.(socket|create_connection|getaddrinfo|gethostbyname)|socketserver|ftplib|smtplib|"
                 r"poplib|imaplib|nntplib|telnetlib|aiohttp|httpx|websockets?|paramiko|boto3|botocore|yfinance|pandas_datareader|wrds|xmlrpc|ssl\.|psycopg2|"
                 r"sqlalchemy\.create_engine|pymongo|fredapi|quandl|datareader|fsspec|s3fs|asyncio\.open_connection|multiprocessing\.connection)(\.|$|\()")
URL = re.compile(r"^\s*(https?|ftps?|sftp|s3|gs|gcs|smb|hdfs|ssh)://", re.I)


def special(eff, sc, e, f, pos, kw):
    return set()


def run(c):
    c.rule("Every call and assignment of the package whose target is a library object is resolved through imports, aliases and helpers. A process-wide "
           "setter must lie inside the context manager that undoes it (in the function itself or at every call of it), or be undone in a finally clause; "
           "a file-writing operation must have a path made of a directory parameter of its public caller and a constant plain file name; no network "
           "operation. The compiled sources are scanned for their own file, environment, locale and floating-point-mode calls.")
    c.attempt("Python sources", "src/frds", lambda: py(c))
    c.attempt("compiled sources", "src/frds", lambda: native(c))


class Py:
    pass


def py(c):
    P = R.Package(c.repo)
    if P.bad:
        raise Undecided("%s does not parse" % P.bad[0][0])
    eff = E.Effects(P, special)
    par = eff.parents()
    o = Py()
    o.c, o.eff, o.par = c, eff, par
    # code run only when a module is executed as a script is not part of the library
    o.script = set()
    for s in eff.scopes.values():
        if isinstance(s.node, ast.Module):
            for st in ast.walk(s.node):
                if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and sorted(ast.unparse(x) for x in [st.test.left] + st.test.comparators) == ["'__main__'", "__name__"] \
                        and isinstance(st.test.ops[0], ast.Eq):
                    for b in st.body:
                        o.script |= {id(y) for y in ast.walk(b)}
    n = nset = nw = 0
    for s in eff.scopes.values():
        if s.kind == "fn":
            c.seen(eff.where(s, s.node))
    for k, (sc, e, f, pos, kw) in eff.calls.items():
        if id(e) in o.script:
            continue
        n += 1
        w = eff.where(sc, e)
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else None
        for x in sorted(f, key=str):
            if x[0] not in ("lib", "libobj"):
                continue
            p = x[1].replace("[]", "")
            for r, cms in SET:
                if r.match(p) and x[0] == "lib" or x[0] == "libobj" and nm in ("update", "setdefault", "pop", "clear") and re.match(
                        r"^(os\.environ|matplotlib(\.pyplot)?\.rcParams)\.\w+$", p) and r.match(p):
                    if p == "builtins.setattr" and not any(y[0] == "lib" for y in (pos[0] if pos else ())):
                        continue
                    nset += 1
                    name = "%s in %s" % (p, sc)
                    if covered(o, sc, e, cms) or restored(o, sc, e, p):
                        c.ok(name, w, "undone on every exit")
                    else:
                        c.fail(name, w, "changes process-wide state that outlives the call" + (" (import time)" if sc.fn() is None else ""))
                    break
            if x[0] == "lib" and NET.match(p):
                c.fail("network in %s" % sc, w, "%s is called" % p)
            if x[0] == "lib" and WRITEFN.match(p):
                if p in OPEN and readonly(e, p):
                    continue
                nw += 1
                wfile(o, sc, e, p, w)
        if nm in ("__enter__",) and any(x[0] == "libobj" and CM.match(x[1]) for x in eff.exprs.get(id(e.func.value), ())):
            if not finally_exit(o, sc, e):
                c.fail("context manager entered by hand in %s" % sc, w, "%s is not left when the call fails" % ast.unparse(e.func.value))
        if nm in WRITEMETH and not any(x[0] in ("fn", "bound", "cls", "inst", "lib") for x in f):
            if nm in OPTPATH and not e.args and not any(q.arg in ("path_or_buf", "buf", "path", "path_or_buffer") for q in e.keywords):
                continue
            if nm in ("dump", "save", "touch") and not e.args:
                continue
            nw += 1
            wfile(o, sc, e, nm, w)
        for a in list(e.args) + [q.value for q in e.keywords]:
            if any(x[0] in ("lib",) for x in f):
                for y in ast.walk(a):
                    if isinstance(y, ast.Constant) and isinstance(y.value, str) and URL.match(y.value) and re.search(r"read_|open|load|fetch|get", ast.unparse(e.func)):
                        c.fail("network in %s" % sc, w, "reads %s" % y.value[:60])
    stores(o)
    c.ok("%d calls of library objects examined: %d process-wide setters, %d file-writing operations" % (n, nset, nw), "src/frds", "effect analysis")
    c.note("%d calls, %d setters, %d writes, %d rounds" % (n, nset, nw, eff.rounds))


CM = re.compile(r"^(warnings\.catch_warnings|numpy\.errstate|numpy\.printoptions|pandas\.option_context|matplotlib\.\S*(rc_context|style\.context)|decimal\.localcontext|contextlib\.chdir)\(\)")


def finally_exit(o, sc, e):
    fn = sc.fn()
    root = fn.node if fn is not None else sc.node
    for t in ast.walk(root):
        if isinstance(t, ast.Try):
            for s in t.finalbody:
                for y in ast.walk(s):
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "__exit__" and \
                            ast.unparse(y.func.value) == ast.unparse(e.func.value):
                        return True
    return False


def covered(o, sc, node, cms, seen=()):
    """inside a with-block of one of the context managers, lexically or at every call of the enclosing function"""
    p = node
    fn = sc.fn()
    while p is not None and (fn is None or p is not fn.node):
        q = o.par.get(id(p))
        if isinstance(q, (ast.With, ast.AsyncWith)):
            upto = len(q.items) if p in q.body else [i for i, x in enumerate(q.items) if x is p][0] if p in q.items else 0
            for it in q.items[:upto]:
                if iscm(o, it.context_expr, cms):
                    return True
                # an exit stack entered with the manager before the node
                if any(x[0] == "libobj" and "ExitStack" in x[1] for x in o.eff.exprs.get(id(it.context_expr), ())) and it.optional_vars is not None:
                    nm = ast.unparse(it.optional_vars)
                    for y in ast.walk(q):
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "enter_context" and \
                                ast.unparse(y.func.value) == nm and y.args and iscm(o, y.args[0], cms) and y.lineno <= node.lineno:
                            return True
        p = q
    if fn is None:
        return False
    for d in getattr(fn.node, "decorator_list", ()):
        if iscm(o, d, cms):
            return True
    # a generator function used as a context manager
    calls = o.eff.callers.get(id(fn.node), ())
    if not calls or id(fn.node) in seen or not (fn.name.startswith("_") or fn.parent.fn() is not None) or fn.name.startswith("__"):
        return False
    for s, cid in calls:
        k = o.eff.calls.get(cid)
        if k is None or not covered(o, k[0], k[1], cms, seen + (id(fn.node),)):
            return False
    return True


def iscm(o, e, cms):
    for x in o.eff.exprs.get(id(e), ()):
        if x[0] == "libobj" and any(x[1] == m + "()" for m in cms):
            return True
        if x[0] == "lib" and x[1] in cms:
            return True
    return False


def restored(o, sc, e, p):
    """old = setter(...) or a getter before; try: ... finally: setter(old)"""
    fn = sc.fn()
    if fn is None:
        return False
    # the call is itself the restoring one
    q = e
    while q is not None and q is not fn.node:
        u = o.par.get(id(q))
        if isinstance(u, ast.Try) and q in u.finalbody:
            return any(isinstance(a, (ast.Name, ast.Starred)) or isinstance(a, ast.Attribute) for a in e.args) or any(k.arg is None for k in e.keywords)
        q = u
    # a try whose finally calls the same setter follows directly, or encloses the call
    q = e
    while q is not None and q is not fn.node:
        u = o.par.get(id(q))
        if isinstance(u, ast.Try) and q in u.body and fin(o, u, p):
            return True
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(u, fld, None)
            if isinstance(blk, list) and q in blk:
                i = blk.index(q)
                if i + 1 < len(blk) and isinstance(blk[i + 1], ast.Try) and fin(o, blk[i + 1], p):
                    return True
        q = u
    return False


def fin(o, t, p):
    for s in t.finalbody:
        for y in ast.walk(s):
            if isinstance(y, ast.Call) and any(x == ("lib", p) for x in o.eff.exprs.get(id(y.func), ())) and (
                    any(isinstance(a, (ast.Name, ast.Starred, ast.Attribute)) for a in y.args) or any(k.arg is None for k in y.keywords)):
                return True
    return False


def stores(o):
    """assignments to attributes or items of library objects"""
    c, eff = o.c, o.eff
    for i, s in eff.scopes.items():
        todo = list(s.node.body) if isinstance(s.node.body, list) else []
        while todo:
            x = todo.pop()
            if id(x) in o.script:
                continue
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            todo += list(ast.iter_child_nodes(x))
            ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if not isinstance(y, (ast.Attribute, ast.Subscript)):
                        continue
                    for v in eff.exprs.get(id(y.value), ()) or eff.ev(y.value, s):
                        glob = v[0] == "lib" or v[0] == "libobj" and re.match(
                            r"^(decimal\.getcontext\(\)|numpy\.\w+\(\)\.flags|logging\.getLogger\(\)|pandas\.options|locale|matplotlib\.rcParams)$", v[1]) and \
                            not v[1].startswith("numpy")
                        if glob:
                            tgt = v[1] + ("." + y.attr if isinstance(y, ast.Attribute) else "[...]")
                            name = "assignment to %s in %s" % (tgt, s)
                            if finally_store(o, s, x, y) or covered(o, s, x, ("matplotlib.rc_context", "matplotlib.pyplot.rc_context", "decimal.localcontext",
                                                                             "pandas.option_context", "unittest.mock.patch")):
                                c.ok(name, eff.where(s, x), "undone on every exit")
                            else:
                                c.fail(name, eff.where(s, x), "changes process-wide state that outlives the call")
                            break


def finally_store(o, s, x, y):
    txt = ast.unparse(y)
    fn = s.fn()
    if fn is None:
        return False
    q = x
    while q is not None and q is not fn.node:
        u = o.par.get(id(q))
        if isinstance(u, ast.Try) and (q in u.finalbody or q in u.body and has_store(u.finalbody, txt)):
            return True
        for fld in ("body", "orelse"):
            blk = getattr(u, fld, None)
            if isinstance(blk, list) and q in blk:
                k = blk.index(q)
                if k + 1 < len(blk) and isinstance(blk[k + 1], ast.Try) and has_store(blk[k + 1].finalbody, txt):
                    return True
        q = u
    return False


def has_store(body, txt):
    for s in body:
        for z in ast.walk(s):
            if isinstance(z, (ast.Assign, ast.Delete)) and any(ast.unparse(t) == txt for t in z.targets):
                return True
    return False


def readonly(e, p):
    mode = None
    if p == "os.open":
        return False
    i = 1
    if len(e.args) > i:
        mode = e.args[i]
    for k in e.keywords:
        if k.arg == "mode":
            mode = k.value
    if mode is None:
        return p != "numpy.memmap"
    return isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set("wax+")


PATHKW = ("path", "fname", "file", "filename", "path_or_buf", "buf", "fpath", "path_or_buffer", "excel_writer", "fid")


def wfile(o, sc, e, p, w):
    c = o.c
    name = "file written by %s in %s" % (p, sc)
    arg = e.args[0] if e.args else None
    for k in e.keywords:
        if k.arg in PATHKW:
            arg = k.value
    if p.endswith(".dump") or p == "dump":
        arg = e.args[1] if len(e.args) > 1 and p != "dump" else arg
    if p in ("mkdir", "touch", "unlink", "rmdir", "write_text", "write_bytes"):
        arg = e.func.value
    if sc.fn() is None:
        c.fail(name, w, "at import")
        return
    if re.match(r"^(os\.(system|popen|spawn|exec|posix|kill|fork|remove|unlink|rmdir|removedirs|rename|replace|chmod|chown|truncate)|subprocess|shutil|tempfile|ctypes|webbrowser)", p):
        c.fail(name, w, "%s is called" % p)
        return
    if arg is None:
        c.unsure(name, w, "no path")
        return
    mk = p in ("os.makedirs", "os.mkdir", "mkdir")
    raw = paths(o, sc, arg, 0)
    if mk:
        # creating the chosen directory itself, or a default of the same meaning, is within it
        raw = [v for v in raw if v not in (("parts", ["DIR"]), ("parts", ["."]))]
    vs = [norm(v) for v in raw]
    bad = [v for v in vs if v[0] == "bad"]
    unk = [v for v in vs if v[0] == "unk"]
    if not reach_sim(o, sc):
        c.fail(name, w, "only the figure-producing simulation writes files")
    elif bad:
        c.fail(name, w, bad[0][1])
    elif unk:
        c.unsure(name, w, "path %s" % unk[0][1])
    else:
        c.ok(name, w, "a plain file in the caller's directory")


def reach_sim(o, sc, seen=()):
    """the function is the simulation or is only reached from it"""
    fn = sc.outer_fns()[-1] if sc.outer_fns() else None
    if fn is None:
        return False
    if any(isinstance(x, ast.Attribute) and x.attr in ("figure", "subplots", "savefig", "scatter", "plot") for x in ast.walk(fn.node)) and \
            any(pp.lower().startswith(("direc", "dir", "out", "path", "folder")) for pp in fn.params):
        return True
    calls = o.eff.callers.get(id(fn.node), ())
    if not calls or id(fn.node) in seen:
        return False
    for s, cid in calls:
        if not reach_sim(o, o.eff.scopes[s], seen + (id(fn.node),)):
            return False
    return True


def norm(v):
    """('parts', [...]) -> verdict; parts are 'DIR' (the caller's directory), constants, or unknowns"""
    if v[0] != "parts":
        return v
    ps = v[1]
    if not ps or ps[0] != "DIR":
        if ps and isinstance(ps[0], tuple):
            if ps[0][1].startswith("os.getcwd"):
                return ("bad", "written into the working directory whatever directory the caller chose")
            return ("unk", str(ps[0][1]))
        return ("bad", "written to %r, outside the directory the caller chose" % "".join(str(x) for x in ps))
    rest = ps[1:]
    if not rest:
        return ("unk", "the directory itself")
    txt = ""
    for x in rest:
        if isinstance(x, tuple):
            return ("unk", str(x[1]))
        if x == "DIR":
            return ("unk", "directory used twice")
        txt += x
    if not txt.startswith("/"):
        return ("bad", "written beside the chosen directory (%r appended to its name)" % txt)
    comps = [q for q in txt.split("/") if q not in ("", ".")]
    if ".." in comps:
        return ("bad", "written outside the directory the caller chose (%r)" % txt)
    return ("good", txt)


def cat(a, b, sep=False):
    if a[0] != "parts":
        return a
    if b[0] != "parts":
        return b
    bp = b[1]
    if sep:
        if bp and isinstance(bp[0], str) and (bp[0].startswith("/") or bp[0] == "DIR"):
            return b
        return ("parts", a[1] + ["/"] + bp)
    return ("parts", a[1] + bp)


def paths(o, sc, e, d):
    """possible values of a path expression"""
    eff = o.eff
    if d > 12:
        return [("unk", "depth")]
    if isinstance(e, ast.Constant):
        return [("parts", [e.value])] if isinstance(e.value, str) else [("none", None)] if e.value is None else [("unk", repr(e.value))]
    if isinstance(e, ast.JoinedStr):
        out = [("parts", [])]
        for v in e.values:
            vs = paths(o, sc, v.value if isinstance(v, ast.FormattedValue) else v, d + 1)
            out = [cat(a, b) for a in out for b in vs if b[0] != "none"]
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Div)):
        return [cat(a, b, isinstance(e.op, ast.Div)) for a in paths(o, sc, e.left, d + 1) for b in paths(o, sc, e.right, d + 1) if a[0] != "none" and b[0] != "none"]
    if isinstance(e, ast.IfExp):
        return paths(o, sc, e.body, d + 1) + paths(o, sc, e.orelse, d + 1)
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
        out = []
        for i, v in enumerate(e.values):
            out += [x for x in paths(o, sc, v, d + 1) if x[0] != "none" or i == len(e.values) - 1]
        # a default for a missing directory
        return [("parts", ["DIR"]) if x == ("parts", [("u", "os.getcwd")]) and any(y[0] == "parts" and y[1][:1] == ["DIR"] for y in out) else x for x in out]
    if isinstance(e, ast.Call):
        f = eff.exprs.get(id(e.func), ())
        lp = [x[1] for x in f if x[0] == "lib"]
        if any(p in ("os.path.join", "posixpath.join") for p in lp):
            out = [("parts", [])]
            first = True
            for a in e.args:
                vs = paths(o, sc, a, d + 1)
                out = [cat(q, b, not first) for q in out for b in vs if b[0] != "none"]
                first = False
            return out
        if any(p in ("pathlib.Path", "pathlib.PurePath", "builtins.str", "os.fspath", "os.path.abspath", "os.path.expanduser", "os.path.normpath",
                     "os.path.realpath") for p in lp) and len(e.args) == 1:
            return paths(o, sc, e.args[0], d + 1)
        if any(p in ("pathlib.Path", "pathlib.PurePath") for p in lp) and e.args:
            out = paths(o, sc, e.args[0], d + 1)
            for a in e.args[1:]:
                out = [cat(q, b, True) for q in out for b in paths(o, sc, a, d + 1)]
            return out
        if any(p in ("os.getcwd", "pathlib.Path.cwd") for p in lp):
            return [("parts", [("u", "os.getcwd")])]
        if any(p.startswith("tempfile.") for p in lp):
            return [("bad", "written to a temporary file")]
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("joinpath",):
            out = paths(o, sc, e.func.value, d + 1)
            for a in e.args:
                out = [cat(q, b, True) for q in out for b in paths(o, sc, a, d + 1)]
            return out
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("resolve", "absolute", "expanduser", "rstrip") or isinstance(e.func, ast.Attribute) and e.func.attr == "format":
            if e.func.attr != "format":
                return paths(o, sc, e.func.value, d + 1)
        for x in f:
            if x[0] in ("fn", "bound"):
                g = eff.scopes[x[1]]
                out = []
                for y in ast.walk(g.node):
                    if isinstance(y, ast.Return) and y.value is not None:
                        out += paths(o, g, y.value, d + 1)
                if g.kind == "lambda":
                    out = paths(o, g, g.node.body, d + 1)
                return out or [("unk", "result of %s" % g.name)]
        return [("unk", ast.unparse(e)[:40])]
    if isinstance(e, ast.Name):
        ow = eff.owner(sc, e.id)
        if ow is None:
            return [("unk", e.id)]
        out = []
        asg = []
        for x in (ast.walk(ow.node)):
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and getattr(x, "value", None) is not None:
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Name) and t.id == e.id and owner_of(o, x, ow):
                        asg.append(x)
                    elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(y, ast.Name) and y.id == e.id for y in t.elts) and owner_of(o, x, ow):
                        return [("unk", e.id)]
            elif isinstance(x, ast.For) and any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(x.target)) and owner_of(o, x, ow):
                if isinstance(x.iter, (ast.List, ast.Tuple)) and isinstance(x.target, ast.Name):
                    for el in x.iter.elts:
                        out += paths(o, ow, el, d + 1)
                else:
                    return [("unk", e.id)]
        if e.id in ow.params and ow.kind in ("fn", "lambda"):
            out += param(o, ow, e.id, d)
        for x in asg:
            if any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(x.value)):
                # re-definition in terms of itself: keep what the other definitions give (str(direc), Path(direc), ...)
                vs = [v for v in paths_self(o, ow, x.value, e.id, out or [("parts", ["DIR"])], d)]
                out = out + vs
                continue
            vs = paths(o, ow, x.value, d + 1)
            if e.id in ow.params and none_guard(o, x, e.id):
                vs = [("parts", ["DIR"]) if v == ("parts", [("u", "os.getcwd")]) else v for v in vs]
            out += vs
        return [v for v in out if v[0] != "none"] or [("unk", e.id)]
    if isinstance(e, ast.Attribute):
        return [("unk", ast.unparse(e)[:40])]
    return [("unk", ast.unparse(e)[:40])]


def paths_self(o, sc, e, name, base, d):
    if isinstance(e, ast.Name) and e.id == name:
        return base
    if isinstance(e, ast.Call) and len(e.args) == 1 and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(e.args[0])):
        return paths_self(o, sc, e.args[0], name, base, d)
    if isinstance(e, ast.IfExp):
        out = []
        for z in (e.body, e.orelse):
            out += paths_self(o, sc, z, name, base, d)
        return [("parts", ["DIR"]) if v == ("parts", [("u", "os.getcwd")]) else v for v in out]
    if isinstance(e, ast.BoolOp):
        out = []
        for z in e.values:
            out += paths_self(o, sc, z, name, base, d)
        return [("parts", ["DIR"]) if v == ("parts", [("u", "os.getcwd")]) else v for v in out]
    return paths(o, sc, e, d + 4)


def owner_of(o, x, ow):
    p = o.par.get(id(x))
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module, ast.Lambda)):
        p = o.par.get(id(p))
    return p is ow.node


def none_guard(o, x, name):
    p = x
    while p is not None and not isinstance(p, ast.FunctionDef):
        u = o.par.get(id(p))
        if isinstance(u, ast.If):
            t = u.test
            pos = p in u.body
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == name and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                if isinstance(t.ops[0], (ast.Is, ast.Eq)) and pos or isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) and not pos:
                    return True
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name) and t.operand.id == name and pos:
                return True
            if isinstance(t, ast.Name) and t.id == name and not pos:
                return True
        p = u
    return False


def param(o, fn, name, d):
    """a parameter: the caller's directory for a public function, else whatever the callers pass"""
    calls = o.eff.callers.get(id(fn.node), ())
    private = fn.name.startswith("_") or fn.parent.fn() is not None or fn.kind == "lambda"
    out = []
    for s, cid in calls:
        k = o.eff.calls.get(cid)
        if k is None:
            continue
        sc, e = k[0], k[1]
        if any(x[1] == id(fn.node) for x in k[2] if x[0] in ("fn", "bound")):
            names = [q.arg for q in fn.node.args.posonlyargs + fn.node.args.args]
            if any(x[0] == "bound" for x in k[2]):
                names = names[1:]
            for i, a in enumerate(e.args):
                if i < len(names) and names[i] == name:
                    out += paths(o, sc, a, d + 1)
            for q in e.keywords:
                if q.arg == name:
                    out += paths(o, sc, q.value, d + 1)
    if private and out:
        return out
    return [x for x in out if x[0] not in ("none", "unk") and sc_is_function(calls, o)] + [("parts", ["DIR"])]


def sc_is_function(calls, o):
    return False


NATFN = {"fopen", "freopen", "open", "creat", "remove", "unlink", "rename", "mkdir", "rmdir", "system", "popen", "fork", "execve", "setenv", "putenv", "unsetenv",
         "chdir", "setlocale", "fesetround", "feenableexcept", "fedisableexcept", "fesetenv", "feupdateenv", "feholdexcept", "signal", "sigaction", "socket", "connect", "setrlimit", "_mm_setcsr",
         "umask", "atexit", "omp_set_num_threads", "PyRun_SimpleString", "PyRun_String", "PySys_SetObject", "PyErr_WarnFormat", "std::locale::global", "global", "tmpfile", "mkstemp"}
NATOK = {"PyErr_WarnFormat"}


def native(c):
    P = R.Package(c.repo)
    for nm, src in sorted(P.native.items()):
        u = clangast.unit(c.repo, src)
        n = 0
        own = {d.get("id") for d in u.all() if d.kind in ("FunctionDecl", "CXXMethodDecl", "VarDecl", "ParmVarDecl", "FieldDecl")}
        for d in u.all():
            if d.kind == "DeclRefExpr":
                n += 1
                r = d.get("referencedDecl") or {}
                if r.get("kind") in ("FunctionDecl", "CXXMethodDecl") and r.get("name") in NATFN - NATOK and r.get("id") not in own:
                    c.fail("process-wide or file operation in %s" % nm, "%s:%s" % (rel(c, d.file), d.line), "%s is called" % r.get("name"))
            if d.kind == "VarDecl" and re.search(r"basic_(o?f|i?f)stream|basic_filebuf|FILE \*", d.type):
                c.fail("file operation in %s" % nm, "%s:%s" % (rel(c, d.file), d.line), "%s is a file stream" % d.name)
        c.ok("%d references in %s: no file, network or process-wide operation" % (n, nm), src, "clang AST scan")
        c.seen(src)
