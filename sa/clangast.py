"""Clang JSON syntax tree of the native sources (type-checked program, never built or run)."""
import bisect
import glob
import json
import os
import re
import subprocess
import sys
from .terms import Undecided

_cache = {}


def includes():
    out = []
    for p in ("/usr/include/python3.12",):
        if os.path.isdir(p):
            out.append(p)
    import sysconfig
    q = sysconfig.get_paths().get("include")
    if q and os.path.isdir(q) and q not in out:
        out.append(q)
    for pat in ("/opt/venv/lib/python3*/site-packages/numpy/core/include",
                "/opt/venv/lib/python3*/site-packages/numpy/_core/include",
                "/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy/_core/include"):
        g = glob.glob(pat)
        if g:
            out.append(g[0])
            break
    return out


class Node:
    """thin wrapper: kind, inner, attributes and source line"""
    __slots__ = ("d", "kind", "inner", "unit", "file", "parent")

    def __init__(self, d, unit, file, parent=None):
        self.d = d
        self.kind = d.get("kind")
        self.unit, self.file, self.parent = unit, file, parent
        self.inner = [Node(x, unit, file, self) for x in d.get("inner", ()) if x]

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def name(self):
        return self.d.get("name")

    @property
    def type(self):
        t = self.d.get("type") or {}
        return t.get("desugaredQualType") or t.get("qualType") or ""

    @property
    def qtype(self):
        return (self.d.get("type") or {}).get("qualType") or ""

    def offset(self):
        for key in (("range", "begin"), ("loc",)):
            x = self.d
            for k in key:
                x = x.get(k) or {}
            if "expansionLoc" in x:
                x = x["expansionLoc"]
            if "offset" in x:
                return x["offset"]
        return None

    @property
    def line(self):
        o = self.offset()
        if o is None:
            return self.parent.line if self.parent is not None else None
        return self.unit.line(self.file, o)

    def walk(self):
        yield self
        for x in self.inner:
            yield from x.walk()

    def find(self, *kinds):
        return [x for x in self.walk() if x.kind in kinds]

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name or "")


class Unit:
    def __init__(self, path, repo):
        self.path, self.repo = path, repo
        self.files = {}
        self.decls = []
        self.load()

    def line(self, file, off):
        s = self.files.get(file)
        if s is None:
            try:
                s = self.files[file] = open(file, "rb").read()
            except OSError:
                return None
        return s.count(b"\n", 0, off) + 1

    def load(self):
        cmd = ["clang++", "-std=c++17", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json"]
        for i in includes():
            cmd.append("-I" + i)
        cmd.append(self.path)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise Undecided("clang cannot analyse %s: %s" % (self.path, p.stderr.decode(errors="replace")[:400]))
        data = p.stdout
        pos = data.find(b'\n    {\n')
        sep = b'\n    },\n    {\n'
        base = os.path.realpath(self.repo)
        # "file" is printed only where it changes from the previously printed location
        marks = [(m.start(), m.group(1).decode()) for m in
                 re.finditer(rb'"offset": \d+,\n *"file": "([^"]+)"', data)]
        keys = [k for k, _ in marks]
        own = {}
        while pos >= 0:
            end = data.find(sep, pos)
            stop = end + 6 if end >= 0 else data.rfind(b'\n    }') + 6
            le = data.find(b'"range": {', pos, stop)
            i = bisect.bisect(keys, le) - 1 if le >= 0 else -1
            if i >= 0:
                f = marks[i][1]
                if f not in own:
                    own[f] = self.mine(f, base)
                if own[f]:
                    self.decls.append(Node(json.loads(data[pos:stop]), self, f))
            if end < 0:
                break
            pos = end + 7
        del data

    def mine(self, f, base):
        r = os.path.realpath(f)
        return r.startswith(base + os.sep)

    def all(self):
        for d in self.decls:
            yield from d.walk()


def unit(repo, relpath):
    k = (repo, relpath)
    u = _cache.get(k)
    if u is None:
        p = os.path.join(repo, relpath)
        if not os.path.exists(p):
            raise Undecided("native source %s not found" % relpath)
        u = _cache[k] = Unit(p, repo)
    return u


def dump(n, d=0, out=None):
    e = []
    for k in ("name", "opcode", "castKind", "value", "isPostfix", "isArrow", "valueCategory"):
        if n.get(k) is not None and k != "valueCategory":
            e.append("%s=%s" % (k, n.get(k)))
    rd = n.get("referencedDecl") or n.get("foundReferencedDecl")
    if rd:
        e.append("->%s %s" % (rd.get("kind"), rd.get("name")))
    if n.get("type"):
        e.append("'%s'" % n.qtype)
    print("  " * d + (n.kind or "?") + " " + " ".join(e) + " L%s" % n.line)
    for x in n.inner:
        dump(x, d + 1)
