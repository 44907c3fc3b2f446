"""Abstract values of the value-graph interpreter."""
from . import terms as t
from .terms import T, ZERO, ONE, Undecided


class BT:
    """symbolic boolean"""
    __slots__ = ("t",)

    def __init__(self, x):
        self.t = x

    def __repr__(self):
        return "BT(%r)" % (self.t,)


def mkbool(x):
    if x is ONE:
        return True
    if x is ZERO:
        return False
    return BT(x)


class Arr:
    """immutable pull array: element value as a function of index terms"""
    __slots__ = ("shape", "f", "dt", "kind", "memo", "filt")

    def __init__(self, shape, f, dt="f", kind="nd", filt=None):
        self.shape = tuple(shape)
        self.f = f
        self.dt = dt
        self.kind = kind
        self.memo = {}
        self.filt = filt      # mask function for conditionally selected elements

    def get(self, idx):
        k = tuple(i.id for i in idx)
        v = self.memo.get(k)
        if v is None:
            v = self.f(tuple(idx))
            if isinstance(v, BT):
                v = v.t
            elif isinstance(v, bool):
                v = ONE if v else ZERO
            self.memo[k] = v
        return v

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return "Arr%s" % (self.shape,)


class PyList:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class PyDict:
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = dict(items)


class Inst:
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls


class Rng:
    __slots__ = ("state", "kind")

    def __init__(self, state, kind):
        self.state = state
        self.kind = kind


class Cell:
    """mutable scalar cell (C++ reference target)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


_ids = [0]


def fresh_id():
    _ids[0] += 1
    return _ids[0]


class Ref:
    __slots__ = ("id",)

    def __init__(self, i=None):
        self.id = i if i is not None else fresh_id()

    def __repr__(self):
        return "Ref%d" % self.id


class View:
    """window into an array cell; fwd: view idx -> base idx;
    inv: base idx -> (condition T, view idx)"""
    __slots__ = ("ref", "shape", "fwd", "inv")

    def __init__(self, ref, shape, fwd, inv):
        self.ref, self.shape, self.fwd, self.inv = ref, tuple(shape), fwd, inv


class CondV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "CondV(%r ? %r : %r)" % (self.c, self.a, self.b)


class Poison:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Func:
    __slots__ = ("node", "frame", "mod", "name", "defaults", "kwdefaults", "cls", "deco", "is_gen")

    def __repr__(self):
        return "Func(%s)" % self.name


class BoundM:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class ClassV:
    __slots__ = ("name", "bases", "attrs", "mod", "node", "dataclass", "fields", "meta")

    def __repr__(self):
        return "Class(%s)" % self.name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModV:
    __slots__ = ("name", "frame", "path")

    def __init__(self, name, frame, path):
        self.name, self.frame, self.path = name, frame, path


class Ext:
    """external (library) object named by dotted path"""
    __slots__ = ("path",)
    _tab = {}

    def __new__(cls, path):
        o = cls._tab.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._tab[path] = o
        return o

    def __repr__(self):
        return "Ext(%s)" % self.path


class Meth:
    """bound builtin method"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class GenV:
    """suspended generator call"""
    __slots__ = ("fn", "env")

    def __init__(self, fn, env):
        self.fn, self.env = fn, env


class PyFn:
    """analyser-provided callable f(interp, args, kwargs)"""
    __slots__ = ("f", "name")

    def __init__(self, f, name="pyfn"):
        self.f, self.name = f, name


class PropV:
    __slots__ = ("fn", "cached", "setter")

    def __init__(self, fn, cached=False):
        self.fn, self.cached = fn, cached
        self.setter = None


class StaticM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class IterV:
    """abstract iteration space: n items, item(kT) -> value; concrete list if items"""
    __slots__ = ("n", "item", "items", "mask", "ctx")

    def __init__(self, n=None, item=None, items=None, mask=None):
        self.n, self.item, self.items, self.mask = n, item, items, mask


class SliceV:
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class ExcV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class AbsRaise(Exception):
    def __init__(self, name, node=None):
        self.name = name
        self.node = node
        Exception.__init__(self, name)


class NeedCarry(Exception):
    def __init__(self, key):
        self.key = key
        Exception.__init__(self, str(key))
