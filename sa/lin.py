"""Integer polynomials and linear constraints over their monomials (Fourier-Motzkin with integer tightening)."""
from math import gcd


class P:
    """polynomial with integer coefficients; monomials are sorted tuples of symbol names"""
    __slots__ = ("m", "_k", "_i", "_s")
    ids = {}

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v}
        self._k = self._i = self._s = None

    def pid(self):
        if self._i is None:
            k = self.key()
            i = P.ids.get(k)
            if i is None:
                i = P.ids[k] = len(P.ids)
            self._i = i
        return self._i

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.m.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, P) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def syms(self):
        if self._s is None:
            self._s = frozenset(s for k in self.m for s in k)
        return self._s

    def __add__(self, o):
        o = P_(o)
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return P(r)

    __radd__ = __add__

    def __neg__(self):
        return P({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-P_(o))

    def __rsub__(self, o):
        return P_(o) - self

    def __mul__(self, o):
        o = P_(o)
        r = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
        return P(r)

    __rmul__ = __mul__

    def subst(self, s):
        """s: symbol -> P"""
        if not any(y in s for k in self.m for y in k):
            return self
        r = P({})
        for k, v in self.m.items():
            t = P({(): v})
            for y in k:
                t = t * (s[y] if y in s else sym(y))
            r = r + t
        return r

    def value(self, env):
        r = 0
        for k, v in self.m.items():
            for y in k:
                v *= env[y]
            r += v
        return r

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, v in sorted(self.m.items(), key=lambda q: (-len(q[0]), q[0])):
            n = "*".join(k)
            out.append(("%d" % v if not k else n if v == 1 else "-" + n if v == -1 else "%d*%s" % (v, n)))
        return " + ".join(out).replace("+ -", "- ")


def P_(x):
    return x if isinstance(x, P) else P({(): int(x)})


def sym(n):
    return P({(n,): 1})


def _tight(d, c):
    """coefficients d, constant c: sum d*x + c >= 0 tightened over the integers"""
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g          # floor
    return d, c


def infeasible(facts, limit=1200):
    """the constraints p >= 0 have no integer solution (sound, incomplete)"""
    cs = {}

    def put(store, d, c):
        if not d:
            return c < 0
        d, c = _tight(d, c)
        k = tuple(sorted(d.items()))
        if k not in store or store[k] > c:
            store[k] = c
        # an opposite pair with a negative sum
        nk = tuple(sorted((a, -b) for a, b in d.items()))
        return nk in store and store[nk] + store[k] < 0
    for p in facts:
        d = {k: v for k, v in p.m.items() if k}
        if put(cs, d, p.m.get((), 0)):
            return True
    while True:
        vs = {}
        for k in cs:
            for a, b in k:
                e = vs.setdefault(a, [0, 0])
                e[b > 0] += 1
        if not vs:
            return False
        v = min(vs, key=lambda a: (vs[a][0] * vs[a][1] - vs[a][0] - vs[a][1], str(a)))
        if vs[v][0] * vs[v][1] > limit:
            return False
        lo, hi, new = [], [], {}
        for k, c in cs.items():
            d = dict(k)
            if v in d:
                (lo if d[v] > 0 else hi).append((d, c))
            else:
                new[k] = c
        for d1, c1 in lo:
            for d2, c2 in hi:
                a, b = d1[v], -d2[v]
                g = gcd(a, b)
                x, y = b // g, a // g
                d = {}
                for q, z in d1.items():
                    d[q] = d.get(q, 0) + x * z
                for q, z in d2.items():
                    d[q] = d.get(q, 0) + y * z
                d = {q: z for q, z in d.items() if z}
                if put(new, d, x * c1 + y * c2):
                    return True
        if len(new) > limit:
            return False
        cs = new


def relevant(facts, goal):
    """facts connected with the goal's symbols"""
    ss = set(goal.syms())
    left = list(facts)
    out = []
    while True:
        nxt = []
        n = len(out)
        for f in left:
            fs = f.syms()
            if fs & ss or not fs:
                out.append(f)
                ss |= fs
            else:
                nxt.append(f)
        left = nxt
        if len(out) == n:
            return out


def entails(facts, p):
    """facts imply p >= 0"""
    c = p.const()
    if c is not None and c >= 0:
        return True
    k = (p.pid(), tuple([f.pid() for f in facts]))
    r = _memo.get(k)
    if r is None:
        neg = -p - 1
        q = relevant(facts, p)
        k2 = (p.pid(), frozenset([f.pid() for f in q]))
        r = _memo2.get(k2)
        if r is None:
            r = _memo2[k2] = infeasible(q + [neg])
        if len(_memo) > 400000:
            _memo.clear()
        _memo[k] = r
    return r


_memo, _memo2, _memo3 = {}, {}, {}


def contradicts(facts, p):
    """the facts connected with p (one of them) have no solution"""
    k = (p.pid(), tuple([f.pid() for f in facts]))
    r = _memo3.get(k)
    if r is None:
        if len(_memo3) > 400000:
            _memo3.clear()
        r = _memo3[k] = infeasible(relevant(facts, p))
    return r


VALUES = (0, 1, 2, 3, 4, 5, 7, -1, 10, 2 ** 31 - 1, 2 ** 31, 2 ** 30, -2 ** 31, 2 ** 64 - 1)


def solve(cons, limit=900):
    """an integer solution of linear constraints {symbol: coefficient}, constant >= 0, by elimination and back substitution"""
    stack = []
    cs = {}

    def put(store, d, c):
        if not d:
            return c >= 0
        d, c = _tight(d, c)
        k = tuple(sorted(d.items()))
        if k not in store or store[k] > c:
            store[k] = c
        return True
    for d, c in cons:
        if not put(cs, d, c):
            return None
    while True:
        vs = {}
        for k in cs:
            for a, b in k:
                e = vs.setdefault(a, [0, 0])
                e[b > 0] += 1
        if not vs:
            break
        v = min(vs, key=lambda a: (vs[a][0] * vs[a][1] - vs[a][0] - vs[a][1], a))
        if vs[v][0] * vs[v][1] > limit:
            return None
        lo, hi, new = [], [], {}
        for k, c in cs.items():
            d = dict(k)
            if v in d:
                (lo if d[v] > 0 else hi).append((d, c))
            else:
                new[k] = c
        for d1, c1 in lo:
            for d2, c2 in hi:
                a, b = d1[v], -d2[v]
                g = gcd(a, b)
                x, y = b // g, a // g
                d = {}
                for q, z in d1.items():
                    d[q] = d.get(q, 0) + x * z
                for q, z in d2.items():
                    d[q] = d.get(q, 0) + y * z
                d = {q: z for q, z in d.items() if z}
                if not put(new, d, x * c1 + y * c2):
                    return None
        if len(new) > limit:
            return None
        stack.append((v, lo, hi))
        cs = new
    env = {}
    for v, lo, hi in reversed(stack):
        l = h = None
        for d, c in lo:
            r = c + sum(z * env.get(q, 0) for q, z in d.items() if q != v)
            b = -(r // d[v])
            l = b if l is None else max(l, b)
        for d, c in hi:
            r = c + sum(z * env.get(q, 0) for q, z in d.items() if q != v)
            b = r // -d[v]
            h = b if h is None else min(h, b)
        if l is not None and h is not None and l > h:
            return None
        env[v] = 0 if (l is None or l <= 0) and (h is None or h >= 0) else l if l is not None and l > 0 else h
    return env


def linear_witness(cons, ss):
    """like witness: symbols occurring in products are tried over small values, the rest is linear"""
    prod = []
    for c in cons:
        for k in c.m:
            if len(k) > 1:
                prod.append(set(k))
    bind = []
    while prod:
        cnt = {}
        for q in prod:
            for x in q:
                cnt[x] = cnt.get(x, 0) + 1
        v = max(cnt, key=lambda x: (cnt[x], x))
        bind.append(v)
        # one symbol of a product of two may stay symbolic
        prod = [q - {v} for q in prod]
        prod = [q for q in prod if len(q) > 1]
    if len(bind) > 3:
        return None
    import itertools
    for vals in itertools.product((1, 2, 0, 3, -1, 7), repeat=len(bind)):
        env = dict(zip(bind, vals))
        lin, ok = [], True
        for c in cons:
            d, k0 = {}, 0
            for k, v in c.m.items():
                rest = []
                for y in k:
                    if y in env:
                        v *= env[y]
                    else:
                        rest.append(y)
                if not rest:
                    k0 += v
                elif len(rest) == 1:
                    d[rest[0]] = d.get(rest[0], 0) + v
                else:
                    ok = False
            d = {q: z for q, z in d.items() if z}
            if not d and k0 < 0:
                ok = False
            if not ok:
                break
            lin.append((d, k0))
        if not ok:
            continue
        r = solve(lin)
        if r is not None:
            r = dict({x: 0 for x in ss}, **r)
            r.update(env)
            if all(c.value(r) >= 0 for c in cons):
                return r
    return None


def witness(facts, goals, budget=20000):
    """small integer assignment making every fact and goal >= 0, or None"""
    cons = list(goals)
    rel = []
    ss = set()
    for g in goals:
        for f in relevant(facts, g):
            if f not in rel:
                rel.append(f)
    cons += rel
    for c in cons:
        ss |= c.syms()
    if all(c.syms() or c.const() >= 0 for c in cons):
        r = linear_witness(cons, ss)
        if r is not None:
            return r
    # symbols of the goals first, then by how constrained they are
    gs = set()
    for g in goals:
        gs |= g.syms()
    cnt = {s: sum(1 for c in cons if s in c.syms()) for s in ss}
    order = sorted(ss, key=lambda s: (s not in gs, -cnt[s], s))
    pos = {s: i for i, s in enumerate(order)}
    at = [[] for _ in order]
    for c in cons:
        if c.syms():
            at[max(pos[s] for s in c.syms())].append(c)
        elif c.const() < 0:
            return None
    env = {}
    n = [0]

    def go(i):
        if i == len(order):
            return True
        for v in VALUES:
            n[0] += 1
            if n[0] > budget:
                return False
            env[order[i]] = v
            if all(c.value(env) >= 0 for c in at[i]) and go(i + 1):
                return True
        env.pop(order[i], None)
        return False
    return dict(env) if go(0) else None
