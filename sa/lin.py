"""Linear integer expressions over immutable atoms, and a small Farkas-combination prover.

A fact is a Lin meaning `lin >= 0`. `prove(facts, e)` looks for a non-negative combination of facts
and atom bounds that yields `e >= 0`. Nothing is executed and no solver is called."""
from math import gcd

INF = float("inf")


class Atoms:
    def __init__(self):
        self.ids = {}
        self.name = []
        self.lo = []
        self.hi = []

    def get(self, name, lo=None, hi=None):
        i = self.ids.get(name)
        if i is None:
            i = len(self.name)
            self.ids[name] = i
            self.name.append(name)
            self.lo.append(lo)
            self.hi.append(hi)
        else:
            if lo is not None and (self.lo[i] is None):
                self.lo[i] = lo
            if hi is not None and (self.hi[i] is None):
                self.hi[i] = hi
        return i

    def setb(self, i, lo, hi):
        self.lo[i] = lo
        self.hi[i] = hi


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t, c):
        self.t = t  # tuple of (atom, coef) sorted by atom, coefs nonzero
        self.c = c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                del d[a]
        return Lin(tuple(sorted(d.items())), self.c + o.c)

    def __neg__(self):
        return Lin(tuple((a, -k) for a, k in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def scale(self, n):
        if n == 0:
            return ZERO
        return Lin(tuple((a, k * n) for a, k in self.t), self.c * n)

    @property
    def const(self):
        return self.c if not self.t else None

    def __repr__(self):
        s = "+".join(f"{k}*a{a}" if k != 1 else f"a{a}" for a, k in self.t)
        return f"{s}{self.c:+d}" if s else str(self.c)


ZERO = Lin((), 0)
ONE = Lin((), 1)


def K(n):
    return Lin((), n)


def A(i):
    return Lin(((i, 1),), 0)


def norm(f):
    """tighten an integer fact f >= 0"""
    if not f.t:
        return f
    g = 0
    for _, k in f.t:
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(tuple((a, k // g) for a, k in f.t), f.c // g)
    return f


class Facts:
    """A conjunction of linear facts plus per-atom bounds. Copy-on-write."""
    __slots__ = ("atoms", "fs", "lo", "hi", "idx", "ne")

    def __init__(self, atoms):
        self.atoms = atoms
        self.fs = {}
        self.lo = {}
        self.hi = {}
        self.ne = {}

    def copy(self):
        n = Facts.__new__(Facts)
        n.atoms = self.atoms
        n.fs = dict(self.fs)
        n.lo = dict(self.lo)
        n.hi = dict(self.hi)
        n.ne = dict(self.ne)
        return n

    def alo(self, a):
        v = self.lo.get(a)
        return v if v is not None else self.atoms.lo[a]

    def ahi(self, a):
        v = self.hi.get(a)
        return v if v is not None else self.atoms.hi[a]

    def lb(self, e):
        s = e.c
        for a, k in e.t:
            b = self.alo(a) if k > 0 else self.ahi(a)
            if b is None:
                return None
            s += k * b
        return s

    def ub(self, e):
        s = e.c
        for a, k in e.t:
            b = self.ahi(a) if k > 0 else self.alo(a)
            if b is None:
                return None
            s += k * b
        return s

    def add(self, f):
        """Assume f >= 0. Returns False when that is contradictory."""
        f = norm(f)
        if not f.t:
            return f.c >= 0
        lb = self.lb(f)
        if lb is not None and lb >= 0:
            return True
        ub = self.ub(f)
        if ub is not None and ub < 0:
            return False
        if f in self.fs:
            return True
        if self.prove(-f - 1, depth=3):
            return False
        if len(f.t) == 1:
            a, k = f.t[0]
            if k > 0:  # k*a + c >= 0 -> a >= ceil(-c/k)
                b = -(f.c // k)
                cur = self.alo(a)
                if cur is None or b > cur:
                    self.lo[a] = b
            else:
                b = f.c // (-k)
                cur = self.ahi(a)
                if cur is None or b < cur:
                    self.hi[a] = b
            lo, hi = self.alo(a), self.ahi(a)
            if lo is not None and hi is not None and lo > hi:
                return False
            self._edge(a)
            return True
        self.fs[f] = True
        # propagate to single-atom bounds
        for a, k in f.t:
            rest = f.c
            ok = True
            for b, kb in f.t:
                if b == a:
                    continue
                m = self.ahi(b) if kb > 0 else self.alo(b)
                if m is None:
                    ok = False
                    break
                rest += kb * m
            if ok:
                if k > 0:
                    v = -(rest // k)
                    cur = self.alo(a)
                    if cur is None or v > cur:
                        self.lo[a] = v
                else:
                    v = rest // (-k)
                    cur = self.ahi(a)
                    if cur is None or v < cur:
                        self.hi[a] = v
        return True

    def _edge(self, a):
        """x != c with c at an edge of x's bounds tightens the bound"""
        for e in list(self.ne):
            if any(x == a for x, _ in e.t):
                self.assume_ne(e)

    def assume_ne(self, e):
        """Assume e != 0."""
        if not e.t:
            return e.c != 0
        if self.prove(e, depth=2):
            return self.add(e - 1)
        if self.prove(-e, depth=2):
            return self.add(-e - 1)
        self.ne[e] = True
        return True

    def is_ne(self, e):
        return e in self.ne or (-e) in self.ne or self.prove(e - 1) or self.prove(-e - 1)

    def prove(self, e, depth=5, budget=None):
        """Is e >= 0 implied?"""
        e = norm(e)
        lb = self.lb(e)
        if lb is not None and lb >= 0:
            return True
        if not e.t:
            return False
        if e in self.fs:
            return True
        if budget is None:
            budget = [400]
        # iterative deepening, memo on visited
        rel = self._relevant(e)
        if not rel:
            return False
        for d in range(1, depth + 1):
            if self._search(e, rel, d, budget, {}):
                return True
            if budget[0] <= 0:
                return False
        return False

    def _relevant(self, e):
        at = {a for a, _ in e.t}
        rel = []
        pool = list(self.fs)
        ch = True
        while ch and pool:
            ch = False
            rest = []
            for f in pool:
                if any(a in at for a, _ in f.t):
                    rel.append(f)
                    for a, _ in f.t:
                        if a not in at:
                            at.add(a)
                            ch = True
                else:
                    rest.append(f)
            pool = rest
        return rel

    def _search(self, e, rel, depth, budget, seen):
        lb = self.lb(e)
        if lb is not None and lb >= 0:
            return True
        if depth == 0 or budget[0] <= 0:
            return False
        if seen.get(e, -1) >= depth:
            return False
        seen[e] = depth
        budget[0] -= 1
        # eliminate one atom of e at a time with a fact carrying the same sign
        for a, k in e.t:
            for f in rel:
                for b, kf in f.t:
                    if b == a:
                        if (kf > 0) == (k > 0):
                            g = gcd(k, kf)
                            m, n = abs(kf) // g, abs(k) // g
                            r = e.scale(m) - f.scale(n)
                            if len(r.t) <= len(e.t) + 2 and self._search(norm2(r), rel, depth - 1, budget, seen):
                                return True
                        break
        return False

    def infeasible(self):
        return False


def norm2(f):
    """divide by the gcd; e>=0 iff floor(e/g)>=0 (atoms are integers)"""
    return norm(f)
