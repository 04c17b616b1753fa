"""Comparison of a term extracted from the code (sa/prov.py) with a reference formula.

Both are functions of the input's bits and of named quantities. They are compared as functions, not as text: a
difference is reported only with a valuation of the bits on which the two differ (and on which both are defined)."""
import math, random
from fractions import Fraction

FLOATS = {"as f64", "as f32"}


class Undef(Exception):
    pass


def sources(n, out):
    """sources other than the main one, in order of first appearance"""
    if n[0] == "b":
        for b in reversed(n[2]):
            if b not in (0, 1) and b[0] != 0 and b[0] not in out:
                out.append(b[0])
    elif n[0] == "op":
        for x in n[2:]:
            sources(x, out)
    elif n[0] == "idx":
        sources(n[2], out)
    elif n[0] == "not":
        sources(n[1], out)
    elif n[0] == "alt":
        for x in sorted(n[1], key=repr):
            sources(x, out)
    return out


def uses0(n):
    if n[0] == "b":
        return any(b not in (0, 1) and b[0] == 0 for b in n[2])
    if n[0] == "op":
        return any(uses0(x) for x in n[2:])
    if n[0] == "idx":
        return uses0(n[2])
    if n[0] == "not":
        return uses0(n[1])
    return False


class Val:
    """a valuation of bits and symbols"""
    def __init__(self, seed, forced=None, syms=None):
        self.r = random.Random(seed)
        self.mode = seed % 7
        self.bitv = {}
        self.symv = {}
        self.forced = forced or {}
        self.single = False
        self.fsyms = syms or {}

    def bit(self, src, byte, i):
        if self.single:      # the term has one source: where it starts is that source's matter
            src = 0
        k = (src, byte, i)
        if k not in self.bitv:
            if src == 0 and (byte, i) in self.forced:
                v = self.forced[(byte, i)]
            elif self.mode == 0:
                v = self.r.random() < 0.5
            elif self.mode == 1:
                v = self.r.random() < 0.1
            elif self.mode == 2:
                v = self.r.random() < 0.9
            else:        # whole bytes zero more often
                z = self.bitv.setdefault((src, byte, "z"), self.r.random() < 0.55)
                v = 0 if z else self.r.random() < 0.5
            self.bitv[k] = int(v)
        return self.bitv[k]

    def byte(self, src, off):
        return sum(self.bit(src, off, i) << i for i in range(8))

    def be(self, off, n, src=0):
        x = 0
        for i in range(n):
            x = x << 8 | self.byte(src, off + i)
        return x

    def le(self, off, n, src=0):
        return sum(self.byte(src, off + i) << (8 * i) for i in range(n))

    def bits(self, byte, hi, lo, src=0):
        return self.byte(src, byte) >> lo & ((1 << (hi - lo + 1)) - 1)

    def sym(self, name):
        if name in self.fsyms and name not in self.symv:
            v = self.fsyms[name]
            self.symv[name] = v(self.r) if callable(v) else v
        if name not in self.symv:
            self.symv[name] = self.r.choice([self.r.randrange(1, 300), self.r.randrange(1, 1 << 20), self.r.randrange(1, 1 << 32)])
        return self.symv[name]


def wrap(v, name):
    n = name.split()[-1]
    if n in ("usize", "isize"):
        n = n[0] + "64"
    b = int(n[1:])
    if isinstance(v, (Fraction, float)):
        v = math.floor(v)
        lo, hi = (0, (1 << b) - 1) if n[0] == "u" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        return max(lo, min(hi, v))
    v &= (1 << b) - 1
    return v - (1 << b) if n[0] == "i" and v >> (b - 1) else v


def ev(n, V, names):
    k = n[0]
    if k == "c":
        return n[1]
    if k == "b":
        return sum((b if b in (0, 1) else V.bit(0 if b[0] == 0 else 1 + names.index(b[0]), b[1], b[2])) << i for i, b in enumerate(n[2]))
    if k == "f":
        return V.sym(n[1])
    if k == "fl":
        return Fraction(n[1])
    if k == "idx":
        i = ev(n[2], V, names)
        if not 0 <= i < len(n[1]):
            raise Undef
        return n[1][i]
    if k == "not":
        return int(not ev(n[1], V, names))
    if k != "op":
        raise Undef
    o = n[1]
    a = [ev(x, V, names) for x in n[2:]]
    fl = any(isinstance(x, Fraction) for x in a)
    if o in FLOATS:
        return Fraction(a[0])
    if o.startswith("as "):
        return wrap(a[0], o)
    if o == "Add":
        return a[0] + a[1]
    if o == "Sub":
        if not fl and a[0] < a[1]:
            raise Undef
        return a[0] - a[1]
    if o in ("satsub", "saturating_sub"):
        return max(0, a[0] - a[1])
    if o in ("Mul", "saturating_mul", "wrapping_mul"):
        return a[0] * a[1]
    if o in ("saturating_add", "wrapping_add"):
        return a[0] + a[1]
    if o == "Div":
        if a[1] == 0:
            raise Undef
        return a[0] / a[1] if fl else a[0] // a[1]
    if o == "Rem":
        if a[1] == 0 or fl:
            raise Undef
        return a[0] % a[1]
    if o == "div_round":
        if a[1] == 0:
            raise Undef
        return (a[0] + (a[1] >> 1)) // a[1]
    if o == "pow":
        if a[1] > 64:
            raise Undef
        return a[0] ** a[1]
    if o in ("round", "floor", "ceil"):
        return Fraction({"round": lambda x: math.floor(x + Fraction(1, 2)), "floor": math.floor, "ceil": math.ceil}[o](a[0]))
    if o in ("min", "max"):
        return min(a) if o == "min" else max(a)
    if o in ("from_millis", "from_secs", "from_secs_f64", "from_micros"):
        return a[0] * {"from_millis": 1, "from_micros": Fraction(1, 1000)}.get(o, 1000)
    if o == "as_millis":
        return a[0]
    if o in ("BitAnd", "BitOr", "BitXor") and not fl:
        return {"BitAnd": a[0] & a[1], "BitOr": a[0] | a[1], "BitXor": a[0] ^ a[1]}[o]
    if o == "Shl" and a[1] < 128:
        return a[0] << a[1]
    if o == "Shr":
        return a[0] >> a[1]
    if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return int({"Eq": a[0] == a[1], "Ne": a[0] != a[1], "Lt": a[0] < a[1], "Le": a[0] <= a[1], "Gt": a[0] > a[1], "Ge": a[0] >= a[1]}[o])
    if o == "swap_bytes32":
        return int.from_bytes(int(a[0]).to_bytes(4, "little"), "big")
    raise Undef


def known(n):
    """does the term consist of operations with a meaning here?"""
    if n[0] in ("c", "b", "f", "fl"):
        return True
    if n[0] == "idx":
        return known(n[2])
    if n[0] == "not":
        return known(n[1])
    if n[0] == "op":
        return all(known(x) for x in n[2:])
    return False


def differ(n, ref, limit, forced=None, syms=None, runs=400, need=20):
    """-> None: equal on all valuations tried | "undecided" | (valuation, got, wanted)"""
    names = sources(n, [])
    single = len(names) == 1 and not uses0(n)
    tried = defined = 0
    for seed in range(runs):
        V = Val(seed, None if single else forced, syms)
        V.single = single
        try:
            want = ref(V)
            tol = 0
            if isinstance(want, tuple):
                want, tol = want
            if want is None or limit and not 0 <= want <= limit:
                continue
            defined += 1
            got = ev(n, V, names)
        except (Undef, ZeroDivisionError):
            continue
        tried += 1
        if got is True or got is False:
            got = int(got)
        if abs(got - want) > tol:
            return (V, got, want)
    return None if tried >= need else "undefined" if not tried and defined >= need else "undecided"
