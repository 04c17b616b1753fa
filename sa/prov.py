"""Provenance of values: which bits of the input, and which arithmetic on them, a value is made of.

An extension of the conditional constant propagation in spec.py: reads from a byte source give symbolic bit
vectors ("x", ("b", width, bits)) whose bits are 0, 1 or (source, byte, bit); arithmetic on them gives expression
trees; a position is kept for every source, so that a value is tied to the place of the stream it comes from whatever
the code around it looks like. Joins keep up to MAXALT alternatives ("x", ("alt", {..}))."""
import itertools, re
from .flow import root
from .spec import Spec, pk

MAXALT = 8
PLAIN = {"as_millis", "as_secs", "as_secs_f64", "is_zero", "from", "into"}
OPT, RES = "core::option::Option", "core::result::Result"
COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne"}


def isx(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "x"


def node(v):
    """expression of a value, or None"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return ("c", v)
    if isx(v):
        return v[1]
    if isinstance(v, tuple) and v[0] == "e":
        return ("e", v[1], v[2])
    return None


def val(n):
    if n is None:
        return None
    if n[0] == "c":
        return n[1]
    if n[0] == "e":
        return n
    if n[0] == "b" and all(b in (0, 1) for b in n[2]):
        return sum(b << i for i, b in enumerate(n[2]))
    return ("x", n)


def bv(n, w):
    """as bit list of width w, or None"""
    if n[0] == "c":
        return [(n[1] >> i) & 1 for i in range(w)]
    if n[0] == "b":
        return (list(n[2]) + [0] * w)[:w]
    return None


def trim(bits):
    bits = list(bits)
    while bits and bits[-1] == 0:
        bits.pop()
    return tuple(bits)


def mk(bits):
    t = trim(bits)
    return ("c", sum(b << i for i, b in enumerate(t))) if all(b in (0, 1) for b in t) else ("b", len(t), t)


def top(n):
    """largest value, or None"""
    if n[0] == "c":
        return n[1]
    if n[0] == "b":
        return (1 << len(n[2])) - 1
    if n[0] == "op" and n[1] == "Add":
        a, b = top(n[2]), top(n[3])
        return a + b if a is not None and b is not None else None
    if n[0] == "op" and n[1] == "Mul":
        a, b = top(n[2]), top(n[3])
        return a * b if a is not None and b is not None else None
    if n[0] == "op" and n[1] in ("Div", "Sub", "Shr", "satsub"):
        return top(n[2])
    if n[0] == "idx":
        return max(n[1])
    if n[0] == "alt":
        t = [top(x) for x in n[1]]
        return None if None in t else max(t)
    return None


class Prov(Spec):
    def __init__(self, prog, bits=None, fields=True, named=(), **kw):
        self.named = named
        kw.setdefault("deep", True)
        super().__init__(prog, **kw)
        self.bits_in = bits or {}        # (byte, bit) of source 0 -> 0/1
        self.symfields = fields          # name unknown fields of the crate's structs
        self.final = {}
        self.fresh = 0
        self.alts = {}

    # -- sources
    def source(self, fn, c, tag=""):
        return ("s", fn.id, c.bb, tag)

    def byte(self, src, off):
        if src == 0 or src == ("s0",):
            return [self.bits_in.get((off, i), (src, off, i)) for i in range(8)]
        return [(src, off, i) for i in range(8)]

    def word(self, src, off, n, big):
        out = []
        for i in range(n):
            out += self.byte(src, off + (n - 1 - i if big else i))
        return mk(out)

    # -- joins
    def join(self, a, b):
        out = super().join(a, b)
        for k, x in a.items():
            if k in out or k not in b:
                continue
            y = b[k]
            if k == ("#pos",):
                continue
            if isinstance(k[-1], str) or not self.altable(x) or not self.altable(y):
                continue
            m = self.alt([x, y])
            if m is not None:
                out[k] = m
        return out

    def altable(self, v):
        return isx(v) or isinstance(v, int) or isinstance(v, tuple) and v[0] == "e" and not v[1].startswith(("core::", "#"))

    def alt(self, vs):
        s = set()
        for v in vs:
            n = node(v)
            if n is None:
                return None
            s |= n[1] if n[0] == "alt" else {n}
        if len(s) > MAXALT:
            return None
        return val(next(iter(s))) if len(s) == 1 else ("x", ("alt", frozenset(s)))

    def op(self, fn, env, o):
        if o.kind == "k" and isinstance(o.val, dict) and "fl" in o.val:
            return ("x", ("fl", o.val["fl"]))
        if o.kind == "k" and fn.ty(o.ty).get("n") == "core::time::Duration":
            return 0        # Duration::ZERO
        return super().op(fn, env, o)

    def full(self, fn, env, o):
        if o.kind == "k" and fn.ty(o.ty).get("n") == "core::time::Duration":
            return 0
        return super().full(fn, env, o)

    def as_int(self, v):
        if isinstance(v, tuple) and v[0] == "x":
            return None
        return super().as_int(v)

    # -- operations
    @staticmethod
    def fold(op, a, b, w):
        if op in ("Div", "Rem") and b == 0:
            return None
        f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b, "Rem": lambda: a % b,
             "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Shl": lambda: a << b, "Shr": lambda: a >> b}.get(op)
        if f is None or w is None or (w[1] and op in ("Div", "Rem")):
            return None
        return ("c", Spec.wrap(f(), w))

    def sym(self, op, a, b, w):
        """expression of `a op b`, w = (bits, signed) of the result"""
        if a is None or b is None:
            return None
        if a[0] == "alt" or b[0] == "alt":
            xs = a[1] if a[0] == "alt" else [a]
            ys = b[1] if b[0] == "alt" else [b]
            if len(xs) * len(ys) > MAXALT:
                return None
            r = set()
            for x in xs:
                for y in ys:
                    z = self.sym(op, x, y, w) if x[0] != "c" or y[0] != "c" else self.fold(op, x[1], y[1], w)
                    if z is None:
                        return None
                    r |= z[1] if z[0] == "alt" else {z}
            return next(iter(r)) if len(r) == 1 else ("alt", frozenset(r)) if len(r) <= MAXALT else None
        if a[0] == "c" and b[0] == "c":
            return None      # left to the concrete evaluator
        wd = w[0] if w else 64
        if op in ("Mul", "Div", "Rem") and b[0] == "c" and b[1] > 0 and b[1] & (b[1] - 1) == 0 and a[0] == "b" and not (w and w[1]):
            k = b[1].bit_length() - 1
            op, b = {"Mul": ("Shl", ("c", k)), "Div": ("Shr", ("c", k)), "Rem": ("BitAnd", ("c", b[1] - 1))}[op]
        if op == "Mul" and a[0] == "c" and b[0] == "b" and a[1] > 0 and a[1] & (a[1] - 1) == 0:
            op, a, b = "Shl", b, ("c", a[1].bit_length() - 1)
        x, y = bv(a, wd), bv(b, wd)
        if op in ("BitAnd", "BitOr", "BitXor") and x is not None and y is not None:
            out = []
            for p, q in zip(x, y):
                if op == "BitAnd":
                    r = 0 if 0 in (p, q) else q if p == 1 else p if q == 1 else p if p == q else None
                elif op == "BitOr":
                    r = 1 if 1 in (p, q) else q if p == 0 else p if q == 0 else p if p == q else None
                else:
                    r = q if p == 0 else p if q == 0 else 0 if p == q else None
                if r is None:
                    break
                out.append(r)
            else:
                return mk(out)
        if op in ("Shl", "Shr") and x is not None and b[0] == "c" and not (w and w[1] and op == "Shr"):
            k = b[1]
            return mk(([0] * k + x)[:wd] if op == "Shl" else x[k:])
        if op == "Add" and x is not None and y is not None and all(0 in (p, q) for p, q in zip(x, y)):
            return mk([q if p == 0 else p for p, q in zip(x, y)])
        if op in ("Add", "Sub") and b == ("c", 0):
            return a
        if op in ("Mul", "Div") and b == ("c", 1):
            return a
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(op, a, b)
        if op in COMM and repr(b) < repr(a):
            a, b = b, a
        return ("op", op, a, b)

    def compare(self, op, a, b):
        if a[0] == "c":
            a, b = b, a
            op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
        if b[0] == "c" and a[0] == "b":
            n = max(len(a[2]), b[1].bit_length()) if b[1] >= 0 else 0
            x, y = bv(a, n), bv(b, n)
            if op == "Gt" and b[1] == 0:
                op = "Ne"
            if op == "Ge" and b[1] == 1:
                op, y = "Ne", [0] * n
            if op in ("Eq", "Ne"):
                sx, sy = [], []
                for p, q in zip(x, y):
                    if p in (0, 1):
                        if p != q:
                            return ("c", int(op == "Ne"))
                        continue
                    sx.append(p)
                    sy.append(q)
                if not sx:
                    return ("c", int(op == "Eq"))
                if len(sx) == 1:
                    pos = (sy[0] == 1) == (op == "Eq")
                    return ("b", 1, (sx[0],)) if pos else ("not", ("b", 1, (sx[0],)))
                return ("op", op, ("b", len(sx), tuple(sx)), ("c", sum(q << i for i, q in enumerate(sy))))
        return ("op", op, a, b)

    def stmt(self, fn, env, s):
        rv = s.rv
        d = pk(s.place)
        k = rv[0]
        if k == "bin":
            A, B = self.op(fn, env, rv[2]), self.op(fn, env, rv[3])
            if isx(A) or isx(B):
                base = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
                t = self.int_ty(fn, rv[2].ty) or ((1, False) if fn.ty(rv[2].ty).get("k") == "bool" else None)
                n = self.sym(base, node(A), node(B), t)
                v = val(n)
                self.kill(env, d)
                if v is not None:
                    if rv[1].endswith("WithOverflow"):
                        env[d + (("f", 0),)] = v
                    else:
                        env[d] = v
                return
        elif k == "un" and rv[1] == "Not":
            A = self.op(fn, env, rv[2])
            if isx(A):
                n = A[1]
                self.kill(env, d)
                if fn.ty(s.place.ty).get("k") == "bool":
                    env[d] = val(n[1] if n[0] == "not" else ("op", "Ne", n[2], n[3]) if n[0] == "op" and n[1] == "Eq" else ("op", "Eq", n[2], n[3]) if n[0] == "op" and n[1] == "Ne" else ("not", n))
                return
        elif k == "cast":
            A = self.op(fn, env, rv[2])
            if isx(A):
                self.kill(env, d)
                n = self.cast(A[1], self.int_ty(fn, rv[2].ty), self.int_ty(fn, s.place.ty), fn.tys(s.place.ty))
                if n is not None:
                    env[d] = val(n)
                return
        super().stmt(fn, env, s)

    def cast(self, n, t0, t1, name):
        if n[0] == "alt":
            r = set()
            for x in n[1]:
                y = self.cast(x, t0, t1, name)
                if y is None:
                    return None
                r |= y[1] if y[0] == "alt" else {y}
            return next(iter(r)) if len(r) == 1 else ("alt", frozenset(r))
        if n[0] == "c" and t1:
            return ("c", self.wrap(n[1], t1))
        if t1 is None:
            return ("op", "as " + name, n) if t0 else ("op", "as " + name, n)
        if n[0] == "b" and not (t0 and t0[1] and t1[0] > t0[0] and len(n[2]) == t0[0]):
            return mk(n[2][:t1[0]])
        m = top(n)
        lim = 1 << (t1[0] - (1 if t1[1] else 0))
        if m is not None and m < lim or t0 and t0[0] <= t1[0] and (t0[1] == t1[1] or not t0[1] and t1[0] > t0[0]):
            return n
        if t0 and t0[0] == t1[0]:
            return n
        return ("op", f"as {name}", n)

    def place(self, fn, env, p):
        v = super().place(fn, env, p)
        if v is not None:
            return v
        nm = fn.locals[p.local][1]
        if nm and self.stack and fn.id == self.stack[0][0] and self.int_ty(fn, p.ty):
            if not p.proj and nm in self.named:        # a cursor a loop moves: whatever it is there
                return ("x", ("f", "$" + nm))
            if 1 <= p.local <= fn.argc and len(p.proj) == 1 and p.proj[0][0] == "f" and fn.ty(fn.locals[p.local][0]).get("k") == "tuple":
                return ("x", ("f", f"#{nm}.{p.proj[0][1]}"))
        k = pk(p)
        # element of a buffer whose source is known
        for n in range(1, len(k)):
            if k[n][0] not in ("i", "c"):
                continue
            w = env.get(k[:n])
            if isinstance(w, tuple) and w[0] == "words" and n == len(k) - 1:
                i = k[n][1] if k[n][0] == "c" else super().as_int(env.get((k[n][1],)))
                return None if i is None else val(self.word(w[1], w[2] + i * w[3], w[3], w[4]))
            b = self.buffer(env, k[:n])
            if b is None:
                # table indexed by a symbolic value
                t = env.get(k[:n])
                if isinstance(t, tuple) and t[0] == "tab" and k[n][0] == "i" and n == len(k) - 1:
                    i = env.get((k[n][1],))
                    if isx(i):
                        tt = self.tabs[t[1]]
                        if all("i" in e for e in tt):
                            return ("x", ("idx", tuple(int(e["i"]) for e in tt), i[1]))
                return None
            if n != len(k) - 1:
                return None
            i = k[n][1] if k[n][0] == "c" else super().as_int(env.get((k[n][1],)))
            if i is None or (k[n][0] == "c" and len(k[n]) > 3 and k[n][3]):
                return None
            return val(mk(self.byte(b[1], b[2] + i)))
        if self.symfields and p.proj and p.proj[-1][0] == "f":
            adt = self.base_adt(fn, p)
            a = self.prog.adts.get(adt) if adt else None
            if a and not a["enum"]:
                ft = a["crate"].tys[a["vs"][0]["f"][p.proj[-1][1]][1]]
                if ft.get("k") in ("int", "uint", "float", "bool") or re.fullmatch(r"[iu](\d+|size)|bool|f32|f64", str(fn.tys(p.ty))) or ft.get("n") in (OPT,) or ft.get("k") == "adt":
                    if ft.get("n") in self.enums:
                        return None
                    r = root(fn, p.local)
                    who = "@" if self.stack and fn.id == self.stack[0][0] and 1 <= r <= fn.argc else f"{fn.id}:{r}"
                    return ("x", ("f", f"{adt.split('::')[-1]}.{p.proj[-1][2]}~{who}"))
        return None

    def buffer(self, env, k):
        v = env.get(k)
        n = 0
        while isinstance(v, tuple) and v[0] in ("ref", "rv") and n < 4:
            v = env.get(v[1]) if v[0] == "ref" else v[1]
            n += 1
        if v is None and k and k[-1] == ("d",):
            return self.buffer(env, k[:-1])
        return v if isinstance(v, tuple) and v[0] == "buf" else None

    # -- runs with positions
    def _run(self, fn, args):
        pos = next((a for a in args if isinstance(a, tuple) and a[0] == "#pos"), None)
        r = self._run2(fn, args, pos)
        return r

    def _run2(self, fn, args, pos):
        ins = {0: {}}
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == "#pos":
                ins[0][("#pos",)] = a[1]
            else:
                self.expand(ins[0], (i + 1,), a)
        work, live, retv, cctx, edges = [0], set(), {}, {}, {}
        order = {b: i for i, b in enumerate(fn.rpo)}
        self.edges[(fn.id, args)] = edges
        n = 0
        while work:
            n += 1
            if n > 40 * (len(fn.rpo) + 5):
                break
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            live.add(b)
            env = dict(ins[b])
            for s in fn.stmts[b]:
                self.stmt(fn, env, s)
            t = fn.terms[b]
            if t[0] == "return":
                retv[b] = (self.pack(env, (0,)), env.get(("#pos",)), env)
                continue
            if t[0] == "switch":
                o = self.op(fn, env, t[1])
                v = self.as_int(o)
                if v is not None:
                    ty = fn.ty(t[1].ty)
                    if v < 0 and ty.get("bits"):
                        v += 1 << ty["bits"]
                    m = [x for vv, x in t[2] if vv == v]
                    nxt = [m[0] if m else t[3]]
                else:
                    alts = None
                    if isx(o) and o[1][0] == "alt" and all(x[0] in ("c", "e") for x in o[1][1]):
                        alts = {self.as_int(val(x)) for x in o[1][1]}
                    nxt = [x for vv, x in t[2] if (alts is None or vv in alts) and not (isx(o) and self.apart(o[1], vv))]
                    known = {vv for vv, _ in t[2]}
                    mx = top(o[1]) if isx(o) else None
                    if (alts is None or alts - known) and not (mx is not None and mx < 300 and set(range(mx + 1)) <= known):
                        nxt.append(t[3])
            elif t[0] == "call":
                c = t[1]
                self.obs.setdefault((fn.id, args), {})[b] = tuple(self.full(fn, env, a) for a in c.args)
                v = self.call(fn, env, c, cctx)
                self.kill(env, pk(c.dest))
                self.expand(env, pk(c.dest), v)
                if v == "never" or c.target is None:
                    continue
                nxt = [c.target]
            else:
                nxt = list(fn.succs(b))
            edges[b] = set(nxt)
            for x in nxt:
                old = ins.get(x)
                if old is None:
                    ins[x] = dict(env)
                    work.append(x)
                else:
                    new = self.join(old, env)
                    if new != old:
                        ins[x] = new
                        if x not in work:
                            work.append(x)
                    elif x not in live and x not in work:
                        work.append(x)
        self.final[(fn.id, args)] = (live, ins)
        rv = None
        out = set()
        if retv:
            es = []
            for v, p, env in retv.values():
                e = {}
                self.expand(e, (0,), v)
                es.append(e)
                h = e.get((0,))
                if not (isinstance(h, tuple) and h[0] == "e" and h[1] == RES and h[2] == 1):
                    out.add(p)
            e = es[0]
            for x in es[1:]:
                e = self.join(e, x)
            e = {k: v for k, v in e.items() if not (isinstance(v, tuple) and v[0] == "ref")}
            rv = self.pack(e, (0,))
        self.outpos = getattr(self, "outpos", {})
        self.outpos[(fn.id, args)] = next(iter(out)) if len(out) == 1 else None
        return (live, rv, cctx)

    def apart(self, n, v):
        """do the known bits of a bit vector differ from those of v?"""
        if n[0] != "b" or v < 0:
            return False
        return v >> len(n[2]) != 0 or any(b in (0, 1) and b != (v >> i & 1) for i, b in enumerate(n[2]))

    def stuck(self, fn, c):
        return (self.source(fn, c), 0)

    # -- calls
    READ = re.compile(r"read_(u8|i8|u16|i16|u24|i24|u32|i32|u48|u64|i64|u128|i128|f32|f64|uint|int)$")
    MUTSAFE = re.compile(r"(alloc::vec::Vec|alloc::string::String|core::fmt|^&mut [ui](8|16|32|64|128|size)$)")

    def endian(self, fn, c):
        for g in c.callee.ga:
            s = fn.tys(g) if isinstance(g, int) else str(g)
            if "BigEndian" in s:
                return True
            if "LittleEndian" in s:
                return False
        return None

    def receiver(self, fn, env, o):
        """-> key of the buffer variable | None for the stream | False: a buffer that is not known"""
        v = self.op(fn, env, o)
        last = None
        for _ in range(5):
            if isinstance(v, tuple) and v[0] == "ref":
                last = v[1]
                x = env.get(v[1])
                if isinstance(x, tuple) and x[0] == "rv" and isinstance(x[1], tuple) and x[1][0] == "buf":
                    env[v[1]] = x = x[1]
                if isinstance(x, tuple) and x[0] == "buf":
                    return v[1]
                v = x
            else:
                break
        t = fn.ty(o.ty)
        while t.get("k") == "ref":
            t = fn.ty(t["a"][0])
        if t.get("k") in ("slice", "array") and not (last and last[0] <= fn.argc or o.kind == "p" and root(fn, o.place.local) <= fn.argc):
            return False
        return None

    def take(self, fn, env, c, o, n):
        """consume n bytes (None: unknown) of the receiver -> (source, offset) they start at"""
        k = self.receiver(fn, env, o)
        if k is False:
            return (self.source(fn, c, "u"), 0)
        if k is not None:
            b = env[k]
            r = (b[1], b[2])
            self.kill(env, k)
            if n is not None:
                env[k] = ("buf", b[1], b[2] + n)
            else:
                env[k] = ("buf", self.source(fn, c), 0)
            return r
        p = env.get(("#pos",))
        if p is None:
            p = (self.source(fn, c, "b"), 0)
        env[("#pos",)] = (p[0], p[1] + n) if n is not None else self.stuck(fn, c)
        return p

    def ok(self, v, head=0):
        e = {(0,): ("e", RES, 0)}
        if v is not None:
            self.expand(e, (0, ("v", 0, "Ok"), ("f", 0)), v)
        return self.pack(e, (0,))

    def call(self, fn, env, c, cctx):
        cal = c.callee
        if cal is None:
            return super().call(fn, env, c, cctx)
        r = self.model(fn, env, c, cal)
        if r is not False:
            return r
        fns = self.prog.targets(c)
        if self.enter and not self.enter(fn, c, fns):
            fns = []
        fns = [f for f in fns if f.kind != "Closure"]
        if len(fns) == 1 and not (cal.name in self.CMP and cal.trait):
            t = fns[0]
            vals = [self.op(fn, env, a) for a in c.args]
            av = tuple(self.argval(env, v, fn, a) for v, a in zip(vals[:t.argc], c.args))
            # a buffer handed on by reference is read from there
            buf = next((k for k in (self.receiver(fn, env, a) for a in c.args) if k), None)
            pos = env.get(("#pos",))
            av = av + (("#pos", (env[buf][1], env[buf][2]) if buf else pos),) if (pos or buf) else av
            cctx[c.bb] = [(t.id, av)]
            res = self.run(t, av)[1]
            touches = any(self.streamish(fn, a) for a in c.args)
            outp = getattr(self, "outpos", {}).get((t.id, av))
            for a in c.args:
                self.clobber(fn, env, a)
            if buf is not None:
                self.kill(env, buf)
                if outp:
                    env[buf] = ("buf", outp[0], outp[1])
            elif touches:
                env[("#pos",)] = outp or self.stuck(fn, c)
            return res
        res = super().call(fn, env, c, cctx)
        if any(self.streamish(fn, a) for a in c.args) and not fns:
            k = None
            for a in c.args:
                k = k or self.receiver(fn, env, a)
            if k is False:
                pass
            elif k is not None:
                self.kill(env, k)
            else:
                env[("#pos",)] = self.stuck(fn, c)
        return res

    def streamish(self, fn, a):
        t = fn.ty(a.ty)
        if t.get("k") != "ref" or not t.get("m"):
            return False
        s = fn.tys(a.ty)
        if self.MUTSAFE.search(s):
            return False
        u = fn.ty(t["a"][0])
        while u.get("k") == "ref":
            u = fn.ty(u["a"][0])
        if u.get("k") == "adt":
            n = u["n"]
            return bool(re.search(r"Reader|Cursor|Take|Stream|Chunk|File|Packets|Chain|Bytes", n))
        return u.get("k") in ("param", "slice", "dyn", "alias") or "R" == s[5:]

    def argval(self, env, v, fn=None, o=None):
        if isx(v):
            return v
        if isinstance(v, tuple) and v[0] == "buf":
            return v
        if isinstance(v, tuple) and v[0] == "ref":
            x = env.get(v[1])
            if isx(x) or isinstance(x, tuple) and x[0] == "buf":
                return ("rv", x)
        return super().argval(env, v, fn, o)

    def model(self, fn, env, c, cal):
        nm = cal.name
        vals = None
        m = self.READ.fullmatch(nm)
        if m and cal.trait and cal.trait.endswith("ReadBytesExt"):
            if m[1] in ("uint", "int"):
                w = self.as_int(self.op(fn, env, c.args[1]))
            else:
                w = int(m[1][1:]) // 8
            if w is None:
                self.take(fn, env, c, c.args[0], None)
                return None
            src, off = self.take(fn, env, c, c.args[0], w)
            big = self.endian(fn, c)
            n = self.word(src, off, w, bool(big))
            if m[1][0] == "f":
                n = ("op", "float", n)
            if m[1][0] == "i" and w in (3,):
                n = ("op", "sext", n)
            return self.ok(val(n))
        if nm == "read_exact" and len(c.args) == 2:
            n = self.length(fn, env, c.args[1])
            src, off = self.take(fn, env, c, c.args[0], n)
            v = self.op(fn, env, c.args[1])
            if isinstance(v, tuple) and v[0] == "ref":
                self.kill(env, v[1])
                env[v[1]] = ("buf", src, off)
            return ("e", RES, 0)
        if nm in ("copy_from_slice", "clone_from_slice") and len(c.args) == 2:
            v = self.op(fn, env, c.args[0])
            b = self.buffer(env, pk(c.args[1].place)) if c.args[1].kind == "p" else None
            if isinstance(v, tuple) and v[0] == "ref":
                self.kill(env, v[1])
                if b:
                    env[v[1]] = b
            return None
        if nm in ("read_u32_into", "read_u16_into", "read_u64_into") and len(c.args) == 2:
            v = self.op(fn, env, c.args[1])
            w = {"u16": 2, "u32": 4, "u64": 8}[nm[5:8]]
            n = self.length(fn, env, c.args[1])
            src, off = self.take(fn, env, c, c.args[0], n * w if n is not None else None)
            if isinstance(v, tuple) and v[0] == "ref" and n is not None and n <= 64:
                self.kill(env, v[1])
                env[v[1]] = ("words", src, off, w, bool(self.endian(fn, c)))
            return ("e", RES, 0)
        if nm == "seek" and len(c.args) == 2:
            v = self.full(fn, env, c.args[1])
            n = None
            if isinstance(v, tuple) and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "e" and v[1][1].endswith("SeekFrom") and v[1][2] == 2:
                n = [y for p, y in v[2] if p[-1] == ("f", 0)]
                n = n[0] if n and isinstance(n[0], int) else None
            end = isinstance(v, tuple) and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "e" and v[1][1].endswith("SeekFrom") and v[1][2] == 1 and any(y == 0 for _, y in v[2])
            self.take(fn, env, c, c.args[0], n)
            return self.ok(("x", ("f", "#end"))) if end else ("e", RES, 0)
        if nm in ("stream_position", "len", "is_empty", "rewind_") and len(c.args) == 1 and not self.prog.targets(c):
            if nm == "stream_position":
                return ("e", RES, 0)
            return False
        if nm in ("index", "index_mut") and len(c.args) == 2 and cal.trait and "ops::index" in cal.trait:
            b = self.buffer(env, pk(c.args[0].place)) if c.args[0].kind == "p" else None
            v = self.full(fn, env, c.args[1])
            t = fn.ty(c.args[1].ty).get("n", "")
            start = None
            if t.endswith("RangeFull") or t.endswith("RangeTo"):
                start = 0
            elif t.endswith(("RangeFrom", "Range", "RangeInclusive")) and isinstance(v, tuple) and v[0] == "s":
                start = dict(v[2]).get((("f", 0),))
            if not isinstance(start, int):
                return None
            el = fn.ty(c.dest.ty)
            if el.get("k") == "ref" and fn.ty(el["a"][0]).get("k") == "slice":
                if b is None:
                    return ("buf", self.source(fn, c), start)
                return ("buf", b[1], b[2] + start)
            return None
        if nm in ("try_into", "try_from", "as_slice", "as_ref", "deref", "to_vec", "unwrap", "expect", "borrow") and c.args and c.args[0].kind == "p":
            k = pk(c.args[0].place)
            b = self.buffer(env, k)
            if b is not None:
                if nm in ("try_into", "try_from"):
                    return self.ok(b)
                return b
            if nm in ("try_into", "try_from"):
                x = self.op(fn, env, c.args[0])
                if isx(x):
                    return self.ok(x)
            if nm in ("unwrap", "expect"):
                e = {x[len(k):]: y for x, y in env.items() if x[:len(k)] == k and len(x) > len(k) + 1}
                out = {}
                for x, y in e.items():
                    if x[0][0] == "v" and x[0][2] in ("Ok", "Some") and x[1] == ("f", 0):
                        out[(0,) + x[2:]] = y
                if out:
                    return self.pack(out, (0,))
            return False
        if nm in ("swap_bytes", "to_be", "from_be", "to_le", "from_le") and len(c.args) == 1 and not cal.trait:
            t, x = self.int_ty(fn, c.dest.ty), self.op(fn, env, c.args[0])
            if nm in ("to_le", "from_le"):
                return x
            y = bv(node(x), t[0]) if t and node(x) is not None else None
            return None if y is None else val(mk([b for i in range(t[0] // 8) for b in y[t[0] - 8 - 8 * i:t[0] - 8 * i]]))
        if nm in ("from_le_bytes", "from_be_bytes", "from_ne_bytes") and len(c.args) == 1:
            t = self.int_ty(fn, c.dest.ty)
            k = pk(c.args[0].place) if c.args[0].kind == "p" else None
            b = self.buffer(env, k) if k else None
            if t is None:
                return False
            if b is not None:
                return val(self.word(b[1], b[2], t[0] // 8, nm == "from_be_bytes"))
            el = [env.get(k + (("f", i),)) for i in range(t[0] // 8)] if k else []
            if el and all(node(x) is not None for x in el):
                out = []
                for x in (reversed(el) if nm == "from_be_bytes" else el):
                    y = bv(node(x), 8)
                    if y is None:
                        return None
                    out += y
                return val(mk(out))
            return None
        if self.READ.fullmatch(nm) and cal.trait and cal.trait.endswith("ByteOrder"):
            m = self.READ.fullmatch(nm)
            b = self.buffer(env, pk(c.args[0].place)) if c.args and c.args[0].kind == "p" else None
            if b is None or m[1] in ("uint", "int"):
                return None
            s = (cal.target or "") + " ".join(fn.tys(g) if isinstance(g, int) else str(g) for g in cal.ga)
            return val(self.word(b[1], b[2], int(m[1][1:]) // 8, "BigEndian" in s))
        if nm in ("map", "then", "and_then", "unwrap_or", "unwrap_or_default", "map_or"):
            return False
        if nm == "as_f64" and len(c.args) == 1:
            return ("x", ("f", "as_f64"))
        vals = [self.op(fn, env, a) for a in c.args]
        vals = [v[1] if isinstance(v, tuple) and v[0] == "rv" and isx(v[1]) and nm in PLAIN else v for v in vals]
        if nm in ("from", "into") and len(vals) == 1 and isinstance(vals[0], int) and fn.tys(c.dest.ty) in ("f32", "f64"):
            return ("x", ("fl", str(vals[0])))
        # uninterpreted pure functions of numbers
        if vals and any(isx(v) for v in vals):
            ns = [node(v) for v in vals]
            if nm in ("from", "into") and len(vals) == 1:
                t = self.int_ty(fn, c.dest.ty)
                if t or fn.tys(c.dest.ty) in ("f32", "f64", "bool"):
                    if t and fn.ty(c.args[0].ty).get("k") == "adt":
                        return None
                    n = self.cast(ns[0], self.int_ty(fn, c.args[0].ty), t, fn.tys(c.dest.ty)) if t else ("op", "as " + fn.tys(c.dest.ty), ns[0])
                    return val(n)
                return False
            if nm in ("clone", "to_owned"):
                return vals[0]
            if all(n is not None for n in ns) and not self.prog.targets(c) and cal.path.startswith(("core::num", "core::f64", "core::f32", "core::time", "std::", "core::cmp", "core::option::Option", "alloc::")) or \
                    all(n is not None for n in ns) and nm in ("div_round", "from_millis", "from_secs_f64"):
                w = re.sub(r"^saturating_|^wrapping_|^checked_", "", nm)
                if nm.startswith("checked_"):
                    o = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}.get(w)
                    n = self.sym(o, ns[0], ns[1], self.int_ty(fn, c.args[0].ty)) if o and len(ns) == 2 else None
                    return self.pack({(0, ("v", 1, "Some"), ("f", 0)): val(n)}, (0,)) if n is not None else None
                ns = [list(n[1]) if n[0] == "alt" else [n] for n in ns]
                k = 1
                for n in ns:
                    k *= len(n)
                if k > MAXALT:
                    return None
                r = frozenset(("op", nm, *xs) for xs in itertools.product(*ns))
                return ("x", next(iter(r)) if len(r) == 1 else ("alt", r))
        return False

    def length(self, fn, env, o):
        """length of the buffer behind a reference"""
        t = fn.ty(o.ty)
        if t.get("k") == "ref":
            u = fn.ty(t["a"][0])
            if u.get("k") == "array":
                return u.get("len")
        v = self.op(fn, env, o)
        if isinstance(v, tuple) and v[0] == "ref":
            lt = fn.local_ty(v[1][0]) if len(v[1]) == 1 else None
            if lt and lt.get("k") == "array":
                return lt.get("len") or lt.get("n")
        return None


def stores(p, sp):
    """(struct, field) -> [(function id, value, place in the source)] for every value stored in a field"""
    out = {}
    for (fid, args), (live, ins) in sp.final.items():
        fn = p.fns[fid]
        if fid.endswith("::default"):
            continue
        for b in sorted(live):
            env = dict(ins[b])
            for s in fn.stmts[b]:
                rv = s.rv
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] in p.adts and not p.adts[rv[1][1]]["enum"]:
                    nm = rv[1][1]
                    for f, o in zip(p.adts[nm]["vs"][0]["f"], rv[2]):
                        out.setdefault((nm, f[0]), []).append((fid, sp.full(fn, env, o), fn.loc(s.span), "new"))
                d = s.place
                sp.stmt(fn, env, s)
                if d.proj == (("d",),) and 1 <= d.local <= fn.argc:
                    out.setdefault((fid, f"*{d.local}"), []).append((fid, sp.pack(env, pk(d)), fn.loc(s.span), "set"))
                if d.proj and d.proj[-1][0] == "f" and len(d.proj[-1]) > 2:
                    nm = sp.base_adt(fn, d)
                    if nm in p.adts and not p.adts[nm]["enum"]:
                        out.setdefault((nm, d.proj[-1][2]), []).append((fid, sp.pack(env, pk(d)), fn.loc(s.span), "set"))
            t = fn.terms[b]
            if t[0] == "call":
                d = t[1].dest
                if d.proj == (("d",),) and 1 <= d.local <= fn.argc:
                    out.setdefault((fid, f"*{d.local}"), []).append((fid, sp.call(fn, env, t[1], {}), fn.loc(t[1].span), "set"))
                if d.proj and d.proj[-1][0] == "f" and len(d.proj[-1]) > 2:
                    nm = sp.base_adt(fn, d)
                    if nm in p.adts and not p.adts[nm]["enum"]:
                        cc = {}
                        v = sp.call(fn, env, t[1], cc)
                        out.setdefault((nm, d.proj[-1][2]), []).append((fid, v, fn.loc(t[1].span), "set"))
    return out


def runs(bits, src):
    """compact rendering of a bit vector, most significant part first"""
    out = []
    i = len(bits) - 1
    while i >= 0:
        b = bits[i]
        if b in (0, 1):
            out.append(str(b))
            i -= 1
            continue
        j = i
        while j > 0 and bits[j - 1] not in (0, 1) and bits[j - 1][0] == b[0] and bits[j - 1][1] == b[1] and bits[j - 1][2] == bits[j][2] - 1:
            j -= 1
        out.append((b[0], b[1], b[2], bits[j][2]))
        i = j - 1
    res = []
    i = 0
    while i < len(out):
        x = out[i]
        if isinstance(x, str):
            res.append(x)
            i += 1
            continue
        s = "" if src(x[0]) == 0 else "abcdefghijklmnop"[min(src(x[0]), 16) - 1]
        if x[2:] == (7, 0):
            j = i
            step = 0
            while j + 1 < len(out) and not isinstance(out[j + 1], str) and out[j + 1][0] == x[0] and out[j + 1][2:] == (7, 0) and \
                    (step == 0 or out[j + 1][1] - out[j][1] == step) and abs(out[j + 1][1] - out[j][1]) == 1:
                step = out[j + 1][1] - out[j][1]
                j += 1
            if j > i:
                res.append(f"{s}{'be' if step == 1 else 'le'}{min(x[1], out[j][1])}-{max(x[1], out[j][1])}")
                i = j + 1
                continue
            res.append(f"{s}{x[1]}")
        else:
            res.append(f"{s}{x[1]}.{x[2]}" + (f"-{x[3]}" if x[3] != x[2] else ""))
        i += 1
    return res


def canon(n):
    """expression with its sources numbered in order of appearance"""
    names = {}

    def src(s):
        return names.setdefault(s, len(names))

    def go(n):
        if n[0] == "b":
            return "[" + " ".join(runs(n[2], src)) + "]"
        if n[0] == "c":
            return str(n[1])
        if n[0] == "e":
            return f"{n[1].split('::')[-1]}#{n[2]}"
        if n[0] in ("f", "fl"):
            return n[1].split("~")[0]
        if n[0] == "idx":
            return f"table({','.join(map(str, n[1]))})[{go(n[2])}]"
        if n[0] == "not":
            return "!" + go(n[1])
        if n[0] == "alt":
            return "{" + " | ".join(sorted(go(x) for x in n[1])) + "}"
        if n[0] == "op":
            return f"{n[1]}({', '.join(go(x) for x in n[2:])})"
        return repr(n)
    return go(n)


def renamed(n):
    """the term with its symbols renamed X, X', X'' in order of appearance, whatever variable they belong to"""
    seen = {}

    def go(n):
        if n[0] == "f":
            b = n[1].split("~")[0]
            if n[1].endswith("~@"):        # of the decoder's own argument
                return ("f", b + "@")
            xs = seen.setdefault(b, [])
            if n[1] not in xs:
                xs.append(n[1])
            return ("f", b + "'" * xs.index(n[1]))
        if n[0] == "op":
            return n[:2] + tuple(go(x) for x in n[2:])
        if n[0] == "not":
            return ("not", go(n[1]))
        if n[0] == "idx":
            return ("idx", n[1], go(n[2]))
        return n
    return go(n)
