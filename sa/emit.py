"""What a writer writes: byte buffers as sequences of pieces, with the linear relations between the
integers written, the lengths of buffers and the positions of cursors.

A state is an affine subspace over variables
    ("v", place)    value of an integer place
    ("len", place)  number of elements of a vector, slice, string or cursor's buffer
    ("pos", place)  position of a cursor
plus what references certainly point to, which variant enum places certainly hold, and what buffers contain.
Paths are kept apart, except at loop heads, where the affine hull is taken and what an iteration wrote becomes one
piece (the contents of an iteration are recorded in `Machine.bodies`).  Calls into the analysed modules are analysed
in the caller's state, the rest follow `Machine.model`; anything unknown forgets what it may write.  Integers are taken
as mathematical ones: that an addition or conversion does not overflow is not decided here."""
from .flow import defs
from .mir import rv_ops, rv_places

P = (1 << 61) - 1
ONE = ("one",)


def form(c=0, *pairs):
    f = {}
    if c % P:
        f[ONE] = c % P
    for k, v in pairs:
        f[v] = k % P
    return f


def fadd(a, b, k=1):
    r = dict(a)
    for v, c in b.items():
        x = (r.get(v, 0) + k * c) % P
        if x:
            r[v] = x
        else:
            r.pop(v, None)
    return r


def fscale(a, k):
    k %= P
    return {v: c * k % P for v, c in a.items()} if k else {}


class Lin:
    __slots__ = ("rows",)

    def __init__(self, rows=None):
        self.rows = rows or {}

    def copy(self):
        return Lin(dict(self.rows))

    def nf(self, f):
        r = {}
        for v, c in f.items():
            row = self.rows.get(v)
            if row is None:
                x = (r.get(v, 0) + c) % P
                if x:
                    r[v] = x
                else:
                    r.pop(v, None)
            else:        # v + rest = 0
                for w, d in row.items():
                    if w != v:
                        x = (r.get(w, 0) - c * d) % P
                        if x:
                            r[w] = x
                        else:
                            r.pop(w, None)
        return r

    def add(self, f, avoid=None):
        """assume f = 0; False if that is impossible"""
        f = self.nf(f)
        if not f:
            return True
        ks = [v for v in f if v != ONE and v != avoid] or [v for v in f if v != ONE]
        if not ks:
            return False
        # keep ghosts and symbols as representatives
        pv = max(ks, key=lambda v: (v[0] not in ("sym",), len(v[1]) if len(v) > 1 and isinstance(v[1], tuple) else 0, repr(v)))
        self._insert(pv, f)
        return True

    def _insert(self, pv, f):
        inv = pow(f[pv], P - 2, P)
        f = fscale(f, inv)
        for q, row in list(self.rows.items()):
            c = row.get(pv)
            if c:
                self.rows[q] = fadd(row, f, -c)
        self.rows[pv] = f

    def forget(self, v):
        if v in self.rows:
            del self.rows[v]
            return
        for q, row in list(self.rows.items()):
            if v in row:
                del self.rows[q]
                # pivot this row on v, substitute it everywhere, drop it
                f = fscale(row, pow(row[v], P - 2, P))
                for r, x in list(self.rows.items()):
                    c = x.get(v)
                    if c:
                        self.rows[r] = fadd(x, f, -c)
                return

    def assign(self, v, f):
        t = ("tmp",)
        f = self.nf(f)
        g = fadd({t: 1}, f, -1)
        self._insert(t, self.nf(g))
        self.forget(v)
        self.rename(t, v)

    def rename(self, a, b):
        n = {}
        for q, row in self.rows.items():
            if a in row:
                row = dict(row)
                row[b] = row.pop(a)
            n[b if q == a else q] = row
        self.rows = n

    def vars(self):
        s = set()
        for row in self.rows.values():
            s.update(row)
        s.discard(ONE)
        return s

    def join(self, o):
        common, res = [], []
        for row in self.rows.values():
            r = o.nf(row)
            if r:
                res.append((r, row))
            else:
                common.append(row)
        # kernel of the residues
        piv = []
        for r, comb in res:
            r, comb = dict(r), dict(comb)
            for pv, pr, pc in piv:
                c = r.get(pv)
                if c:
                    k = c * pow(pr[pv], P - 2, P) % P
                    r, comb = fadd(r, pr, -k), fadd(comb, pc, -k)
            if r:
                piv.append((next(iter(r)), r, comb))
            else:
                common.append(comb)
        n = Lin()
        for row in common:
            n.add(row)
        return n


class State:
    """lin: linear relations; pts: what references certainly point to; disc: variants of enum places (and tags);
    seg: contents of byte buffers as a tuple of pieces
        ("c", bytes)                 constant bytes
        ("n", width, order, ghost)   an integer, whose value is the ghost variable
        ("b", ghost, origin)         bytes of another buffer; the ghost is their number
        ("L", frame, head, buffer)   what the iterations of a loop wrote
    log: writes that could not be placed in a buffer's contents: {(frame, block): (buffer, ghost position, piece)}"""
    __slots__ = ("lin", "pts", "disc", "seg", "log")

    def __init__(self, lin=None, pts=None, disc=None, seg=None, log=None):
        self.lin, self.pts, self.disc, self.seg, self.log = lin or Lin(), pts or {}, disc or {}, seg or {}, log or {}

    def copy(self):
        return State(self.lin.copy(), dict(self.pts), dict(self.disc), dict(self.seg), dict(self.log))

    def maps(self):
        return (self.pts, self.disc, self.seg)

    def join(self, o):
        return State(self.lin.join(o.lin), *({k: v for k, v in a.items() if b.get(k) == v} for a, b in zip(self.maps(), o.maps())), {**self.log, **o.log})

    def same(self, o):
        return (len(self.lin.rows) == len(o.lin.rows) and self.pts == o.pts and self.disc == o.disc and self.seg == o.seg and self.log == o.log
                and all(not o.lin.nf(r) for r in self.lin.rows.values()))

    def val(self, f):
        """value of a form if it is a constant"""
        n = self.lin.nf(f)
        if not n:
            return 0
        if len(n) == 1 and ONE in n:
            c = n[ONE]
            return c if c < P // 2 else c - P
        return None

    def zero(self, f):
        return not self.lin.nf(f)

    def kill(self, key):
        """forget everything about a place and its parts"""
        n = len(key)
        for v in [v for v in self.lin.vars() if len(v) > 1 and isinstance(v[1], tuple) and v[1][:n] == key]:
            self.lin.forget(v)
        for d in self.maps():
            for k in [k for k in d if k[:n] == key]:
                del d[k]

    def kill_if(self, dead):
        """forget all places of which dead(key)"""
        for v in [v for v in self.lin.vars() if len(v) > 1 and isinstance(v[1], tuple) and v[1] and dead(v[1])]:
            self.lin.forget(v)
        for d in self.maps():
            for k in [k for k in d if dead(k)]:
                del d[k]

    def kill_frame(self, fr):
        self.kill_if(lambda k: k[0] == fr)


BITS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u24": 3, "i24": 3, "u32": 4, "i32": 4, "f32": 4, "u48": 6, "u64": 8, "i64": 8, "f64": 8,
        "u128": 16, "i128": 16, "usize": 8, "isize": 8}
OPT, RES, CF, COW = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow", "alloc::borrow::Cow"
OKV = {OPT: 1, RES: 0, CF: 0}
CURSOR = "core::io::cursor::Cursor"
BUFS = ("alloc::vec::Vec", "alloc::string::String", CURSOR, "alloc::vec::into_iter::IntoIter")
SAMEREF = {"deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "as_str", "as_bytes", "get_ref", "get_mut",
           "by_ref", "as_deref", "inner", "inner_mut", "from_ref", "as_mut_vec", "to_mut"}
OWNED = {"to_vec", "clone", "to_owned", "into_bytes", "into_boxed_slice", "into_vec", "into_inner", "into", "from", "into_owned", "to_string",
         "into_iter", "iter", "copied", "cloned", "into_boxed_str", "into_string", "from_utf8", "from_utf8_unchecked", "from_utf8_lossy", "iter_mut", "bytes",
         "get", "rev"}


class Machine:
    def __init__(self, prog, inline, track=None, limit=160, depth=12):
        self.prog, self.inline, self.track, self.limit, self.depth = prog, inline, track or (lambda f, l: False), limit, depth
        self.steps = 0
        self.max_steps = 400000
        self.leafmemo = {}
        self.livememo = {}
        self.frames = {}
        self.bodies = {}
        self.merged = set()
        self.streams = set()

    # ---- hooks
    def hook(self, fn, fr, st, c):
        """handle a call before the model does: None (not handled), or a list of states"""
        return None

    # ---- types
    def ty(self, fn, ti):
        return fn.ty(ti)

    def peel(self, fn, t):
        while t.get("k") == "ref" or (t.get("k") == "adt" and t["n"] == "alloc::boxed::Box"):
            t = fn.ty(t["a"][0])
        return t

    def isint(self, t):
        return t.get("k") in ("int", "uint", "bool", "char") or t.get("s") in BITS or t.get("s") == "bool"

    def arrlen(self, t):
        if t.get("k") == "array":
            n = t.get("len", t.get("n"))
            try:
                return int(n)
            except (TypeError, ValueError):
                s = t.get("s", "")
                try:
                    return int(s[s.rindex(";") + 1:].strip(" ]"))
                except ValueError:
                    return None
        return None

    def leaves(self, fn, t, depth=0):
        """[(kind, subpath)] of a type"""
        key = (fn.crate.name, t.get("s"))
        if depth == 0 and key in self.leafmemo:
            return self.leafmemo[key]
        out = []
        k = t.get("k")
        if self.isint(t):
            out.append(("v", ()))
        elif k == "tuple":
            for i, a in enumerate(t.get("a") or []):
                out += [(kd, (i,) + p) for kd, p in self.leaves(fn, fn.ty(a), depth + 1)]
        elif k in ("slice", "str", "array"):
            out.append(("len", ()))
        elif k == "ref":
            out += [(kd, p) for kd, p in self.leaves(fn, fn.ty(t["a"][0]), depth + 1)] if depth < 5 else []
        elif k == "adt":
            n = t["n"]
            if n in BUFS or n in ("alloc::boxed::Box", COW):
                out += [("len", ()), ("pos", ())]
            elif "NonZero" in n:
                out.append(("v", ()))
            elif n in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
                out += [("v", (0,)), ("v", (1,))]
            elif n in ("core::ops::range::RangeFrom", "core::ops::range::RangeTo"):
                out.append(("v", (0,)))
            elif n in OKV and depth < 5:
                for j, a in enumerate(t.get("a") or []):
                    vi = OKV[n] if j == 0 and n != CF else 1 - OKV[n]
                    if n == CF:
                        vi = 1 - j if len(t["a"]) == 2 else j
                    out += [(kd, (f"v{vi}", 0) + p) for kd, p in self.leaves(fn, fn.ty(a), depth + 1)]
            elif n in self.prog.adts and depth < 4:
                ad = self.prog.adts[n]
                tys = ad["crate"].tys
                if len(ad["vs"]) <= 4:
                    for vi, v in enumerate(ad["vs"]):
                        for fi, f in enumerate(v["f"]):
                            sub = ad["crate"].tys[f[1]]
                            pre = (f"v{vi}", fi) if ad["enum"] else (fi,)
                            class F:      # types of the defining crate
                                crate = ad["crate"]
                                ty = staticmethod(lambda i, tys=tys: tys[i])
                            out += [(kd, pre + p) for kd, p in self.leaves(F, sub, depth + 1)]
        out = out[:64]
        if depth == 0:
            self.leafmemo[key] = out
        return out

    # ---- places
    def key(self, fn, fr, st, p):
        cur = (fr, p.local)
        for e in p.proj:
            if e[0] == "d":
                cur = self.follow(st, cur)
            elif e[0] == "f":
                cur = cur + (e[1],)
            elif e[0] == "v":
                cur = cur + (f"v{e[1]}",)
            else:
                return None
            if len(cur) > 14:
                return None
        return cur

    def follow(self, st, k):
        n = 0
        while k in st.pts and n < 8:
            k = st.pts[k]
            n += 1
        return k

    def sink(self, st, k):
        """the buffer a writer or reader handle stands for"""
        for _ in range(8):
            k = self.follow(st, k)
            nx = [v for q, v in st.pts.items() if len(q) == len(k) + 1 and q[:len(k)] == k and isinstance(q[-1], int)]
            if len(nx) != 1:
                return k
            k = nx[0]
        return k

    def opkey(self, fn, fr, st, o):
        return self.key(fn, fr, st, o.place) if o.kind == "p" else None

    def refkey(self, fn, fr, st, o):
        k = self.opkey(fn, fr, st, o)
        return None if k is None else self.follow(st, k)

    def form(self, fn, fr, st, o):
        """linear form of an integer operand, or None"""
        if o.kind == "k":
            n = o.int
            if n is None and "i" in o.val:
                n = int(o.val["i"])
            if n is None and isinstance(o.val.get("ref"), dict) and "i" in o.val["ref"]:
                n = int(o.val["ref"]["i"])
            if n is None and o.val.get("fs"):
                x = o.val["fs"][0]
                if isinstance(x, dict) and "i" in x:
                    n = int(x["i"])
            return form(n) if n is not None else None
        if o.kind != "p":
            return None
        k = self.key(fn, fr, st, o.place)
        return None if k is None else {("v", self.follow(st, k) if fn.ty(o.ty).get("k") == "ref" else k): 1}

    def constlen(self, v, fn=None):
        if "promoted" in v and fn is not None:
            b = self.promoted(fn, v["promoted"])
            return len(b) if b is not None else None
        for _ in range(4):
            if "s" in v:
                return len(v["s"].encode())
            if "by" in v:
                b = v["by"]
                return len(b) if not isinstance(b, str) else len(b) // 2
            if "arr" in v:
                return len(v["arr"])
            if isinstance(v.get("ref"), dict):
                v = v["ref"]
            else:
                return None

    def lenform(self, fn, fr, st, o):
        """length of a buffer operand (or of what it refers to)"""
        if o.ty is not None:
            t = self.peel(fn, fn.ty(o.ty))
            n = self.arrlen(t)
            if n is not None:
                return form(n)
        if o.kind == "k":
            n = self.constlen(o.val, fn)
            return form(n) if n is not None else None
        k = self.refkey(fn, fr, st, o)
        return None if k is None else {("len", self.sink(st, k)): 1}

    # ---- contents
    def promoted(self, fn, i):
        """bytes of a promoted constant array, reference to one, or None"""
        if i >= len(fn.promoted):
            return None
        g = fn.promoted[i]
        vals = {}
        for b in sorted(g.reachable):
            for s in g.stmts[b]:
                if not s.place.bare:
                    return None
                rv = s.rv
                if rv[0] == "agg" and rv[1][0] == "array":
                    ns = [o.int if o.kind == "k" else None for o in rv[2]]
                    if None in ns:
                        return None
                    vals[s.place.local] = bytes(n % 256 for n in ns)
                elif rv[0] == "repeat":
                    n, c = self.arrlen(g.local_ty(s.place.local)), rv[1].int if rv[1].kind == "k" else None
                    if n is None or c is None or n > 4096:
                        return None
                    vals[s.place.local] = bytes([c % 256]) * n
                elif rv[0] == "use" and rv[1].kind == "k":
                    vals[s.place.local] = self.constbytes(rv[1].val)
                elif rv[0] == "use" and rv[1].place.bare:
                    vals[s.place.local] = vals.get(rv[1].place.local)
                elif rv[0] == "ref" and (rv[2].bare or rv[2].proj == [("d",)] or rv[2].proj == (("d",),)):
                    vals[s.place.local] = vals.get(rv[2].local)
                elif rv[0] == "cast" and rv[2].kind == "p" and rv[2].place.bare:
                    vals[s.place.local] = vals.get(rv[2].place.local)
        return vals.get(0)

    def constbytes(self, v, fn=None):
        if "promoted" in v and fn is not None:
            return self.promoted(fn, v["promoted"])
        for _ in range(4):
            if "s" in v:
                return v["s"].encode()
            if "by" in v:
                b = v["by"]
                return bytes.fromhex(b) if isinstance(b, str) else bytes(b)
            if "arr" in v:
                try:
                    return bytes(int(x["i"]) for x in v["arr"])
                except (KeyError, TypeError, ValueError):
                    return None
            if isinstance(v.get("ref"), dict):
                v = v["ref"]
            else:
                return None

    def describe(self, k):
        """a readable name of a place"""
        if k and isinstance(k[0], tuple) and k[0] in self.frames:
            f = self.frames[k[0]]
            return ".".join([f.local_name(k[1]) or f"_{k[1]}"] + [str(x) for x in k[2:]])
        return str(k)

    def ghost(self, st, name, f):
        v = ("v", ("g",) + name)
        if f is None:
            st.lin.forget(v)
        else:
            st.lin.assign(v, f)
        return v[1]

    def content(self, fn, fr, st, o, site):
        """(pieces, length) of a buffer operand"""
        if o.kind == "k":
            b = self.constbytes(o.val, fn)
            if b is not None:
                return (("c", b),) if b else (), form(len(b))
        n = self.lenform(fn, fr, st, o)
        k = self.refkey(fn, fr, st, o) if o.kind == "p" else None
        if k is not None:
            s = self.sink(st, k)
            for q in (s, k):
                if q in st.seg:
                    return st.seg[q], self.seglen(st.seg[q])
        g = self.ghost(st, ("b", fr, site), n)
        return (("b", g, ("?" if k is None or self.made(st, self.sink(st, k)) else "") + self.origin(st, k)),), {("v", g): 1}

    def made(self, st, s):
        """is the buffer one that was made here (by something that is not understood)?"""
        if s[0] in self.frames and len(s) == 2:
            t = self.frames[s[0]].local_ty(s[1])
            return t.get("n") in BUFS or t.get("k") == "array" or t.get("n") in (OPT, RES, COW)
        return False

    def origin(self, st, k):
        if k is None:
            return "?"
        s = self.sink(st, k)
        return st.disc.get(s + ("#org",)) or st.disc.get(k + ("#org",)) or self.describe(s)

    def intpiece(self, st, width, order, f, name):
        if f is not None:
            c = st.val(f)
            if c is not None and -(1 << 8 * width - 1) <= c < 1 << 8 * width and order in ("be", "le", ""):
                return ("c", (c % (1 << 8 * width)).to_bytes(width, "little" if order == "le" else "big"))
        return ("n", width, order, self.ghost(st, name, f))

    def boundary(self, st, seg, pos):
        """(index, offset into that constant piece) at which pos lies, or None"""
        cum = {}
        for i, p in enumerate(seg):
            d = st.val(fadd(pos, cum, -1))
            if d == 0:
                return i, 0
            if d is not None and p[0] == "c" and 0 < d < len(p[1]):
                return i, d
            cum = fadd(cum, self.piecelen(p))
        return (len(seg), 0) if st.zero(fadd(pos, cum, -1)) else None

    def cut(self, st, seg, pos):
        b = self.boundary(st, seg, pos)
        if b is None:
            return None
        i, d = b
        if d:
            seg = seg[:i] + (("c", seg[i][1][:d]), ("c", seg[i][1][d:])) + seg[i + 1:]
            i += 1
        return seg[:i], seg[i:]

    def replace(self, st, k, lo, hi, pieces, site):
        """the bytes lo..hi of buffer k are replaced"""
        seg = st.seg.get(k)
        if seg is not None:
            a = self.cut(st, seg, lo)
            b = self.cut(st, seg, hi) if a is not None else None
            if b is not None:
                st.seg[k] = a[0] + tuple(pieces) + b[1]
                return
            del st.seg[k]
        for i, p in enumerate(pieces):
            st.log[(site, i)] = (k, self.ghost(st, ("at", site, i), fadd(lo, self.seglen(pieces[:i]))), p)

    def append(self, st, k, pieces):
        if k in st.seg:
            st.seg[k] = st.seg[k] + tuple(pieces)

    # ---- updates
    def set(self, st, kind, key, f):
        if f is None:
            st.lin.forget((kind, key))
        else:
            st.lin.assign((kind, key), f)

    def copy(self, fn, st, d, s, t):
        """d := s (type t)"""
        if d == s:
            return
        n = len(s)
        sub = list(dict.fromkeys(self.leaves(fn, t) + [(v[0], v[1][n:]) for v in sorted(st.lin.vars(), key=repr)
                                                       if len(v) == 2 and isinstance(v[1], tuple) and v[1][:n] == s]))
        forms = [(kd, p, st.lin.nf({(kd, s + p): 1})) for kd, p in sub]
        maps = [{d + k[len(s):]: v for k, v in m.items() if k[:len(s)] == s} for m in st.maps()]
        # d gets fresh values equal to s's
        tmp = [("tmp", i) for i in range(len(forms))]
        for (kd, p, f), tv in zip(forms, tmp):
            g = st.lin.nf(fadd({tv: 1}, {(kd, s + p): 1}, -1))
            st.lin._insert(tv, g)
        st.kill(d)
        for (kd, p, f), tv in zip(forms, tmp):
            st.lin.rename(tv, (kd, d + p))
        for m, n in zip(st.maps(), maps):
            m.update(n)

    def assign(self, fn, fr, st, d, ti, rv):
        """one statement; False if the path cannot go on"""
        if d is None:
            return
        t = fn.ty(ti)
        k = rv[0]
        if k == "use":
            o = rv[1]
            if o.kind == "p":
                s = self.key(fn, fr, st, o.place)
                if s is None:
                    st.kill(d)
                else:
                    self.copy(fn, st, d, s, t)
            else:
                self.const(fn, fr, st, d, t, o)
        elif k == "ref":
            s = self.key(fn, fr, st, rv[2])
            st.kill(d)
            if s is not None:
                st.pts[d] = s
        elif k == "cast":
            o = rv[2]
            if rv[1] == "BoxDerefTransmute" and o.kind == "p":
                s = self.key(fn, fr, st, o.place)
                st.kill(d)
                if s is not None:
                    st.pts[d] = s
                return
            if self.isint(t):
                f = self.form(fn, fr, st, o)
                f = st.lin.nf(f) if f is not None else None
                st.kill(d) if f is None or ("v", d) not in f else None
                self.set(st, "v", d, f)
            elif o.kind == "p" and (s := self.key(fn, fr, st, o.place)) is not None:
                self.copy(fn, st, d, s, fn.ty(o.ty))
                n = self.arrlen(self.peel(fn, fn.ty(o.ty)))
                if n is not None and self.arrlen(self.peel(fn, t)) is None:
                    self.set(st, "len", self.sink(st, self.follow(st, d)), form(n))       # an array as a slice
            else:
                self.const(fn, fr, st, d, t, o)
        elif k == "bin":
            f = self.arith(fn, fr, st, rv)
            f = st.lin.nf(f) if f is not None else None
            if f is None and rv[1] == "BitAnd" and rv[3].kind == "k" and rv[3].int is not None and rv[3].int % P in ((1 << n) - 2 for n in (8, 16, 32, 64)) and \
                    (x := self.form(fn, fr, st, rv[2])) is not None:
                self.parity(st, d, "#round", x, (fr, d))
                return
            if f is None and (rv[1].startswith("Rem") and rv[3].int == 2 or rv[1] == "BitAnd" and rv[3].int == 1) and rv[3].kind == "k":
                x = self.form(fn, fr, st, rv[2])
                self.set(st, "v", d, None)
                if x is not None:
                    self.parity(st, d, "#par", x, (fr, d))
                return
            if rv[1].endswith("WithOverflow"):
                self.set(st, "v", d + (0,), f)
            else:
                self.set(st, "v", d, f)
        elif k == "un":
            f = None
            if rv[1] == "Neg":
                f = self.form(fn, fr, st, rv[2])
                f = fscale(f, -1) if f is not None else None
            elif rv[1] == "PtrMetadata":
                f = self.lenform(fn, fr, st, rv[2])
            elif rv[1] == "Not" and fn.ty(rv[2].ty).get("s") == "bool":
                f = self.form(fn, fr, st, rv[2])
                f = fadd(form(1), f, -1) if f is not None else None
            self.set(st, "v", d, f)
        elif k == "len":
            s = self.key(fn, fr, st, rv[1])
            self.set(st, "v", d, {("len", self.sink(st, s)): 1} if s is not None else None)
        elif k == "agg":
            h = rv[1]
            tmp = ("agg", 0)
            st.kill(tmp)
            pre = tmp
            if h[0] == "adt":
                ad = self.prog.adts.get(h[1])
                isenum = ad["enum"] if ad else h[1] in OKV or h[1] == COW or h[1].endswith("SeekFrom")
                if isenum:
                    st.disc[tmp] = h[2]
                    pre = tmp + (f"v{h[2]}",)
            for i, o in enumerate(rv[2]):
                if o.ty is None:
                    continue
                ot = fn.ty(o.ty)
                if o.kind == "p":
                    s = self.key(fn, fr, st, o.place)
                    if s is not None:
                        self.copy(fn, st, pre + (i,), s, ot)
                else:
                    self.const(fn, fr, st, pre + (i,), ot, o)
            # move the whole thing over
            st.kill(d)
            for v in [v for v in st.lin.vars() if len(v) > 1 and isinstance(v[1], tuple) and v[1][:2] == tmp]:
                st.lin.rename(v, (v[0], d + v[1][2:]))
            for dd in st.maps():
                for q in [q for q in dd if q[:2] == tmp]:
                    dd[d + q[2:]] = dd.pop(q)
            if h[0] == "array":
                self.arrayseg(fn, fr, st, d, rv[2])
        elif k == "repeat":
            st.kill(d)
            n = self.arrlen(t)
            if n is not None:
                self.set(st, "len", d, form(n))
                c = rv[1].int if rv[1].kind == "k" else None
                if c is not None and n <= 4096 and fn.ty(rv[1].ty).get("s") in ("u8", "i8"):
                    st.seg[d] = (("c", bytes([c % 256]) * n),)
        else:
            st.kill(d)

    def parity(self, st, d, kind, f, site):
        """d says whether f is odd (kind #par) or even (#even)"""
        h = ("g", "par") + site
        st.disc.pop(("par", h), None)
        st.lin.assign(("v", h), f)
        if kind == "#round":            # f rounded down to even
            g = self.ghost(st, ("pv",) + site, None)
            self.set(st, "v", d, fadd(f, {("v", g): 1}, -1))
            st.disc[g + ("#rem",)] = h
            return
        if kind == "#par":
            st.disc[self.ghost(st, ("pv",) + site, {("v", d): 1}) + ("#rem",)] = h
        st.disc[d + (kind,)] = h

    def remainder(self, st, d, f):
        """is d the remainder of f modulo 2?"""
        for k, h in st.disc.items():
            if k[-1] == "#rem":
                for sign in (1, -1):
                    a, b = st.val(fadd(d, {("v", k[:-1]): 1}, -sign)), st.val(fadd(f, {("v", h): 1}, -1))
                    if a is not None and b is not None and (a, b % 2) in (((0, 0),) if sign == 1 else ((1, 1),)):
                        return True
        return False

    def tested(self, st, f):
        """may the oddness of f follow from a test the path has passed?"""
        f = {v for v in st.lin.nf(f) if v != ONE}
        if any(len(v) > 1 and v[1][:2] == ("g", "L") for v in f) or self.vague(st, dict.fromkeys(f, 1)):
            return True
        for k in st.disc:
            if k[0] == "par":
                h = set(st.lin.nf({("v", k[1]): 1}))
                if f & h or any(v[0] == "len" or v == ("v", k[1]) for v in h):
                    return True
        return False

    def odd(self, st, f):
        """is f odd? (None if unknown)"""
        c = st.val(f)
        if c is not None:
            return c % 2
        for k, b in st.disc.items():
            if k[0] == "par":
                c = st.val(fadd(f, {("v", k[1]): 1}, -1))
                if c is not None:
                    return (b + c) % 2
        return None

    def parities(self, st):
        for k, h in list(st.disc.items()):
            if k[-1] in ("#par", "#even"):
                c = st.val({("v", k[:-1]): 1})
                if c in (0, 1):
                    b = c if k[-1] == "#par" else 1 - c
                    if st.disc.setdefault(("par", h), b) != b:
                        return False
        return True

    def other(self, st, f, c):
        """f is a remainder modulo 2 other than c: False if that is impossible"""
        if len(f) == 1 and c in (0, 1):
            (v, k), = f.items()
            if k == 1 and v != ONE and v[1] + ("#par",) in st.disc:
                return st.lin.add(fadd(f, form(1 - c), -1))
        return True

    def arrayseg(self, fn, fr, st, d, ops):
        out = []
        for i, o in enumerate(ops):
            if o.ty is None or fn.ty(o.ty).get("s") not in ("u8", "i8"):
                return
            f = self.form(fn, fr, st, o)
            x = st.val(f) if f is not None else None
            if x is not None:
                out.append(("c", bytes([x % 256])))
            else:
                out.append(("n", 1, "", self.ghost(st, ("e", d, i), f)))
        st.seg[d] = self.norm(out)

    def norm(self, pieces):
        """adjacent constants as one"""
        out = []
        for p in pieces:
            if p[0] == "c" and out and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + p[1])
            elif p != ("c", b""):
                out.append(p)
        return tuple(out)

    def const(self, fn, fr, st, d, t, o):
        st.kill(d)
        if self.isint(t):
            f = self.form(fn, fr, st, o)
            self.set(st, "v", d, f)
            return
        if t.get("k") == "ref" and self.isint(fn.ty(t["a"][0])):
            self.set(st, "v", d, self.form(fn, fr, st, o))
            return
        n = self.lenform(fn, fr, st, o)
        if n is not None:
            self.set(st, "len", d, n)
        b = self.constbytes(o.val, fn)
        if b is not None:
            st.seg[d] = (("c", b),) if b else ()
        v = o.val
        if "adt" in v and "v" in v:
            st.disc[d] = v["v"]
            for i, x in enumerate(v.get("fs") or []):
                if isinstance(x, dict) and "i" in x:
                    self.set(st, "v", d + (f"v{v['v']}", i), form(int(x["i"])))
                    self.set(st, "v", d + (i,), form(int(x["i"])))

        if "promoted" in v and (e := self.promenum(fn, v["promoted"])) is not None:
            st.disc[d] = e

    def promenum(self, fn, i):
        """the variant of a promoted enum value"""
        for b in fn.promoted[i].stmts if i < len(fn.promoted) else []:
            for x in b:
                if x.rv[0] == "agg" and x.rv[1][0] == "adt" and not x.rv[2] and (self.prog.adts.get(x.rv[1][1]) or {}).get("enum"):
                    return x.rv[1][2]
                if x.rv[0] == "use" and x.rv[1].kind == "k" and "adt" in x.rv[1].val and "v" in x.rv[1].val:
                    return x.rv[1].val["v"]
        return None

    def arith(self, fn, fr, st, rv):
        op = rv[1]
        a, b = self.form(fn, fr, st, rv[2]), self.form(fn, fr, st, rv[3])
        if a is None or b is None:
            return None
        if op.startswith("Add"):
            return fadd(a, b)
        if op.startswith("Sub"):
            return fadd(a, b, -1)
        x, y = st.val(a), st.val(b)
        if op.startswith("Mul"):
            if y is not None:
                return fscale(a, y)
            if x is not None:
                return fscale(b, x)
        if op.startswith("Shl") and y is not None and 0 <= y < 64:
            return fscale(a, 1 << y)
        if x is not None and y is not None:
            try:
                r = {"Div": lambda: x // y, "Rem": lambda: x % y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shr": lambda: x >> y, "Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y), "Le": lambda: int(x <= y),
                     "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y)}.get(op)
                return form(r()) if r else None
            except (ZeroDivisionError, ValueError):
                return None
        if op in ("Eq", "Ne") and st.zero(fadd(a, b, -1)):
            return form(int(op == "Eq"))
        return None

    # ---- conditions
    def refine(self, fn, fr, st, b, val, dflt, taken):
        """state on the edge of a switch, or None"""
        n = self.refine_(fn, fr, st, b, val, dflt, taken)
        return n if n is not None and self.parities(n) else None

    def refine_(self, fn, fr, st, b, val, dflt, taken):
        t = fn.terms[b]
        o = t[1]
        if o.kind != "p":
            n = o.int
            ok = (n == val) if not dflt else n not in taken
            return st.copy() if ok else None
        st = st.copy()
        k = self.key(fn, fr, st, o.place)
        if k is None:
            return st
        f = {("v", k): 1}
        # what the tested local stands for
        rv = None
        x = o.place.local
        for _ in range(3):
            w = defs(fn).whole(x)
            if len(w) != 1:
                break
            rv = w[0]
            if rv[0] == "stmt" and rv[2].rv[0] == "use" and rv[2].rv[1].kind == "p" and rv[2].rv[1].place.bare:
                x = rv[2].rv[1].place.local
                continue
            break
        # discriminants
        local = [s for s in fn.stmts[b] if s.place.bare and s.place.local == o.place.local]
        src = local[-1].rv if local else (rv[2].rv if rv and rv[0] == "stmt" else None)
        if src and src[0] == "discr":
            pk = self.key(fn, fr, st, src[1])
            if pk is not None:
                pk = self.follow(st, pk)
                tt = self.peel(fn, fn.ty(src[1].ty))
                have = st.disc.get(pk)
                vals = self.discvals(tt)
                if not dflt:
                    vi = vals.index(val) if vals and val in vals else val
                    if have is not None and have != vi:
                        return None
                    st.disc[pk] = vi
                else:
                    ex = {vals.index(v) if vals and v in vals else v for v in taken}
                    if have is not None and have in ex:
                        return None
                    if vals and len(vals) - len(ex) == 1:
                        st.disc[pk] = next(i for i in range(len(vals)) if i not in ex)
                    elif vals and not set(range(len(vals))) - ex:
                        return None
            return st
        if not dflt:
            if not st.lin.add(fadd(f, form(val), -1)):
                return None
        else:
            c = st.val(f)
            if c is not None and c in taken or len(taken) == 1 and not self.other(st, f, taken[0]):
                return None
            if fn.local_ty(o.place.local).get("s") == "bool" and len(taken) == 1:
                if not st.lin.add(fadd(f, form(1 - taken[0]), -1)):
                    return None
        truth = None
        if fn.ty(o.ty).get("s") == "bool":
            truth = (val != 0) if not dflt else (0 in taken)
        if truth is None:
            return st
        z = st.disc.get(k + ("#zero",))
        if z is not None:
            if truth:
                if not st.lin.add({("v", z): 1}):
                    return None
            elif st.zero({("v", z): 1}):
                return None
        z = st.disc.get(k + ("#isv",))
        if z is not None:
            want = z[1] if truth else 1 - z[1]
            if st.disc.setdefault(z[0], want) != want:
                return None
        if rv is None:
            return st
        if rv[0] == "stmt" and rv[2].rv[0] == "bin":
            op = rv[2].rv[1]
            a, c = self.form(fn, fr, st, rv[2].rv[2]), self.form(fn, fr, st, rv[2].rv[3])
            if a is not None and c is not None:
                d = fadd(a, c, -1)
                if (op == "Eq" and truth) or (op == "Ne" and not truth):
                    if not st.lin.add(d):
                        return None
                elif (op == "Eq" and not truth) or (op == "Ne" and truth):
                    if st.zero(d) or not self.other(st, a, st.val(c)):
                        return None
                else:
                    x = st.val(d)
                    if x is not None and op in ("Lt", "Le", "Gt", "Ge"):
                        h = {"Lt": x < 0, "Le": x <= 0, "Gt": x > 0, "Ge": x >= 0}[op]
                        if h != truth:
                            return None
                    if op in ("Lt", "Le", "Gt", "Ge"):
                        # d > 0, d >= 0, d < 0 or d <= 0
                        pos = (op[0] == "G") == truth
                        for q, (g, e) in [(q, v) for q, v in st.disc.items() if q[0] == "max"]:
                            w = fadd({("v", e): 1}, {("v", g): 1}, -1)      # new end - old end
                            same = st.zero(fadd(d, w, -1))
                            if same or st.zero(fadd(d, w)):
                                del st.disc[q]
                                st.lin.add(fadd({("len", q[1]): 1}, {("v", e if same == pos else g): 1}, -1))
                    # unsigned `0 < x` false, `x > 0` false, `x <= 0`: x = 0
                    if (op, truth) in (("Gt", False), ("Le", True)) and st.val(c) == 0 and self.unsigned(fn, rv[2].rv[2]):
                        st.lin.add(a)
        elif rv[0] == "call":
            c = rv[2]
            n = c.callee.name if c.callee else ""
            if n in ("le", "lt", "ge", "gt") and c.args and self.peel(fn, fn.ty(c.args[0].ty)).get("n", "").startswith("log::"):
                return st if not truth else None          # nothing is logged
            if n in ("eq", "ne") and len(c.args) == 2:
                a, d = self.form(fn, fr, st, c.args[0]), self.form(fn, fr, st, c.args[1])
                if a is not None and d is not None and all(self.isint(self.peel(fn, fn.ty(x.ty))) for x in c.args):
                    if truth == (n == "eq"):
                        if not st.lin.add(fadd(a, d, -1)):
                            return None
            elif n in ("is_positive", "is_negative") and c.args:
                a = self.form(fn, fr, st, c.args[0])
                if a is not None:
                    x = st.val(a)
                    if x is not None and (x > 0 if n == "is_positive" else x < 0) != truth:
                        return None
                    for v in a:
                        if v != ONE and (truth == (n == "is_negative")):
                            st.disc[("sign",) + v[1]] = -1
        return st

    def unsigned(self, fn, o):
        return o.ty is not None and fn.ty(o.ty).get("s", "").startswith("u")

    def discvals(self, t):
        """discriminant value of every variant"""
        if t.get("k") != "adt":
            return None
        if t["n"] in (OPT, RES, CF):
            return [0, 1]
        ad = self.prog.adts.get(t["n"])
        if not ad:
            return None
        out = []
        for i, v in enumerate(ad["vs"]):
            try:
                out.append(int(str(v["d"]).split(" ")[0]))
            except (ValueError, KeyError, TypeError):
                out.append(i)
        return out

    # ---- engine
    def part(self, fn, fr, st):
        return tuple(sorted((k, v) for k, v in st.disc.items() if k[0] == "tag" or len(k) == 2 and isinstance(k[1], int) and self.track(k[0], k[1])))

    def live(self, fn):
        """locals read at or after the start of each block"""
        r = self.livememo.get(fn.id)
        if r is not None:
            return r
        use, kill = {}, {}

        def uses(o):
            if o.kind == "p":
                u.add(o.place.local)
                u.update(e[1] for e in o.place.proj if e[0] == "i")
        for b in fn.reachable:
            u, k = set(), set()
            for s in fn.stmts[b]:
                n = set(u)
                u = set()
                for o in rv_ops(s.rv):
                    uses(o)
                for q in rv_places(s.rv):
                    u.add(q.local)
                    u.update(e[1] for e in q.proj if e[0] == "i")
                if not s.place.bare:
                    u.add(s.place.local)
                u = n | (u - k)
                if s.place.bare:
                    k.add(s.place.local)
            t = fn.terms[b]
            n = set(u)
            u = set()
            if t[0] == "switch":
                uses(t[1])
            elif t[0] == "call":
                for o in t[1].args:
                    uses(o)
                if not t[1].dest.bare:
                    u.add(t[1].dest.local)
            elif t[0] == "return":
                u.add(0)
            u = n | (u - k)
            if t[0] == "call" and t[1].dest.bare:
                k.add(t[1].dest.local)
            use[b], kill[b] = u, k
        live = {b: set(use[b]) for b in use}
        ch = True
        order = [b for b in reversed(fn.rpo) if b in use]
        while ch:
            ch = False
            for b in order:
                out = set()
                for x in fn.succs(b):
                    out |= live.get(x, set())
                n = use[b] | (out - kill[b])
                if n != live[b]:
                    live[b], ch = n, True
        self.livememo[fn.id] = live
        return live

    def prune(self, fn, fr, st, b):
        """forget the dead locals of a frame"""
        live = self.live(fn).get(b, set())
        keep = {(fr, l) for l in live}
        for l in range(1, fn.argc + 1):
            keep.add((fr, l))
        # what live references (of any frame) point to
        todo = True
        while todo:
            todo = False
            for k, v in st.pts.items():
                if (k[0] != fr or k[:2] in keep) and v and v[0] == fr and v[:2] not in keep:
                    keep.add(v[:2])
                    todo = True
        st.kill_if(lambda k: k[0] == fr and k[:2] not in keep)

    def run(self, fn, fr, entry):
        """states at the return of fn"""
        self.frames[fr] = fn
        at = {}
        work = []
        exits = []
        heads = set(fn.loops)
        back = {(x, h) for h, body in fn.loops.items() for x in body if h in fn.succs(x)}

        def flow(a, b, st):
            if fn.terms[b][0] == "unreachable":
                return
            self.prune(fn, fr, st, b)
            slot = at.setdefault(b, [])
            if b in heads:
                pk = self.part(fn, fr, st)
                for i, (q, old) in enumerate(slot):
                    if q == pk:
                        new = self.widen(fn, fr, b, old, st, (a, b) in back)
                        if not new.same(old):
                            slot[i] = (pk, new)
                            work.append((b, new))
                        return
                slot.append((pk, st))
                work.append((b, st))
                return
            for _, old in slot:
                if old.same(st):
                    return
            if len(slot) >= self.limit:
                new = slot[-1][1].join(st)
                self.merged.add((fn.id, b))
                if new.same(slot[-1][1]):
                    return
                slot[-1] = (None, new)
                work.append((b, new))
                return
            slot.append((None, st))
            work.append((b, st))
        flow(None, 0, entry)
        order = {b: i for i, b in enumerate(fn.rpo)}
        while work:
            work.sort(key=lambda x: -order[x[0]])
            b, st = work.pop()
            if b in heads and not any(x is st for _, x in at[b]):
                continue               # widened since
            self.steps += 1
            if self.steps > self.max_steps:
                raise RuntimeError("analysis of writers did not finish: " + fn.id)
            st = st.copy()
            for s in fn.stmts[b]:
                if s.place.bare and s.place.local == 0 and self.fails(fn, s):
                    st = None
                    break
                d = self.key(fn, fr, st, s.place)
                if s.rv[0] == "discr":
                    if d:
                        st.kill(d)
                    continue
                self.assign(fn, fr, st, d, s.place.ty if s.place.ty is not None else fn.locals[s.place.local][0], s.rv)
            if st is None:
                continue
            t = fn.terms[b]
            if t[0] == "return":
                if not any(x.same(st) for x in exits):
                    exits.append(st)
            elif t[0] == "switch":
                taken = [v for v, _ in t[2]]
                for v, x in t[2]:
                    n = self.refine(fn, fr, st, b, v, False, taken)
                    if n is not None:
                        flow(b, x, n)
                n = self.refine(fn, fr, st, b, None, True, taken)
                if n is not None:
                    flow(b, t[3], n)
            elif t[0] == "call":
                c = t[1]
                if c.target is None:
                    continue
                for n in self.call(fn, fr, st, c):
                    flow(b, c.target, n)
            else:
                for x in fn.succs(b):
                    flow(b, x, st.copy())
        return exits

    # ---- loops
    def piecelen(self, p):
        if p[0] == "c":
            return form(len(p[1]))
        if p[0] == "n":
            return form(p[1])
        if p[0] == "b":
            return {("v", p[1]): 1}
        return {("v", ("g", "L") + p[1:]): 1}

    def seglen(self, pieces):
        f = {}
        for p in pieces:
            f = fadd(f, self.piecelen(p))
        return f

    def widen(self, fn, fr, head, old, new, back):
        old, new = old.copy(), new.copy()
        for k in set(old.seg) & set(new.seg):
            a, b = old.seg[k], new.seg[k]
            L = ("L", fr, head, k)
            gl, gi = ("v", ("g",) + L), ("v", ("g", "it", fr, head, k))
            if a == b:
                continue
            n = len(a)
            if b[:n] == a:
                suf = b[n:]
                if a and a[-1] == L:
                    new.lin.assign(gl, fadd({gl: 1}, self.seglen(suf)))
                    new.lin.assign(gi, fadd({gi: 1}, form(1)))
                    new.seg[k] = a
                else:
                    for x in (old, new):
                        x.lin.assign(gl, form(0))
                        x.lin.assign(gi, form(0))
                    new.lin.assign(gl, self.seglen(suf))
                    new.lin.assign(gi, form(1))
                    old.seg[k] = new.seg[k] = a + (L,)
                if back:
                    rec = self.bodies.setdefault((fr, head, k), [])
                    if not any(s == suf and x.same(new) for s, x in rec):
                        rec.append((suf, new.copy()))
            elif a[-1:] == (L,) and b[:n - 1] == a[:-1]:
                suf = b[n - 1:]
                new.lin.assign(gl, self.seglen(suf))
                new.lin.assign(gi, form(int(bool(suf))))
                new.seg[k] = a
                if back and suf:
                    rec = self.bodies.setdefault((fr, head, k), [])
                    if not any(s == suf and x.same(new) for s, x in rec):
                        rec.append((suf, new.copy()))
        return old.join(new)

    def fails(self, fn, s):
        rv = s.rv
        return rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] == RES and rv[1][2] == 1

    def call(self, fn, fr, st, c):
        r = self.hook(fn, fr, st, c)
        if r is not None:
            return r
        cal = c.callee
        d = self.key(fn, fr, st, c.dest)
        if cal is None:
            self.havoc(fn, fr, st, c, d)
            return [st]
        if cal.name == "from_residual":
            return []
        ts = self.prog.targets(c)
        if len(ts) == 1 and self.inline(ts[0]) and len(fr) < self.depth and ts[0].id not in [x[0] for x in fr]:
            return self.enter(fn, fr, st, c, ts[0], d)
        first, idx, tags = False, None, {}
        if cal.name in ("into_iter", "by_ref") and d is not None and c.args and (k := self.refkey(fn, fr, st, c.args[0])) is not None:
            tags = {t: st.disc[k + (t,)] for t in ("#idx", "#first") if k + (t,) in st.disc}
        if cal.name == "next" and d is not None and c.args:
            k = self.refkey(fn, fr, st, c.args[0])
            first = k is not None and st.disc.pop(k + ("#first",), None) is not None
            idx = st.disc.get(k + ("#idx",)) if k is not None else None
        if not self.model(fn, fr, st, c, cal, d):
            self.havoc(fn, fr, st, c, d)
        if first:
            st.disc[d] = 1
        for t, v in tags.items():
            st.disc[d + (t,)] = v
        if cal.name == "enumerate" and d is not None:
            st.disc[d + ("#idx",)] = self.ghost(st, ("idx", fr, c.bb), form(0))
        if cal.name == "next" and d is not None and idx is not None:
            st.lin.assign(("v", d + ("v1", 0, 0)), {("v", idx): 1})
            st.lin.assign(("v", idx), {("v", idx): 1, ONE: 1})
            st.disc[k + ("#idx",)] = idx
            return [st]
        if cal.name in ("into_iter", "iter") and d is not None and c.args and c.args[0].ty is not None and self.arrlen(self.peel(fn, fn.ty(c.args[0].ty))):
            st.disc[d + ("#first",)] = 1               # iterates at least once
        if cal.name == "next" and d is not None and c.args and any(x in fn.tys(c.args[0].ty) for x in ("Enumerate<", "Zip<", "Range")):
            for i, (kd, p) in enumerate(self.leaves(fn, fn.ty(c.dest.ty))):
                if kd == "v" and st.val({("v", d + p): 1}) is None:
                    self.ghost(st, ("hv", fr, c.bb, i), {("v", d + p): 1})
        return [st]

    def enter(self, fn, fr, st, c, g, d):
        nfr = fr + ((g.id, c.bb),)
        n = st.copy()
        for i, o in enumerate(c.args[:g.argc]):
            if o.ty is None:
                continue
            t = fn.ty(o.ty)
            if o.kind == "p":
                s = self.key(fn, fr, n, o.place)
                if s is not None:
                    self.copy(fn, n, (nfr, i + 1), s, t)
            else:
                self.const(fn, fr, n, (nfr, i + 1), t, o)
        outs = []
        rt = fn.ty(c.dest.ty)
        for x in self.run(g, nfr, n):
            if d is not None:
                self.copy(fn, x, d, (nfr, 0), rt)
            x.kill_frame(nfr)
            # references into the finished frame are gone
            for k in [k for k, v in x.pts.items() if v and v[0] == nfr]:
                del x.pts[k]
            outs.append(x)
        return outs

    def havoc(self, fn, fr, st, c, d):
        for o in c.args:
            if o.kind == "p" and o.ty is not None:
                t = fn.ty(o.ty)
                k = self.opkey(fn, fr, st, o)
                if k is None:
                    continue
                if t.get("k") == "ref" and t.get("m"):
                    self.touch(st, self.follow(st, k))
                elif t.get("k") in ("closure", "adt"):
                    for q in [q for q in st.pts if q[:len(k)] == k and q != k]:
                        # captured references: only mutable ones could be written through; be safe
                        self.touch(st, self.follow(st, q))
        if d is not None:
            st.kill(d)
            t = fn.ty(c.dest.ty)
            for i, (kd, p) in enumerate(self.leaves(fn, t)):
                if kd == "v" or kd == "len" and p == () and c.callee is not None and not self.prog.targets(c):
                    self.ghost(st, ("os" if self.othersize(fn, c) else "hv", fr, c.bb, i), {(kd, d + p): 1})

    def othersize(self, fn, c):
        """does the call count something else than bytes?"""
        t = fn.ty(c.args[0].ty) if c.args and c.args[0].ty is not None else {}
        return (c.callee.name or "") in ("count", "capacity") and ("core::str::" in (t.get("n") or "") or c.callee.name == "capacity")

    def touch(self, st, k):
        s = self.sink(st, k)
        for x in {k, s}:
            n = len(x)
            for v in [v for v in st.lin.vars() if len(v) > 1 and isinstance(v[1], tuple) and v[1][:n] == x]:
                st.lin.forget(v)
            for m in (st.disc, st.seg):
                for q in [q for q in m if q[:n] == x]:
                    del m[q]

    # ---- library model
    def payload(self, fn, c, d):
        """place of the success value of a call's result"""
        t = fn.ty(c.dest.ty)
        if t.get("k") == "adt" and t["n"] in (OPT, RES):
            return d + (f"v{OKV[t['n']]}", 0), fn.ty(t["a"][0])
        return d, t

    def advance(self, st, k, n):
        """read n bytes at the position of buffer k"""
        pos = ("pos", k)
        if n is None:
            st.lin.forget(pos)
        else:
            st.lin.assign(pos, fadd({pos: 1}, n))

    def at_end(self, st, k):
        return st.zero({("pos", k): 1, ("len", k): P - 1})

    def range(self, fn, fr, st, o, total):
        """(start, end) forms of a range operand"""
        t = self.peel(fn, fn.ty(o.ty))
        n = t.get("n", "")
        k = self.refkey(fn, fr, st, o)
        if n.endswith("RangeFull"):
            return form(0), total
        if k is None:
            return None
        g = lambda i: {("v", k + (i,)): 1}
        if n.endswith("::RangeFrom"):
            return g(0), total
        if n.endswith("::RangeTo"):
            return form(0), g(0)
        if n.endswith("::Range"):
            return g(0), g(1)
        if n.endswith("::RangeInclusive"):
            return g(0), fadd(g(1), form(1))
        if n.endswith("::RangeToInclusive"):
            return form(0), fadd(g(0), form(1))
        return None

    def model(self, fn, fr, st, c, cal, d):
        """True if the call is understood"""
        nm = cal.name
        A = c.args
        dt = fn.ty(c.dest.ty)
        lin = st.lin

        def ret(kind, f, sub=(), seg=None, org=None):
            if d is None:
                return True
            p, _ = self.payload(fn, c, d)
            f = lin.nf(f) if f is not None else None
            st.kill(d)
            if seg is not None:
                st.seg[p + sub] = seg
            if org is not None:
                st.disc[p + sub + ("#org",)] = org
            if f is not None and not any(len(v) > 1 and isinstance(v[1], tuple) and v[1][:len(d)] == d for v in f):
                self.set(st, kind, p + sub, f)
            return True

        at = self.peel(fn, fn.ty(A[0].ty)) if A and A[0].ty is not None else {}
        an = at.get("n", "")
        isbuf = an in BUFS or at.get("k") in ("slice", "str", "array") or an == COW
        # results and options
        if nm == "branch" and cal.trait and "Try" in cal.trait or nm in ("map_err", "ok", "ok_or", "ok_or_else", "unwrap", "expect", "unwrap_or_default", "filter", "err"):
            if an in (OPT, RES) and d is not None and A[0].kind == "p":
                s = self.opkey(fn, fr, st, A[0])
                if s is not None and nm == "unwrap_or_default" and st.disc.get(s) == 1 - OKV[an]:
                    st.kill(d)
                    for kd, p in self.leaves(fn, dt):
                        self.set(st, kd, d + p, form(0))
                        if kd == "len":
                            st.seg[d + p] = ()
                    return True
                if s is None or nm == "err" or nm == "unwrap_or_default" and st.disc.get(s) != OKV[an]:
                    st.kill(d)
                    return True
                src = s + (f"v{OKV[an]}", 0)
                at_ = fn.ty(A[0].ty)
                inner = fn.ty(at_["a"][0])
                dk = dt.get("n")
                dst = d + (f"v{OKV[dk]}", 0) if dk in (OPT, RES, CF) and nm not in ("unwrap", "expect", "unwrap_or_default") else d
                if st.disc.get(s) == 1 - OKV[an] and nm in ("branch", "map_err", "unwrap", "expect"):
                    pass
                hv = st.disc.get(s)
                st.kill(d)
                self.copy(fn, st, dst, src, inner)
                if hv is not None and dk in (OPT, RES, CF) and nm not in ("unwrap", "expect", "filter", "unwrap_or_default"):
                    st.disc[d] = OKV[dk] if hv == OKV[an] else 1 - OKV[dk]
                return True
        if isint_call(self, fn, c, nm, dt):
            f = self.form(fn, fr, st, A[0])
            ret("v", f)
            if d is not None and nm in ("try_from", "try_into") and dt.get("n") == RES:
                st.disc[d] = 0             # the value fits
            return True
        if nm in ("abs", "unsigned_abs") and len(A) == 1:
            f = self.form(fn, fr, st, A[0])
            neg = f is not None and len(f) == 1 and any(st.disc.get(("sign",) + v[1]) == -1 or self.same_sign(st, v) for v in f if v != ONE)
            x = st.val(f) if f is not None else None
            return ret("v", form(abs(x)) if x is not None else fscale(f, -1) if neg else None)
        if nm in ("is_some", "is_none", "is_ok", "is_err") and an in (OPT, RES) and d is not None:
            k = self.refkey(fn, fr, st, A[0])
            v = int(nm in ("is_some", "is_err"))
            have = st.disc.get(k)
            st.kill(d)
            if have is not None:
                self.set(st, "v", d, form(int(have == v)))
            elif k is not None:
                st.disc[d + ("#isv",)] = (k, v)
            return True
        if nm in ("is_positive", "is_negative"):
            if d is not None:
                st.kill(d)
            return True
        if nm in ("wrapping_add", "saturating_add", "checked_add", "wrapping_sub", "checked_sub", "saturating_sub") and len(A) == 2 and self.isint(at):
            a, b = self.form(fn, fr, st, A[0]), self.form(fn, fr, st, A[1])
            return ret("v", fadd(a, b, 1 if "add" in nm else -1) if a is not None and b is not None else None)
        if nm == "rem_euclid" and len(A) == 2 and A[1].kind == "k" and A[1].int == 2 and d is not None and self.isint(at):
            f = self.form(fn, fr, st, A[0])
            st.kill(d)
            if f is not None:
                self.parity(st, d, "#par", f, (fr, c.bb))
            return True
        if nm == "next_multiple_of" and len(A) == 2 and A[1].kind == "k" and A[1].int == 2 and d is not None:
            f = self.form(fn, fr, st, A[0])
            st.kill(d)
            if f is not None:
                self.parity(st, d, "#round", fadd(f, form(1)), (fr, c.bb))
            return True
        if nm in ("div_ceil", "min", "max", "pow", "rem_euclid", "leading_zeros", "checked_mul", "wrapping_mul", "saturating_mul", "clamp") and self.isint(at):
            if d is not None:
                st.kill(d)
                self.ghost(st, ("hv", fr, c.bb, 0), {("v", d): 1})
            return True
        # buffers
        if nm == "len" and len(A) == 1:
            if an == "core::ops::range::Range":
                k = self.refkey(fn, fr, st, A[0])
                return ret("v", {("v", k + (1,)): 1, ("v", k + (0,)): P - 1} if k is not None else None)
            if isbuf:
                return ret("v", self.lenform(fn, fr, st, A[0]))
        if nm == "is_multiple_of" and len(A) == 2 and A[1].kind == "k" and A[1].int == 2 and d is not None:
            f = self.form(fn, fr, st, A[0])
            st.kill(d)
            if f is not None:
                self.parity(st, d, "#even", f, (fr, c.bb))
            return True
        if nm == "is_empty" and isbuf:
            if d is not None:
                f = self.lenform(fn, fr, st, A[0])
                x = st.val(f) if f is not None else None
                st.kill(d)
                if x is not None:
                    self.set(st, "v", d, form(int(x == 0)))
                elif f is not None:
                    st.disc[d + ("#zero",)] = self.ghost(st, ("emp", fr, c.bb), f)
            return True
        if nm == "new" and len(A) == 1 and A[0].kind == "p" and d is not None and dt.get("n") in WRAP:
            s = self.opkey(fn, fr, st, A[0])
            if s is not None:
                self.copy(fn, st, d, s, fn.ty(A[0].ty))
                return True
        if nm == "box_assume_init_into_vec_unsafe" and len(A) == 1 and A[0].kind == "p" and d is not None:      # vec![..]
            s = self.opkey(fn, fr, st, A[0])
            n = None
            for a in walk_arrays(fn, fn.ty(A[0].ty)):
                n = self.arrlen(a)
            segs = [v for q, v in st.seg.items() if s is not None and q[:len(s)] == s]
            return ret("len", form(n) if n is not None else None, (), segs[0] if len(segs) == 1 else None)
        if nm in ("into_inner", "unwrap_or_clone") and len(A) == 1 and A[0].kind == "p" and d is not None and an in WRAP:
            s = self.refkey(fn, fr, st, A[0])
            if s is not None and dt.get("n") not in (RES, OPT):
                self.copy(fn, st, d, s, dt)
                return True
        if nm in ("new", "with_capacity", "try_with_capacity_stable", "try_with_capacity", "default") and d is not None:
            p, t = self.payload(fn, c, d)
            if t.get("n") in ("alloc::vec::Vec", "alloc::string::String"):
                st.kill(d)
                self.set(st, "len", p, form(0))
                st.seg[p] = ()
                return True
            if t.get("n") == CURSOR and len(A) == 1:
                f = self.lenform(fn, fr, st, A[0])
                k = self.refkey(fn, fr, st, A[0]) if A[0].ty is not None and fn.ty(A[0].ty).get("k") == "ref" else None
                f = lin.nf(f) if f is not None else None
                q = self.refkey(fn, fr, st, A[0])
                ps = st.seg.get(self.sink(st, q), st.seg.get(q)) if q is not None else None
                if ps is None and A[0].kind == "k" and self.constbytes(A[0].val, fn) is not None:
                    ps = (("c", self.constbytes(A[0].val, fn)),)
                st.kill(d)
                if ps is not None:
                    st.seg[d] = ps
                if k is not None and fn.ty(A[0].ty).get("m"):
                    # a cursor over a borrowed buffer has its own position but shares the buffer's length
                    self.set(st, "len", d, f)
                elif f is not None:
                    self.set(st, "len", d, f)
                self.set(st, "pos", d, form(0))
                return True
        if nm in SAMEREF and len(A) == 1 and d is not None and A[0].kind == "p" and dt.get("k") in ("ref", "adt"):
            if dt.get("k") == "ref" or dt.get("n", "").startswith("core::cell::Ref"):
                k = self.refkey(fn, fr, st, A[0])
                st.kill(d)
                if k is not None:
                    st.pts[d] = k
                return True
            if dt.get("n") == OPT and an == OPT:
                k = self.refkey(fn, fr, st, A[0])
                st.kill(d)
                if k is not None:
                    st.pts[d + ("v1", 0)] = k + ("v1", 0)
                    if k in st.disc:
                        st.disc[d] = st.disc[k]
                return True
        if nm in OWNED and len(A) == 1 and d is not None:
            if isbuf or A[0].kind == "k":
                f = self.lenform(fn, fr, st, A[0])
                if nm == "from_utf8_lossy":
                    return ret("len", None)
                ps = org = None
                if A[0].kind == "k":
                    b = self.constbytes(A[0].val, fn)
                    ps = (("c", b),) if b is not None else None
                else:
                    q = self.refkey(fn, fr, st, A[0])
                    if q is not None:
                        ps = st.seg.get(self.sink(st, q), st.seg.get(q))
                        org = self.origin(st, q) if ps is None else None
                if ps is None and an == CURSOR and nm in ("clone",):
                    pass
                return ret("len", f, (), ps, org)
            if A[0].kind == "p" and nm in ("into", "from", "clone", "into_iter", "iter", "get", "into_inner") and self.leaves(fn, dt) and dt.get("s") == at.get("s"):
                s = self.refkey(fn, fr, st, A[0])
                if s is not None:
                    self.copy(fn, st, d, s, dt)
                    return True
            if "NonZero" in an:
                s = self.refkey(fn, fr, st, A[0])
                return ret("v", {("v", s): 1} if s is not None else None)
        if nm in ("to_be_bytes", "to_le_bytes") and d is not None:
            f = self.form(fn, fr, st, A[0])
            w = BITS.get(at.get("s", ""))
            q = self.opkey(fn, fr, st, A[0])
            o = "" if w == 1 else nm[3:5]
            if q is not None and q + ("#synch",) in st.disc:
                o = "s" + o
            ps = (self.intpiece(st, w, o, f, ("n", fr, c.bb)),) if w else None
            return ret("len", form(w) if w else None, (), ps)
        if nm in ("to_ne_bytes", "from_be_bytes", "from_le_bytes"):
            return ret("v", None)
        if nm in ("synch", "unsynch") and len(A) == 1 and d is not None:
            f = self.form(fn, fr, st, A[0])
            r = ret("v", f)
            if nm == "synch":
                st.disc[self.payload(fn, c, d)[0] + ("#synch",)] = 1
            return r
        if nm in ("copy_from_slice", "clone_from_slice") and len(A) == 2 and A[0].kind == "p":
            q = self.refkey(fn, fr, st, A[0])
            ps, n = self.content(fn, fr, st, A[1], c.bb)
            sub = st.disc.get(q + ("#sub",)) if q is not None else None
            if sub:
                k, lo = sub
                self.replace(st, k, {("v", lo): 1}, fadd({("v", lo): 1}, n), ps, (fr, c.bb))
            elif q is not None:
                st.seg[self.sink(st, q)] = ps
            return ret("v", None)
        if nm in ("index", "index_mut", "get", "split_at") and isbuf and len(A) == 2 and d is not None:
            tot = self.lenform(fn, fr, st, A[0])
            if A[1].ty is not None and "Range" in self.peel(fn, fn.ty(A[1].ty)).get("n", "") and tot is not None:
                r = self.range(fn, fr, st, A[1], tot)
                k = self.refkey(fn, fr, st, A[0])
                k = self.sink(st, k) if k is not None else None
                ps = None
                if r and k in st.seg:
                    x = self.cut(st, st.seg[k], r[1])
                    x = self.cut(st, x[0], r[0]) if x else None
                    ps = x[1] if x else None
                if r and k is not None and nm == "index_mut" and st.zero(r[0]) and st.zero(fadd(r[1], tot, -1)):
                    st.kill(d)
                    st.pts[d] = k          # all of it
                    return True
                lo = self.ghost(st, ("sub", fr, c.bb), r[0]) if r else None
                ret("len", fadd(r[1], r[0], -1) if r else None, (), ps if nm != "index_mut" else None)
                if k is not None and lo is not None and nm == "index_mut":
                    st.disc[d + ("#sub",)] = (k, lo)
                return True
            return ret("v", None)
        if an in ("alloc::vec::Vec", "alloc::string::String") and A[0].kind == "p":
            k = self.refkey(fn, fr, st, A[0])
            k = self.sink(st, k) if k is not None else None
            ln = ("len", k)
            delta, ps, rng = "no", None, None
            site = (fr, c.bb)
            isu8 = "String" in an or at.get("a") and fn.ty(at["a"][0]).get("s") == "u8"
            if nm == "push" and "String" not in an:
                delta = form(1)
                if isu8:
                    ps = (self.intpiece(st, 1, "", self.form(fn, fr, st, A[1]), ("n", fr, c.bb)),)
            elif nm == "insert" and "String" not in an:
                delta = form(1)
                f = self.form(fn, fr, st, A[1])
                rng = (f, f) if f is not None else None
                ps = (self.intpiece(st, 1, "", self.form(fn, fr, st, A[2]), ("n", fr, c.bb)),)
            elif nm in ("remove", "swap_remove") and "String" not in an:
                delta = form(-1)
                ps = ()
            elif nm in ("extend_from_slice", "push_str", "extend", "append") and len(A) == 2:
                if not isu8:
                    delta = None
                else:
                    ps, delta = self.content(fn, fr, st, A[1], c.bb)
            elif nm in ("drain", "splice") and len(A) >= 2:
                rng = self.range(fn, fr, st, A[1], {ln: 1})
                ps = ()
                if rng:
                    rng = tuple(lin.nf(x) for x in rng)
                    delta = fadd(rng[0], rng[1], -1)
                    if nm == "splice":
                        ps, n = self.content(fn, fr, st, A[2], c.bb)
                        delta = fadd(delta, n)
                else:
                    delta = None
            elif nm in ("clear",):
                if k is not None:
                    lin.assign(ln, form(0))
                    st.seg[k] = ()
                if d is not None:
                    st.kill(d)
                return True
            elif nm in ("truncate", "resize", "try_resize") and len(A) >= 2:
                if k is not None:
                    f = self.form(fn, fr, st, A[1])
                    self.set(st, "len", k, lin.nf(f) if f is not None and nm != "truncate" else None)
                    st.seg.pop(k, None)
                if d is not None:
                    st.kill(d)
                return True
            elif nm in ("reserve", "try_reserve", "shrink_to_fit", "capacity", "reserve_exact"):
                if d is not None:
                    st.kill(d)
                return True
            if delta != "no":
                if k is not None:
                    if delta is None or ps is None:
                        st.seg.pop(k, None)
                    elif rng is not None:
                        self.replace(st, k, rng[0], rng[1], ps, site)
                    elif nm in ("push", "extend_from_slice", "push_str", "extend", "append"):
                        self.append(st, k, ps)
                    else:
                        st.seg.pop(k, None)
                    self.set(st, "len", k, fadd({ln: 1}, delta) if delta is not None else None)
                    if delta is not None and ps is not None:
                        self.wrote(fn, fr, st, c, k, ps, delta)
                if d is not None:
                    st.kill(d)
                return True
        # positions
        if A and A[0].kind == "p" and nm in IO or (nm.startswith(("write_", "read_")) and cal.trait and "byteorder" in cal.trait):
            k = self.refkey(fn, fr, st, A[0])
            if k is None:
                return False
            k = self.sink(st, k)
            pos = {("pos", k): 1}
            if nm in ("stream_position", "position", "tell"):
                return ret("v", pos)
            if nm == "rewind":
                lin.assign(("pos", k), form(0))
                return ret("v", None)
            if nm == "set_position":
                f = self.form(fn, fr, st, A[1])
                self.set(st, "pos", k, lin.nf(f) if f is not None else None)
                return ret("v", None)
            if nm == "seek" and len(A) == 2:
                f = self.seekform(fn, fr, st, A[1], k)
                self.set(st, "pos", k, lin.nf(f) if f is not None else None)
                return ret("v", {("pos", k): 1})
            if nm == "seek_relative" and len(A) == 2:
                f = self.form(fn, fr, st, A[1])
                self.set(st, "pos", k, fadd(pos, f) if f is not None else None)
                return ret("v", None)
            if nm in ("flush", "sync_all"):
                return ret("v", None)
            if nm in ("write_all", "write"):
                ps, n = self.content(fn, fr, st, A[1], c.bb)
                self.emit(fn, fr, st, c, k, an, ps, n)
                return ret("v", n if nm == "write" else None)
            if nm == "read_exact":
                n = self.lenform(fn, fr, st, A[1])
                ps = None
                if n is not None and k in st.seg:
                    x = self.cut(st, st.seg[k], fadd(pos, n))
                    x = self.cut(st, x[0], lin.nf(pos)) if x else None
                    ps = x[1] if x else None
                self.advance(st, k, n)
                b = self.refkey(fn, fr, st, A[1])
                if b is not None:
                    for q in (b, self.sink(st, b)):
                        st.seg.pop(q, None)
                    if ps is not None:
                        st.seg[self.sink(st, b)] = ps
                return ret("v", None)
            if nm in ("read_to_end", "read_to_string"):
                if len(A) > 1:
                    b = self.refkey(fn, fr, st, A[1])
                    if b is not None:
                        b = self.sink(st, b)
                        st.lin.forget(("len", b))
                        st.seg.pop(b, None)
                        # read from the start: as long as the source
                        if st.val(pos) == 0:
                            st.lin.assign(("len", b), {("len", k): 1})
                    lin.assign(("pos", k), {("len", k): 1})
                    return ret("v", None)
                lin.forget(("pos", k))
                return ret("v", None)
            if nm == "read":
                lin.forget(("pos", k))
                return ret("v", None)
            if nm == "truncate":
                f = self.form(fn, fr, st, A[1])
                self.set(st, "len", k, lin.nf(f) if f is not None else None)
                st.seg.pop(k, None)
                if f is not None and st.val(f) == 0:
                    st.seg[k] = ()
                return ret("v", None)
            w, _, ty = nm.partition("_")
            n = BITS.get(ty)
            if n is None:
                st.lin.forget(("pos", k))
                if w == "write":
                    st.lin.forget(("len", k))
                    st.seg.pop(k, None)
                return ret("v", None)
            if w == "write":
                f = self.form(fn, fr, st, A[1])
                o = "" if n == 1 else self.order(fn, cal)
                q = self.opkey(fn, fr, st, A[1])
                if q is not None and q + ("#synch",) in st.disc:
                    o = "s" + o
                ip = self.intpiece(st, n, o, f, ("n", fr, c.bb))
                if ip[0] == "n":
                    st.disc.pop(ip[3] + ("#tag",), None)
                    if q is not None and q + ("#tag",) in st.disc:
                        st.disc[ip[3] + ("#tag",)] = st.disc[q + ("#tag",)]
                self.emit(fn, fr, st, c, k, an, (ip,), form(n))
            else:
                self.advance(st, k, form(n))
            return ret("v", None)
        if nm in ("drop", "log", "fmt", "enabled", "max_level", "from_elem", "fallible_vec_from_element") or (cal.path or "").startswith(("log::", "core::fmt", "core::panicking")):
            if nm in ("from_elem", "fallible_vec_from_element") and len(A) == 2:
                return ret("len", self.form(fn, fr, st, A[1]), (), None, "fill")
            if d is not None:
                st.kill(d)
            return True
        return False

    def vague(self, st, f):
        """may the value come from something that is not modelled?"""
        f = {v for v in st.lin.nf(f) if v != ONE}
        if not f:
            return False
        known = [v for v in st.lin.vars() | f if len(v) > 1 and v[1][:2] in (("g", "hv"), ("g", "os"))]
        return all(v[1][1] == "hv" for v in known if f & set(st.lin.nf({v: 1}))) and any(f & set(st.lin.nf({v: 1})) for v in known)

    def same_sign(self, st, v):
        return any(k[0] == "sign" and st.zero({v: 1, ("v", k[1:]): P - 1}) for k in st.disc if k[0] == "sign")

    def seqlen(self, fn, fr, st, o):
        k = self.refkey(fn, fr, st, o)
        return {("len", self.sink(st, k)): 1} if k is not None else None

    def seekform(self, fn, fr, st, o, k):
        if o.kind == "k":
            v = o.val
            if "v" in v and v.get("fs") and isinstance(v["fs"][0], dict) and "i" in v["fs"][0]:
                n = form(int(v["fs"][0]["i"]))
                return [n, fadd({("len", k): 1}, n), fadd({("pos", k): 1}, n)][v["v"]]
            return None
        q = self.refkey(fn, fr, st, o)
        vi = st.disc.get(q) if q is not None else None
        if vi is None:
            return None
        n = {("v", q + (f"v{vi}", 0)): 1}
        return [n, fadd({("len", k): 1}, n), fadd({("pos", k): 1}, n)][vi]

    def emit(self, fn, fr, st, c, k, an, pieces, n):
        """pieces (n bytes) are written to the buffer or writer k"""
        pos, ln = ("pos", k), ("len", k)
        site = (fr, c.bb)
        if an in ("alloc::vec::Vec", "alloc::string::String") or self.stream(fn, fr, st, k):
            st.lin.assign(ln, fadd({ln: 1}, n))
            self.append(st, k, pieces)
        elif self.at_end(st, k):
            st.lin.assign(ln, fadd({ln: 1}, n))
            st.lin.assign(pos, fadd({pos: 1}, n))
            self.append(st, k, pieces)
        else:
            at = st.lin.nf({pos: 1})
            self.replace(st, k, at, fadd(at, n), pieces, site)
            st.lin.assign(pos, fadd({pos: 1}, n))
            if st.val(n) is None and k not in st.seg and not st.zero(fadd({ln: 1}, fadd(at, n), -1)):
                # fields are within what is there; otherwise the end is where it was or where the writing ends, whichever is further
                a, b = self.ghost(st, ("old", site), {ln: 1}), self.ghost(st, ("end", site), fadd(at, n))
                st.lin.forget(ln)
                st.disc[("max", k)] = (a, b)
        self.wrote(fn, fr, st, c, k, pieces, n)

    def order(self, fn, cal):
        s = " ".join(fn.tys(g) for g in cal.ga if isinstance(g, int))
        return "le" if "LittleEndian" in s else "be" if "BigEndian" in s else "?"

    def stream(self, fn, fr, st, k):
        """does the writer only ever append?"""
        return k in self.streams

    def wrote(self, fn, fr, st, c, k, pieces, n):
        """hook: buffer k has just been written to"""


WRAP = {"core::cell::RefCell", "core::cell::Cell", "alloc::boxed::Box", "core::cell::UnsafeCell"}
IO = {"stream_position", "position", "tell", "rewind", "set_position", "seek", "seek_relative", "flush", "write_all", "write", "read_exact", "read_to_end",
      "read_to_string", "read", "truncate", "sync_all"}


def walk_arrays(fn, t, depth=0):
    if t.get("k") == "array":
        yield t
    elif depth < 6:
        for a in t.get("a") or []:
            if isinstance(a, int):
                yield from walk_arrays(fn, fn.ty(a), depth + 1)


def isint_call(m, fn, c, nm, dt):
    """an integer conversion"""
    if len(c.args) != 1 or c.args[0].ty is None or nm not in ("from", "into", "try_from", "try_into", "clone", "get", "to_owned", "new", "new_unchecked"):
        return False
    t = m.peel(fn, fn.ty(c.args[0].ty))
    src = m.isint(t) or "NonZero" in t.get("n", "")
    if dt.get("k") == "adt" and dt["n"] in (RES, OPT):
        dt = fn.ty(dt["a"][0])
    return src and (m.isint(dt) or "NonZero" in dt.get("n", ""))
