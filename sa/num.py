"""Abstract interpreter over MIR: symbolic linear values + path facts, with inlining of local callees.

It computes, for every program point, what is known about integers, lengths and enum variants on
every path that reaches it, and records *obligations* (operations that panic unless a condition
holds). Values are linear forms over immutable atoms; facts are linear inequalities (sa/lin.py).
Loops are cut at their headers with guessed-and-checked invariants; joins keep what both sides know."""
import json
from .lin import Atoms, Lin, Facts, K, A, ZERO, ONE
from .mir import Op, rv_ops

MEM = 1 << 47       # no in-memory buffer is larger (x86-64 user address space)
STREAM = 1 << 56    # assumed bound on stream lengths and positions


class Opq:
    __slots__ = ("path", "_h")

    def __init__(self, path):
        self.path = path
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(("opq", self.path))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Opq) and self.path == o.path

    def __repr__(self):
        return f"Opq{self.path}"


class Ref:
    __slots__ = ("key", "mut")

    def __init__(self, key, mut):
        self.key, self.mut = key, mut

    def __hash__(self):
        return hash(("ref", self.key))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.key == o.key

    def __repr__(self):
        return f"&{'mut ' if self.mut else ''}{self.key}"


class DV:
    """Discriminant / boolean whose value carries facts: value -> tuple of facts that then hold.
    `other` (tuple or None) covers every value not listed. Facts are Lin (>=0) or ('ne', Lin)."""
    __slots__ = ("m", "other", "_h")

    def __init__(self, m, other=None):
        self.m = m
        self.other = other
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((frozenset(self.m.items()), self.other))
        return self._h

    def __eq__(self, o):
        return isinstance(o, DV) and self.m == o.m and self.other == o.other

    def __repr__(self):
        return f"DV{self.m}{'|*' + repr(self.other) if self.other is not None else ''}"

    def facts(self, v):
        if v in self.m:
            return self.m[v]
        return self.other

    def flip(self):
        return DV({1 - k: f for k, f in self.m.items() if k in (0, 1)}, self.other)


class State:
    __slots__ = ("env", "F", "own")

    def __init__(self, atoms):
        self.env = {}
        self.F = Facts(atoms)
        self.own = set()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.F = self.F.copy()
        s.own = set()
        self.own = set()
        return s

    def _w(self, root):
        d = self.env.get(root)
        if d is None:
            d = {}
            self.env[root] = d
            self.own.add(root)
        elif root not in self.own:
            d = dict(d)
            self.env[root] = d
            self.own.add(root)
        return d

    def get(self, key):
        root, suf = key[0], key[1:]
        d = self.env.get(root)
        if d is not None:
            n = len(suf)
            while True:
                v = d.get(suf[:n])
                if v is not None:
                    if n == len(suf):
                        return v
                    if isinstance(v, Opq):
                        return Opq(v.path + suf[n:])
                    return Opq(("bad",) + key)
                if n == 0:
                    break
                n -= 1
        return Opq(("init",) + key)

    def has(self, key):
        d = self.env.get(key[0])
        return d is not None and key[1:] in d

    def kill(self, key):
        d = self._w(key[0])
        suf = key[1:]
        n = len(suf)
        for k in [k for k in d if k[:n] == suf]:
            del d[k]

    def set(self, key, val):
        self.kill(key)
        self.env[key[0]][key[1:]] = val

    def put(self, key, val):
        """set without dropping sub-entries"""
        self._w(key[0])[key[1:]] = val

    def subs(self, key):
        d = self.env.get(key[0])
        if d is None:
            return []
        suf = key[1:]
        n = len(suf)
        return [(k[n:], v) for k, v in d.items() if len(k) > n and k[:n] == suf]

    def copyval(self, dst, src):
        subs = self.subs(src)
        base = self.get(src)
        self.kill(dst)
        d = self.env[dst[0]]
        suf = dst[1:]
        d[suf] = base
        for k, v in subs:
            d[suf + k] = v

    def assume(self, facts):
        for f in facts:
            if isinstance(f, tuple):
                if not self.F.assume_ne(f[1]):
                    return False
            elif not self.F.add(f):
                return False
        return True


class Oblig:
    __slots__ = ("fn", "bb", "kind", "desc", "ok", "span", "ctx", "why", "extra")

    def __init__(self, fn, bb, kind, desc, ok, span, ctx, why="", extra=None):
        self.fn, self.bb, self.kind, self.desc = fn, bb, kind, desc
        self.ok, self.span, self.ctx, self.why, self.extra = ok, span, ctx, why, extra


class Budget(Exception):
    pass


class Interp:
    def __init__(self, prog, models, *, inline_depth=3, inline_blocks=90, assume=None, on_call=None,
                 force_inline=(), max_steps=60000, field_inv=None, want_casts=False):
        self.prog = prog
        self.models = models
        self.atoms = Atoms()
        self.obl = {}
        self.ctxs = {(): ()}
        self.inline_depth = inline_depth
        self.inline_blocks = inline_blocks
        self.steps = 0
        self.max_steps = max_steps
        self.on_call = on_call
        self.force_inline = set(force_inline)
        self.field_inv = field_inv or {}
        self.want_casts = want_casts
        self.inlined = set()
        self.ktype = {}
        self.stack = []
        self.visited = {}
        self.noblig = 0
        self.hook = None
        self.edge_hook = None

    # ---- types
    def tyj(self, fn, i):
        return fn.crate.tys[i]

    def int_bounds(self, t):
        k = t.get("k")
        if k == "uint":
            return 0, (1 << t["bits"]) - 1
        if k == "int":
            return -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
        if k == "bool":
            return 0, 1
        if k == "char":
            return 0, 0x10FFFF
        return None

    # ---- atoms
    def atom(self, name, lo=None, hi=None):
        return A(self.atoms.get(name, lo, hi))

    def fresh(self, name, lo, hi):
        """(re)define an atom at this site: the bounds are those of this evaluation"""
        i = self.atoms.get(name)
        self.atoms.setb(i, lo, hi)
        return A(i)

    # ---- reading
    def as_lin(self, st, v, t):
        """integer value of v of type json t"""
        if isinstance(v, Lin):
            return v
        b = self.int_bounds(t) if t else None
        if isinstance(v, Opq):
            lo, hi = b if b else (None, None)
            if v.path and v.path[-1] == "#len":
                lo, hi = 0, MEM
            elif self.field_inv and t and len(v.path) > 1 and isinstance(v.path[-1], tuple) and v.path[-1][0] == "f":
                pass
            return self.atom(v.path, lo, hi)
        if isinstance(v, DV):
            vals = list(v.m)
            if v.other is None and len(vals) == 1:
                return K(vals[0])
            return None
        return None

    def rd_int(self, st, key, t):
        v = st.get(key)
        r = self.as_lin(st, v, t)
        b = self.int_bounds(t)
        if b:
            self.ktype[key] = b
        if r is None:
            if isinstance(v, DV):  # boolean with facts, used as a number
                a = self.atom(("dv", key, v), 0, 1)
                return a
            a = self.atom(("unk", key, repr(v)[:60]), *(b or (None, None)))
            return a
        return r

    def len_of(self, st, key, t=None):
        """length of the slice/Vec/str/array object at key"""
        if t is not None and t.get("k") == "array" and t.get("len") is not None:
            return K(int(t["len"]))
        v = st.get(key + ("#len",))
        if isinstance(v, Lin):
            return v
        if isinstance(v, Opq):
            return self.atom(v.path, 0, MEM)
        return self.atom(("len?", key), 0, MEM)

    def set_len(self, st, key, lin):
        st.put(key + ("#len",), lin)

    # ---- places
    def resolve(self, st, fr, place):
        key = (("L", fr.ctx, place.local),)
        t = fr.fn.local_ty(place.local)
        for e in place.proj:
            k = e[0]
            if k == "d":
                key = self.deref(st, key)
            elif k == "f":
                key = key + (("f", e[1]),)
            elif k == "v":
                key = key + (("v", e[1]),)
            elif k == "i":
                iv = self.rd_int(st, (("L", fr.ctx, e[1]),), {"k": "uint", "bits": 64})
                key = key + (("i", iv),)
            elif k == "c":
                if not e[3]:
                    key = key + (("i", K(e[1])),)
                else:
                    ln = self.len_of(st, key)
                    key = key + (("i", ln - e[1]),)
            elif k == "s":
                nk = (("S", "sub", key, e[1], e[2], e[3]),)
                ln = self.len_of(st, key)
                n = (ln - e[1] - e[2]) if e[3] else K(e[2] - e[1])
                self.set_len(st, nk, n)
                key = nk
            else:
                key = key + (("o",),)
        return key

    def deref(self, st, key):
        v = st.get(key)
        if isinstance(v, Ref):
            return v.key
        if isinstance(v, Opq):
            return (("P", v.path),)
        return (("P", ("k",) + key),)

    def norm_arr_len(self, st, key, t):
        if t and t.get("k") == "array" and t.get("len") is not None:
            if not st.has(key + ("#len",)):
                st.put(key + ("#len",), K(int(t["len"])))

    # ---- operands
    def op_lin(self, st, fr, o):
        if o.kind == "k":
            n = o.int
            if n is not None:
                return K(n)
            t = fr.fn.ty(o.ty)
            b = self.int_bounds(t) or (None, None)
            return self.atom(("const", json.dumps(o.val)[:80], o.item), *b)
        if o.kind == "p":
            key = self.resolve(st, fr, o.place)
            return self.rd_int(st, key, fr.fn.ty(o.ty))
        return self.atom(("rt",), 0, 1)

    def op_val(self, st, fr, o):
        """scalar value (Lin, DV, Ref, Opq) of an operand"""
        if o.kind == "k":
            return self.const_val(st, fr, o)
        if o.kind == "p":
            key = self.resolve(st, fr, o.place)
            v = st.get(key)
            t = fr.fn.ty(o.ty)
            if isinstance(v, Opq) and t.get("k") in ("int", "uint", "bool", "char"):
                return self.rd_int(st, key, t)
            return v
        return K(0)

    def const_val(self, st, fr, o):
        n = o.int
        if n is not None:
            return K(n)
        t = fr.fn.ty(o.ty)
        if t.get("k") == "ref":
            root = (("S", "const", json.dumps(o.val)[:400], o.ty, fr.fn.crate.name),)
            if root[0] not in st.env:
                v = o.val
                it = fr.fn.ty(t["a"][0])
                st.put(root, Opq(("constobj",) + root))
                if "s" in v:
                    self.set_len(st, root, K(len(v["s"].encode("utf-8", "replace"))))
                elif "by" in v:
                    self.set_len(st, root, K(len(v["by"])))
                    for i, b in enumerate(v["by"][:64]):
                        st.put(root + (("i", K(i)),), K(b))
                elif "ref" in v:
                    self.const_into(st, root, v["ref"], it)
            return Ref(root, False)
        return Opq(("const", json.dumps(o.val)[:120], o.item))

    def const_into(self, st, key, v, t=None):
        if "i" in v:
            st.put(key, K(int(v["i"])))
        elif "s" in v or "by" in v:
            root = (("S", "const", json.dumps(v)[:400]),)
            st.put(root, Opq(("constobj",) + root))
            self.set_len(st, root, K(len(v["s"].encode()) if "s" in v else len(v["by"])))
            st.put(key, Ref(root, False))
        elif "arr" in v:
            st.put(key, Opq(("constarr",) + key))
            self.set_len(st, key, K(len(v["arr"])))
            for i, x in enumerate(v["arr"][:64]):
                self.const_into(st, key + (("i", K(i)),), x)
        elif "adt" in v:
            st.put(key, Opq(("constadt",) + key))
            self.put_variant(st, key, v["adt"], v["v"])
            pre = key + (("v", v["v"]),) if self.is_enum(v["adt"]) else key
            for i, x in enumerate(v["fs"]):
                self.const_into(st, pre + (("f", i),), x)
        elif "tup" in v:
            st.put(key, Opq(("consttup",) + key))
            for i, x in enumerate(v["tup"]):
                self.const_into(st, key + (("f", i),), x)
        elif "ref" in v:
            root = (("S", "constr", json.dumps(v)[:400]),)
            self.const_into(st, root, v["ref"])
            st.put(key, Ref(root, False))
        else:
            st.put(key, Opq(("const", json.dumps(v)[:200])))

    _STD_ENUMS = ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow",
                  "core::cmp::Ordering", "alloc::borrow::Cow", "core::io::seek::SeekFrom", "std::io::SeekFrom",
                  "core::ops::range::Bound")

    def is_enum(self, adt):
        if adt in self._STD_ENUMS:
            return True
        a = self.prog.adts.get(adt)
        return bool(a and a["enum"])

    def discr_of(self, adt, vidx):
        if adt == "core::cmp::Ordering":
            return (255, 0, 1)[vidx]
        a = self.prog.adts.get(adt)
        if a and a["enum"]:
            s = a["vs"][vidx]["d"]
            try:
                return int(s.split(" ")[0])
            except ValueError:
                return vidx
        return vidx

    def put_variant(self, st, key, adt, vidx):
        if self.is_enum(adt):
            st.put(key + ("#d",), DV({self.discr_of(adt, vidx): ()}))

    def op_into(self, st, fr, dst, o):
        if o.kind == "k":
            t = fr.fn.ty(o.ty)
            if o.int is not None:
                st.set(dst, K(o.int))
            elif t.get("k") == "ref":
                v = self.const_val(st, fr, o)
                st.set(dst, v)
            else:
                st.kill(dst)
                self.const_into(st, dst, o.val)
            if t.get("k") in ("int", "uint"):
                self.ktype[dst] = self.int_bounds(t)
        elif o.kind == "p":
            src = self.resolve(st, fr, o.place)
            t = fr.fn.ty(o.ty)
            if t.get("k") in ("int", "uint", "bool", "char"):
                v = st.get(src)
                if isinstance(v, Opq):
                    v = self.rd_int(st, src, t)
                if isinstance(v, Lin):
                    self.ktype[dst] = self.int_bounds(t)
                st.set(dst, v)
            elif t.get("k") == "ref" and not st.subs(src):
                v = st.get(src)
                if isinstance(v, Opq):
                    v = Ref((("P", v.path),), bool(t.get("m")))
                st.set(dst, v)
            else:
                st.copyval(dst, src)
                if t.get("k") == "array":
                    self.norm_arr_len(st, dst, t)
        else:
            st.set(dst, Opq(("rt",)))

    # ---- havoc
    def havoc(self, st, key, tag, seen=None, keep_len=False):
        """an unknown callee may have written through a &mut to key"""
        if seen is None:
            seen = set()
        if key in seen:
            return
        seen.add(key)
        for suf, v in st.subs(key):
            if isinstance(v, Ref) and v.mut:
                self.havoc(st, v.key, tag + (("r",) + suf,), seen)
        v = st.get(key)
        if isinstance(v, Ref) and v.mut:
            self.havoc(st, v.key, tag + ("r",), seen)
        ln = None
        if keep_len:
            ln = self.len_of(st, key)
        st.set(key, Opq(("hv",) + tag + key[1:] + (key[0],)))
        if keep_len:
            self.set_len(st, key, ln)

    def havoc_arg(self, st, fr, o, tag):
        """effects of passing operand o to unknown code"""
        if o.kind != "p":
            return
        t = fr.fn.ty(o.ty)
        key = self.resolve(st, fr, o.place)
        if t.get("k") == "ref":
            if not t.get("m"):
                return
            it = fr.fn.ty(t["a"][0])
            tgt = self.deref(st, key)
            self.havoc(st, tgt, tag, keep_len=it.get("k") in ("slice", "array", "str"))
            return
        if t.get("k") in ("int", "uint", "bool", "char", "float"):
            return
        # aggregates (closures, adaptors) may hold &mut
        n = 0
        for suf, v in st.subs(key):
            if isinstance(v, Ref) and v.mut:
                self.havoc(st, v.key, tag + ("a", n))
                n += 1
        v = st.get(key)
        if isinstance(v, Ref) and v.mut:
            self.havoc(st, v.key, tag + ("a",))

    # ---- obligations
    def oblig(self, fr, site, kind, desc, ok, span, why="", extra=None):
        if self.noblig:
            return
        self.obl[(fr.ctx, fr.fn.id, site)] = Oblig(fr.fn, site, kind, desc, ok, span, fr.ctx, why, extra)

    # ---- switching
    def branch(self, st, v, val, others=None):
        """Assume discriminant/bool value v == val (val None: none of `others`)."""
        if isinstance(v, DV):
            if val is not None:
                f = v.facts(val)
                if f is None:
                    return False
                return st.assume(f)
            rest = [x for x in v.m if x not in others]
            if v.other is None:
                if not rest:
                    return False
                if len(rest) == 1:
                    return st.assume(v.m[rest[0]])
                common = [f for f in v.m[rest[0]] if all(f in v.m[x] for x in rest[1:])]
                return st.assume(common)
            return True
        if isinstance(v, Lin):
            if val is not None:
                e = v - val
                return st.assume((e, -e))
            for x in others:
                if not st.F.assume_ne(v - x):
                    return False
            # contiguous small domains: walk the edges
            ch = True
            while ch:
                ch = False
                for x in others:
                    e = v - x
                    lb = st.F.lb(e)
                    if lb is not None and lb == 0:
                        if not st.F.add(e - 1):
                            return False
                        ch = True
                    ub = st.F.ub(e)
                    if ub is not None and ub == 0:
                        if not st.F.add(-e - 1):
                            return False
                        ch = True
            return True
        return True

    # ---- binary operations
    def cmp_dv(self, op, a, b):
        d = b - a
        if op == "Lt":
            return DV({1: (d - 1,), 0: (-d,)})
        if op == "Le":
            return DV({1: (d,), 0: (-d - 1,)})
        if op == "Gt":
            return DV({1: (-d - 1,), 0: (d,)})
        if op == "Ge":
            return DV({1: (-d,), 0: (d - 1,)})
        if op == "Eq":
            return DV({1: (d, -d), 0: (("ne", d),)})
        if op == "Ne":
            return DV({0: (d, -d), 1: (("ne", d),)})
        return None

    def fold_bool(self, st, dv):
        """drop values contradicted by the facts"""
        m = {}
        for k, fs in dv.m.items():
            ok = True
            for f in fs:
                if isinstance(f, tuple):
                    if f[1].const == 0:
                        ok = False
                    elif st.F.prove(f[1], depth=2) and st.F.prove(-f[1], depth=2):
                        ok = False
                elif f.const is not None and f.const < 0:
                    ok = False
                elif st.F.prove(-f - 1, depth=3):
                    ok = False
                if not ok:
                    break
            if ok:
                m[k] = fs
        return DV(m, dv.other)

    def binop(self, st, fr, op, a, b, ta, tag, span):
        """value of a MIR binary operation on integers (exact results; range handled by the caller)"""
        bits = self.int_bounds(ta)
        lo, hi = bits if bits else (None, None)
        F = st.F
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub"):
            r = a + b if base == "Add" else a - b
            return r
        if base == "Mul":
            if b.const is not None:
                return a.scale(b.const)
            if a.const is not None:
                return b.scale(a.const)
            ubs = [F.ub(a), F.ub(b)]
            lbs = [F.lb(a), F.lb(b)]
            if None not in ubs and None not in lbs:
                c = [x * y for x in (lbs[0], ubs[0]) for y in (lbs[1], ubs[1])]
                return self.fresh(("mul", tag), min(c), max(c))
            return self.fresh(("mul", tag), None, None)
        if base == "Div":
            if a.const is not None and b.const:
                return K(int(a.const // b.const) if (a.const >= 0) == (b.const > 0) else -((-a.const) // b.const))
            lb, ub = F.lb(a), F.ub(a)
            if b.const and b.const > 0 and lb is not None and lb >= 0:
                d = b.const
                q = self.fresh(("div", tag), 0, ub // d if ub is not None else None)
                F.add(a - q.scale(d))
                F.add(q.scale(d) + (d - 1) - a)
                return q
            blb = F.lb(b)
            if lb is not None and lb >= 0 and blb is not None and blb >= 0:
                q = self.fresh(("div", tag), 0, ub // max(blb, 1) if ub is not None else None)
                F.add(a - q)
                return q
            m = max(abs(x) for x in (lb, ub)) if lb is not None and ub is not None else None
            return self.fresh(("div", tag), -m if m is not None else lo, m if m is not None else hi)
        if base == "Rem":
            lb, ub = F.lb(a), F.ub(a)
            bub = F.ub(b)
            if lb is not None and lb >= 0:
                h = (bub - 1) if bub is not None and bub > 0 else hi
                if ub is not None and h is not None:
                    h = min(h, ub)
                r = self.fresh(("rem", tag), 0, h)
                F.add(a - r)
                if b.const is None:
                    blb = F.lb(b)
                    if blb is not None and blb >= 0:
                        F.add(b - r - 1)
                elif b.const > 0:
                    # r = a mod d: a = q*d + r
                    q = self.fresh(("remq", tag), 0, None)
                    e = q.scale(b.const) + r - a
                    F.add(e)
                    F.add(-e)
                return r
            if bub is not None:
                m = max(abs(bub), abs(F.lb(b) or 0))
                return self.fresh(("rem", tag), -m, m)
            return self.fresh(("rem", tag), lo, hi)
        if base == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if y.const is not None and y.const >= 0:
                    lb, ub = F.lb(x), F.ub(x)
                    m = y.const
                    if x.const is not None:
                        return K(x.const & m)
                    if lb is not None and lb >= 0 and ub is not None and (m & (m + 1)) == 0 and ub <= m:
                        return x
                    r = self.fresh(("and", tag), 0, min(m, ub) if ub is not None and lb is not None and lb >= 0 else m)
                    if lb is not None and lb >= 0:
                        F.add(x - r)
                    return r
            la, lb_ = F.lb(a), F.lb(b)
            if la is not None and la >= 0 and lb_ is not None and lb_ >= 0:
                ua, ub = F.ub(a), F.ub(b)
                r = self.fresh(("and", tag), 0, min(x for x in (ua, ub) if x is not None) if (ua is not None or ub is not None) else hi)
                F.add(a - r)
                F.add(b - r)
                return r
            return self.fresh(("and", tag), lo, hi)
        if base in ("BitOr", "BitXor"):
            if a.const is not None and b.const is not None:
                return K(a.const | b.const if base == "BitOr" else a.const ^ b.const)
            la, lb_ = F.lb(a), F.lb(b)
            ua, ub = F.ub(a), F.ub(b)
            if la is not None and la >= 0 and lb_ is not None and lb_ >= 0 and ua is not None and ub is not None:
                m = (1 << max(ua.bit_length(), ub.bit_length())) - 1
                r = self.fresh(("or", tag), 0, m)
                F.add(a + b - r)
                if base == "BitOr":
                    F.add(r - a)
                    F.add(r - b)
                return r
            return self.fresh(("or", tag), lo, hi)
        if base == "Shr":
            lb, ub = F.lb(a), F.ub(a)
            if b.const is not None and 0 <= b.const < 128 and lb is not None and lb >= 0:
                d = 1 << b.const
                if a.const is not None:
                    return K(a.const >> b.const)
                q = self.fresh(("shr", tag), lb >> b.const, ub >> b.const if ub is not None else None)
                F.add(a - q.scale(d))
                F.add(q.scale(d) + (d - 1) - a)
                return q
            if lb is not None and lb >= 0:
                bl = F.lb(b)
                q = self.fresh(("shr", tag), 0, (ub >> bl if bl and 0 < bl < 200 else ub))
                F.add(a - q)
                return q
            return self.fresh(("shr", tag), lo, hi)
        if base == "Shl":
            if b.const is not None and 0 <= b.const < 128:
                if a.const is not None and lo is not None:
                    v = a.const << b.const
                    if lo <= v <= hi:
                        return K(v)
                ub, lb = F.ub(a), F.lb(a)
                if ub is not None and lb is not None and hi is not None and lb >= 0 and (ub << b.const) <= hi:
                    return a.scale(1 << b.const)
            elif a.const is not None and a.const > 0:
                ub, lb = F.ub(b), F.lb(b)
                if ub is not None and lb is not None and 0 <= lb and ub < 128 and hi is not None and (a.const << ub) <= hi:
                    return self.fresh(("shl", tag), a.const << lb, a.const << ub)
            return self.fresh(("shl", tag), lo, hi)
        return self.fresh(("bin", op, tag), lo, hi)

    # ---- statements
    def exec_stmt(self, st, fr, bb, i, s):
        fn = fr.fn
        tag = (fr.ctx, bb, i)
        rv = s.rv
        k = rv[0]
        dst = self.resolve(st, fr, s.place)
        dt = fn.ty(s.place.ty)
        if k == "use":
            self.op_into(st, fr, dst, rv[1])
        elif k == "ref" or k == "rawptr":
            pl = rv[2] if k == "ref" else rv[1]
            tgt = self.resolve(st, fr, pl)
            it = fn.ty(pl.ty)
            self.norm_arr_len(st, tgt, it)
            st.set(dst, Ref(tgt, bool(rv[1]) if k == "ref" else True))
        elif k == "bin":
            op = rv[1]
            ta = fn.ty(rv[2].ty) if rv[2].ty is not None else {}
            tk = ta.get("k")
            if tk in ("int", "uint", "bool", "char") or (tk is None):
                va = self.op_val(st, fr, rv[2])
                vb = self.op_val(st, fr, rv[3])
                if tk == "bool" and (isinstance(va, DV) or isinstance(vb, DV)) and op in ("BitAnd", "BitOr", "BitXor", "Eq", "Ne"):
                    st.set(dst, self.bool_op(op, self.bool_dv(va), self.bool_dv(vb)))
                    return
                a = va if isinstance(va, Lin) else self.op_lin(st, fr, rv[2])
                b = vb if isinstance(vb, Lin) else self.op_lin(st, fr, rv[3])
                c = self.cmp_dv(op, a, b)
                if c is not None:
                    st.set(dst, self.fold_bool(st, c))
                    return
                if op == "Cmp":
                    d = b - a
                    st.set(dst, Opq(("cmp",) + tag))
                    st.put(dst + ("#d",), self.fold_bool(st, DV({255: (d - 1,), 0: (d, -d), 1: (-d - 1,)})))
                    return
                if op.endswith("WithOverflow"):
                    r = self.binop(st, fr, op, a, b, ta, tag, s.span)
                    lo, hi = self.int_bounds(ta)
                    st.kill(dst)
                    st.put(dst, Opq(("ovf",) + tag))
                    st.put(dst + (("f", 0),), r)
                    self.ktype[dst + (("f", 0),)] = (lo, hi)
                    st.put(dst + (("f", 1),), DV({0: (r - lo, K(hi) - r), 1: ()}))
                    return
                r = self.binop(st, fr, op, a, b, ta, tag, s.span)
                base = op.replace("Unchecked", "")
                if base in ("Add", "Sub", "Mul", "Shl") and self.int_bounds(ta):
                    lo, hi = self.int_bounds(ta)
                    if not (st.F.prove(r - lo, 2) and st.F.prove(K(hi) - r, 2)):
                        r = self.fresh(("wrap", tag), lo, hi)
                if isinstance(r, Lin):
                    self.ktype[dst] = self.int_bounds(dt) or self.int_bounds(ta)
                st.set(dst, r)
            else:
                if dt.get("k") == "bool":
                    st.set(dst, DV({0: (), 1: ()}))
                else:
                    st.set(dst, Opq(("bin",) + tag))
        elif k == "un":
            op = rv[1]
            if op == "PtrMetadata":
                o = rv[2]
                key = self.resolve(st, fr, o.place) if o.kind == "p" else None
                if key is not None:
                    tgt = self.deref(st, key)
                    st.set(dst, self.len_of(st, tgt))
                else:
                    v = self.const_val(st, fr, o)
                    st.set(dst, self.len_of(st, v.key) if isinstance(v, Ref) else Opq(("pm",) + tag))
            elif op == "Not":
                v = self.op_val(st, fr, rv[2])
                if dt.get("k") == "bool":
                    st.set(dst, self.bool_dv(v).flip())
                else:
                    b = self.int_bounds(dt)
                    a = self.op_lin(st, fr, rv[2])
                    if dt.get("k") == "uint":
                        st.set(dst, K(b[1]) - a)
                    else:
                        st.set(dst, -a - 1)
            elif op == "Neg":
                if self.int_bounds(dt):
                    st.set(dst, -self.op_lin(st, fr, rv[2]))
                else:
                    st.set(dst, Opq(("neg",) + tag))
            else:
                st.set(dst, Opq(("un",) + tag))
        elif k == "cast":
            self.do_cast(st, fr, dst, rv, dt, tag, s.span, (bb, i))
        elif k == "discr":
            src = self.resolve(st, fr, rv[1])
            st.set(dst, self.discr(st, src, fn.ty(rv[1].ty)))
        elif k == "agg":
            self.do_agg(st, fr, dst, rv, dt, tag)
        elif k == "repeat":
            n = rv[2]
            tmpk = (("S", "rep") + tag,)
            self.op_into(st, fr, tmpk, rv[1])
            v = st.get(tmpk)
            st.set(dst, Opq(("rep",) + tag))
            if n is not None:
                self.set_len(st, dst, K(int(n)))
            if isinstance(v, Lin) and n is not None and int(n) <= 16:
                for j in range(int(n)):
                    st.put(dst + (("i", K(j)),), v)
        elif k == "setdiscr":
            adt = dt.get("n")
            st.put(dst + ("#d",), DV({self.discr_of(adt, rv[1]) if adt else rv[1]: ()}))
        else:
            st.set(dst, Opq(("rv",) + tag))
        if self.hook:
            self.hook(self, st, fr, bb, i, s, dst)

    def bool_dv(self, v):
        if isinstance(v, DV):
            return v
        if isinstance(v, Lin):
            if v.const is not None:
                return DV({v.const: ()})
            return DV({1: (v - 1, ONE - v), 0: (v, -v)})
        return DV({0: (), 1: ()})

    def bool_op(self, op, x, y):
        def f(d, v):
            return d.facts(v)
        m = {}
        if op in ("BitAnd", "BitOr"):
            one, zero = (1, 0) if op == "BitAnd" else (0, 1)
            fx, fy = f(x, one), f(y, one)
            if fx is not None and fy is not None:
                m[one] = fx + fy
            zx, zy = f(x, zero), f(y, zero)
            if zx is not None or zy is not None:
                if zx is None:
                    m[zero] = zy
                elif zy is None:
                    m[zero] = zx
                else:
                    m[zero] = tuple(g for g in zx if g in zy)
            return DV(m)
        return DV({0: (), 1: ()})

    def discr(self, st, key, t):
        v = st.get(key + ("#d",))
        if isinstance(v, Opq):
            n = None
            adt = t.get("n") if t.get("k") == "adt" else None
            lo, hi = 0, 255
            if adt in ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow", "alloc::borrow::Cow"):
                hi = 1
            elif adt in self.prog.adts and self.prog.adts[adt]["enum"]:
                ds = []
                for x in self.prog.adts[adt]["vs"]:
                    try:
                        ds.append(int(x["d"].split(" ")[0]))
                    except ValueError:
                        pass
                if ds:
                    lo, hi = min(ds), max(ds)
            return self.atom(v.path, lo, hi)
        return v

    def do_cast(self, st, fr, dst, rv, dt, tag, span, site):
        kind = rv[1]
        if kind == "IntToInt":
            so = rv[2]
            sty = fr.fn.ty(so.ty)
            v = self.op_val(st, fr, so)
            if isinstance(v, DV) or sty.get("k") not in ("int", "uint", "bool", "char"):
                if sty.get("k") == "bool":
                    if isinstance(v, DV) and len(v.m) == 1 and v.other is None:
                        st.set(dst, K(list(v.m)[0]))
                    else:
                        st.set(dst, self.fresh(("b2i", tag), 0, 1))
                else:  # enum discriminant cast
                    b = self.int_bounds(dt)
                    if isinstance(v, DV) and v.other is None and v.m:
                        if len(v.m) == 1:
                            st.set(dst, K(list(v.m)[0]))
                        else:
                            st.set(dst, self.fresh(("d2i", tag), min(v.m), max(v.m)))
                    else:
                        st.set(dst, self.fresh(("d2i", tag), *(b or (None, None))))
                return
            a = v if isinstance(v, Lin) else self.op_lin(st, fr, so)
            b = self.int_bounds(dt)
            if b is None:
                st.set(dst, Opq(("cast",) + tag))
                return
            lo, hi = b
            sb = self.int_bounds(sty)
            fits = sb and sb[0] >= lo and sb[1] <= hi
            ok = True
            if not fits:
                ok = st.F.prove(a - lo) and st.F.prove(K(hi) - a)
            if self.want_casts and not fits:
                self.oblig(fr, ("cast",) + site, "narrow", f"{sty['s']}->{dt['s']}", ok, span, extra=(so, a))
            if fits or ok:
                st.set(dst, a)
            else:
                r = self.fresh(("cast", tag), lo, hi)
                if lo == 0 and st.F.prove(a, 2):
                    st.F.add(a - r)
                st.set(dst, r)
            self.ktype[dst] = b
        elif kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind == "Transmute":
            o = rv[2]
            if o.kind == "p":
                src = self.resolve(st, fr, o.place)
                sty = fr.fn.ty(o.ty)
                if sty.get("k") in ("ref", "ptr") and dt.get("k") in ("ref", "ptr"):
                    tgt = self.deref(st, src)
                    it = fr.fn.ty(sty["a"][0])
                    self.norm_arr_len(st, tgt, it)
                    st.set(dst, Ref(tgt, bool(sty.get("m"))))
                else:
                    st.copyval(dst, src)
            else:
                v = self.const_val(st, fr, o)
                st.set(dst, v)
        elif kind == "FloatToInt":
            b = self.int_bounds(dt)
            st.set(dst, self.fresh(("f2i", tag), *(b or (None, None))))
        else:
            st.set(dst, Opq(("cast",) + tag))

    def do_agg(self, st, fr, dst, rv, dt, tag):
        h, ops = rv[1], rv[2]
        # operands may alias dst sub-places: stage them
        stage = []
        for j, o in enumerate(ops):
            sk = (("S", "st", fr.ctx, j),)
            self.op_into(st, fr, sk, o)
            stage.append(sk)
        st.kill(dst)
        st.put(dst, Opq(("agg",) + tag))
        if h[0] == "adt":
            enum = self.is_enum(h[1])
            pre = dst
            if enum:
                st.put(dst + ("#d",), DV({self.discr_of(h[1], h[2]): ()}))
                pre = dst + (("v", h[2]),)
            for j, sk in enumerate(stage):
                st.copyval(pre + (("f", j),), sk)
        elif h[0] == "array":
            self.set_len(st, dst, K(len(ops)))
            if len(ops) <= 64:
                for j, sk in enumerate(stage):
                    st.copyval(dst + (("i", K(j)),), sk)
        else:
            for j, sk in enumerate(stage):
                st.copyval(dst + (("f", j),), sk)

    # ---- running a body
    def run(self, fn, st, ctx=()):
        """Analyse fn from state st (arguments already bound). Returns the joined exit state or None."""
        fr = Frame(fn, ctx)
        hdr = {}
        loops = fn.loops
        for it in range(9):
            exit_states, changed = self.one_pass(fr, st, hdr, loops, last=it >= 6)
            if not changed:
                break
            if it >= 6:
                for h in hdr.values():
                    h["cands"] = {}
        self.visited[fn.id] = self.visited.get(fn.id, 0) + 1
        if not exit_states:
            return None
        return self.join(exit_states, fr, ("ret",))

    def one_pass(self, fr, st0, hdr, loops, last):
        fn = fr.fn
        instates = {0: [(None, st0)]}
        back = {}
        exits = []
        rpo = fn.rpo
        num = {b: i for i, b in enumerate(rpo)}
        for b in rpo:
            ins = instates.pop(b, None)
            if not ins:
                continue
            st = self.join([s for _, s in ins], fr, b) if len(ins) > 1 else ins[0][1].copy()
            if b in loops:
                st = self.header(fr, b, st, hdr)
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget(fn.id)
            dead = False
            for i, s in enumerate(fn.stmts[b]):
                self.exec_stmt(st, fr, b, i, s)
            outs = self.exec_term(st, fr, b)
            if outs == "ret":
                exits.append(st)
                continue
            for tgt, s in outs:
                if s is None:
                    continue
                if self.edge_hook:
                    self.edge_hook(self, fr, b, tgt, s)
                if tgt in num and num[tgt] <= num[b]:
                    back.setdefault(tgt, []).append(s)
                else:
                    instates.setdefault(tgt, []).append((b, s))
        changed = False
        for h, states in back.items():
            if self.check_header(fr, h, hdr, states, last):
                changed = True
        return exits, changed

    # ---- loop headers
    def header(self, fr, h, st, hdr):
        info = hdr.get(h)
        if info is None:
            info = {"keys": {}, "cands": {}, "entry": None, "gen": set()}
            hdr[h] = info
        info["entry"] = st.copy()
        if not info["keys"]:
            info["state"] = st.copy()
            return st
        for key in info["keys"]:
            self.hav_header_key(fr, h, st, key, info)
        info["havst"] = st.copy()
        for c in list(info["cands"]):
            # must also hold on entry
            if not self.cand_holds(fr, h, info, c, info["entry"]):
                del info["cands"][c]
        for c in info["cands"]:
            st.F.add(c)
        info["state"] = st.copy()
        return st

    def hav_header_key(self, fr, h, st, key, info):
        kind = info["keys"][key]
        nm = ("hdr", fr.ctx, h) + key
        if kind == "int":
            b = self.ktype.get(key)
            if key[-1] == "#len":
                b = (0, MEM)
            lo, hi = b if b else (None, None)
            st.set(key, self.fresh(nm, lo, hi))
        elif kind == "bool":
            st.set(key, self.fresh(nm, 0, 1))
        elif kind == "ref":
            old = st.get(key)
            root = (("S",) + nm,)
            st.set(key, Ref(root, isinstance(old, Ref) and old.mut))
            st.kill(root)
            self.set_len(st, root, self.fresh(nm + ("#len",), 0, MEM))
        else:
            st.set(key, Opq(nm))

    def hdr_val(self, st, key, kind):
        """current int expression for a havocked header key in another state"""
        if kind in ("int", "bool"):
            v = st.get(key)
            if isinstance(v, Lin):
                return v
            if isinstance(v, Opq):
                b = self.ktype.get(key)
                if key[-1] == "#len":
                    b = (0, MEM)
                return self.atom(v.path, *(b or (None, None)))
            if isinstance(v, DV) and v.other is None and len(v.m) == 1:
                return K(list(v.m)[0])
            return None
        if kind == "ref":
            v = st.get(key)
            if isinstance(v, Ref):
                return self.len_of(st, v.key)
            if isinstance(v, Opq):
                return self.len_of(st, (("P", v.path),))
        return None

    def hdr_atoms(self, fr, h, info):
        out = {}
        for key, kind in info["keys"].items():
            nm = ("hdr", fr.ctx, h) + key
            if kind in ("int", "bool"):
                i = self.atoms.ids.get(nm)
                if i is not None:
                    out[i] = (key, kind)
            elif kind == "ref":
                i = self.atoms.ids.get(nm + ("#len",))
                if i is not None:
                    out[i] = (key, kind)
        return out

    def subst(self, e, m):
        r = K(e.c)
        for a, k in e.t:
            x = m.get(a, False)
            if x is None:
                return None
            r = r + (x.scale(k) if x is not False else Lin(((a, k),), 0))
        return r

    def cand_holds(self, fr, h, info, c, st):
        ha = self.hdr_atoms(fr, h, info)
        m = {}
        for a, _ in c.t:
            if a in ha:
                key, kind = ha[a]
                m[a] = self.hdr_val(st, key, kind)
        e = self.subst(c, m)
        return e is not None and st.F.prove(e, depth=4)

    def key_kind(self, key, v1, v2):
        for v in (v1, v2):
            if isinstance(v, Ref):
                return "ref"
        if isinstance(v1, Lin) or isinstance(v2, Lin):
            if key[-1] == "#d":
                return "opq"
            return "int"
        if isinstance(v1, DV) or isinstance(v2, DV):
            return "opq" if key[-1] == "#d" else "bool"
        return "opq"

    def check_header(self, fr, h, hdr, states, last):
        info = hdr[h]
        hst = info["state"]
        changed = False
        newkeys = []
        for B in states:
            for root, d in B.env.items():
                if root[0] == "S" and root not in hst.env:
                    continue
                if root[0] == "L":
                    if root not in hst.env and not (root[1] == fr.ctx and 1 <= root[2] <= fr.fn.argc):
                        continue
                hd = hst.env.get(root)
                if hd is d:
                    continue
                if hd is None and root[0] == "P":
                    pth = root[1]
                    # objects reached through values created inside the loop do not outlive it
                    if not (pth and pth[0] == "init"):
                        continue
                for suf, v in d.items():
                    key = (root,) + suf
                    hv = hst.get(key)
                    if hv == v:
                        continue
                    if isinstance(v, Lin) and isinstance(hv, Opq):
                        b = self.ktype.get(key)
                        if key[-1] == "#len":
                            b = (0, MEM)
                        if self.atom(hv.path, *(b or (None, None))) == v:
                            continue
                    if isinstance(v, Ref) and isinstance(hv, Opq) and v.key == (("P", hv.path),):
                        continue
                    if key in info["keys"]:
                        continue
                    # an ancestor already havocked?
                    if any(key[:n] in info["keys"] and info["keys"][key[:n]] == "opq" and not hst.has(key) for n in range(1, len(key))):
                        continue
                    info["keys"][key] = self.key_kind(key, v, hv)
                    newkeys.append(key)
                    changed = True
                # sub-entries of the header that vanished in B
                if hd is not None:
                    for suf, hv in hd.items():
                        if suf not in d:
                            key = (root,) + suf
                            v = B.get(key)
                            if v == hv or key in info["keys"]:
                                continue
                            if isinstance(hv, Opq) and isinstance(v, Opq) and not isinstance(hv, Lin):
                                pass
                            info["keys"][key] = self.key_kind(key, v, hv)
                            newkeys.append(key)
                            changed = True
        # drop failing candidates
        for c in list(info["cands"]):
            for B in states:
                if not self.cand_holds(fr, h, info, c, B):
                    del info["cands"][c]
                    changed = True
                    break
        if newkeys and not last:
            self.gen_cands(fr, h, info, states, newkeys)
        return changed

    def gen_cands(self, fr, h, info, states, newkeys):
        E = info["entry"]
        # make sure atoms of the new keys exist
        tmp = E.copy()
        for key in info["keys"]:
            self.hav_header_key(fr, h, tmp, key, info)
        ha = self.hdr_atoms(fr, h, info)
        inv = {a: k for k, a in ((v[0], a) for a, v in ha.items())}
        byk = {}
        for a, (key, kind) in ha.items():
            byk[key] = a
        # other invariant expressions
        others = []
        seen = set()
        pool_atoms = set()
        for B in states:
            for f in B.F.fs:
                for a, _ in f.t:
                    pool_atoms.add(a)
            for a in list(B.F.lo) + list(B.F.hi):
                pool_atoms.add(a)
        for a in pool_atoms:
            nm = self.atoms.name[a]
            if a in ha:
                continue
            if nm and (nm[0] == "init" or a in E.F.lo or a in E.F.hi or any(a == x for f in E.F.fs for x, _ in f.t)):
                if a not in seen:
                    seen.add(a)
                    others.append(A(a))
        for root, d in E.env.items():
            if root[0] == "L" and root[1] == fr.ctx or root[0] == "P":
                for suf, v in d.items():
                    if isinstance(v, Lin) and v.t and len(v.t) <= 2 and v not in others and (root,) + suf not in info["keys"]:
                        others.append(v)
        others = others[:40]
        cands = info["cands"]

        def addc(c):
            if c.t and c not in info["gen"]:
                info["gen"].add(c)
                if self.cand_holds(fr, h, info, c, E):
                    # cheap filter on the back states
                    for B in states:
                        if not self.cand_holds(fr, h, info, c, B):
                            return
                    cands[c] = True
        for key in newkeys:
            a = byk.get(key)
            if a is None:
                continue
            kind = info["keys"][key]
            e0 = self.hdr_val(E, key, kind)
            if e0 is None:
                continue
            p = A(a)
            lb, ub = E.F.lb(e0), E.F.ub(e0)
            if lb is not None:
                addc(p - lb)
                if lb > 0:
                    addc(p - 1)
            if lb is None or lb < 0:
                addc(p)
            if ub is not None:
                addc(K(ub) - p)
            for B in states:
                e1 = self.hdr_val(B, key, kind)
                if e1 is not None:
                    ub1 = B.F.ub(e1)
                    lb1 = B.F.lb(e1)
                    if ub1 is not None and ub is not None:
                        addc(K(max(ub, ub1)) - p)
                    if lb1 is not None and lb is not None:
                        addc(p - min(lb, lb1))
            if e0.t:
                addc(p - e0)
                addc(e0 - p)
            for y in others:
                if y == e0:
                    continue
                addc(y - p)
                addc(p - y)
            for k2, a2 in byk.items():
                if a2 == a:
                    continue
                q = A(a2)
                addc(q - p)
                addc(p - q)
                f0 = self.hdr_val(E, k2, info["keys"][k2])
                if f0 is not None:
                    s = e0 + f0
                    addc(s - p - q)
                    addc(p + q - s)
                    d = e0 - f0
                    addc(d - p + q)
                    addc(p - q - d)

    # ---- joins
    def join(self, states, fr, b):
        states = [s for s in states if s is not None]
        if len(states) == 1:
            return states[0].copy()
        n = len(states)
        out = State(self.atoms)
        roots = {}
        for s in states:
            for r in s.env:
                roots[r] = True
        phis = []   # (atom, [values])
        dvs = []    # (key, [vals])
        s0 = states[0]
        for r in roots:
            ds = [s.env.get(r) for s in states]
            if all(d is ds[0] for d in ds):
                out.env[r] = ds[0]
                continue
            if r[0] == "L" and any(d is None for d in ds) and not (r[1] == fr.ctx and 1 <= r[2] <= fr.fn.argc):
                continue
            if r[0] == "S" and any(d is None for d in ds):
                # object only known on some paths: keep it (nothing refers to it elsewhere)
                have = [d for d in ds if d is not None]
                if all(d is have[0] for d in have) or all(d == have[0] for d in have):
                    out.env[r] = have[0]
                    continue
            sufs = {}
            for d in ds:
                if d:
                    for k in d:
                        sufs[k] = True
            nd = {}
            for suf in sorted(sufs, key=len):
                key = (r,) + suf
                vals = [s.get(key) for s in states]
                v0 = vals[0]
                if all(v == v0 for v in vals[1:]):
                    nd[suf] = v0
                    continue
                kb = self.ktype.get(key)
                if suf and suf[-1] == "#len":
                    kb = (0, MEM)
                if (suf and suf[-1] == "#d") or any(isinstance(v, DV) for v in vals):
                    nd[suf] = Opq(("phi", fr.ctx, b) + key)
                    dvs.append((r, suf, vals))
                    continue
                if any(isinstance(v, Lin) for v in vals):
                    ls = []
                    for v in vals:
                        if isinstance(v, Lin):
                            ls.append(v)
                        elif isinstance(v, Opq):
                            ls.append(self.atom(v.path, *(kb or (None, None))))
                        else:
                            ls = None
                            break
                    if ls is None:
                        nd[suf] = Opq(("phi", fr.ctx, b) + key)
                        continue
                    if all(x == ls[0] for x in ls):
                        nd[suf] = ls[0]
                        continue
                    lbs = [s.F.lb(x) for s, x in zip(states, ls)]
                    ubs = [s.F.ub(x) for s, x in zip(states, ls)]
                    lo = min(lbs) if None not in lbs else (kb[0] if kb else None)
                    hi = max(ubs) if None not in ubs else (kb[1] if kb else None)
                    a = self.fresh(("phi", fr.ctx, b) + key, lo, hi)
                    nd[suf] = a
                    phis.append((a, ls))
                    continue
                if any(isinstance(v, Ref) for v in vals):
                    rl = []
                    for s, v in zip(states, vals):
                        if isinstance(v, Ref):
                            rl.append(v.key)
                        elif isinstance(v, Opq):
                            rl.append((("P", v.path),))
                        else:
                            rl = None
                            break
                    nm = ("phi", fr.ctx, b) + key
                    if rl:
                        root = (("S",) + nm,)
                        ls = [self.len_of(s, k) for s, k in zip(states, rl)]
                        mut = any(isinstance(v, Ref) and v.mut for v in vals)
                        if mut:
                            # writes through it would go to one of several objects
                            nd[suf] = Ref(root, mut)
                        else:
                            nd[suf] = Ref(root, False)
                        if all(x == ls[0] for x in ls):
                            ln = ls[0]
                        else:
                            lbs = [s.F.lb(x) for s, x in zip(states, ls)]
                            ubs = [s.F.ub(x) for s, x in zip(states, ls)]
                            ln = self.fresh(nm + ("#len",), min(lbs) if None not in lbs else 0, max(ubs) if None not in ubs else MEM)
                            phis.append((ln, ls))
                        out.env[root[0]] = {("#len",): ln}
                        continue
                    nd[suf] = Opq(nm)
                    continue
                nd[suf] = Opq(("phi", fr.ctx, b) + key)
            out.env[r] = nd
        # facts
        F = out.F
        base = states[0].F
        for a in set(base.lo):
            vs = [s.F.alo(a) for s in states]
            if None not in vs:
                m = min(vs)
                if self.atoms.lo[a] is None or m > self.atoms.lo[a]:
                    F.lo[a] = m
        for a in set(base.hi):
            vs = [s.F.ahi(a) for s in states]
            if None not in vs:
                m = max(vs)
                if self.atoms.hi[a] is None or m < self.atoms.hi[a]:
                    F.hi[a] = m
        allf = {}
        for s in states:
            for f in s.F.fs:
                allf[f] = allf.get(f, 0) + 1
        for f, c in allf.items():
            if c == n or all(f in s.F.fs or s.F.prove(f, depth=2, budget=[40]) for s in states):
                F.fs[f] = True
        for e in base.ne:
            if all(e in s.F.ne or s.F.is_ne(e) for s in states[1:]):
                F.ne[e] = True
        # relations for phi atoms
        if phis:
            cands = {}
            for i, s in enumerate(states):
                amap = {}
                for a, ls in phis:
                    e = ls[i]
                    if len(e.t) == 1 and e.t[0][1] == 1:
                        amap.setdefault(e.t[0][0], []).append(a - e.c)
                if amap:
                    for f in list(s.F.fs):
                        if any(x in amap for x, _ in f.t):
                            r = K(f.c)
                            for x, k in f.t:
                                r = r + (amap[x][0].scale(k) if x in amap else Lin(((x, k),), 0))
                            cands[r] = True
            for a, ls in phis:
                for e in set(ls):
                    if e.t:
                        cands[a - e] = True
                        cands[e - a] = True
            if len(phis) > 1:
                for i in range(min(len(phis), 6)):
                    for j in range(i + 1, min(len(phis), 6)):
                        x, y = phis[i], phis[j]
                        d = x[1][0] - y[1][0]
                        if all((p - q) == d for p, q in zip(x[1], y[1])):
                            cands[x[0] - y[0] - d] = True
                            cands[d - x[0] + y[0]] = True
                        cands[x[0] - y[0]] = True
                        cands[y[0] - x[0]] = True
            pid = {a.t[0][0]: ls for a, ls in phis}
            k = 0
            for c in cands:
                k += 1
                if k > 200:
                    break
                ok = True
                for i, s in enumerate(states):
                    e = self.subst(c, {a: ls[i] for a, ls in pid.items()})
                    if not s.F.prove(e, depth=2, budget=[60]):
                        ok = False
                        break
                if ok:
                    F.add(c)
        # discriminants: attach what is known per variant
        if dvs:
            deltas = []
            for i, s in enumerate(states):
                d = []
                for f in s.F.fs:
                    if f not in F.fs:
                        d.append(f)
                for a in s.F.lo:
                    if s.F.lo[a] != F.alo(a):
                        d.append(A(a) - s.F.lo[a])
                for a in s.F.hi:
                    if s.F.hi[a] != F.ahi(a):
                        d.append(K(s.F.hi[a]) - A(a))
                for a, ls in phis:
                    d.append(a - ls[i])
                    d.append(ls[i] - a)
                for e in s.F.ne:
                    if e not in F.ne:
                        d.append(("ne", e))
                deltas.append(tuple(d[:120]))
            for r, suf, vals in dvs:
                ms = []
                for i, v in enumerate(vals):
                    if isinstance(v, DV):
                        ms.append(v)
                    elif isinstance(v, Lin):
                        if v.const is not None:
                            ms.append(DV({v.const: ()}))
                        else:
                            lo, hi = states[i].F.lb(v), states[i].F.ub(v)
                            if lo is not None and hi is not None and hi - lo <= 3:
                                ms.append(DV({x: (v - x, K(x) - v) for x in range(lo, hi + 1)}))
                            else:
                                ms.append(DV({}, ()))
                    elif isinstance(v, Opq):
                        hi = None
                        ms.append(DV({}, ()))
                    else:
                        ms.append(DV({}, ()))
                values = {}
                for m in ms:
                    for x in m.m:
                        values[x] = True
                nm = {}
                for x in values:
                    poss = []
                    for i, m in enumerate(ms):
                        f = m.facts(x)
                        if f is not None:
                            poss.append((i, f))
                    nm[x] = self.merge_facts(states, deltas, poss)
                other = None
                poss = [(i, m.other) for i, m in enumerate(ms) if m.other is not None]
                if poss:
                    other = self.merge_facts(states, deltas, poss)
                out.env[r] = dict(out.env[r])
                out.env[r][suf] = DV(nm, other)
        return out

    def merge_facts(self, states, deltas, poss):
        if len(poss) == 1:
            i, f = poss[0]
            return self._cap(deltas[i] + f)
        sets = [set(deltas[i] + f) for i, f in poss]
        common = [f for f in (deltas[poss[0][0]] + poss[0][1]) if all(f in s for s in sets)]
        # facts of one side provable on the others
        extra = []
        for (i, f), s in zip(poss, sets):
            for g in s:
                if g in common or g in extra or isinstance(g, tuple):
                    continue
                if len(extra) > 24:
                    break
                ok = True
                for (j, fj), sj in zip(poss, sets):
                    if j == i and fj is f:
                        continue
                    if g in sj:
                        continue
                    t = states[j].F
                    if t.prove(g, depth=2, budget=[30]):
                        continue
                    if fj and len(fj) < 8:
                        t2 = t.copy()
                        if not all(t2.add(x) for x in fj if not isinstance(x, tuple)):
                            continue
                        if t2.prove(g, depth=2, budget=[30]):
                            continue
                    ok = False
                    break
                if ok:
                    extra.append(g)
        return self._cap(tuple(common) + tuple(extra))

    def _cap(self, fs):
        out = []
        seen = set()
        for f in fs:
            if f not in seen:
                seen.add(f)
                out.append(f)
        return tuple(out[:160])

    # ---- terminators
    def exec_term(self, st, fr, b):
        fn = fr.fn
        t = fn.terms[b]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return "ret"
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            o = t[1]
            v = self.op_val(st, fr, o)
            outs = []
            vals = [x for x, _ in t[2]]
            ty = fn.ty(o.ty)
            if ty.get("k") == "int":
                bits = ty["bits"]
                conv = lambda x: x - (1 << bits) if x >= (1 << (bits - 1)) else x
            else:
                conv = lambda x: x
            bytgt = {}
            for x, tgt in t[2]:
                s2 = st.copy()
                vv = conv(x) if isinstance(v, Lin) else x
                if self.branch(s2, v, vv):
                    self.refine_switch(s2, fr, b, o, x)
                    bytgt.setdefault(tgt, []).append(s2)
            s2 = st.copy()
            oth = [conv(x) if isinstance(v, Lin) else x for x in vals]
            if self.branch(s2, v, None, oth):
                bytgt.setdefault(t[3], []).append(s2)
            for tgt, ss in bytgt.items():
                for s in ss:
                    outs.append((tgt, s))
            return outs
        if k == "assert":
            o, expected, msg, tgt, span = t[1], t[2], t[3], t[4], t[5]
            return self.do_assert(st, fr, b, o, expected, msg, tgt, span)
        if k == "call":
            return self.do_call(st, fr, b, t[1])
        return []

    def refine_switch(self, st, fr, b, o, x):
        pass

    def do_assert(self, st, fr, b, o, expected, msg, tgt, span):
        v = self.op_val(st, fr, o)
        want = 1 if expected else 0
        kind = msg[0]
        ok = False
        why = ""
        extra = None
        if kind == "overflow" and o.kind == "p":
            dvv = v
            if isinstance(dvv, DV):
                fs = dvv.facts(want)
                ok = fs is not None and all(st.F.prove(f) if not isinstance(f, tuple) else st.F.is_ne(f[1]) for f in fs)
                extra = fs
            elif isinstance(dvv, Lin):
                ok = dvv.const == want
        elif isinstance(v, DV):
            fs = v.facts(want)
            if fs is None:
                ok = False
            elif len(v.m) == 1 and v.other is None:
                ok = True
            else:
                # the negation must be impossible
                ng = v.facts(1 - want)
                if ng is None:
                    ok = True
                else:
                    s2 = st.copy()
                    ok = not s2.assume(ng)
                if not ok and fs:
                    ok = all(st.F.prove(f) if not isinstance(f, tuple) else st.F.is_ne(f[1]) for f in fs)
            extra = fs
        elif isinstance(v, Lin):
            ok = v.const == want or (st.F.prove(v - want) and st.F.prove(K(want) - v))
        desc = self.msg_desc(fr, msg)
        if kind != "other":
            if not ok:
                why = self.explain(st, extra)
            self.oblig(fr, b, kind if kind != "overflow" else "overflow-" + msg[1], desc, ok, span, why)
        s2 = st
        if not self.branch(s2, v, want):
            return []
        return [(tgt, s2)]

    def explain(self, st, fs):
        out = []
        for f in fs or ():
            e = f[1] if isinstance(f, tuple) else f
            out.append(f"{'ne ' if isinstance(f, tuple) else ''}{self.show(e)} in [{st.F.lb(e)},{st.F.ub(e)}]")
        return "need " + " and ".join(out)

    def show(self, e):
        def nm(a):
            n = self.atoms.name[a]
            return "<" + str(n)[-70:] + ">"
        return " + ".join(f"{k}*{nm(a)}" for a, k in e.t) + f" {e.c:+d}"

    def msg_desc(self, fr, msg):
        return "(" + ", ".join(self.opdesc(fr, x) if isinstance(x, Op) else str(x) for x in msg[1:]) + ")"

    def opdesc(self, fr, o, depth=0):
        """source-level description of an operand, independent of line numbers and temporaries"""
        return describe(fr.fn, o, depth)

    # ---- calls
    def do_call(self, st, fr, b, call):
        tag = (fr.ctx, b)
        r = self.call_value(st, fr, b, call, tag)
        if r is None or call.target is None:
            return []
        if isinstance(r, list):
            return [(call.target, s) for s in r]
        return [(call.target, st)]

    def call_value(self, st, fr, b, call, tag):
        if self.on_call:
            x = self.on_call(self, st, fr, b, call)
            if x is not None:
                return None if x == "diverge" else x
        dst = self.resolve(st, fr, call.dest)
        c = call.callee
        if c is not None:
            m = self.models.lookup(c, call, fr)
            if m is not None:
                r = m(self, st, fr, b, call, dst, tag)
                if r == "diverge":
                    return None
                if r is not NotImplemented:
                    return True if r is None else r
            fns = self.prog.targets(call)
            if len(fns) == 1 and not (c.unres and c.path != fns[0].id) and self.can_inline(fr, fns[0], call):
                return self.inline(st, fr, b, call, fns[0], dst)
        if call.target is None:
            self.oblig(fr, b, "panic", panic_desc(fr.fn, call), False, call.span)
            return None
        self.unknown_call(st, fr, b, call, dst, tag)
        return True

    def unknown_call(self, st, fr, b, call, dst, tag):
        for i, a in enumerate(call.args):
            self.havoc_arg(st, fr, a, ("call",) + tag + (i,))
        st.set(dst, Opq(("call",) + tag))
        t = fr.fn.ty(call.dest.ty)
        bnd = self.int_bounds(t)
        if bnd:
            self.ktype[dst] = bnd
            st.set(dst, self.fresh(("call",) + tag, *bnd))
        elif t.get("k") == "array":
            self.norm_arr_len(st, dst, t)

    def can_inline(self, fr, fn, call):
        if fn.id in self.stack or len(self.stack) > 12:
            return False
        if fn.id in self.force_inline:
            return True
        d = len(fr.ctx)
        if d >= self.inline_depth:
            return False
        n = fn.nblocks()
        lim = self.inline_blocks >> d
        return n <= lim

    def inline(self, st, fr, b, call, fn, dst):
        ctx = fr.ctx + ((fr.fn.id, b),)
        # bind
        for l in range(len(fn.locals)):
            st.env.pop(("L", ctx, l), None)
        for i, a in enumerate(call.args):
            self.op_into(st, fr, (("L", ctx, i + 1),), a)
        self.stack.append(fn.id)
        self.inlined.add((fr.fn.id, fn.id))
        try:
            out = self.run(fn, st, ctx)
        finally:
            self.stack.pop()
        if out is None:
            return None
        st.env = out.env
        st.F = out.F
        st.own = set()
        st.copyval(dst, (("L", ctx, 0),))
        t = fr.fn.ty(call.dest.ty)
        if self.int_bounds(t):
            self.ktype[dst] = self.int_bounds(t)
        for r in [r for r in st.env if r[0] == "L" and r[1][:len(ctx)] == ctx]:
            # frames die with the call, unless something still points into them
            pass
        self.gc(st, ctx)
        return True

    def gc(self, st, ctx):
        n = len(ctx)
        live = set()
        work = []
        for r, d in st.env.items():
            if not (r[0] == "L" and r[1][:n] == ctx):
                if r[0] != "S":
                    work.append(r)
        seen = set(work)
        while work:
            r = work.pop()
            for v in st.env.get(r, {}).values():
                if isinstance(v, Ref):
                    x = v.key[0]
                    if x not in seen and x in st.env:
                        seen.add(x)
                        work.append(x)
        for r in list(st.env):
            if r not in seen:
                del st.env[r]


class Frame:
    __slots__ = ("fn", "ctx")

    def __init__(self, fn, ctx):
        self.fn, self.ctx = fn, ctx


# ---------------------------------------------------------------- descriptions
def single_def(fn):
    d = getattr(fn, "_sdef", None)
    if d is None:
        d = {}
        for b in fn.reachable:
            for s in fn.stmts[b]:
                if s.place.bare:
                    d.setdefault(s.place.local, []).append(("s", s))
            t = fn.terms[b]
            if t[0] == "call" and t[1].dest.bare:
                d.setdefault(t[1].dest.local, []).append(("c", t[1]))
        fn._sdef = d
    return d


def describe(fn, o, depth=0):
    if o.kind == "k":
        n = o.int
        if n is not None:
            return o.item.rsplit("::", 1)[-1] if o.item else str(n)
        if "s" in o.val:
            return json.dumps(o.val["s"])[:30]
        return o.item.rsplit("::", 1)[-1] if o.item else "const"
    if o.kind != "p":
        return "rt"
    return describe_place(fn, o.place, depth)


def describe_place(fn, p, depth=0):
    nm = fn.local_name(p.local)
    if nm is None and p.local <= fn.argc and p.local > 0:
        nm = f"arg{p.local}"
    for vn, vp in fn.vars:
        if vp.local == p.local and vp.proj == p.proj[:len(vp.proj)]:
            nm = vn
            return nm + projdesc(p.proj[len(vp.proj):])
    if nm is None and depth < 6:
        ds = single_def(fn).get(p.local, [])
        if len(ds) == 1:
            k, x = ds[0]
            if k == "s":
                rv = x.rv
                if rv[0] == "use":
                    if rv[1].kind == "p":
                        return describe_place(fn, rv[1].place, depth + 1) + projdesc(p.proj)
                    return describe(fn, rv[1], depth + 1)
                if rv[0] == "ref":
                    return describe_place(fn, rv[2], depth + 1) + projdesc(p.proj)
                if rv[0] == "cast":
                    return describe(fn, rv[2], depth + 1) + projdesc(p.proj)
                if rv[0] == "bin":
                    sym = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%", "BitAnd": "&", "BitOr": "|", "Shl": "<<", "Shr": ">>"}
                    op = rv[1].replace("WithOverflow", "")
                    return f"({describe(fn, rv[2], depth+1)}{sym.get(op, op)}{describe(fn, rv[3], depth+1)})"
                if rv[0] == "un":
                    return f"{rv[1]}({describe(fn, rv[2], depth+1)})"
                if rv[0] == "discr":
                    return f"discr({describe_place(fn, rv[1], depth+1)})"
                if rv[0] == "agg":
                    return f"{rv[1][3] if rv[1][0]=='adt' else rv[1][0]}(" + ",".join(describe(fn, a, depth + 1) for a in rv[2][:3]) + ")" + projdesc(p.proj)
            elif k == "c":
                c = x
                n = c.callee.name if c.callee else "fn"
                if n in ("branch", "from_residual", "into_iter", "deref", "deref_mut", "map_err", "into", "as_ref", "as_mut", "by_ref", "clone", "from"):
                    return describe(fn, c.args[0], depth + 1) + projdesc(p.proj) if c.args else n
                return f"{n}({','.join(describe(fn, a, depth + 1) for a in c.args[:3])})" + projdesc(p.proj)
        if len(ds) > 1:
            return f"phi:{fn.tys(fn.locals[p.local][0])}" + projdesc(p.proj)
    return (nm or "tmp") + projdesc(p.proj)


def projdesc(proj):
    s = ""
    for e in proj:
        if e[0] == "f":
            s += "." + (e[2] or str(e[1]))
        elif e[0] == "i":
            s += "[i]"
        elif e[0] == "c":
            s += f"[{e[1]}]"
    return s


def panic_desc(fn, call):
    mac = call.span[2] if len(call.span) > 2 else []
    nm = call.callee.name if call.callee else "?"
    return f"{nm}{'!' + mac[0] if mac else ''}"
