"""Constant propagation over byte strings of which only some bytes are given.

A value ("bytes", (b0, b1, …)) is a byte string of known length; a byte is a number, ("kb", mask, value)
or None (anything). The one reader of a function is a file of which some bytes are given; the
position it stands at is part of the abstract state. Everything else is Spec."""
from .spec import Spec, pk

RES = "core::result::Result"
OPT = "core::option::Option"
EOF_ = "eof"


def wrap(head, payload=None):
    """Ok(payload) / Some(payload)"""
    n, vi, vn = head
    if payload is None:
        return ("e", n, vi)
    pre = (("v", vi, vn), ("f", 0))
    if isinstance(payload, tuple) and payload[0] == "s":
        subs = [(pre + x, y) for x, y in payload[2]]
        if payload[1] is not None:
            subs.append((pre, payload[1]))
    else:
        subs = [(pre, payload)]
    return ("s", ("e", n, vi), tuple(sorted(subs, key=repr)))


OK, SOME = (RES, 0, "Ok"), (OPT, 1, "Some")
SYNC = "mpeg::header::search_for_frame_sync"


class File:
    """given bytes by offset; `size` of the file (None: longer than anything asked for)"""

    def __init__(self, given, size=None, start=0, fill=None):
        self.given, self.size, self.start, self.fill = given, size, start, fill

    def bytes(self, pos, n):
        if self.size is not None:
            n = max(0, min(n, self.size - pos))
        return tuple(self.given.get(pos + i, self.fill) for i in range(n))


class Sniff(Spec):
    def __init__(self, prog, file=None, **kw):
        kw.setdefault("deep", True)
        kw.setdefault("strings", True)
        super().__init__(prog, **kw)
        self.file = file
        self.unroll = set()          # functions followed path by path
        self.asserts = True
        self.pos = file.start if file else None
        self.posmemo = {}
        self.rets = {}

    # -- the position as part of the state
    def run(self, fn, args=()):
        k = (fn.id, args, self.pos)
        if k in self.posmemo:
            r, self.pos = self.posmemo[k]
            return r
        if k in self.stack or len(self.stack) > 40:
            self.pos = None
            return (set(fn.reachable), None, {})
        self.stack.append(k)
        try:
            self.rets.pop((fn.id, args), None)
            r = self._run(fn, args)
        finally:
            self.stack.pop()
        ps = set(self.rets.get((fn.id, args), {}).values())
        out = next(iter(ps)) if len(ps) == 1 else None
        self.posmemo[k] = (r, out)
        self.pos = out
        return r

    def start(self, fn, args):
        return {("#pos",): self.pos} if self.pos is not None else {}

    def at_return(self, fn, args, b, env):
        self.rets.setdefault((fn.id, args), {})[b] = env.get(("#pos",))

    LIMIT = 30000

    def _run(self, fn, args):
        if fn.id not in self.unroll:
            return super()._run(fn, args)
        # path by path (states told apart instead of joined) as long as what is given decides the branches
        env = self.start(fn, args)
        for i, a in enumerate(args):
            self.expand(env, (i + 1,), a)
        cctx, live, outs, seen = {}, set(), [], set()
        work, n = [(0, env)], 0
        while work:
            b, env = work.pop()
            n += 1
            if n > self.LIMIT:
                self.rets.pop((fn.id, args), None)
                return super()._run(fn, args)
            live.add(b)
            if len(fn.preds.get(b, ())) > 1:
                k = (b, frozenset(env.items()))
                if k in seen:
                    continue
                seen.add(k)
            nxt = self.step(fn, args, b, env, cctx)
            if nxt is None:
                outs.append((self.pack(env, (0,)), env.get(("#pos",))))
                continue
            for x in nxt:
                work.append((x, env if len(nxt) == 1 else dict(env)))
        rv = None
        outs = self.outcomes(fn, outs)
        for i, (_, p) in enumerate(outs):
            self.rets.setdefault((fn.id, args), {})[i] = p
        if outs:
            es = []
            for v, _ in outs:
                e = {}
                self.expand(e, (0,), v)
                es.append(e)
            e = es[0]
            for x in es[1:]:
                e = self.join(e, x)
            rv = self.pack({k: v for k, v in e.items() if not (isinstance(v, tuple) and v[0] == "ref")}, (0,))
        return (live, rv, cctx)

    def outcomes(self, fn, outs):
        return outs

    # -- byte strings
    def deref(self, env, v):
        n = 0
        while isinstance(v, tuple) and v[0] in ("ref", "rv") and n < 6:
            v = env.get(v[1]) if v[0] == "ref" else v[1]
            n += 1
        return v

    def refkey(self, env, v):
        n = 0
        while isinstance(v, tuple) and v[0] == "ref" and n < 6:
            w = env.get(v[1])
            if isinstance(w, tuple) and w[0] == "ref":
                v = w
            else:
                return v[1]
            n += 1
        return None

    def op(self, fn, env, o):
        if o.kind == "k" and o.int is None:
            w, n = o.val, 0
            while isinstance(w.get("ref"), dict):
                w, n = w["ref"], n + 1
            b = None
            if w.get("arr") and all(isinstance(x, dict) and "i" in x for x in w["arr"]):
                b = [int(x["i"]) for x in w["arr"]]
            elif isinstance(w.get("by"), str):
                b = None
            if b is not None and all(0 <= x < 256 for x in b):
                v = ("bytes", tuple(b))
                return ("rv", v) if n else v
        return super().op(fn, env, o)

    def promoted(self, fn, i):
        return super().promoted(fn, i)

    def place(self, fn, env, p):
        v = super().place(fn, env, p)
        if v is not None:
            return v
        k = pk(p)
        for n in range(1, len(k)):
            if k[n][0] not in ("i", "c"):
                continue
            b = env.get(k[:n])
            if b is None and k[n - 1] == ("d",):
                b = env.get(k[:n - 1])
            b = self.deref(env, b)
            if not (isinstance(b, tuple) and b[0] == "bytes") or n != len(k) - 1:
                return None
            e = k[n]
            if e[0] == "i":
                i = self.as_int(env.get((e[1],)))
            else:
                i = e[1]
                if len(e) > 3 and e[3]:
                    i = len(b[1]) - i
            return b[1][i] if i is not None and 0 <= i < len(b[1]) else None
        return None

    def stmt(self, fn, env, s):
        rv, d = s.rv, pk(s.place)
        if rv[0] == "un" and rv[1] == "PtrMetadata" or rv[0] == "len":
            v = self.op(fn, env, rv[2]) if rv[0] == "un" else self.place(fn, env, rv[1])
            v = self.deref(env, v)
            if isinstance(v, tuple) and v[0] == "bytes":
                self.kill(env, d)
                env[d] = len(v[1])
                return
        if rv[0] == "un" and rv[1] == "Neg":
            v = self.as_int(self.op(fn, env, rv[2]))
            self.kill(env, d)
            if v is not None:
                env[d] = -v
            return
        if rv[0] == "ref" and not rv[1]:
            k = pk(rv[2])
            if (not rv[2].proj or rv[2].proj[-1][0] != "d") and any(len(x) > len(k) and x[:len(k)] == k for x in env):
                self.kill(env, d)
                env[d] = ("ref", k)
                return
        if rv[0] == "repeat":
            v = self.op(fn, env, rv[1])
            n = rv[2] if isinstance(rv[2], int) else None
            t = fn.ty(s.place.ty)
            self.kill(env, d)
            if n is not None and n <= 4096 and isinstance(v, int) and 0 <= v < 256 and t.get("k") == "array":
                env[d] = ("bytes", (v,) * n)
            return
        if rv[0] == "agg" and rv[1][0] == "array":
            t = fn.ty(s.place.ty)
            if t.get("a") and fn.tys(t["a"][0]) == "u8":
                vals = [self.op(fn, env, o) for o in rv[2]]
                self.kill(env, d)
                env[d] = ("bytes", tuple(v if isinstance(v, int) or isinstance(v, tuple) and v[0] == "kb" else None for v in vals))
                return
        # an element written
        if d[-1][0] in ("i", "c") if len(d) > 1 else False:
            b = d[:-1]
            if b[-1:] == (("d",),):
                b = self.refkey(env, env.get(b[:-1])) or b
            old = env.get(b)
            if isinstance(old, tuple) and old[0] == "bytes":
                i = self.as_int(env.get((d[-1][1],))) if d[-1][0] == "i" else d[-1][1]
                w = self.op(fn, env, rv[1]) if rv[0] == "use" else None
                if i is not None and 0 <= i < len(old[1]):
                    env[b] = ("bytes", old[1][:i] + (w if isinstance(w, int) else None,) + old[1][i + 1:])
                else:
                    env[b] = ("bytes", (None,) * len(old[1]))
            return
        super().stmt(fn, env, s)

    @staticmethod
    def cmp_bytes(x, y):
        """equal for certain / different for certain / None"""
        if len(x) != len(y):
            return False
        sure = True
        for a, b in zip(x, y):
            ka = (255, a) if isinstance(a, int) else a[1:] if isinstance(a, tuple) else (0, 0)
            kb = (255, b) if isinstance(b, int) else b[1:] if isinstance(b, tuple) else (0, 0)
            m = ka[0] & kb[0]
            if (ka[1] ^ kb[1]) & m:
                return False
            sure = sure and m == 255
        return True if sure else None

    def rng(self, env, o, n):
        """bounds of a range argument"""
        if o.kind != "p":
            return None
        k = pk(o.place)
        name = self.tyname(o)
        a, b = self.as_int(env.get(k + (("f", 0),))), self.as_int(env.get(k + (("f", 1),)))
        if name == "Range":
            r = (a, b)
        elif name == "RangeTo":
            r = (0, a)
        elif name == "RangeFrom":
            r = (a, n)
        elif name == "RangeFull":
            r = (0, n)
        elif name == "RangeToInclusive":
            r = (0, a + 1 if a is not None else None)
        else:
            return None
        return r if None not in r else None

    def tyname(self, o):
        t = self.fn_.ty(o.ty)
        return (t.get("n") or "").rsplit("::", 1)[-1]

    def pure(self, fn, env, c, name):
        """calls about byte strings"""
        if not c.args:
            return None
        self.fn_ = fn
        raw = [self.op(fn, env, a) for a in c.args]
        vals = [self.deref(env, v) for v in raw]
        b = vals[0]
        isb = isinstance(b, tuple) and b[0] == "bytes"
        if not isb:
            return None
        n = len(b[1])
        if name in ("index", "index_mut", "get") and len(vals) == 2:
            t = fn.ty(c.args[1].ty)
            if (t.get("n") or "").startswith("core::ops::range::"):
                r = self.rng(env, c.args[1], n)
                if r is None:
                    return None
                ok = 0 <= r[0] <= r[1] <= n
                if name == "get":
                    return wrap(SOME, ("rv", ("bytes", b[1][r[0]:r[1]]))) if ok else ("e", OPT, 0)
                if not ok:
                    return "never"
                if name == "index_mut":
                    k = self.refkey(env, raw[0])
                    return ("ref", k) if r == (0, n) and k else None
                return ("rv", ("bytes", b[1][r[0]:r[1]]))
            i = self.as_int(vals[1])
            if i is not None and name == "get":
                return (wrap(SOME, ("rv", b[1][i])) if b[1][i] is not None else ("e", OPT, 1)) if 0 <= i < n else ("e", OPT, 0)
            return None
        if name == "first":
            return (wrap(SOME, ("rv", b[1][0])) if b[1][0] is not None else ("e", OPT, 1)) if n else ("e", OPT, 0)
        if name == "len":
            return n
        if name == "is_empty":
            return int(not n)
        if name in ("as_slice", "as_ref", "deref", "borrow", "as_bytes", "by_ref", "as_mut", "deref_mut", "as_mut_slice") and len(vals) == 1:
            return raw[0]
        if name in ("try_into", "try_from"):
            t = fn.ty(c.dest.ty)
            return wrap(OK, b)
        if name in ("clone", "into", "from", "to_vec", "to_owned", "unwrap") and len(vals) == 1:
            return b
        if name in self.READS and len(vals) == 1 and "ByteOrder" in (c.callee.trait or "") + (c.callee.path or ""):
            w = b[1][:self.READS[name]]
            if len(w) < self.READS[name]:
                return "never"
            who = " ".join(fn.tys(g) if isinstance(g, int) else str(g) for g in (c.callee.ga or ())) + " " + (c.callee.target or "")
            if all(isinstance(x, int) for x in w) and ("LittleEndian" in who) != ("BigEndian" in who):
                return int.from_bytes(bytes(w), "little" if "LittleEndian" in who else "big")
            return ("unknown",)
        if name in ("from_be_bytes", "from_le_bytes") and len(vals) == 1:
            if all(isinstance(x, int) for x in b[1]):
                return int.from_bytes(bytes(b[1]), "big" if "_be_" in name else "little")
            return None
        if len(vals) == 2 and isinstance(vals[1], tuple) and vals[1][0] == "bytes":
            y = vals[1][1]
            if name in ("eq", "ne"):
                r = self.cmp_bytes(b[1], y)
                return None if r is None else int(r == (name == "eq"))
            if name == "starts_with":
                r = self.cmp_bytes(b[1][:len(y)], y)
                return None if r is None else int(r)
            if name == "ends_with":
                r = self.cmp_bytes(b[1][-len(y):] if y else (), y)
                return None if r is None else int(r)
        return None

    READS = {"read_u8": 1, "read_i8": 1, "read_u16": 2, "read_u24": 3, "read_u32": 4, "read_u64": 8}

    def io(self, fn, env, c, name):
        """calls that read or move the reader; a value, or None if it is not one of them"""
        pos = env.get(("#pos",))
        trait = c.callee.trait or ""
        path = c.callee.path or ""
        if name == "stream_position":
            return wrap(OK, pos) if pos is not None else ("e", RES, 0)
        if name == "rewind":
            env[("#pos",)] = 0
            return ("e", RES, 0)
        if name == "by_ref":
            return ("reader",)
        if name == "take" and "io::" in path + trait:
            n = self.as_int(self.op(fn, env, c.args[1]))
            return ("take", n)
        if name == "bytes" and len(c.args) == 1:
            t = self.deref(env, self.op(fn, env, c.args[0]))
            lim = t[1] if isinstance(t, tuple) and t[0] == "take" else -1
            return ("it", lim if lim is not None else None, None)
        if name == "chain":
            return ("reader",)
        it = self.deref(env, self.op(fn, env, c.args[0])) if c.args else None
        if isinstance(it, tuple) and it[0] == "it":
            if name == "enumerate":
                return ("it", it[1], 0)
            if name in ("into_iter", "by_ref", "iter_mut", "peekable", "fuse"):
                return it if name != "peekable" else None
            if name == "next":
                k = self.refkey(env, self.op(fn, env, c.args[0]))
                if pos is None or it[1] is None or k is None:
                    env.pop(("#pos",), None)
                    return None
                got = self.file.bytes(pos, 1) if it[1] != 0 else ()
                if not got:
                    return ("e", OPT, 0)
                env[k] = ("it", it[1] - 1 if it[1] > 0 else it[1], it[2] + 1 if it[2] is not None else None)
                env[("#pos",)] = pos + 1
                ok = wrap(OK, got[0]) if got[0] is not None else ("e", RES, 0)
                if it[2] is None:
                    return wrap(SOME, ok)
                e = {(0, ("f", 0)): it[2]}
                self.expand(e, (0, ("f", 1)), ok)
                return wrap(SOME, self.pack(e, (0,)))
            if name == "skip" and pos is not None and it[1] is not None:
                n = self.as_int(self.op(fn, env, c.args[1]))
                if n is not None:
                    got = len(self.file.bytes(pos, n if it[1] < 0 else min(n, it[1])))
                    env[("#pos",)] = pos + got
                    return ("it", max(it[1] - got, 0) if it[1] >= 0 else it[1], it[2] + got if it[2] is not None else None)
            if name in ("skip", "zip", "map", "filter", "take", "step_by", "position", "find", "any", "by_ref"):
                env.pop(("#pos",), None)
                return None
        if name == "new" and "cursor" in path.lower():
            v = self.op(fn, env, c.args[0])
            return v if isinstance(v, tuple) else None
        if name == "seek":
            k = pk(c.args[1].place) if c.args[1].kind == "p" else None
            e = {}
            v = self.full(fn, env, c.args[1])
            self.expand(e, (0,), v)
            h = e.get((0,))
            off = next((y for x, y in e.items() if len(x) > 1 and isinstance(y, int)), None)
            env.pop(("#pos",), None)
            if isinstance(h, tuple) and h[0] == "e" and off is not None:
                new = off if h[2] == 0 else None
                if h[2] == 2 and pos is not None:
                    new = pos + off
                if new is not None:
                    if new < 0:
                        return ("e", RES, 1)
                    env[("#pos",)] = new
                    return wrap(OK, new)
            return ("e", RES, 0)
        if name == "seek_relative":
            off = self.as_int(self.op(fn, env, c.args[1]))
            env.pop(("#pos",), None)
            if pos is not None and off is not None:
                env[("#pos",)] = pos + off
            return ("e", RES, 0)
        if name == "copy" and len(c.args) == 2 and "io::" in path:
            t = self.deref(env, self.op(fn, env, c.args[0]))
            tgt = self.refkey(env, self.op(fn, env, c.args[1]))
            n = t[1] if isinstance(t, tuple) and t[0] == "take" else None
            old = env.get(tgt) if tgt else None
            if n is None or pos is None or not (isinstance(old, tuple) and old[0] == "bytes"):
                env.pop(("#pos",), None)
                if tgt:
                    self.kill(env, tgt)
                return ("e", RES, 0)
            got = self.file.bytes(pos, min(n, len(old[1])))
            env[tgt] = ("bytes", got + old[1][len(got):])
            env[("#pos",)] = pos + len(got)
            return wrap(OK, len(got))
        if name == "read_to_end" and len(c.args) == 2:
            t = self.deref(env, self.op(fn, env, c.args[0]))
            n = t[1] if isinstance(t, tuple) and t[0] == "take" else None
            tgt = self.refkey(env, self.op(fn, env, c.args[1]))
            if tgt:
                self.kill(env, tgt)
            if n is None or pos is None or self.file.size is None:
                env.pop(("#pos",), None)
                return ("e", RES, 0)
            env[("#pos",)] = min(pos + n, max(self.file.size, pos))
            return wrap(OK, env[("#pos",)] - pos)
        if name in ("read_exact", "read") and len(c.args) == 2:
            tgt = self.refkey(env, self.op(fn, env, c.args[1]))
            old = env.get(tgt) if tgt else None
            if pos is None or not (isinstance(old, tuple) and old[0] == "bytes"):
                env.pop(("#pos",), None)
                if tgt:
                    self.kill(env, tgt)
                return None
            got = self.file.bytes(pos, len(old[1]))
            if name == "read_exact" and len(got) < len(old[1]):
                env.pop(("#pos",), None)
                return ("e", RES, 1)
            env[tgt] = ("bytes", got + old[1][len(got):])
            env[("#pos",)] = pos + len(got)
            return wrap(OK, len(got)) if name == "read" else ("e", RES, 0)
        if name in self.READS and "byteorder" in path + trait:
            n = self.READS[name]
            if pos is None:
                return None
            got = self.file.bytes(pos, n)
            if len(got) < n:
                env.pop(("#pos",), None)
                return ("e", RES, 1)
            env[("#pos",)] = pos + n
            if n == 1 and isinstance(got[0], int):
                return wrap(OK, got[0])
            if all(isinstance(x, int) for x in got):
                little = any("LittleEndian" in (fn.tys(g) if isinstance(g, int) else str(g)) for g in (c.callee.ga or ()))
                return wrap(OK, int.from_bytes(bytes(got), "little" if little else "big"))
            return ("e", RES, 0)
        if SYNC in (c.callee.target or "", path) and SYNC not in self.unroll:
            t = self.deref(env, self.op(fn, env, c.args[0]))
            n = t[1] if isinstance(t, tuple) and t[0] == "take" else None
            env.pop(("#pos",), None)
            if n is None or pos is None:
                return None
            b = self.file.bytes(pos, min(n, 4096))
            for i in range(len(b) - 1):
                x, y = b[i], b[i + 1]
                if not isinstance(x, int) or (x == 255 and not isinstance(y, int)):
                    return None
                if x == 255 and y >> 5 == 7:
                    env[("#pos",)] = pos + i + 2
                    return wrap(OK, wrap(SOME, i))
            env[("#pos",)] = pos + len(b)
            return wrap(OK, ("e", OPT, 0))
        return None

    def reader_arg(self, fn, c):
        for o in c.args:
            t = fn.tys(o.ty) if o.ty is not None else ""
            if "&mut " in t and ("Probe<" in t or "&mut R" in t or "Take<" in t or "&mut F" in t or "impl " in t):
                return True
        return False

    def call(self, fn, env, c, cctx):
        cal = c.callee
        if cal is None:
            env.pop(("#pos",), None)
            return super().call(fn, env, c, cctx)
        r = self.pure(fn, env, c, cal.name)
        if r is not None:
            return None if r == ("unknown",) else r
        if self.file is not None:
            before = env.get(("#pos",))
            r = self.io(fn, env, c, cal.name)
            if r is not None or env.get(("#pos",)) != before:
                return r
        if cal.name in ("or", "or_else") and len(c.args) == 2 and fn.ty(c.args[0].ty).get("n") == OPT:
            e = {}
            self.expand(e, (0,), self.full(fn, env, c.args[0]))
            h = e.get((0,))
            if isinstance(h, tuple) and h[0] == "e":
                return self.full(fn, env, c.args[0] if h[2] == 1 else c.args[1]) if h[2] == 1 or cal.name == "or" else None
        if cal.name in ("map_or", "map_or_else", "map", "and_then", "unwrap_or", "unwrap_or_default", "is_some_and", "is_ok_and", "is_none_or", "as_ref") and fn.ty(c.args[0].ty if cal.name != "as_ref" else c.dest.ty).get("n") in (OPT, RES):
            r = self.option(fn, env, c, cal.name)
            if r is not None:
                return r
        if cal.name == "extension" and "path::Path" in (cal.path or ""):
            v = self.deref(env, self.op(fn, env, c.args[0]))
            if isinstance(v, tuple) and v[0] == "str":
                last = v[1].rsplit("/", 1)[-1]
                i = last.rfind(".")
                return wrap(SOME, ("str", last[i + 1:])) if i > 0 else ("e", OPT, 0)
        if cal.name in ("to_str", "file_name") and len(c.args) == 1:
            v = self.deref(env, self.op(fn, env, c.args[0]))
            if isinstance(v, tuple) and v[0] == "str":
                return wrap(SOME, ("str", v[1].rsplit("/", 1)[-1]) if cal.name == "file_name" else v)
        if cal.name in ("le", "max_level") and (cal.trait or "").startswith("core::cmp") and "log::" in fn.tys(c.args[0].ty):
            return None
        self.pos = env.get(("#pos",))
        before = self.pos
        entered = self.prog.targets(c) and not (self.enter and not self.enter(fn, c, self.prog.targets(c)))
        old, self.entered = getattr(self, "entered", None), None
        if entered:
            self.entered = [t.id for t in self.prog.targets(c)]
        r = super().call(fn, env, c, cctx)
        self.entered = old
        if entered and cctx.get(c.bb) and all(not self.rets.get(x) and (x[0], x[1], before) in self.posmemo for x in cctx[c.bb]):
            self.pos = before
            return "never"           # every path of what is called panics
        if entered and cctx.get(c.bb):
            env.pop(("#pos",), None)
            if self.pos is not None:
                env[("#pos",)] = self.pos
        elif self.reader_arg(fn, c):
            env.pop(("#pos",), None)
        self.pos = before
        return r

    def option(self, fn, env, c, name):
        e = {}
        v = self.full(fn, env, c.args[0])
        if name == "as_ref":
            if isinstance(v, tuple) and v[0] == "ref":
                v = self.pack(env, v[1])
            elif isinstance(v, tuple) and v[0] == "rv":
                v = v[1]
        self.expand(e, (0,), v)
        h = e.get((0,))
        if not (isinstance(h, tuple) and h[0] == "e" and h[1] in (OPT, RES)):
            return None
        if h[1] == RES and name not in ("is_ok_and", "as_ref", "map", "and_then", "unwrap_or"):
            return None
        if h[1] == RES and h[2] == 1:
            return 0 if name == "is_ok_and" else h if name in ("map", "and_then", "as_ref") else None
        if h[2] == 0 and h[1] == OPT:
            if name in ("is_some_and", "is_none_or"):
                return int(name == "is_none_or")
            if name == "as_ref":
                return h
            if name in ("map_or", "unwrap_or"):
                return self.full(fn, env, c.args[1])
            return ("e", OPT, 0) if name in ("map", "and_then") else None
        inner = {x[3:]: y for x, y in e.items() if len(x) > 2 and x[1][0] == "v"}
        i2 = {}
        for x, y in inner.items():
            i2[(0,) + x] = y
        payload = self.pack(i2, (0,))
        good = SOME if h[1] == OPT else OK
        if name == "as_ref":
            return wrap(good, ("rv", payload)) if payload is not None else h
        if name in ("unwrap_or", "unwrap_or_default"):
            return payload
        g = c.args[-1]
        v = env.get(pk(g.place)) if g.kind == "p" else None
        cid = v[1] if isinstance(v, tuple) and v[0] == "clo" else None
        if g.kind == "k" and cid is None:
            cid = g.val.get("closure") or (g.val.get("res") or g.val.get("fn"))
        if cid is None:
            return None
        t = self.prog.fns.get(self.prog._cl(fn, cid))
        if t is None:
            return None
        before = self.pos
        r = self.run(t, (None, payload) if t.kind == "Closure" else (payload,))[1]
        self.pos = before
        if name == "map":
            return wrap(good, r) if r is not None else h
        return r

    def writes(self, fid, name):
        """may a function assign (or lend mutably) a field of this name?"""
        k = ("#w", fid, name)
        if k not in self.posmemo:
            r = False
            for g in self.prog.reach([fid]):
                f = self.prog.fns.get(g)
                if f is None:
                    continue
                for b in f.reachable:
                    for s in f.stmts[b]:
                        p = s.place if s.rv[0] != "ref" or not s.rv[1] else s.rv[2]
                        if any(e[0] == "f" and e[2] == name for e in p.proj):
                            r = True
                    t = f.terms[b]
                    if t[0] == "call" and any(e[0] == "f" and e[2] == name for e in t[1].dest.proj):
                        r = True
            self.posmemo[k] = r
        return self.posmemo[k]

    def clobber(self, fn, env, o):
        """keep the fields a function that was entered cannot write"""
        keep = {}
        v = env.get(pk(o.place)) if o.kind == "p" else None
        if isinstance(v, tuple) and v[0] == "ref" and getattr(self, "entered", None):
            n = len(v[1])
            t = fn.ty(o.ty)
            if t.get("k") == "ref":
                t = fn.ty(t["a"][0])
            a = self.prog.adts.get(t.get("n")) if t.get("k") == "adt" else None
            if a and not a["enum"]:
                for x, y in env.items():
                    if len(x) > n and x[:n] == v[1] and x[n][0] == "f":
                        nm = a["vs"][0]["f"][x[n][1]][0]
                        if not any(self.writes(g, nm) for g in self.entered):
                            keep[x] = y
        super().clobber(fn, env, o)
        env.update(keep)

    def argval(self, env, v, fn=None, o=None):
        w = self.deref(env, v)
        if isinstance(w, tuple) and w[0] in ("bytes", "take", "it"):
            return ("rv", w) if isinstance(v, tuple) and v[0] in ("ref", "rv") else w
        return super().argval(env, v, fn, o)
