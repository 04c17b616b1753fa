"""Where is the reader? Symbolic positions, followed through a function and the functions it hands the reader to.

A position is a symbol: 'E' (where the reader was on entry), 'Z' (offset 0), ('S', n) (read with stream_position(), or returned by
seek(), at block n), ('A', i) (a position handed in by the caller), or 'M' (unknown). Values which are such a position carry it, so a
seek to SeekFrom::Start(p) puts the reader at p again. Variants of Option/Result/bool values are followed as well, so an exit
can be told apart by what it returns. States are kept apart per path (a set of states per block)."""
from sa.common import *
from sa.mir import rv_ops, rv_places

CAP = 6000
KEEP = {"branch", "map_err", "from_output", "into", "from", "clone", "by_ref", "map_or"}
NOMOVE_IO = {"stream_position", "flush", "get_ref", "len", "fmt", "buffer"}


def read_like(fn, t):
    """may this type hold the reader? (anything but plain data)"""
    t = strip(fn, t)
    return t.get("k") in ("param", "dyn", "adt", "closure", "alias", "tuple")


def mapv(v, f):
    """apply f to every position in a value; f returning None forgets it"""
    if v is None:
        return None
    k = v[0]
    if k == "P":
        return f(v)
    if k == "D":
        return None
    if k in ("R", "ref"):
        x = mapv(v[1], f)
        return (k, x) if x is not None else None
    if k == "V":
        return ("V", v[1], tuple(mapv(x, f) for x in v[2]))
    if k == "T":
        return ("T", tuple(mapv(x, f) for x in v[1]))
    return v


def clip(v, n):
    """forget what lies deeper than n levels inside a value"""
    if v is None or v[0] not in ("V", "T", "R", "ref"):
        return v
    if n == 0:
        return ("V", v[1], ()) if v[0] == "V" else None
    if v[0] in ("R", "ref"):
        x = clip(v[1], n if v[0] == "ref" else n - 1)
        return (v[0], x) if x is not None else None
    if v[0] == "V":
        return ("V", v[1], tuple(clip(x, n - 1) for x in v[2]))
    return ("T", tuple(clip(x, n - 1) for x in v[1]))


def liveness(fn):
    """block -> locals whose value (or something reached through it) may still be read"""
    li = getattr(fn, "_live_in", None)
    if li is not None:
        return li
    use, df = {}, {}
    for b in fn.reachable:
        u, d = set(), set()

        def rd(p):
            if p.local not in d:
                u.add(p.local)
            for e in p.proj:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])
        for s in fn.stmts[b]:
            for o in rv_ops(s.rv):
                if o.kind == "p":
                    rd(o.place)
            for p in rv_places(s.rv):
                rd(p)
            if s.place.bare:
                d.add(s.place.local)
            else:
                rd(s.place)
        t = fn.terms[b]
        if t[0] == "switch" and t[1].kind == "p":
            rd(t[1].place)
        elif t[0] == "call":
            for a in t[1].args:
                if a.kind == "p":
                    rd(a.place)
            if t[1].dest.bare:
                d.add(t[1].dest.local)
            else:
                rd(t[1].dest)
        elif t[0] == "return":
            if 0 not in d:
                u.add(0)
        elif t[0] == "assert" and t[1].kind == "p":
            rd(t[1].place)
        use[b], df[b] = u, d
    # a local whose address is taken stays live while the reference is: approximate by keeping it always
    taken = {s.rv[2].local for b in fn.reachable for s in fn.stmts[b] if s.rv[0] == "ref"}
    discr = {}
    for b in fn.reachable:
        for s in fn.stmts[b]:
            if s.rv[0] == "discr":
                discr.setdefault(s.place.local, set()).add(s.rv[1].local)
    li = {b: set(use[b]) for b in fn.reachable}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.rpo):
            n = set(use[b])
            for x in fn.succs(b):
                if x in li:
                    n |= li[x] - df[b]
            if n != li[b]:
                li[b] = n
                ch = True
    del taken, discr
    fn._live_in = li
    return li


class Pos:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.log = {}       # (fid, ctx) -> list of (call, pos)

    # ---- aliases of the reader ----
    def aliases(self, fn, local):
        """locals which are (or hold, or borrow from) the reader"""
        out = {local}
        ch = True
        while ch:
            ch = False
            for b in fn.reachable:
                for s in fn.stmts[b]:
                    if s.place.local in out:
                        continue
                    rv = s.rv
                    src = [o.place for o in rv_ops(rv) if o.kind == "p"]
                    if rv[0] == "ref" or rv[0] == "rawptr":
                        src.append(rv[2] if rv[0] == "ref" else rv[1])
                    if rv[0] not in ("use", "ref", "cast", "agg", "rawptr"):
                        continue
                    for p in src:
                        if p.local in out and self.carries(fn, p, local):
                            out.add(s.place.local)
                            ch = True
                            break
                t = fn.terms[b]
                if t[0] == "call":
                    c = t[1]
                    if c.dest.local in out or c.dest.local == 0 and not c.dest.bare:
                        continue
                    if any(a.kind == "p" and a.place.local in out and self.carries(fn, a.place, local) for a in c.args) and \
                            self.holds_ref(fn, fn.ty(c.dest.ty)):
                        out.add(c.dest.local)
                        ch = True
        return out

    def holds_ref(self, fn, t, depth=0):
        """could a value of this type (returned by a call) still give access to the reader?"""
        k = t.get("k")
        if k in ("ref", "ptr"):
            return self.holds_obj(fn, strip(fn, t))
        if k in ("param", "dyn", "alias"):
            return True
        if k == "adt":
            if t["n"].endswith("::Result") or t["n"].endswith("::Option") or t["n"].endswith("::ControlFlow"):
                return depth < 4 and any(self.holds_ref(fn, fn.ty(a), depth + 1) for a in t.get("a", []) if isinstance(a, int))
            return depth < 4 and any(self.holds_ref(fn, fn.ty(a), depth + 1) for a in t.get("a", []) if isinstance(a, int)) or \
                t["n"].endswith(("VerifiedFile", "FileSource", "fs::File"))
        return False

    def holds_obj(self, fn, t):
        return t.get("k") in ("param", "dyn", "alias", "adt", "closure")

    def carries(self, fn, p, local):
        """does the operand place (rooted at an alias) still mean the reader? plain data read out of a struct does not"""
        t = strip(fn, fn.ty(p.ty))
        return t.get("k") in ("param", "dyn", "adt", "closure", "alias", "tuple") and not (
            t.get("k") == "adt" and p.proj and t["n"].startswith(("core::option", "alloc::string", "alloc::vec", "core::result")) and
            not self.holds_ref(fn, t))

    # ---- running ----
    def run(self, fn, local, args=(), pos="E"):
        """-> frozenset of (pos, return value) over all normal exits. args: ((param, value), ...)"""
        key = (fn.id, local, args, pos)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset({("M", None)})      # recursion
        r = self._run(fn, local, args, pos, key)
        self.memo[key] = r
        return r

    def _run(self, fn, local, args, pos, key):
        al = self.aliases(fn, local)
        live_in = liveness(fn)
        env0 = tuple(sorted(((p, v) for p, v in args), key=repr))
        start = (0, pos, env0)
        seen = {start}
        work = [start]
        exits = set()
        log = self.log.setdefault(key, [])
        n = 0
        while work:
            n += 1
            if n > CAP:
                exits.add(("M", None))
                break
            b, ps, envt = work.pop()
            env = dict(envt)
            for s in fn.stmts[b]:
                self.stmt(fn, env, s)
            t = fn.terms[b]
            k = t[0]
            nxt = []
            if k == "return":
                exits.add((ps, self.canon(env.get((0,)) or env.get(0))))
                continue
            if k == "switch":
                nxt = self.switch(fn, env, t, ps)
            elif k == "call":
                c = t[1]
                if c.target is None:
                    continue
                for np, val in self.call(fn, env, c, ps, al, log):
                    e2 = dict(env)
                    self.kill(e2, c.dest)
                    for a in c.args:
                        if a.kind == "p":
                            # a callee given a mutable reference may change what it refers to
                            self.clob(fn, e2, a)
                    if val is not None and c.dest.bare:
                        e2[c.dest.local] = val
                    if isinstance(np, tuple) and np[0] == "S" and (val == ("R", ("P", np))):
                        # a fresh name: forget old values of the same name
                        for kx in [kx for kx, v in env.items() if self.mentions(v, np) and ps != np]:
                            if kx != c.dest.local:
                                e2.pop(kx, None)
                    nxt.append((c.target, np, e2))
            else:
                for x in fn.succs(b):
                    if not fn.cleanup[x]:
                        nxt.append((x, ps, env))
            for x, np, e in nxt:
                lv = live_in[x]
                e = {kx: v for kx, v in e.items() if kx in lv}
                st = (x, np, tuple(sorted(e.items(), key=repr)))
                if st not in seen:
                    seen.add(st)
                    work.append(st)
        return frozenset(exits)

    def mentions(self, v, sym):
        return isinstance(v, tuple) and (v == sym or any(self.mentions(x, sym) for x in v))

    def canon(self, v):
        return v

    def kill(self, env, p):
        if p.bare:
            env.pop(p.local, None)
        elif p.local in env and not (p.proj and p.proj[0][0] == "d"):
            env.pop(p.local, None)

    def clob(self, fn, env, a):
        t = fn.ty(a.ty) if a.ty is not None else {}
        if t.get("k") == "ref":
            D = self.refs(fn)
            for l in D.get(a.place.local, ()):
                env.pop(l, None)

    def refs(self, fn):
        d = getattr(fn, "_mutrefs", None)
        if d is None:
            d = {}
            for b in fn.reachable:
                for s in fn.stmts[b]:
                    if s.rv[0] == "ref" and s.rv[1]:
                        d.setdefault(s.place.local, set()).add(s.rv[2].local)
            # through reborrows and moves
            ch = True
            while ch:
                ch = False
                for b in fn.reachable:
                    for s in fn.stmts[b]:
                        src = None
                        if s.rv[0] == "ref" and s.rv[2].proj:
                            src = s.rv[2].local
                        elif s.rv[0] == "use" and s.rv[1].kind == "p":
                            src = s.rv[1].place.local
                        if src in d and not d[src] <= d.setdefault(s.place.local, set()):
                            d[s.place.local] |= d[src]
                            ch = True
            fn._mutrefs = d
        return d

    # ---- values ----
    def read(self, env, p):
        v = env.get(p.local)
        for e in p.proj:
            if v is None:
                return None
            if e[0] == "d":
                if v[0] == "ref":
                    v = v[1]
                continue
            if e[0] == "v":
                if v[0] == "V":
                    if v[1] != e[1]:
                        return None
                    continue
                if v[0] == "R":
                    if e[1] != 0:
                        return None
                    v = ("V", 0, (v[1],))
                    continue
                return None
            if e[0] == "f":
                if v[0] in ("V", "T") and e[1] < len(v[-1]):
                    v = v[-1][e[1]]
                    continue
                return None
            return None
        return v

    def op(self, fn, env, o):
        if o.kind == "p":
            return self.read(env, o.place)
        if o.kind == "k":
            if o.int is not None:
                return ("I", o.int)
            v = o.val
            if isinstance(v, dict) and v.get("adt"):
                a = self.prog.adts.get(v["adt"])
                if a:
                    for i, x in enumerate(a["vs"]):
                        if x.get("n") == v.get("v"):
                            return ("V", i, ())
        return None

    def stmt(self, fn, env, s):
        rv = s.rv
        k = rv[0]
        val = None
        if k == "use":
            val = self.op(fn, env, rv[1])
        elif k == "cast":
            val = self.op(fn, env, rv[2])
            if val is not None and val[0] not in ("P", "I"):
                val = None
        elif k == "ref":
            if not rv[1]:
                v = self.read(env, rv[2])
                val = ("ref", v) if v is not None else None
        elif k == "agg":
            h, ops = rv[1], rv[2]
            vals = tuple(self.op(fn, env, o) for o in ops)
            if h[0] == "adt":
                a = self.prog.adts.get(h[1])
                val = ("V", h[2], vals)
            elif h[0] == "tuple":
                val = ("T", vals)
        elif k == "discr":
            v = self.read(env, rv[1])
            if v is not None and v[0] == "V":
                val = ("I", v[1])
            elif rv[1].bare:
                val = ("D", rv[1].local)
        elif k == "un" and rv[1] == "Not":
            v = self.op(fn, env, rv[2])
            if v and v[0] == "I":
                val = ("I", 1 - v[1]) if v[1] in (0, 1) else None
        p = s.place
        if p.bare:
            env.pop(p.local, None)
            if val is not None:
                env[p.local] = clip(val, 4)
            # discriminants remembered of the old value
            for kx in [kx for kx, v in env.items() if v == ("D", p.local)]:
                env.pop(kx)
        else:
            old = env.get(p.local)
            if old is not None and old[0] in ("V", "T") and len(p.proj) == 1 and p.proj[0][0] == "f" and p.proj[0][1] < len(old[-1]):
                f = list(old[-1])
                f[p.proj[0][1]] = val
                env[p.local] = old[:-1] + (tuple(f),)
            else:
                self.kill(env, p)

    def switch(self, fn, env, t, ps):
        o = t[1]
        v = self.op(fn, env, o)
        out = []
        if v is not None and v[0] == "I":
            m = [x for vv, x in t[2] if vv == v[1]]
            return [(m[0] if m else t[3], ps, env)]
        arms = [(vv, x) for vv, x in t[2]] + [(None, t[3])]
        for vv, x in arms:
            if fn.terms[x][0] == "unreachable" and not fn.stmts[x]:
                continue
            e = dict(env)
            if v is not None and v[0] == "D" and vv is None and len(t[2]) == 1 and t[2][0][0] in (0, 1):
                lt = fn.local_ty(v[1])
                if lt.get("k") == "adt" and lt["n"] in ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"):
                    vv = 1 - t[2][0][0]
            if v is not None and v[0] == "D" and vv is not None:
                cur = e.get(v[1])
                if cur is None:
                    e[v[1]] = ("V", vv, ())
                elif cur[0] == "R":
                    e[v[1]] = ("V", 0, (cur[1],)) if vv == 0 else ("V", vv, ())
            elif v is None and o.kind == "p" and o.place.bare:
                if vv is not None:
                    e[o.place.local] = ("I", vv)
                elif len(t[2]) == 1 and t[2][0][0] in (0, 1) and fn.local_ty(o.place.local).get("k") == "bool":
                    e[o.place.local] = ("I", 1 - t[2][0][0])
            out.append((x, ps, e))
        return out

    # ---- calls ----
    def call(self, fn, env, c, ps, al, log):
        """-> [(position after, value)]"""
        cal = c.callee
        nm = cal.name if cal else None
        vals = [self.op(fn, env, a) for a in c.args]
        hit = [i for i, a in enumerate(c.args) if a.kind == "p" and a.place.local in al and self.carries(fn, a.place, None)]
        if not hit:
            return [(ps, self.pure(fn, env, c, nm, vals))]
        log.append((c, ps))
        if cal is None:
            return [("M", None)]
        if cal.trait in SEEK_TRAITS and nm in ("seek", "rewind", "stream_position", "seek_relative", "stream_len"):
            fresh = ("S", c.bb) if ps not in ("T", "Z0") else "T"
            if nm == "stream_position":
                if ps in ("T", "Z0"):
                    return [(ps, None)]
                if ps == "M":
                    return [(fresh, ("R", ("P", fresh)))]
                return [(ps, ("R", ("P", ps)))]
            if nm == "rewind":
                return [("Z0" if ps in ("T", "Z0") else "Z", None)]
            if nm == "seek":
                a = vals[1] if len(vals) > 1 else None
                if a is not None and a[0] == "V" and a[2]:
                    vi, x = a[1], a[2][0]
                    name = self.seek_variant(vi)
                    if name == "Start":
                        if x is not None and x[0] == "P":
                            return [(x[1], ("R", x))]
                        if x == ("I", 0):
                            return [("Z0" if ps in ("T", "Z0") else "Z", None)]
                    if name == "Current" and x == ("I", 0):
                        if ps == "M":
                            return [(fresh, ("R", ("P", fresh)))]
                        return [(ps, ("R", ("P", ps)))]
                return [(fresh, ("R", ("P", fresh)) if fresh != "T" else None)]
            if nm == "stream_len":
                return [(ps, None)]
            return [("M", None)]
        if nm in ("by_ref", "deref", "deref_mut", "as_mut", "as_ref", "borrow_mut", "take", "bytes", "chars", "chain", "into_inner", "get_mut",
                  "get_ref", "new", "rfind", "into_iter", "enumerate", "iter", "lines") and (cal.target not in self.prog.fns):
            return [(ps, None)]
        if cal.trait in TRUNC_TRAITS:
            # T: emptied, but positioned elsewhere. Z0: emptied and at the beginning
            if len(vals) > 1 and vals[1] == ("I", 0):
                return [("Z0" if ps in ("Z", "Z0") else "T", None)]
            return [(ps, None)]
        if cal.trait in LEN_TRAITS or nm in NOMOVE_IO and cal.target not in self.prog.fns:
            return [(ps, None)]
        if nm in ("branch", "map_err", "from_residual", "into", "from", "fmt", "clone", "as_str") and cal.target not in self.prog.fns:
            return [(ps, self.pure(fn, env, c, nm, vals))]
        if all(fn.ty(c.args[i].ty).get("k") == "ref" and not fn.ty(c.args[i].ty)["s"].startswith("&mut") for i in hit) and \
                cal.trait not in READ_TRAITS | SEEK_TRAITS | WRITE_TRAITS:
            return [(ps, None)]
        ts = self.prog.targets(c)
        if len(ts) == 1 and ts[0].id == cal.target and ts[0].kind != "Closure" and len(hit) == 1:
            g = ts[0]
            sub = {}

            def tr1(v):
                if v[1] == ps and ps != "M":
                    return ("P", "E")
                if v[1] == "Z":
                    return v
                sub.setdefault(v[1], ("A", len(sub)))
                return ("P", sub[v[1]])

            def tr(v):
                return mapv(v, tr1)
            args = tuple((i + 1, tr(v)) for i, v in enumerate(vals) if v is not None and i != hit[0] and i < g.argc and tr(v) is not None)
            inv = {v: k for k, v in sub.items()}
            out = set()

            def back_pos(p):
                if p == "E":
                    return ps
                if p in inv:
                    return inv[p]
                if p == "Z":
                    return "Z"
                return "M"

            def back1(v):
                q = back_pos(v[1])
                return ("P", q) if q != "M" else None

            def back(v):
                return mapv(v, back1)
            for p, v in self.run(g, hit[0] + 1, args):
                out.add((back_pos(p), back(v)))
            return sorted(out, key=repr)[:40] if len(out) <= 40 else [("M", None)]
        return [("M", None)]

    def seek_variant(self, vi):
        return ["Start", "End", "Current"][vi] if vi < 3 else None

    def pure(self, fn, env, c, nm, vals):
        cal = c.callee
        v = vals[0] if vals else None
        if cal is None:
            return None
        ext = cal.target not in self.prog.fns
        if nm == "from_residual":
            t = fn.ty(c.dest.ty)
            if t.get("n") == "core::result::Result":
                return ("V", 1, ())
            if t.get("n") == "core::option::Option":
                return ("V", 0, ())
            return None
        if v is None:
            return None
        if v[0] == "ref" and nm in ("clone",):
            return v[1]
        if nm == "branch" and ext:
            t = fn.ty(c.args[0].ty)
            if t.get("n") == "core::result::Result":
                return v if v[0] in ("V", "R") else None
            if t.get("n") == "core::option::Option" and v[0] == "V":
                return ("V", 0, v[2]) if v[1] == 1 else ("V", 1, ())
            return None
        if nm == "map_err" and ext and v[0] in ("R", "V"):
            return v if v[0] == "R" or v[1] == 0 else ("V", 1, ())
        if nm in ("into", "from", "clone") and ext and v[0] in ("P",):
            return v
        if nm == "is_some" and v[0] == "ref" and v[1][0] == "V":
            return ("I", v[1][1])
        if nm == "is_none" and v[0] == "ref" and v[1][0] == "V":
            return ("I", 1 - v[1][1])
        return None
