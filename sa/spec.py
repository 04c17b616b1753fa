"""Conditional constant propagation (SCCP) with assumptions on configuration values.

An assumption fixes, by type, every value of a configuration enum (`{"config::…::ParsingMode": 2}`)
and every read of a configuration field (`{("config::…::ParseOptions", "read_tags"): 0}`).
The analysis computes which blocks of each function can still run, following calls with the constant
arguments they are given (per-context), and the constants functions return."""
import re


def pk(p):
    return (p.local,) + tuple(("f", e[1]) if e[0] == "f" else e for e in p.proj)


class Spec:
    def __init__(self, prog, enums=None, fields=None, calls=None, enter=None, deep=False, strings=False):
        self.strings = strings       # follow constant strings
        self.tabs = []
        self.tabno = {}
        self.asserts = False         # follow assertions known to fail
        self.deep = deep             # follow parts of structured values through calls
        self.prog = prog
        self.enums = enums or {}
        self.fields = fields or {}
        self.calls = calls or {}     # callee path -> constant result
        self.enter = enter
        self.memo = {}
        self.stack = []
        self.edges = {}
        self.obs = {}        # (fn id, args) -> {block: argument values of its call}

    # -- types
    def adt(self, fn, ti):
        t = fn.ty(ti)
        while t.get("k") == "ref":
            t = fn.ty(t["a"][0])
        return t.get("n") if t.get("k") == "adt" else None

    def enum_const(self, fn, ti):
        n = self.adt(fn, ti)
        return self.enums.get(n)

    def field_assume(self, fn, p):
        """value assumed for a place that ends with a configuration field"""
        if not self.fields or not p.proj:
            return None
        last = p.proj[-1]
        if last[0] != "f":
            return None
        for (adt, fname), v in self.fields.items():
            if last[2] == fname and self.base_adt(fn, p) == adt:
                return v
        return None

    def base_adt(self, fn, p):
        """ADT of the value whose field the last projection selects"""
        t = fn.local_ty(p.local)
        for e in p.proj[:-1]:
            t = self.proj_ty(fn, t, e)
            if t is None:
                return None
        while t and t.get("k") == "ref":
            t = fn.ty(t["a"][0])
        return t.get("n") if t and t.get("k") == "adt" else None

    def proj_ty(self, fn, t, e):
        if e[0] == "d":
            if t.get("k") in ("ref", "ptr"):
                return fn.ty(t["a"][0])
            if t.get("k") == "adt" and t.get("a"):
                return fn.ty(t["a"][0])
            return None
        if e[0] == "v":
            return t
        if e[0] == "f":
            if t.get("k") == "adt":
                a = self.prog.adts.get(t["n"])
                if a and not a["enum"]:
                    try:
                        ft = a["vs"][0]["f"][e[1]]
                        return a["crate"].tys[ft[1]]
                    except (IndexError, KeyError, TypeError):
                        return None
            if t.get("k") == "tuple":
                try:
                    return fn.ty(t["a"][e[1]])
                except (IndexError, KeyError):
                    return None
        return None

    # -- evaluation
    def op(self, fn, env, o):
        if o.kind == "k":
            n = o.int
            if n is not None:
                return n
            v = o.val
            if self.strings:
                if "s" in v:
                    return ("str", v["s"])
                w = v
                while "ref" in w and isinstance(w["ref"], dict):
                    w = w["ref"]
                if "arr" in w and len(w["arr"]) <= 64 and all("adt" in x and not x.get("fs") for x in w["arr"]):
                    return ("arr", tuple(("e", x["adt"], x["v"]) for x in w["arr"]))
                if w.get("arr") and len(w["arr"]) <= 64 and all("s" in x for x in w["arr"]):
                    return ("arr", tuple(("str", x["s"]) for x in w["arr"]))
            t = self.table(v)
            if t is not None:
                return t
            if "promoted" in v:
                return self.promoted(fn, v["promoted"])
            if "adt" in v and v.get("adt") in self.enums:
                return ("e", v["adt"], v["v"])
            if "ref" in v:
                return self.constref(v["ref"])
            if "adt" in v:
                return ("e", v["adt"], v["v"])
            return None
        if o.kind == "p":
            return self.place(fn, env, o.place)
        return None

    def table(self, v):
        """a constant array of numbers, or a reference to one"""
        if "arr" in v:
            x = v["arr"]
            while x and "arr" in x[0]:
                x = x[0]["arr"]
            if x and "i" in x[0]:
                return self.tab(v["arr"])
        elif isinstance(v.get("ref"), dict):
            x = self.table(v["ref"])
            return ("rv", x) if x is not None else None
        return None

    def tab(self, t):
        if id(t) not in self.tabno:
            self.tabno[id(t)] = len(self.tabs)
            self.tabs.append(t)
        return ("tab", self.tabno[id(t)])

    def index(self, fn, env, k):
        """element of a constant table"""
        for n in range(1, len(k)):
            if k[n][0] not in ("i", "c"):
                continue
            base = k[:n]
            v = env.get(base)
            if v is None and base[-1] == ("d",):
                v = env.get(base[:-1])
                v = v[1] if isinstance(v, tuple) and v[0] == "rv" else env.get(v[1]) if isinstance(v, tuple) and v[0] == "ref" else None
            if not (isinstance(v, tuple) and v[0] == "tab"):
                return None
            t = self.tabs[v[1]]
            for e in k[n:]:
                i = self.as_int(env.get((e[1],))) if e[0] == "i" else e[1] if e[0] == "c" and not e[3] else None
                if i is None or not isinstance(t, list) or not 0 <= i < len(t):
                    return None
                t = t[i]
                t = t.get("arr", t)
            if isinstance(t, list):
                return self.tab(t)
            return int(t["i"]) if "i" in t else None
        return None

    def promoted(self, fn, i):
        key = ("promoted", fn.id, i)
        if key not in self.memo:
            val = None
            if i < len(fn.promoted):
                pf = fn.promoted[i]
                env = {}
                b = 0
                for _ in range(20):
                    for s in pf.stmts[b]:
                        self.stmt(pf, env, s)
                    t = pf.terms[b]
                    if t[0] == "return":
                        v = env.get((0,))
                        if isinstance(v, tuple) and v[0] == "rv":
                            val = v
                        elif isinstance(v, tuple) and v[0] == "ref":
                            x = env.get(v[1])
                            val = ("rv", x) if x is not None else None
                        break
                    n = pf.succs(b)
                    if len(n) != 1 or t[0] == "call":
                        break
                    b = n[0]
            self.memo[key] = val
        return self.memo[key]

    def constref(self, v):
        if self.strings and "s" in v:
            return ("str", v["s"])
        if "i" in v:
            return ("rv", int(v["i"]))
        if "adt" in v:
            return ("rv", ("e", v["adt"], v["v"]))
        if "ref" in v:
            x = self.constref(v["ref"])
            return ("rv", x) if x is not None else None
        return None

    def place(self, fn, env, p):
        k = pk(p)
        v = env.get(k)
        if v is not None:
            return v
        a = self.field_assume(fn, p)
        if a is not None:
            return a
        v = self.index(fn, env, k)
        if v is not None:
            return v
        t = fn.ty(p.ty)
        if t.get("k") == "adt" and t.get("n") in self.enums:
            return ("e", t["n"], self.enums[t["n"]])
        # through references
        for n in range(len(k) - 1, 0, -1):
            if k[n][0] == "d":
                r = env.get(k[:n])
                if isinstance(r, tuple) and r[0] == "ref":
                    k2 = r[1] + k[n + 1:]
                    v = env.get(k2)
                    if v is not None:
                        return v
                    break
                if isinstance(r, tuple) and r[0] == "rv" and n == len(k) - 1:
                    return r[1]
        return None

    def value_of_ref(self, fn, env, v, ti):
        """integer / enum constant an (auto-ref'd) comparison argument stands for"""
        n = 0
        while isinstance(v, tuple) and v[0] in ("ref", "rv") and n < 4:
            v = env.get(v[1]) if v[0] == "ref" else v[1]
            n += 1
        if v is None:
            e = self.enum_const(fn, ti)
            if e is not None:
                return ("e", self.adt(fn, ti), e)
        return v

    def disc(self, adt, vi):
        a = self.prog.adts.get(adt)
        if a and a["enum"]:
            try:
                return int(a["vs"][vi]["d"].split(" ")[0])
            except (ValueError, IndexError):
                return vi
        return vi

    def as_int(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, tuple) and v[0] == "e":
            return self.disc(v[1], v[2])
        return None

    def run(self, fn, args=()):
        """-> (reachable blocks, return constant or None, {block: call-context key})"""
        ck = (fn.id, args)
        r = self.memo.get(ck)
        if r is not None:
            return r
        if ck in self.stack or len(self.stack) > 60:
            return (set(fn.reachable), None, {})
        self.stack.append(ck)
        try:
            r = self._run(fn, args)
        finally:
            self.stack.pop()
        self.memo[ck] = r
        return r

    def _run(self, fn, args):
        ins = {0: self.start(fn, args)}
        for i, a in enumerate(args):
            self.expand(ins[0], (i + 1,), a)
        work = [0]
        live = set()
        ret = []
        retv = {}
        cctx = {}
        order = {b: i for i, b in enumerate(fn.rpo)}
        edges = {}
        self.edges[(fn.id, args)] = edges
        while work:
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            live.add(b)
            env = dict(ins[b])
            nxt = self.step(fn, args, b, env, cctx)
            if nxt is None:
                retv[b] = self.pack(env, (0,))
                self.at_return(fn, args, b, env)
                continue
            edges[b] = set(nxt)
            for x in nxt:
                old = ins.get(x)
                if old is None:
                    ins[x] = dict(env)
                    work.append(x)
                else:
                    new = self.join(old, env)
                    if new != old:
                        ins[x] = new
                        if x not in work:
                            work.append(x)
                    elif x not in live and x not in work:
                        work.append(x)
        rv = None
        if retv:
            es = []
            for v in retv.values():
                e = {}
                self.expand(e, (0,), v)
                es.append(e)
            e = es[0]
            for x in es[1:]:
                e = self.join(e, x)
            e = {k: v for k, v in e.items() if not (isinstance(v, tuple) and v[0] == "ref")}
            rv = self.pack(e, (0,))
        return (live, rv, cctx)

    def step(self, fn, args, b, env, cctx):
        """run a block on an environment: its successors, None at a return"""
        for s in fn.stmts[b]:
            self.stmt(fn, env, s)
        t = fn.terms[b]
        k = t[0]
        if k == "return":
            return None
        if k == "switch":
            v = self.as_int(self.op(fn, env, t[1]))
            if v is not None:
                ty = fn.ty(t[1].ty)
                if v < 0 and ty.get("bits"):
                    v += 1 << ty["bits"]
                m = [x for vv, x in t[2] if vv == v]
                return [m[0] if m else t[3]]
            return [x for vv, x in t[2]] + [t[3]]
        if k == "call":
            c = t[1]
            self.obs.setdefault((fn.id, args), {})[b] = tuple(self.full(fn, env, a) for a in c.args)
            v = self.call(fn, env, c, cctx)
            self.kill(env, pk(c.dest))
            self.expand(env, pk(c.dest), v)
            return [] if v == "never" or c.target is None else [c.target]
        if k == "assert" and self.asserts and self.as_int(self.op(fn, env, t[1])) == int(not t[2]):
            return []             # panics
        return list(fn.succs(b))

    def start(self, fn, args):
        return {}

    def at_return(self, fn, args, b, env):
        pass

    # -- structured values: ("s", head, ((subpath, value), …))
    def pack(self, env, k):
        if not self.deep:
            return env.get(k)
        n = len(k)
        subs = tuple(sorted(((x[n:], y) for x, y in env.items() if len(x) > n and x[:n] == k and not (isinstance(y, tuple) and y[0] == "ref")), key=repr))
        h = env.get(k)
        if not subs:
            return h
        if len(subs) > 40:
            return h
        return ("s", h, subs)

    def expand(self, env, k, v):
        if v is None:
            return
        if isinstance(v, tuple) and v[0] == "s":
            if v[1] is not None:
                env[k] = v[1]
            for x, y in v[2]:
                env[k + x] = y
        else:
            env[k] = v
            if isinstance(v, tuple) and v[0] == "rv" and isinstance(v[1], tuple) and v[1][0] == "s":
                self.expand(env, k + (("d",),), v[1])

    def join(self, a, b):
        out = {}
        for x, y in a.items():
            if b.get(x) == y:
                out[x] = y
            elif x not in b and self.other_variant(b, x):
                out[x] = y
        for x, y in b.items():
            if x not in a and self.other_variant(a, x):
                out[x] = y
        return out

    def other_variant(self, env, x):
        """does env say the enum holding x is in another variant?"""
        for n in range(len(x) - 1, 0, -1):
            if isinstance(x[n], tuple) and x[n][0] == "v":
                h = env.get(x[:n])
                if isinstance(h, tuple) and h[0] == "e" and h[2] != x[n][1]:
                    return True
        return False

    def const_fields(self, v):
        """subvalues of a constant struct"""
        out = {}
        if not isinstance(v, dict) or "adt" not in v:
            return out
        a = self.prog.adts.get(v["adt"])
        fs = v.get("fs") or []
        pre = ()
        if (a and a["enum"]) or v["adt"] in ("core::option::Option", "core::result::Result"):
            pre = (("v", v.get("v", 0), v.get("vn")),)
            out[()] = ("e", v["adt"], v.get("v", 0))
        names = None
        if a:
            try:
                names = [f[0] for f in a["vs"][v.get("v", 0)]["f"]]
            except (IndexError, KeyError):
                pass
        for i, x in enumerate(fs):
            p = pre + (("f", i),)
            if isinstance(x, dict):
                if "i" in x:
                    out[p] = int(x["i"])
                elif "adt" in x:
                    for q, y in self.const_fields(x).items():
                        out[p + q] = y
        return out

    def kill(self, env, k):
        n = len(k)
        for x in [x for x in env if x[:n] == k]:
            del env[x]

    def int_ty(self, fn, ti):
        """(bits, signed) of an integer type"""
        m = re.fullmatch(r"([ui])(8|16|32|64|128|size)", fn.tys(ti)) if ti is not None else None
        return (64 if m[2] == "size" else int(m[2]), m[1] == "i") if m else None

    def bits(self, op, a, b, t):
        """known bits of an unsigned value: ("kb", mask of the known bits, their value)"""
        if t is None or t[1] or (not isinstance(a, (int, tuple))) or (not isinstance(b, (int, tuple))):
            return None
        full = (1 << t[0]) - 1
        kb = lambda x: (full, x & full) if isinstance(x, int) else x[1:] if x[0] == "kb" else None
        x, y = kb(a), kb(b)
        if x is None or y is None:
            return None
        if op == "BitAnd":
            m = (x[0] & y[0]) | (x[0] & ~x[1]) | (y[0] & ~y[1])
            v = x[1] & y[1]
        elif op == "BitOr":
            m = (x[0] & y[0]) | (x[0] & x[1]) | (y[0] & y[1])
            v = x[1] | y[1]
        elif y[0] != full or y[1] >= t[0]:
            return None
        elif op.startswith("Shr"):
            m = x[0] >> y[1] | full & ~(full >> y[1])
            v = x[1] >> y[1]
        else:
            m = x[0] << y[1] & full | (1 << y[1]) - 1
            v = x[1] << y[1] & full
        m &= full
        return v & m if m == full else ("kb", m, v & m) if m else None

    @staticmethod
    def wrap(v, t):
        v &= (1 << t[0]) - 1
        return v - (1 << t[0]) if t[1] and v >> (t[0] - 1) else v

    def stmt(self, fn, env, s):
        rv = s.rv
        k = rv[0]
        d = pk(s.place)
        v = None
        subs = {}
        if k == "use":
            v = self.op(fn, env, rv[1])
            if rv[1].kind == "p":
                src = pk(rv[1].place)
                subs = {x[len(src):]: y for x, y in env.items() if x[:len(src)] == src and len(x) > len(src)}
            elif rv[1].kind == "k" and "adt" in rv[1].val:
                subs = self.const_fields(rv[1].val)
                if () in subs:
                    v = subs.pop(())
        elif k == "ref":
            p = rv[2]
            if p.proj and p.proj[-1][0] == "d":
                # reborrow
                inner = env.get(pk(p)[:-1])
                v = inner if isinstance(inner, tuple) else None
                if v is None:
                    x = self.place(fn, env, p)
                    v = ("rv", x) if x is not None else None
            else:
                v = ("ref", pk(p))
                if rv[1] and env.get(pk(p)) == ("e", "#vec", 0):
                    del env[pk(p)]       # may be filled through the reference
                a = self.place(fn, env, p)
                if a is not None and not rv[1]:
                    v = ("rv", a)
        elif k == "discr":
            x = self.place(fn, env, rv[1])
            v = self.as_int(x) if not isinstance(x, int) else x
            if v is None:
                dv = env.get(pk(rv[1]) + ("#d",))
                v = dv
        elif k == "bin":
            a = self.as_int(self.op(fn, env, rv[2]))
            b = self.as_int(self.op(fn, env, rv[3]))
            op = rv[1]
            if a is not None and b is not None:
                f = {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}
                if op in f:
                    v = int(f[op])
                elif op == "BitAnd":
                    v = a & b
                elif op == "BitOr":
                    v = a | b
                elif op == "BitXor":
                    v = a ^ b
                else:
                    base = op.replace("WithOverflow", "").replace("Unchecked", "")
                    t = self.int_ty(fn, rv[2].ty)
                    if base in ("Div", "Rem") and t and a >= 0 and b > 0:
                        v = a // b if base == "Div" else a % b
                    elif base in ("Add", "Sub", "Mul", "Shl", "Shr") and t and 0 <= b < 1 << 64 and (base[0] != "S" or base == "Sub" or b < t[0]):
                        w = {"Add": a + b, "Sub": a - b, "Mul": a * b, "Shl": a << b if b < 128 else 0, "Shr": a >> b if b < 128 else 0}[base]
                        r = self.wrap(w, t)
                        if op.endswith("WithOverflow"):
                            self.kill(env, d)
                            env[d + (("f", 0),)] = r
                            env[d + (("f", 1),)] = int(r != w)
                            return
                        v = r
            elif op == "BitAnd" and 0 in (a, b):
                v = 0
            elif op in ("BitAnd", "BitOr", "Shr", "Shl", "ShrUnchecked", "ShlUnchecked"):
                v = self.bits(op, self.op(fn, env, rv[2]), self.op(fn, env, rv[3]), self.int_ty(fn, rv[2].ty))
            elif op == "BitOr" and fn.ty(s.place.ty).get("k") == "bool" and 1 in (a, b):
                v = 1
        elif k == "un" and rv[1] == "Not":
            a = self.as_int(self.op(fn, env, rv[2]))
            if a is not None and fn.ty(s.place.ty).get("k") == "bool":
                v = 1 - a
        elif k == "cast":
            v = self.op(fn, env, rv[2])
            if isinstance(v, int):
                t = self.int_ty(fn, s.place.ty)
                if t:
                    v = self.wrap(v, t)
            elif isinstance(v, tuple) and v[0] == "kb":
                t, t0 = self.int_ty(fn, s.place.ty), self.int_ty(fn, rv[2].ty)
                v = self.bits("BitAnd", v, (1 << t[0]) - 1, (max(t[0], t0[0]), False)) if t and t0 and not t0[1] and not t[1] else None
        elif k == "agg":
            h, ops = rv[1], rv[2]
            vals = [self.full(fn, env, o) for o in ops]
            self.kill(env, d)
            if h[0] == "adt":
                a = self.prog.adts.get(h[1])
                if (a and a["enum"]) or h[1] in ("core::option::Option", "core::result::Result") or h[1].endswith("io::SeekFrom") or h[1].endswith("seek::SeekFrom"):
                    env[d] = ("e", h[1], h[2])
                    pre = d + (("v", h[2], h[3] if len(h) > 3 else None),)
                    for i, x in enumerate(vals):
                        if x is not None:
                            nm = str(i)
                            if a:
                                try:
                                    nm = a["vs"][h[2]]["f"][i][0]
                                except (IndexError, KeyError):
                                    pass
                            self.expand(env, pre + (("f", i),), x)
                else:
                    names = None
                    if a and a["vs"]:
                        names = [f[0] for f in a["vs"][0]["f"]]
                    for i, x in enumerate(vals):
                        if x is not None:
                            self.expand(env, d + (("f", i),), x)
            else:
                for i, x in enumerate(vals):
                    if x is not None:
                        self.expand(env, d + (("f", i),), x)
                if h[0] == "closure":
                    env[d] = ("clo", h[1])
            return
        self.kill(env, d)
        if v is not None:
            env[d] = v
        for x, y in subs.items():
            env[d + x] = y

    def full(self, fn, env, o):
        """value of an operand with everything known about its parts"""
        v = self.op(fn, env, o)
        if o.kind == "p":
            p = self.pack(env, pk(o.place))
            if isinstance(p, tuple) and p[0] == "s":
                return ("s", v if v is not None else p[1], p[2])
        elif o.kind == "k" and "adt" in o.val:
            c = self.const_fields(o.val)
            h = c.pop((), v)
            if c:
                return ("s", h, tuple(sorted(c.items(), key=repr)))
        return v

    RES = {"branch": {0: (0, "Continue"), 1: (1, "Break")}}

    def std_result(self, fn, env, c, cal):
        """Try::branch, map_err, ok, … keep what is known about the payload"""
        if not c.args or c.args[0].kind != "p":
            return None
        t = fn.ty(c.args[0].ty)
        if t.get("k") != "adt" or t["n"] not in ("core::result::Result", "core::option::Option"):
            return None
        isopt = t["n"].endswith("Option")
        src = pk(c.args[0].place)
        v = self.full(fn, env, c.args[0])
        if v is None:
            return None
        e = {}
        self.expand(e, (0,), v)
        good = 1 if isopt else 0
        out = {}
        if cal.name == "branch":
            h = e.get((0,))
            if h:
                out[(0,)] = ("e", "core::ops::control_flow::ControlFlow", 0 if h[2] == good else 1)
            for x, y in e.items():
                if len(x) > 2 and x[1][0] == "v" and x[1][1] == good:
                    out[(0, ("v", 0, "Continue")) + x[2:]] = y
        elif cal.name == "map_err" and not isopt:
            if (0,) in e:
                out[(0,)] = e[(0,)]
            for x, y in e.items():
                if len(x) > 2 and x[1][0] == "v" and x[1][1] == good:
                    out[x] = y
        elif cal.name in ("is_some", "is_none", "is_ok", "is_err"):
            return None
        else:
            return None
        return self.pack(out, (0,))

    CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
           "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}

    def call(self, fn, env, c, cctx):
        cal = c.callee
        if cal is None:
            for a in c.args:
                self.clobber(fn, env, a)
            return None
        for nm in (cal.target, cal.path):
            if nm in self.calls:
                return self.calls[nm]
        if self.deep and cal.name in ("new", "with_capacity", "default") and len(c.args) <= 1:
            n = fn.ty(c.dest.ty).get("n")
            if n in ("alloc::vec::Vec", "alloc::string::String"):
                return ("e", "#vec", 0)      # certainly empty
        if cal.name in ("is_empty", "len") and len(c.args) == 1:
            v = self.op(fn, env, c.args[0])
            if isinstance(v, tuple) and v[0] == "ref":
                v = env.get(v[1])
            elif isinstance(v, tuple) and v[0] == "rv":
                v = v[1]
            if v == ("e", "#vec", 0):
                return 1 if cal.name == "is_empty" else 0
        if self.deep and cal.name == "from_residual":
            n = self.adt(fn, c.dest.ty)
            if n in ("core::result::Result", "core::option::Option"):
                return ("e", n, 1 if n.endswith("Result") else 0)
        r = self.std_result(fn, env, c, cal) if self.deep else None
        if r is not None:
            return r
        if self.deep and cal.name == "default" and not c.args:
            t = fn.ty(c.dest.ty)
            if t.get("n") == "core::option::Option":
                return ("e", t["n"], 0)
            if t.get("k") == "bool" or self.int_ty(fn, c.dest.ty):
                return 0
        vals = [self.op(fn, env, a) for a in c.args]
        if self.strings and vals:
            x = self.value_of_ref(fn, env, vals[0], c.args[0].ty)
            if isinstance(x, tuple) and x[0] == "arr" and cal.name == "contains" and len(vals) == 2:
                y = self.value_of_ref(fn, env, vals[1], c.args[1].ty)
                if isinstance(y, tuple) and y[0] == (x[1][0][0] if x[1] else "e"):
                    return int(y in x[1])
            if isinstance(x, tuple) and x[0] == "str":
                r = self.str_call(fn, env, c, cal.name, x[1], vals)
                if r is not None:
                    return r
        if cal.name in self.CMP and cal.trait and cal.trait.startswith("core::cmp::") and len(c.args) == 2:
            x = self.value_of_ref(fn, env, vals[0], c.args[0].ty)
            y = self.value_of_ref(fn, env, vals[1], c.args[1].ty)
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "str":
                return int(self.CMP[cal.name](x[1], y[1]))
            xi, yi = self.as_int(x), self.as_int(y)
            if xi is not None and yi is not None:
                return int(self.CMP[cal.name](xi, yi))
            if cal.name in ("eq", "ne") and self.deep:
                if x is None and isinstance(vals[0], tuple) and vals[0][0] == "ref":
                    x = self.pack(env, vals[0][1])
                if y is None and isinstance(vals[1], tuple) and vals[1][0] == "ref":
                    y = self.pack(env, vals[1][1])
                r = self.same(x, y)
                if r is not None:
                    return int(r == (cal.name == "eq"))
            if not self.deep or not self.prog.targets(c):
                return None
        if cal.name in ("is_some", "is_none", "is_ok", "is_err") and len(vals) == 1:
            x = self.value_of_ref(fn, env, vals[0], c.args[0].ty)
            x = x[1] if isinstance(x, tuple) and x[0] == "s" else x
            if isinstance(x, tuple) and x[0] == "e" and x[1] in ("core::option::Option", "core::result::Result"):
                return int((x[2] == 1) == (cal.name in ("is_some", "is_err")))
        if self.deep and cal.name == "then_some" and len(vals) == 2 and self.as_int(vals[0]) is not None:
            if not vals[0]:
                return ("e", "core::option::Option", 0)
            x = self.full(fn, env, c.args[1])
            e = {(0,): ("e", "core::option::Option", 1)}
            self.expand(e, (0, ("v", 1, "Some"), ("f", 0)), x)
            return self.pack(e, (0,))
        m = re.fullmatch(r"(saturating|wrapping)_(add|sub|mul)", cal.name)
        if m and len(vals) == 2 and cal.path.startswith("core::num::"):
            a, b, t = self.as_int(vals[0]), self.as_int(vals[1]), self.int_ty(fn, c.dest.ty)
            if a is not None and b is not None and t:
                w = {"add": a + b, "sub": a - b, "mul": a * b}[m[2]]
                if m[1] == "wrapping":
                    return self.wrap(w, t)
                lo, hi = (-(1 << (t[0] - 1)), (1 << (t[0] - 1)) - 1) if t[1] else (0, (1 << t[0]) - 1)
                return min(max(w, lo), hi)
        if cal.name in ("clone", "into", "from", "deref", "borrow", "to_owned") and len(vals) == 1:
            v = vals[0]
            e = self.enum_const(fn, c.dest.ty)
            if e is not None:
                return ("e", self.adt(fn, c.dest.ty), e)
            if cal.name == "clone" and isinstance(v, tuple) and v[0] == "rv":
                return v[1]
            if cal.name in ("into", "from") and self.int_ty(fn, c.dest.ty) and self.int_ty(fn, c.args[0].ty):
                return v
        fns = self.prog.targets(c)
        if self.enter and not self.enter(fn, c, fns):
            fns = []
        res = None
        if fns:
            cc = []
            rs = []
            for t in fns:
                if t.kind == "Closure":
                    continue
                av = tuple(self.argval(env, v, fn, a) for v, a in zip(vals[:t.argc], c.args))
                cc.append((t.id, av))
                rs.append(self.run(t, av)[1])
            cctx[c.bb] = cc
            if rs and all(r == rs[0] for r in rs):
                res = rs[0]
        for a in c.args:
            self.clobber(fn, env, a)
        return res

    def same(self, x, y):
        """do two structured values differ for certain?"""
        if x is None or y is None:
            return None
        a = {p: v for p, v in (x[2] if isinstance(x, tuple) and x[0] == "s" else ())}
        b = {p: v for p, v in (y[2] if isinstance(y, tuple) and y[0] == "s" else ())}
        a[()] = x[1] if isinstance(x, tuple) and x[0] == "s" else x
        b[()] = y[1] if isinstance(y, tuple) and y[0] == "s" else y
        for p in a:
            u, v = a[p], b.get(p)
            if isinstance(u, tuple) and u[0] == "e" and isinstance(v, tuple) and v[0] == "e" and u[1] == v[1] and u[2] != v[2]:
                return False
            if isinstance(u, int) and isinstance(v, int) and u != v:
                return False
        return None

    def str_call(self, fn, env, c, name, s, vals):
        if len(vals) == 1:
            if name == "len":
                return len(s.encode())
            if name == "is_empty":
                return int(not s)
            if name in ("to_lowercase", "to_ascii_lowercase"):
                return ("str", s.lower())
            if name in ("as_str", "as_ref", "deref", "borrow", "into", "from", "as_bytes", "clone", "to_owned", "to_string"):
                return ("str", s)
        if len(vals) == 2 and name in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case"):
            y = self.value_of_ref(fn, env, vals[1], c.args[1].ty)
            if isinstance(y, int) and fn.ty(c.args[1].ty).get("k") == "char":
                y = ("str", chr(y))
            if isinstance(y, tuple) and y[0] == "str":
                if name == "eq_ignore_ascii_case":
                    return int(s.lower() == y[1].lower())
                return int({"starts_with": s.startswith, "ends_with": s.endswith, "contains": s.__contains__}[name](y[1]))
        return None

    def argval(self, env, v, fn=None, o=None):
        if o is not None and not (isinstance(v, tuple) and v[0] in ("ref", "rv")):
            f = self.full(fn, env, o)
            if isinstance(f, tuple) and f[0] == "s":
                return f
        if isinstance(v, int):
            return v
        if isinstance(v, tuple) and v[0] in ("e", "str", "kb"):
            return v
        if isinstance(v, tuple) and v[0] == "rv":
            return v
        if isinstance(v, tuple) and v[0] == "ref":
            x = env.get(v[1])
            if isinstance(x, int) or (isinstance(x, tuple) and x[0] in ("e", "str")):
                return ("rv", x)
            if self.deep:
                x = self.pack(env, v[1])
                if isinstance(x, tuple) and x[0] == "s":
                    return ("rv", x)
        return None

    def clobber(self, fn, env, o):
        """a &mut argument may be written through"""
        if o.kind != "p":
            return
        v = env.get(pk(o.place))
        t = fn.ty(o.ty)
        if t.get("k") == "ref" and t.get("m") and isinstance(v, tuple) and v[0] == "ref":
            self.kill(env, v[1])

    def live_closure(self, roots, stop=None):
        """contexts reachable from root functions: {(fn id, args): live blocks}; closures and fn items
        mentioned in live blocks are entered with unknown arguments."""
        out = {}
        work = [(r, ()) if isinstance(r, str) else r for r in roots]
        while work:
            k = work.pop()
            if k in out or k[0] not in self.prog.fns:
                continue
            fn = self.prog.fns[k[0]]
            if stop and stop(fn):
                continue
            live, _, cctx = self.run(fn, k[1])
            out[k] = live
            for b in live:
                for st in fn.stmts[b]:
                    from .mir import rv_ops
                    if st.rv[0] == "agg" and st.rv[1][0] == "closure":
                        work.append((self.prog._cl(fn, st.rv[1][1]), ()))
                    for o in rv_ops(st.rv):
                        self._ops(fn, o, work)
                t = fn.terms[b]
                if t[0] == "call":
                    c = t[1]
                    for o in c.args:
                        self._ops(fn, o, work)
                    if b in cctx:
                        work += cctx[b]
                    else:
                        if not (self.enter and not self.enter(fn, c, self.prog.targets(c))):
                            for x in self.prog.targets(c):
                                work.append((x.id, ()))
                        if c.callee and c.callee.target not in self.prog.fns:
                            for x in self.prog._through_std(fn, c):
                                work.append((x, ()))
        return out

    def _ops(self, fn, o, work):
        if o.kind == "k":
            x = o.val.get("closure") or (o.val.get("res") or o.val.get("fn"))
            if x:
                x = self.prog._cl(fn, x)
                if x in self.prog.fns:
                    work.append((x, ()))
