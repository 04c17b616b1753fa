"""The type-checked program (MIR facts from driver/) as Python objects: bodies, CFGs, call graph."""
import json, os, re
from functools import cached_property


class Place:
    __slots__ = ("local", "proj", "ty")

    def __init__(self, j):
        self.local = j[0]
        self.proj = tuple(tuple(e[:3]) if e[0] == "f" else tuple(e) for e in j[1])
        self.ty = j[2]

    @property
    def bare(self):
        return not self.proj

    def __repr__(self):
        s = f"_{self.local}"
        for e in self.proj:
            if e[0] == "d":
                s = f"(*{s})"
            elif e[0] == "f":
                s += "." + (e[2] or str(e[1]))
            elif e[0] == "i":
                s += f"[_{e[1]}]"
            elif e[0] == "c":
                s += f"[{'-' if e[3] else ''}{e[1]} of {e[2]}]"
            elif e[0] == "s":
                s += f"[{e[1]}..{'-' if e[3] else ''}{e[2]}]"
            elif e[0] == "v":
                s += f"@{e[2] or e[1]}"
            else:
                s += ".?"
        return s


def valtree_str(x):
    """text of a string constant in a pattern (rustc prints its bytes)"""
    body = x[x.index("Branch([") + 8:x.rindex("])")]
    return bytes(int(b.strip().split("_")[0]) for b in body.split(",") if b.strip()).decode("utf-8", "replace")


class Op:
    """Operand. kind: 'p' (place; .place), 'k' (constant; .val, .item, .ty), 'rt'."""
    __slots__ = ("kind", "place", "val", "item", "ty", "move")

    def __init__(self, j):
        self.place = self.val = self.item = None
        self.move = False
        if j[0] in "cm" and len(j) == 2:
            self.kind = "p"
            self.place = Place(j[1])
            self.ty = self.place.ty
            self.move = j[0] == "m"
        elif j[0] == "k":
            self.kind = "k"
            self.ty = j[1]
            self.val = j[2]
            if "x" in self.val and " str, valtree: Branch([" in str(self.val["x"]):
                self.val = dict(self.val, s=valtree_str(self.val["x"]))
            if len(j) > 3:
                self.item = j[3].get("item")
        else:
            self.kind = "rt"
            self.ty = None

    @property
    def int(self):
        if self.kind == "k" and "i" in self.val:
            return int(self.val["i"])
        return None

    def __repr__(self):
        if self.kind == "p":
            return ("move " if self.move else "") + repr(self.place)
        if self.kind == "k":
            v = self.val
            s = v.get("i") or v.get("fn") or None
            if s is None:
                s = json.dumps(v)
                if len(s) > 60:
                    s = s[:60] + "…"
            return f"const {s}" + (f" [{self.item}]" if self.item else "")
        return self.kind


class Stmt:
    __slots__ = ("place", "rv", "span")

    def __init__(self, j):
        self.place = Place(j[0])
        self.rv = conv_rv(j[1])
        self.span = j[2]

    def __repr__(self):
        return f"{self.place} = {fmt_rv(self.rv)}"


def conv_rv(r):
    k = r[0]
    if k == "use":
        return ("use", Op(r[1]))
    if k == "repeat":
        return ("repeat", Op(r[1]), r[2])
    if k == "ref":
        return ("ref", r[1], Place(r[2]))
    if k == "rawptr":
        return ("rawptr", Place(r[1]))
    if k == "cast":
        return ("cast", r[1], Op(r[2]), r[3])
    if k == "bin":
        return ("bin", r[1], Op(r[2]), Op(r[3]))
    if k == "un":
        return ("un", r[1], Op(r[2]))
    if k == "discr":
        return ("discr", Place(r[1]))
    if k == "agg":
        return ("agg", tuple(tuple(x) if isinstance(x, list) else x for x in r[1]), [Op(o) for o in r[2]])
    return tuple(r)


def fmt_rv(rv):
    k = rv[0]
    if k == "use":
        return repr(rv[1])
    if k == "ref":
        return ("&mut " if rv[1] else "&") + repr(rv[2])
    if k == "cast":
        return f"{rv[2]} as ({rv[1]}) t{rv[3]}"
    if k == "bin":
        return f"{rv[1]}({rv[2]}, {rv[3]})"
    if k == "un":
        return f"{rv[1]}({rv[2]})"
    if k == "discr":
        return f"discr({rv[1]})"
    if k == "agg":
        h = rv[1]
        nm = h[0] if h[0] != "adt" else f"{h[1]}::{h[3]}"
        return f"{nm}({', '.join(map(repr, rv[2]))})"
    return str(rv)


class Callee:
    """Resolved callee of a call terminator."""
    __slots__ = ("path", "res", "ga", "rga", "trait", "name", "unres", "virt")

    def __init__(self, v):
        self.path = v["fn"]
        self.res = v.get("res")
        self.ga = v.get("ga", [])
        self.rga = v.get("rga", self.ga)
        self.trait = v.get("tr")
        self.name = v.get("name", self.path.rsplit("::", 1)[-1])
        self.unres = bool(v.get("unres"))
        self.virt = bool(v.get("virt"))

    @property
    def target(self):
        return self.res or self.path


class Call:
    __slots__ = ("func", "callee", "args", "dest", "target", "span", "bb", "fn")

    def __init__(self, j, bb, fn):
        self.func = Op(j[1])
        self.callee = Callee(self.func.val) if self.func.kind == "k" and "fn" in self.func.val else None
        self.args = [Op(a) for a in j[2]]
        self.dest = Place(j[3])
        self.target = j[4]
        self.span = j[5]
        self.bb = bb
        self.fn = fn

    @property
    def path(self):
        return self.callee.target if self.callee else None

    def __repr__(self):
        nm = self.callee.target if self.callee else repr(self.func)
        if self.callee and self.callee.res:
            nm += f" <~{self.callee.path}>"
        return f"{self.dest} = {nm}({', '.join(map(repr, self.args))}) -> {self.target}"


class Fn:
    def __init__(self, j, prog, crate):
        self.prog = prog
        self.crate = crate
        self.id = j.get("id", "?")
        self.name = j.get("name", "")
        self.kind = j.get("kind", "Promoted")
        self.parent = j.get("parent")
        self.span = j.get("span")
        self.reach = j.get("reach", False)
        self.unsafe = j.get("unsafe", False)
        self.trait = j.get("trait")
        self.deftrait = j.get("deftrait")
        self.self_ty = crate.tyoff + j["self"] if "self" in j else None
        self.argc = j["argc"]
        self._j = j
        self._done = False

    def _load(self):
        if self._done:
            return
        j = self._j
        self._done = True
        self._locals = [(l[0], l[1] if len(l) > 1 else None) for l in j["locals"]]
        self._vars = [(v[0], Place(v[1])) for v in j["vars"]]
        self._stmts = []
        self._terms = []
        self._cleanup = []
        self._calls = {}
        for i, b in enumerate(j["blocks"]):
            self._stmts.append([Stmt(s) for s in b["s"]])
            t = b["t"]
            self._cleanup.append(bool(b["c"]))
            k = t[0]
            if k == "switch":
                t = ("switch", Op(t[1]), [(int(v), bb) for v, bb in t[2]], t[3], t[4])
            elif k == "call":
                c = Call(t, i, self)
                self._calls[i] = c
                t = ("call", c)
            elif k == "assert":
                m = t[3]
                msg = tuple([m[0]] + [Op(x) if isinstance(x, list) else x for x in m[1:]])
                t = ("assert", Op(t[1]), t[2], msg, t[4], t[5])
            elif k == "drop":
                t = ("drop", Place(t[1]), t[2])
            else:
                t = tuple(t)
            self._terms.append(t)

    @property
    def locals(self):
        self._load(); return self._locals

    @property
    def vars(self):
        self._load(); return self._vars

    @property
    def stmts(self):
        self._load(); return self._stmts

    @property
    def terms(self):
        self._load(); return self._terms

    @property
    def cleanup(self):
        self._load(); return self._cleanup

    @property
    def callmap(self):
        self._load(); return self._calls

    @property
    def calls(self):
        """Calls in non-cleanup, reachable blocks."""
        self._load()
        r = self.reachable
        return [c for b, c in sorted(self._calls.items()) if b in r]

    @cached_property
    def promoted(self):
        return [Fn(dict(p, id=f"{self.id}::promoted[{i}]"), self.prog, self.crate)
                for i, p in enumerate(self._j.get("promoted", []))]

    def ty(self, i):
        return self.crate.tys[i]

    def local_ty(self, l):
        return self.crate.tys[self.locals[l][0]]

    def tys(self, i):
        return self.crate.tys[i]["s"]

    def local_name(self, l):
        return self.locals[l][1]

    def nblocks(self):
        return len(self.terms)

    def succs(self, b):
        t = self.terms[b]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            out = []
            for _, x in t[2]:
                if x not in out:
                    out.append(x)
            if t[3] not in out:
                out.append(t[3])
            return out
        if k == "call":
            return [t[1].target] if t[1].target is not None else []
        if k == "assert":
            return [t[4]]
        if k == "drop":
            return [t[2]]
        return []

    @cached_property
    def reachable(self):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for s in self.succs(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    @cached_property
    def preds(self):
        p = {b: [] for b in self.reachable}
        for b in self.reachable:
            for s in self.succs(b):
                p[s].append(b)
        return p

    @cached_property
    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                out.append(b)
                st.pop()
        out.reverse()
        return out

    @cached_property
    def idom(self):
        return idoms(self.rpo, self.preds, 0)

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    @cached_property
    def backedges(self):
        return [(b, s) for b in self.rpo for s in self.succs(b) if self.dominates(s, b)]

    @cached_property
    def loops(self):
        """header -> set of blocks (natural loops merged per header)."""
        out = {}
        for b, h in self.backedges:
            body = out.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(self.preds[x])
        return out

    @property
    def file(self):
        return self.span[0] if self.span else "?"

    def loc(self, span=None):
        s = span or self.span
        return f"{s[0]}:{s[1]}"

    def dump(self):
        out = [f"fn {self.id}  argc={self.argc} {self.loc() if self.span else ''}"]
        for i, (t, n) in enumerate(self.locals):
            out.append(f"  _{i}: {self.tys(t)}" + (f"  // {n}" if n else ""))
        for n, p in self.vars:
            out.append(f"  var {n} = {p}")
        for b in sorted(self.reachable):
            out.append(f" bb{b}:")
            for s in self.stmts[b]:
                out.append(f"    {s}")
            t = self.terms[b]
            if t[0] == "switch":
                out.append(f"    switch {t[1]} {t[2]} else {t[3]}")
            elif t[0] == "assert":
                out.append(f"    assert {t[1]}=={t[2]} {t[3]} -> {t[4]}  @{t[5][1]}")
            elif t[0] == "call":
                out.append(f"    {t[1]}   @{t[1].span[1]} {t[1].span[2] if len(t[1].span) > 2 else ''}")
            else:
                out.append(f"    {t}")
        return "\n".join(out)

    def __repr__(self):
        return f"<fn {self.id}>"


def idoms(rpo, preds, root):
    num = {b: i for i, b in enumerate(rpo)}
    idom = {root: root}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == root:
                continue
            new = None
            for p in preds[b]:
                if p in idom and p in num:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    return idom


class Crate:
    def __init__(self, j, prog):
        self.name = j["crate"]
        self.tys = j["tys"]
        self.tyoff = 0
        self.fns = [Fn(f, prog, self) for f in j["fns"]]
        self.consts = {c["id"]: c for c in j["consts"]}
        self.adts = {a["id"]: a for a in j["adts"]}
        self.impls = j["impls"]


class Program:
    def __init__(self, factdir, crates=("lofty", "ogg_pager")):
        self.crates = []
        self.fns = {}
        self.adts = {}
        self.consts = {}
        for c in crates:
            p = os.path.join(factdir, c + ".json")
            with open(p, encoding="utf-8") as f:
                cr = Crate(json.load(f), self)
            self.crates.append(cr)
            for fn in cr.fns:
                if fn.id in self.fns:
                    raise RuntimeError("duplicate function id " + fn.id)
                self.fns[fn.id] = fn
            for k, a in cr.adts.items():
                if cr.name != "lofty" and not k.startswith(cr.name):
                    k = cr.name + "::" + k
                self.adts[k] = dict(a, crate=cr)
            for k, a in cr.consts.items():
                self.consts[k] = dict(a, crate=cr)
        self.lofty = self.crates[0]

    def fn(self, fid):
        return self.fns.get(fid)

    def find(self, pat):
        r = re.compile(pat)
        return [f for f in self.fns.values() if r.search(f.id)]

    @cached_property
    def impl_methods(self):
        """(trait path, method name) -> [fn ids] over local impls (class-hierarchy analysis)."""
        out = {}
        for cr in self.crates:
            for im in cr.impls:
                if im["trait"]:
                    for n, p in im["m"]:
                        if cr.name != "lofty" and p not in self.fns:
                            p2 = cr.name + "::" + p
                            p = p2 if p2 in self.fns else p
                        if p in self.fns:
                            out.setdefault((im["trait"], n), []).append(p)
        return out

    def targets(self, call):
        """Local functions a call may enter (direct, CHA for unresolved trait methods)."""
        c = call.callee
        if c is None:
            return []
        if c.target in self.fns and not (c.unres or c.virt):
            return [self.fns[c.target]]
        out = []
        if c.trait and (c.unres or c.virt or (c.res is None)):
            for p in self.impl_methods.get((c.trait, c.name), []):
                out.append(self.fns[p])
            if c.path in self.fns:
                out.append(self.fns[c.path])
        elif c.target in self.fns:
            out.append(self.fns[c.target])
        return out

    @cached_property
    def closures_of(self):
        """closures mentioned (constructed / passed) in each function."""
        out = {}
        for f in self.fns.values():
            s = set()
            for b in f.reachable:
                for st in f.stmts[b]:
                    if st.rv[0] == "agg" and st.rv[1][0] == "closure":
                        s.add(st.rv[1][1])
                    for o in rv_ops(st.rv):
                        if o.kind == "k":
                            if "closure" in o.val:
                                s.add(o.val["closure"])
                            elif "fn" in o.val:
                                s.add(o.val.get("res") or o.val["fn"])
                t = f.terms[b]
                if t[0] == "call":
                    for o in t[1].args:
                        if o.kind == "k":
                            if "closure" in o.val:
                                s.add(o.val["closure"])
                            elif "fn" in o.val:
                                s.add(o.val.get("res") or o.val["fn"])
            out[f.id] = {self._cl(f, x) for x in s}
        return out

    def _cl(self, f, x):
        if x in self.fns:
            return x
        y = f.crate.name + "::" + x
        return y if y in self.fns else x

    @cached_property
    def callgraph(self):
        """fn id -> set of local fn ids it may run (calls, closures and fn items it mentions, drops
        not included), with trait calls on unknown types resolved to every local implementation."""
        g = {}
        for f in self.fns.values():
            s = set()
            for c in f.calls:
                for t in self.targets(c):
                    s.add(t.id)
                # a local trait method called by std on a local type (Iterator::next in for loops
                # etc.) is resolved by the driver; conversions through std blanket impls:
                if c.callee and c.callee.target not in self.fns:
                    s |= set(self._through_std(f, c))
            s |= {x for x in self.closures_of[f.id] if x in self.fns}
            g[f.id] = s
        return g

    # std entry points that call back a trait impl of one of their type arguments
    _STD_FWD = {
        "into": ("core::convert::From", "from"), "try_into": ("core::convert::TryFrom", "try_from"),
        "to_string": ("core::fmt::Display", "fmt"), "parse": ("core::str::traits::FromStr", "from_str"),
        "from_residual": ("core::convert::From", "from"),
    }
    _STD_KEEP = ("alloc::io::read::Read", "core::io::seek::Seek", "core::io::write::Write",
                 "alloc::io::buf_read::BufRead", "core::iter::traits::iterator::Iterator")

    @cached_property
    def _fwd_impls(self):
        """(trait, method) -> [(self type string, its head, fn id)]"""
        out = {}
        for (tr, m) in self._STD_FWD.values():
            l = []
            for p in self.impl_methods.get((tr, m), []):
                fn = self.fns[p]
                st = fn.crate.tys[fn.self_ty]["s"] if fn.self_ty is not None else ""
                l.append((st, st.split("<")[0], p))
            out[(tr, m)] = l
        return out

    @cached_property
    def _local_std_impls(self):
        """local type -> its methods of the std I/O and iterator traits"""
        out = {}
        for (tr, m), ps in self.impl_methods.items():
            if tr in self._STD_KEEP:
                for p in ps:
                    fn = self.fns[p]
                    sty = fn.crate.tys[fn.self_ty] if fn.self_ty is not None else None
                    if sty and sty.get("n"):
                        out.setdefault(sty["n"], []).append(p)
        return out

    def _through_std(self, f, c):
        cal = c.callee
        out = []
        for n in {cal.name, cal.res.rsplit("::", 1)[-1] if cal.res else cal.name}:
            if n in self._STD_FWD:
                tys = [f.tys(i) for i in cal.ga + cal.rga] + [f.tys(c.dest.ty)]
                if n == "from_residual":
                    # only the error is converted
                    d = f.ty(c.dest.ty)
                    if d.get("n") == "core::option::Option":
                        continue
                    if d.get("n") == "core::result::Result" and len(d.get("a", ())) == 2:
                        tys = [f.tys(d["a"][1])]
                for st, head, p in self._fwd_impls[self._STD_FWD[n]]:
                    if any(head in t for t in tys):
                        if n in ("into", "try_into") and c.args and c.args[0].ty is not None and "From<" in p \
                                and f.ty(c.args[0].ty).get("k") in ("adt", "ref"):
                            src = p.split("From<", 1)[1].split(">>::")[0].split("<")[0].lstrip("&").split(" ")[-1]
                            if "::" in src and src not in f.tys(c.args[0].ty):
                                continue
                        out.append(p)
        for i in set(cal.ga + cal.rga):
            for name in self._adts_in(f, f.ty(i)):
                out += self._local_std_impls.get(name, ())
        return out

    def _adts_in(self, f, t, depth=0):
        out = set()
        if t.get("k") == "adt":
            out.add(t["n"])
        if depth < 3:
            for a in t.get("a", []):
                out |= self._adts_in(f, f.ty(a), depth + 1)
        return out

    def reach(self, roots, stop=lambda f: False):
        seen = set()
        st = list(roots)
        while st:
            x = st.pop()
            if x in seen or x not in self.callgraph:
                continue
            seen.add(x)
            if stop(x):
                continue
            st.extend(self.callgraph[x])
        return seen


def rv_ops(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k in ("cast", "un"):
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "agg":
        return rv[2]
    return []


def rv_places(rv):
    """places read (or borrowed) by an rvalue"""
    out = [o.place for o in rv_ops(rv) if o.kind == "p"]
    if rv[0] == "ref":
        out.append(rv[2])
    elif rv[0] in ("discr", "rawptr"):
        out.append(rv[1])
    return out


def sccs(graph):
    """Tarjan, iterative. graph: node -> iterable of nodes."""
    index, low, onst, st, out = {}, {}, set(), [], []
    n = 0
    for root in graph:
        if root in index:
            continue
        work = [(root, iter(graph[root]))]
        index[root] = low[root] = n; n += 1
        st.append(root); onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in graph:
                    continue
                if w not in index:
                    index[w] = low[w] = n; n += 1
                    st.append(w); onst.add(w)
                    work.append((w, iter(graph[w])))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == index[v]:
                c = []
                while True:
                    w = st.pop(); onst.discard(w); c.append(w)
                    if w == v:
                        break
                out.append(c)
    return out
