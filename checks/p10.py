"""P10: the common accessors of every tag read, write and remove the same thing."""
from sa.common import *
from sa.flow import defs
from sa.mir import rv_places, rv_ops
from sa.spec import Spec
from checks.p09 import IK
from checks.p14 import forward, OWN

RULE = ("for every tag type and accessor field: getter, setter and remover exist together; the setter stores under the key (or field) the getter looks at first, "
        "which is the one the field's item key maps to, and the value as a kind the getter can read; setter and remover deal with every key the getter looks at; "
        "of a number pair, each setter keeps the other component and the getters take the component their setter stores; no setter narrows its value; "
        "len, is_empty and clear deal with the same fields")
EXPLANATION = "Constants and the value parameter are followed forwards through each accessor to the calls and fields they reach; value kinds are decided by constant propagation."

ACC = "tag::accessor::Accessor"
EXT = "tag::tag_ext::TagExt"
FIELDS = {"artist": ("TrackArtist",), "title": ("TrackTitle",), "album": ("AlbumTitle",), "genre": ("Genre",), "comment": ("Comment",), "track": ("TrackNumber",),
          "track_total": ("TrackTotal",), "disk": ("DiscNumber",), "disk_total": ("DiscTotal",), "date": ("RecordingDate", "Year")}
PAIRS = (("track", "track_total"), ("disk", "disk_total"))
VALUES = ("id3::v2::frame::Frame", "mp4::ilst::atom::AtomData", "tag::item::ItemValue")
OPTION = "core::option::Option"
RANGE = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64}


def key_tokens(v):
    """keys held by a constant: strings, four-character codes, item keys"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("adt") == IK:
                out.append(x["vn"])
                return
            if isinstance(x.get("s"), str) and len(x["s"]) > 2:
                out.append(x["s"])
            if "arr" in x and len(x["arr"]) == 4 and all(isinstance(y, dict) and "i" in y for y in x["arr"]):
                out.append(bytes(int(y["i"]) & 255 for y in x["arr"]).decode("latin1"))
                return
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(v)
    return out


def derefs(prog, adt):
    """types the tag dereferences to"""
    f = method(prog, adt, "deref", "core::ops::deref::Deref")
    if f is None:
        return set()
    t = f.local_ty(0)
    while t.get("k") == "ref":
        t = f.ty(t["a"][0])
    return {t["n"]} if t.get("k") == "adt" else set()


def op_tokens(f, o):
    """keys held by a constant operand, promoted constants included"""
    out = key_tokens(o.val)
    i = o.val.get("promoted") if isinstance(o.val, dict) else None
    if i is not None and i < len(f.promoted):
        for ss in f.promoted[i].stmts:
            for s in ss:
                out += rv_tokens(f.promoted[i], s.rv)
    return out


def rv_tokens(f, rv):
    out = []
    for o in rv_ops(rv):
        if o.kind == "k":
            out += op_tokens(f, o)
    if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] == IK:
        out.append(rv[1][3])
    return out


class Acc:
    """what an accessor method does"""

    def __init__(self, prog, fn, self_adt):
        self.prog, self.fn, self.self_adt = prog, fn, self_adt
        self.self_adts = {self_adt} | derefs(prog, self_adt)
        self.looked = []        # keys given to methods of the tag, in order
        self.touched = set()    # keys given to methods changing the tag
        self.stored = set()     # ... together with the value to set
        self.calls = []         # (callee fn, arg labels)
        self.arrays = []        # [labels per operand]
        self.fields_read, self.fields_set = [], set()
        self.narrowed = []
        self.tuple_fields = []  # (callee id, index) of tuple results used
        self.events = []        # (block, keys, stores?) of the accessor itself
        self.own_at = []        # (block, name)
        self.outside = set()    # functions of other crates
        self.bytes = []         # (labels, index each operand is taken from, constants) of array elements
        self.passed = []        # (block, keys or accessor, labels) of changing calls given what another accessor returned
        self.own = []           # accessor methods of the same tag it calls
        self.walk(fn, {})

    def walk(self, f, labels, depth=0):
        """flow of labels: ('key', k), 'value', ('acc', name)"""
        lab = {l: set(x) for l, x in labels.items()}
        if f is self.fn and f.name.startswith("set_") and f.argc >= 2:
            lab[2] = {"value"}

        def op(o):
            if o.kind == "k":
                return {("key", k) for k in op_tokens(f, o)}
            s = set(lab.get(o.place.local, ()))
            return s
        order = [b for b in f.rpo if b in f.reachable] if isinstance(f.rpo, list) else sorted(f.reachable)
        alias = {}
        for b in order:
            for s in f.stmts[b]:
                if s.rv[0] in ("cast", "ref", "addr", "use") and not s.place.proj:
                    for p in rv_places(s.rv) + [o.place for o in rv_ops(s.rv) if o.kind == "p"]:
                        alias.setdefault(s.place.local, set()).add(p.local)
        for _ in range(6):
            before = {l: len(x) for l, x in lab.items()}
            for b in order:
                for s in f.stmts[b]:
                    src = set()
                    for o in rv_ops(s.rv):
                        src |= op(o)
                    for p in rv_places(s.rv):
                        src |= lab.get(p.local, set())
                    if s.rv[0] == "agg" and s.rv[1][0] == "closure":
                        src = {("key", k) for k in self.closure_keys(s.rv[1][1])}
                    if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == IK:
                        src.add(("key", s.rv[1][3]))
                    if src:
                        lab.setdefault(s.place.local, set()).update(src)
                        if s.place.proj and s.place.proj[0][0] == "d":
                            for l in alias.get(s.place.local, ()):
                                lab.setdefault(l, set()).update(src)
                t = f.terms[b]
                if t[0] == "call":
                    c = t[1]
                    src = set()
                    for o in c.args:
                        src |= op(o)
                    tg = self.prog.targets(c)
                    own = [g for g in tg if g.trait == ACC and self.is_self(g)]
                    if own:
                        src = {("acc", own[0].name)}
                    if src:
                        lab.setdefault(c.dest.local, set()).update(src)
            if {l: len(x) for l, x in lab.items()} == before:
                break
        for b in order:
            for s in f.stmts[b]:
                self.stmt(f, s, lab)
            t = f.terms[b]
            if t[0] == "call":
                self.call(f, t[1], [op(o) for o in t[1].args], depth)
        for x in sorted(self.prog.closures_of[f.id]):
            g = self.prog.fns.get(x)
            if g and g.kind == "Closure" and g.id.startswith(f.id):
                caught = set()
                for b in order:
                    for s in f.stmts[b]:
                        if s.rv[0] == "agg" and s.rv[1][0] == "closure":
                            for o in rv_ops(s.rv):
                                caught |= op(o)
                if self.fields_set:
                    self.touched |= set(self.closure_keys(x))
                self.walk(g, {1: caught}, depth)

    def closure_keys(self, cid):
        g = self.prog.fns.get(cid)
        out = []
        for b in g.reachable if g else ():
            for s in g.stmts[b]:
                out += rv_tokens(g, s.rv)
                if s.rv[0] == "discr" and g.ty(s.rv[1].ty).get("n") == IK:
                    vs = self.prog.adts[IK]["vs"]
                    out += [x["n"] for t in g.terms if t[0] == "switch" and t[1].kind != "k" and t[1].place.local == s.place.local for v, _ in t[2] for x in vs if x["d"] == str(v)]
            if g.terms[b][0] == "call":
                for o in g.terms[b][1].args:
                    if o.kind == "k":
                        out += op_tokens(g, o)
        return out

    def index(self, f, o):
        """constant index of the array element an operand is a copy of"""
        for _ in range(4):
            if o.kind == "k":
                return None
            p = o.place
            if p.proj:
                e = p.proj[-1]
                if e[0] == "ci":
                    return e[1]
                if e[0] == "i":
                    d = defs(f).whole(e[1])
                    if len(d) == 1 and d[0][0] == "stmt" and d[0][2].rv[0] == "use" and d[0][2].rv[1].kind == "k":
                        return int(d[0][2].rv[1].val["i"])
                return None
            d = defs(f).whole(p.local)
            if len(d) != 1 or d[0][0] != "stmt" or d[0][2].rv[0] != "use":
                return None
            o = d[0][2].rv[1]
        return None

    def is_self(self, g):
        t = g.crate.tys[g.self_ty] if g.self_ty is not None else {}
        return t.get("n") == self.self_adt

    def self_field(self, f, p):
        ty = f.local_ty(p.local)
        for e in p.proj:
            while ty and ty.get("k") in ("ref", "ptr"):
                ty = f.ty(ty["a"][0])
            if e[0] == "f":
                if ty and ty.get("k") == "adt" and ty["n"] == self.self_adt:
                    return e[2] if len(e) > 2 else e[1]
                return None
        return None

    def stmt(self, f, s, lab):
        for p in rv_places(s.rv) + [o.place for o in rv_ops(s.rv) if o.kind == "p"]:
            x = self.self_field(f, p)
            if x is not None:
                self.fields_read.append(x)
                if s.rv[0] == "ref" and s.rv[1]:
                    self.fields_set.add(x)
            elif p.proj and p.proj[0][0] == "f" and f.local_ty(p.local).get("k") == "tuple":
                self.tuple_fields.append((p.local, p.proj[0][1]))
        x = self.self_field(f, s.place)
        if x is not None:
            self.fields_set.add(x)
        if s.rv[0] == "agg" and s.rv[1][0] == "array":
            self.bytes.append(([lab.get(o.place.local, set()) if o.kind == "p" else set() for o in s.rv[2]], [self.index(f, o) for o in s.rv[2]],
                               [o.val.get("i") if o.kind == "k" and isinstance(o.val, dict) else None for o in s.rv[2]]))
            self.bytes[-1] = (*self.bytes[-1][:2], [int(x) if x is not None else None for x in self.bytes[-1][2]])
            self.arrays.append([{l for o_ in [o] for l in (lab.get(o_.place.local, set()) if o_.kind == "p" else set())} for o in s.rv[2]])
        if s.rv[0] == "cast" and "value" in {l for o in rv_ops(s.rv) if o.kind == "p" for l in lab.get(o.place.local, ())}:
            o = rv_ops(s.rv)[0]
            a, b = f.local_ty(o.place.local).get("s"), f.local_ty(s.place.local).get("s")
            if a in RANGE and b in RANGE and RANGE[b] < RANGE[a]:
                self.narrowed.append((a, b))

    def call(self, f, c, args, depth):
        tg = self.prog.targets(c)
        if not tg and c.callee:
            self.outside.add(c.callee.path)
        for o in c.args:
            if o.kind == "p":
                x = self.self_field(f, o.place)
                if x is not None:
                    self.fields_read.append(x)
        x = self.self_field(f, c.dest)
        if x is not None:
            self.fields_set.add(x)
        for g in tg:
            if g.trait == ACC and self.is_self(g):
                self.own.append(g.name)
                if f is self.fn:
                    self.own_at.append((c.bb, g.name))
                    if any(l[0] == "acc" for a in args[1:] for l in a if isinstance(l, tuple)):
                        self.passed.append((c.bb, g.name, set().union(*args[1:])))
                continue
            t = g.local_ty(1) if g.argc else {}
            if t.get("k") == "ref" and g.ty(t["a"][0]).get("n") in self.self_adts:
                keys = [k[1] for a in args[1:] for k in sorted(x for x in a if isinstance(x, tuple) and x[0] == "key")]
                self.looked += keys
                if g.tys(g.locals[1][0]).startswith("&mut") or t.get("m"):
                    self.touched |= set(keys)
                    if f is self.fn:
                        self.events.append((c.bb, set(keys), any("value" in a for a in args[1:])))
                        if any(l[0] == "acc" for a in args[1:] for l in a if isinstance(l, tuple)):
                            self.passed.append((c.bb, set(keys), set().union(*args[1:])))
                    if any("value" in a for a in args[1:]):
                        self.stored |= set(keys)
                if not keys and (g.trait is None or g.trait.startswith("core::ops::deref::Deref")) and depth < 3:
                    self.walk(g, {i + 1: a for i, a in enumerate(args)}, depth + 1)
                self.calls.append((g, args, [o.val.get("i") if o.kind == "k" else None for o in c.args], c.dest.local))


def merged(prog, adt, name, seen=()):
    """the accessor together with the accessors of the same tag it calls to change the tag"""
    f = method(prog, adt, name)
    if f is None:
        return None
    a = Acc(prog, f, adt)
    for o in sorted(set(a.own)):
        if o.startswith(("set_", "remove_")) and o not in seen and o != name:
            b = merged(prog, adt, o, seen + (name,))
            if b:
                a.touched |= b.touched
                a.fields_set |= b.fields_set
    return a


def method(prog, adt, name, trait=ACC):
    for p in prog.impl_methods.get((trait, name), []):
        f = prog.fns[p]
        t = f.crate.tys[f.self_ty] if f.self_ty is not None else {}
        if t.get("n") == adt:
            return f
    return None


def built_kinds(prog, f, adt):
    """{value enum: variants} a setter can build"""
    lc = Spec(prog, deep=True, strings=True, enter=lambda f_, c, fs: not any(g.trait == ACC and not g.name.startswith("set_") for g in fs)).live_closure([f.id])
    out = {}
    for (fid, a), bl in lc.items():
        g = prog.fns[fid]
        if g.trait in ("core::clone::Clone", ACC) and g.id != f.id:
            continue
        if any(x in g.tys(g.locals[i][0]) for i in range(1, g.argc + 1) for x in VALUES):
            continue            # takes a value that has been built
        for b in bl:
            for s in g.stmts[b]:
                if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] in VALUES:
                    out.setdefault(s.rv[1][1], set()).add(s.rv[1][3])
    return out


def readable(prog, f, enum, variant):
    vs = [v["n"] for v in prog.adts[enum]["vs"]]
    rv = Spec(prog, enums={enum: vs.index(variant)}, deep=True, strings=True).run(f)[1]
    h = rv[1] if isinstance(rv, tuple) and rv[0] == "s" else rv
    return h != ("e", OPTION, 0)


def run(prog, res, tier):
    if IK not in prog.adts:
        res.floor("types", 0, 1)
        return
    ik, tts, fwd = forward(prog)
    fmt = {a: t for t, a in OWN.items()}
    adts = sorted({prog.fns[p].crate.tys[prog.fns[p].self_ty]["n"] for p in prog.impl_methods.get((ACC, "title"), [])})
    nt = nk = nv = np_ = 0
    for adt in adts:
        acc = {}
        for x in FIELDS:
            g, s, r = (merged(prog, adt, n) for n in (x, "set_" + x, "remove_" + x))
            have = [bool(y) for y in (g, s, r)]
            if not any(have):
                want = [w for w in (fwd[fmt[adt]].get(k) for k in FIELDS[x]) if w] if fmt.get(adt) else []
                if want:
                    res.add(f"missing:{adt}:{x}", f"{adt}: {x}() is not implemented (the default does nothing), though {FIELDS[x][0]} is {'/'.join(want)} there")
                continue
            loc = next(y for y in (g, s, r) if y).fn.loc()
            nt += 1
            if not all(have):
                names = [n for n, h in zip((x, "set_" + x, "remove_" + x), have) if not h]
                res.add(f"missing:{adt}:{x}", f"{adt}: {', '.join(names)} is not implemented (the default does nothing), its counterparts are", loc)
                continue
            acc[x] = (g, s, r)
            keys = list(dict.fromkeys(g.looked))
            low = [k.lower() for k in keys]
            if keys:
                nk += 1
                first = keys[0]
                if fmt.get(adt):
                    want = [fwd[fmt[adt]].get(k) for k in FIELDS[x]]
                else:
                    want = list(FIELDS[x])
                want = [w for w in want if w]
                if first.lower() not in [w.lower() for w in want]:
                    res.add(f"key:{adt}:{x}", f"{adt}: {x}() looks at {first!r} first, but {FIELDS[x][0]} is {'/'.join(want) or 'not mapped'}", g.fn.loc())
                if first.lower() not in [k.lower() for k in s.stored]:
                    res.add(f"stored-elsewhere:{adt}:{x}", f"{adt}: set_{x}() stores under {sorted(s.stored) or 'nothing'}, {x}() looks at {first!r} first", s.fn.loc())
                for k in keys:
                    if k.lower() not in [y.lower() for y in s.touched]:
                        res.add(f"stale:{adt}:{x}:{k}", f"{adt}: set_{x}() leaves {k!r}, which {x}() also looks at", s.fn.loc())
                    if k.lower() not in [y.lower() for y in r.touched]:
                        res.add(f"kept:{adt}:{x}:{k}", f"{adt}: remove_{x}() leaves {k!r}, which {x}() looks at", r.fn.loc())
                for b, ks, st in s.events:
                    if not st:
                        continue
                    after = reach_after(s.fn, b)
                    lost = {k for b2, k2, st2 in s.events if b2 in after and not st2 for k in ks & k2}
                    if "remove_" + x in {n for b2, n in s.own_at if b2 in after}:
                        lost |= ks & r.touched
                    if lost:
                        res.add(f"lost:{adt}:{x}", f"{adt}: set_{x}() removes {sorted(lost)} after storing the value there", s.fn.loc())
                for k in sorted(r.touched | s.touched):
                    if k.lower() not in low:
                        res.add(f"other-key:{adt}:{x}:{k}", f"{adt}: set_{x}() or remove_{x}() changes {k!r}, which {x}() does not look at", r.fn.loc())
            else:
                fields = list(dict.fromkeys(g.fields_read))
                if not fields:
                    continue
                nk += 1
                if fields[0] not in s.fields_set | {y for y in s.fields_read}:
                    res.add(f"stored-elsewhere:{adt}:{x}", f"{adt}: set_{x}() does not set {fields[0]}, which {x}() reads first", s.fn.loc())
                for y in fields:
                    if y not in s.fields_set:
                        res.add(f"stale:{adt}:{x}:{y}", f"{adt}: set_{x}() leaves {y}, which {x}() also reads", s.fn.loc())
                    if y not in r.fields_set:
                        res.add(f"kept:{adt}:{x}:{y}", f"{adt}: remove_{x}() leaves {y}, which {x}() reads", r.fn.loc())
                for y in sorted((s.fields_set | r.fields_set) - set(fields)):
                    res.add(f"other-field:{adt}:{x}:{y}", f"{adt}: set_{x}() or remove_{x}() changes {y}, which {x}() does not read", r.fn.loc())
            for a, b in sorted(set(s.narrowed)):
                res.add(f"narrowed:{adt}:{x}", f"{adt}: set_{x}() narrows its {a} to {b}, so another number is stored for values that do not fit", s.fn.loc())
            for enum, vs in sorted(built_kinds(prog, s.fn, adt).items()):
                nv += 1
                bad = [v for v in sorted(vs) if not readable(prog, g.fn, enum, v)]
                if len(bad) == len(vs):
                    res.add(f"unreadable:{adt}:{x}", f"{adt}: set_{x}() stores {enum.rsplit('::', 1)[1]}::{'/'.join(bad)}, for which {x}() returns None", s.fn.loc())
        for a, b in PAIRS:
            if a in acc and b in acc:
                np_ += pair(res, adt, a, b, acc)
        emptiness(prog, res, adt)
    res.floor("tag_types", len(adts), 8)
    res.floor("accessor_fields", nt, 60)
    res.floor("keys_compared", nk, 55)
    res.floor("value_kinds", nv, 20)
    res.floor("number_pairs", np_, 6)


def reach_after(f, b):
    out, todo = set(), list(f.succs(b))
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += f.succs(n)
    return out


def slots(a, label):
    """{group: positions at which only this label goes in}"""
    out = {}
    for g, args, consts, d in a.calls:
        for i, l in enumerate(args):
            if {x for x in l if x == "value" or x[0] == "acc"} == {label}:
                out.setdefault(("call", g.id), set()).add(i)
    for ops in a.arrays:
        for i, l in enumerate(ops):
            if {x for x in l if x == "value" or x[0] == "acc"} == {label}:
                out.setdefault(("array", len(ops)), set()).add(i)
    return out


def pair(res, adt, a, b, acc):
    (ga, sa, ra), (gb, sb, rb) = acc[a], acc[b]
    if set(k.lower() for k in ga.looked) != set(k.lower() for k in gb.looked) or not ga.looked:
        return 0
    va, ob = slots(sa, "value"), slots(sb, ("acc", a))
    oa, vb = slots(sa, ("acc", b)), slots(sb, "value")
    for (p, q, s, keep) in ((va, ob, b, a), (vb, oa, a, b)):
        if not q:
            res.add(f"pair-lost:{adt}:{s}", f"{adt}: set_{s}() does not keep {keep}, which is stored in the same item", acc[s][1].fn.loc())
        for grp in p:
            if grp in q and p[grp] != q[grp]:
                res.add(f"pair-order:{adt}:{s}", f"{adt}: set_{s}() passes {keep} on as argument or element {sorted(q[grp])}, set_{keep}() as {sorted(p[grp])}", acc[s][1].fn.loc())
    for grp in va:
        if grp in vb and min(va[grp]) >= min(vb[grp]):
            res.add(f"pair-swapped:{adt}:{a}", f"{adt}: set_{a}() stores its value where the total belongs", sa.fn.loc())
    if not any(grp in vb for grp in va):
        res.coverage.setdefault("pairs_not_comparable", []).append(f"{adt}:{a}")
    # the getters take different components, number first

    def component(g):
        t = [i for (l, i) in g.tuple_fields if any(d == l for _, _, _, d in g.calls)]
        ints = [int(x) for _, _, cs, _ in g.calls for x in cs if x is not None]
        return t or ints
    ca, cb = component(ga), component(gb)
    if ca and cb and not ca[0] < cb[0]:
        res.add(f"pair-read:{adt}:{a}", f"{adt}: {a}() and {b}() take components {ca[0]} and {cb[0]} of the item", ga.fn.loc())
    # removing the total keeps the number
    if ("acc", a) not in {("acc", o) for o in rb.own}:
        res.add(f"pair-removed:{adt}:{b}", f"{adt}: remove_{b}() does not keep {a}", rb.fn.loc())
    elif rb.touched:
        kept = [x for x in rb.passed if ("acc", a) in x[2]]
        gone = [x for x, ks, _ in rb.events if ks & {k for k in ga.looked} and x not in {y[0] for y in kept}]
        if not kept:
            res.add(f"pair-removed:{adt}:{b}", f"{adt}: remove_{b}() reads {a} but stores it nowhere", rb.fn.loc())
        elif gone and not any(k[0] in reach_after(rb.fn, g) for k in kept for g in gone):
            res.add(f"pair-removed:{adt}:{b}", f"{adt}: remove_{b}() removes the item after storing {a}", rb.fn.loc())
        asked = [x for x, n in rb.own_at if n == a]
        if gone and asked and all(x in reach_after(rb.fn, g) for x in asked for g in gone):
            res.add(f"pair-removed:{adt}:{b}", f"{adt}: remove_{b}() asks for {a} only after removing the item that holds it", rb.fn.loc())
    order = {x: {("be" if "_be_bytes" in p else "le") for m in ms for p in m.outside | {t[1].callee.path for g, *_ in m.calls for t in g.terms if t[0] == "call" and t[1].callee} if p.endswith((f"::{x}_be_bytes", f"::{x}_le_bytes"))} for x, ms in (("to", (sa, sb, rb)), ("from", (ga, gb)))}
    if order["to"] and order["from"] and order["to"] != order["from"]:
        res.add(f"pair-bytes:{adt}:{a}:order", f"{adt}: {a} and {b} are stored {'/'.join(sorted(order['to']))} and read {'/'.join(sorted(order['from']))}", sa.fn.loc())
    for m in (sa, sb, rb):
        for ops, idx, nul in m.bytes:
            lab = [next(iter({x for x in l if x == "value" or x[0] == "acc"}), None) if l else None for l in ops]
            if not any(lab):
                continue
            for i, l in enumerate(lab):
                if l is None and nul[i] not in (0, None):
                    res.add(f"pair-bytes:{adt}:{m.fn.name}", f"{adt}: {m.fn.name}() stores {nul[i]} in byte {i}, which belongs to no number", m.fn.loc())
                if l is not None and idx[i] is not None:
                    first = i
                    while first and lab[first - 1] == l:
                        first -= 1
                    if idx[i] != i - first:
                        res.add(f"pair-bytes:{adt}:{m.fn.name}", f"{adt}: {m.fn.name}() stores byte {idx[i]} of {'its value' if l == 'value' else l[1]} as byte {i - first} of the number", m.fn.loc())
    return 1


def emptiness(prog, res, adt):
    used = {}
    for name in ("len", "is_empty", "clear"):
        f = method(prog, adt, name, EXT)
        if f is None:
            return
        a = Acc(prog, f, adt)
        used[name] = set(a.fields_read) | a.fields_set
        if name == "clear" and any(s.place.local == 1 and [e[0] for e in s.place.proj] == ["d"] or s.place.proj and s.place.proj[0][0] != "f" and len(s.place.proj) == 1
                                   for ss in f.stmts for s in ss):
            used[name] = None
    if used["len"] != used["is_empty"]:
        d = sorted(used["len"] ^ used["is_empty"])
        res.add(f"empty:{adt}:{','.join(map(str, d))}", f"{adt}: len() and is_empty() do not look at the same fields ({', '.join(map(str, d))})", method(prog, adt, "len", EXT).loc())
    if used["clear"] is not None and used["is_empty"] - used["clear"]:
        d = sorted(used["is_empty"] - used["clear"])
        res.add(f"clear:{adt}:{','.join(map(str, d))}", f"{adt}: clear() leaves {', '.join(map(str, d))}, which is_empty() looks at", method(prog, adt, "clear", EXT).loc())
    res.coverage.setdefault("emptiness_fields", {})[adt] = sorted(map(str, used["is_empty"]))
