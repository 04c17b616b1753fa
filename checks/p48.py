"""P48: the caller's parsing options reach every part of the reader unchanged."""
from sa.common import *
from sa.flow import *
from sa.mir import rv_ops

RULE = ("a function on the reading paths that is given parsing options (or a parsing mode) passes on only values derived from "
        "them: it constructs none of its own, overwrites no field of them, and calls no function that parses under a mode of its own choosing")
EXPLANATION = ("Every function reachable from the public readers is examined: aggregates, constants, default/new calls, builder "
               "calls and field stores that produce a ParseOptions or ParsingMode other than by copying the received one. Functions "
               "without options in their signature that make up a mode are followed to their callers.")
PO = "config::parse_options::ParseOptions"
PM = "config::parse_options::ParsingMode"
WO = "config::write_options::WriteOptions"
ALLOW_DEFAULT = "core::option::Option::<T>::unwrap_or_default"


def kinds_of(f, t, depth=0):
    t = strip(f, t)
    if t.get("k") != "adt":
        return set()
    if t["n"] in (PO, PM, WO):
        return {t["n"]}
    out = set()
    if t["n"].startswith("core::option::Option"):
        for a in t.get("a", []):
            if isinstance(a, int):
                out |= kinds_of(f, f.ty(a))
    return out


def carries(prog, f, t):
    """a parameter type that brings options along: the options, or a struct of this crate holding them"""
    if kinds_of(f, t):
        return True
    t = strip(f, t)
    a = prog.adts.get(t.get("n"))
    if a is None or a["enum"]:
        return False
    for n, ty, pub in a["vs"][0]["f"]:
        x = a["crate"].tys[ty]
        if x.get("n") in (PO, PM, WO):
            return True
        if x.get("n", "").startswith("core::option::Option"):
            for y in x.get("a", []):
                if isinstance(y, int) and a["crate"].tys[y].get("n") in (PO, PM, WO):
                    return True
    return False


def given(prog, f):
    if any(carries(prog, f, f.local_ty(i)) for i in range(1, f.argc + 1)):
        return True
    if f.kind == "Closure":
        p = prog.fns.get(f.id.rsplit("::{closure", 1)[0])
        return p is not None and given(prog, p)
    return False


def fresh(prog, f):
    """[(what, span)] options made up in this function"""
    out = []
    for b in sorted(f.reachable):
        for s in f.stmts[b]:
            rv = s.rv
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] in (PO, PM, WO):
                # compared with, not passed on?
                if used_as_value(f, s):
                    out.append((f"{rv[1][1].rsplit('::', 1)[-1]}::{rv[1][3]}" if rv[1][1] == PM else f"{rv[1][1].rsplit('::', 1)[-1]} {{ .. }}", s.span))
            elif rv[0] == "use" and rv[1].kind == "k" and f.ty(s.place.ty).get("n") in (PO, PM, WO):
                if used_as_value(f, s):
                    out.append(("constant options", s.span))
            if s.place.proj and s.place.proj[-1][0] == "f":
                if owner(f, s.place) in (PO, WO):
                    out.append((f"field {s.place.proj[-1][2]} overwritten", s.span))
        t = f.terms[b]
        if t[0] == "call":
            c = t[1]
            dt = f.ty(c.dest.ty)
            nm = c.callee.path if c.callee else ""
            if dt.get("n") in (PO, PM, WO):
                if nm.startswith((PO, WO)) and c.callee.name not in ("clone",):
                    # new(), or a builder call
                    out.append((nm.rsplit("::", 2)[1] + "::" + c.callee.name, c.span))
                elif c.callee and c.callee.name in ("default", "new") or nm.endswith(("unwrap_or_default", "unwrap_or")) :
                    if not (nm == ALLOW_DEFAULT and not c_dropped(f, c)):
                        out.append((nm, c.span))
            for a in c.args:
                if a.kind == "k" and f.ty(a.ty).get("n") in (PO, PM, WO):
                    out.append((f"constant passed to {c.callee.name if c.callee else 'a call'}", c.span))
    return out


def c_dropped(f, c):
    """unwrap_or_default on anything but options the caller may have left out (a field or parameter)"""
    a = c.args[0]
    if a.kind != "p":
        return True
    r = root(f, a.place.local)
    return not (1 <= r <= f.argc)


def owner(f, p):
    """ADT owning the last field projection"""
    t = f.local_ty(p.local)
    from sa.spec import Spec
    sp = owner.sp
    for e in p.proj[:-1]:
        t = sp.proj_ty(f, t, e) if t else None
    t = strip(f, t) if t else {}
    return t.get("n")


def used_as_value(f, s):
    """is the aggregate more than the operand of a comparison?"""
    if s.place.proj:
        return True
    l = s.place.local
    locs = {l}
    ch = True
    while ch:
        ch = False
        for b in f.reachable:
            for x in f.stmts[b]:
                if x.rv[0] in ("use", "ref", "cast"):
                    src = x.rv[1].place if x.rv[0] == "use" and x.rv[1].kind == "p" else x.rv[2] if x.rv[0] == "ref" else x.rv[2].place if x.rv[0] == "cast" and x.rv[2].kind == "p" else None
                    if src is not None and src.local in locs and x.place.local not in locs:
                        if x.place.bare:
                            locs.add(x.place.local)
                            ch = True
                        else:
                            return True
    for b in f.reachable:
        for x in f.stmts[b]:
            if x.rv[0] == "agg" and any(o.kind == "p" and o.place.local in locs for o in x.rv[2]):
                return True
        t = f.terms[b]
        if t[0] == "call":
            c = t[1]
            if any(a.kind == "p" and a.place.local in locs for a in c.args):
                if not (c.callee and c.callee.name in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "fmt")):
                    return True
    return l == 0


def run(prog, res, tier):
    from sa.spec import Spec
    owner.sp = Spec(prog)
    roots = read_roots(prog) + save_roots(prog)
    scope = prog.reach(roots)
    tot = made = pas = 0
    makers = {}
    for fid in sorted(scope):
        f = prog.fns[fid]
        if f.id.startswith(PO) or f.trait in ("core::clone::Clone", "core::default::Default") or PO in f.id or PM in f.id or WO in f.id:
            continue
        g = given(prog, f)
        tot += g
        for b in f.reachable:
            t = f.terms[b]
            if t[0] == "call":
                pas += any(a.ty is not None and kinds_of(f, f.ty(a.ty)) for a in t[1].args)
        fr = fresh(prog, f)
        if not fr:
            continue
        made += 1
        for what, span in fr:
            if g:
                res.add(f"fresh:{f.id}", f"{f.id}: is given parsing options but uses {what}", f.loc(span))
            else:
                makers.setdefault(fid, (what, span))
    # made-up modes behind a function that is not given options: its callers which are
    for fid, (what, span) in makers.items():
        m = prog.fns[fid]
        top = fid
        while prog.fns[top].kind == "Closure":
            top = top.rsplit("::{closure", 1)[0]
        if not (prog.fns[top].trait or "").startswith(("core::", "tag::accessor")):
            res.add(f"fresh:{fid}", f"{fid}: on a reading path, uses {what} and takes no options from its caller", m.loc(span))
            continue
        for g in scope:
            h = prog.fns[g]
            if not given(prog, h):
                continue
            for c in h.calls:
                if any(t.id == top for t in prog.targets(c)) or (c.callee and c.callee.path.startswith("core::str::") and c.callee.name == "parse" and str(top).split(" as ")[0].strip("<").rsplit("::", 1)[-1] in h.tys(c.dest.ty)):
                    res.add(f"bypass:{g}:{top}", f"{g}: is given parsing options but parses through {top}, which uses {what}", h.loc(c.span))
    res.floor("option_setters", setters(prog, res), 14)
    res.floor("functions_given_options", tot, 60)
    res.floor("calls_passing_options", pas, 100)
    res.coverage["functions_making_options"] = made
    res.coverage["functions_on_reading_paths"] = len(scope)


GO = "config::global_options::GlobalOptions"


def setters(prog, res):
    """a builder method named after a field stores its argument in that field and nowhere else"""
    n = 0
    for adt in (PO, WO, GO):
        a = prog.adts.get(adt)
        if a is None:
            continue
        fields = [x[0] for x in a["vs"][0]["f"]]
        for f in prog.fns.values():
            if f.kind == "Closure" or not f.id.startswith(adt + "::") or f.argc != 2 or f.name not in fields:
                continue
            n += 1
            stores = set()
            for b in f.reachable:
                for s in f.stmts[b]:
                    fl = [e for e in s.place.proj if e[0] == "f"]
                    if not fl or root(f, s.place.local) != 1:
                        continue
                    if fl[0][2] != f.name:
                        res.add(f"setter:{f.id}", f"{f.id}: changes {fl[0][2]}", f.loc(s.span))
                        continue
                    ops = rv_ops(s.rv)
                    if s.rv[0] in ("use", "cast", "agg") and ops and all(from_arg(f, o) for o in ops):
                        stores.add(b)
                t = f.terms[b]
                if t[0] == "call" and root(f, t[1].dest.local) == 1 and t[1].dest.proj:
                    fl = [e for e in t[1].dest.proj if e[0] == "f"]
                    if fl and fl[0][2] == f.name and t[1].callee and t[1].callee.path.endswith("::into") and all(op_root(f, o) == 2 for o in t[1].args):
                        stores.add(b)
            if not covers(f, stores):
                res.add(f"setter:{f.id}", f"{f.id}: does not store its argument in {f.name} on every path", f.loc())
    return n


def from_arg(f, o):
    """the setter's argument as it is (possibly wrapped)"""
    if o.kind != "p":
        return False
    locs, _, cs, sts = slice_back(f, o)
    return 2 in locs and all(c.callee and (c.callee.name in ("into", "from", "clone") or c.callee.path.startswith("core::num::nonzero::")) for c in cs) and \
        all(x.rv[0] in ("use", "cast", "agg", "ref", "discr") for x in sts)


def covers(f, stores):
    """every path to the return passes one of the blocks"""
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen or b in stores:
            continue
        seen.add(b)
        if f.terms[b][0] == "return":
            return False
        st.extend(f.succs(b))
    return True
