"""P23: custom resolvers are consulted exactly when they are enabled, and then before anything else."""
from sa.common import *
from sa.flow import *
from sa.mir import rv_ops
from sa.spec import Spec

RULE = ("with use_custom_resolvers off, no detection or reading function can reach the registry or a resolver; with it on, no built-in "
        "file type is decided on a path on which the registry was not consulted first")
EXPLANATION = ("Conditional constant propagation with the option fixed to each value over every public detection and reading entry "
               "point, following calls with the constants they receive; then dominance of the registry access over the built-in decisions.")
FIELD = ("config::global_options::GlobalOptions", "use_custom_resolvers")
FT = "file::file_type::FileType"


def touches(f, b):
    """[(what, span)] uses in a block of a static that holds resolvers"""
    out = []
    for s in f.stmts[b]:
        for o in rv_ops(s.rv):
            if o.kind == "k" and (o.val.get("static") or o.item) and "ObjectSafeFileResolver" in f.tys(o.ty):
                out.append(("the registry", s.span))
    t = f.terms[b]
    if t[0] == "call":
        for o in t[1].args:
            if o.kind == "k" and (o.val.get("static") or o.item) and "ObjectSafeFileResolver" in f.tys(o.ty):
                out.append(("the registry", t[1].span))
    return out


def run(prog, res, tier):
    roots = set(read_roots(prog))
    for f in prog.fns.values():
        if f.kind == "Closure":
            continue
        if f.id.startswith(FT + "::") and f.name in ("from_ext", "from_path", "from_buffer"):
            roots.add(f.id)
        if f.id.startswith("probe::") and f.reach:
            roots.add(f.id)
    # resolvers' own implementation and format queries about custom types are not detection
    skip = lambda f: f.id.startswith("<resolve::GhostlyResolver") or (f.id.startswith(FT + "::") and f.name in ("primary_tag_type", "tag_support"))
    off = Spec(prog, fields={FIELD: 0}, deep=True)
    live = off.live_closure(sorted(roots), stop=skip)
    n = 0
    fns = set()
    for (fid, args), bl in sorted(live.items(), key=lambda x: repr(x[0])):
        f = prog.fns[fid]
        fns.add(fid)
        for b in bl:
            n += 1
            for what, span in touches(f, b):
                res.add(f"consulted:{fid}", f"{fid}: {what} is used although custom resolvers are switched off", f.loc(span))
    # switched on: asked before any built-in decision
    on = Spec(prog, fields={FIELD: 1}, deep=True)
    direct = {}
    for f in prog.fns.values():
        if skip(f) or f.id.startswith("resolve::register_custom"):
            continue
        for b in f.reachable:
            if touches(f, b):
                direct.setdefault(f.id, set()).add(b)
    cons = set(direct)
    for f in prog.fns.values():
        if f.id.startswith((FT, "probe::", "resolve::")) and not skip(f) and not f.id.startswith("resolve::register_custom"):
            if prog.reach([f.id], stop=lambda x: skip(prog.fns[x])) & set(direct):
                cons.add(f.id)
    accessors = cons
    consult_fns = builtin = 0
    for f in prog.fns.values():
        if f.kind == "Closure" or not f.id.startswith((FT, "probe::", "resolve::")) or skip(f):
            continue
        sites = {b for b in direct.get(f.id, ()) if any(w == "the registry" for w, _ in touches(f, b))}
        for c in f.calls:
            if any(t.id in accessors for t in prog.targets(c)):
                sites.add(c.bb)
        if not sites or not returns_type(f):
            continue
        consult_fns += 1
        lv, _, _ = on.run(f, ())
        edges = on.edges.get((f.id, ()), {})
        # blocks reachable without passing a consulting block
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if b in sites:
                continue
            st.extend(x for x in edges.get(b, f.succs(b)) if x in lv)
        for b in sorted(lv):
            bad = None
            for s in f.stmts[b]:
                if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == "core::option::Option" and s.rv[1][2] == 1 and \
                        s.rv[2] and s.rv[2][0].ty is not None and f.ty(s.rv[2][0].ty).get("n") == FT and not custom(f, s.rv[2][0]):
                    bad = ("a built-in type", s.span)
            t = f.terms[b]
            if t[0] == "call" and t[1].dest.local == 0 and t[1].dest.bare and t[1].callee and t[1].callee.name != "from_residual":
                bad = ("the result of " + t[1].callee.name + "()", t[1].span)
            if bad:
                builtin += 1
                if b in seen and b not in sites:
                    res.add(f"order:{f.id}", f"{f.id}: {bad[0]} is decided on a path where enabled resolvers were not asked first", f.loc(bad[1]))
    # every way to detect must ask
    for need in ("from_ext", "guess_file_type"):
        fs = [f for f in prog.fns.values() if f.name == need and f.id.startswith((FT, "probe::Probe"))]
        if not fs:
            res.add(f"floor:{need}", f"{need} not found")
        for f in fs:
            if not (prog.reach([f.id]) & (accessors | set(direct))):
                res.add(f"never-asked:{f.id}", f"{f.id}: detection never asks the registered resolvers", f.loc())
    res.floor("entry_points", len(roots), 15)
    res.floor("functions_live_with_resolvers_off", len(fns), 300)
    res.floor("functions_consulting_the_registry", consult_fns, 2)
    res.floor("built_in_decisions_after_consultation", builtin, 8)
    res.coverage["blocks_examined"] = n


def returns_type(f):
    return FT in f.tys(f.locals[0][0])


def custom(f, o):
    """is the operand certainly a custom type?"""
    if o.kind == "p":
        for k, b, x in defs(f).whole(o.place.local):
            if k == "stmt" and x.rv[0] == "agg" and x.rv[1][0] == "adt" and x.rv[1][3] == "Custom":
                return True
    return False
