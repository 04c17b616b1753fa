"""P08: what the parsing options exclude is not read."""
from sa.spec import Spec
from sa.common import *
from sa.flow import adt_names

RULE = ("with reading of tags (properties, cover art) switched off, no code that builds or fills a tag (properties, picture) "
        "is reachable from any format's reader, except behind a test of the picture key")
EXPLANATION = ("Interprocedural conditional constant propagation from every format's reader with the option fixed to false: values, "
               "struct fields, enum variants and results of calls are tracked per calling context, so that a helper told not to "
               "read returns a known 'nothing'. Every construction of, store into, or mutable call on a tag, properties or picture "
               "value in the code that remains live is reported.")
PO = "config::parse_options::ParseOptions"
TRIV = {"core::clone::Clone", "core::default::Default", "core::convert::From", "core::convert::Into",
        "core::cmp::PartialEq", "core::fmt::Debug", "core::hash::Hash", "core::ops::drop::Drop"}
PIC = "picture::Picture"


def tag_types(prog):
    out = set()
    for cr in prog.crates:
        for im in cr.impls:
            if im["trait"] == "tag::tag_ext::TagExt":
                for n, p in im["m"]:
                    f = prog.fns.get(p)
                    if f is not None and f.self_ty is not None:
                        t = cr.tys[f.self_ty]
                        if t.get("k") == "adt":
                            out.add(t["n"])
    return {t for t in out if t in prog.adts and t != "tag::Tag"}


def prop_types(prog, roots):
    """types of the files' properties fields"""
    out = set()
    for r in roots:
        f = prog.fns[r]
        t = f.crate.tys[f.self_ty] if f.self_ty is not None else {}
        a = prog.adts.get(t.get("n"))
        if a:
            for n, ty, pub in a["vs"][0]["f"]:
                if n == "properties":
                    x = a["crate"].tys[ty]
                    if x.get("n") in prog.adts:
                        out.add(x["n"])
    return out


def prefix_types(sp, f, p):
    """ADTs whose fields a place goes through"""
    t = f.local_ty(p.local)
    out = set()
    for i, e in enumerate(p.proj):
        if e[0] == "f":
            x = strip(f, t) if t else None
            if x and x.get("k") == "adt":
                out.add(x["n"])
        t = sp.proj_ty(f, t, e) if t else None
    return out


def sinks(prog, sp, clo, types, what=""):
    """places where a value of one of the types is built or filled: [(fn, block, type, what, span)]"""
    out = []
    for (fid, args), live in clo.items():
        f = prog.fns[fid]
        if f.trait in TRIV:
            continue
        for b in live:
            for s in f.stmts[b]:
                if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] in types:
                    out.append((f, b, s.rv[1][1], "built", s.span))
                if s.place.proj and not (what == "properties" and f.tys(s.place.ty) == "alloc::string::String"):
                    for t in prefix_types(sp, f, s.place) & types:
                        out.append((f, b, t, "stored into", s.span))
                if s.rv[0] == "ref" and s.rv[1] and s.rv[2].proj:
                    for t in prefix_types(sp, f, s.rv[2]) & types:
                        out.append((f, b, t, "borrowed for writing", s.span))
            t = f.terms[b]
            if t[0] == "call":
                c = t[1]
                if c.dest.proj:
                    for x in prefix_types(sp, f, c.dest) & types:
                        out.append((f, b, x, "stored into", c.span))
                for a in c.args:
                    if a.ty is None:
                        continue
                    ty = f.ty(a.ty)
                    if ty.get("k") == "ref" and ty.get("m"):
                        x = strip(f, ty).get("n")
                        if x in types and (c.callee is None or c.callee.trait not in TRIV):
                            out.append((f, b, x, f"changed by {c.callee.name if c.callee else 'a call'}", c.span))
    return out


def strings_of(f, o, depth=0):
    """string constants an operand stands for (through promoteds and items)"""
    out = set()

    def val(v):
        if isinstance(v, dict):
            if "s" in v and isinstance(v["s"], str):
                out.add(v["s"])
            for x in v.values():
                val(x)
        elif isinstance(v, list):
            for x in v:
                val(x)
    if o.kind == "k":
        val(o.val)
        if "promoted" in o.val and o.val["promoted"] < len(f.promoted):
            pf = f.promoted[o.val["promoted"]]
            for b in range(len(pf.stmts)):
                for s in pf.stmts[b]:
                    from sa.mir import rv_ops
                    for x in rv_ops(s.rv):
                        if x.kind == "k":
                            val(x.val)
    return out


def gated(prog, f, live, edges, b, keys):
    """is block b behind a test of the picture key(s) whose positive side does not lead to it?"""
    from sa.flow import root, defs, slice_back
    for c in f.calls:
        if c.bb not in live or c.callee is None or c.target is None:
            continue
        if c.callee.name not in ("eq", "contains", "ne", "eq_ignore_ascii_case", "any", "matches"):
            continue
        ss = set()
        for a in c.args:
            ss |= strings_of(f, a)
            if a.kind == "p":
                _, consts, _, _ = slice_back(f, a)
                for o in consts:
                    ss |= strings_of(f, o)
        if not ss & keys:
            continue
        # dominance within the live graph
        seen, work = set(), [0]
        while work:
            x = work.pop()
            if x in seen or x == c.bb:
                continue
            seen.add(x)
            work += edges.get(x, ())
        if b in seen:
            continue
        # the switch on its result
        x = c.target
        hops = 0
        while x is not None and f.terms[x][0] != "switch" and hops < 6:
            n = f.succs(x)
            x = n[0] if len(n) == 1 else None
            hops += 1
        if x is None or f.terms[x][0] != "switch":
            continue
        t = f.terms[x]
        pos = [y for v, y in t[2] if v != 0] + [t[3]] if c.callee.name != "ne" else [y for v, y in t[2] if v == 0]
        zero = {y for v, y in t[2] if v == 0}
        if c.callee.name != "ne":
            pos = [y for y in pos if y not in zero]
        seen, work = set(), list(pos)
        hit = False
        while work:
            y = work.pop()
            if y in seen or y == c.bb:
                continue
            seen.add(y)
            if y == b:
                hit = True
                break
            work += edges.get(y, ())
        if not hit:
            return True
    return False


def run(prog, res, tier):
    roots = [r for r in read_roots(prog) if prog.fns[r].trait == "file::audio_file::AudioFile" and "Tagged" not in r]
    tags = tag_types(prog)
    props = prop_types(prog, roots)

    def stop(f):
        # conversions between tag types do not read anything
        return f.trait in ("core::convert::From", "core::convert::Into") and any(
            n in tags or n == "tag::Tag" for i in range(0, f.argc + 1) for n in adt_names(f, f.local_ty(i)))
    base = Spec(prog, deep=True)
    bclo = base.live_closure(roots, stop)
    for opt, types, what in (("read_tags", tags | {PIC}, "tag"), ("read_properties", props, "properties")):
        n0 = sinks(prog, base, bclo, types, what)
        missing = {t for t in types if t != PIC} - {x[2] for x in n0}
        res.floor(f"{what}_types", len(types) - len(missing) - (1 if PIC in types else 0), 7 if what == "tag" else 8)
        res.floor(f"{what}_building_sites_with_{opt}", len(n0), 15)
        sp = Spec(prog, fields={(PO, opt): 0}, deep=True)
        clo = sp.live_closure(roots, stop)
        res.coverage[f"functions_live_without_{opt}"] = len({k[0] for k in clo})
        for f, b, t, how, span in sinks(prog, sp, clo, types, what):
            res.add(f"{opt}:{f.id}:{t.rsplit('::', 1)[-1]}", f"{f.id}: a {t} is {how} although {opt} is off", f.loc(span))
    # cover art
    sp = Spec(prog, fields={(PO, "read_cover_art"): 0}, deep=True)
    clo = sp.live_closure(roots, stop)
    n0 = [x for x in sinks(prog, base, bclo, {PIC}) if x[3] == "built"]
    res.floor("picture_building_sites", len(n0), 3)
    live = {}
    for (fid, args), l in clo.items():
        live.setdefault(fid, set()).update(l)
    callers = {}
    for fid, l in live.items():
        f = prog.fns[fid]
        for b in l:
            t = f.terms[b]
            if t[0] == "call":
                for g in prog.targets(t[1]):
                    callers.setdefault(g.id, []).append((f, b, t[1].span))
            for s in f.stmts[b]:
                if s.rv[0] == "agg" and s.rv[1][0] == "closure":
                    callers.setdefault(prog._cl(f, s.rv[1][1]), []).append((f, b, s.span))
    keys = {"APIC", "PIC"}
    ngates = 0

    def edges_of(fid):
        e = {}
        for (x, a), ed in sp.edges.items():
            if x == fid:
                for k, v in ed.items():
                    e.setdefault(k, set()).update(v)
        return e

    def covered(fid, b, seen, trail):
        """every live way to this block passes a gate"""
        nonlocal ngates
        f = prog.fns[fid]
        if gated(prog, f, live[fid], edges_of(fid), b, keys):
            ngates += 1
            return None
        if fid in roots:
            return trail + [fid]
        for g, gb, span in callers.get(fid, ()):
            if g.id in seen:
                continue
            r = covered(g.id, gb, seen | {g.id}, trail + [fid])
            if r:
                return r
        return None
    for f, b, t, how, span in sinks(prog, sp, clo, {PIC}):
        if how != "built":
            continue
        r = covered(f.id, b, {f.id}, [])
        if r:
            res.add(f"read_cover_art:{f.id}", f"{f.id}: a picture is built although cover art is not to be read, reached through {' <- '.join(r)}", f.loc(span))
    # APE stores pictures as binary items: item insertion is behind the test of the picture keys
    apekeys = set()
    for k, c in prog.consts.items():
        v = c.get("val")
        if k.startswith("ape::") and isinstance(v, dict):
            s = str(v)
            if "Cover Art (Front)" in s:
                apekeys.add("Cover Art (Front)")
    nape = 0
    for fid, l in live.items():
        f = prog.fns[fid]
        if f.file.endswith("ape/tag/read.rs"):
            for b in l:
                t = f.terms[b]
                if t[0] == "call" and t[1].path and t[1].path.startswith("ape::tag::ApeTag::") and t[1].callee.name in ("insert", "push"):
                    nape += 1
                    if not gated(prog, f, l, edges_of(fid), b, {"Cover Art (Front)"}):
                        # a helper: its callers must test
                        if not all(gated(prog, g, live[g.id], edges_of(g.id), gb, {"Cover Art (Front)"}) for g, gb, _ in callers.get(fid, ())) or not callers.get(fid):
                            res.add(f"read_cover_art:{fid}", f"{fid}: APE items are kept without a test for the picture keys although cover art is not to be read", f.loc(t[1].span))
    res.floor("ape_item_insertions", nape, 1)
    res.coverage["picture_key_tests_found"] = ngates
