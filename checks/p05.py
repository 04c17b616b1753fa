"""P05: no failure of a write, truncate or seek on the file being saved is dropped."""
from sa import errflow
from sa.common import *
from sa.flow import root

RULE = ("for every call on the save/remove paths whose callee writes to, truncates or seeks the file "
        "(directly or through any callee), every CFG path on which it fails returns an error; "
        "Write::write (which may write less than asked) is not used on the file with its count unchecked")
EXPLANATION = ("Call graph closure from every public save/remove entry point. Effects (writes/truncates/seeks a "
               "non-memory object) are propagated bottom-up to a fixpoint. From each fallible call with such an effect the "
               "error path is traced through the CFG: the value is followed through matches, `?`, combinators and "
               "aggregates until the function returns; a path that returns without an Err is reported.")


def memory_only(c):
    """every object the call may mutate is memory: its effects stay there"""
    f = c.fn
    ts = [f.ty(a.ty) for a in c.args if a.ty is not None]
    ts = [t for t in ts if (t.get("k") == "ref" and t.get("m")) or t.get("k") in ("param", "adt")]
    return bool(ts) and all(in_memory(f, t) for t in ts)


def effects(prog, scope):
    """fn id -> set of 'write','trunc','seek' it may perform on a non-memory object"""
    eff = {}
    calls = {}
    for fid in scope:
        f = prog.fns[fid]
        e = set()
        cs = []
        for c in f.calls:
            k = io_kind(c)
            if k in ("write", "trunc", "seek", "read"):
                if not c.args or not in_memory(f, f.ty(c.args[0].ty)):
                    e.add(k)
            else:
                # std helpers taking a writer
                if c.callee and c.callee.path in ("std::io::copy", "std::io::util::copy", "core::io::copy", "alloc::io::copy"):
                    if len(c.args) > 1 and not in_memory(f, f.ty(c.args[1].ty)):
                        e.add("write")
                cs += [(c, t.id) for t in prog.targets(c)]
        eff[fid] = e
        calls[fid] = cs
        for cl in prog.closures_of[fid]:
            if cl in prog.fns:
                calls[fid].append((None, cl))
    ch = True
    while ch:
        ch = False
        for fid in scope:
            for c, t in calls[fid]:
                add = eff.get(t, set())
                if c is not None and memory_only(c):
                    add = set()
                if not add <= eff[fid]:
                    eff[fid] |= add
                    ch = True
    return eff


BUFFERED = ("::BufWriter", "::LineWriter")


def buffered_on_file(f, t):
    """a writer that keeps bytes back and drops their error with itself"""
    if t.get("k") == "adt" and t["n"].endswith(BUFFERED):
        return not (t.get("a") and in_memory(f, f.ty(t["a"][0])))
    return False


def unflushed(f):
    """[(call, block)]: a buffering writer of the file is written to, then dropped on a successful path without a flush"""
    out = []
    ls = {i for i in range(f.argc + 1, len(f.locals)) if buffered_on_file(f, f.local_ty(i))}
    if not ls:
        return out
    for c in f.calls:
        if io_kind(c) == "write" or (c.callee and not c.callee.path.startswith(("core::", "alloc::", "std::io::buffered"))):
            ws = {root(f, a.place.local) for a in c.args if a.kind == "p" and f.ty(a.ty).get("k") == "ref" and f.ty(a.ty).get("m")} & ls
            if not ws or c.target is None or (c.callee and c.callee.name in ("flush", "into_inner", "into_parts")):
                continue
            w = ws.pop()
            seen, work = set(), [c.target]
            while work:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                if any(s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == "core::result::Result" and s.rv[1][2] == 1 for s in f.stmts[b]):
                    continue
                t = f.terms[b]
                if t[0] == "drop" and t[1].local == w:
                    out.append((c, b))
                    break
                if t[0] == "call":
                    k = t[1]
                    if k.callee and k.callee.name == "from_residual":
                        continue
                    if k.callee and k.callee.name in ("flush", "into_inner", "into_parts") and \
                            any(a.kind == "p" and root(f, a.place.local) == w for a in k.args):
                        continue
                    if k.callee and k.callee.name == "drop" and any(a.kind == "p" and a.place.local == w for a in k.args):
                        out.append((c, b))
                        break
                    if any(a.kind == "p" and a.move and a.place.bare and a.place.local == w for a in k.args):
                        continue
                work += f.succs(b)
    return out


def run(prog, res, tier):
    scope = prog.reach(save_roots(prog))
    eff = effects(prog, scope)
    ncalls = nfns = nwrite = 0
    for fid in sorted(scope):
        f = prog.fns[fid]
        hit = False
        for c in f.calls:
            k = io_kind(c)
            if k in ("write", "trunc", "seek"):
                if c.args and in_memory(f, f.ty(c.args[0].ty)):
                    continue
                rel = True
            else:
                e = set()
                for t in prog.targets(c):
                    e |= eff.get(t.id, set())
                rel = not memory_only(c) and (e & {"write", "trunc"} or ("seek" in e and "read" not in e))
                if c.callee and c.callee.path.endswith("::io::copy"):
                    rel = True
            if not rel:
                continue
            t = f.ty(c.dest.ty)
            if errflow.result_shape(f, t) is None:
                continue
            hit = True
            ncalls += 1
            name = c.callee.name if c.callee else "call"
            if k == "write" and name == "write" and c.callee.trait == "core::io::write::Write" and f.trait != "core::io::write::Write":
                nwrite += 1
                res.add(f"short-write:{f.id}", f"{f.id}: Write::write may store fewer bytes than given; its result is not a full write", f.loc(c.span))
            bad = errflow.trace(f, c, kinds=False)
            if bad:
                b = bad[0]
                res.add(f"dropped:{f.id}:{name}", f"{f.id}: when {c.path} fails, {b[2]} (path ends in bb{b[1]})", f.loc(c.span))
        nfns += hit
        for c, b in unflushed(f):
            res.add(f"unflushed:{f.id}", f"{f.id}: the buffering writer written to here is dropped without a flush: a failure to write what it still holds is lost", f.loc(c.span))
    res.floor("functions_with_file_effects", nfns, 25)
    res.floor("fallible_effect_calls_traced", ncalls, 150)
    res.coverage["functions_on_save_paths"] = len(scope)
    res.coverage["entry_points"] = len(save_roots(prog))
