"""P06: saving or removing one tag either is refused before the file is touched, or nothing but I/O can fail any more."""
from sa import errflow
from sa.common import *
from sa.flow import root

RULE = ("in every function on the save/remove paths of a tag, no call or statement that can reject the request "
        "(return an error that is not an I/O failure) lies behind a call that writes to or truncates the file")
EXPLANATION = ("Call graph closure from every public save/remove entry point of a tag. Per function and parameter, the effects "
               "(writes to or truncates the object behind the parameter) are propagated to a fixpoint, buffers in memory excluded by type. "
               "Per function, 'can reject' (creates an error value, or passes on one that is not std::io::Error) is propagated likewise. "
               "Then for every mutating call every rejecting site reachable from its successful return is a violation.")

# passed on unchanged, these are not the request being refused
IO_ERR = ("std::io::error::Error", "alloc::io::error::Error", "core::io::error::Error", "core::fmt::Error", "!", "core::convert::Infallible")


def holds_file(prog, f, t, depth=0, crate=None):
    """may an object of this type be, or reach, a file?"""
    k = t.get("k")
    if depth > 8:
        return True
    if k in ("ref", "ptr"):
        return holds_file(prog, f, f.ty(t["a"][0]), depth)
    if k in ("param", "dyn", "alias", "proj", "opaque", "other"):
        return True
    if k == "adt":
        n = t["n"]
        if n == "std::fs::File":
            return True
        if n.startswith(("core::", "alloc::", "std::")) or n not in prog.adts:
            return any(holds_file(prog, f, f.ty(a), depth + 1) for a in t.get("a", []) if isinstance(a, int)) and not in_memory(f, t)
        if any(holds_file(prog, f, f.ty(a), depth + 1) for a in t.get("a", []) if isinstance(a, int)):
            return True
        return own_file(prog, n, set())
    if k in ("tuple", "slice", "array"):
        return any(holds_file(prog, f, f.ty(a), depth + 1) for a in t.get("a", []) if isinstance(a, int))
    if k in ("closure", "fndef", "fnptr"):
        return k == "closure"
    return False


def own_file(prog, n, seen):
    """does the struct name a File or a trait object in its fields (its parameters aside)?"""
    if n in seen or n not in prog.adts:
        return n == "std::fs::File"
    seen.add(n)
    a = prog.adts[n]
    tys = a["crate"].tys

    def go(i, d=0):
        t = tys[i]
        k = t.get("k")
        if k == "dyn":
            return True
        if k == "adt" and own_file(prog, t["n"], seen):
            return True
        return d < 6 and any(go(x, d + 1) for x in t.get("a", []) or [] if isinstance(x, int))
    return any(go(fl[1]) for v in a["vs"] for fl in v["f"])


def classes(prog, f, call, which):
    """parameters of f (or 'own') behind the given arguments of the call, memory left out"""
    out = set()
    for i in which:
        if i == "own":
            out.add("own")
            continue
        if i - 1 >= len(call.args):
            continue
        a = call.args[i - 1]
        if a.kind != "p":
            continue
        if a.ty is not None and not holds_file(prog, f, f.ty(a.ty)):
            continue
        r = root(f, a.place.local)
        if not holds_file(prog, f, f.local_ty(r)):
            continue
        out.add(r if 1 <= r <= f.argc else "own")
    return out


def mutations(prog, f, eff):
    """[(call, classes)] calls of f that may change a file"""
    out = []
    for c in f.calls:
        k = io_kind(c)
        if k in ("write", "trunc"):
            w = classes(prog, f, c, [1])
        elif c.callee and c.callee.path.endswith("::io::copy"):
            w = classes(prog, f, c, [2])
        else:
            w = set()
            for t in prog.targets(c):
                w |= classes(prog, f, c, eff.get(t.id, ()))
            for a in c.args:     # a closure handed over is called there
                t = f.ty(a.ty) if a.ty is not None else {}
                while t.get("k") == "ref":
                    t = f.ty(t["a"][0])
                if t.get("k") == "closure" and eff.get(t.get("n")):
                    w.add("own")
        if w:
            out.append((c, w))
    return out


def err_name(f, t):
    if t.get("k") == "adt" and t["n"] == "core::option::Option" and t.get("a"):
        t = f.ty(t["a"][0])
    if t.get("k") == "adt" and t["n"] == "core::result::Result":
        return f.tys(t["a"][1])
    return None


def rejections(prog, f, rej, memory=False):
    """[(block, what, loc)]: sites that create an error, or pass one on that is not I/O"""
    out = []
    for b in sorted(f.reachable):
        for s in f.stmts[b]:
            if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == "core::result::Result" and s.rv[1][2] == 1:
                out.append((b, "creates an error", f.loc(s.span)))
    for c in f.calls:
        if not c.callee:
            continue
        e = err_name(f, f.ty(c.dest.ty))
        if not e:
            continue
        ts = list(prog.targets(c))
        if ts:
            r = [t for t in ts if rej.get(t.id)]
            if not r:
                continue
            w = f"calls {r[0].id}, which can refuse"
        elif c.callee.name in ("map_err", "from_residual", "map", "and_then", "branch", "transpose"):
            continue
        elif memory and io_kind(c) == "read" and c.args and in_memory(f, f.ty(c.args[0].ty)):
            w = f"reads bytes that may be missing from memory ({c.callee.name})"
        elif e.startswith(IO_ERR) or "PoisonError" in e or "BorrowMutError" in e:
            continue
        else:
            w = f"calls {c.callee.path}"
        if errflow.propagates(f, c, strict=True):
            out.append((c.bb, w, f.loc(c.span)))
    return out


def actual(prog, rs, scope):
    """fn -> its parameters that are the file itself on some path from a save ('own': always)"""
    live = {}
    work = []
    for r in rs:
        f = prog.fns[r]
        live[r] = {"own"} | {i for i in range(1, f.argc + 1) if holds_file(prog, f, f.local_ty(i))}
        work.append(r)
    while work:
        f = prog.fns[work.pop()]
        here = live[f.id]
        for c in f.calls:
            for t in prog.targets(c):
                if t.id not in scope:
                    continue
                add = {"own"}
                for i in range(1, min(t.argc, len(c.args)) + 1):
                    if classes(prog, f, c, [i]) & here:
                        add.add(i)
                if t.kind == "Closure":
                    add |= set(range(1, t.argc + 1))
                if t.id not in live or not add <= live[t.id]:
                    live[t.id] = live.get(t.id, set()) | add
                    work.append(t.id)
        for cl in prog.closures_of[f.id]:
            if cl in scope and cl not in live:
                live[cl] = {"own"} | set(range(1, prog.fns[cl].argc + 1))
                work.append(cl)
    return live


def after(f, c):
    """blocks reachable from the successful return of c"""
    seen, w = set(), [c.target] if c.target is not None else []
    while w:
        b = w.pop()
        if b not in seen:
            seen.add(b)
            w += f.succs(b)
    return seen


def roots(prog):
    out = []
    for r in save_roots(prog):
        f = prog.fns[r]
        if f.trait == "file::audio_file::AudioFile" or r.startswith("file::audio_file::AudioFile"):
            continue      # several tags one after the other: each is a request of its own
        out.append(r)
    return out


def run(prog, res, tier):
    rs = roots(prog)
    scope = prog.reach(rs)
    eff, ch = {}, True
    while ch:
        ch = False
        for fid in scope:
            f = prog.fns[fid]
            w = set()
            for _, x in mutations(prog, f, eff):
                w |= x
            if not w <= eff.get(fid, set()):
                eff[fid] = eff.get(fid, set()) | w
                ch = True
    rej, ch = {}, True
    while ch:
        ch = False
        for fid in scope:
            if not rej.get(fid) and rejections(prog, prog.fns[fid], rej):
                rej[fid] = ch = True
    live = actual(prog, rs, scope)
    nmut = npair = nfn = 0
    for fid in sorted(scope):
        f = prog.fns[fid]
        ms = [(c, w) for c, w in mutations(prog, f, eff) if w & live.get(fid, {"own"})]
        if not ms:
            continue
        nfn += 1
        R = rejections(prog, f, rej, memory=True)
        for c, _ in ms:
            nmut += 1
            seen = after(f, c)
            for b, what, loc in R:
                npair += 1
                if b in seen:
                    nm = c.callee.name if c.callee else "call"
                    res.add(f"refuse:{f.id}:{nm}:{what.replace('calls ', '').split(',')[0]}".replace(" ", "_"),
                            f"{f.id}: after {nm} ({f.loc(c.span)}) has changed the file, the request can still be refused: {what} at {loc}", loc)
    res.floor("save and remove entry points of tags", len(rs), 20)
    res.floor("functions that change the file", nfn, 25)
    res.floor("calls that change the file", nmut, 60)
    res.coverage["functions on the paths"] = len(scope)
    res.coverage["functions that can refuse"] = len(rej)
    res.coverage["pairs (change, refusal) of one function"] = npair
