"""P07: leniency never adds errors."""
from sa.spec import Spec
from sa.common import *
from sa import errflow

RULE = ("every branch that depends on the parsing mode: if the stricter mode's side can still succeed, "
        "no error exit is reachable only on the more lenient side")
EXPLANATION = ("Conditional constant propagation specialises every function to each of the three parsing modes "
               "(all values of the mode type are fixed, comparisons and matches on it are evaluated, also through helpers). "
               "For each adjacent pair of modes the live control-flow graphs are compared: error exits live only in the "
               "lenient graph are attributed to the branches that lead to them; they are a violation when the stricter "
               "mode may return success from that branch.")
PM = "config::parse_options::ParsingMode"


def err_exits(f, live, prog):
    """{block: description} blocks that put an Err in the return place"""
    out = {}
    for b in live:
        for s in f.stmts[b]:
            if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == "core::result::Result" and s.rv[1][2] == 1:
                out[b] = ("err", s.span)
        t = f.terms[b]
        if t[0] == "call" and t[1].callee and t[1].callee.name == "from_residual":
            out[b] = ("?", t[1].span)
    return out


def residual_source(f, b):
    """the call whose error block b propagates (walk back through branch/map_err)"""
    c = f.terms[b][1]
    loc = {c.args[0].place.local} if c.args and c.args[0].kind == "p" else set()
    seen = set()
    src = []
    work = list(loc)
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for bb in f.reachable:
            for s in f.stmts[bb]:
                if s.place.local == l:
                    from sa.mir import rv_places
                    work += [p.local for p in rv_places(s.rv)]
            t = f.terms[bb]
            if t[0] == "call" and t[1].dest.local == l and t[1] is not c:
                n = t[1].callee.name if t[1].callee else ""
                if n in ("branch", "map_err", "from", "into", "map", "and_then", "transpose"):
                    work += [a.place.local for a in t[1].args if a.kind == "p"]
                else:
                    src.append(t[1])
    return src


def may_ok(f, edges, start, exits):
    """can the function return without passing an error exit, from these blocks?"""
    seen = set()
    work = [b for b in start]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in exits:
            continue
        if f.terms[b][0] == "return":
            return True
        work += edges.get(b, ())
    return False


class Escape:
    """does an error of a function, in one mode, reach a caller of the library's entry points?"""

    def __init__(self, prog, spec, roots):
        self.prog, self.spec, self.roots = prog, spec, set(roots)
        self.memo = {}
        self.callers = {}
        for g in prog.fns.values():
            for c in g.calls:
                ts = [t.id for t in prog.targets(c)]
                if c.callee and c.callee.target not in prog.fns:
                    ts += prog._through_std(g, c)
                for t in ts:
                    self.callers.setdefault(t, []).append((g, c))
            for cl in prog.closures_of[g.id]:
                self.callers.setdefault(cl, []).append((g, None))

    def __call__(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        self.memo[fid] = False
        r = fid in self.roots
        for g, c in self.callers.get(fid, ()):
            if r:
                break
            if g.id == fid:
                continue
            if c is not None:
                live = self.spec.run(g)[0]
                if c.bb not in live or not errflow.propagates(g, c, live):
                    continue
            if self(g.id):
                r = True
        self.memo[fid] = r
        return r


def run(prog, res, tier):
    roots = set(read_roots(prog)) | set(save_roots(prog))
    escapes = None
    vs = prog.adts[PM]["vs"]
    names = [v["n"] for v in vs]
    specs = [Spec(prog, enums={PM: i}) for i in range(len(vs))]
    scope = prog.reach(read_roots(prog) + save_roots(prog))
    scope |= {f.id for f in prog.fns.values() if f.span}
    nb = nf = npairs = nswallowed = 0
    for fid in sorted(scope):
        f = prog.fns[fid]
        lives = [sp.run(f)[0] for sp in specs]
        if all(l == lives[0] for l in lives):
            continue
        nf += 1
        for i in range(len(vs)):
            for j in range(i + 1, len(vs)):
                S, L = lives[i], lives[j]
                npairs += 1
                exl = err_exits(f, L, prog)
                exs = err_exits(f, S, prog)
                only = L - S
                es, el = specs[i].edges[(fid, ())], specs[j].edges[(fid, ())]
                for d in sorted(S & L):
                    ss, ll = es.get(d, set()), el.get(d, set())
                    ent = ll - ss
                    if not ent:
                        continue
                    nb += 1
                    if not may_ok(f, es, ss, exs):
                        continue        # the stricter side certainly fails
                    # error exits first reached through blocks the stricter mode never runs
                    reg = set()
                    work = [x for x in ent if x in only]
                    while work:
                        x = work.pop()
                        if x in reg or x not in only:
                            continue
                        reg.add(x)
                        if x in exl:
                            continue
                        work += el.get(x, ())
                    bad = [x for x in sorted(reg) if x in exl]
                    # or every way on from the lenient side fails
                    if not bad and not (ss <= ll) and not may_ok(f, el, ent, exl):
                        r2 = set()
                        work = list(ent)
                        while work:
                            x = work.pop()
                            if x in r2:
                                continue
                            r2.add(x)
                            if x in exl:
                                bad.append(x)
                                continue
                            work += el.get(x, ())
                    if bad and escapes is None:
                        escapes = [Escape(prog, sp, roots) for sp in specs]
                    if bad and not escapes[j](fid):
                        nswallowed += 1
                        continue
                    for x in bad:
                        kind, span = exl[x]
                        what = "an error"
                        src = []
                        if kind == "?":
                            src = residual_source(f, x)
                            if src and all(io_kind(c) in ("read", "seek") for c in src):
                                continue    # failure of the underlying reader
                            what = "errors of " + ",".join(sorted({c.path or "?" for c in src}))
                        key = f"lenient-error:{fid}" + (":" + "+".join(sorted({(c.callee.name if c.callee else '?') for c in src})) if src else "")
                        res.add(key, f"{fid}: {names[j]} can fail here with {what}, where {names[i]} goes on "
                                f"(mode-dependent branch at {f.loc(term_span(f, d))})", f.loc(span))
    res.floor("functions_depending_on_mode", nf, 20)
    res.floor("mode_dependent_branches_compared", nb, 25)
    res.coverage["branches_whose_errors_a_caller_discards_in_that_mode"] = nswallowed
    res.coverage["mode_pairs_compared"] = npairs
    res.coverage["functions_specialised"] = len(scope)


def term_span(f, b):
    t = f.terms[b]
    if t[0] == "call":
        return t[1].span
    for s in f.stmts[b]:
        return s.span
    return f.span
