"""P13: every Ogg page that is written is numbered and carries the checksum of what is written."""
from sa import errflow
from sa.common import *
from sa.flow import *

RULE = ("typestate on page values: a page whose bytes are serialised for writing had its checksum computed after the last "
        "change to it, on every path; a page re-read from the old file is renumbered with a counter that advances once per "
        "page written; when the remaining pages cannot be read, the rest of the file is written before success is returned")
EXPLANATION = ("Forward dataflow over the MIR of every function handling page values, with per-function summaries (what a callee "
               "requires of, and leaves in, the page it is given), joined at every merge point: state = {stale checksum, "
               "unnumbered}. The checksum table is evaluated by the compiler and compared entry by entry with the CRC-32 "
               "polynomial 0x04C11DB7.")


def is_page(n):
    return n in ("ogg_pager::Page", "Page")


def is_header(n):
    return n in ("ogg_pager::header::PageHeader", "header::PageHeader")


def has_page(f, l):
    return any(is_page(n) for n in adt_names(f, f.local_ty(l)))


def page_arg(f, o):
    """root local of an operand that is a page or a reference to one"""
    if o.kind != "p" or o.ty is None:
        return None
    t = strip(f, f.ty(o.ty))
    if t.get("k") == "adt" and (is_page(t["n"]) or is_header(t["n"])):
        return root(f, o.place.local)
    return None


STALE, UNNUM, FRESH = "stale checksum", "unnumbered", "fresh"


class Pages:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.sum = {}
        self.sites = 0
        self.fns = 0
        self.stack = []

    def summary(self, f):
        """-> (requires: {argi: set of states that must not hold}, effect: {argi: ('set'|'add'|'clean')})"""
        if f.id in self.sum:
            return self.sum[f.id]
        if f.id in self.stack:
            return ({}, {})
        self.stack.append(f.id)
        r = self.analyse(f)
        self.stack.pop()
        self.sum[f.id] = r
        return r

    def analyse(self, f):
        report = []
        req = {}
        prog = self.prog

        def get(st, l):
            return dict(st).get(l, frozenset())

        def put(st, l, v):
            d = dict(st)
            if v:
                d[l] = frozenset(v)
            else:
                d.pop(l, None)
            return tuple(sorted(d.items()))

        def join(a, b):
            d = dict(a)
            for l, v in b:
                d[l] = d.get(l, frozenset()) | v
            return tuple(sorted(d.items()))

        def fieldwrite(p):
            """is this place (inside) a page or header field? -> root local, field name"""
            t = f.local_ty(p.local)
            t = strip(f, t)
            if t.get("k") != "adt" or not (is_page(t["n"]) or is_header(t["n"])):
                return None
            fs = [e[2] for e in p.proj if e[0] == "f"]
            return (root(f, p.local), fs[-1]) if fs else None

        def stmt(b, i, s, st):
            w = fieldwrite(s.place)
            if w:
                l, fld = w
                cur = set(get(st, l))
                if fld == "checksum":
                    # only the checksum routine itself may store it
                    cur.add(STALE)
                elif fld == "sequence_number":
                    cur.discard(UNNUM)
                    cur.add(STALE)
                else:
                    cur.add(STALE)
                return put(st, l, cur)
            if s.place.bare and has_page(f, s.place.local):
                rv = s.rv
                if rv[0] == "agg" and rv[1][0] == "adt" and is_page(rv[1][1]):
                    return put(st, s.place.local, {STALE})
                srcs = [p.local for p in rv_places(rv)]
                if rv[0] in ("use", "agg", "cast") and srcs:
                    v = set()
                    for x in srcs:
                        v |= get(st, root(f, x) if strip(f, f.local_ty(x)) != f.local_ty(x) else x)
                    return put(st, s.place.local, v)
            return st

        def term(b, t, st):
            if t[0] == "call":
                c = t[1]
                nst = st
                tgt = c.path or ""
                pages = [(i, page_arg(f, a)) for i, a in enumerate(c.args)]
                pages = [(i, l) for i, l in pages if l is not None]
                name = c.callee.name if c.callee else ""
                full = tgt if tgt.startswith("ogg_pager") else tgt
                if is_method(full, "gen_crc"):
                    for _, l in pages:
                        nst = put(nst, l, set(get(nst, l)) - {STALE})
                elif is_method(full, "header_mut"):
                    for _, l in pages:
                        nst = put(nst, l, set(get(nst, l)) | {STALE})
                elif is_method(full, "as_bytes") and pages:
                    if f.name != "gen_crc":
                        use_site(b, c, pages[0][1], get(st, pages[0][1]), "serialised")
                elif is_method(full, "read") and not pages and has_page(f, c.dest.local):
                    nst = put(nst, c.dest.local, {UNNUM})
                    if c.target is not None:
                        return {c.target: nst}
                else:
                    handled = False
                    for g in prog.targets(c):
                        rq, ef = self.summary(g)
                        handled = True
                        for i, l in pages:
                            bad = rq.get(i + 1, set()) & get(nst, l)
                            if bad:
                                use_site(b, c, l, bad, f"passed to {g.id}")
                            elif rq.get(i + 1) and 1 <= l <= f.argc:
                                req.setdefault(l, set()).update(rq[i + 1])
                            e = ef.get(i + 1)
                            if e is not None:
                                cur = set(get(nst, l))
                                cur = (cur - e[0]) | e[1]
                                nst = put(nst, l, cur)
                    if not handled:
                        for i, l in pages:
                            ty = f.ty(c.args[i].ty)
                            if ty.get("k") == "ref" and ty.get("m"):
                                nst = put(nst, l, set(get(nst, l)) | {STALE})
                if c.dest.bare and has_page(f, c.dest.local) and not is_method(full, "header_mut") and not is_method(full, "header"):
                    ty = f.ty(c.dest.ty)
                    if ty.get("k") != "ref":
                        v = set()
                        srcs = [a.place.local for a in c.args if a.kind == "p" and has_page(f, a.place.local)]
                        if srcs and (name in errflow.KEEP or name in ("next", "into_iter", "ok", "unwrap", "expect", "take", "unwrap_or", "clone")):
                            for x in srcs:
                                v |= get(nst, root(f, x))
                            if name in ("next", "into_iter", "take"):
                                v |= {STALE}
                        else:
                            v = {STALE}
                            for g in prog.targets(c):
                                v |= {STALE}
                        nst = put(nst, c.dest.local, v)
                return {c.target: nst} if c.target is not None else {}
            return {x: st for x in f.succs(b)}

        def use_site(b, c, l, state, how):
            bad = set(state) & {STALE, UNNUM}
            if bad:
                report.append((c, l, bad, how))
            if 1 <= l <= f.argc:
                req.setdefault(l, set()).update({STALE, UNNUM})

        # parameters: unknown pages are the caller's obligation; detect what this function leaves behind
        init = ()
        ins = forward(f, init, stmt, term, join)
        out = None
        for b in f.reachable:
            if f.terms[b][0] == "return" and b in ins:
                st = ins[b]
                for i, s in enumerate(f.stmts[b]):
                    st = stmt(b, i, s, st)
                out = st if out is None else join(out, st)
        # a second run with every page parameter in all states tells what is definitely cleaned
        pp = [l for l in range(1, f.argc + 1) if has_page(f, l)]
        eff = {}
        if pp:
            n = len(report)
            req_keep = {k: set(v) for k, v in req.items()}
            full_init = tuple(sorted((l, frozenset({STALE, UNNUM})) for l in pp))
            # obligations met inside: a use in a bad state means the caller must provide a good one
            bad_use = {}
            rep0 = list(report)
            report.clear()
            ins2 = forward(f, full_init, stmt, term, join)
            for c, l, bad, how in report:
                if l in pp:
                    bad_use.setdefault(l, set()).update(bad)
            report[:] = rep0
            req.clear()
            req.update({k: v for k, v in bad_use.items()})
            out2 = None
            for b in f.reachable:
                if f.terms[b][0] == "return" and b in ins2:
                    st = ins2[b]
                    for i, s in enumerate(f.stmts[b]):
                        st = stmt(b, i, s, st)
                    out2 = st if out2 is None else join(out2, st)
            for l in pp:
                o1 = dict(out or ()).get(l, frozenset())
                o2 = dict(out2 or ()).get(l, frozenset())
                eff[l] = ({STALE, UNNUM} - o2, set(o1))
        done = set()
        for b in f.reachable:
            t = f.terms[b]
            if t[0] == "call" and (is_method(t[1].path or "", "as_bytes")) and any(page_arg(f, a) is not None for a in t[1].args):
                if f.name != "gen_crc":
                    self.sites += 1
        for c, l, bad, how in report:
            for x in sorted(bad):
                k = f"{x.replace(' ', '-')}:{f.id}"
                if (k, c.bb) not in done:
                    done.add((k, c.bb))
                    self.res.add(k, f"{f.id}: the page {f.local_name(l) or '_%d' % l} is {how} with a possibly {x}", f.loc(c.span))
        return req, eff


def is_method(path, m):
    return path in (f"ogg_pager::Page::{m}", f"Page::{m}")


def crc_table():
    t = []
    for i in range(256):
        r = i << 24
        for _ in range(8):
            r = ((r << 1) ^ 0x04C11DB7 if r & 0x80000000 else r << 1) & 0xFFFFFFFF
        t.append(r)
    return t


def numbering(prog, f, res):
    """sequence numbers given to pages re-read from the file: base + counter, the counter advanced once per page"""
    n = 0
    for b in sorted(f.reachable):
        for s in f.stmts[b]:
            p = s.place
            if not p.proj or p.proj[-1][0] != "f" or p.proj[-1][2] != "sequence_number":
                continue
            if f.crate.name == "ogg_pager":
                continue
            if s.rv[0] == "use":
                n += numbered(prog, f, b, s.rv[1], s.span, res, 0)
                number_value(f, s.rv[1], s.span, res)
    return n


def numbered(prog, f, b, o, span, res, depth):
    D = defs(f)
    sl, _, cs, _ = slice_back(f, o)
    loops = [h for h, body in f.loops.items() if b in body]
    if not loops:
        # a helper: the caller chooses the number
        n = 0
        params = [l for l in sl if 1 <= l <= f.argc and strip(f, f.local_ty(l)).get("k") in ("int", "uint")]
        if depth < 3:
            for g in prog.fns.values():
                for c in g.calls:
                    if c.path == f.id:
                        for l in params:
                            n += numbered(prog, g, c.bb, c.args[l - 1], c.span, res, depth + 1)
        return n
    body = set().union(*(f.loops[h] for h in loops))
    if any(c.bb in body and c.callee and c.callee.name == "next" for c in cs):
        return 1        # numbered by an iterator
    # a local of the slice assigned inside the loop from itself plus something
    ctr = []
    for l in sl:
        for k, bb, x in D[l]:
            if bb in body and (k == "stmt" and l in deep(f, x)):
                ctr.append((l, bb))
    if not ctr:
        # a counter advanced through a reference handed to a helper is not followed
        if not any(strip(f, f.local_ty(l)) != f.local_ty(l) for l in sl):
            res.add(f"numbering:{f.id}", f"{f.id}: the sequence number given to pages in this loop does not advance with them", f.loc(span))
        return 1
    # every way round the loop from the write of the page passes an increment
    incs = {bb for _, bb in ctr}
    writes = [c.bb for c in f.calls if c.bb in body and f.dominates(b, c.bb) and
              any(x.startswith("write") for x in {c.callee.name if c.callee else ""})]
    for w in writes:
        seen, work = set(), [x for x in f.succs(w) if x in body]
        esc = False
        while work:
            x = work.pop()
            if x in seen or x in incs:
                continue
            seen.add(x)
            if x in loops:
                esc = True
                break
            work += [y for y in f.succs(x) if y in body]
        if esc and not any(f.dominates(i, w) and i in body for i in incs):
            res.add(f"numbering:{f.id}", f"{f.id}: a page can be written without the page counter advancing", f.loc(span))
    return 1


INTW = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64}


def number_value(f, o, span, res):
    """the number is not computed through a type narrower than the field, its counter starts at 0 and steps by 1"""
    locs, consts, cs, sts = slice_back(f, o)
    for st in sts:
        if st.rv[0] == "cast" and INTW.get(f.tys(st.rv[3]), 64) < 32 and INTW.get(f.tys(st.rv[2].ty), 8) > INTW.get(f.tys(st.rv[3]), 64):
            res.add(f"narrowed:{f.id}", f"{f.id}: the number given to a page passes through {f.tys(st.rv[3])}: it repeats after {2 ** INTW[f.tys(st.rv[3])]} pages", f.loc(st.span))
    D = defs(f)
    based = any(c.callee and c.callee.path and c.callee.name in ("write_to", "len", "count") for c in cs)
    for l in locs:
        ds = D.whole(l)
        selfinc = [x for k, b, x in ds if k == "stmt" and l in deep(f, x)]
        if not selfinc:
            continue
        for x in selfinc:
            step = step_of(f, x)
            if step is not None and step != 1:
                res.add(f"step:{f.id}", f"{f.id}: the page counter advances by {step}", f.loc(x.span))
        if based:
            for k, b, x in ds:
                if k == "stmt" and x not in selfinc and x.rv[0] == "use" and x.rv[1].kind == "k" and x.rv[1].int not in (0, None):
                    res.add(f"start:{f.id}", f"{f.id}: the page counter starts at {x.rv[1].int} past the pages already written", f.loc(x.span))


def step_of(f, st):
    """constant k of x = x + k, through the checked-addition temporaries"""
    D = defs(f)
    for _ in range(6):
        rv = st.rv
        if rv[0] == "bin" and rv[1].startswith("Add"):
            ks = [o.int for o in rv[2:] if o.kind == "k"]
            return ks[0] if len(ks) == 1 else None
        if rv[0] == "use" and rv[1].kind == "p":
            w = D.whole(rv[1].place.local)
            if len(w) == 1 and w[0][0] == "stmt":
                st = w[0][2]
                continue
        return None
    return None


def page_counter(prog, res):
    """new pages: a header numbered from a field of the pagination state is followed, on every path, by that field's increment"""
    n = 0
    for f in prog.fns.values():
        if f.crate.name != "ogg_pager" or not f.span:
            continue
        for b in sorted(f.reachable):
            for s in f.stmts[b]:
                if s.rv[0] != "agg" or s.rv[1][0] != "adt" or not is_header(s.rv[1][1]):
                    continue
                a = next((x for x in prog.adts.values() if is_header(x["id"]) or x["id"].endswith("::PageHeader")), None) if prog.adts else None
                names = [x[0] for x in a["vs"][0]["f"]] if a else []
                if "sequence_number" not in names:
                    res.add("floor:page_header_fields", "PageHeader has no sequence_number field")
                    continue
                o = s.rv[2][names.index("sequence_number")]
                if o.kind != "p":
                    continue
                locs, _, cs, sts = slice_back(f, o, calls=False)
                number_value(f, o, s.span, res)
                flds = set()
                for st in sts:
                    for q in rv_places(st.rv) + [x.place for x in rv_ops(st.rv) if x.kind == "p"]:
                        if q.proj and q.proj[-1][0] == "f" and 1 <= root(f, q.local) <= f.argc:
                            flds.add(q.proj[-1][1:3])
                if not flds:
                    continue
                n += 1
                incs = set()
                for bb in f.reachable:
                    for x in f.stmts[bb]:
                        if x.place.proj and x.place.proj[-1][0] == "f" and x.place.proj[-1][1:3] in flds:
                            k = step_of(f, x)
                            if k == 1:
                                incs.add(bb)
                            elif k is not None:
                                res.add(f"step:{f.id}", f"{f.id}: the page counter advances by {k}", f.loc(x.span))
                seen, work, esc = set(), list(f.succs(b)), False
                if b in incs:
                    continue
                while work:
                    x = work.pop()
                    if x in seen or x in incs:
                        continue
                    seen.add(x)
                    if f.terms[x][0] == "return":
                        esc = True
                    work += f.succs(x)
                if esc:
                    # the caller may advance it
                    ok = False
                    for g in prog.fns.values():
                        if g.crate.name == "ogg_pager" and any(c.path == f.id for c in g.calls):
                            ok |= any(x.place.proj and x.place.proj[-1][0] == "f" and x.place.proj[-1][1:3] in flds and step_of(g, x) == 1
                                      for bb in g.reachable for x in g.stmts[bb])
                    if not ok:
                        res.add(f"numbering:{f.id}", f"{f.id}: a new page can be added without the page counter advancing", f.loc(s.span))
    return n


def deep(f, st):
    """locals a statement's value depends on, through temporaries"""
    out = set()
    for o in rv_ops(st.rv):
        if o.kind == "p":
            out |= slice_back(f, o)[0]
    return out


def remainder(prog, res, scope):
    """a page read failing after the file was truncated must not end in success with the rest unwritten"""
    n = 0
    for fid in sorted(scope):
        f = prog.fns[fid]
        cs = [c for c in f.calls if (c.path or "").startswith("ogg_pager::") and errflow.result_shape(f, f.ty(c.dest.ty))
              and "Page" in f.tys(c.dest.ty)]
        n += len(cs)
        if not any(io_kind(x) in ("write", "trunc") and not in_memory(f, f.ty(x.args[0].ty)) for x in f.calls):
            continue
        for c in cs:
            bad = errflow.trace(f, c, kinds=False)
            if not bad:
                continue
            # paths from the failure to a successful return must write to the file
            wr = {x.bb for x in f.calls if io_kind(x) == "write" and not in_memory(f, f.ty(x.args[0].ty))}
            live = set(f.reachable) - wr
            still = errflow.trace(f, c, kinds=False, live=live)
            if still:
                res.add(f"unread-pages-lost:{f.id}", f"{f.id}: when {c.path} fails, success is returned without writing what was left of the file", f.loc(c.span))
            # what is written then starts where the unreadable page started, not where its reading gave up
            for w in f.calls:
                if w.bb not in wr or len(w.args) < 2 or w.args[1].kind != "p":
                    continue
                for p in slice_back(f, w.args[1])[2]:
                    if p.callee and p.callee.name in ("position", "stream_position") and between(f, c, p, w):
                        res.add(f"unread-page-cut:{f.id}", f"{f.id}: when {c.path} fails, what was left of the file is written from where "
                                "the failed read stopped, not from where it started", f.loc(w.span))
    return n


def between(f, c, p, w):
    """is there a path from c over p to w on which c is not run again, none of it on the way of a page that was read?"""
    def reach(b, stop):
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            work += f.succs(x)
        return seen
    return p.bb in reach(c.target, {c.bb}) and w.bb in reach(p.target, {c.bb})


def run(prog, res, tier):
    P = Pages(prog, res)
    fns = [f for f in prog.fns.values() if f.span and any(has_page(f, l) for l in range(len(f.locals)))]
    for f in fns:
        P.summary(f)
    save = prog.reach(save_roots(prog))
    nn = sum(numbering(prog, f, res) for f in fns)
    nr = remainder(prog, res, save)
    np = page_counter(prog, res)
    tbl = [c for k, c in prog.consts.items() if c["crate"].name == "ogg_pager" and "arr" in (c.get("val") or {}) and len(c["val"]["arr"]) == 256]
    want = crc_table()
    for c in tbl:
        got = [int(x["i"]) & 0xFFFFFFFF for x in c["val"]["arr"]]
        if got != want:
            i = next(i for i in range(256) if got[i] != want[i])
            res.add("crc-table", f"entry {i} of the page checksum table {c['id']} is {got[i]:#x}, the polynomial gives {want[i]:#x}", f"{c['span'][0]}:{c['span'][1]}")
    res.coverage["checksum_tables_compared"] = len(tbl)
    res.floor("functions_handling_pages", len(fns), 4)
    res.floor("page_serialisation_sites", P.sites, 1)
    res.floor("renumbering_loops", nn, 1)
    res.floor("new_page_counters", np, 1)
    res.floor("page_reads_on_save_paths", nr, 1)
