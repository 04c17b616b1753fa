"""Small dataflow helpers over MIR bodies: definitions, aliases of references, backward slices."""
from functools import lru_cache
from sa.mir import rv_ops, rv_places

REF_FWD = {"deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "by_ref", "as_slice", "as_mut_slice",
           "index", "index_mut", "header", "header_mut", "get_mut", "as_bytes", "into_inner", "as_str", "as_deref", "as_deref_mut"}


class Defs:
    """local -> list of ('stmt', bb, stmt) | ('call', bb, Call)"""

    def __init__(self, fn):
        self.fn = fn
        self.d = {}
        for b in sorted(fn.reachable):
            for s in fn.stmts[b]:
                self.d.setdefault(s.place.local, []).append(("stmt", b, s))
            t = fn.terms[b]
            if t[0] == "call":
                self.d.setdefault(t[1].dest.local, []).append(("call", b, t[1]))

    def __getitem__(self, l):
        return self.d.get(l, [])

    def whole(self, l):
        """definitions that assign the whole local"""
        return [x for x in self[l] if (x[2].place if x[0] == "stmt" else x[2].dest).bare]


def defs(fn):
    d = getattr(fn, "_defs", None)
    if d is None:
        d = fn._defs = Defs(fn)
    return d


def root(fn, local, through=REF_FWD, seen=None):
    """the local an (alias of a) reference or moved value stands for, following single definitions"""
    D = defs(fn)
    for _ in range(60):
        if 1 <= local <= fn.argc:
            return local
        w = D.whole(local)
        if len(w) != 1:
            return local
        k, b, x = w[0]
        if k == "stmt":
            rv = x.rv
            if rv[0] == "ref":
                local = rv[2].local
            elif rv[0] == "use" and rv[1].kind == "p":
                local = rv[1].place.local
            elif rv[0] == "cast" and rv[2].kind == "p":
                local = rv[2].place.local
            else:
                return local
        else:
            nm = x.callee.name if x.callee else None
            if nm in through and x.args and x.args[0].kind == "p":
                local = x.args[0].place.local
            else:
                return local
    return local


def op_root(fn, o, through=REF_FWD):
    return root(fn, o.place.local, through) if o.kind == "p" else None


def adt_names(fn, t, depth=0, out=None):
    """names of all ADTs mentioned in a type"""
    out = set() if out is None else out
    if t.get("k") == "adt":
        out.add(t["n"])
    if depth < 6:
        for a in t.get("a", []) or []:
            if isinstance(a, int):
                adt_names(fn, fn.ty(a), depth + 1, out)
    return out


def forward(fn, init, transfer_stmt, transfer_term, join, start=0, live=None):
    """generic forward dataflow. States are compared with ==; transfer_term(bb, term, state) -> {succ: state}.
    Returns {block: in-state}."""
    ins = {start: init}
    work = [start]
    order = {b: i for i, b in enumerate(fn.rpo)}
    n = 0
    while work:
        n += 1
        if n > 20000:
            raise RuntimeError(f"dataflow does not converge in {fn.id}")
        work.sort(key=lambda b: -order.get(b, 0))
        b = work.pop()
        st = ins[b]
        for i, s in enumerate(fn.stmts[b]):
            st = transfer_stmt(b, i, s, st)
        for x, ns in transfer_term(b, fn.terms[b], st).items():
            if live is not None and x not in live:
                continue
            if x not in ins:
                ins[x] = ns
                work.append(x)
            else:
                j = join(ins[x], ns)
                if j != ins[x]:
                    ins[x] = j
                    if x not in work:
                        work.append(x)
    return ins


def slice_back(fn, op, max_nodes=400, calls=True):
    """backward slice of an operand inside one function -> (locals, constants, calls, statements)"""
    D = defs(fn)
    seen, consts, cs, sts = set(), [], [], []
    work = []

    def add(o):
        if o.kind == "p":
            work.append(o.place.local)
            for e in o.place.proj:
                if e[0] == "i":
                    work.append(e[1])
        elif o.kind == "k":
            consts.append(o)
    add(op)
    while work and len(seen) < max_nodes:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for k, b, x in D[l]:
            if k == "stmt":
                sts.append(x)
                for o in rv_ops(x.rv):
                    add(o)
                for p in rv_places(x.rv):
                    work.append(p.local)
            else:
                cs.append(x)
                if calls:
                    for o in x.args:
                        add(o)
    return seen, consts, cs, sts
