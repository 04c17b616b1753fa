"""P18: while a lock of the library is held, no foreign code runs, nothing panics, and no lock is taken again."""
from sa.common import *
from sa.flow import *
from sa.mir import rv_ops

RULE = ("on no path is a lock guard live at a call that can run code of the library's user (a resolver's method, a trait method of a "
        "type parameter), at one that can panic, or at one that takes a lock; a resolver is inserted only after its name was looked up "
        "under the same guard")
EXPLANATION = ("Forward may-analysis of live guard locals (Mutex/RwLock guards, Results and other values holding them) over every "
               "function that takes a lock or is handed a guard; what a call can do is looked up in the call graph, including closures "
               "handed to library functions.")
GUARDS = ("::MutexGuard", "::RwLockReadGuard", "::RwLockWriteGuard", "::MappedMutexGuard", "::ReentrantLockGuard")
LOCKS = ("lock", "read", "write", "try_lock", "try_read", "try_write")
USER_TRAITS = ("resolve::ObjectSafeFileResolver", "resolve::FileResolver", "file::audio_file::AudioFile")
PANICS = ("core::panicking::", "std::rt::begin_panic", "core::option::expect_failed", "core::option::unwrap_failed",
          "core::result::unwrap_failed", "std::panicking::", "std::rt::panic")
PANIC_METHODS = ("unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut")
FNTR = "core::ops::function::Fn"


def has_guard(f, t, depth=0):
    """does a value of this type keep a lock held? (references to guards do not count)"""
    if t.get("k") in ("ref", "ptr"):
        return False
    if t.get("k") == "adt" and (t["n"].endswith(GUARDS) and t["n"].startswith(("std::sync", "core::cell", "lock_api", "parking_lot"))):
        return True
    if depth > 5:
        return False
    if t.get("k") == "adt":
        a = f.prog.adts.get(t["n"])
        if a:
            for v in a["vs"]:
                for fl in v["f"]:
                    x = a["crate"].tys[fl[1]]
                    if x.get("k") == "adt" and x["n"].endswith(GUARDS):
                        return True
    return any(has_guard(f, f.ty(x), depth + 1) for x in t.get("a", []) or [] if isinstance(x, int))


def closures_in(f, t, depth=0, out=None):
    out = set() if out is None else out
    if t.get("k") == "closure":
        out.add(f.prog._cl(f, t["n"]))
    if depth < 8:
        for x in t.get("a", []) or []:
            if isinstance(x, int):
                closures_in(f, f.ty(x), depth + 1, out)
    return out


class Effects:
    """what a function may do: run user code, panic, take a lock"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.callers = None

    def is_lock(self, c):
        return c.callee is not None and c.callee.name in LOCKS and c.callee.path.startswith(("std::sync::", "lock_api::", "parking_lot::")) \
            and has_guard(c.fn, c.fn.ty(c.dest.ty))

    def fn_eff(self, fid, seen=None):
        if fid in self.memo:
            return self.memo[fid]
        self.memo[fid] = {}
        f = self.prog.fns[fid]
        out = {}
        for b in sorted(f.reachable):
            t = f.terms[b]
            if t[0] == "call":
                for k, v in self.call_eff(f, t[1]).items():
                    out.setdefault(k, v)
            elif t[0] == "assert":
                out.setdefault("panics", f"an assertion ({t[3][0]}) in {fid}")
        self.memo[fid] = out
        return out

    def call_eff(self, f, c):
        cal = c.callee
        out = {}
        if cal is None:
            return {"user code": "a call through a function pointer"}
        if self.is_lock(c):
            out["takes a lock"] = f"{cal.name}()"
            return out
        if cal.path.startswith(PANICS):
            out["panics"] = "panic in " + f.id
            return out
        if cal.name in PANIC_METHODS and not any(has_guard(f, f.ty(a.ty)) for a in c.args if a.ty is not None) and \
                cal.path.startswith(("core::", "alloc::", "std::", "<")) and cal.target not in self.prog.fns:
            out["panics"] = cal.name + "()"
        if (cal.virt or cal.unres) and cal.trait:
            if cal.trait.startswith(FNTR):
                for cl in self.closures_for(f):
                    if cl is None:
                        out.setdefault("user code", "a function passed in by the caller")
                    else:
                        for k, v in self.fn_eff(cl).items():
                            out.setdefault(k, v)
                return out
            if cal.virt and cal.trait not in USER_TRAITS:
                pass
            elif cal.trait in USER_TRAITS or self.param_self(f, c):
                out["user code"] = f"{cal.trait}::{cal.name}"
                return out
        for t in self.prog.targets(c):
            for k, v in self.fn_eff(t.id).items():
                out.setdefault(k, v)
        if cal.target not in self.prog.fns:
            cls = set()
            for i in cal.ga + cal.rga:
                closures_in(f, f.ty(i), out=cls)
            for a in c.args:
                if a.ty is not None:
                    closures_in(f, f.ty(a.ty), out=cls)
                if a.kind == "k":
                    x = a.val.get("closure") or a.val.get("res") or a.val.get("fn")
                    if x:
                        cls.add(self.prog._cl(f, x))
            for x in self.prog._through_std(f, c):
                cls.add(x)
            for cl in cls:
                if cl in self.prog.fns:
                    for k, v in self.fn_eff(cl).items():
                        out.setdefault(k, v)
        return out

    def param_self(self, f, c):
        """is the receiver (or Self argument) a type parameter?"""
        for i in c.callee.ga[:1]:
            t = strip(f, f.ty(i))
            if t.get("k") == "param":
                return True
        return False

    def closures_for(self, f):
        """closures callers hand to f (None: unknown)"""
        if self.callers is None:
            self.callers = {}
            for g in self.prog.fns.values():
                for c in g.calls:
                    for t in self.prog.targets(c):
                        self.callers.setdefault(t.id, []).append(c)
        out = set()
        top = f.id
        cs = self.callers.get(top, [])
        if f.reach or not cs:
            out.add(None)
        for c in cs:
            x = set()
            for i in c.callee.ga + c.callee.rga:
                closures_in(c.fn, c.fn.ty(i), out=x)
            for a in c.args:
                if a.kind == "k":
                    y = a.val.get("closure") or a.val.get("res") or a.val.get("fn")
                    if y:
                        x.add(self.prog._cl(c.fn, y))
            x = {y for y in x if y in self.prog.fns}
            out |= x if x else {None}
        return out


def analyse(prog, eff, f, res, stat):
    def holds(p):
        return has_guard(f, f.ty(p.ty))

    def st(b, i, s, live):
        rv = s.rv
        add = False
        kill = set()
        for o in rv_ops(rv):
            if o.kind == "p" and o.move and o.place.local in live and holds(o.place):
                kill.add(o.place.local)
                add = True
        live = live - kill
        if add:
            live = live | {s.place.local}
        elif s.place.bare and s.place.local in live:
            live = live - {s.place.local}
        return live

    def term(b, t, live):
        out = {}
        k = t[0]
        if k == "drop":
            if t[1].local in live and t[1].bare:
                live = live - {t[1].local}
            elif t[1].local in live and holds(t[1]):
                live = live - {t[1].local}
        elif k == "call":
            c = t[1]
            moved = {a.place.local for a in c.args if a.kind == "p" and a.move and a.place.local in live and holds(a.place)}
            live = live - moved
            if has_guard(f, f.ty(c.dest.ty)):
                live = live | {c.dest.local}
        elif k == "switch" and t[1].kind == "p":
            # a Result that is Err(WouldBlock) etc. still counts; nothing to do
            pass
        for x in f.succs(b):
            out[x] = live
        return out
    init = frozenset(i for i in range(1, f.argc + 1) if has_guard(f, f.local_ty(i)))
    ins = forward(f, init, st, term, lambda a, b: a | b)
    for b, live in ins.items():
        for i, s in enumerate(f.stmts[b]):
            live = st(b, i, s, live)
        t = f.terms[b]
        if not live:
            continue
        stat["points"] += 1
        if t[0] == "assert":
            res.add(f"panic:{f.id}", f"{f.id}: can panic ({t[3][0]}) while a lock is held", f.loc(t[5]))
        if t[0] == "call":
            c = t[1]
            stat["calls"] += 1
            moved = {a.place.local for a in c.args if a.kind == "p" and a.move and a.place.local in live and holds(a.place)}
            rest = live - moved
            e = eff.call_eff(f, c)
            if c.callee and c.callee.path.startswith("core::mem::") and c.callee.name in ("forget", "take", "replace") or \
                    c.callee and c.callee.name == "leak" and moved:
                if c.callee.name in ("forget", "leak") and moved:
                    res.add(f"leak:{f.id}", f"{f.id}: a lock guard is leaked, the lock is never released", f.loc(c.span))
            if moved and not rest and not (set(e) & {"user code", "takes a lock"}):
                continue
            for k, v in e.items():
                if k == "panics" and moved and not rest:
                    continue
                res.add(f"{k.replace(' ', '-')}:{f.id}", f"{f.id}: {k} ({v}) while a lock is held, at the call of {c.callee.name if c.callee else 'a function pointer'}", f.loc(c.span))


def guard_origin(f, o):
    """the lock acquisition a reference (through deref etc.) comes from"""
    r = op_root(f, o, REF_FWD | {"unwrap", "expect", "unwrap_or_else", "entry", "iter", "keys", "values"})
    for k, b, x in defs(f).whole(r) if r is not None else []:
        if k == "call":
            return (b, x)
    return None


def check_then_insert(prog, eff, res):
    n = 0
    for f in prog.fns.values():
        for c in f.calls:
            if not (c.callee and c.callee.name in ("insert", "try_insert", "push", "push_back") and c.args and "ObjectSafeFileResolver" in f.tys(c.args[0].ty)
                    and ("HashMap" in f.tys(c.args[0].ty) or "BTreeMap" in f.tys(c.args[0].ty) or "Vec" in f.tys(c.args[0].ty))):
                continue
            n += 1
            r = op_root(f, c.args[0])
            tests = []
            for d in f.calls:
                if d is not c and d.callee and d.args and d.args[0].kind == "p" and op_root(f, d.args[0]) == r and d.callee.name in \
                        ("contains_key", "get", "iter", "keys", "entry", "get_key_value", "values", "get_mut", "any", "all") and f.dominates(d.bb, c.bb):
                    tests.append(d)
            if c.callee.name == "try_insert":
                continue
            ok = False
            for b in f.reachable:
                t = f.terms[b]
                if t[0] != "switch" or not f.dominates(b, c.bb) or t[1].kind != "p":
                    continue
                sl, _, cs, _ = slice_back(f, t[1])
                if any(d in cs for d in tests) and any(not reaches(f, x, c.bb) for x in f.succs(b)):
                    ok = True
            if not ok:
                res.add(f"unchecked-insert:{f.id}", f"{f.id}: a resolver is registered without first looking its name up under the same lock", f.loc(c.span))
        # through an entry
        for c in f.calls:
            if c.callee and c.callee.name in ("insert", "or_insert", "or_insert_with", "insert_entry") and c.args and "Entry<" in f.tys(c.args[0].ty) and "ObjectSafeFileResolver" in f.tys(c.args[0].ty):
                n += 1
                if "Occupied" in f.tys(c.args[0].ty):
                    res.add(f"overwrite:{f.id}", f"{f.id}: an existing resolver is overwritten", f.loc(c.span))
    return n


def reaches(f, a, b):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(f.succs(x))
    return False


def run(prog, res, tier):
    eff = Effects(prog)
    stat = {"points": 0, "calls": 0}
    fns = locks = 0
    for f in prog.fns.values():
        if not any(has_guard(f, f.local_ty(l)) for l in range(len(f.locals))):
            continue
        fns += 1
        locks += sum(1 for c in f.calls if eff.is_lock(c))
        analyse(prog, eff, f, res, stat)
        for c in f.calls:
            if eff.is_lock(c) and c.callee.name.startswith("try_"):
                res.add(f"try-lock:{f.id}", f"{f.id}: what it finds depends on whether another thread holds the lock", f.loc(c.span))
    n = check_then_insert(prog, eff, res)
    users = sum(1 for f in prog.fns.values() for c in f.calls if c.callee and c.callee.trait == USER_TRAITS[0] and c.callee.virt)
    res.floor("functions_holding_a_lock", fns, 2)
    res.floor("lock_acquisitions", locks, 2)
    res.floor("program_points_with_a_lock_held", stat["points"], 4)
    res.floor("calls_of_registered_resolvers", users, 5)
    res.floor("registry_insertions", n, 1)
    res.coverage["calls_with_a_lock_held"] = stat["calls"]
