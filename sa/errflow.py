"""Error-path tracing: where does the Err of a fallible call go?

From the call, with its destination known to be Err, follow every path of the function's CFG
(taking only the Err/Break edges of switches on values derived from it) until the function returns.
The error is *propagated* when the returned value carries it, *dropped* when some path returns
without it."""

# std/core combinators which keep an Err an Err
KEEP = {"map_err", "map", "and_then", "and", "branch", "from_residual", "into", "from", "transpose",
        "as_ref", "as_mut", "copied", "cloned", "inspect_err", "flatten", "from_output", "map_ok"}
PANIC = {"unwrap", "expect", "unwrap_unchecked"}
# combinators through which the error is lost
LOSE = {"ok", "is_ok", "is_err", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else",
        "is_ok_and", "is_err_and", "or", "or_else", "err", "iter", "unwrap_err", "expect_err", "is_some"}
ERRV = {"core::result::Result": 1, "core::ops::control_flow::ControlFlow": 1}


def is_result(t):
    return t.get("k") == "adt" and t.get("n") in ERRV


def err_type(fn, t):
    """printed error type of a Result type json (or the innermost through Option<Result<>>)"""
    if t.get("k") == "adt" and t["n"] == "core::result::Result":
        return fn.ty(t["a"][1])["s"]
    return None


def key(p):
    return (p.local,) + tuple(e for e in p.proj)


def lookup(env, p):
    """('is', v) exact; payload derived otherwise"""
    k = key(p)
    v = env.get(k)
    if v:
        return v
    # payload of an Err-valued prefix
    for n in range(len(k) - 1, 0, -1):
        v = env.get(k[:n])
        if v == "err":
            rest = k[n:]
            if rest and rest[0][0] == "v":
                return "e" if rest[0][1] == 1 else "dead"
            if rest and rest[0][0] == "d":
                return lookup_rest(rest[1:])
            if rest and rest[0][0] == "f":
                return None
            return None
        if v == "e":
            return "e"
        if v == "someerr":
            rest = k[n:]
            if rest[0][0] == "v":
                if rest[0][1] != 1:
                    return "dead"
                if len(rest) == 2:
                    return "err"
                if len(rest) > 2 and rest[2][0] == "v":
                    return "e" if rest[2][1] == 1 else "dead"
            return None
    # through a reference
    return None


def lookup_rest(rest):
    if not rest:
        return "err"
    if rest[0][0] == "v":
        return "e" if rest[0][1] == 1 else "dead"
    return None


def kind_name(fn, o):
    """io::ErrorKind a comparison operand names, if constant"""
    if o.kind == "k" and "promoted" in o.val:
        i = o.val["promoted"]
        if i < len(fn.promoted):
            for b in fn.promoted[i].stmts:
                for s in b:
                    if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1].endswith("::ErrorKind"):
                        return s.rv[1][3]
    if o.kind == "k":
        v = o.val.get("ref", o.val)
        if isinstance(v, dict) and str(v.get("adt", "")).endswith("::ErrorKind"):
            return v.get("v")
    return None


def result_shape(fn, t):
    """'err' for Result<..>, 'someerr' for Option<Result<..>>, else None"""
    if t.get("k") != "adt":
        return None
    if t["n"] == "core::result::Result":
        return "err"
    if t["n"] == "core::option::Option":
        i = fn.ty(t["a"][0])
        if i.get("k") == "adt" and i["n"] == "core::result::Result":
            return "someerr"
    return None


def err_json(fn, t):
    if t.get("n") == "core::option::Option":
        t = fn.ty(t["a"][0])
    return fn.ty(t["a"][1])


def trace(fn, call, max_states=4000, live=None, kinds=True, want="dropped", strict=False):
    """-> list of (kind, block, text): 'dropped' with where. Empty: always propagated (or panics).
    live: restrict to these blocks. kinds: tests of io::Error::kind() count as handling that kind."""
    if call.target is None:
        return []
    out = []
    env0 = {key(call.dest): result_shape(fn, fn.ty(call.dest.ty)) or "err"}
    work = [(call.target, tuple(env0.items()))]
    seen = set(work)
    n = 0
    while work:
        b, envt = work.pop()
        n += 1
        if n > max_states:
            out.append(("undecided", b, "undecided after exploring too many paths"))
            break
        env = dict(envt)
        if live is not None and b not in live:
            continue
        for s in fn.stmts[b]:
            step(fn, env, s)
            if strict and s.rv[0] == "agg" and env.get(key(s.place)) == "err" and \
                    not any(arg_val(env, o) for o in s.rv[2] if o.kind == "p"):
                drop_key(env, key(s.place))
        t = fn.terms[b]
        k = t[0]
        nxt = []
        if k == "goto":
            nxt = [t[1]]
        elif k == "drop":
            v = env.get(key(t[1]))
            nxt = [t[2]]
        elif k == "return":
            v = env.get((0,))
            if v in ("err", "someerr") and want == "propagated":
                out.append(("propagated", b, "returns the error"))
                return out
            if want == "dropped" and v not in ("err", "e", "someerr") and "handled" not in env:
                out.append(("dropped", b, "returns without the error"))
            continue
        elif k == "switch":
            o = t[1]
            v = lookup(env, o.place) if o.kind == "p" else None
            if v == "kinddiscr" and kinds:
                for vv, x in t[2]:
                    ne = tuple(sorted(dict(env, handled=1).items(), key=repr))
                    if (x, ne) not in seen:
                        seen.add((x, ne))
                        work.append((x, ne))
                nxt = [t[3]]
            elif v == "kindeq" and kinds:
                for x in fn.succs(b):
                    tv = [vv for vv, y in t[2] if y == x]
                    e2 = dict(env)
                    if tv != [0]:
                        e2["handled"] = 1
                    ne = tuple(sorted(e2.items(), key=repr))
                    if (x, ne) not in seen:
                        seen.add((x, ne))
                        work.append((x, ne))
                continue
            elif v == "discr":
                m = [x for vv, x in t[2] if vv == 1]
                nxt = m if m else [t[3]]
            elif v == "true":
                m = [x for vv, x in t[2] if vv == 1]
                nxt = m if m else [t[3]]
            elif v == "false":
                m = [x for vv, x in t[2] if vv == 0]
                nxt = m if m else [t[3]]
            else:
                nxt = fn.succs(b)
        elif k == "assert":
            nxt = [t[4]]
        elif k == "call":
            c = t[1]
            res = None
            nm = c.callee.name if c.callee else None
            vals = [arg_val(env, a) for a in c.args]
            if "kind" in vals and nm in ("eq", "ne"):
                res = "kindeq" if nm == "eq" else "kindne"
            elif any(v in ("err", "e", "someerr") for v in vals):
                v0 = vals[0]
                if nm in PANIC:
                    continue
                if nm == "kind" and v0 == "e":
                    res = "kind"
                elif v0 == "someerr":
                    if nm == "transpose":
                        res = "err"
                    elif nm in ("as_ref", "as_mut", "map", "and_then"):
                        res = "someerr"
                elif nm in KEEP:
                    res = "err" if v0 == "err" else "e"
                elif v0 == "err" and nm == "is_err":
                    res = "true"
                elif v0 == "err" and nm == "is_ok":
                    res = "false"
                elif v0 == "err" and nm in LOSE:
                    res = None
                elif "e" in vals:
                    dt = fn.ty(c.dest.ty)
                    if is_result(dt):
                        res = "err"
                    elif dt.get("k") in ("bool", "int", "uint"):
                        res = None
                    elif dt.get("k") == "adt":
                        res = "e"
                else:
                    dt = fn.ty(c.dest.ty)
                    res = "err" if is_result(dt) else None
            if nm == "from_residual" and is_result(fn.ty(c.dest.ty)) and not (strict and not res and not any(vals)):
                res = "err"      # replaced by another error
            if c.target is None:
                continue
            drop_key(env, key(c.dest))
            if res:
                env[key(c.dest)] = res
            nxt = [c.target]
        else:
            continue
        ne = tuple(sorted(env.items(), key=repr))
        for x in nxt:
            if (x, ne) not in seen:
                seen.add((x, ne))
                work.append((x, ne))
    return out


def arg_val(env, a):
    if a.kind != "p":
        return None
    v = lookup(env, a.place)
    if v:
        return v
    k = key(a.place)
    for x, y in env.items():
        if x != "handled" and x[:len(k)] == k and y in ("e", "err"):
            return "e"
    return None


def drop_key(env, k):
    n = len(k)
    for x in [x for x in env if x != "handled" and x[:n] == k]:
        del env[x]


def copy_subs(env, dst, src):
    n = len(src)
    for x, v in [(x, v) for x, v in env.items() if x != 'handled' and x[:n] == src and len(x) > n]:
        env[dst + x[n:]] = v


def step(fn, env, s):
    rv = s.rv
    k = rv[0]
    d = key(s.place)
    if k == "use" and rv[1].kind == "p":
        v = lookup(env, rv[1].place)
        subs = {x[len(key(rv[1].place)):]: vv for x, vv in env.items() if x != 'handled' and x[:len(key(rv[1].place))] == key(rv[1].place) and len(x) > len(key(rv[1].place))}
        drop_key(env, d)
        if v:
            env[d] = v
        for x, vv in subs.items():
            env[d + x] = vv
        return
    if k == "ref":
        v = lookup(env, rv[2])
        drop_key(env, d)
        if v in ("err", "e", "kind", "someerr"):
            env[d] = v
        return
    if k == "discr":
        v = lookup(env, rv[1])
        drop_key(env, d)
        if v in ("err", "someerr"):
            env[d] = "discr"
        elif v == "kind":
            env[d] = "kinddiscr"
        return
    if k == "agg":
        h, ops = rv[1], rv[2]
        vs = [lookup(env, o.place) if o.kind == "p" else None for o in ops]
        drop_key(env, d)
        if h[0] == "adt":
            if h[1] == "core::result::Result" and h[2] == 1:
                env[d] = "err"   # an error is returned, this one or another
                return
            if "e" in vs:
                if h[1] in ERRV and h[2] == 1:
                    env[d] = "err"
                elif h[1] not in ERRV and h[1] != "core::option::Option":
                    env[d] = "e"
                elif h[1] == "core::option::Option":
                    env[d] = "err"
            elif "err" in vs:
                # Some(Err(..)) / Ok(Err(..)) / struct holding it
                for i, v in enumerate(vs):
                    if v == "err":
                        env[d + (("v", h[2], h[3] if len(h) > 3 else None), ("f", i, str(i)))] = "err"
                if h[1] in ("core::option::Option", "core::task::poll::Poll") or (h[1] in ERRV):
                    env[d] = "err" if h[1] == "core::option::Option" else env.get(d)
                    if env[d] is None:
                        del env[d]
        else:
            for i, v in enumerate(vs):
                if v:
                    env[d + (("f", i, str(i)),)] = v
        return
    if k == "un" and rv[1] == "Not" and rv[2].kind == "p":
        v = lookup(env, rv[2].place)
        drop_key(env, d)
        if v in ("true", "false"):
            env[d] = "false" if v == "true" else "true"
        return
    if k == "cast" and rv[2].kind == "p":
        v = lookup(env, rv[2].place)
        drop_key(env, d)
        if v:
            env[d] = v
        return
    drop_key(env, d)


def propagates(fn, call, live=None, strict=False):
    """may an error of this call become an error of fn? (strict: errors made anew on the way do not count)"""
    if result_shape(fn, fn.ty(call.dest.ty)) is None:
        return True
    if call.target is None:
        return False
    return bool(trace(fn, call, live=live, kinds=False, want="propagated", strict=strict))
