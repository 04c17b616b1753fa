"""P16: enumerated codes and constant tables are the ones the standards fix, and encoders invert decoders."""
import json, os, re
from sa.common import *
from sa.mir import rv_ops
from sa.spec import Spec

RULE = ("every function that turns a number or a key into one of the coded enumerations maps each code to the variant the standard gives it and treats the others as "
        "documented; every function in the other direction, and the discriminant where that is what is written, gives the same code; the constant tables have the standards' contents")
EXPLANATION = "Each decoder and encoder is specialised by conditional constant propagation to each code and variant; constants are read from the compiler's evaluation."

ORACLE = json.load(open(os.path.join(os.path.dirname(__file__), "..", "oracle", "codes.json")))
OPT, RES = "core::option::Option", "core::result::Result"


def inner_enum(f, t, wrap=True):
    while t.get("k") == "ref":
        t = f.ty(t["a"][0])
    if t.get("k") == "adt":
        if wrap and t["n"] in (OPT, RES):
            return inner_enum(f, f.ty(t["a"][0]), False)
        return t["n"]
    return None


def enums(prog, suffix):
    return [n for n, a in prog.adts.items() if a.get("enum") and n.split("::")[-1] == suffix and not n.startswith("file::file_type::_")]


def outcome(prog, v):
    """(variant name, payload) | 'reject' | None undecided"""
    parts = {}
    if isinstance(v, tuple) and v[0] == "s":
        parts = dict(v[2])
        h = v[1]
    else:
        h = v
    if not (isinstance(h, tuple) and h[0] == "e"):
        return None
    if h[1] == OPT:
        if h[2] == 0:
            return "reject"
        pre = (("v", 1, "Some"), ("f", 0))
    elif h[1] == RES:
        if h[2] == 1:
            return "reject"
        pre = (("v", 0, "Ok"), ("f", 0))
    else:
        pre = ()
    if pre:
        h = parts.get(pre)
        if not (isinstance(h, tuple) and h[0] == "e"):
            return None
    vn = prog.adts[h[1]]["vs"][h[2]]["n"]
    pay = parts.get(pre + (("v", h[2], vn), ("f", 0)))
    return (vn, pay)


def plain(v):
    if not isinstance(v, dict):
        return v
    if "i" in v:
        return int(v["i"])
    if "s" in v:
        return v["s"]
    if "by" in v:
        return list(v["by"])
    if isinstance(v.get("ref"), dict):
        return plain(v["ref"])
    if "arr" in v:
        return [plain(x) for x in v["arr"]]
    if "tup" in v:
        return [plain(x) for x in v["tup"]]
    if "fl" in v:
        return v["fl"]
    if "adt" in v:
        fs = [plain(x) for x in v.get("fs") or []]
        return {v.get("vn") or v["adt"].split("::")[-1]: fs} if fs else v.get("vn")
    return None


def run(prog, res, tier):
    codes(prog, res)
    strings(prog, res)
    masks(prog, res)
    restrictions(prog, res)
    ratings(prog, res)
    flags(prog, res)
    tables(prog, res)


def codes(prog, res):
    nd = ne = und = 0
    for name, o in ORACLE["codes"].items():
        es = enums(prog, name)
        if not es:
            res.add(f"floor:{name}", f"enumeration {name} not found")
            continue
        for en in es:
            adt = prog.adts[en]
            want = {int(c): v for c, v in o["decode"].items()}
            back = {}
            for c, v in want.items():
                if c not in o.get("alias", []):
                    back.setdefault(v, c)
            dec = enc = 0
            for f in prog.fns.values():
                if f.kind == "Closure" or f.argc != 1 or "serde" in f.id:
                    continue
                at, rt = f.tys(f.locals[1][0]), f.tys(f.locals[0][0])
                if at in ("u8", "u32", "u16") and inner_enum(f, f.local_ty(0)) == en:
                    dec += 1
                    for c in range(256):
                        got = outcome(prog, Spec(prog, deep=True).run(f, (c,))[1])
                        nd += 1
                        if got is None:
                            und += 1
                            continue
                        exp = want.get(c)
                        if exp is None:
                            exp = o["other"]
                        ok = got == "reject" if exp == "reject" else got != "reject" and got[0] == exp
                        if ok and c not in want and o.get("keeps") and got[1] is not None and got[1] != c:
                            ok = False
                        if not ok:
                            g = got if got == "reject" else got[0]
                            res.add(f"decode:{name}:{c}", f"{f.id} takes code {c} for {'an error' if g == 'reject' else g}, but it means {exp if exp != 'reject' else 'nothing'}", f.loc())
                elif rt in ("u8", "u32", "u16") and inner_enum(f, f.local_ty(1), False) == en:
                    enc += 1
                    for i, v in enumerate(adt["vs"]):
                        if v["n"] not in back:
                            continue
                        got = Spec(prog, deep=True, enums={en: i}).run(f)[1]
                        ne += 1
                        if not isinstance(got, int):
                            und += 1
                        elif got != back[v["n"]]:
                            res.add(f"encode:{name}:{v['n']}", f"{f.id} writes {v['n']} as {got}, but its code is {back[v['n']]}", f.loc())
            if o.get("discr"):
                for v in adt["vs"]:
                    if v["n"] in back:
                        ne += 1
                        if int(v["d"].split(" ")[0]) != back[v["n"]]:
                            res.add(f"discr:{name}:{v['n']}", f"{en}::{v['n']} has the number {v['d']}, which is what is written, but its code is {back[v['n']]}")
            miss = set(back) - {v["n"] for v in adt["vs"]}
            if miss:
                res.add(f"variants:{name}", f"{en} lacks {sorted(miss)}")
            if not dec and o["decode_fn"]:
                res.add(f"floor:decode:{name}", f"no function decodes {name}")
            if not enc and o.get("encode_fn"):
                res.add(f"floor:encode:{name}", f"no function encodes {name}")
    res.floor("codes decoded", nd, 2500)
    res.floor("variants encoded", ne, 100)
    res.coverage["undecided codes"] = und


def strings(prog, res):
    n = 0
    for s in ORACLE["strings"]:
        fs = [f for f in prog.fns.values() if f.kind != "Closure" and f.argc == 1 and f.id.endswith(s["fn"])]
        if not fs:
            res.add(f"floor:{s['fn']}", f"{s['fn']} not found")
            continue
        f = fs[0]
        for a, b in s["map"]:
            n += 1
            if s["dir"] == "decode":
                got = outcome(prog, Spec(prog, deep=True, strings=True).run(f, (("str", a),))[1])
                if got is not None and (got if got == "reject" else got[0]) != b:
                    res.add(f"string:{s['fn']}:{a}", f"{f.id} takes \"{a}\" for {got if got == 'reject' else got[0]}, not {b}", f.loc())
            else:
                en = inner_enum(f, f.local_ty(1))
                idx = [i for i, v in enumerate(prog.adts[en]["vs"]) if v["n"] == a]
                if not idx:
                    res.add(f"string:{s['fn']}:{a}", f"{en} has no variant {a}")
                    continue
                v = Spec(prog, deep=True, strings=True, enums={en: idx[0]}).run(f)[1]
                got = None
                if isinstance(v, tuple) and v[0] == "str":
                    got = v[1]
                elif isinstance(v, tuple) and v[0] == "s":
                    x = [y for _, y in v[2] if isinstance(y, tuple) and y[0] == "str"]
                    got = x[0][1] if x else None
                elif v == ("e", OPT, 0):
                    got = False
                if got is not None and got != b:
                    res.add(f"string:{s['fn']}:{a}", f"{f.id} gives \"{got}\" for {a}, not \"{b}\"", f.loc())
    res.floor("string codes", n, 60)


def masks(prog, res):
    n = 0
    for fnname, want in ORACLE["masks"].items():
        fs = [f for f in prog.fns.values() if f.kind != "Closure" and f.argc == 1 and f.id.endswith(fnname)]
        if not fs:
            res.add(f"floor:{fnname}", f"{fnname} not found")
            continue
        f = fs[0]
        for c in range(256):
            v = Spec(prog, deep=True).run(f, (c,))[1]
            n += 1
            exp = want.get(str(c))
            if v == ("e", OPT, 0):
                got = None
            elif isinstance(v, tuple) and v[0] == "s":
                x = [y for p, y in v[2] if isinstance(y, int)]
                if not x:
                    continue
                got = x[0]
            else:
                continue
            if got != exp:
                res.add(f"mask:{fnname}:{c}", f"{f.id} gives the channel mask {got} for {c} channels, which are {exp}", f.loc())
    res.floor("channel layouts", n, 300)


def restrictions(prog, res):
    """ID3v2.4 tag restrictions: the byte read is the byte written, and its bits mean what the standard says"""
    dec = [f for f in prog.fns.values() if f.id.endswith("restrictions::TagRestrictions::from_byte")]
    enc = [f for f in prog.fns.values() if f.id.endswith("restrictions::TagRestrictions::as_bytes")]
    if not dec or not enc:
        res.add("floor:TagRestrictions", "TagRestrictions::from_byte/as_bytes not found")
        return
    f, g = dec[0], enc[0]
    adt = prog.adts[inner_enum(f, f.local_ty(0))]
    names = [x[0] for x in adt["vs"][0]["f"]]
    o = ORACLE["restrictions"]
    n = 0
    for b in range(256):
        v = Spec(prog, deep=True).run(f, (b,))[1]
        if not (isinstance(v, tuple) and v[0] == "s"):
            continue
        parts = dict(v[2])
        for i, nm in enumerate(names):
            if nm not in o:
                continue
            sh, m, vals = o[nm]
            exp = vals[(b >> sh) & m]
            x = parts.get((("f", i),))
            if isinstance(x, tuple) and x[0] == "e" and x[1] == OPT:
                got = None
                if x[2] == 1:
                    y = parts.get((("f", i), ("v", 1, "Some"), ("f", 0)))
                    if not isinstance(y, tuple):
                        continue
                    got = prog.adts[y[1]]["vs"][y[2]]["n"]
            elif isinstance(x, tuple) and x[0] == "e":
                got = prog.adts[x[1]]["vs"][x[2]]["n"]
            elif isinstance(x, int):
                got = bool(x)
            else:
                continue
            n += 1
            if got != exp:
                res.add(f"restrictions:{nm}:{(b >> sh) & m}", f"{f.id}: the bits {nm} = {(b >> sh) & m} are taken for {got}, but mean {exp}", f.loc())
        w = Spec(prog, deep=True).run(g, (("rv", v),))[1]
        if isinstance(w, int):
            n += 1
            if w != b:
                res.add(f"restrictions:write:{b}", f"{g.id} writes the restrictions read from {b:#04x} as {w:#04x}", g.loc())
    res.floor("restriction bytes", n, 1000)


def ratings(prog, res):
    """a star rating survives being written and read back"""
    n = 0
    for f in prog.fns.values():
        if f.name != "rate" or not (f.trait or "").endswith("RatingProvider"):
            continue
        back = [g for g in prog.fns.values() if g.trait == f.trait and g.name == "convert_raw" and g.self_ty is not None and f.self_ty is not None
                and g.crate.tys[g.self_ty].get("n") == f.crate.tys[f.self_ty].get("n")]
        if not back:
            continue
        g = back[0]
        T, S = inner_enum(f, f.local_ty(2)), inner_enum(f, f.local_ty(3))
        for t in range(len(prog.adts[T]["vs"])):
            last = -1
            for s in range(len(prog.adts[S]["vs"])):
                r = Spec(prog, deep=True).run(f, (None, ("e", T, t), ("e", S, s)))[1]
                if not isinstance(r, int):
                    continue
                n += 1
                x = outcome(prog, Spec(prog, deep=True).run(g, (None, ("e", T, t), r))[1])
                nm = prog.adts[S]["vs"][s]["n"]
                if r <= last:
                    res.add(f"rating:{f.id}:{nm}", f"{f.id}: {nm} stars ({r}) are not more than the rating below ({last})", f.loc())
                last = r
                if x is not None and x[0] != nm:
                    res.add(f"rating:{f.id}:{nm}", f"{f.id} writes {nm} star(s) as {r} in {prog.adts[T]['vs'][t]['n']}, which {g.id} reads as {x[0]}", f.loc())
    res.floor("ratings", n, 60)


FLAGS = {
    "FrameFlags::parse_id3v24": {"tag_alter_preservation": 0x4000, "file_alter_preservation": 0x2000, "read_only": 0x1000, "grouping_identity": 0x40,
                                 "compression": 8, "encryption": 4, "unsynchronisation": 2, "data_length_indicator": 1},
    "FrameFlags::parse_id3v23": {"tag_alter_preservation": 0x8000, "file_alter_preservation": 0x4000, "read_only": 0x2000, "compression": 0x80,
                                 "encryption": 0x40, "grouping_identity": 0x20},
    "FrameFlags::as_id3v24_bytes": None, "FrameFlags::as_id3v23_bytes": None,
    "Id3v2TagFlags::as_id3v24_byte": {"unsynchronisation": 0x80, "experimental": 0x20, "footer": 0x10},
    "Id3v2TagFlags::as_id3v23_byte": {"experimental": 0x20},
}


def flags(prog, res):
    """the flag bits of ID3v2 tags and frames"""
    n = und = 0
    for name, bits in FLAGS.items():
        fs = [f for f in prog.fns.values() if f.kind != "Closure" and f.argc == 1 and f.id.endswith(name)]
        if not fs:
            res.add(f"floor:{name}", f"{name} not found")
            continue
        f = fs[0]
        bits = bits or FLAGS[name.replace("as_", "parse_").replace("_bytes", "")]
        dec = "::parse" in name
        t = f.local_ty(0) if dec else f.local_ty(1)
        while t.get("k") == "ref":
            t = f.ty(t["a"][0])
        ad = prog.adts[t["n"]]
        names = [x[0] for x in ad["vs"][0]["f"]]
        tys = [ad["crate"].tys[x[1]] for x in ad["vs"][0]["f"]]
        on = lambda x: bool(x) if isinstance(x, int) else x[2] == 1 if isinstance(x, tuple) and x[0] == "e" else None
        if dec:
            for b in [0] + [1 << i for i in range(16)] + [0xffff]:
                v = Spec(prog, deep=True).run(f, (b,))[1]
                parts = dict(v[2]) if isinstance(v, tuple) and v[0] == "s" else {}
                for i, nm in enumerate(names):
                    g = on(parts.get((("f", i),)))
                    n += 1
                    if g is None:
                        und += 1
                    elif nm in bits and g != bool(b & bits[nm]) or nm not in bits and g:
                        res.add(f"flag:{name}:{nm}", f"{f.id} takes the flags {b:#06x} for {nm} = {g}; the bit is {bits.get(nm, 0):#06x}", f.loc())
            continue
        # fields the byte says nothing about are left unset
        sets = [()] + [(x,) for x in bits] + [tuple(bits)]
        for st in sets:
            sub = []
            for i, (nm, ty) in enumerate(zip(names, tys)):
                opt = ty.get("k") == "adt"
                x = int(nm in st)
                sub.append(((("f", i),), ("e", OPT, x) if opt else x))
                if opt and x:
                    sub.append(((("f", i), ("v", 1, "Some"), ("f", 0)), 0))
            arg = ("s", None, tuple(sorted(sub, key=repr)))
            got = Spec(prog, deep=True).run(f, (("rv", arg) if f.local_ty(1).get("k") == "ref" else arg,))[1]
            want = sum(bits[x] for x in st)
            n += 1
            if not isinstance(got, int):
                und += 1
            elif got != want:
                res.add(f"flag:{name}:{'+'.join(st) if len(st) < 2 else 'all'}", f"{f.id} writes {' and '.join(st) or 'no flags'} as {got:#06x} instead of {want:#06x}", f.loc())
    n += announced(prog, res)
    res.floor("flag bits", n, 200)
    res.coverage["undecided flags"] = und


def announced(prog, res):
    """an ID3v2.4 header that is followed by an extended header or a footer says so"""
    enc = {f.id for f in prog.fns.values() if f.id.endswith("Id3v2TagFlags::as_id3v24_byte")}
    if not enc:
        return 0
    FL = enc.copy().pop().rsplit("::", 1)[0]
    callers = lambda ids: {f.id for f in prog.fns.values() if f.id not in ids for c in f.calls if any(t.id in ids for t in prog.targets(c))}
    roots, seen = set(), set(enc)
    work = callers(enc)
    for _ in range(3):
        for i in work:
            f = prog.fns[i]
            if any(inner_enum(f, f.local_ty(a), False) == FL for a in range(1, f.argc + 1)):
                roots.add(i)
        seen |= work
        work = callers(work - roots) - seen
    n = 0
    ad = prog.adts[FL]
    names = [x[0] for x in ad["vs"][0]["f"]]
    for r in sorted(roots):
        f = prog.fns[r]
        for on in ((), ("crc",), ("footer",), ("crc", "footer")):
            val = ("s", None, tuple(sorted((((("f", i),), ("e", OPT, 0) if nm == "restrictions" else int(nm in on)) for i, nm in enumerate(names)), key=repr)))
            args = []
            for a in range(1, f.argc + 1):
                t = f.local_ty(a)
                if inner_enum(f, t, False) == FL:
                    args.append(("rv", val) if t.get("k") == "ref" else val)
                else:
                    args.append(0 if t.get("k") == "bool" else None)     # is_id3v23
            sp = Spec(prog, deep=True)
            sp.run(f, tuple(args))
            bytes_, open_ = [], False
            for (fid, _), calls in sp.obs.items():
                g = prog.fns[fid]
                for b, vals in calls.items():
                    c = g.terms[b][1]
                    if c.callee and c.callee.name == "write_u8" and len(vals) == 2:
                        bytes_.append(vals[1])
            if not bytes_ or any(not isinstance(x, int) for x in bytes_):
                continue
            n += 1
            for bit, nm, what in ((0x40, "crc", "an extended header"), (0x10, "footer", "a footer")):
                if (nm in on) != any(x & bit and not x & 0x2f for x in bytes_):
                    res.add(f"announced:{nm}:{'+'.join(on) or 'none'}", f"{r}: the header of a tag with {' and '.join(on) or 'neither CRC nor footer'} {'does not announce' if nm in on else 'announces'} {what}", f.loc())
    return n


def tables(prog, res):
    allc = [(k, plain(c["val"]), c) for k, c in prog.consts.items()]
    n = 0
    for o in ORACLE["tables"]:
        want = o["value"]
        mod, nm = o["name"].rsplit("::", 1)
        c = [x for x in allc if x[0] == o["name"] or x[0].split("::")[-1] == nm and x[0].startswith(o["module"])]
        n += 1
        if not c:
            # renamed or moved: it must be there under another name
            c = [x for x in allc if x[1] == want]
            if not c and isinstance(want, list) and len(want) > 2:
                # inlined where it is used
                if inlined(prog, want):
                    continue
            if not c and isinstance(want, list):
                res.add(f"floor:table:{o['name']}", f"the table {o['name']} was not found")
            continue
        for k, v, e in c:
            if v != want:
                d = ""
                if isinstance(v, list) and isinstance(want, list):
                    d = first_diff(v, want)
                res.add(f"table:{o['name']}", f"{k} is not the standard's table{': ' + d if d else f': {v} instead of {want}'}", f"{e['span'][0]}:{e['span'][1]}" if e.get("span") else "")
    res.floor("constant tables", n, 40)


def first_diff(a, b, path=""):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, f"{path}[{i}]")
        return f"{len(a)} entries{path and ' in ' + path}, not {len(b)}"
    return f"entry {path} is {a!r}, not {b!r}"


def inlined(prog, want):
    return any(o.kind == "k" and plain(o.val) == want for f in prog.fns.values() for b in f.reachable for s in f.stmts[b] for o in rv_ops(s.rv))
