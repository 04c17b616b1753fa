"""P09: the tables translating native keys and ItemKeys agree with each other and with the standards."""
import json
import os
import re
from sa.mir import rv_ops
from sa.spec import Spec
from sa.flow import slice_back

RULE = ("for every tag format: the native key an ItemKey is written as is read back as a key written under the same native key; no two "
        "read keys are equal ignoring case; keys are legal for the format; the keys fixed by a standard or by common practice are the "
        "ones used; identifiers of older ID3v2 versions are upgraded to the ID3v2.4 frame of the same meaning")
EXPLANATION = ("The forward table is what ItemKey::map_key can return when its two arguments are fixed (live blocks under constant "
               "propagation, for every variant of both enums); the inverse table is the list of insertions into the map which the "
               "from_key call, with the tag type fixed, consults. Both are compared with each other and with a reviewed table.")

IK, TT = "tag::item::ItemKey", "tag::tag_type::TagType"
# native keys shared by several ItemKeys on purpose (halves of a pair, or fields the format cannot tell apart)
EXACT = ("Mp4Ilst", "Id3v2")       # identifiers whose case matters to other software
SHARED = {
    "Ape": {"disc": {"DiscNumber", "DiscTotal"}, "track": {"TrackNumber", "TrackTotal"}, "year": {"RecordingDate", "Year"}},
    "Id3v2": {"text": {"Writer", "Lyricist"}, "tpos": {"DiscNumber", "DiscTotal"}, "trck": {"TrackNumber", "TrackTotal"},
              "mvin": {"MovementNumber", "MovementTotal"}, "tsse": {"EncoderSoftware", "EncoderSettings"}, "tpub": {"Publisher", "Label"}},
    "Mp4Ilst": {"disk": {"DiscNumber", "DiscTotal"}, "trkn": {"TrackNumber", "TrackTotal"}, "©lyr": {"Lyrics", "UnsyncLyrics"}},
}


def const_str(v):
    while isinstance(v, dict) and "ref" in v:
        v = v["ref"]
    return v.get("s") if isinstance(v, dict) else None


def block_strs(fn, b):
    out = []
    for s in fn.stmts[b]:
        out += [const_str(o.val) for o in rv_ops(s.rv) if o.kind == "k"]
    t = fn.terms[b]
    if t[0] == "call":
        out += [const_str(o.val) for o in t[1].args if o.kind == "k"]
    return [s for s in out if s is not None]


def block_statics(fn, b):
    out = set()

    def walk(v):
        if isinstance(v, dict):
            if "static" in v:
                out.add(v["static"])
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    for s in fn.stmts[b]:
        for o in rv_ops(s.rv):
            if o.kind == "k":
                walk(o.val)
        if s.rv[0] == "static":
            out.add(s.rv[1])
    t = fn.terms[b]
    if t[0] == "call":
        for o in t[1].args:
            if o.kind == "k":
                walk(o.val)
    return out


def values_of(fn, o, ik):
    """the strings / ItemKeys an operand may be built from, in order"""
    seen, consts, cs, sts = slice_back(fn, o, calls=False)
    strs, keys = [], []

    def walk(v):
        if isinstance(v, dict):
            if v.get("adt") == IK and "vn" in v:
                keys.append(v["vn"])
            if isinstance(v.get("s"), str):
                strs.append(v["s"])
            for k, x in v.items():
                if k != "s":
                    walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    for s in sts:
        if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == IK:
            keys.append(s.rv[1][3])
    for c in consts:
        if "promoted" in c.val:
            pf = fn.promoted[c.val["promoted"]]
            names = {}
            for b in range(len(pf.stmts)):
                for s in pf.stmts[b]:
                    if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == IK:
                        names[s.place.local] = s.rv[1][3]
                    if s.rv[0] == "agg" and s.rv[1][0] == "array":
                        for q in s.rv[2]:
                            keys.append(names.get(q.place.local) if q.kind == "p" else ik[q.val["v"]] if "v" in q.val else None)
        else:
            walk(c.val)
    return strs, [k for k in keys if k]


def insertions(fn, ik, strings):
    """[(key, values)] of the insert calls of a table initialiser, in order"""
    rows = []
    for b in fn.rpo:
        t = fn.terms[b]
        if t[0] == "call" and t[1].callee and t[1].callee.name == "insert" and len(t[1].args) == 3:
            c = t[1]
            ks, _ = values_of(fn, c.args[1], ik)
            vs = values_of(fn, c.args[2], ik)
            rows.append((ks, vs[0] if strings else vs[1], c))
    return rows


def legal(tt, k):
    if tt == "Id3v2":
        return (re.fullmatch(r"[A-Z][A-Z0-9]{3}", k) is not None) or (len(k) > 0 and k.isprintable())
    if tt == "Mp4Ilst":
        if k.startswith("----:"):
            p = k.split(":", 2)
            return len(p) == 3 and all(p)
        return len(k) == 4 and all(ord(c) < 256 for c in k) or k == "xid "
    if tt in ("RiffInfo", "AiffText"):
        return len(k) == 4 and all(0x20 <= ord(c) < 0x7F for c in k)
    if tt == "Ape":
        return 2 <= len(k) <= 255 and all(0x20 <= ord(c) <= 0x7E for c in k) and k.lower() not in ("id3", "tag", "oggs", "mp+")
    if tt == "VorbisComments":
        return len(k) > 0 and all(0x20 <= ord(c) <= 0x7D and c != "=" for c in k)
    return True


def run(prog, res, tier):
    O = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracle", "keys.json")))
    if IK not in prog.adts or TT not in prog.adts:
        res.floor("key_enums", 0, 2)
        return
    ik = [v["n"] for v in prog.adts[IK]["vs"]]
    tts = [v["n"] for v in prog.adts[TT]["vs"]]
    sp = Spec(prog)
    fwd_id, rev_id = f"{IK}::map_key", f"{IK}::from_key"
    if fwd_id not in prog.fns or rev_id not in prog.fns:
        res.floor("key_functions", 0, 2)
        return
    where = prog.fns[fwd_id].loc()
    npairs = nread = 0
    for ti, tt in enumerate(tts):
        fwd = {}
        for i, k in enumerate(ik):
            lc = sp.live_closure([(fwd_id, (("e", IK, i), ("e", TT, ti)))])
            ss = [s for (fid, a), bl in lc.items() for b in bl for s in block_strs(prog.fns[fid], b)]
            if len(set(ss)) > 1:
                res.add(f"forward:{tt}:{k}", f"ItemKey::{k} may be written to {tt} as any of {sorted(set(ss))}", where)
            if ss:
                fwd[k] = ss[0]
        npairs += len(fwd)
        # the tables from_key consults for this tag type
        lc = sp.live_closure([(rev_id, (("e", TT, ti), None))])
        statics = set()
        for (fid, a), bl in lc.items():
            for b in bl:
                statics |= block_statics(prog.fns[fid], b)
        inits = [f for f in prog.fns.values() if f.kind == "Closure" and any(f.id.startswith(s + "::{closure") for s in statics)]
        rows = [r for f in inits for r in insertions(f, ik, False)]
        nread += len(rows)
        if fwd and not rows:
            res.floor(f"read_keys_{tt}", 0, 1)
            continue
        loc = {}
        inv = {}
        for ks, vs, c in rows:
            if len(set(ks)) != 1 or not vs:
                res.floor(f"table_rows_understood_{tt}", 0, 1)
                continue
            k = ks[0]
            loc[k] = c.fn.loc(c.span)
            for o in inv:
                if o.lower() == k.lower() and o != k and inv[o] != vs:
                    res.add(f"ambiguous:{tt}:{k}", f"{tt}: the keys {o!r} and {k!r} are equal ignoring case and mean {inv[o][0]} and {vs[0]}: which one is found depends on the map's iteration order", loc[k])
            if k in inv and inv[k][0] != vs[0] and not {inv[k][0], vs[0]} <= SHARED.get(tt, {}).get(k.lower(), set()):
                res.add(f"twice:{tt}:{k}", f"{tt}: the key {k!r} is entered for both {inv[k][0]} and {vs[0]}", loc[k])
            inv[k] = vs
            if not legal(tt, k):
                res.add(f"illegal:{tt}:{k}", f"{tt}: {k!r} is not a legal native key", loc[k])
        # the lookup ignores case and takes the first, most applicable, ItemKey
        names = {}
        for (fid, a), bl in lc.items():
            g = prog.fns[fid]
            if g in inits:
                continue
            for c in g.calls:
                if c.bb in bl and c.callee:
                    names.setdefault(c.callee.name, c)
        if rows and not set(names) & {"eq_ignore_ascii_case", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase",
                             "to_lowercase", "to_uppercase"}:
            res.add(f"case:{tt}", f"{tt}: the lookup of a native key is sensitive to case", prog.fns[rev_id].loc())
        for n in ("last", "pop", "rev", "next_back"):
            if n in names:
                res.add(f"order:{tt}", f"{tt}: the lookup takes another than the first ItemKey of an entry", names[n].fn.loc(names[n].span))
        low = {k.lower(): v for k, v in inv.items()}
        share = {}
        for k, n in fwd.items():
            share.setdefault(n.lower(), set()).add(k)
        for k, n in fwd.items():
            back = low.get(n.lower())
            if not back:
                res.add(f"unread:{tt}:{k}", f"{tt}: ItemKey::{k} is written as {n!r}, which is not read back as any key", where)
            elif fwd.get(back[0], "").lower() != n.lower():
                res.add(f"closure:{tt}:{k}", f"{tt}: ItemKey::{k} is written as {n!r}, read back as {back[0]}, which is written as {fwd.get(back[0])!r}", where)
            elif back[0] != k and k not in SHARED.get(tt, {}).get(n.lower(), ()):
                res.add(f"inverse:{tt}:{k}", f"{tt}: ItemKey::{k} is written as {n!r}, which is read back as {back[0]}", where)
            if not legal(tt, n):
                res.add(f"illegal:{tt}:{n}", f"{tt}: {n!r} is not a legal native key", where)
        for n, ks in share.items():
            if len(ks) > 1 and not ks <= SHARED.get(tt, {}).get(n, set()):
                res.add(f"shared:{tt}:{n}", f"{tt}: {sorted(ks)} are all written as {n!r}", where)
        for n, vs in inv.items():
            for v in vs[:1]:
                if v not in fwd:
                    res.add(f"unwritable:{tt}:{n}", f"{tt}: {n!r} is read as ItemKey::{v}, which {tt} cannot write", loc[n])
        for k, n in O["write"].get(tt, {}).items():
            same = str if tt in EXACT else str.lower
            if k in ik and same(fwd.get(k, "")) != same(n):
                res.add(f"standard:{tt}:{k}", f"{tt}: ItemKey::{k} is stored as {n!r} in this format; here it is written as {fwd.get(k)!r}", where)
        for n, k in O["read_also"].get(tt, {}).items():
            if low.get(n.lower(), [None])[0] != k:
                res.add(f"alternate:{tt}:{n}", f"{tt}: {n!r} is a common spelling of {k}; here it is read as {low.get(n.lower(), [None])[0]}", where)
    # upgrades of older frame identifiers
    nup = 0
    for name, tab, optional in (("upgrade_v2", O["id3v22"], O["id3v22_optional"]), ("upgrade_v3", O["id3v23"], [])):
        fid = f"id3::v2::util::upgrade::{name}"
        if fid not in prog.fns:
            res.floor(name, 0, 1)
            continue
        f = prog.fns[fid]
        live = sp.live_closure([(fid, ())])
        statics = set()
        for (x, a), bl in live.items():
            for b in bl:
                statics |= block_statics(prog.fns[x], b)
        rows = [r for g in prog.fns.values() if g.kind == "Closure" and any(g.id.startswith(s + "::{closure") for s in statics)
                for r in insertions(g, ik, True)]
        got = {}
        for ks, vs, c in rows:
            if len(set(ks)) != 1 or len(set(vs)) != 1:
                res.floor(f"rows_understood_{name}", 0, 1)
                continue
            got[ks[0]] = (vs[0], c)
        nup += len(got)
        for k, (v, c) in got.items():
            if k in tab and tab[k] != v:
                res.add(f"{name}:{k}", f"{name}: {k} is the older identifier of {tab[k]}, here it becomes {v}", c.fn.loc(c.span))
            if not re.fullmatch(r"[A-Z][A-Z0-9]{3}", v) or len(k) != (3 if name == "upgrade_v2" else 4):
                res.add(f"{name}:illegal:{k}", f"{name}: {k} -> {v} are not identifiers of the two versions", c.fn.loc(c.span))
        for k in tab:
            if k not in got and k not in optional:
                res.add(f"{name}:{k}", f"{name}: {k} (now {tab[k]}) is not upgraded", f.loc())
    res.coverage["formats"] = len(tts)
    res.floor("forward_pairs", npairs, 300)
    res.floor("read_keys", nread, 320)
    res.floor("upgrades", nup, 60)
