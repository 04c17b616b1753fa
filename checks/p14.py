"""P14: saving a generic tag does what converting it to the format's own tag and saving that does."""
import collections, re
from sa.common import *
from sa.mir import rv_places, rv_ops
from sa.spec import Spec
from checks.p09 import IK, TT, block_strs

RULE = ("for every tag format: the parts of a Tag (items, pictures) its conversion to the format's own tag reads are also read when the Tag is saved "
        "directly; the item keys handled specially are the same in both; a conversion taking an owned or a borrowed item accepts the same values; "
        "a native value split into number and total is one that both are stored in; MP4 values which are not text are translated, and the ID3v1 "
        "fields and MP4 numbers and rating become items when the tag is converted back")
EXPLANATION = ("Both conversions are specialised, for every item key, by conditional constant propagation (which blocks can run and which constants "
               "functions return when every ItemKey in sight has that value); a key is special in a conversion if its specialisation differs from the usual one.")

OWN = {"Ape": "ape::tag::ApeTag", "Id3v1": "id3::v1::tag::Id3v1Tag", "Id3v2": "id3::v2::tag::Id3v2Tag", "VorbisComments": "ogg::tag::VorbisComments",
       "RiffInfo": "iff::wav::tag::RiffInfoList", "AiffText": "iff::aiff::tag::AiffTextChunks", "Mp4Ilst": "mp4::ilst::Ilst"}
TAG, ITEM, VALUE = "tag::Tag", "tag::item::TagItem", "tag::item::ItemValue"
MAP = f"{IK}::map_key"
UNMAP = f"{IK}::from_key"
COW = "alloc::borrow::Cow"
FT = "file::file_type::FileType"
SUPPORT = "file::file_type::FileType::tag_support"
OPT = "core::option::Option"
BY_KEY = ("Id3v1", "AiffText")                     # those which look for the items they can store
BY_ITEM = ("Ape", "VorbisComments", "RiffInfo")     # formats whose two conversions each walk over the items

# native values which are not text, so that the item's value has to be translated: pairs of numbers, flags, a rating
TYPED = {"Mp4Ilst": {"TrackNumber", "TrackTotal", "DiscNumber", "DiscTotal", "FlagCompilation", "FlagPodcast", "ParentalAdvisory"}}
# item keys for which the conversion to items must make up the value (they are not looked up by the native key)
MADE = {"Mp4Ilst": {"TrackNumber", "TrackTotal", "DiscNumber", "DiscTotal", "ParentalAdvisory"},
        "Id3v1": {"TrackTitle", "TrackArtist", "AlbumTitle", "Comment", "TrackNumber", "Genre", "Year"}}


def forward(prog):
    """{format: {ItemKey name: native key}}"""
    ik = [v["n"] for v in prog.adts[IK]["vs"]]
    tts = [v["n"] for v in prog.adts[TT]["vs"]]
    sp = Spec(prog)
    out = {}
    for ti, tt in enumerate(tts):
        out[tt] = {}
        for i, k in enumerate(ik):
            lc = sp.live_closure([(MAP, (("e", IK, i), ("e", TT, ti)))])
            ss = [s for (fid, a), bl in lc.items() for b in bl for s in block_strs(prog.fns[fid], b)]
            if ss:
                out[tt][k] = ss[0]
    return ik, tts, out


SEES = re.compile(r"(?<![\w:])tag::(Tag(?![\w])|item::(TagItem|ItemKey|ItemValue)(?![\w]))")
_sees = {}


def sees_tag(f):
    """does the function, or a closure it makes, handle the generic tag or its items? (what is beyond that handles bytes)"""
    if f.id not in _sees:
        fs = [f] + [f.prog.fns[x] for x in f.prog.closures_of[f.id] if x in f.prog.fns and x.startswith(f.id)]
        _sees[f.id] = any(SEES.search(f.tys(l[0])) for f in fs for l in f.locals)
    return _sees[f.id]


def writes_out(fs):
    return not any(sees_tag(g) for g in fs)


def no_writers(f, c, fs):
    return not writes_out(fs)


def tag_fields(prog, lc):
    """fields of Tag read in live code"""
    out = set()
    for (fid, a), bl in lc.items():
        f = prog.fns[fid]
        for b in bl:
            ps = [p for s in f.stmts[b] for p in rv_places(s.rv)]
            ps += [o.place for s in f.stmts[b] for o in rv_ops(s.rv) if o.kind == "p"]
            t = f.terms[b]
            if t[0] == "call":
                ps += [o.place for o in t[1].args if o.kind == "p"]
            for p in ps:
                ty = f.local_ty(p.local)
                for e in p.proj:
                    while ty and ty.get("k") in ("ref", "ptr"):
                        ty = f.ty(ty["a"][0])
                    if e[0] == "f" and ty and ty.get("k") == "adt" and ty["n"] == TAG:
                        out.add(e[2])
                    if e[0] == "f":
                        break
    return out


def writable(prog, fi, ti):
    """is this kind of tag looked for by the writers of this format? (the formats' own writers stop at once for others)"""
    if prog.adts[FT]["vs"][fi]["n"] == "Custom":
        return False
    rv = Spec(prog, enums={FT: fi, TT: ti}, deep=True, strings=True).run(prog.fns[SUPPORT])[1]
    return rv == 2 or (isinstance(rv, tuple) and rv[0] == "e" and prog.adts[rv[1]]["vs"][rv[2]]["n"] == "ReadWrite")


def roots(prog, tt, ti):
    own = f"<{OWN.get(tt)} as core::convert::From<tag::Tag>>::from"
    ref = "tag::utils::dump_tag"
    return (own if own in prog.fns else None), (ref if ref in prog.fns else None)


def signatures(prog, root, keys, ik, extra):
    out = {}
    for k in keys:
        en = {IK: ik.index(k)}
        en.update(extra)
        sp = Spec(prog, enums=en, calls={MAP: ("e", OPT, 1)}, strings=True, deep=True, enter=no_writers)
        lc = sp.live_closure([root])
        d = {}
        for (fid, a), bl in lc.items():
            f = prog.fns[fid]
            if fid.startswith("tag::item::") or writes_out([f]):
                continue
            x = d.setdefault(fid, (set(), set()))
            x[0].update(bl)
            rv = sp.run(f, a)[1]
            if isinstance(rv, int):
                x[1].add(rv)
        out[k] = frozenset((f, frozenset(x[0]), frozenset(x[1])) for f, x in d.items())
    return out


def mentioned(prog, lc):
    """item keys named in live code handling tags"""
    out = set()
    for (fid, a), bl in lc.items():
        f = prog.fns[fid]
        if not sees_tag(f) or fid.startswith("tag::item::"):
            continue
        for b in bl:
            ops = [o for s in f.stmts[b] for o in rv_ops(s.rv)]
            for s in f.stmts[b]:
                if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == IK:
                    out.add(s.rv[1][3])
            t = f.terms[b]
            if t[0] == "call":
                ops += t[1].args
            for o in ops:
                if o.kind == "k":
                    w = o.val.get("ref", o.val)
                    if isinstance(w, dict) and w.get("adt") == IK:
                        out.add(w["vn"])
    return out


def used_kinds(prog, root, extra):
    """{ItemValue kind: may an item with such a value be stored?}"""
    out = {}
    for vi, v in enumerate(x["n"] for x in prog.adts[VALUE]["vs"]):
        en = {VALUE: vi}
        en.update(extra)
        sp = Spec(prog, enums=en, calls={MAP: ("e", OPT, 1)}, strings=True, deep=True, enter=no_writers)
        used = False
        for (fid, a), bl in sp.live_closure([root]).items():
            f = prog.fns[fid]
            if f.kind == "Closure" and f.argc == 2 and f.local_ty(0).get("n") == OPT and ITEM in f.tys(f.locals[2][0]):
                rv = sp.run(f, a)[1]
                h = rv[1] if isinstance(rv, tuple) and rv[0] == "s" else rv
                used |= h != ("e", OPT, 0)
            for c in f.calls:
                if c.bb in bl and c.callee and c.callee.name in ("push", "insert", "extend") and len(c.args) > 1 and sees_tag(f) and \
                        not any("icture" in f.tys(o.ty) for o in c.args if o.ty is not None) and not fid.startswith("tag::"):
                    used = True
        out[v] = used
    return out


def special(sig):
    cnt = collections.Counter(sig.values())
    usual, n = cnt.most_common(1)[0]
    return {k for k, s in sig.items() if s != usual}, n


def run(prog, res, tier):
    if IK not in prog.adts or TT not in prog.adts or TAG not in prog.adts:
        res.floor("types", 0, 3)
        return
    ik, tts, fwd = forward(prog)
    nf = nk = nw = nv = ns = 0
    fts = [v["n"] for v in prog.adts[FT]["vs"]] if FT in prog.adts else []
    if "tag::utils::write_tag" not in prog.fns:
        res.floor("write_tag", 0, 1)
        return
    for ti, tt in enumerate(tts):
        own, ref = roots(prog, tt, ti)
        if not own or not ref:
            res.floor(f"conversions_{tt}", 0, 2)
            continue
        f_own = tag_fields(prog, Spec(prog, enums={TT: ti}, deep=True).live_closure([own]))
        f_ref = tag_fields(prog, Spec(prog, enums={TT: ti}, deep=True, enter=no_writers).live_closure([ref]))
        saves = [("", ref, {TT: ti}, f_ref)]
        for fi, ft in enumerate(fts):
            if writable(prog, fi, ti):
                en = {TT: ti, FT: fi}
                lc = Spec(prog, enums=en, deep=True, enter=no_writers).live_closure(["tag::utils::write_tag"])
                saves.append((ft, "tag::utils::write_tag", en, tag_fields(prog, lc)))
                nw += 1
        for ft, root, en, fields in saves:
            what = f"saving the Tag to a {ft} file" if ft else "writing the Tag alone"
            for x in sorted(f_own & {"items", "pictures"}):
                nf += 1
                if x not in fields:
                    res.add(f"dropped:{tt}:{x}:{ft}", f"{tt}: converting a Tag uses its {x}, {what} never looks at them", prog.fns[root].loc())
            for x in sorted(fields & {"items", "pictures"} - f_own):
                res.add(f"not-converted:{tt}:{x}:{ft}", f"{tt}: {what} uses its {x}, converting it never looks at them", prog.fns[own].loc())
        if tt in BY_KEY:
            mo = mentioned(prog, Spec(prog, enums={TT: ti}, deep=True).live_closure([own]))
            nk += len(mo)
            for ft, root, en, fields in saves:
                mr = mentioned(prog, Spec(prog, enums=en, deep=True, enter=no_writers).live_closure([root]))
                what = f"saving the Tag to a {ft} file" if ft else "writing the Tag alone"
                for k in sorted(mo ^ mr):
                    a, b = ("converting a Tag", what) if k in mo else (what, "converting a Tag")
                    res.add(f"looked-up:{tt}:{k}:{ft}", f"{tt}: {a} looks for {k} items, {b} does not", prog.fns[root].loc())
        for k in sorted(MADE.get(tt, ())):
            split = f"<{OWN[tt]} as tag::split_merge_tag::SplitTag>::split_tag"
            ns += 1
            if split not in prog.fns:
                res.floor(f"split_{tt}", 0, 1)
                break
            if k not in mentioned(prog, Spec(prog, deep=True).live_closure([split])):
                res.add(f"not-split:{tt}:{k}", f"{tt}: converting it to a Tag never makes a {k} item", prog.fns[split].loc())
        if tt in TYPED:
            keys = [k for k in ik if k in fwd[tt]]
            so, n1 = special(signatures(prog, own, keys, ik, {}))
            for k in sorted(TYPED[tt]):
                ns += 1
                if k not in so:
                    res.add(f"not-typed:{tt}:{k}", f"{tt}: {k} items are stored as text when a Tag is converted; their native value is not text", prog.fns[own].loc())
        if tt not in BY_ITEM:
            continue
        uo = used_kinds(prog, own, {})
        for ft, root, en, fields in saves:
            ur = used_kinds(prog, root, en)
            what = f"saving the Tag to a {ft} file" if ft else "writing the Tag alone"
            res.coverage.setdefault("value_kinds", {})[f"{tt}:{ft}"] = [uo, ur]
            for v in uo:
                nv += 1
                if uo[v] != ur[v]:
                    a, b = ("converting a Tag", what) if uo[v] else (what, "converting a Tag")
                    res.add(f"kind:{tt}:{v}:{ft}", f"{tt}: {a} stores {v} values, {b} drops them", prog.fns[root].loc())
        keys = [k for k in ik if k in fwd[tt]]
        so, n1 = special(signatures(prog, own, keys, ik, {}))
        done = {}
        for ft, root, en, fields in saves:
            sr, n2 = special(signatures(prog, root, keys, ik, en))
            nk += len(keys)
            what = f"saved to a {ft} file" if ft else "written alone"
            for k in sorted(so - sr):
                done.setdefault(("special-converted", k, "when a Tag is converted", prog.fns[own].loc()), []).append(what)
            for k in sorted(sr - so):
                done.setdefault(("special-saved", k, "not when a Tag is converted", prog.fns[root].loc()), []).append(what)
        res.coverage[f"special_keys_{tt}"] = {"converted": sorted(so), "saved": sorted(sr)}
        for (kind, k, when, loc), whats in done.items():
            w = ", ".join(whats)
            if kind == "special-converted":
                res.add(f"{kind}:{tt}:{k}", f"{tt}: {k} items are treated specially {when}, but not when it is {w}", loc)
            else:
                res.add(f"{kind}:{tt}:{k}", f"{tt}: {k} items are treated specially when a Tag is {w}, but {when}", loc)
    res.floor("keys_translated", ns, 19)
    res.floor("value_kinds_compared", nv, 18)
    res.floor("writable_pairs", nw, 18)
    res.floor("tag_parts_compared", nf, 8)
    res.floor("item_keys_compared", nk, 150)
    res.floor("owned_or_borrowed_conversions", cow_parity(prog, res), 1)
    res.floor("pair_splits", pair_splits(prog, res, ik, tts, fwd), 4)


def cow_parity(prog, res):
    """functions taking Cow<TagItem>: the outcome for each kind of value does not depend on ownership"""
    n = 0
    if VALUE not in prog.adts:
        return 0
    kinds = [v["n"] for v in prog.adts[VALUE]["vs"]]
    for f in prog.fns.values():
        if f.kind == "Closure" or not f.span:
            continue
        if not any(ty.get("k") == "adt" and ty["n"] == COW and any(f.ty(x).get("n") == ITEM for x in ty.get("a", ())) for ty in (f.local_ty(i) for i in range(1, f.argc + 1))):
            continue
        if f.local_ty(0).get("n") != OPT:
            continue
        n += 1
        for vi, v in enumerate(kinds):
            outs = []
            for c in (0, 1):
                sp = Spec(prog, enums={COW: c, VALUE: vi}, deep=True, strings=True)
                rv = sp.run(f)[1]
                h = rv[1] if isinstance(rv, tuple) and rv[0] == "s" else rv
                outs.append(h)
            if outs[0] and outs[1] and outs[0] != outs[1]:
                # one certain, the other not (or the opposite)
                what = {None: "may or may not be used", ("e", OPT, 0): "is ignored", ("e", OPT, 1): "is used"}
                res.add(f"owned-borrowed:{f.id}:{v}", f"{f.id}: a {v} value {what.get(outs[0], '?')} in a borrowed item and {what.get(outs[1], '?')} in an owned one", f.loc())
    return n


def pair_splits(prog, res, ik, tts, fwd):
    """a value split into two item keys is stored under a native key both are written as"""
    n = 0
    for f in prog.fns.values():
        sites = []
        for c in f.calls:
            if c.bb not in f.reachable:
                continue
            ks = [k for k in (key_arg(prog, f, o) for o in c.args) if k]
            if len(ks) == 2 and prog.targets(c):
                sites.append((c, ks))
        if not sites:
            continue
        tt = tag_type_of(prog, f)
        if tt is None:
            continue
        for c, ks in sites:
            n += 1
            a, b = (fwd[tt].get(k) for k in ks)
            if not b or not a:
                res.add(f"pair-unmapped:{tt}:{ks[0]}", f"{f.id}: splits a value into {ks[0]} and {ks[1]}, which {tt} does not both write", f.loc(c.span))
                continue
            # for which keys of the item read is this split reached?
            for i, k in enumerate(ik):
                if k not in fwd[tt] or k not in ks:
                    continue
                sp = Spec(prog, enums={}, calls={UNMAP: ("s", ("e", OPT, 1), (((("v", 1, "Some"), ("f", 0)), ("e", IK, i)),))}, strings=True, deep=True,
                          enter=lambda *_: False)
                live = sp.run(f)[0]
                usesmap = any(x.path == UNMAP or (x.callee and x.callee.target == UNMAP) for x in f.calls if x.bb in live)
                if usesmap and c.bb in live and fwd[tt][k].lower() != a.lower():
                    res.add(f"pair:{tt}:{k}", f"{f.id}: the value of {fwd[tt][k]!r} ({k}) is split as if it held {ks[0]} first", f.loc(c.span))
    return n


def key_arg(prog, f, o):
    """the ItemKey an argument certainly is"""
    if o.kind == "k":
        return o.val["vn"] if o.val.get("adt") == IK and "vn" in o.val else None
    if o.place.proj or f.local_ty(o.place.local).get("n") != IK:
        return None
    rvs = [s.rv for ss in f.stmts for s in ss if s.place.local == o.place.local and not s.place.proj]
    if len(rvs) != 1 or any(t[0] == "call" and t[1].dest.local == o.place.local for t in f.terms):
        return None
    rv = rvs[0]
    if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] == IK:
        return rv[1][3]
    if rv[0] == "use":
        return key_arg(prog, f, rv[1])
    return None


def tag_type_of(prog, f):
    """the format whose tag a (closure of a) conversion belongs to"""
    mods = {"ape::": "Ape", "id3::v2::": "Id3v2", "mp4::ilst": "Mp4Ilst", "ogg::tag": "VorbisComments", "iff::wav": "RiffInfo"}
    x = f.id.lstrip("<")
    for m, t in mods.items():
        if x.startswith(m):
            return t
    return None
