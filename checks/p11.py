"""P11: the tag support table agrees with what readers, writers and removal do."""
from sa.common import *
from sa.mir import rv_places, rv_ops
from sa.spec import Spec
from sa.flow import defs
from checks.p14 import OWN, FT, TT, SUPPORT, OPT, TAG

RULE = ("tag_support(file type, tag type) is the documented one for all pairs; the reader of each file type has a field for exactly the readable tags, fills it, and hands "
        "all of them to TaggedFile with its own file type; each writable pair reaches the writer of that tag type and no other; saving is refused, or the tag skipped, "
        "for unwritable pairs and removal for unreadable ones; extensions and primary tag types are the documented ones")
EXPLANATION = "Every dispatching function is specialised by conditional constant propagation to each file type, tag type and answer of tag_support."

R, W = "ReadOnly", "ReadWrite"
MATRIX = {
    "Aac": {"Id3v2": W, "Id3v1": W}, "Ape": {"Ape": W, "Id3v2": R, "Id3v1": W}, "Aiff": {"Id3v2": W, "AiffText": W},
    "Flac": {"VorbisComments": W, "Id3v2": R}, "Mpeg": {"Id3v2": W, "Id3v1": W, "Ape": W}, "Mp4": {"Mp4Ilst": W},
    "Mpc": {"Ape": W, "Id3v2": R, "Id3v1": R}, "Opus": {"VorbisComments": W}, "Vorbis": {"VorbisComments": W}, "Speex": {"VorbisComments": W},
    "Wav": {"Id3v2": W, "RiffInfo": W}, "WavPack": {"Ape": W, "Id3v1": W}}
PRIMARY = {"Aac": "Id3v2", "Aiff": "Id3v2", "Mpeg": "Id3v2", "Wav": "Id3v2", "Ape": "Ape", "Mpc": "Ape", "WavPack": "Ape", "Flac": "VorbisComments",
           "Opus": "VorbisComments", "Vorbis": "VorbisComments", "Speex": "VorbisComments", "Mp4": "Mp4Ilst"}
EXT = {"Aac": "aac", "Ape": "ape", "Aiff": "aiff aif afc aifc", "Mpeg": "mp3 mp2 mp1", "Wav": "wav wave", "WavPack": "wv", "Opus": "opus", "Flac": "flac", "Vorbis": "ogg",
       "Mp4": "mp4 m4a m4b m4p m4r m4v 3gp", "Mpc": "mpc mp+ mpp", "Speex": "spx"}
TS = "tag::tag_type::TagSupport"
WEXT = "tag::tag_ext::TagWriteExt"
TEXT = "tag::tag_ext::TagExt"
AUDIO = "file::audio_file::AudioFile"
TAGGED = "file::tagged_file::TaggedFile"
VER = "util::io::VerifiedFile"
GLOBAL = "config::global_options::GlobalOptions"
LOWER = "alloc::str::<impl str>::to_ascii_lowercase"


def variant(prog, v, adt=None):
    """name of the enum variant a value certainly is"""
    if isinstance(v, tuple) and v[0] == "e" and (adt is None or v[1] == adt):
        return prog.adts[v[1]]["vs"][v[2]]["n"]
    if isinstance(v, int) and adt:
        return prog.adts[adt]["vs"][v]["n"]
    return None


def inner_variant(prog, v, adt):
    """variant of the value inside Some(..)"""
    if isinstance(v, tuple) and v[0] == "s":
        for _, x in v[2]:
            n = variant(prog, x, adt)
            if n:
                return n
    return None


def takes_file(f):
    return any(f.local_ty(i).get("n") == VER for i in range(1, f.argc + 1))


def method_of(prog, trait, name, adt):
    for p in prog.impl_methods.get((trait, name), []):
        f = prog.fns[p]
        if f.self_ty is not None and f.crate.tys[f.self_ty].get("n") == adt:
            return f
    return None


def live_writes(prog, lc):
    return any(io_kind(f.terms[b][1]) in ("write", "trunc") for (fid, a), bl in lc.items() for f in [prog.fns[fid]] for b in bl if f.terms[b][0] == "call")


def run(prog, res, tier):
    for n in (FT, TT, TS, TAGGED):
        if n not in prog.adts:
            res.add(f"floor:{n}", f"type {n} not found")
            return
    fts = [v["n"] for v in prog.adts[FT]["vs"]]
    tts = [v["n"] for v in prog.adts[TT]["vs"]]
    matrix(prog, res, fts, tts)
    reading(prog, res, fts)
    writing(prog, res, fts, tts)
    gates(prog, res)
    extensions(prog, res)


def matrix(prog, res, fts, tts):
    f = prog.fns.get(SUPPORT)
    g = prog.fns.get(f"{FT}::primary_tag_type")
    if not f or not g:
        res.add("floor:tag_support", "tag_support or primary_tag_type not found")
        return
    n = un = 0
    for fi, ft in enumerate(fts):
        if ft == "Custom":
            continue
        for ti, tt in enumerate(tts):
            v = variant(prog, Spec(prog, enums={FT: fi, TT: ti}, deep=True, strings=True).run(f)[1], TS)
            n += 1
            want = MATRIX.get(ft, {}).get(tt, "Unsupported")
            if v is None:
                un += 1
                v = by_lists(prog, ft, tt) or want
            if v != want:
                res.add(f"support:{ft}:{tt}", f"tag_support of {tt} in {ft} is {v}, documented is {want}", f.loc())
        v = variant(prog, Spec(prog, enums={FT: fi}, deep=True).run(g)[1], TT)
        un += v is None
        if v is not None and v != PRIMARY.get(ft):
            res.add(f"primary:{ft}", f"the primary tag type of {ft} is {v}, documented is {PRIMARY.get(ft)}", g.loc())
    res.floor("pairs_of_the_support_table", n, 84)
    res.coverage["undecided_answers"] = un
    # the answers of TagSupport
    for name, yes in (("is_writable", {W}), ("is_readable", {R, W})):
        h = prog.fns.get(f"{TS}::{name}")
        if not h:
            res.add(f"floor:{name}", f"{TS}::{name} not found")
            continue
        for i, v in enumerate(prog.adts[TS]["vs"]):
            r = Spec(prog, enums={TS: i}).run(h)[1]
            if r is not None and bool(r) != (v["n"] in yes):
                res.add(f"answer:{name}:{v['n']}", f"TagSupport::{v['n']}.{name}() is {bool(r)}", h.loc())


def by_lists(prog, ft, tt):
    """the answer according to the lists of formats of the tag type"""
    def names(c):
        v = prog.consts.get(f"{OWN.get(tt)}::{c}", {}).get("val", {})
        v = (v.get("ref") or v).get("arr")
        return None if v is None else [x.get("vn") for x in v]
    a, b = names("SUPPORTED_FORMATS"), names("READ_ONLY_FORMATS")
    if a is None or b is None:
        return None
    return "Unsupported" if ft not in a else R if ft in b else W


def reading(prog, res, fts):
    inner = [f for f in prog.fns.values() if f.name == "read_inner" and f.id.startswith("probe::Probe")]
    disp = inner[0] if inner else None
    if not disp:
        res.add("floor:read_inner", "Probe::read_inner not found")
        return
    own = {a: t for t, a in OWN.items()}
    n = nf = 0
    for fi, ft in enumerate(fts):
        if ft == "Custom":
            continue
        lc = Spec(prog, enums={FT: fi}).live_closure([disp.id], stop=lambda f: f.trait == AUDIO)
        readers = {}
        for (fid, a), bl in lc.items():
            f = prog.fns[fid]
            if fid.startswith("<" + TAGGED) or f.kind == "Closure" and fid != disp.id and not fid.startswith(disp.id):
                continue
            for b in bl:
                t = f.terms[b]
                if t[0] != "call":
                    continue
                for g in prog.targets(t[1]):
                    if g.trait == AUDIO and g.name == "read_from" and g.self_ty is not None and g.crate.tys[g.self_ty]["n"] != TAGGED:
                        readers[g.crate.tys[g.self_ty]["n"]] = g
        if len(readers) != 1:
            res.add(f"reader:{ft}", f"a {ft} file is given to {sorted(readers) or 'no reader'}", disp.loc())
            continue
        adt, rd = next(iter(readers.items()))
        n += 1
        fields = {}
        for fl in prog.adts[adt]["vs"][0]["f"]:
            crate = prog.adts[adt]["crate"]
            t = crate.tys[fl[1]]
            opt = t.get("n") == OPT
            if opt:
                t = crate.tys[t["a"][0]]
            if t.get("n") in own:
                fields[fl[0]] = (own[t["n"]], opt)
        have, want = sorted(t for t, _ in fields.values()), sorted(MATRIX[ft])
        if have != want:
            res.add(f"fields:{ft}", f"{adt} holds {', '.join(have)}; the tags read from {ft} are {', '.join(want)}")
        # the reader can fill every field
        reach = prog.reach([rd.id])
        filled = set()
        for x in reach:
            f = prog.fns[x]
            for b in f.reachable:
                for s in f.stmts[b]:
                    if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == adt:
                        for fl, o in zip(prog.adts[adt]["vs"][0]["f"], s.rv[2]):
                            if not is_none(f, o):
                                filled.add(fl[0])
                    p = field_of(f, s.place, adt)
                    if p and not (s.rv[0] == "agg" and s.rv[1][:2] == ("adt", OPT) and s.rv[1][3] == "None") and not (s.rv[0] == "use" and is_none(f, s.rv[1])):
                        filled.add(p)
                t = f.terms[b]
                if t[0] == "call":
                    p = field_of(f, t[1].dest, adt)
                    if p:
                        filled.add(p)
        for fl, (tt, opt) in fields.items():
            nf += 1
            if fl not in filled:
                res.add(f"never-read:{ft}:{tt}", f"the reader of {ft} never sets {adt}.{fl}", rd.loc())
        # handing over to TaggedFile
        conv = [f for f in prog.fns.values() if f.name == "from" and f.trait == "core::convert::From" and f.self_ty is not None and f.crate.tys[f.self_ty].get("n") == TAGGED
                and f.argc == 1 and f.local_ty(1).get("n") == adt]
        if not conv:
            res.add(f"conversion:{ft}", f"{adt} is not converted to TaggedFile")
            continue
        c = conv[0]
        types, used = set(), set()
        for x in prog.reach([c.id], stop=lambda y: prog.fns[y].trait == "core::convert::From" and y != c.id):
            f = prog.fns[x]
            for b in f.reachable:
                for s in f.stmts[b]:
                    for p in rv_places(s.rv) + [o.place for o in rv_ops(s.rv) if o.kind == "p"]:
                        y = field_of(f, p, adt)
                        if y:
                            used.add(y)
                    if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == FT:
                        types.add(s.rv[1][3])
                t = f.terms[b]
                for o in (t[1].args if t[0] == "call" else []):
                    if o.kind == "p" and field_of(f, o.place, adt):
                        used.add(field_of(f, o.place, adt))
                for o in [o for s in f.stmts[b] for o in rv_ops(s.rv)] + (t[1].args if t[0] == "call" else []):
                    if o.kind == "k" and isinstance(o.val, dict) and o.val.get("adt") == FT:
                        types.add(o.val["vn"])
        if types and types != {ft}:
            res.add(f"handed-type:{ft}", f"a {ft} file becomes a TaggedFile of type {'/'.join(sorted(types))}", c.loc())
        for fl in sorted([x for x in fields] + ["properties"]):
            if fl not in used:
                res.add(f"handed-tag:{ft}:{fl}", f"{adt}.{fl} is not handed over to TaggedFile", c.loc())
        contains(prog, res, ft, adt, fields)
    res.floor("readers", n, 12)
    res.floor("tag_fields", nf, 23)


def contains(prog, res, ft, adt, fields):
    f = method_of(prog, AUDIO, "contains_tag_type", adt)
    if not f:
        res.add(f"floor:contains:{ft}", f"{adt}: contains_tag_type not found")
        return
    for ti, v in enumerate(prog.adts[TT]["vs"]):
        live, rv, _ = Spec(prog, enums={TT: ti}).run(f)
        looked = {field_of(f, p, adt) for b in live for s in f.stmts[b] for p in rv_places(s.rv)} - {None}
        here = {n for n, (tt, _) in fields.items() if tt == v["n"]}
        if rv == 0 and here or rv == 1 and not here or looked and looked != here:
            res.add(f"contains:{ft}:{v['n']}", f"{adt}::contains_tag_type({v['n']}) looks at {', '.join(sorted(looked)) or 'no field'}", f.loc())


def is_none(f, o):
    """is this certainly Option::None?"""
    if o.kind == "k":
        return isinstance(o.val, dict) and o.val.get("adt") == OPT and o.val.get("vn") == "None"
    if o.kind != "p" or o.place.proj:
        return False
    ds = defs(f).whole(o.place.local)
    return bool(ds) and all(k == "stmt" and x.rv[0] == "agg" and x.rv[1][:2] == ("adt", OPT) and x.rv[1][3] == "None" for k, b, x in ds)


def field_of(f, p, adt):
    t = f.local_ty(p.local)
    for e in p.proj:
        while t and t.get("k") in ("ref", "ptr"):
            t = f.ty(t["a"][0])
        if e[0] == "f":
            return e[2] if t and t.get("k") == "adt" and t["n"] == adt else None
    return None


def writing(prog, res, fts, tts):
    wt = prog.fns.get("tag::utils::write_tag")
    if not wt:
        res.add("floor:write_tag", "tag::utils::write_tag not found")
        return
    W_ = {}
    for tt, adt in OWN.items():
        f = method_of(prog, WEXT, "save_to", adt)
        if not f:
            res.add(f"floor:save_to:{tt}", f"{adt} has no TagWriteExt::save_to")
            return
        W_[tt] = {x for x in prog.reach([f.id]) if takes_file(prog.fns[x]) and prog.fns[x].kind != "Closure" and not prog.fns[x].id.startswith(("<" + VER, VER))}
    uniq = {tt: w - set().union(*(x for t, x in W_.items() if t != tt)) for tt, w in W_.items()}
    n = 0
    for ft, row in MATRIX.items():
        for tt, how in row.items():
            if tt not in tts or ft not in fts:
                continue
            en = {FT: fts.index(ft), TT: tts.index(tt)}
            lc = Spec(prog, enums=en).live_closure([wt.id])
            hit = {t for t, u in uniq.items() if u & {fid for fid, a in lc}}
            n += 1
            if tt not in hit:
                res.add(f"not-written:{ft}:{tt}", f"writing {tt} to {ft} does not reach the writer of {tt}", wt.loc())
            elif hit - {tt}:
                res.add(f"other-written:{ft}:{tt}", f"writing {tt} to {ft} reaches the writer of {', '.join(sorted(hit - {tt}))}", wt.loc())
            elif not live_writes(prog, lc):
                res.add(f"not-written:{ft}:{tt}", f"writing {tt} to {ft} never writes to the file", wt.loc())
            if how == W:
                f = method_of(prog, WEXT, "save_to", OWN[tt])
                if not live_writes(prog, Spec(prog, enums={FT: fts.index(ft)}).live_closure([f.id])):
                    res.add(f"own-not-written:{ft}:{tt}", f"saving {OWN[tt]} to {ft} never writes to the file", f.loc())
    res.floor("pairs_written", n, 23)
    # each tag says its own type
    for tt, adt in OWN.items():
        f = method_of(prog, TEXT, "tag_type", adt)
        v = variant(prog, Spec(prog, deep=True).run(f)[1], TT) if f else None
        if v is not None and v != tt:
            res.add(f"tag-type:{tt}", f"{adt}::tag_type() is {v}", f.loc())


def gates(prog, res):
    n = 0
    SUP = [p for p in prog.fns if p == SUPPORT or p.endswith("::tag_support") and not p.startswith(("resolve", "<T as resolve"))]

    def sites(f, pred):
        return {b for b in f.reachable if f.terms[b][0] == "call" and pred(f.terms[b][1])}

    def filtered(f, sp):
        """is the answer what a closure (of a filter, say) returns?"""
        for x in prog.reach([f.id]):
            g = prog.fns[x]
            if g.kind == "Closure" and x.startswith(f.id) and any(c.callee and c.callee.name in ("is_writable", "is_readable") for c in g.calls) and sp.run(g)[1] == 0:
                return True
        return False

    def gate(f, pred, what, allowed, empty=None):
        """with each answer of tag_support: can the guarded calls run?"""
        nonlocal n
        if f is None or not any(sites(prog.fns[x], pred) for x in prog.reach([f.id])):
            res.add(f"floor:gate:{what}", f"the {what} gate lost the code it is about")
            return
        for i, v in enumerate(prog.adts[TS]["vs"]):
            for e in ((None,) if empty is None else (0, 1)):
                calls = {p: ("e", TS, i) for p in SUP}
                calls["file::tagged_file::TaggedFileExt::tag_support"] = ("e", TS, i)
                if e is not None:
                    calls["tag::tag_ext::TagExt::is_empty"] = e
                sp = Spec(prog, calls=calls, enums={TS: i}, deep=True, enter=lambda f_, c, fs: not pred(c))
                lc = sp.live_closure([f.id])
                live = any(sites(prog.fns[fid], pred) & set(bl) for (fid, a), bl in lc.items())
                n += 1
                want = v["n"] in allowed or (e == 1 and empty)
                if live and not want and filtered(f, sp):
                    continue
                if live != want:
                    st = "an empty tag" if e else "a tag"
                    res.add(f"gate:{what}:{v['n']}:{e}", f"{f.id}: {st} the file type answers {v['n']} for is {'not ' if want else ''}{what}", f.loc())

    save = prog.fns.get("tag::tag_ext::TagExt::save_to")
    gate(save, lambda c: c.callee and c.callee.trait == WEXT and c.callee.name == "save_to", "written", {W}, True)
    for p in prog.impl_methods.get((TEXT, "save_to"), []):
        gate(prog.fns[p], lambda c: c.callee and c.callee.trait == WEXT and c.callee.name == "save_to" or any(takes_file(g) for g in prog.targets(c)), "written", {W}, True)
    rm = [f for f in prog.fns.values() if f.id.startswith("tag::tag_type::TagType::") and f.name == "remove_from"]
    gate(rm[0] if rm else None, lambda c: c.callee and c.callee.target == "tag::utils::write_tag", "removed", {R, W})
    gate(method_of(prog, AUDIO, "save_to", TAGGED), lambda c: c.callee and c.callee.name == "save_to" and c.callee.trait == TEXT, "saved", {W})
    gate(method_of(prog, "file::tagged_file::TaggedFileExt", "insert_tag", TAGGED), lambda c: c.callee and c.callee.name == "push", "inserted", {R, W})
    res.floor("gate_cases", n, 15)
    # nothing else calls the ungated writers
    for f in prog.fns.values():
        for c in f.calls:
            if c.callee and c.callee.trait == WEXT and c.callee.name == "save_to" and f.name != "save_to":
                res.add(f"ungated:{f.id}", f"{f.id} saves a tag without asking tag_support", f.loc(c.span))


def extensions(prog, res):
    f = prog.fns.get(f"{FT}::from_ext")
    if not f:
        res.add("floor:from_ext", "FileType::from_ext not found")
        return
    want = {e: t for t, es in EXT.items() for e in es.split()}
    c = prog.consts.get("file::file_type::EXTENSIONS", {})
    listed = [x["s"] for x in (c.get("val", {}).get("ref") or {}).get("arr", [])]
    n = un = 0
    for e in sorted(set(want) | set(listed)):
        rv = Spec(prog, strings=True, deep=True, fields={(GLOBAL, "use_custom_resolvers"): 0}, calls={LOWER: ("str", e)}).run(f)[1]
        got = inner_variant(prog, rv, FT)
        if got is None and variant(prog, rv) == "None":
            got = "None"
        if got is None:
            un += 1
            continue
        n += 1
        if got == "None" and e in listed:
            res.add(f"extension:{e}", f"EXTENSIONS lists {e!r}, which from_ext() does not know", f.loc())
        elif e in want and got != want[e]:
            res.add(f"extension:{e}", f"from_ext({e!r}) is {got}, documented is {want[e]}", f.loc())
    res.coverage["extensions"] = n
    res.coverage["undecided_extensions"] = un
    res.floor("listed_extensions", len(listed), 25)
