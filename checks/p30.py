"""P30: getting, inserting and removing agree on which entries are the same, and touch no others."""
from sa.common import *
from sa.flow import *
from sa.mir import rv_ops
from sa.spec import Spec
import os

RULE = ("every comparison by which a tag's get/insert/remove methods pick entries compares the entry's key with the key asked for, in the "
        "letter-case rule of the format, and selects on equality; a method that stores an entry removes the entries of that key first; no "
        "method that edits entries reorders them, changes them before it refuses, or tells borrowed from owned; ID3v2 frames compare by the "
        "fields that identify them and hash no field they do not compare; frames allowed once are replaced on insertion")
EXPLANATION = ("The predicates are evaluated by conditional constant propagation with every key comparison assumed to hold and assumed to "
               "fail; equality functions with each field comparison failing on its own; FrameList::insert with the frame fixed to each kind.")

TAGS = {"tag::Tag", "ape::tag::ApeTag", "ogg::tag::VorbisComments", "iff::wav::tag::RiffInfoList", "mp4::ilst::Ilst",
        "id3::v2::frame::list::FrameList", "id3::v2::tag::Id3v2Tag", "iff::aiff::tag::AiffTextChunks", "id3::v1::tag::Id3v1Tag",
        "flac::FlacFile"}
NOCASE = {"ape::tag::ApeTag", "ogg::tag::VorbisComments", "iff::wav::tag::RiffInfoList"}
ENTRY = {"tag::item::TagItem", "ape::tag::item::ApeItem", "mp4::ilst::atom::Atom", "id3::v2::frame::Frame", "picture::Picture",
         "picture::PictureInformation"}
KEYS = {"key", "item_key", "ident", "id", "0", "pic_type", "description", "as_str", "picture", "ident_str", "id_str", "header"}
NOTKEYS = {"value", "item_value", "1", "lang", "content", "data", "text"}
CMPN = {"eq", "ne", "eq_ignore_ascii_case"}
KEEP = {"retain", "retain_mut"}
PICK = {"find", "position", "rposition", "any", "filter", "extract_if", "find_map", "filter_map"}
REORDER = {"swap", "swap_remove", "reverse", "rotate_left", "rotate_right", "sort", "sort_by", "sort_by_key", "sort_unstable",
           "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key", "select_nth_unstable", "dedup", "dedup_by", "dedup_by_key"}
DROP = {"retain", "retain_mut", "extract_if", "remove", "drain", "swap_remove", "clear", "truncate"}
MUTATE = DROP | {"push", "insert", "extend", "append", "take", "replace", "swap", "pop"}

IDENT = {"TextInformationFrame": {"header.id"}, "UrlLinkFrame": {"header.id"}, "ExtendedTextFrame": {"description"},
         "ExtendedUrlFrame": {"description"}, "CommentFrame": {"language", "description"},
         "UnsynchronizedTextFrame": {"language", "description"}, "UniqueFileIdentifierFrame": {"owner"}, "PopularimeterFrame": {"email"},
         "RelativeVolumeAdjustmentFrame": {"identification"}, "ChapterFrame": {"id"}, "ChapterTableOfContentsFrame": {"id"},
         "AudioTextFrame": {"equivalent_text"}}
FRAME = "id3::v2::frame::Frame"
FRAMEID = "id3::v2::frame::header::FrameId"
THROUGH = {"deref", "deref_mut", "as_ref", "as_mut", "borrow", "as_str", "as_slice", "clone", "to_owned", "into", "from", "as_bytes", "as_deref"}


def self_tag(f):
    """name of the tag type a function is a method of"""
    if f.argc < 1:
        return None
    g = f
    t = strip(f, f.local_ty(1))
    if t.get("k") == "adt" and t["n"] in TAGS:
        return t["n"]
    if f.trait is None and f.id.startswith("ogg::picture_storage::OggPictureStorage"):
        return "ogg::tag::VorbisComments"
    return None


def mut_self(f):
    t = f.local_ty(1)
    return t.get("k") == "ref" and t.get("m")


def path(f, o, depth=0):
    """(parameter, [fields and accessors on the way]) an operand is taken from, or None"""
    if o.kind != "p":
        return ("const", [])
    return place_path(f, o.place, depth)


def place_path(f, p, depth=0):
    names = [str(e[2] if len(e) > 2 and e[2] else e[1]) for e in p.proj if e[0] == "f"]
    r = local_path(f, p.local, depth + 1)
    return None if r is None else (r[0], r[1] + names)


def local_path(f, l, depth):
    if depth > 40:
        return None
    if 1 <= l <= f.argc:
        return (l, [])
    w = defs(f).whole(l)
    if len(w) != 1:
        return None
    k, b, x = w[0]
    if k == "stmt":
        rv = x.rv
        if rv[0] == "ref":
            return place_path(f, rv[2], depth + 1)
        if rv[0] == "use":
            return path(f, rv[1], depth + 1)
        if rv[0] == "cast":
            return path(f, rv[2], depth + 1)
        return None
    if x.args and x.callee:
        r = path(f, x.args[0], depth + 1)
        if r is None:
            return None
        return r if x.callee.name in THROUGH else (r[0], r[1] + [x.callee.name])
    return None


class Assume(Spec):
    """every comparison of two non-constant values comes out equal (or not)"""
    def __init__(self, prog, equal, false_at=None, keys=None):
        super().__init__(prog, deep=True, strings=True)
        self.equal, self.false_at = equal, false_at
        self.keys = keys     # predicate whose comparisons of an entry's contents stay open
        self.cmps = {}

    def call(self, fn, env, c, cctx):
        cal = c.callee
        if cal and cal.name in CMPN and len(c.args) == 2 and all(a.kind == "p" for a in c.args):
            ps = [path(fn, a) for a in c.args]
            if not any(p and p[0] == "const" for p in ps):
                self.cmps[(fn.id, c.bb)] = (c, ps)
                if fn.id == self.keys and any(by_contents(p) for p in ps):
                    return None
                v = self.equal if self.false_at is None else self.false_at != (fn.id, c.bb)
                return int(v != (cal.name == "ne"))
        return super().call(fn, env, c, cctx)


def by_contents(p):
    """does this path lead into the contents of an entry (the second parameter of a predicate is its entry)?"""
    return p and p[0] == 2 and p[1] and p[1][-1] in NOTKEYS


def head(v):
    while isinstance(v, tuple) and v and v[0] in ("s", "rv"):
        v = v[1]
    return v


def truth(v):
    """True / False / None for a bool or Option result"""
    v = head(v)
    if isinstance(v, int):
        return bool(v)
    if isinstance(v, tuple) and v[0] == "e" and v[1] == "core::option::Option":
        return v[2] == 1
    return None


def short(n):
    return n.split("::")[-1]


def consumers(f):
    """[(call, closure id)] calls in f that are given a closure"""
    for c in f.calls:
        for a in c.args:
            if a.ty is not None:
                t = strip(f, f.ty(a.ty))
                if t.get("k") == "closure" and c.callee:
                    yield c, t["n"]


def scope(prog):
    """functions on a tag's own entries, with their closures: {fn id: tag type}"""
    out = {}
    for f in prog.fns.values():
        if f.kind == "Closure" or not f.span or "::tests::" in f.id:
            continue
        t = self_tag(f)
        if t:
            out[f.id] = t
    work = list(out)
    cl = prog.closures_of
    while work:
        x = work.pop()
        for y in cl.get(x, ()):
            y = prog._cl(prog.fns[x], y)
            if y in prog.fns and y not in out:
                out[y] = out[x]
                work.append(y)
    return out


EDIT = ("get", "get_mut", "get_all", "insert", "insert_unchecked", "remove", "push", "contains", "take", "take_filter", "take_first", "replace_atom",
        "remove_key", "get_items", "get_strings", "get_locators", "get_bytes", "get_picture_type", "remove_picture_type", "get_user_text",
        "remove_user_text", "insert_picture", "take_strings")


def methods(prog, sc):
    for i, t in sc.items():
        f = prog.fns[i]
        if f.kind != "Closure" and (f.name in EDIT or f.name.startswith(("get_", "remove_", "insert_", "take_"))) and f.trait in (None, "tag::tag_ext::TagExt", "ogg::picture_storage::OggPictureStorage"):
            yield f, t


FILE = "file::tagged_file::TaggedFile"


def of_file(prog):
    """the methods by which a file's tags are picked by type"""
    for f in prog.fns.values():
        if f.kind != "Closure" and f.trait in ("file::tagged_file::TaggedFileExt", "file::audio_file::AudioFile") and f.argc == 2 \
                and strip(f, f.local_ty(1)).get("n") == FILE and strip(f, f.local_ty(2)).get("n") == "tag::tag_type::TagType":
            yield f, FILE


def predicates(prog, res, sc, of=methods):
    n = cmps = 0
    for f, t in sorted(of(prog, sc), key=lambda x: x[0].id):
        for c, cid in consumers(f):
            g = prog.fns.get(prog._cl(f, cid))
            nm = c.callee.name
            if g is None or nm not in KEEP | PICK:
                continue
            yes, no = Assume(prog, True, keys=g.id), Assume(prog, False, keys=g.id)
            ry, rn = truth(yes.run(g, ())[1]), truth(no.run(g, ())[1])
            found = {k: v for s in (yes, no) for k, v in s.cmps.items()}
            if not found:
                continue
            n += 1
            what = f"{short(t)}::{f.name}"
            for (fid, bb), (x, ps) in found.items():
                cmps += 1
                h = prog.fns[fid]
                ty = " ".join(h.tys(a.ty) for a in x.args)
                folded = all(p and any(e.startswith("to_") and e.endswith("case") for e in p[1]) for p in ps)
                if t in NOCASE and x.callee.name != "eq_ignore_ascii_case" and not folded and ("str" in ty or "String" in ty):
                    res.add(f"case:{what}", f"{f.id}: keys are compared with {x.callee.name}, the other methods of {short(t)} ignore letter case", h.loc(x.span))
                if t not in NOCASE and (folded or x.callee.name == "eq_ignore_ascii_case"):
                    res.add(f"case:{what}", f"{f.id}: keys are compared ignoring letter case, {short(t)} tells them apart", h.loc(x.span))
                if fid == g.id:
                    entry = [p for p in ps if p and p[0] == 2]
                    for p in entry:
                        last = [e for e in p[1]]
                        if last and last[-1] in NOTKEYS and t in NOCASE:
                            res.add(f"field:{what}", f"{f.id}: entries are picked by their {last[-1]}, not by their key", h.loc(x.span))
                    if len(entry) == 2:
                        res.add(f"self:{what}", f"{f.id}: an entry is compared with itself", h.loc(x.span))
            if os.environ.get("P30_DEBUG"):
                print(what, nm, ry, rn, [[by_contents(p) and p for p in ps] for _, ps in found.values()])
            if nm in KEEP:
                bad = ry is True or rn is False
                ry, rn = (None if x is None else not x for x in (ry, rn))
            else:
                bad = ry is False or rn is True
            if not bad and rn is None:
                res.add(f"others:{what}:{nm}", f"{f.id}: {nm} may {'drop' if nm in KEEP else 'pick'} entries of other keys than the one asked for", f.loc(c.span))
            if not bad and ry is None and (nm in KEEP or f.name in ("insert", "remove")) and any(by_contents(p) for _, ps in found.values() for p in ps):
                res.add(f"some:{what}:{nm}", f"{f.id}: which entries of the key are {'dropped' if nm in KEEP else 'picked'} depends on their contents", f.loc(c.span))
            if bad:
                res.add(f"polarity:{what}:{nm}", f"{f.id}: {nm} {'keeps' if nm in KEEP else 'picks'} the entries whose key "
                        f"{'is' if nm in KEEP else 'is not'} the one asked for", f.loc(c.span))
    return n, cmps


def drops(prog, f, c, sc, seen=()):
    """does this call remove entries?"""
    if c.callee is None:
        return False
    if c.callee.name in DROP and c.args and collection(f, c.args[0]):
        return True
    for t in prog.targets(c):
        if t.id in sc and t.id not in seen and mut_any(t) and any(drops(prog, t, x, sc, seen + (t.id,)) for x in t.calls):
            return True
    for a in c.args:
        if a.ty is not None:
            k = strip(f, f.ty(a.ty))
            if k.get("k") == "closure":
                g = prog.fns.get(prog._cl(f, k["n"]))
                if g and g.id not in seen and any(drops(prog, g, x, sc, seen + (g.id,)) for x in g.calls):
                    return True
    return False


def mut_any(f):
    return f.argc >= 1 and f.local_ty(1).get("k") == "ref"


def elem(f, t, depth=0):
    """is this type a collection of tag entries?"""
    t = strip(f, t)
    if t.get("k") == "slice" or (t.get("k") == "adt" and t["n"] in ("alloc::vec::Vec",)):
        e = f.ty(t["a"][0])
        if e.get("k") == "adt" and e["n"] in ENTRY:
            return True
        if e.get("k") == "tuple" and len(e.get("a") or []) == 2:
            a = [strip(f, f.ty(x)) for x in e["a"]]
            return all(x.get("n") == "alloc::string::String" for x in a) or any(x.get("n") == "picture::Picture" for x in a)
    return False


def collection(f, o):
    return o.ty is not None and elem(f, f.ty(o.ty))


STORE = {("ape::tag::ApeTag", "insert"), ("ogg::tag::VorbisComments", "insert"), ("iff::wav::tag::RiffInfoList", "insert"),
         ("tag::Tag", "insert_unchecked"), ("mp4::ilst::Ilst", "replace_atom"), ("id3::v2::frame::list::FrameList", "insert")}


def reach_from(f, b):
    seen, work = set(), [b]
    while work:
        b = work.pop()
        if b not in seen:
            seen.add(b)
            work += f.succs(b)
    return seen


def searches(prog, f, c, sc):
    if c.callee is None:
        return False
    if c.callee.name in PICK and any(a.ty is not None and strip(f, f.ty(a.ty)).get("k") == "closure" for a in c.args):
        return True
    return any(t.id in sc and t.name in ("get", "get_mut", "contains") for t in prog.targets(c))


def overwrites(f, blocks):
    """is an entry replaced in place there (through a reference to it)?"""
    for b in blocks:
        for s in f.stmts[b]:
            if ("d",) in s.place.proj and s.place.proj[-1] == ("d",) and getattr(s.place, "ty", None) is not None and f.ty(s.place.ty).get("n") in ENTRY:
                return True
        t = f.terms[b]
        if t[0] == "call" and t[1].callee and t[1].callee.path in ("core::mem::replace", "core::mem::swap"):
            return True
    return False


def stores_replace(prog, res, sc):
    n = 0
    done = set()
    for f, t in methods(prog, sc):
        if (t, f.name) not in STORE:
            continue
        pushes = [c for c in f.calls if c.callee and ((c.callee.name in ("push", "insert") and c.args and collection(f, c.args[0])) or
                                                      any(x.name == "push" and self_tag(x) == t for x in prog.targets(c)))]
        if not pushes:
            continue
        done.add((t, f.name))
        rem = {c.bb for c in f.calls if c not in pushes and drops(prog, f, c, sc)}
        # a loop that removes as it goes removes all there is to remove
        rem |= {b for b in f.reachable if any(r in reach_from(f, b) and any(b in reach_from(f, x) for x in f.succs(r)) for r in rem)}
        for c in f.calls:
            # a search for the entry whose result decides whether it is removed or overwritten
            if c in pushes or c.target is None or not searches(prog, f, c, sc):
                continue
            after = reach_from(f, c.target)
            if after & rem or overwrites(f, after):
                rem.add(c.bb)
        seen, work = set(), [0]
        while work:
            b = work.pop()
            if b in seen or b in rem:
                continue
            seen.add(b)
            work += f.succs(b)
        for c in pushes:
            n += 1
            if c.bb in seen:
                res.add(f"duplicate:{short(t)}::{f.name}", f"{f.id}: an entry can be stored without the one of the same key being removed", f.loc(c.span))
    for t, m in STORE - done:
        res.add(f"anchor:{short(t)}::{m}", f"{t}::{m}, which replaces entries, was not found to store any", "")
    return n


def order(prog, res, sc):
    n = 0
    for i, t in sorted(sc.items()):
        f = prog.fns[i]
        for c in f.calls:
            if not c.callee or not c.args or not collection(f, c.args[0]):
                continue
            n += 1
            if c.callee.name in REORDER and f.name != "sort_by_key":
                if c.callee.name.startswith("rotate") or c.callee.name.startswith("dedup"):
                    continue
                res.add(f"order:{short(t)}:{f.id}", f"{f.id}: {c.callee.name} changes the order of the entries of {short(t)}", f.loc(c.span))
    return n


def refusals(prog, res, sc):
    """a method that can return an error changes nothing before it does"""
    n = 0
    for i, t in sorted(sc.items()):
        f = prog.fns[i]
        if f.kind == "Closure" or not mut_self(f):
            continue
        rt = f.local_ty(0)
        if not (rt.get("k") == "adt" and rt["n"] == "core::result::Result"):
            continue
        if f.name in ("save_to", "save_to_path", "remove_from", "remove_from_path", "dump_to"):
            continue
        n += 1
        changes = [c for c in f.calls if drops(prog, f, c, sc) or (c.callee and c.callee.name in MUTATE and c.args and collection(f, c.args[0]))]
        from sa import errflow
        fails = [c for c in f.calls if errflow.result_shape(f, f.ty(c.dest.ty)) and errflow.propagates(f, c)]
        for c in changes:
            seen, work = set(), [c.target] if c.target is not None else []
            while work:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                work += f.succs(b)
            for x in fails:
                if x.bb in seen and x is not c:
                    res.add(f"refused:{f.id}", f"{f.id}: entries are changed before {x.callee.path} can make the call fail", f.loc(c.span))
    return n


def cow_blind(prog, res, sc):
    """entries are not told apart by whether their data is borrowed"""
    n = 0
    for i, t in sorted(sc.items()):
        f = prog.fns[i]
        if t not in ("id3::v2::frame::list::FrameList",):
            continue
        n += 1
        for b in f.reachable:
            for s in f.stmts[b]:
                if s.rv[0] == "discr":
                    p = s.rv[1]
                    ty = f.tys(p.ty) if getattr(p, "ty", None) is not None else ""
                    if "borrow::Cow<" in ty.split("<")[0] + "<":
                        pp = place_path(f, p)
                        if pp and pp[1]:
                            res.add(f"borrowed:{f.id}", f"{f.id}: entries whose {pp[1][-1]} is borrowed are treated differently from those that own it", f.loc(s.span))
    return n


def compared(prog, f):
    """fields compared by an equality function: (set of fields, problems) or (None, …) if not understood"""
    base = Assume(prog, True)
    ret = base.run(f, ())[1]
    own = {k: v for k, v in base.cmps.items() if k[0] == f.id}
    # comparisons after a failed one are only found with it assumed to hold, which `base` does
    flds, bad = set(), []
    for b in f.reachable:
        for st in f.stmts[b]:
            if st.rv[0] == "bin" and st.rv[1] in ("Eq", "Ne"):
                ps = [path(f, o) for o in rv_ops(st.rv)]
                if all(ps) and {p[0] for p in ps} == {1, 2}:
                    x, y = (".".join(p[1]) for p in sorted(ps))
                    if x != y:
                        bad.append(f"compares {x} with {y}")
                    flds.add(x)
    if not own and not flds:
        return None, []
    for k, (c, ps) in own.items():
        if any(p is None for p in ps) or {p[0] for p in ps} != {1, 2}:
            return None, []
        a, b = (".".join(p[1]) for p in sorted(ps))
        if a != b:
            bad.append(f"compares {a} with {b}")
        if c.callee.name == "eq_ignore_ascii_case":
            bad.append(f"{a} is compared ignoring letter case")
        flds.add(a)
        one = Assume(prog, True, false_at=k)
        if truth(one.run(f, ())[1]) is not False:
            bad.append(f"frames with a different {a} can be equal")
    if own and truth(ret) is False:
        bad.append("frames with the same identity are not equal")
    return flds, bad


def hashed(f):
    out = set()
    for c in f.calls:
        if c.callee and c.callee.name in ("hash", "hash_slice") and c.args:
            p = path(f, c.args[0])
            if p is None or p[0] != 1:
                return None
            out.add(".".join(p[1]))
    return out


def identity(prog, res):
    eqs, hs = {}, {}
    for f in prog.fns.values():
        if f.kind == "Closure" or f.argc != 2 or f.crate.name != "lofty":
            continue
        t = strip(f, f.local_ty(1))
        if t.get("k") != "adt":
            continue
        if f.trait == "core::cmp::PartialEq" and f.name == "eq" and strip(f, f.local_ty(2)).get("n") == t["n"]:
            eqs[t["n"]] = f
        elif f.trait == "core::hash::Hash" and f.name == "hash":
            hs[t["n"]] = f
    n = m = 0
    for name, want in sorted(IDENT.items()):
        full = [k for k in eqs if short(k) == name]
        if not full:
            res.add(f"anchor:{name}", f"no equality of {name} found", "")
            continue
        f = eqs[full[0]]
        got, bad = compared(prog, f)
        if got is None:
            continue
        n += 1
        for b in bad:
            res.add(f"identity:{name}:{b}", f"{f.id}: {b}", f.loc(f.span))
        if got != want:
            res.add(f"identity:{name}", f"{f.id}: frames are told apart by {', '.join(sorted(got))}; what identifies them is {', '.join(sorted(want))}", f.loc(f.span))
    for k, h in sorted(hs.items()):
        if k not in eqs or len(prog.adts.get(k, {}).get("vs", [])) != 1:
            continue
        got, _ = compared(prog, eqs[k])
        hf = hashed(h)
        if got is None or hf is None:
            continue
        m += 1
        extra = {x for x in hf if not any(x == g or x.startswith(g + ".") for g in got)}
        if extra:
            res.add(f"hash:{short(k)}", f"{h.id}: {', '.join(sorted(extra))} goes into the hash of {short(k)}, but values that differ in it can be equal", h.loc(h.span))
    return n, m


ONCE = [("Timestamp", None), ("KeyValue", None), ("Ownership", None), ("EventTimingCodes", None)] + \
    [("Binary", i) for i in ("MCDI", "MLLT", "SYTC", "RVRB", "PCNT", "RBUF", "POSS", "SEEK", "ASPI")]


OTHER = ["Text", "UserText", "Comment", "UnsynchronizedText", "Url", "UserUrl", "Picture", "Popularimeter", "RelativeVolumeAdjustment",
         "UniqueFileIdentifier", "Private", "Chapter", "TableOfContents", ("Binary", "XXXX")]


class Kinds(Assume):
    """FrameList::insert of a frame of one kind: which entries it compares, and by what"""
    def __init__(self, prog, ident):
        super().__init__(prog, True)
        self.ident = ident
        self.enter = lambda f, c, ts: not (c.callee and c.callee.name in CMPN)

    def call(self, fn, env, c, cctx):
        if c.callee and fn.kind != "Closure" and c.callee.name in ("id_str", "as_str") and c.args and c.args[0].ty is not None and \
                strip(fn, fn.ty(c.args[0].ty)).get("n") in (FRAME, FRAMEID):
            return ("str", self.ident) if self.ident else None
        return super().call(fn, env, c, cctx)


def once(prog, res):
    """frames the standard allows once are replaced by id, the others by what identifies them"""
    ins = [f for f in prog.fns.values() if f.name == "insert" and f.kind != "Closure" and self_tag(f) == "id3::v2::frame::list::FrameList"]
    if len(ins) != 1:
        res.add("anchor:FrameList::insert", "FrameList::insert not found", "")
        return 0
    f = ins[0]
    names = [v["n"] for v in prog.adts[FRAME]["vs"]]
    n = 0
    idof = {"Comment": "COMM", "UnsynchronizedText": "USLT", "Text": "TIT2", "UserText": "TXXX", "Url": "WOAF", "UserUrl": "WXXX", "Picture": "APIC",
            "Popularimeter": "POPM", "RelativeVolumeAdjustment": "RVA2", "UniqueFileIdentifier": "UFID", "Private": "PRIV", "Chapter": "CHAP",
            "TableOfContents": "CTOC", "EventTimingCodes": "ETCO", "Ownership": "OWNE", "Timestamp": "TDRC", "KeyValue": "TIPL"}
    for want, kinds in (("once", ONCE), ("many", [k if isinstance(k, tuple) else (k, None) for k in OTHER])):
        for kind, ident in kinds:
            if kind not in names:
                res.add(f"anchor:{kind}", f"there is no {kind} frame", "")
                continue
            sp = Kinds(prog, ident or idof.get(kind))
            fr = names.index(kind)
            sp.live_closure([(f.id, (None, ("e", FRAME, fr)))])
            tys = {strip(prog.fns[i], prog.fns[i].ty(c.args[0].ty)).get("n") or "str" for (i, _), (c, _) in sp.cmps.items()}
            if not tys:
                res.add(f"once:{ident or kind}", f"{f.id}: inserting a {ident or kind} frame looks for no frame that it replaces", f.loc(f.span))
                continue
            n += 1
            byeq = FRAME in tys
            if (want == "once" and byeq and FRAMEID not in tys) or (want == "many" and not byeq):
                res.add(f"once:{ident or kind}", f"{f.id}: " + (f"a second {ident or kind} frame can be inserted, of which a tag has one" if byeq else
                        f"inserting a {ident or kind} frame removes those with other contents"), f.loc(f.span))
    return n


def run(prog, res, tier):
    sc = scope(prog)
    np, nc = predicates(prog, res, sc)
    ns = stores_replace(prog, res, sc)
    no = order(prog, res, sc)
    nr = refusals(prog, res, sc)
    nb = cow_blind(prog, res, sc)
    ni, nh = identity(prog, res)
    n1 = once(prog, res)
    res.floor("frame kinds inserted", n1, 25)
    res.floor("predicates that pick entries evaluated", np, 20)
    nf, _ = predicates(prog, res, sc, lambda p, _: of_file(p))
    res.coverage["predicates that pick a file's tags by type"] = nf
    res.coverage["key comparisons judged"] = nc
    res.floor("stores of a replaced entry", ns, 6)
    res.floor("calls on collections of entries", no, 60)
    res.coverage["editing methods that can refuse"] = nr
    res.coverage["functions on frame lists"] = nb
    res.floor("frame identities decided", ni, 10)
    res.floor("pairs of hash and equality compared", nh, 15)
