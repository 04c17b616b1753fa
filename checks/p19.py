"""P19: the three places that tie an ID3v2 frame's identifier to a kind of content agree."""
from sa.common import *
from sa.mir import rv_places, rv_ops
from sa.spec import Spec
from checks.p09 import IK, TT, block_strs
from checks.p14 import forward, MAP, OPT, ITEM

RULE = ("for every frame identifier the code names: the kind of frame its content is parsed into is one the writer accepts under that identifier; "
        "for every item key ID3v2 has an identifier for: an item is converted (never dropped for lack of a case) to the kind of frame that identifier is parsed "
        "into, and to no kind the writer refuses under it (a TXXX frame where the identifier is not one of a standard frame); saved as ID3v2.3, TDRC becomes TYER, TDAT and TIME, TDOR becomes TORY, TIPL and TMCL become IPLS")
EXPLANATION = ("parse_content and verify_frame are specialised for each identifier (conditional constant propagation following constant strings), "
               "item_to_frame for each item key; the collections it fills are followed to the frames they become.")

FR = "id3::v2::frame::Frame"
PARSE = "id3::v2::frame::content::parse_content"
VERIFY = "id3::v2::write::frame::verify_frame"
AS_STR = "id3::v2::frame::header::FrameId::<'a>::as_str"
CONV = "id3::v2::tag::conversion::from_tag"
ITEM_CONV = CONV + "::item_to_frame"
KEYOF = "tag::item::TagItem::key"
TIPL = "id3::v2::util::mappings::TIPL_MAPPINGS"
# the frames of ID3v2.3 and ID3v2.4 and those iTunes adds; anything else an item key maps to is the description of a TXXX frame
STANDARD = set("""AENC APIC ASPI CHAP COMM COMR CTOC ENCR EQU2 EQUA ETCO GEOB GRID GRP1 IPLS LINK MCDI MLLT MVIN MVNM OWNE PCNT PCST POPM POSS PRIV RBUF
RVA2 RVAD RVRB SEEK SIGN SYLT SYTC TALB TBPM TCAT TCMP TCOM TCON TCOP TDAT TDEN TDES TDLY TDOR TDRC TDRL TDTG TENC TEXT TFLT TGID TIME TIPL TIT1
TIT2 TIT3 TKEY TKWD TLAN TLEN TMCL TMED TMOO TOAL TOFN TOLY TOPE TORY TOWN TPE1 TPE2 TPE3 TPE4 TPOS TPRO TPUB TRCK TRDA TRSN TRSO TSIZ TSO2 TSOA
TSOC TSOP TSOT TSRC TSSE TSST TXXX TYER UFID USER USLT WCOM WCOP WFED WOAF WOAR WOAS WORS WPAY WPUB WXXX""".split())
RESULT = "core::result::Result"
V3 = "id3::v2::write::frame::create_items_v3"
ID_STR = "id3::v2::frame::Frame::<'a>::id_str"
# ID3v2.4 frames ID3v2.3 has other frames for
OLDER = {"TDRC": {"TYER", "TDAT", "TIME"}, "TDOR": {"TORY"}, "TIPL": {"IPLS"}, "TMCL": {"IPLS"}}


def variant_of(o, names):
    """the Frame variant a constant operand constructs"""
    if o.kind != "k":
        return None
    fn = o.val.get("fn") or ""
    x = fn.replace("::<'a>", "").replace("::<'_>", "")
    if x.startswith(FR + "::") and x.rsplit("::", 1)[1] in names:
        return x.rsplit("::", 1)[1]
    return None


def built_in(f, blocks, names):
    out = set()
    for b in blocks:
        for s in f.stmts[b]:
            if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == FR:
                out.add(s.rv[1][3])
            out |= {v for v in (variant_of(o, names) for o in rv_ops(s.rv)) if v}
        t = f.terms[b]
        if t[0] == "call":
            out |= {v for v in (variant_of(o, names) for o in t[1].args) if v}
    return out


class Kinds:
    def __init__(self, prog):
        self.prog = prog
        self.names = [v["n"] for v in prog.adts[FR]["vs"]]
        self._ret = {}

    def parsed(self, i):
        sp = Spec(self.prog, calls={AS_STR: ("str", i)}, strings=True, enter=lambda f, c, fs: False)
        f = self.prog.fns[PARSE]
        return built_in(f, sp.run(f)[0], self.names)

    def accepted(self, i, v):
        sp = Spec(self.prog, calls={AS_STR: ("str", i)}, enums={FR: self.names.index(v)}, strings=True, deep=True, enter=lambda f, c, fs: False)
        rv = sp.run(self.prog.fns[VERIFY])[1]
        h = rv[1] if isinstance(rv, tuple) and rv[0] == "s" else rv
        return h == ("e", RESULT, 0)

    def returns(self, f, depth=0):
        """the kinds of frame a function returning one may build"""
        if f.id in self._ret:
            return self._ret[f.id]
        self._ret[f.id] = set()
        out = built_in(f, f.reachable, self.names)
        if depth < 6:
            for c in f.calls:
                if c.bb in f.reachable:
                    for g in self.prog.targets(c):
                        if FR in g.tys(g.locals[0][0]):
                            out |= self.returns(g, depth + 1)
            for x in self.prog.closures_of[f.id]:
                g = self.prog.fns.get(x)
                if g and FR in g.tys(g.locals[0][0]):
                    out |= self.returns(g, depth + 1)
        self._ret[f.id] = out
        return out


def literals(prog, f):
    """strings a function compares with"""
    out = set()
    for b in f.reachable:
        ops = [o for s in f.stmts[b] for o in rv_ops(s.rv)]
        t = f.terms[b]
        if t[0] == "call":
            ops += t[1].args
        for o in ops:
            if o.kind == "k":
                w = o.val
                while isinstance(w, dict) and "ref" in w:
                    w = w["ref"]
                if isinstance(w, dict) and isinstance(w.get("s"), str):
                    out.add(w["s"])
    return out


def sources(place, fn, ctx_adt):
    """field of the conversion context a place goes through"""
    ty = fn.local_ty(place.local)
    for e in place.proj:
        while ty and ty.get("k") in ("ref", "ptr"):
            ty = fn.ty(ty["a"][0])
        if e[0] == "f":
            if ty and ty.get("k") == "adt" and ty["n"] == ctx_adt:
                return e[2] if len(e) > 2 else e[1]
            return None
    return None


def field_kinds(prog, K, ctx_adt):
    """{context field: kinds of frame it becomes} by following values through the functions that have the context"""
    out = {}
    for f in prog.fns.values():
        if any(ctx_adt in f.tys(l[0]) for l in f.locals):
            follow(prog, K, ctx_adt, f, out)
    return out


def follow(prog, K, ctx_adt, f, out):
    taint = {}      # local -> fields

    def of(p):
        s = set(taint.get(p.local, ()))
        x = sources(p, f, ctx_adt)
        if x is not None:
            s = {x} if f.local_ty(p.local).get("n") == ctx_adt else s | {x}
        return s
    changed = True
    while changed:
        changed = False
        for b in f.reachable:
            for s in f.stmts[b]:
                if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == ctx_adt:
                    continue
                src = set()
                for p in rv_places(s.rv):
                    src |= of(p)
                for o in rv_ops(s.rv):
                    if o.kind == "p":
                        src |= of(o.place)
                if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == FR:
                    for x in src:
                        out.setdefault(x, set()).add(s.rv[1][3])
                if src - taint.get(s.place.local, set()):
                    taint.setdefault(s.place.local, set()).update(src)
                    changed = True
            t = f.terms[b]
            if t[0] == "call":
                c = t[1]
                src = set()
                for o in c.args:
                    if o.kind == "p":
                        src |= of(o.place)
                if not src:
                    continue
                for g in prog.targets(c):
                    if FR in g.tys(g.locals[0][0]):
                        for x in src:
                            out.setdefault(x, set()).update(K.returns(g))
                if c.dest and src - taint.get(c.dest.local, set()):
                    taint.setdefault(c.dest.local, set()).update(src)
                    changed = True


def tipl_keys(prog, ik):
    c = prog.consts.get(TIPL)
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("adt") == IK:
                out.add(x["vn"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(c)
    return out


def run(prog, res, tier):
    missing = [x for x in (PARSE, VERIFY, CONV, ITEM_CONV, AS_STR) if x not in prog.fns] + [x for x in (FR, IK) if x not in prog.adts]
    for x in missing:
        res.floor(x, 0, 1)
    if missing:
        return
    K = Kinds(prog)
    ik, tts, fwd = forward(prog)
    native = fwd["Id3v2"]
    ids = {s for f in (PARSE, VERIFY) for s in literals(prog, prog.fns[f])}
    ids = {s for s in ids if len(s) == 4 and s.isupper() and s.isalnum()} | STANDARD
    parsed = {i: K.parsed(i) for i in sorted(ids | {"TXXX", "WXXX", "TZZZ", "WZZZ", "ZZZZ"})}
    for i, vs in parsed.items():
        if not vs:
            res.add(f"not-parsed:{i}", f"the content of {i} frames is parsed into no kind of frame", prog.fns[PARSE].loc())
        for v in sorted(vs):
            if not K.accepted(i, v):
                res.add(f"refused:{i}:{v}", f"{i} frames are parsed into Frame::{v}, which the writer refuses to write under {i}", prog.fns[VERIFY].loc())
    res.coverage["parsed_kinds"] = {i: sorted(v) for i, v in parsed.items()}
    res.floor("identifiers", len(parsed), 70)

    f = prog.fns[ITEM_CONV]
    ctx = next((f.ty(f.local_ty(1)["a"][0]).get("n") for _ in (0,) if f.local_ty(1).get("k") == "ref"), None)
    if ctx is None or ctx not in prog.adts:
        res.floor("conversion_context", 0, 1)
        return
    fk = field_kinds(prog, K, ctx)
    res.coverage["collection_kinds"] = {str(k): sorted(v) for k, v in fk.items()}
    res.floor("collections", len(fk), 9)
    tipl = tipl_keys(prog, ik)
    n = 0

    def relevant(g):
        return FR in g.tys(g.locals[0][0]) or any(ctx in g.tys(l[0]) for l in g.locals[:g.argc + 1])
    for i, k in enumerate(ik):
        if k not in native:
            continue
        n += 1
        nk = native[k]
        std = nk in STANDARD and nk in parsed
        sp = Spec(prog, enums={IK: i}, strings=True, deep=True, enter=lambda f, c, fs: all(relevant(g) for g in fs),
                  calls={KEYOF: ("e", IK, i), AS_STR: ("str", nk), MAP: ("s", ("e", OPT, 1), (((("v", 1, "Some"), ("f", 0)), ("str", nk)),)),
                         "core::iter::traits::iterator::Iterator::any": int(k in tipl)})
        lc = sp.live_closure([ITEM_CONV])
        sinks = set()
        for (fid, a), bl in lc.items():
            g = prog.fns[fid]
            if FR in g.tys(g.locals[0][0]):
                sinks |= built_in(g, bl, K.names)
            for b in bl:
                ps = [p for s in g.stmts[b] for p in rv_places(s.rv)] + [s.place for s in g.stmts[b]]
                for p in ps:
                    x = sources(p, g, ctx)
                    if x is not None:
                        sinks |= fk.get(x, set())
        want = parsed[nk] if std else {"UserText"}
        fid = nk if std else "TXXX"
        if k in tipl:
            want, fid = {"KeyValue"}, "TIPL"
        if not sinks:
            res.add(f"not-converted:{k}", f"{k} has the ID3v2 identifier {nk!r}, but an item with that key is converted to no frame", f.loc())
            continue
        if "Timestamp" in want:
            want = want | {"Text"}      # written alike, and dates that do not parse are kept as text
        if not want & sinks:
            res.add(f"kind:{k}", f"{k} items become Frame::{'/'.join(sorted(sinks))}, but {fid} is read as Frame::{'/'.join(sorted(want))}", f.loc())
        for s in sorted(sinks - want):
            if want & sinks and not K.accepted(fid, s):
                res.add(f"unwritable:{k}:{s}", f"{k} items may become Frame::{s}, which the writer refuses under {fid}", prog.fns[VERIFY].loc())
    res.floor("item_keys", n, 80)
    if V3 not in prog.fns or ID_STR not in prog.fns:
        res.floor(V3, 0, 1)
        return
    older = {x for v in OLDER.values() for x in v}
    for i in sorted(OLDER):
        sp = Spec(prog, calls={AS_STR: ("str", i), ID_STR: ("str", i)}, strings=True, deep=True)
        got = {x for (fid, a), bl in sp.live_closure([(V3, ())]).items() for b in bl for x in block_strs(prog.fns[fid], b)} & older
        for x in sorted(OLDER[i] - got):
            res.add(f"v3:{i}:{x}", f"a tag saved as ID3v2.3: {i}, which ID3v2.3 does not have, is not written as {x}", prog.fns[V3].loc())
        for x in sorted(got - OLDER[i]):
            res.add(f"v3-other:{i}:{x}", f"a tag saved as ID3v2.3: {i} may be written as {x}", prog.fns[V3].loc())
    res.floor("v3_identifiers", len(OLDER), 4)
