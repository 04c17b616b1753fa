"""P15: the sizes, counts and lengths written are those of what is written, and records have the format's layout."""
import re
from sa.emit import BUFS, Machine, State, fadd, form, ONE, P, RES

RULE = ("in everything a tag writer can emit, every size or length field equals the length of what it announces, every count the number of "
        "records that follow, in the width and byte order the format gives it, and padding makes chunks even")
EXPLANATION = ("Each writer is run abstractly over MIR (callees in the crate inlined): what it writes becomes a sequence of pieces (constants, integers, "
               "buffers, what a loop writes) with linear relations between integers written, buffer lengths and cursor positions; loop heads take the affine "
               "hull. The pieces of every exit and of every loop iteration are parsed by the format's grammar; a size is right if the relation to the length "
               "of the pieces it announces follows from the state.")


class Bad(Exception):
    """not the format's layout: (label, message)"""


class Unknown(Exception):
    """cannot be decided"""


class Rec:
    """a cursor over written pieces"""

    def __init__(self, ck, st, pieces):
        self.ck, self.m, self.st, self.p = ck, ck.m, st, list(ck.m.norm(pieces))

    def done(self):
        return not self.p

    def peek(self):
        return self.p[0] if self.p else None

    def num(self, w, order, label):
        """the form of a w byte integer"""
        if not self.p:
            raise Bad(label, f"{label} is missing")
        p = self.p[0]
        if p[0] == "n":
            if p[1] != w:
                if p[1] < w and self.split(w):
                    raise Unknown(label)
                raise Bad(label, f"{label} is {p[1]} bytes wide instead of {w}")
            if w > 1 and p[2] not in (order, "?"):
                names = {"be": "big endian", "le": "little endian", "sbe": "synchsafe big endian", "sle": "synchsafe little endian"}
                raise Bad(label, f"{label} is written {names.get(p[2], p[2] or '?')}, not {names[order]}")
            self.p.pop(0)
            return {("v", p[3]): 1}
        if p[0] == "c":
            if len(p[1]) < w:
                if self.split(w) or len(self.p) > 1 and self.p[1][0] not in "nc" and self.st.val(self.m.piecelen(self.p[1])) is not None:
                    raise Unknown(label)
                raise Bad(label, f"{label} is missing")
            b = p[1][:w]
            self.p[:1] = [("c", p[1][w:])] if p[1][w:] else []
            if order == "sbe":
                return form(sum((x & 127) << 7 * (w - 1 - i) for i, x in enumerate(b)))
            return form(int.from_bytes(b, "little" if order == "le" else "big"))
        self.other(p, label)

    def split(self, w):
        """is an integer of w bytes written in parts?"""
        for p in self.p:
            if p[0] not in "nc":
                return False
            w -= p[1] if p[0] == "n" else len(p[1])
            if w <= 0:
                return w == 0
        return False

    def other(self, p, label):
        """a piece that is neither number nor constant"""
        n = self.m.piecelen(p)
        if p[0] == "b" and not p[2].startswith("?") and self.st.val(n) is None and not self.m.vague(self.st, n):
            raise Bad(label, f"{label} is missing")
        raise Unknown(label)

    def const(self, b, label):
        n = 0
        while n < len(b):
            if not self.p:
                raise Bad(label, f"{label} is missing")
            p = self.p[0]
            if p[0] == "c":
                k = min(len(p[1]), len(b) - n)
                if p[1][:k] != b[n:n + k]:
                    raise Bad(label, f"{p[1][:len(b) - n]!r} where {label} is expected")
                self.p[:1] = [("c", p[1][k:])] if p[1][k:] else []
                n += k
            elif p[0] == "n":
                v = self.st.val({("v", p[3]): 1})
                if v is None and not self.m.vague(self.st, {("v", p[3]): 1}):
                    raise Bad(label, f"{label} is missing")
                if v is None or v < 0 or v >> 8 * p[1] or p[2] not in ("be", "le", "") or p[1] > 1 and not p[2]:
                    raise Unknown(label)
                self.p[:1] = [("c", v.to_bytes(p[1], "little" if p[2] == "le" else "big"))]
            else:
                self.other(p, label)

    def skip(self, n, label):
        """n bytes of anything"""
        c = self.m.cut(self.st, tuple(self.p), form(n))
        if c is None:
            raise Unknown(label)
        self.p = list(c[1])
        return c[0]

    def var(self, label):
        """one or more variable pieces; their length"""
        f, n = {}, 0
        while self.p and self.p[0][0] == "b":
            f = fadd(f, self.m.piecelen(self.p.pop(0)))
            n += 1
        if not n:
            raise Unknown(label)
        return f

    def upto(self, n, label):
        """pieces up to the n-th byte from the end, which are returned as a Rec"""
        tot = self.m.seglen(self.p)
        c = self.m.cut(self.st, tuple(self.p), fadd(tot, form(n), -1))
        if c is None:
            raise Unknown(label)
        self.p = list(c[0])
        return Rec(self.ck, self.st, c[1])

    def text(self, n):
        c = self.m.cut(self.st, tuple(self.p), form(n))
        return b"".join(p[1] for p in c[0]) if c and all(p[0] == "c" for p in c[0]) else None

    def left(self):
        return self.m.seglen(self.p)

    def same(self, got, want, label):
        d = fadd(got, want, -1)
        if self.st.zero(d):
            self.ck.proved += 1
            return
        if self.m.vague(self.st, d):
            raise Unknown(label)
        raise Bad(label, f"{label} is not {self.ck.meaning.get(label, 'the length of what follows')}: off by {self.show(self.st.lin.nf(d))}")

    def show(self, f):
        out = []
        for v, c in sorted(f.items(), key=repr):
            c = c if c < P // 2 else c - P
            if v == ONE:
                out.append(str(c))
            else:
                k = v[1]
                n = ("the bytes written by a loop" if k[:2] == ("g", "L") else "the iterations of a loop" if k[:2] == ("g", "it") else
                     "a value" if k[0] == "g" else f"{self.m.describe(k)}{'.len()' if v[0] == 'len' else ''}")
                out.append(f"{c if c != 1 else ''}{'*' if c != 1 else ''}{n}")
        return " + ".join(out) or "0"


class Check:
    cur = ""

    def __init__(self, prog, name, root, inl, parse, meaning=None, key=None, seed=None, machine=Machine):
        self.prog, self.name, self.root, self.inl, self.parse, self.meaning = prog, name, root, inl, parse, meaning or {}
        self.key, self.seed, self.machine = key, seed, machine
        self.proved, self.unknown, self.bad, self.records, self.exits = 0, {}, {}, 0, 0

    def table(self, g):
        """a function that only looks something up: not worth following"""
        return (not any(g.local_ty(i).get("m") for i in range(1, g.argc + 1)) and
                any(t and t[0] == "switch" and len(t[2]) >= 6 for t in (g.terms[b] for b in g.reachable)))

    def run(self):
        fs = [f for f in self.prog.fns.values() if re.search(self.root, f.id)]
        if len(fs) != 1:
            return None
        f = self.f = fs[0]
        m = self.m = self.machine(self.prog, lambda g: re.search(self.inl, g.id) is not None and not self.table(g))
        for seed in self.seed(self.prog, f, m) if self.seed else [{}]:
            self.one(f, m, seed)
        return self

    def one(self, f, m, seed):
        st = State()
        st.disc.update(seed)
        for i in range(1, f.argc + 1):
            t = f.local_ty(i)
            pt = m.peel(f, t)
            if t.get("k") != "ref" or not t.get("m"):
                if not pt.get("n", "").startswith("mp4::write::AtomWriter"):
                    continue
            if pt.get("k") == "param" or pt.get("n") in BUFS or pt.get("n", "").startswith("mp4::write::AtomWriter"):
                k = ("in", i)
                st.pts[((), i)] = k
                if pt.get("n", "").endswith("AtomWriter"):
                    k = k + (0,)
                elif pt.get("n", "").endswith("Companion"):
                    st.pts[k] = ("buf", i)
                    k = ("buf", i)
                st.seg[k] = ()
                st.lin.assign(("len", k), form(0))
                st.lin.assign(("pos", k), form(0))
                if pt.get("k") == "param":
                    m.streams.add(k)
                self.out = k
        exits = m.run(f, (), st)
        if self.key == "calls":
            self.exits += len(m.sent)
            self.guard(lambda: self.parse(self, None, None))
            return
        for x in exits:
            if x.disc.get(((), 0)) == 1 and f.local_ty(0).get("n") == RES:
                continue
            k = self.key if self.key is not None else ((), 0, "v0", 0) if f.local_ty(0).get("n") == RES else ((), 0)
            k = self.out if k == "out" else m.sink(x, k)
            if k not in x.seg:
                self.note("contents", "contents")
                continue
            self.exits += 1
            self.guard(lambda: self.parse(self, Rec(self, x, x.seg[k]), k))

    def note(self, label, msg):
        self.unknown[label] = self.unknown.get(label, 0) + 1

    def guard(self, f):
        try:
            f()
            self.records += 1
        except Bad as e:
            self.bad.setdefault(*e.args)
        except Unknown as e:
            self.note(e.args[0], "")

    def bodies(self, L, item, seen=None):
        """parse what every iteration of the loop writes as a sequence of items"""
        seen = seen if seen is not None else set()
        if L in seen:
            return
        seen.add(L)
        for suf, s in self.m.bodies.get(tuple(L[1:]), []):
            r = Rec(self, s, suf)

            def go():
                while not r.done():
                    if r.peek()[0] == "L":
                        self.bodies(r.p.pop(0), item, seen)
                    else:
                        item(r)
            self.guard(go)

    def many(self, r, item):
        """what is left are records; returns the number of them as a form, if it is known"""
        n = {}
        while not r.done():
            if r.peek()[0] == "L":
                L = r.p.pop(0)
                self.bodies(L, item)
                if n is not None:
                    n = fadd(n, {("v", ("g", "it") + tuple(L[1:])): 1})
            else:
                item(r)
                if n is not None:
                    n = fadd(n, form(1))
        return n


# ---- ID3v2 frames: what the flags say
FLAGS = "id3::v2::frame::FrameFlags"
EXTRA = {"encryption": 1, "grouping_identity": 1, "data_length_indicator": 4}


def field(prog, ad, name):
    return [f[0] for f in prog.adts[ad]["vs"][0]["f"]].index(name)


class FrameMachine(Machine):
    """remembers which flags were set in the flag bytes written"""

    def hook(self, fn, fr, st, c):
        n = c.callee.name if c.callee else ""
        if n not in ("as_id3v24_bytes", "as_id3v23_bytes") or c.args[0].kind != "p":
            return None
        k, d = self.refkey(fn, fr, st, c.args[0]), self.key(fn, fr, st, c.dest)
        if k is None or d is None:
            return None
        v = tuple(st.disc.get(k + (field(self.prog, FLAGS, e),)) for e in EXTRA)
        b = tuple(st.val({("v", k + (field(self.prog, FLAGS, e),)): 1}) for e in ("compression", "unsynchronisation"))
        st.kill(d)
        st.disc[d + ("#tag",)] = (n[6:9], v, b)
        return [st]


def frame_seeds(prog, f, m):
    at = [i for i in range(1, f.argc + 1) if m.peel(f, f.local_ty(i)).get("n") == FLAGS]
    ix = [field(prog, FLAGS, e) for e in EXTRA]
    if len(at) != 1:
        return [{}]
    return [{((), at[0], i): n >> j & 1 for j, i in enumerate(ix)} for n in range(8)]


def one_frame(ck, r, k):
    """the flags, and the bytes they announce"""
    r.var("the frame's ID")
    order = r.peek()[2] if r.peek() and r.peek()[0] == "n" else None
    n = r.num(4, order or "be", "the frame's size")
    r.same(n, fadd(r.left(), form(-2)), "the frame's size")
    p = r.peek()
    r.num(2, "be", "the frame's flags")
    tag = r.st.disc.get(p[3] + ("#tag",)) if p[0] == "n" else None
    if tag is None or None in tag[1]:
        raise Unknown("the frame's flags")
    ver, on, (comp, unsync) = tag
    if (ver == "v24") != (order == "sbe"):
        raise Bad("the frame's version", "the frame's size and its flags are those of different versions of ID3v2")
    want = [w for (e, w), o in zip(EXTRA.items(), on) if o and not (e == "data_length_indicator" and ver == "v23")]
    if not on[0] and comp != 0:
        raise Bad("compression", "a frame can be flagged as compressed, though its content is not")
    if unsync != 0 and ver == "v24":
        raise Bad("unsynchronisation", "a frame can be flagged as unsynchronised, though its content is not")
    have = []
    while r.p and r.p[0][0] in "nc":
        q = r.p.pop(0)
        if q[0] == "c":
            raise Unknown("the frame's extra bytes")
        have.append((q[1], q[2]))
    if [h[0] for h in have] != want:
        raise Bad("the flags' bytes", f"the fields that follow a frame's header are {[h[0] for h in have]} bytes wide, its flags announce {want} (encryption method, group, data length)")
    if any(w == 4 and o != "sbe" for w, o in have):
        raise Bad("the data length", "the data length indicator is not written synchsafe")
    ck.proved += 1


class OggMachine(Machine):
    """the file is of a given format; keeps the packets set"""

    def __init__(self, *a):
        super().__init__(*a)
        self.sent = []

    def hook(self, fn, fr, st, c):
        n, path = (c.callee.name, c.callee.path) if c.callee else ("", "")
        d = self.key(fn, fr, st, c.dest)
        if n == "format" and "VerifiedFile" in path and d is not None:
            st.kill(d)
            st.disc[d] = st.disc[("kind",)]
            return [st]
        if n in ("eq", "ne") and len(c.args) == 2 and d is not None:
            k = [self.refkey(fn, fr, st, a) for a in c.args]
            t = [self.peel(fn, fn.ty(a.ty)).get("n") for a in c.args]
            v = [st.disc.get(x) if x is not None else None for x in k]
            if t[0] == t[1] == FILETYPE and None not in v:
                st.kill(d)
                self.set(st, "v", d, form(int((v[0] == v[1]) == (n == "eq"))))
                return [st]
        if n == "set" and path.endswith("Packets::set") and len(c.args) == 3:
            k = self.opkey(fn, fr, st, c.args[2])
            self.sent.append((st.copy(), c.args[1].int, self.sink(st, k) if k is not None else None))
        return None


FILETYPE = "file::file_type::FileType"
OGG = {"Opus": (b"OpusTags", b""), "Vorbis": (b"\3vorbis", b"\1"), "Speex": (b"", b"")}


def ogg_seeds(prog, f, m):
    names = [v["n"] for v in prog.adts[FILETYPE]["vs"]]
    return [{("kind",): names.index(n)} for n in OGG]


def ogg_packets(ck, r, k):
    """(called once per exit, after everything is known)"""
    names = [v["n"] for v in ck.prog.adts[FILETYPE]["vs"]]
    sent, ck.m.sent = ck.m.sent, []
    for st, i, key in sent:
        if i != 1:
            raise Bad("the comment packet", f"packet {i} is replaced instead of packet 1")
        if key is None or key not in st.seg:
            raise Unknown("the comment packet")
        name = names[st.disc[("kind",)]]
        sig, end = OGG[name]
        x = Rec(ck, st, st.seg[key])
        x.const(sig, f"the signature of {name} comments")
        if end and (not x.p or x.p[-1][0] != "c" or not x.p[-1][1].endswith(end)):
            raise Bad("the framing bit", f"the comments of a {name} file do not end in a framing bit")
        if end:
            x.p[-1] = ("c", x.p[-1][1][:-1])
        x.p = list(ck.m.norm(x.p))
        ck.proved += 1
        vorbis(ck, x, key)


# ---- the formats
def ape(ck, r, k):
    if r.done():
        return
    tot = r.left()
    foot = r.upto(32, "the tag footer")
    vals = []
    for part, flag in ((r, 1), (foot, 0)):
        w = "header" if flag else "footer"
        part.const(b"APETAGEX", f"the {w}'s preamble")
        part.const((2000).to_bytes(4, "little"), f"the {w}'s version")
        part.same(part.num(4, "le", f"the {w}'s tag size"), fadd(tot, form(32), -1), f"the {w}'s tag size")
        vals.append((w, part.num(4, "le", f"the {w}'s item count")))
        f = r.st.val(part.num(4, "le", f"the {w}'s flags"))
        if f is not None and (f >> 29 & 1 != flag or not f >> 31 & 1):
            raise Bad("flags", f"the {w}'s flags are {f:#x}")
        part.const(bytes(8), "the reserved bytes")
        if part is foot and not part.done():
            raise Bad("footer", "something follows the footer")
    tail = list(r.p)
    n = ck.many(r, ape_item)
    for w, v in vals:
        r.same(v, n, f"the {w}'s item count")


def ape_item(r):
    n = r.num(4, "le", "an item's value size")
    r.num(4, "le", "an item's flags")
    r.var("an item's key")
    r.const(b"\0", "the key's terminator")
    r.same(n, r.rest_value(), "an item's value size")


def rest_value(r):
    """all that is left of a record is its value"""
    n = r.left()
    r.p = []
    return n


Rec.rest_value = rest_value


def id3v2(ck, r, k):
    if r.done():
        return
    tot = r.left()
    r.const(b"ID3", "the identifier")
    v = r.text(2)
    if v is None:
        raise Unknown("version")
    if v not in (b"\3\0", b"\4\0"):
        raise Bad("version", f"version bytes {v!r}")
    r.skip(2, "version")
    r.num(1, "be", "the header's flags")
    size = r.num(4, "sbe", "the tag size")
    foot = 0
    try:
        f = Rec(ck, r.st, tuple(r.p)).upto(10, "footer")
        if f.text(3) == b"3DI":
            foot = 10
            f.const(b"3DI", "the footer")
            f.const(v, "the footer's version")
            f.skip(1, "the footer")
            f.same(f.num(4, "sbe", "the footer's tag size"), fadd(tot, form(20), -1), "the footer's tag size")
            r.upto(10, "footer")
    except Unknown:
        pass
    r.same(size, fadd(tot, form(10 + foot), -1), "the tag size")
    if r.peek() and r.peek()[0] == "n" and r.peek()[1] == 4:      # extended header
        before = r.left()
        n = r.num(4, "sbe" if v[0] == 4 else "be", "the extended header's size")
        while r.peek() and r.peek()[0] in "cn":
            r.p.pop(0)
        r.same(n, fadd(before, r.left(), -1) if v[0] == 4 else fadd(fadd(before, form(4), -1), r.left(), -1), "the extended header's size")

    def frame(x):
        while x.peek() and x.peek()[0] == "b" and x.peek()[2].endswith("fill"):
            x.p.pop(0)            # padding
        if x.done():
            return
        if x.peek()[0] == "c":
            x.skip(4, "a frame's ID")
        else:
            x.var("a frame's ID")
        n = x.num(4, "sbe" if v[0] == 4 else "be", "a frame's size")
        x.num(2, "be", "a frame's flags")
        # one frame per record
        x.same(n, x.rest_value(), "a frame's size")
    # frames, then padding
    while r.p and r.p[-1][0] == "b" and r.p[-1][2].endswith("fill"):
        r.p.pop()
    ck.many(r, frame)


def comment(r):
    n = r.num(4, "le", "a comment's length")
    r.same(n, r.rest_value(), "a comment's length")


def vorbis(ck, r, k):
    if r.peek() and r.peek()[0] == "b":       # packet signature
        r.var("signature")
    n = r.num(4, "le", "the vendor's length")
    if r.peek() and r.peek()[0] == "b":
        p = r.p.pop(0)
        r.same(n, ck.m.piecelen(p), "the vendor's length")
    else:
        r.same(n, form(0), "the vendor's length")
    n = r.num(4, "le", "the number of comments")
    if k is None and r.p and r.p[-1] == ("c", b"\1"):
        r.p.pop()                 # framing bit
    r.same(n, ck.many(r, comment), "the number of comments")


def picture(ck, r, k):
    """FLAC picture block"""
    r.num(4, "be", "the picture type")
    for what in ("MIME type", "description"):
        n = r.num(4, "be", f"the {what}'s length")
        if r.peek() and r.peek()[0] == "b":
            r.same(n, ck.m.piecelen(r.p.pop(0)), f"the {what}'s length")
        else:
            r.same(n, form(0), f"the {what}'s length")
    for what, i in (("width", 0), ("height", 1), ("colour depth", 2), ("number of colours", 3)):
        r.num(4, "be", f"the {what}")
    n = r.num(4, "be", "the picture data's length")
    r.same(n, r.left(), "the picture data's length")


def block(ck, r, k):
    """FLAC block"""
    r.num(1, "be", "the block's type")
    r.same(r.num(3, "be", "the block's size"), r.left(), "the block's size")


def padded(ck, r, n, what, size):
    """what follows is a chunk's data of n bytes and, if that is odd, a zero"""
    d = fadd(r.left(), n, -1)
    c = r.st.val(d)
    odd = ck.m.odd(r.st, n)
    if c == 0 and odd == 1 or c == 0 and odd is None and not ck.m.tested(r.st, n):
        raise Bad(f"{what}'s padding", f"{what} of odd size is not padded")
    if c == 1 and odd == 0 or c == 1 and odd is None and not ck.m.tested(r.st, n):
        raise Bad(f"{what}'s padding", f"{what} of even size is padded")
    if c is None and ck.m.remainder(r.st, d, n):
        odd, c = 0, 0
    if c not in (0, 1):
        r.same(n, r.left(), f"{what}'s size")
    if c == 1:
        pad = r.upto(1, "padding")
        pad.const(b"\0", f"{what}'s padding")
    if odd is None:
        raise Unknown(f"{what}'s padding")
    ck.proved += 1


def riff(ck, r, k):
    if r.done():
        return
    r.const(b"LIST", "the list's ID")
    n = r.num(4, "le", "the list's size")
    r.same(n, r.left(), "the list's size")
    r.const(b"INFO", "the list's type")

    def item(x):
        x.var("an item's ID")
        n = x.num(4, "le", "an item's size")
        padded(ck, x, n, "an item", 4)
        if x.p:
            end = x.upto(1, "terminator")
            end.const(b"\0", "an item's terminator")
        x.p = []
    ck.many(r, item)


def id3chunk(order):
    def go(ck, r, k):
        r.skip(4, "the chunk's ID")
        padded(ck, r, r.num(4, order, "the chunk's size"), "the chunk", 4)
    return go


def aiff(ck, r, k):
    while not r.done():
        t = r.text(4)
        if t is None:
            raise Unknown("chunk ID")
        r.skip(4, "chunk ID")
        name = {b"NAME": "the NAME chunk", b"AUTH": "the AUTH chunk", b"(c) ": "the copyright chunk", b"ANNO": "an ANNO chunk", b"COMT": "the COMT chunk"}.get(t)
        if name is None:
            raise Bad("chunk ID", f"chunk {t!r}")
        n = r.num(4, "be", f"{name}'s size")
        # the data ends where the size says
        b = ck.m.cut(r.st, tuple(r.p), n)
        if b is None:
            if not any(ck.m.vague(r.st, f) for f in (n,)) and (len(r.p) < 3 or all(p[0] != "L" for p in r.p)):
                raise Bad(f"{name}'s size", f"{name}'s size is not the length of its data")
            raise Unknown(f"{name}'s size")
        ck.proved += 1
        odd = ck.m.odd(r.st, n)
        r.p = list(b[1])
        nxt = r.text(1)
        if odd is None and not ck.m.tested(r.st, n):
            odd = int(nxt != b"\0")
        if odd == 1:
            if nxt is None or nxt != b"\0":
                raise Bad(f"{name}'s padding", f"{name} of odd size is not padded")
            r.skip(1, "padding")
            ck.proved += 1
        elif odd == 0:
            if nxt == b"\0":
                raise Bad(f"{name}'s padding", f"{name} of even size is padded, or its size is too small")
            ck.proved += 1
        else:
            raise Unknown(f"{name}'s padding")
        if t == b"COMT":
            c = Rec(ck, r.st, b[0])
            c.num(2, "be", "the number of comments")
            ck.many(c, lambda x: aiff_comment(ck, x))


def aiff_comment(ck, x):
    x.num(4, "be", "a comment's time stamp")
    x.num(2, "be", "a comment's marker")
    padded(ck, x, x.num(2, "be", "a comment's length"), "a comment", 2)
    x.p = []


def atom(r, what):
    """header of an atom that extends over all that is left"""
    tot = r.left()
    r.same(r.num(4, "be", f"{what}'s size"), tot, f"{what}'s size")


def data_atom(ck, r):
    atom(r, "a data atom")
    r.const(b"data", "the data atom's name")
    r.skip(4, "the data atom's type")
    r.const(bytes(4), "the data atom's locale")
    r.p = []


def ilst(ck, r, k):
    if r.done():
        return
    atom(r, "the ilst atom")
    r.const(b"ilst", "the ilst atom's name")

    def item(x):
        atom(x, "an item's atom")
        if x.text(4) == b"----":
            x.skip(4, "name")
            for what in ("mean", "name"):
                n = x.num(4, "be", f"a {what} atom's size")
                x.const(what.encode(), f"a {what} atom's name")
                x.const(bytes(4), f"a {what} atom's flags")
                if x.peek() and x.peek()[0] == "b":
                    x.same(n, fadd(form(12), ck.m.piecelen(x.p.pop(0))), f"a {what} atom's size")
                else:
                    x.same(n, form(12), f"a {what} atom's size")
        else:
            x.skip(4, "an item's name")
        ck.many(x, lambda d: data_atom(ck, d))
    ck.many(r, item)


def udta(ck, r, k):
    atom(r, "the udta atom")
    r.const(b"udta", "the udta atom's name")
    meta(ck, r, k)


def meta(ck, r, k):
    atom(r, "the meta atom")
    r.const(b"meta", "the meta atom's name")
    r.const(bytes(4), "the meta atom's flags")
    tot = r.left()
    n = r.num(4, "be", "the hdlr atom's size")
    b = ck.m.cut(r.st, tuple(r.p), fadd(n, form(4), -1))
    if b is None:
        raise Bad("the hdlr atom's size", "the hdlr atom's size does not end at the end of its contents")
    h = Rec(ck, r.st, b[0])
    h.const(b"hdlr" + bytes(8) + b"mdirappl", "the hdlr atom's contents")
    if any(p[0] != "c" or set(p[1]) != {0} for p in h.p) or r.st.val(h.left()) not in (9, 10):
        raise Bad("the hdlr atom's size", "the hdlr atom does not end at the end of its contents")
    r.p = list(b[1])
    if len(r.p) > 1:
        raise Bad("the hdlr atom's size", "something lies between the hdlr atom and the ilst atom")
    ck.proved += 1


def free(ck, r, k):
    atom(r, "the free atom")
    r.const(b"free", "the free atom's name")
    if any(p[0] == "c" and set(p[1]) - {0} for p in r.p):
        raise Bad("the free atom's contents", "a free atom is not filled with zeros")


def freeform(ck, r, k):
    r.const(b"----", "the name")


def id3v1(ck, r, k):
    tot = r.st.val(r.left())
    if tot == 0:
        return
    if tot is None:
        raise Unknown("the tag's size")
    if tot != 128:
        raise Bad("the tag's size", f"the tag is {tot} bytes long instead of 128")
    ck.proved += 1
    r.const(b"TAG", "the identifier")
    for what, n in (("title", 30), ("artist", 30), ("album", 30), ("year", 4), ("comment", 28)):
        c = ck.m.cut(r.st, tuple(r.p), form(n))
        if c is None:
            raise Bad(f"the {what}'s extent", f"the {what} does not end {n} bytes after it begins")
        r.p = list(c[1])
        ck.proved += 1


SPECS = [
    ("the ID3v1 tag", r"^id3::v1::tag::Id3v1TagRef::<.*>::dump_to$", r"^id3::v1::", id3v1, {}, "out"),
    ("ID3v2 frames", r"^id3::v2::write::frame::write_frame$", r"^id3::v2::write|^id3::v2::util::synch", one_frame, {}, "out", frame_seeds, FrameMachine),
    ("the APE tag", r"^ape::tag::ApeTagRef::<.*>::dump_to$", r"^ape::", ape, {"the header's item count": "the number of items", "the footer's item count": "the number of items"}, "out"),
    ("the ID3v2 tag", r"^id3::v2::write::create_tag$", r"^id3::v2::write|^id3::v2::util::synch", id3v2, {}, None),
    ("Vorbis comments", r"^ogg::tag::VorbisCommentsRef::<.*>::dump_to$", r"^ogg::|^picture", vorbis, {"the number of comments": "the number of comments that follow"}, "out"),
    ("the comment packet", r"^ogg::tag::write::write$", r"^ogg::tag|^picture", ogg_packets, {"the number of comments": "the number of comments that follow"}, "calls", ogg_seeds, OggMachine),
    ("the FLAC comment block", r"^flac::block::Block::new_comments$", r"^ogg::|^flac::", vorbis, {"the number of comments": "the number of comments that follow"}, ((), 0, "v0", 0, 2)),
    ("the FLAC picture block", r"^flac::block::Block::new_picture$", r"^picture|^flac::", picture, {}, ((), 0, "v0", 0, 2)),
    ("encoded pictures", r"^picture::Picture::as_flac_bytes$", r"^picture", picture, {}, ((), 0)),
    ("FLAC blocks", r"^flac::block::Block::write_to$", r"^flac::", block, {}, "out"),
    ("the RIFF INFO list", r"^iff::wav::tag::RIFFInfoListRef::<.*>::dump_to$", r"^iff::", riff, {}, "out"),
    ("AIFF text chunks", r"^iff::aiff::tag::AiffTextChunksRef::<.*>::dump_to$", r"^iff::", aiff, {}, "out"),
    ("the ID3v2 chunk", r"^id3::v2::write::chunk_file::write_id3v2_chunk$", r"^id3::v2::write", id3chunk("?"), {}, "out"),
    ("the ilst atom", r"^mp4::ilst::r#ref::IlstRef::<.*>::dump_to$", r"^mp4::", ilst, {}, "out"),
    ("the udta atom", r"^mp4::ilst::write::create_udta$", r"^mp4::", udta, {}, None),
    ("the meta atom", r"^mp4::ilst::write::create_meta$", r"^mp4::", meta, {}, "out"),
    ("free atoms", r"^mp4::ilst::write::write_free_atom$", r"^mp4::", free, {}, "out"),
]


def run(prog, res, tier):
    proved = records = 0
    unk = []
    for name, root, inl, parse, meaning, key, *more in SPECS:
        ck = Check(prog, name, root, inl, parse, meaning, key, *more).run()
        if ck is None:
            res.add(f"missing {name}", f"the writer of {name} ({root}) was not found")
            continue
        for label, msg in ck.bad.items():
            res.add(f"{name}: {label}", f"{name}: {msg}", ck.f.loc(ck.f.span) if hasattr(ck.f, "span") else "")
        proved += ck.proved
        records += ck.records
        res.coverage[f"{name}: exits, records, relations"] = [ck.exits, ck.records, ck.proved]
        if ck.unknown:
            unk.append(f"{name}: {ck.unknown}")
    res.floor("relations established", proved, 60)
    res.coverage["undecided"] = unk
