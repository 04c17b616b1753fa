"""P22: tags around the audio are found, taken whole, and not counted as audio, whether or not they are read."""
from sa.sniff import Sniff, File, wrap, OK, SOME, OPT, RES
from .p24 import at, shift, synchsafe, find, env_of

RULE = ("for a file of which only the layout of its tags is given, every path that reaches the property reader hands it the bytes "
        "between the tags and the position of the first of them, with and without `read_tags`; the APE writer's search returns "
        "exactly the bytes of the tags; the tag finders leave the reader behind (or, for trailing tags, in front of) the tag")
EXPLANATION = ("Conditional constant propagation with the reader's position as part of the abstract state: the readers of the "
               "formats whose tags sit around the audio, the tag finders, and the APE writer's search for existing tags are "
               "specialised to layouts of which only tag headers, footers and sizes are known (audio, frames, item values stand "
               "for anything); the lengths and positions that arrive at the property readers, and the ranges the search returns, "
               "are compared with what the layout says.")

AUDIO = 5000
DENY = ("id3::v2::frame", "id3::v2::tag", "id3::v1::tag", "ape::tag::item", "ape::tag::ApeTag", "util::text", "picture", "error", "tag::",
        "id3::v1::write::encode", "id3::v2::write::create_tag", "id3::v2::write::frame", "id3::v2::write::chunk_file", "util::alloc", "probe::", "mpeg::header", "aac::header")
# property readers: (function, format, {what: index of the argument}, wanted)
SINKS = {
    "ape::properties::read_properties": ("Ape", {"stream length": 1, "file length": 2}),
    "wavpack::properties::read_properties": ("WavPack", {"stream length": 1}),
    "musepack::sv7::properties::MpcSv7Properties::read": ("Mpc", {"stream length": 1}),
    "musepack::sv8::properties::MpcSv8Properties::read": ("Mpc", {}),
    "musepack::sv4to6::properties::MpcSv4to6Properties::read": ("Mpc", {"stream length": 2}),
    "mpeg::properties::read_properties": ("Mpeg", {"end of the audio": 3, "file length": 5}),
    "aac::properties::read_properties": ("Aac", {"stream length": 2}),
}


class Around(Sniff):
    """Sniff, plus the file's end, the property readers as sinks, and tag content as a number of bytes"""

    def __init__(self, prog, file, audio, **kw):
        super().__init__(prog, file=file, fields={("config::global_options::GlobalOptions", "use_custom_resolvers"): 0}, **kw)
        self.audio = audio
        self.seen = []
        self.enter = self.entering
        self.LIMIT = 4000
        self.unroll = self

    def __contains__(self, fid):
        return not fid.startswith(DENY)

    def update(self, fs):
        pass

    def entering(self, fn, c, ts):
        return all(not t.id.startswith(DENY) for t in ts) and c.callee.name not in ("from", "into", "insert", "fmt")

    def outcomes(self, fn, outs):
        """what a reader refuses (an error out of what stands for anything) is set aside where it may also accept"""
        def failed(v):
            h = v[1] if isinstance(v, tuple) and v[0] == "s" else v
            return isinstance(h, tuple) and h[:2] == ("e", RES) and h[2] == 1
        good = [o for o in outs if not failed(o[0])]
        return good or outs

    def head(self, fn, env, o):
        e = {}
        self.expand(e, (0,), self.full(fn, env, o))
        return e

    def reader_ty(self, fn, o):
        t = fn.tys(o.ty)
        return t.startswith("&mut ") and "[u8]" not in t

    def call(self, fn, env, c, cctx):
        cal = c.callee
        if cal is None:
            return super().call(fn, env, c, cctx)
        name, ids = cal.name, {x for x in (cal.target, cal.path) if x}
        ids |= {t.id for t in self.prog.targets(c)}
        pos = env.get(("#pos",))
        for s, (fmt, figs) in SINKS.items():
            if any(i == s or i.endswith("::" + s) for i in ids):
                vals = {k: self.as_int(self.op(fn, env, c.args[i])) for k, i in figs.items()}
                if fmt == "Mpeg":
                    e = self.head(fn, env, c.args[2])
                    vals["first frame"] = self.as_int(e.get((0, ("f", 1))))
                elif fmt != "Aac":
                    vals["position"] = pos
                self.seen.append((s, tuple(sorted(vals.items())), fn.loc(c.span)))
                env.pop(("#pos",), None)
                return None
        if any(i.endswith("id3::v2::read::parse_id3v2") for i in ids):
            if self.reader_ty(fn, c.args[0]):
                e = self.head(fn, env, c.args[1])
                fs = [f[0] for f in self.prog.adts["id3::v2::header::Id3v2Header"]["vs"][0]["f"]]
                n = [self.as_int(e.get((0, ("f", fs.index(x))))) for x in ("size", "extended_size")]
                env.pop(("#pos",), None)
                if None not in n and pos is not None:
                    env[("#pos",)] = pos + n[0] - n[1]
            return ("e", RES, 0)
        if name == "find_next_frame" and any(i.split("::")[0] in ("mpeg", "aac") for i in ids):
            if pos is None:
                return None
            env.pop(("#pos",), None)
            if pos > self.audio[0]:
                return wrap(OK, ("e", OPT, 0))
            if any(i.startswith("aac") for i in ids):
                env[("#pos",)] = self.audio[0] + 8
                e = {(0, ("f", 1)): self.audio[0] + 400}
            else:
                env[("#pos",)] = self.audio[0] + 4
                e = {(0, ("f", 1)): self.audio[0]}
            return wrap(OK, wrap(SOME, self.pack(e, (0,))))
        if any(i.endswith("fallible_vec_from_element") for i in ids):
            v, n = self.as_int(self.op(fn, env, c.args[0])), self.as_int(self.op(fn, env, c.args[1]))
            if n is not None and n <= 65536:
                return wrap(OK, ("bytes", (v if v is not None and v < 256 else None,) * n))
            return ("e", RES, 0)
        if name == "utf8_decode_str":
            v = self.deref(env, self.op(fn, env, c.args[0]))
            if isinstance(v, tuple) and v[0] == "bytes" and all(isinstance(x, int) and x < 128 for x in v[1]):
                return wrap(OK, ("str", bytes(v[1]).decode("ascii")))
            return None
        if name in ("parse", "from_str") and len(c.args) == 1:
            v = self.deref(env, self.op(fn, env, c.args[0]))
            if isinstance(v, tuple) and v[0] == "str" and fn.tys(c.dest.ty).startswith("core::result::Result<u"):
                return wrap(OK, int(v[1])) if v[1].isdigit() else ("e", RES, 1)
        if name in ("checked_sub", "checked_add", "checked_mul") and len(c.args) == 2:
            a, b = (self.as_int(self.op(fn, env, x)) for x in c.args)
            t = self.int_ty(fn, c.args[0].ty)
            if a is None or b is None or not t:
                return None
            w = a - b if name == "checked_sub" else a + b if name == "checked_add" else a * b
            lo, hi = (-(1 << (t[0] - 1)), (1 << (t[0] - 1)) - 1) if t[1] else (0, (1 << t[0]) - 1)
            return wrap(SOME, w) if lo <= w <= hi else ("e", OPT, 0)
        if name in ("ok_or", "ok_or_else") and len(c.args) == 2:
            e = self.head(fn, env, c.args[0])
            h = e.get((0,))
            if isinstance(h, tuple) and h[:2] == ("e", OPT):
                if h[2] == 0:
                    return ("e", RES, 1)
                return wrap(OK, self.pack({(0,) + k[3:]: v for k, v in e.items() if len(k) > 2}, (0,)))
            return None
        if name in ("le", "lt", "ge", "gt") and any("log::Level" in fn.tys(a.ty) for a in c.args):
            return 0
        if name in ("min", "max") and len(c.args) == 2 and "cmp" in (cal.path or "") + (cal.trait or ""):
            a, b = (self.as_int(self.op(fn, env, x)) for x in c.args)
            return (min if name == "min" else max)(a, b) if a is not None and b is not None else None
        if name == "neg" and len(c.args) == 1:
            v = self.as_int(self.op(fn, env, c.args[0]))
            return -v if v is not None else None
        if name == "into_iter" and fn.ty(c.args[0].ty).get("n", "").startswith("core::ops::range::"):
            return self.full(fn, env, c.args[0])
        if name == "next" and "Range" in fn.tys(c.args[0].ty):
            k = self.refkey(env, self.op(fn, env, c.args[0]))
            if k is not None:
                a, b = self.as_int(env.get(k + (("f", 0),))), self.as_int(env.get(k + (("f", 1),)))
                if a is not None and b is not None:
                    if a >= b:
                        return ("e", OPT, 0)
                    env[k + (("f", 0),)] = a + 1
                    return wrap(SOME, a)
        if name == "len" and self.file.size is not None and "util::io::" in (cal.trait or "") + (cal.path or ""):
            return wrap(OK, self.file.size)
        return super().call(fn, env, c, cctx)

    def io(self, fn, env, c, name):
        if name == "seek" and self.file.size is not None:
            e = {}
            self.expand(e, (0,), self.full(fn, env, c.args[1]))
            h = e.get((0,))
            off = next((y for x, y in e.items() if len(x) > 1 and isinstance(y, int)), None)
            if isinstance(h, tuple) and h[0] == "e" and h[2] == 1 and off is not None:
                new = self.file.size + off
                if new < 0:
                    return ("e", RES, 1)
                env[("#pos",)] = new
                return wrap(OK, new)
        return super().io(fn, env, c, name)


# -- layouts
def id3v2(ver=4, size=300, footer=False):
    return at((0, b"ID3" + bytes([ver, 0, 0x10 if footer else 0]) + synchsafe(size))), 10 + size + (10 if footer else 0)


def le(n):
    return n.to_bytes(4, "little")


def ape(items, header=True, version=2000):
    """an APE tag of which the values stand for anything"""
    body, off = [], 32 if header else 0
    for key, n in items:
        body.append((off, le(n) + le(0) + key + b"\0"))
        off += 8 + len(key) + 1 + n
    size = off - (32 if header else 0) + 32
    foot = b"APETAGEX" + le(version) + le(size) + le(len(items))
    parts = body + [(off, foot + le((1 << 31 if header else 0)) + bytes(8))]
    if header:
        parts.append((0, foot + le(1 << 31 | 1 << 29) + bytes(8)))
    return at(*parts), off + 32


def lyrics(n=60):
    return at((0, b"LYRICSBEGIN"), (n - 15, b"%06dLYRICS200" % (n - 15))), n


def id3v1():
    return at((0, b"TAG")), 128


ITEMS = [(b"TITLE", 40), (b"ARTIST", 7)]
HEADS = [("none", []), ("ID3v2", [id3v2()]), ("ID3v2-footer", [id3v2(footer=True)]), ("ID3v2.3", [id3v2(3, 20000)])]
HEADS2 = [("two-ID3v2", [id3v2(), id3v2(3, 77)]), ("ID3v2-footer-ID3v2", [id3v2(footer=True), id3v2(3, 77)])]
HAPE = [("APE", [ape(ITEMS)]), ("APE-empty", [ape([])]), ("ID3v2-APE", [id3v2(), ape(ITEMS)])]
TAILS = [("none", []), ("APE", [ape(ITEMS)]), ("APE-empty", [ape([])]), ("APE-noheader", [ape(ITEMS, False)]), ("APEv1", [ape(ITEMS, False, 1000)]),
         ("ID3v1", [id3v1()]), ("APE-ID3v1", [ape(ITEMS), id3v1()]), ("Lyrics-ID3v1", [lyrics(), id3v1()]),
         ("APE-Lyrics-ID3v1", [ape(ITEMS[:1]), lyrics(999), id3v1()]), ("Lyrics", [lyrics()]), ("APEv1-ID3v1", [ape(ITEMS, False, 1000), id3v1()])]
MAGIC = {"Ape": [(b"MAC ", 4)], "WavPack": [(b"wvpk", None)], "Mpeg": [(b"\xff\xfb\x90\x64", 0)], "Aac": [(b"\xff\xf1\x50\x80", None)],
         "Mpc": [(b"MPCK", 4), (b"MP+\x07", 3), (b"\x12\x34\x56\x78", 0)]}
READERS = {"Ape": "ape::read::read_from", "WavPack": "wavpack::read::read_from", "Mpeg": "mpeg::read::read_from", "Aac": "aac::read::read_from",
           "Mpc": "musepack::read::read_from"}


def layout(head, magic, tail, audio=AUDIO):
    given, pos = {}, 0
    for g, n in head:
        given.update(shift(g, pos))
        pos += n
    start = pos
    # the audio stands for anything, except for where the searches look
    a = {i: 0 for i in list(range(200)) + list(range(audio - 200, audio))}
    a.update(dict(enumerate(magic)))
    given.update(shift(a, start))
    end = pos = start + audio
    for g, n in tail:
        given.update(shift(g, pos))
        pos += n
    return given, start, end, pos


def options(prog, **kw):
    fs = [f[0] for f in prog.adts["config::parse_options::ParseOptions"]["vs"][0]["f"]]
    return ("s", None, tuple(sorted([((("f", fs.index(k)),), v) for k, v in kw.items()], key=repr)))


def wanted(fmt, skip, start, end, size, ape_size):
    w = {}
    n = end - start
    if fmt == "Ape":
        # the format has no word on whether the file ends with what it knows or with everything
        w = {"stream length": n, "position": start + skip, "file length": (end + ape_size, size)}
    elif fmt == "WavPack":
        w = {"stream length": n}
    elif fmt == "Mpc":
        w = {"stream length": n, "position": start + skip}
    elif fmt == "Mpeg":
        w = {"end of the audio": end, "file length": size, "first frame": start}
    elif fmt == "Aac":
        w = {"stream length": n}
    return w


def run(prog, res, tier):
    undecided, cases, decided, aac = [], 0, 0, 0
    fns = {}
    for fmt, name in READERS.items():
        fns[fmt] = prog.fns.get(name)
        if fns[fmt] is None:
            res.add(f"anchor:{name}", f"the function {name} is not found")
    for s in SINKS:
        if not any(f == s or f.endswith("::" + s) for f in prog.fns):
            res.add(f"anchor:{s}", f"the function {s} is not found")
    for fmt, f in fns.items():
        if f is None:
            continue
        loc = f.loc(f.span)
        heads = list(HEADS)
        if fmt in ("Mpeg", "Aac"):
            heads += HEADS2
        if fmt in ("Mpeg", "Ape"):
            heads += HAPE
        if fmt == "WavPack":
            heads = heads[:1]
        tails = [t for t in TAILS if fmt != "Aac" or t[0] in ("none", "ID3v1")]
        for magic, skip in MAGIC[fmt]:
            for hn, h in heads:
                for tn, t in tails:
                    given, start, end, size = layout(h, magic, t)
                    per = {}
                    for tags in (1, 0):
                        sp = Around(prog, File(given, size=size, fill=0 if fmt == "Mpeg" else None), (start, end))
                        _, rv, _ = sp.run(f, (None, options(prog, read_tags=tags, read_properties=1, read_cover_art=1, parsing_mode=("e", "config::parse_options::ParsingMode", 1), max_junk_bytes=1024)))
                        cases += 1
                        key = f"{fmt}:{hn}:{tn}:{'read' if tags else 'unread'}"
                        what = f"{fmt}, {hn} in front, {tn} behind, tags {'read' if tags else 'not read'}"
                        if not sp.seen:
                            e = env_of(sp, rv)
                            hd = e.get((0,))
                            if isinstance(hd, tuple) and hd[:1] == ("e",) and hd[2] == 1:
                                decided += 1
                                res.add(key, f"{what}: every path ends in an error", loc)
                            else:
                                undecided.append((key, "the property reader is not reached"))
                            continue
                        w = wanted(fmt, skip, start, end, size, t[0][1] if tn.startswith("APE") else 0)
                        for s, vals, where in sp.seen:
                            vals = dict(vals)
                            per.setdefault(tags, vals)
                            for k, v in vals.items():
                                if k == "position" and skip is None or k not in w:
                                    continue
                                if v is None:
                                    undecided.append((key, k))
                                    continue
                                right = w[k] if isinstance(w[k], tuple) else (w[k],)
                                if v not in right and any(x.get(k) is None or x.get(k) in right for x in (dict(y[1]) for y in sp.seen)):
                                    undecided.append((key, k))      # what decides between the paths is not known
                                    continue
                                decided += 1
                                if v not in right:
                                    if fmt == "Aac" and v - w[k] == 10 * len(h) and all(g.get(0) == 73 for g, _ in h):
                                        aac += 1
                                        if aac == 1:
                                            res.add("Aac:header-of-id3v2", "the 10 bytes of the header of an ID3v2 tag in front are counted as audio", where)
                                        continue
                                    res.add(f"{key}:{k.replace(' ', '-')}", f"{what}: the {k} handed on is {v}, where the layout says {w[k]}", where)
                    if len(per) == 2 and per[0] != per[1]:
                        for k in per[0]:
                            a, b = per[0].get(k), per[1].get(k)
                            if a is not None and b is not None and a != b and (k not in w or isinstance(w[k], tuple)):
                                res.add(f"{fmt}:{hn}:{tn}:{k.replace(' ', '-')}", f"{fmt}, {hn} in front, {tn} behind: the {k} handed on is {a} when tags are not read, {b} when they are", loc)
    found = finders(prog, res, undecided)
    found = (found or 0) + id3v1_writer(prog, res, undecided)
    res.floor("searches_compared", found, 200)
    res.coverage["layouts_specialised"] = cases
    res.coverage["undecided"] = len(undecided)
    res.floor("figures_compared", decided, 600)
    import os
    if os.environ.get("P22_DEBUG"):
        from collections import Counter
        for k, n in Counter(k.split(":")[0] + " " + w for k, w in undecided).items():
            print(k, n)
        for u in undecided[:int(os.environ["P22_DEBUG"])]:
            print(u)


def ranges(e, base):
    """Option<Range<usize>> at a path: None if not known"""
    h = e.get(base)
    if not (isinstance(h, tuple) and h[:2] == ("e", OPT)):
        return "?"
    if h[2] == 0:
        return None
    p = base + (("v", 1, "Some"), ("f", 0))
    r = e.get(p + (("f", 0),)), e.get(p + (("f", 1),))
    return "?" if None in r else r


def finders(prog, res, undecided):
    n = 0
    # the search of the APE writer
    name = "ape::tag::write::find_existing_ape_tags"
    f, adt = prog.fns.get(name), prog.adts.get("ape::tag::write::ApeTags")
    ix = {x[0]: i for i, x in enumerate(adt["vs"][0]["f"])} if adt else {}
    if f is None or not {"header", "footer", "write_position"} <= set(ix):
        res.add(f"anchor:{name}", f"the function {name}, or what it returns, is not found")
    else:
        wo = [x[0] for x in prog.adts["config::write_options::WriteOptions"]["vs"][0]["f"]].index("parse_options")
        for hn, h in HEADS + HAPE:
            for tn, t in TAILS:
                given, start, end, size = layout(h, b"MAC ", t)
                for tags in (1, 0):
                    sp = Around(prog, File(given, size=size), (start, end))
                    po = options(prog, read_tags=tags, read_cover_art=1, parsing_mode=("e", "config::parse_options::ParsingMode", 1))
                    arg = ("s", None, tuple(((("f", wo),) + k, v) for k, v in po[2]))
                    _, rv, _ = sp.run(f, (None, arg))
                    e = env_of(sp, rv)
                    key, what = f"writer:{hn}:{tn}:{'read' if tags else 'unread'}", f"the APE writer, {hn} in front, {tn} behind"
                    h0 = e.get((0,))
                    if isinstance(h0, tuple) and h0[:2] == ("e", RES) and h0[2] == 1:
                        n += 1
                        res.add(key, f"{what}: every path ends in an error", f.loc(f.span))
                        continue
                    base = (0, ("v", 0, "Ok"), ("f", 0))
                    head = (start - h[-1][1], start) if "APE" in hn else None
                    foot = (end, end + t[0][1]) if "APE" in tn else None
                    at_ = end + (t[0][1] if foot else 0)
                    got = {"header": ranges(e, base + (("f", ix["header"]),)), "footer": ranges(e, base + (("f", ix["footer"]),)),
                           "write_position": e.get(base + (("f", ix["write_position"]),), "?")}
                    for k, w in (("header", head), ("footer", foot), ("write_position", at_)):
                        if got[k] == "?":
                            undecided.append((key, k))
                            continue
                        n += 1
                        if got[k] != w:
                            show = {"header": "the tag in front is taken for bytes", "footer": "the tag behind is taken for bytes", "write_position": "a new tag is put at"}[k]
                            res.add(f"{key}:{k}", f"{what}: {show} {got[k]}, where the layout says {w}", f.loc(f.span))
    # the ID3v2 writer keeps everything behind the tag
    name = "id3::v2::write::write_id3v2"
    f = prog.fns.get(name)
    if f is None:
        res.add(f"anchor:{name}", f"the function {name} is not found")
        return n
    for hn, h in HEADS + [("junk-ID3v2", [(dict.fromkeys(range(70), 7), 70), id3v2()])]:
        given, start, end, size = layout(h, b"\xff\xfb\x90\x64", [])
        sp = Kept(prog, File(given, size=size, fill=0), (start, end))
        wo = [x[0] for x in prog.adts["config::write_options::WriteOptions"]["vs"][0]["f"]].index("parse_options")
        po = options(prog, read_tags=1, max_junk_bytes=1024)
        arg = ("s", None, tuple(((("f", wo),) + k, v) for k, v in po[2]))
        sp.run(f, tuple(arg if (f.local_ty(i + 1).get("n") or "").endswith("WriteOptions") else None for i in range(f.argc)))
        got = set(sp.kept)
        if not got or None in got:
            undecided.append((f"id3v2-writer:{hn}", "what is kept"))
            continue
        n += 1
        if got != {start}:
            res.add(f"id3v2-writer:{hn}", f"the ID3v2 writer, {hn} in front: what is kept begins at {sorted(got)}, where the layout says {start}", f.loc(f.span))
    return n


class Kept(Around):
    """where the rest of the file is read from, to be kept"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.kept, self.LIMIT = [], 30000

    def call(self, fn, env, c, cctx):
        if c.callee is not None and c.callee.name == "read_to_end":
            self.kept.append(env.get(("#pos",)))
        return super().call(fn, env, c, cctx)


class Cut(Around):
    """where something is written, and the length a file is cut to"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.cut, self.put = [], []

    def call(self, fn, env, c, cctx):
        if c.callee is not None and fn.id == "id3::v1::write::write_id3v1":
            if c.callee.name == "truncate":
                self.cut.append(self.as_int(self.op(fn, env, c.args[1])))
            if c.callee.name == "write_all":
                self.put.append(env.get(("#pos",)))
        return super().call(fn, env, c, cctx)


def id3v1_writer(prog, res, undecided):
    name = "id3::v1::write::write_id3v1"
    f = prog.fns.get(name)
    if f is None:
        res.add(f"anchor:{name}", f"the function {name} is not found")
        return 0
    n = 0
    for tn, t in TAILS:
        given, start, end, size = layout([], b"\xff\xfb\x90\x64", t)
        sp = Cut(prog, File(given, size=size), (start, end))
        sp.run(f, (None,) * f.argc)
        bare = Cut(prog, File(given, size=size), (start, end))
        bare.calls = {k: 1 for k in prog.fns if k.startswith("id3::v1::tag::") and k.endswith("::is_empty")}
        bare.run(f, (None,) * f.argc)
        if bare.calls and bare.put:
            res.add(f"id3v1-writer:{tn}:empty", f"the ID3v1 writer, {tn} behind: a tag without anything in it is written", f.loc(f.span))
        has = "ID3v1" in tn
        for what, got, want in (("a tag is written at", set(sp.put), {size - 128 if has else size}),
                                ("the file is cut to", set(sp.cut), {size - 128} if has else set())):
            if None in got:
                undecided.append((f"id3v1-writer:{tn}", what))
                continue
            n += 1
            if not got <= want:
                res.add(f"id3v1-writer:{tn}:{what.split()[-2]}", f"the ID3v1 writer, {tn} behind: {what} {sorted(got)}, where the layout says {sorted(want)}", f.loc(f.span))
    return n
