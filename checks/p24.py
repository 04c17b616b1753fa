"""P24: a file's format is recognised from its content, and from its extension."""
from sa.sniff import Sniff, File, SYNC, OPT

RULE = ("for content of which only the signature of a format is given, every path of the guessing functions that can run yields "
        "that format, and the reader ends where it was; content cut short makes no path end in a panic; every listed extension "
        "maps to its format")
EXPLANATION = ("Conditional constant propagation over byte strings of which only some bytes are known (the rest stands for every "
               "value), with the reader's position as part of the state: the guessing functions are specialised, from their public "
               "entry points, to each signature of a table written from the formats' specifications, alone, behind an ID3v2 tag "
               "(with and without footer), and behind junk; the value they return on the branches that remain is compared with "
               "the table.")

FT = "file::file_type::FileType"
GUESS = "file::file_type::FileTypeGuessResult"
NOCUSTOM = {("config::global_options::GlobalOptions", "use_custom_resolvers"): 0}


def at(*parts):
    """bytes at offsets"""
    out = {}
    for off, b in parts:
        for i, x in enumerate(b):
            out[off + i] = x
    return out


def sync(b):
    return at((0, bytes([0xFF, b])))


# signatures, from the formats' specifications: format, given bytes, bytes needed
SIGNATURES = [
    ("Ape", at((0, b"MAC ")), 4),
    ("Flac", at((0, b"fLaC")), 4),
    ("Aiff", at((0, b"FORM"), (8, b"AIFF")), 12),
    ("Aiff", at((0, b"FORM"), (8, b"AIFC")), 12),
    ("Wav", at((0, b"RIFF"), (8, b"WAVE")), 12),
    ("WavPack", at((0, b"wvpk")), 4),
    ("Mp4", at((0, b"\0\0\0"), (4, b"ftyp")), 8),
    ("Mpc", at((0, b"MPCK\x53\x48")), 6),
    ("Mpc", at((0, b"MP+\x07"), (4, b"\0")), 5),
    ("Mpc", at((0, b"MP+\x17"), (4, b"\0")), 5),
    ("Opus", at((0, b"OggS\0\x02"), (26, b"\x01\x13"), (28, b"OpusHead")), 36),
    ("Vorbis", at((0, b"OggS\0\x02"), (26, b"\x01\x1e"), (28, b"\x01vorbis")), 36),
    ("Speex", at((0, b"OggS\0\x02"), (26, b"\x01\x50"), (28, b"Speex   ")), 36),
]
ADTS = [0xF0, 0xF1, 0xF8, 0xF9]
MPEG = [0xE2, 0xE3, 0xE4, 0xE5, 0xE6, 0xE7, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF7, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]
SYNCS = [("Aac", sync(b), 2) for b in ADTS] + [("Mpeg", sync(b), 2) for b in MPEG]
# formats a tag of the ID3v2 kind may precede
AFTER_ID3 = [("Ape", at((0, b"MAC ")), 4), ("Flac", at((0, b"fLaC")), 4), ("Mpc", at((0, b"MPCK")), 4),
             ("Mpc", at((0, b"MP+\x07")), 4), ("Mpc", at((0, b"MP+\x17")), 4)] + SYNCS
# (version, flags, size of the tag, footer)
TAGS = [(2, 0, 0, 0), (3, 0, 130, 0), (4, 0, 130, 0), (4, 0x80, 300000, 0), (4, 0x10, 130, 10), (3, 0x40, 20000, 0)]

EXT = {"Aac": ["aac"], "Ape": ["ape"], "Aiff": ["aiff", "aif", "afc", "aifc"], "Mpeg": ["mp3", "mp2", "mp1"],
       "Wav": ["wav", "wave"], "WavPack": ["wv"], "Opus": ["opus"], "Flac": ["flac"], "Vorbis": ["ogg"],
       "Mp4": ["mp4", "m4a", "m4b", "m4p", "m4r", "m4v", "3gp"], "Mpc": ["mpc", "mp+", "mpp"], "Speex": ["spx"]}


def synchsafe(n):
    return bytes([n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127])


def shift(d, n):
    return {k + n: v for k, v in d.items()}


def find(prog, suffix):
    c = [f for f in prog.fns.values() if f.id.endswith(suffix)]
    return c[0] if len(c) == 1 else None


def known(e, *path):
    """value at a path of a returned structure"""
    return e.get((0,) + path)


def env_of(sp, rv):
    e = {}
    sp.expand(e, (0,), rv)
    return e


def option_of(e, base, variants):
    """None → ("none",), Some(FileType::X) → ("is", X), unknown → None"""
    h = e.get(base)
    if not (isinstance(h, tuple) and h[0] == "e" and h[1] == OPT):
        return None
    if h[2] == 0:
        return ("none",)
    v = e.get(base + (("v", 1, "Some"), ("f", 0)))
    if isinstance(v, tuple) and v[0] == "e" and v[1] == FT:
        return ("is", variants[v[2]])
    return None


class Run:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.variants = [v["n"] for v in prog.adts[FT]["vs"]]
        self.undecided = []
        self.n = 0

    def judge(self, key, what, got, want, loc, allow=()):
        self.n += 1
        if got is None:
            self.undecided.append((key, what))
        elif got != want and got not in allow:
            show = {"none": "no format", "is": got[-1], "panic": "a panic", "err": "an error"}[got[0]]
            exp = "no format" if want == ("none",) else want[-1]
            self.res.add(key, f"{what} is taken for {show}, not {exp}" if got[0] != "panic" else f"{what}: every path ends in a panic", loc)

    # -- from_buffer
    def buffer(self, fn, given, n):
        sp = Sniff(self.prog, fields=NOCUSTOM)
        b = ("bytes", tuple(given.get(i) for i in range(n)))
        _, rv, _ = sp.run(fn, (("rv", b),))
        if not sp.rets.get((fn.id, (("rv", b),))):
            return ("panic",)
        return option_of(env_of(sp, rv), (0,), self.variants)

    # -- Probe::guess_file_type
    def probe(self, fn, file, options=None, ext=None, unroll=False):
        a = self.prog.adts["probe::Probe"]["vs"][0]["f"]
        ix = {f[0]: i for i, f in enumerate(a)}
        sub = []
        po = ("f", ix["options"])
        if options is None:
            sub.append(((po,), ("e", OPT, 0)))
        else:
            sub.append(((po,), ("e", OPT, 1)))
            fs = self.prog.adts["config::parse_options::ParseOptions"]["vs"][0]["f"]
            i = [f[0] for f in fs].index("max_junk_bytes")
            sub.append(((po, ("v", 1, "Some"), ("f", 0), ("f", i)), options))
        ft = ("f", ix["f_ty"])
        if ext is None:
            sub.append(((ft,), ("e", OPT, 0)))
        else:
            sub.append(((ft,), ("e", OPT, 1)))
            sub.append(((ft, ("v", 1, "Some"), ("f", 0)), ("e", FT, self.variants.index(ext))))
        arg = ("s", None, tuple(sorted(sub, key=repr)))
        sp = Sniff(self.prog, file=file, fields=NOCUSTOM)
        if unroll:
            sp.unroll.add(SYNC)
        _, rv, _ = sp.run(fn, (arg,))
        if not sp.rets.get((fn.id, (arg,))):
            return ("panic",), None
        e = env_of(sp, rv)
        h = e.get((0,))
        if not (isinstance(h, tuple) and h[0] == "e"):
            return None, sp.pos
        if h[2] == 1:
            return ("err",), sp.pos
        return option_of(e, (0, ("v", 0, "Ok"), ("f", 0), ft), self.variants), sp.pos


def run(prog, res, tier):
    r = Run(prog, res)
    buf = find(prog, "FileType::from_buffer")
    ext = find(prog, "FileType::from_ext")
    guess = find(prog, "Probe::<R>::guess_file_type")
    for f, n in ((buf, "from_buffer"), (ext, "from_ext"), (guess, "guess_file_type")):
        if f is None:
            res.add(f"anchor:{n}", f"the function {n} is not found")
    if None in (buf, ext, guess):
        return
    bl, el, gl = (f.loc(f.span) for f in (buf, ext, guess))

    def text(given, n):
        return "".join(chr(given[i]) if i in given and 32 <= given[i] < 127 else f"<{given[i]:02x}>" if i in given else "?" for i in range(min(n, 36)))

    # 1. signatures in a buffer, and at the start of a file
    for ty, given, need in SIGNATURES + SYNCS:
        t = text(given, need)
        lens = {need, 36, 50} if tier == "quick" else set(range(need, 51))
        for n in sorted(lens):
            r.judge(f"buffer:{ty}:{t.replace(' ', '_')}", f"a buffer of {n} bytes that begins with `{t}`", r.buffer(buf, given, n), ("is", ty), bl)
        plain50 = {i: given.get(i, 0) for i in range(50)}
        for n in sorted(lens):
            r.judge(f"buffer:{ty}:{t.replace(' ', '_')}", f"a buffer of {n} bytes that begins with `{t}`", r.buffer(buf, plain50, n), ("is", ty), bl)
        plain = {i: given.get(i, 0) for i in range(need)}
        for n in range(0, need):
            r.judge(f"short:{ty}:{t.replace(' ', '_')}", f"a buffer with the first {n} bytes of `{t}`", r.buffer(buf, plain, n), ("is", ty), bl, allow=(("none",),))
        for start in (0, 100):
            for e, fill in ((None, None), ("Wav", None), ("Speex", None), (None, 0)):
                g, pos = r.probe(guess, File(shift(given, start), start=start, fill=fill), ext=e)
                r.judge(f"start:{ty}:{t.replace(' ', '_')}", f"content that begins with `{t}`", g, ("is", ty), gl)
                if pos is not None and pos != start:
                    res.add(f"position:{ty}:{t.replace(' ', '_')}", f"guessing leaves the reader {pos - start} bytes from where it was", gl)
        for n in range(0, need):
            g, pos = r.probe(guess, File({k: v for k, v in plain.items() if k < n}, size=n))
            r.judge(f"cut:{ty}:{t.replace(' ', '_')}", f"content of just the first {n} bytes of `{t}`", g, ("is", ty), gl, allow=(("none",),))

    # 2. behind an ID3v2 tag
    junk = {i: 0 for i in range(3000)}
    for ver, flags, size, foot in TAGS:
        head = at((0, b"ID3" + bytes([ver, 0, flags]) + synchsafe(size)))
        after = 10 + size + foot
        for ty, given, need in AFTER_ID3:
            t = text(given, need)
            for start, fill in ((0, None), (100, None), (0, 0), (100, 0)):
                f = File(shift({**head, **shift(given, after)}, start), start=start, fill=fill, size=start + after + 64 if fill is not None else None)
                g, pos = r.probe(guess, f, unroll=fill == 0 and need == 2)
                w = f"`{t}` behind an ID3v2.{ver} tag of {size} bytes" + (" and a footer" if foot else "")
                r.judge(f"id3:{ver}:{flags:#x}:{t.replace(' ', '_')}", w, g, ("is", ty), gl)
                if pos is not None and pos != start:
                    res.add(f"position:id3:{ver}:{flags:#x}:{t.replace(' ', '_')}", f"{w}: guessing leaves the reader {pos - start} bytes from where it was", gl)
        # padding between the tag and the first frame
        for ty, given, need in SYNCS[:1] + SYNCS[-5:-4]:
            f = File({**head, **shift({i: 0 for i in range(300)}, after), **shift(given, after + 300)})
            f.fill, f.size = 0, after + 400
            g, pos = r.probe(guess, f)
            r.judge(f"id3-junk:{ver}:{flags:#x}:{ty}", f"a frame of {ty} 300 bytes behind an ID3v2.{ver} tag" + (" with a footer" if foot else ""), g, ("is", ty), gl)
        # nothing behind it
        g, pos = r.probe(guess, File({**head}, size=after))
        r.judge(f"id3-only:{ver}:{flags:#x}", f"an ID3v2.{ver} tag and nothing else", g, ("none",), gl)

    # 3. behind junk
    for ty, given, need in SYNCS:
        t = text(given, need)
        for limit, n, found in ((None, 40, 1), (None, 1000, 1), (None, 2000, 0), (16, 10, 1), (16, 20, 0), (2500, 2000, 1), (0, 20, 0)):
            for start in (0, 100):
                f = File(shift({**{i: 0 for i in range(n)}, **shift(given, n)}, start), size=start + n + 64, start=start)
                for e in (None, "Wav"):
                    g, pos = r.probe(guess, f, options=limit, ext=e)
                    want = ("is", ty) if found else ("is", e) if e else ("none",)
                    lim = "the default limit" if limit is None else f"a limit of {limit}"
                    r.judge(f"junk:{ty}:{t}:{limit}:{n}", f"a frame of {ty} behind {n} bytes of junk with {lim}" + (f" in a file named as {e}" if e else ""), g, want, gl)
                    if pos is not None and pos != start:
                        res.add(f"position:junk:{ty}:{t}:{limit}:{n}", f"guessing leaves the reader {pos - start} bytes from where it was", gl)
    # the search itself, path by path over what is given
    for ty, given, need in (SYNCS if tier != "quick" else SYNCS[1:4:2] + SYNCS[-5:-3]):
        for limit, before, found in ((None, b"\0", 1), (None, b"\0\0", 1), (None, b"\xff", 1), (None, b"\0\xff\0", 1), (None, b"\xff\xdf\0\xff\xff"[:3], 1),
                                     (None, b"\0\xff\x1f\xe0", 1), (None, bytes(range(60)), 1), (6, b"\0" * 4, 1), (6, b"\0" * 9, 0), (None, b"\xe0\xff\x7f", 1)):
            n = len(before)
            if before[-1:] == b"\xff":
                continue
            for start in (0, 100):
                f = File(shift({**at((0, before)), **shift(given, n)}, start), size=start + n + 16, start=start, fill=0)
                g, pos = r.probe(guess, f, options=limit, unroll=True)
                r.judge(f"search:{ty}:{given[1]:x}:{before[:6].hex()}:{limit}", f"a frame of {ty} behind the junk {before.hex()}", g, ("is", ty) if found else ("none",), gl)
    # 4. nothing known: the name decides
    for e in (None, "Wav", "Speex"):
        for size in (0, 1, 5, 9, 35, 36, 3000):
            g, pos = r.probe(guess, File({i: 0 for i in range(3000)}, size=size), ext=e)
            if pos:
                res.add(f"position:unknown:{size}", f"guessing from {size} bytes of zeros leaves the reader {pos} bytes from where it was", gl)
            r.judge(f"unknown:{e}:{size}", f"{size} bytes of zeros" + (f" in a file named as {e}" if e else ""), g, ("is", e) if e else ("none",), gl)

    # 5. extensions
    listed = prog.consts.get("file::file_type::EXTENSIONS")
    names = [x["s"] for x in (listed or {}).get("val", {}).get("ref", {}).get("arr", []) if "s" in x]
    if not names:
        res.add("anchor:EXTENSIONS", "the list of extensions is not found")
    want = {e: ty for ty, es in EXT.items() for e in es}
    sp = Sniff(prog, fields=NOCUSTOM)
    for e in sorted(set(names) | set(want)):
        for x in (e, e.upper(), e.capitalize()):
            _, rv, _ = sp.run(ext, (("str", x),))
            got = option_of(env_of(sp, rv), (0,), r.variants)
            if e in want:
                r.judge(f"ext:{e}", f"the extension `{x}`", got, ("is", want[e]), el)
            elif got == ("none",):
                res.add(f"ext:{e}", f"the listed extension `{x}` is not known to from_ext", el)
    path = find(prog, "FileType::from_path")
    if path is None:
        res.add("anchor:from_path", "the function from_path is not found")
    else:
        for x, ty in (("music/a.b/Song.one.MP3", "Mpeg"), ("a.flac/x.ogg", "Vorbis"), ("x.flac/y", None), (".flac", None), ("song.opus.m4b", "Mp4"), ("x.wav.txt", None)):
            _, rv, _ = sp.run(path, (("str", x),))
            r.judge(f"path:{x}", f"the path `{x}`", option_of(env_of(sp, rv), (0,), r.variants), ("is", ty) if ty else ("none",), path.loc(path.span))
    for ty, es in EXT.items():
        if names and not any(e in names for e in es):
            res.add(f"listed:{ty}", f"no extension of {ty} is in the list of extensions", el)
    res.coverage["cases"] = r.n
    res.coverage["undecided"] = len(r.undecided)
    import os
    if os.environ.get("P24_DEBUG"):
        for x in r.undecided[:40]:
            print(x)
    res.floor("decided cases", r.n - len(r.undecided), 600)
