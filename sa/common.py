"""Shared notions: save/read roots, what counts as I/O on the file, receivers."""

WRITE_TRAITS = {"core::io::write::Write", "byteorder::io::WriteBytesExt"}
READ_TRAITS = {"alloc::io::read::Read", "byteorder::io::ReadBytesExt", "alloc::io::buf_read::BufRead"}
SEEK_TRAITS = {"core::io::seek::Seek"}
TRUNC_TRAITS = {"util::io::Truncate"}
LEN_TRAITS = {"util::io::Length"}
MEM_ADTS = {"alloc::vec::Vec", "core::io::cursor::Cursor", "std::io::cursor::Cursor", "alloc::io::cursor::Cursor"}


def strip(fn, t):
    while t.get("k") in ("ref", "ptr"):
        t = fn.ty(t["a"][0])
    return t


def in_memory(fn, t):
    """is this reader/writer type certainly memory?"""
    t = strip(fn, t)
    k = t.get("k")
    if k in ("slice", "array"):
        return True
    if k == "adt":
        if t["n"] == "alloc::vec::Vec":
            return True
        if t["n"].endswith("::Cursor"):
            inner = strip(fn, fn.ty(t["a"][0])) if t.get("a") else {}
            return in_memory(fn, inner)
        if t["n"].endswith(("::BufReader", "::Take", "::BufWriter")) and t.get("a"):
            return in_memory(fn, fn.ty(t["a"][0]))
    return False


def recv_ty(call):
    fn = call.fn
    if not call.args:
        return None
    o = call.args[0]
    if o.ty is None:
        return None
    return strip(fn, fn.ty(o.ty))


def io_kind(call):
    """'write' | 'trunc' | 'seek' | 'read' for a call into an I/O trait, else None"""
    c = call.callee
    if c is None:
        return None
    tr = c.trait
    if tr in WRITE_TRAITS:
        return "write"
    if tr in TRUNC_TRAITS:
        return "trunc"
    if tr in SEEK_TRAITS:
        return "seek"
    if tr in READ_TRAITS:
        return "read"
    if c.path.startswith("std::fs::File::set_len"):
        return "trunc"
    if c.path.startswith("std::fs::") or c.path.startswith("<std::fs::File"):
        return "open"
    return None


def save_roots(prog):
    """public entry points which change a file"""
    out = []
    for f in prog.fns.values():
        if f.kind == "Closure" or not f.span:
            continue
        if f.trait in ("tag::tag_ext::TagWriteExt", "tag::tag_ext::TagExt", "file::audio_file::AudioFile") and \
                f.name in ("save_to", "save_to_path", "remove_from", "remove_from_path", "clear"):
            out.append(f.id)
        elif f.name in ("save_to", "save_to_path", "remove_from", "remove_from_path"):
            out.append(f.id)
    return out


def read_roots(prog):
    """entry points which parse untrusted bytes"""
    out = []
    for f in prog.fns.values():
        if f.kind == "Closure":
            continue
        if f.trait == "file::audio_file::AudioFile" and f.name == "read_from":
            out.append(f.id)
        elif f.id.startswith("probe::Probe::<") and f.name in ("read", "read_bound", "guess_file_type", "guess_inner", "open"):
            out.append(f.id)
        elif f.id in ("probe::read_from", "probe::read_from_path"):
            out.append(f.id)
    return out
