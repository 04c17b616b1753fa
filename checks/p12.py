"""P12: looking for something leaves the reader where it was; several tags saved to one file each start at the beginning."""
import re
from sa.common import *
from sa.pos import Pos

RULE = ("on every exit without an error that says 'nothing found' (or on every one, for functions which only look) the reader is at the "
        "position it had on entry; a second save or type guess on the same file handle is preceded by a rewind")
EXPLANATION = ("Symbolic reader positions followed along every path, through calls that are handed the reader, with the variants of "
               "returned Options, Results and bools kept apart.")


def is_err(v):
    return v is not None and v[0] == "V" and v[1] == 1


def ok_payload(v):
    if v is None:
        return None
    if v[0] == "V" and v[1] == 0 and v[2]:
        return v[2][0]
    if v[0] == "R":
        return v[1]
    return None


def always(v):
    return True


def ok_false(v):
    p = ok_payload(v)
    return p is None or p == ("I", 0)


def header_none(v):
    p = ok_payload(v)
    if p is None or p[0] != "V" or not p[2]:
        return True
    h = p[2][0]
    return not (h is not None and h[0] == "V" and h[1] == 1)


# function name, owner pattern, parameter that is (or holds) the reader, exits on which the reader must be back
CONTRACTS = [
    ("guess_file_type", r"probe::Probe", 1, always, "guessing the file type"),
    ("guess_inner", r"probe::Probe", 1, always, "guessing the file type"),
    ("stream_len_hack", r".*", 1, always, "measuring the stream"),
    ("find_id3v2", r"id3::", 1, header_none, "not finding an ID3v2 tag"),
    ("search", r".*RevPatternSearcher", 1, ok_false, "not finding the pattern"),
]
CONSUME = ("save_to", "remove_from")


def run(prog, res, tier):
    P = Pos(prog)
    got = 0
    for name, owner, param, pred, what in CONTRACTS:
        fs = [f for f in prog.fns.values() if f.name == name and re.search(owner, f.id) and f.kind != "Closure" and f.argc >= 1
              and "test" not in f.id]
        for f in fs:
            got += 1
            ex = P.run(f, param)
            n = 0
            for p, v in sorted(ex, key=repr):
                if is_err(v) or not pred(v):
                    continue
                n += 1
                if p != "E":
                    res.add(f"{f.id}:not-restored", f"{what}: there is a path on which {f.id} returns with the reader elsewhere "
                            f"(position {p}, returning {v}) instead of where it was on entry", f.loc())
            res.coverage.setdefault("exits", {})[f.id] = n
            if n == 0:
                res.add(f"{f.id}:no-exit", "no exit without an error found", f.loc())
    res.floor("functions that only look", got, 4)
    # several saves to one handle
    sites = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.kind == "Closure":
            continue
        cs = [c for c in f.callmap if c.callee and self_consumer(c)] if isinstance(f.callmap, list) else \
            [c for c in f.callmap.values() if c.callee and self_consumer(c)]
        if not cs:
            continue
        for i in range(1, f.argc + 1):
            lt = f.local_ty(i)
            if not (lt.get("k") == "ref" and lt["s"].startswith("&mut") or lt.get("n", "").endswith(("VerifiedFile", "FileSource"))):
                continue
            al = P.aliases(f, i)
            mine = [c for c in cs if any(a.kind == "p" and a.place.local in al and file_arg(f, a) for a in c.args)]
            if not mine:
                continue
            P.run(f, i)
            for (fid, loc, args, pos), log in list(P.log.items()):
                if fid != f.id or loc != i:
                    continue
                for c, p in log:
                    if c in mine:
                        sites += 1
                        if p not in ("E", "Z"):
                            res.add(f"{f.id}:{c.callee.name}:not-rewound",
                                    f"{f.id} calls {c.callee.target} after the file was already used, without rewinding it first",
                                    f.loc(c.span))
    # whole-file rewrites
    n = first = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.kind == "Closure" or f.trait in TRUNC_TRAITS | WRITE_TRAITS:
            continue
        cs = calls_of(f)
        if not any(c.callee and (c.callee.trait in WRITE_TRAITS | TRUNC_TRAITS) for c in cs):
            continue
        for i in range(1, f.argc + 1):
            lt = f.local_ty(i)
            if in_memory(f, lt) or not (lt.get("k") == "ref" and lt["s"].startswith("&mut") or lt.get("n", "").endswith(("VerifiedFile", "FileSource"))):
                continue
            al = P.aliases(f, i)
            if not any(c.callee and c.callee.trait in WRITE_TRAITS | TRUNC_TRAITS and c.args and c.args[0].kind == "p"
                       and c.args[0].place.local in al for c in cs):
                continue
            n += 1
            P.run(f, i)
            for (fid, loc, args, pos), log in list(P.log.items()):
                if fid != f.id or loc != i:
                    continue
                for c, p in log:
                    if not (c.callee and (c.callee.trait in WRITE_TRAITS and c.callee.name != "flush"
                                          or c.callee.target in prog.fns and c.callee.trait not in SEEK_TRAITS | TRUNC_TRAITS | LEN_TRAITS | READ_TRAITS)):
                        continue
                    if p == "Z0":
                        first += 1
                    if p == "T":
                        res.add(f"{f.id}:hole", f"{f.id} writes the new contents after emptying the file without going back to its beginning",
                                f.loc(c.span))
                    if p == "Z" and c.callee.trait in WRITE_TRAITS:
                        res.add(f"{f.id}:leftover", f"{f.id} writes over the file from its beginning without having emptied it: what is "
                                "longer in the old contents stays behind", f.loc(c.span))
    res.floor("functions writing to a file", n, 10)
    res.floor("writes into an emptied file", first, 8)
    res.floor("saves on a shared handle", sites, 10)


def calls_of(f):
    return f.callmap if isinstance(f.callmap, list) else list(f.callmap.values())


def self_consumer(c):
    return c.callee.name in CONSUME or c.callee.target.startswith("util::io::VerifiedFile") and c.callee.name == "new"


def file_arg(f, a):
    t = strip(f, f.ty(a.ty))
    return t.get("k") in ("param", "alias") or t.get("k") == "adt" and t["n"].endswith(("fs::File", "VerifiedFile"))
