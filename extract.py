"""Builds the fact extractor (driver/) and runs it over /repo's current working tree.

/repo's workspace cannot be resolved offline as it stands (a git dev-dependency), so it is viewed
through a tree of symlinks in /verif/.work/ws, without that one line. Facts are cached under a hash
of every input (sources, manifests, driver, lock file): same tree, same facts."""
import fcntl, hashlib, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
CRATES = ["lofty", "ogg_pager"]


def _hash():
    h = hashlib.sha256()
    files = [os.path.join(HERE, "driver/src/main.rs"), os.path.join(HERE, "driver/Cargo.lock.ws"),
             os.path.join(HERE, "extract.py")]
    roots = [REPO]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "assets", "fuzz", "tests", "benches", "examples"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".md")):
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _env(sysroot):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC"):
        e.pop(k, None)
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise RuntimeError("command failed: " + " ".join(cmd))
    return p.stdout


def build_driver(sysroot, env):
    src = os.path.join(HERE, "driver/src/main.rs")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    exe = os.path.join(WORK, f"factdrv-{tag}")
    if not os.path.exists(exe):
        _run(["rustc", "--edition", "2021", "-O", "-Awarnings", "-o", exe + ".tmp", src], env=env)
        os.rename(exe + ".tmp", exe)
    return exe


def mirror(ws):
    if os.path.lexists(ws):
        shutil.rmtree(ws)
    os.makedirs(ws)
    for n in os.listdir(REPO):
        if n in (".git", "target", "Cargo.lock", "lofty"):
            continue
        os.symlink(os.path.join(REPO, n), os.path.join(ws, n))
    lo = os.path.join(ws, "lofty")
    os.makedirs(lo)
    for n in os.listdir(os.path.join(REPO, "lofty")):
        if n in ("target", "Cargo.lock", "Cargo.toml"):
            continue
        os.symlink(os.path.join(REPO, "lofty", n), os.path.join(lo, n))
    with open(os.path.join(REPO, "lofty/Cargo.toml"), encoding="utf-8") as f:
        t = re.sub(r"(?m)^hound\s*=.*\n", "", f.read())
    with open(os.path.join(lo, "Cargo.toml"), "w", encoding="utf-8") as f:
        f.write(t)
    shutil.copy(os.path.join(HERE, "driver/Cargo.lock.ws"), os.path.join(ws, "Cargo.lock"))


def facts():
    """Directory holding <crate>.json for the current tree."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = _hash()
        out = os.path.join(WORK, "facts-" + key)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        sysroot = subprocess.run(["rustc", "+nightly-x86_64-unknown-linux-gnu", "--print", "sysroot"],
                                 stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        env = _env(sysroot)
        exe = build_driver(sysroot, env)
        ws = os.path.join(WORK, "ws")
        mirror(ws)
        target = os.path.join(WORK, "target")
        # cargo's freshness cache would skip the wrapper
        for sub in ("debug/.fingerprint", "debug/build"):
            fp = os.path.join(target, sub)
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if re.match(r"(lofty|ogg_pager|lofty_attr)(-|$)", n):
                        shutil.rmtree(os.path.join(fp, n))
        for n in os.listdir(WORK):  # keep only a few old fact sets
            if n.startswith("facts-"):
                olds = sorted((x for x in os.listdir(WORK) if x.startswith("facts-")),
                              key=lambda x: os.path.getmtime(os.path.join(WORK, x)))
                for o in olds[:-3]:
                    shutil.rmtree(os.path.join(WORK, o))
                break
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env.update(RUSTC_WORKSPACE_WRAPPER=exe, FACTS_OUT=tmp, FACTS_CRATES=",".join(CRATES), CARGO_TARGET_DIR=target)
        cmd = ["cargo", "check", "--offline", "-p", "lofty", "--lib", "--all-features"]
        _run(cmd, cwd=ws, env=env)
        missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".json"))]
        if missing:  # cargo took something for fresh: start over
            shutil.rmtree(target, ignore_errors=True)
            _run(cmd, cwd=ws, env=env)
            missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".json"))]
        if missing:
            raise RuntimeError(f"no facts for {missing}")
        open(os.path.join(tmp, "ok"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    print(facts())
