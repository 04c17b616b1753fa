#!/usr/bin/env python3
"""check.py ID [quick|thorough] -- decides one property of /repo's current tree by static analysis."""
import importlib, json, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import extract
from sa.mir import Program


class Finding:
    def __init__(self, key, msg, loc=""):
        self.key, self.msg, self.loc = key, msg, loc


class Result:
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.level = None

    def add(self, key, msg, loc=""):
        if all(f.key != key or f.loc != loc for f in self.findings):
            self.findings.append(Finding(key, msg, loc))

    def floor(self, name, n, minimum):
        """Fail closed: a rule that lost its instances is itself reported."""
        self.coverage[name] = n
        if n < minimum:
            self.add(f"floor:{name}", f"only {n} instances of '{name}' found, at least {minimum} expected: "
                     "the rule lost the code it is about")


def known(pid):
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    facts = extract.facts()
    prog = Program(facts)
    mod = importlib.import_module("checks." + pid.lower())
    res = Result()
    mod.run(prog, res, tier)
    kn = known(pid)
    real, supp = [], []
    for f in res.findings:
        (supp if f.key in kn else real).append(f)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = os.path.join(HERE, "evidence", f"{pid}.report.txt")
    with open(rep, "w", encoding="utf-8") as f:
        f.write(f"property {pid}, rule: {getattr(mod, 'RULE', '')}\n")
        for x in real:
            f.write(f"VIOLATION {x.key}\n  at {x.loc}\n  {x.msg}\n")
        for x in supp:
            f.write(f"KNOWN {x.key}\n  at {x.loc}\n  {x.msg}\n")
    cov = dict(res.coverage)
    cov.setdefault("functions_in_program", len(prog.fns))
    cov.setdefault("call_sites_in_program", sum(len(f.callmap) for f in prog.fns.values()) if tier == "thorough" else "not counted in the quick tier")
    cov["explanation"] = getattr(mod, "EXPLANATION", getattr(mod, "RULE", ""))
    cov["rule"] = getattr(mod, "RULE", "")
    cov["violations"] = [f"{x.key} at {x.loc}" for x in real]
    cov["known_findings"] = [f"{x.key} at {x.loc}" for x in supp]
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for x in supp:
        if x.key not in seen:
            seen.add(x.key)
            print(f"KNOWN-FINDING: property={pid} {x.key}: {kn[x.key]}")
    for x in real:
        print(f"{x.loc}: {x.key}: {x.msg}")
    print(f"{pid}: {json.dumps({k: v for k, v in res.coverage.items() if isinstance(v, (int, str))})} wall={ev['wall_s']}s")
    if real:
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        # the analysis could not be carried out: fail closed, with its own exit code
        rc = 2
    sys.exit(rc)
