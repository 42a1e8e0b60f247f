"""Findings, evidence and the exit protocol of one check."""
import json
import os
import re
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIT = re.compile(r"^(.*)\[(\d+)\]$")


def words(assign):
    """{variable: bool} -> {name: value} with bits gathered into numbers."""
    out = {}
    for n, b in (assign or {}).items():
        m = BIT.match(n)
        if m:
            out.setdefault(m.group(1), {})[int(m.group(2))] = b
        else:
            out[n] = b
    r = {}
    for n, v in out.items():
        if isinstance(v, dict):
            x = sum(1 << i for i, b in v.items() if b)
            r[n] = hex(x)
        else:
            r[n] = v
    return r


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.findings = []       # {key, what, where, witness}
        self.coverage = {}
        self.assumptions = []
        self.notes = []

    def finding(self, key, what, where=(), witness=None):
        self.findings.append({"key": key, "what": what, "where": [list(w) if isinstance(w, tuple) else w for w in where],
                              "witness": witness or {}})

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(rep, level, explanation, seed=1):
    """Write evidence, print the verdict, return the exit code."""
    known = [k for k in load_known() if k["property"] == rep.pid]
    new, old = [], []
    for f in rep.findings:
        hit = None
        for k in known:
            if f["key"] == k["key"] and all(any(s in json.dumps(w) for w in f["where"]) for s in k.get("where", [])):
                hit = k
                break
        (old if hit else new).append((f, hit))
    for k in known:
        if any(h is k for _, h in old):
            print(f"KNOWN-FINDING: property={rep.pid} {k['what']}")
    cov = {"explanation": explanation, "rule": rep.coverage.pop("rule", explanation.split(".")[0])}
    cov.update(rep.coverage)
    vio = []
    code = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, (f, _) in enumerate(new):
        path = os.path.join(rdir, f"{rep.pid}-{i}.json")
        with open(path, "w") as fh:
            json.dump({"property": rep.pid, **f}, fh, indent=1)
        if i < 12:
            print(f"VIOLATION property={rep.pid} replay={path}")
            print(f"  {f['key']}: {f['what']}")
            for w in f["where"][:4]:
                print(f"    at {w}")
            if f["witness"]:
                print(f"    for {json.dumps(f['witness'])[:400]}")
        vio.append({"replay": path, "key": f["key"], "what": f["what"]})
        code = 1
    ev = {"property": rep.pid, "tier": rep.tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": rep.assumptions, "wall_s": round(time.time() - rep.t0, 3), "violations": len(vio),
          "violation_list": vio}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{rep.pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if code == 0:
        print(f"OK property={rep.pid} " + json.dumps({k: v for k, v in rep.coverage.items() if isinstance(v, (int, str))})[:600])
    return code
