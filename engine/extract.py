"""Builds the fact extractor and extracts the program under /repo."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

from facts import Facts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
ENCODE = "telda2,collect_result"     # crates whose bodies the tools' facts need
BINS = ["t", "tar", "tc", "tdbg", "tl", "tobjdump", "tstrip"]


class BuildError(Exception):
    pass


def files(root, subs):
    out = []
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            out.append(p)
        else:
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x != "target")
                out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL",
              "RUSTC_WORKSPACE_WRAPPER", "RUSTC", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"{what} failed:\n" + r.stdout[-3000:])


def driver(e):
    src = files(os.path.join(VERIF, "driver"), ["src", "Cargo.toml", "Cargo.lock"])
    d = digest(src)
    stamp = os.path.join(BUILD, "driver.stamp")
    exe = os.path.join(BUILD, "driver", "release", "mirdump")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d:
        return exe, d
    run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
        os.path.join(VERIF, "driver"), e, "building the extractor")
    with open(stamp, "w") as f:
        f.write(d)
    return exe, d


def harness():
    """The harness; for another tree than /repo a copy that depends on that one."""
    h = os.path.join(VERIF, "harness")
    if REPO == "/repo":
        return h
    c = os.path.join(BUILD, "harness-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree(h, c, ignore=shutil.ignore_patterns("target"))
    p = os.path.join(c, "Cargo.toml")
    with open(p) as f:
        t = f.read()
    with open(p, "w") as f:
        f.write(t.replace('"/repo"', f'"{REPO}"'))
    return c


def extract(what):
    """what: 'lib' or 'bins'; the directory with the fact files."""
    os.makedirs(BUILD, exist_ok=True)
    e = env()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dd = driver(e)
        src = files(REPO, ["src", "Cargo.toml", "Cargo.lock"]) + files(os.path.join(VERIF, "harness"), ["src", "Cargo.toml", "Cargo.lock"])
        src += [p for p in (os.path.join(REPO, "build.rs"),) if os.path.exists(p)]
        if what == "lib":
            src = [p for p in src if not p.startswith(os.path.join(REPO, "src", "bin") + os.sep)]
        h = digest(src) + dd[:8] + hashlib.sha256(ENCODE.encode()).hexdigest()[:4]
        out = os.path.join(BUILD, f"facts-{what}-{h}")
        if os.path.exists(os.path.join(out, "done")):
            return out
        for old in sorted(glob.glob(os.path.join(BUILD, f"facts-{what}-*")), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old)
        os.makedirs(out, exist_ok=True)
        tgt = os.path.join(BUILD, "target-" + h[-12:])
        e["RUSTC_WRAPPER"] = exe
        e["MIRDUMP_OUT"] = out
        e["MIRDUMP_ENCODE"] = ENCODE
        e["CARGO_TARGET_DIR"] = tgt
        root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = root + "/lib:" + e.get("LD_LIBRARY_PATH", "")
        if what == "lib":
            e["MIRDUMP_CRATES"] = "vharness,telda2"
            cmd = ["cargo", "+nightly", "check", "--offline", "--locked"]
            cwd, need = harness(), ["vharness.lib.json", "telda2.lib.json"]
        else:
            e["MIRDUMP_CRATES"] = ",".join(BINS)
            cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "--bins"]
            cwd, need = REPO, [f"{b}.bin.json" for b in BINS]
        for attempt in range(2):
            # make cargo compile our crates again (both layouts of its build folder)
            for pat in (".fingerprint/telda2-*", ".fingerprint/vharness-*", "build/telda2", "build/vharness"):
                for p in glob.glob(os.path.join(tgt, "debug", pat)):
                    shutil.rmtree(p)
            run(cmd, cwd, e, f"extracting {what}")
            if all(os.path.exists(os.path.join(out, n)) for n in need):
                break
            shutil.rmtree(tgt, ignore_errors=True)
        for n in need:
            if not os.path.exists(os.path.join(out, n)):
                raise BuildError(f"extractor wrote no {n}")
        open(os.path.join(out, "done"), "w").close()
        return out


class Ctx:
    def __init__(self):
        self._l = {}

    def lib(self, name="vharness"):
        k = ("lib", name)
        if k not in self._l:
            self._l[k] = Facts(os.path.join(extract("lib"), f"{name}.lib.json"))
        return self._l[k]

    def bin(self, name):
        k = ("bin", name)
        if k not in self._l:
            self._l[k] = Facts(os.path.join(extract("bins"), f"{name}.bin.json"))
        return self._l[k]


if __name__ == "__main__":
    t = time.time()
    print(extract("lib"), time.time() - t)
    print(extract("bins"), time.time() - t)
