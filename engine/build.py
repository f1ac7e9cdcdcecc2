"""Builds the compiler driver and extracts the program facts (MIR, types, impls, layouts) of the
current /repo working tree.  Everything lives under /verif/.cache (ignored by git)."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
CRATES = ["pasture-core", "pasture-derive", "pasture-algorithms"]


class BuildError(Exception):
    pass


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def sources():
    out = []
    for c in CRATES:
        out += sorted(glob.glob(f"{REPO}/{c}/src/**/*.rs", recursive=True))
        for x in ("Cargo.toml", "build.rs"):
            p = f"{REPO}/{c}/{x}"
            if os.path.exists(p):
                out.append(p)
    return out


def run(cmd, env=None, cwd=None, timeout=800):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def driver():
    src = f"{VERIF}/driver/driver.rs"
    out = f"{CACHE}/driver-{_hash([src])}"
    if not os.path.exists(out):
        for o in glob.glob(f"{CACHE}/driver-*"):
            os.remove(o)
        tmp = out + ".tmp"
        rc, log = run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp])
        if rc != 0:
            raise BuildError("driver does not build:\n" + log[-4000:])
        os.rename(tmp, out)
    return out


def mirror():
    """A workspace whose members are symlinks into the repository (so that nothing is written there)."""
    ws = f"{CACHE}/ws"
    os.makedirs(ws, exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copyfile(f"{VERIF}/ws/{f}", f"{ws}/{f}")
    for c in CRATES:
        l = f"{ws}/{c}"
        if os.path.islink(l) and os.readlink(l) != f"{REPO}/{c}":
            os.remove(l)
        if not os.path.islink(l):
            os.symlink(f"{REPO}/{c}", l)
    return ws


def forget(target):
    """the crates under analysis are compiled anew"""
    for pat in (".fingerprint", "build", "incremental", "deps"):
        for fp in glob.glob(f"{target}/debug/{pat}/*pasture*") + glob.glob(f"{target}/debug/{pat}/*vp[-_]*"):
            shutil.rmtree(fp, ignore_errors=True) if os.path.isdir(fp) else os.remove(fp)


def environment(out, crates, drv):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTUP_TOOLCHAIN"):
            if k not in ("CARGO_HOME",):
                del env[k]
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{CACHE}/target", LD_LIBRARY_PATH=sysroot() + "/lib", VP_FACTS_DIR=out,
               VP_FACTS_CRATES=crates, RUSTC_WORKSPACE_WRAPPER=drv)
    return env


def witness(name, source, features=(), want=(), deps=()):
    """Type-checks a generated client crate of the library (never run).
    -> (ok, facts file or None, [(line, message)] of the compile errors)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(f"{CACHE}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        ws = mirror()
        d = f"{ws}/{name}"
        os.makedirs(f"{d}/src", exist_ok=True)
        with open(f"{d}/src/lib.rs", "w") as f:
            f.write(source)
        with open(f"{d}/Cargo.toml", "w") as f:
            f.write(f"""[package]
name = "{name}"
version = "0.1.0"
edition = "2021"

[features]
""" + "".join(f"{x} = []\n" for x in features) + """
[dependencies]
pasture-core = { path = "../pasture-core" }
pasture-derive = { path = "../pasture-derive" }
bytemuck = { version = "1", features = ["derive"] }
""" + "".join(f'{x} = {{ path = "../{x}" }}\n' for x in deps))
        with open(f"{ws}/Cargo.toml") as f:
            t = f.read()
        with open(f"{ws}/Cargo.toml", "w") as f:
            f.write(t.replace('"pasture-algorithms"]', f'"pasture-algorithms", "{name}"]'))
        crate = name.replace("-", "_")
        out = f"{CACHE}/witness-{crate}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        forget(f"{CACHE}/target")
        env = environment(out, crate + ",pasture_derive", drv)
        cmd = ["cargo", "+nightly", "check", "--offline", "-p", name, "--lib", "--message-format=json"]
        res = []
        for fs in (want or [()]):
            c = cmd + (["--features", ",".join(fs)] if fs else [])
            r = subprocess.run(c, env=env, cwd=ws, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
            errs = []
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                    continue
                mine = m.get("target", {}).get("name") in (crate, name)
                lines = set()
                todo = list(m["message"]["spans"])
                while todo:
                    sp = todo.pop()
                    if sp.get("expansion"):
                        todo.append(sp["expansion"]["span"])
                    if sp["file_name"].endswith(f"{name}/src/lib.rs"):
                        lines |= set(range(sp["line_start"], sp["line_end"] + 1))
                errs.append((mine, sorted(lines), m["message"]["message"]))
            if r.returncode != 0 and not any(e[0] for e in errs):
                raise BuildError("the witness crate could not be checked:\n" + (r.stderr[-3000:] or str(errs)[:2000]))
            ff = f"{out}/{crate}.json"
            res.append((r.returncode == 0, ff if os.path.exists(ff) else None, [(l, t) for _, l, t in errs]))
        return res


def facts():
    """-> directory with the facts of the current tree (cached by content)."""
    os.makedirs(CACHE, exist_ok=True)
    with open(f"{CACHE}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = _hash(sources() + [f"{VERIF}/driver/driver.rs", f"{VERIF}/ws/Cargo.toml", f"{VERIF}/ws/Cargo.lock"])
        d = f"{CACHE}/facts-{key}"
        if os.path.exists(f"{d}/done"):
            os.utime(d)
            return d
        drv = driver()
        ws = mirror()
        olds = sorted(glob.glob(f"{CACHE}/facts-*"), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = f"{CACHE}/tmpfacts"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = f"{CACHE}/target"
        forget(target)
        env = environment(tmp, "pasture_core,pasture_algorithms", drv)
        t = time.time()
        for attempt in (0, 1):
            rc, log = run(["cargo", "+nightly", "check", "--offline", "-p", "pasture-core", "-p", "pasture-algorithms", "--lib"], env=env, cwd=ws)
            ok = all(os.path.exists(f"{tmp}/{n}.json") for n in ("pasture_core", "pasture_algorithms"))
            if ok or rc != 0:
                break
            shutil.rmtree(target, ignore_errors=True)  # cargo took the crates for fresh
        if rc != 0 or not ok:
            raise BuildError("facts extraction failed:\n" + log[-6000:])
        with open(f"{tmp}/done", "w") as f:
            f.write(f"{time.time()-t:.1f}\n")
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return d


if __name__ == "__main__":
    t = time.time()
    print(facts(), f"{time.time()-t:.1f}s")
