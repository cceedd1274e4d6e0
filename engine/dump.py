"""Build the rustc driver and dump the MIR of /repo's current tree (all crates that build here)."""
import glob
import hashlib
import os
import shutil
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATES = ["xdvdfs", "xdvdfs-cli", "xdvdfs-fsd", "xdvdfs-web"]


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTC", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout))
    return p.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()


def driver(build):
    """compile the driver (cached by the hash of its source)"""
    src = os.path.join(HERE, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(build, "xvdriver-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp])
        os.rename(tmp, exe)
    return exe


def models(build, exe, lib):
    src = os.path.join(HERE, "models", "models.rs")
    h = hashlib.sha256(open(src, "rb").read() + exe.encode()).hexdigest()[:16]
    d = os.path.join(build, "models-" + h)
    if not os.path.exists(os.path.join(d, "models.json")):
        tmp = d + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        run([exe, "rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "models",
             "--emit", "metadata", "--out-dir", tmp, src],
            {"XV_OUT": tmp, "XV_CRATES": "models", "CARGO_PKG_NAME": "models", "LD_LIBRARY_PATH": lib})
        if os.path.exists(d):
            shutil.rmtree(d)
        os.rename(tmp, d)
    return os.path.join(d, "models.json")


def dump(repo, build, info):
    os.makedirs(build, exist_ok=True)
    lib = sysroot() + "/lib"
    exe = driver(build)
    mod = models(build, exe, lib)
    target = os.path.join(build, "target")
    out = os.path.join(build, "mir")
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    cmd = ["cargo", "+nightly", "check", "--offline", "--locked"]
    for c in CRATES:
        cmd += ["-p", c]
    for attempt in (0, 1):
        # cargo must not consider the workspace crates fresh: the dump comes from compiling them
        if attempt:
            shutil.rmtree(target, ignore_errors=True)
        for d, subdirs, _ in os.walk(target):
            for x in [x for x in subdirs if x.startswith(("xdvdfs", "libxdvdfs"))]:
                shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                subdirs.remove(x)
        run(cmd, {"XV_OUT": out, "XV_CRATES": ",".join(CRATES), "LD_LIBRARY_PATH": lib, "CARGO_INCREMENTAL": "0",
                  "RUSTC_WORKSPACE_WRAPPER": exe, "CARGO_TARGET_DIR": target}, cwd=repo)
        got = sorted(os.path.basename(f)[:-5] for f in glob.glob(out + "/*.json"))
        if not [c for c in CRATES if c not in got]:
            break
    if [c for c in CRATES if c not in got]:
        raise BuildError("no MIR was dumped for %s" % [c for c in CRATES if c not in got])
    shutil.copy(mod, os.path.join(out, "models.json"))
    info["crates"] = got
    return out
