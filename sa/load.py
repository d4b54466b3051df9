"""Build the compiler driver, dump /repo's MIR and load it."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(BUILD, "driver", "debug", "mirdump")


class ToolError(Exception):
    """The analysis could not be carried out (not a verdict)."""


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN",
              "CARGO_PROFILE_DEV_DEBUG", "CARGO_BUILD_RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, e, what):
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise ToolError("%s failed (%d)" % (what, p.returncode))
    return p.stdout


def build_driver():
    e = env()
    run(["cargo", "+nightly", "build", "--offline", "--manifest-path",
         os.path.join(VERIF, "driver", "Cargo.toml"), "--target-dir",
         os.path.join(BUILD, "driver")], e, "building the compiler driver")


def digest(extra):
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "driver", "src"),
                 os.path.join(VERIF, "probe", "src")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in (os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"),
              os.path.join(VERIF, "probe", "Cargo.toml"), os.path.join(VERIF, "probe", "Cargo.lock"),
              os.path.join(VERIF, "probebin", "Cargo.toml")):
        if os.path.exists(f):
            files.append(f)
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


def dump(kind):
    """kind: lib (xml feature on), noxml, bin"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        key = digest(kind)
        out = os.path.join(BUILD, "dump", key)
        crate = "hmlconvert" if kind == "bin" else "probe"
        path = os.path.join(out, crate + ".json")
        if os.path.exists(path):
            return path
        # keep few dumps
        old = sorted(glob.glob(os.path.join(BUILD, "dump", "*")), key=os.path.getmtime)
        for o in old[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        e = env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e,
                                 stdout=subprocess.PIPE, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["RUSTC_WRAPPER"] = DRIVER
        e["RUSTFLAGS"] = "-Zmir-opt-level=0 -Zalways-encode-mir"
        e["MIRDUMP_CRATES"] = crate
        e["MIRDUMP_OUT"] = out
        e["MIRDUMP_LIB"] = "" if kind == "bin" else "hml_rs"
        td = os.path.join(BUILD, "t-" + kind)
        # make cargo compile the crates of interest again, whatever their mtimes
        for pat in ("hml-rs", "hml_rs", "probe", "hmlconvert"):
            for p in glob.glob(os.path.join(td, "debug", "*", pat + "*")):
                shutil.rmtree(p, ignore_errors=True)
            for p in glob.glob(os.path.join(td, "debug", "deps", "*" + pat + "*")):
                if os.path.isfile(p):
                    os.remove(p)
        cmd = ["cargo", "+nightly", "check", "--offline", "--target-dir", td, "--manifest-path"]
        if kind == "bin":
            cmd += [os.path.join(VERIF, "probebin", "Cargo.toml")]
        else:
            cmd += [os.path.join(VERIF, "probe", "Cargo.toml")]
            if kind == "noxml":
                cmd += ["--no-default-features"]
        run(cmd, e, "compiling /repo for analysis (%s)" % kind)
        if not os.path.exists(path):
            raise ToolError("no MIR dump was written for %s" % kind)
        return path


class Program:
    def __init__(self, kind="lib"):
        self.kind = kind
        with open(dump(kind)) as f:
            d = json.load(f)
        self.fns = d["fns"]
        self.types = d["types"]
        self.roots = d["roots"]
        self.libfns = d["libfns"]
        self.statics = d["statics"]
        self.by_path = {}
        for i, f in enumerate(self.fns):
            f["id"] = i
            self.by_path.setdefault(f["path"], []).append(i)

    def fn(self, path):
        ids = self.by_path.get(path)
        if not ids:
            raise ToolError("function %s not found" % path)
        return ids[0]

    def is_lib(self, f):
        return f["crate"] == "hml_rs"
