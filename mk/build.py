"""Building the driver and dumping /repo's current source, per feature configuration."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("MK_BUILD") or os.path.join(HERE, ".build")
REPO = os.environ.get("MK_REPO") or "/repo"      # the override is for developing the checks on scratch copies

# the feature sets the project's CI builds, plus a build without debug assertions
CONFIGS = {
    "full": ("std,fixed,alloc,unsafe,nalgebra", ""),
    "no_assert": ("std,fixed,alloc,unsafe,no_assert", ""),
    "libm": ("libm,alloc", ""),
    "micromath": ("micromath,alloc", ""),
    "fixed": ("fixed,std", ""),
    "std": ("std", ""),
    "release": ("std,fixed,alloc,unsafe", " -Cdebug-assertions=off"),
    "core": ("libm", ""),
    "nalgebra": ("libm,unsafe,nalgebra", ""),
    "nrelease": ("libm,unsafe,nalgebra", " -Cdebug-assertions=off"),
    "all": ("std,libm,micromath,fixed,alloc,unsafe,nalgebra", ""),
    "both": ("libm,micromath,alloc", ""),
    "nostd": ("libm,fixed,unsafe,no_assert", ""),
}


AUTO = {}      # configurations added for conditional compilation of the current source (mk/cfgs.py)


class BuildError(Exception):
    pass


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cleanenv():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


_sys = []


def sysroot():
    if not _sys:
        _sys.append(subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True, env=cleanenv()).stdout.strip())
    return _sys[0]


def driver():
    out = os.path.join(BUILD, "driver")
    src = [os.path.join(HERE, "driver", f) for f in ("driver.rs", "json.rs")]
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()
    with lock("driver"):
        st = out + ".hash"
        if os.path.exists(out) and os.path.exists(st) and open(st).read() == h:
            return out
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", "driver.rs", "-o", out], cwd=os.path.join(HERE, "driver"), env=cleanenv(), capture_output=True, text=True)
        if r.returncode:
            raise BuildError("driver does not build: " + r.stderr[-3000:])
        open(st, "w").write(h)
    return out


def source_hash():
    h = hashlib.sha256()
    fs = [REPO + "/Cargo.toml", REPO + "/Cargo.lock"]
    for root, ds, files in os.walk(REPO + "/crates"):
        ds[:] = [d for d in ds if d not in ("target", ".git")]
        fs += [os.path.join(root, f) for f in files]
    for f in sorted(fs):
        if os.path.exists(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    for f in ("driver.rs", "json.rs"):
        h.update(open(os.path.join(HERE, "driver", f), "rb").read())
    return h.hexdigest()[:20]


def dump(cfg, h=None):
    """path of the JSON dump of configuration cfg for the current tree"""
    h = h or source_hash()
    d = os.path.join(BUILD, "dumps", h, cfg)
    p = os.path.join(d, "minikalman.json")
    with lock("dump-" + cfg):
        if os.path.exists(p + ".ok"):
            return p
        drv = driver()
        # keep only the current tree's dumps
        for old in glob.glob(os.path.join(BUILD, "dumps", "*", cfg)):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        feats, flags = CONFIGS.get(cfg) or AUTO[cfg]
        tgt = os.path.join(BUILD, "target", cfg)
        # force a compilation of the crate itself (both layouts of the target directory)
        for fp in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "minikalman-*")) + [os.path.join(tgt, "debug", "build", "minikalman")]:
            shutil.rmtree(fp, ignore_errors=True)
        env = cleanenv()
        env.update(LD_LIBRARY_PATH=sysroot() + "/lib", MK_DUMP_DIR=d, MK_DUMP_CRATES="minikalman", RUSTC_WORKSPACE_WRAPPER=drv,
                   CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Coverflow-checks=off --cap-lints=warn" + flags, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0")
        r = subprocess.run(["cargo", "+nightly", "check", "-p", "minikalman", "--lib", "--offline", "--no-default-features", "--features", feats],
                           cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode or not os.path.exists(p):
            raise BuildError("%s: %s" % (cfg, r.stderr[-3000:]))
        metas = glob.glob(os.path.join(tgt, "**", "libminikalman-*.rmeta"), recursive=True)
        shutil.copy(max(metas, key=os.path.getmtime), os.path.join(d, "libminikalman.rmeta"))
        deps = {os.path.dirname(f) for ext in ("rmeta", "rlib", "so") for f in glob.glob(os.path.join(tgt, "**", "lib*." + ext), recursive=True)}
        open(os.path.join(d, "deps"), "w").write("\n".join(sorted(deps)))
        open(p + ".ok", "w").write("ok")
    return p


def rustc(cfg, src, name, dump_to=None, extra=()):
    """type-check one source file against the crate built in configuration cfg: (ok, diagnostics)"""
    d = os.path.dirname(dump(cfg))
    w = os.path.join(d, "w")
    os.makedirs(w, exist_ok=True)
    f = os.path.join(w, name + ".rs")
    open(f, "w").write(src)
    env = cleanenv()
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    if dump_to:
        env.update(MK_DUMP_DIR=w, MK_DUMP_CRATES=name)
    cmd = [driver(), "--edition", "2021", "--crate-type", "lib", "--crate-name", name, "--emit=metadata", "-o", os.path.join(w, "lib%s.rmeta" % name), f,
           "--extern", "minikalman=" + os.path.join(d, "libminikalman.rmeta"), "--cap-lints=allow", "-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums", "-Coverflow-checks=off", "--sysroot", sysroot(),
           "--error-format=short"] + list(extra)
    for x in open(os.path.join(d, "deps")).read().split("\n"):
        cmd += ["-L", "dependency=" + x]
    r = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=w)
    return r.returncode == 0, r.stderr


def dumps(cfgs):
    """{cfg: path | BuildError}"""
    h = source_hash()
    driver()

    def one(c):
        try:
            return dump(c, h)
        except BuildError as e:
            return e
    with ThreadPoolExecutor(len(cfgs)) as ex:
        return dict(zip(cfgs, ex.map(one, cfgs)))
