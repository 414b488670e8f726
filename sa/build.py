"""Builds the MIR dumper and dumps the resolved program of the current tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HONGDOWN_REPO", "/repo")


def cache_dir():
    d = os.environ.get("HONGDOWN_SA_CACHE", os.path.join(VERIF, ".cache"))
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=d)
        t.close()
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "hongdown-sa-cache")
        os.makedirs(d, exist_ok=True)
        return d


def _hash_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            fs = []
            for r, ds, ns in os.walk(p):
                ds[:] = [x for x in ds if x not in ("target", ".git", "node_modules")]
                fs += [os.path.join(r, n) for n in ns]
            fs.sort()
        else:
            fs = [p] if os.path.exists(p) else []
        for f_ in fs:
            h.update(f_.encode() + b"\0")
            with open(f_, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _run(cmd, cwd, env, log):
    with open(log, "ab") as lf:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT)
    if r.returncode:
        with open(log, "rb") as lf:
            tail = lf.read()[-4000:].decode("utf8", "replace")
        raise BuildError(f"{' '.join(cmd)} failed in {cwd}:\n{tail}")


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver():
    cd = cache_dir()
    key = _hash_tree([os.path.join(VERIF, "driver", "src"), os.path.join(VERIF, "driver", "Cargo.toml")])
    out = os.path.join(cd, f"mirdump-{key}")
    if os.path.exists(out):
        return out
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(cd, "driver-target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    _run(["cargo", "+nightly", "build", "--offline"], os.path.join(VERIF, "driver"), env,
         os.path.join(cd, "driver.log"))
    tmp = out + f".tmp{os.getpid()}"
    shutil.copy(os.path.join(cd, "driver-target", "debug", "mirdump"), tmp)
    os.rename(tmp, out)
    return out


CONFIGS = {
    # name -> (cargo args, extra rustc flags)
    "native": (["--lib", "--bin", "hongdown"], ""),
    "wasm-api": (["--lib", "--features", "wasm"], ""),
    "wasm32": (["--lib", "--features", "wasm"],
               '--cfg target_arch="wasm32" -Aexplicit_builtin_cfgs_in_flags'),
}


def dump(name):
    """Dump one build configuration of the current tree; returns the directory."""
    cd = cache_dir()
    with open(os.path.join(cd, f"lock-{name}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(cd, "lock-driver"), "w") as lk2:
            fcntl.flock(lk2, fcntl.LOCK_EX)
            drv = driver()
        key = _hash_tree([os.path.join(REPO, x) for x in
                          ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo", "README.md")] + [drv])
        out = os.path.join(cd, f"dump-{name}-{key}")
        if os.path.exists(os.path.join(out, "ok")):
            return out
        for old in os.listdir(cd):
            if old.startswith(f"dump-{name}-"):
                shutil.rmtree(os.path.join(cd, old), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        args, extra = CONFIGS[name]
        tgt = os.path.join(cd, f"target-{name}")
        sr = sysroot()
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true",
                   RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_OUT=out, CARGO_INCREMENTAL="0",
                   MIRDUMP_EXTRA="-Zmir-opt-level=0 -Zinline-mir=no " + extra,
                   LD_LIBRARY_PATH=sr + "/lib")
        env.pop("RUSTFLAGS", None)
        if os.path.isdir(tgt):
            # cargo's freshness check would silently skip the wrapper
            _run(["cargo", "+nightly", "clean", "--offline", "-p", "hongdown"], REPO, env,
                 os.path.join(cd, f"dump-{name}.log"))
        _run(["cargo", "+nightly", "check", "--offline"] + args, REPO, env,
             os.path.join(cd, f"dump-{name}.log"))
        need = ["lib-hongdown.json"] + (["bin-hongdown.json"] if "--bin" in args else [])
        for n in need:
            if not os.path.exists(os.path.join(out, n)):
                raise BuildError(f"no dump {n} for configuration {name}")
        open(os.path.join(out, "ok"), "w").close()
        return out


def program(name, bin_too=True):
    from program import Program
    d = dump(name)
    fs = [os.path.join(d, "lib-hongdown.json")]
    if bin_too and os.path.exists(os.path.join(d, "bin-hongdown.json")):
        fs.append(os.path.join(d, "bin-hongdown.json"))
    return Program(fs)
