"""Build the machinery and the compiler IR of the code under check, from /repo's working tree."""
import os, shutil, subprocess, fcntl, glob, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, "work")
TC = "stable-x86_64-unknown-linux-gnu"
LLBIN = f"/root/.rustup/toolchains/{TC}/lib/rustlib/x86_64-unknown-linux-gnu/bin"

ENTRY = {
    "mlkem": "h_*",
    "xwing": "h_*",
    "dhkem": "h_*",
}
# dbg: overflow checks and debug assertions, only the mildest optimisation of the emitted IR
# rel: the release pipeline (optimised), used for the constant-time property
FLAVOUR = {
    "dbg": dict(rustflags="--emit=llvm-bc -C opt-level=3 -C no-prepopulate-passes -C debug-assertions=on -C overflow-checks=on -C panic=abort -A warnings",
                passes="internalize,globaldce,function(sroa,simplifycfg),globaldce"),
    "rel": dict(rustflags="--emit=llvm-bc -C opt-level=3 -C panic=abort -C no-vectorize-loops -C no-vectorize-slp -A warnings",
                passes="internalize,globaldce"),
}


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError(f"{' '.join(cmd)} failed:\n{p.stdout[-4000:]}")
    return p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, f"{name}.lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def kemsym():
    t = os.path.join(WORK, "kemsym")
    with Lock("kemsym"):
        run(["cargo", "build", "--release", "--offline", "--locked"], env={"CARGO_TARGET_DIR": t}, cwd=os.path.join(ROOT, "kemsym"))
    return os.path.join(t, "release", "kemsym")


def replay():
    """native replay binaries: release and debug-assertion builds of the real code"""
    t = os.path.join(WORK, "replay")
    with Lock("replay"):
        run(["cargo", "build", "--release", "--offline", "--locked"], env={"CARGO_TARGET_DIR": t}, cwd=os.path.join(ROOT, "replay"))
        run(["cargo", "build", "--profile", "checked", "--offline", "--locked"], env={"CARGO_TARGET_DIR": t}, cwd=os.path.join(ROOT, "replay"))
    return os.path.join(t, "release", "replay"), os.path.join(t, "checked", "replay")


def exports(pkg):
    import re
    s = open(os.path.join(ROOT, "harness", pkg, "src", "lib.rs")).read()
    return sorted(set(re.findall(r"\bh_[a-z0-9_]+", s)))


def ir(pkg, flavour, features=None):
    """returns the path of the linked textual IR of harness crate `pkg`"""
    fl = FLAVOUR[flavour]
    tag = f"{pkg}-{flavour}" + (f"-{features}" if features else "")
    t = os.path.join(WORK, "ir", tag)
    out = os.path.join(WORK, "ir", tag + ".ll")
    with Lock("ir-" + tag):
        deps = os.path.join(t, "release", "deps")
        cmd = ["cargo", "build", "--release", "--offline", "--locked"]
        if features is not None:
            cmd += ["--no-default-features"] + (["--features", features] if features else [])
        crate = os.path.join(ROOT, "harness", pkg)
        env = {"CARGO_TARGET_DIR": t, "RUSTFLAGS": fl["rustflags"]}
        # drop stale outputs of the workspace crates so that exactly one .bc per crate exists
        for p in glob.glob(os.path.join(deps, "*.bc")):
            n = os.path.basename(p)
            if n.startswith(("ml_kem-", "x_wing-", "dhkem-", "harness_")):
                os.remove(p)
        for p in glob.glob(os.path.join(t, "release", ".fingerprint", "*")):
            n = os.path.basename(p)
            if n.startswith(("ml-kem-", "x-wing-", "dhkem-", "harness-")):
                shutil.rmtree(p, ignore_errors=True)
        run(cmd, env=env, cwd=crate)
        bcs = [p for p in sorted(glob.glob(os.path.join(deps, "*.bc"))) if not os.path.basename(p).startswith(("version_check", "autocfg", "rustc_version", "semver", "build_script", "proc_macro2", "quote", "syn", "unicode_ident", "zeroize_derive", "curve25519_dalek_derive"))]
        allbc = out + ".bc"
        run([os.path.join(LLBIN, "llvm-link"), "-o", allbc] + bcs)
        ps = fl["passes"].replace("internalize", "internalize<" + ";".join("preserve-gv=" + n for n in exports(pkg)) + ">")
        run([os.path.join(LLBIN, "opt"), "-passes=" + ps, allbc, "-o", out + ".o.bc"])
        tmp = out + ".tmp"
        run([os.path.join(LLBIN, "llvm-dis"), out + ".o.bc", "-o", tmp])
        os.replace(tmp, out)
        for p in (allbc, out + ".o.bc"):
            os.remove(p)
    return out
