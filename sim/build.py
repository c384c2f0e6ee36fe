"""Builds what a check needs from /repo's current working tree (offline).

The extension is compiled from /repo/src itself through a generated manifest whose only
difference from /repo/Cargo.toml is that rayon-core is replaced by the simulated pool in
sim/rayon-core. Output goes to /verif/.build (git-ignored); /repo is only read.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(VERIF, ".build")
PY = "/opt/vp/venv/bin/python"


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    for extra in ("build.rs",):
        p = os.path.join(REPO, extra)
        if os.path.exists(p):
            files.append(p)
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "sim", "rayon-core")):
        for d, dirs, fs in os.walk(base):
            dirs.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    files.append(os.path.join(VERIF, "sim", "libsim.c"))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo_env():
    env = {k: v for k, v in os.environ.items()
           if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET")}
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", PYO3_PYTHON=PY,
        CARGO_TARGET_DIR=os.path.join(B, "target"),
    )
    return env


def _write(path, text):
    try:
        with open(path) as fh:
            if fh.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as fh:
        fh.write(text)


def build(verbose=False):
    """Returns the directory that holds rumpy.so and libsim.so for the current tree."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(B, "out", key[:24])
        if os.path.exists(os.path.join(out, "ok")):
            return out
        crate = os.path.join(B, "simcrate")
        os.makedirs(crate, exist_ok=True)
        with open(os.path.join(REPO, "Cargo.toml")) as fh:
            man = fh.read()
        man = re.sub(r"(?m)^\[lib\]\n", '[lib]\npath = "%s/src/lib.rs"\n' % REPO, man, count=1)
        if os.path.exists(os.path.join(REPO, "build.rs")):
            man = re.sub(r"(?m)^\[package\]\n", '[package]\nbuild = "%s/build.rs"\n' % REPO, man, count=1)
        man += ('\n[workspace]\n\n[patch.crates-io]\nrayon-core = { path = "%s" }\n'
                % os.path.join(VERIF, "sim", "rayon-core"))
        _write(os.path.join(crate, "Cargo.toml"), man)
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(crate, "Cargo.lock"))
        env = cargo_env()
        stamp = os.path.join(B, "built-key")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != key and os.path.exists(os.path.join(B, "target", "debug")):
            # never trust mtimes: a changed tree always recompiles the crate itself
            subprocess.run(["cargo", "clean", "-p", "rumpy", "--offline"], cwd=crate, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--lib", "--no-default-features", "--offline"], cwd=crate, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            sys.stderr.write("build of the extension failed\n"); raise SystemExit(2)
        if verbose:
            sys.stderr.write(r.stdout[-400:])
        _write(stamp, key)
        root = os.path.join(B, "out")
        if os.path.isdir(root):
            shutil.rmtree(root)
        os.makedirs(out)
        shutil.copyfile(os.path.join(B, "target", "debug", "librumpy.so"), os.path.join(out, "rumpy.so"))
        subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-o", os.path.join(out, "libsim.so"),
                        os.path.join(VERIF, "sim", "libsim.c"), "-ldl", "-lpthread"], check=True)
        open(os.path.join(out, "ok"), "w").close()
        return out


if __name__ == "__main__":
    print(build(verbose=True))
