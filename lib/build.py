"""Builds the server and the harness from /repo's current tree, out of tree."""
import fcntl
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ROSTER_REPO", "/repo")
BUILD = os.environ.get("ROSTER_BUILD", os.path.join(VERIF, ".build"))
TARGET = os.path.join(BUILD, "target")


class BuildError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(
        RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
        RUSTUP_AUTO_INSTALL="0",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_TERM_COLOR="never",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=TARGET,
    )
    return env


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _run(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, env=cargo_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=1500)
    if p.returncode != 0:
        raise BuildError("%s:\n%s" % (what, p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout.decode(errors="replace")


def server():
    """The roster binary."""
    with lock("lock"):
        _run(["cargo", "build", "--offline", "--locked", "--bin", "roster"], REPO,
             "the server does not build")
    return os.path.join(TARGET, "debug", "roster")


def harness():
    """The harness linked with the roster library, or None if it does not compile
    (it uses the public items of the library, which a refactoring may change)."""
    src = os.path.join(VERIF, "harness")
    dst = os.path.join(BUILD, "harness")
    with lock("lock"):
        os.makedirs(dst, exist_ok=True)
        for d, _, files in os.walk(src):
            rel = os.path.relpath(d, src)
            if rel.split(os.sep)[0] == "target":
                continue
            os.makedirs(os.path.join(dst, rel), exist_ok=True)
            for f in files:
                a, b = os.path.join(d, f), os.path.join(dst, rel, f)
                data = open(a, "rb").read()
                if f == "Cargo.toml":
                    data = data.replace(b"/repo/", REPO.encode() + b"/")
                if not os.path.exists(b) or open(b, "rb").read() != data:
                    open(b, "wb").write(data)
        # the very versions the repository is locked to
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(dst, "Cargo.lock"))
        try:
            _run(["cargo", "build", "--offline", "--release"], dst, "harness")
        except BuildError as e:
            sys.stderr.write(str(e) + "\n")
            return None
    return os.path.join(TARGET, "release", "roster-harness")


if __name__ == "__main__":
    print(server())
    print(harness())
