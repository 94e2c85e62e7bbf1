#!/usr/bin/env python3
"""Builds the program from /repo's working tree, and the preload shim."""
import fcntl
import glob
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", ROOT + "/.build")


class BuildError(Exception):
    pass


def build_tool() -> str:
    target = OUT + "/target"
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ)
    env["PATH"] = ("/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:"
                   + env.get("PATH", ""))
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
               CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only",
               CARGO_PROFILE_DEV_OPT_LEVEL="2", CARGO_TARGET_DIR=target)
    # cargo compares modification times only: always recompile the crate
    for d in glob.glob(target + "/debug/.fingerprint/mapeditr-*"):
        shutil.rmtree(d, ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--bin", "mapeditr"],
                       cwd=REPO, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    return target + "/debug/mapeditr"


def build_shim() -> str:
    src = ROOT + "/harness/shim.c"
    out = OUT + "/shim.so"
    if not os.path.exists(src):
        return ""
    r = subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", out, src,
                        "-ldl", "-lpthread"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout)
    return out


def build():
    """Build under a lock; return private copies of (tool, shim)."""
    os.makedirs(OUT, exist_ok=True)
    with open(OUT + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_tool(), build_shim()


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        sys.stderr.write(str(e))
        sys.exit(2)
