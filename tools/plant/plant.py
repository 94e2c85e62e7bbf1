#!/usr/bin/env python3
"""Makes planted bugs: plant.py [id...]   (definitions: bugs.py)

Confirms each in a scratch copy of /repo: it builds, the tests pass, the
demonstration passes without and fails with the change.  Keeps it in
/verif/seeded/<id>/.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
WT = "/tmp/plant-wt"
sys.path.insert(0, HERE)
import bugs  # noqa: E402


def sh(cmd, cwd=WT, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build():
    return sh("RUSTFLAGS= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 "
              "CARGO_PROFILE_DEV_DEBUG=line-tables-only "
              "cargo build --offline -q 2>&1")


def main():
    want = sys.argv[1:]
    if not os.path.exists(WT):
        shutil.copytree("/repo", WT, symlinks=True)
    sh("git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD; git clean -fdq src")
    rc, out = build()
    assert rc == 0, out
    for bid, b in bugs.BUGS.items():
        if want and bid not in want:
            continue
        d = "%s/seeded/%s" % (ROOT, bid)
        if not want and os.path.exists(d + "/meta.json"):
            continue
        sh("git checkout -q -- .")
        tmp = "/tmp/plant-demo"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for f in ("d.py",):
            shutil.copy(HERE + "/" + f, tmp)
        shutil.copy(ROOT + "/harness/codec.py", tmp)
        with open(tmp + "/demo.py", "w") as f:
            f.write("from d import *\n\n" + b["demo"].strip("\n") + "\n")
        with open(tmp + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                    'exec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(tmp + "/demo.sh", 0o755)
        build()
        rc, out = sh("bash %s/demo.sh" % tmp, timeout=300)
        if rc:
            print(bid, "DEMO FAILS ON CLEAN TREE", out[-800:])
            continue
        ok = True
        for fn, old, new in b["edits"]:
            s = open(WT + "/" + fn).read()
            if s.count(old) != 1:
                print(bid, "edit matches", s.count(old), "times in", fn)
                ok = False
                break
            open(WT + "/" + fn, "w").write(s.replace(old, new))
        if not ok:
            continue
        rc, diff = sh("git diff")
        rc, out = build()
        if rc:
            print(bid, "DOES NOT BUILD", out[-1500:])
            continue
        rc, out = sh("cargo test --offline -q 2>&1")
        if rc:
            print(bid, "TESTS FAIL", out[-1200:])
            continue
        rc, out = sh("bash %s/demo.sh" % tmp, timeout=300)
        if rc == 0:
            print(bid, "DEMO PASSES WITH THE BUG")
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(tmp):
            if f != "__pycache__":
                shutil.copy(tmp + "/" + f, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(d + "/meta.json", "w"), indent=1)
        print(bid, "ok:", out.strip().splitlines()[-1][:150])
    sh("git checkout -q -- .")


main()
