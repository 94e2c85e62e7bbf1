"""Helpers of the demonstrations.  Everything happens in a scratch directory."""
import atexit
import os
import shutil
import sqlite3
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import codec  # noqa: E402
from codec import Block  # noqa: E402

TOOL = os.path.join(os.getcwd(), "target/debug/mapeditr")
DIR = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, DIR, True)
END = b"EndInventory\n"
N = 4096


def idx(x, y, z):
    return x + 16 * y + 256 * z


def key(*p):
    return codec.pos_key(*p)


def enc(b):
    return b if isinstance(b, (bytes, type(None))) else codec.encode(b)


def make(blocks, name="map.sqlite"):
    """{(x, y, z): Block or bytes} -> path of a map"""
    path = os.path.join(DIR, name)
    if os.path.exists(path):
        os.unlink(path)
    db = sqlite3.connect(path)
    db.execute("CREATE TABLE `blocks` (`pos` INT PRIMARY KEY, `data` BLOB)")
    db.executemany("INSERT INTO blocks VALUES (?, ?)",
                   [(key(*p), enc(b)) for p, b in blocks.items()])
    db.commit()
    db.close()
    return path


def raw(path):
    db = sqlite3.connect(path)
    assert db.execute("PRAGMA integrity_check").fetchone()[0] == "ok"
    r = {codec.key_pos(k): v for k, v in db.execute("SELECT pos, data FROM blocks")}
    db.close()
    return r


def load(path):
    return {p: codec.decode(d) for p, d in raw(path).items()}


def names(b):
    m = dict(b.nimap)
    return [m[i] for i in b.nodes]


def run(path, *args, yes=True, stdin=b"", timeout=120, env=None):
    a = [TOOL] + (["-y"] if yes else []) + [path] + [str(x) if not isinstance(x, bytes) else x
                                                     for x in args]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(a, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, env=e)
    return p.stdout.decode("utf-8", "replace") + p.stderr.decode("utf-8", "replace")


def area(a, b):
    return ["--p1", *a, "--p2", *b]


def need(cond, what):
    if not cond:
        print("FAIL:", what)
        sys.exit(1)
