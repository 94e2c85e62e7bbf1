"""Reads the shim's log and rebuilds what a crash would leave on disk."""
import hashlib
import os
import random
import shutil
import sqlite3
import struct
import tempfile

import project

KINDS = ["", "open", "write", "trunc", "sync", "unlink", "rename", "lock", "read",
         "out", "in", "fault", "close", "err"]
HEAD = struct.Struct("<BBHIqq")


class Op:
    __slots__ = ("kind", "flags", "path", "data", "off", "res", "n")


def parse(path, most=-1):
    with open(path, "rb") as f:
        d = f.read(most)
    out, i = [], 0
    while i + HEAD.size <= len(d):
        o = Op()
        k, o.flags, pl, dl, o.off, o.res = HEAD.unpack_from(d, i)
        i += HEAD.size
        o.kind = KINDS[k]
        o.path = d[i:i + pl].decode()
        o.data = d[i + pl:i + pl + dl]
        if i + pl + dl > len(d):
            break
        i += pl + dl
        o.n = len(out)
        out.append(o)
    return out


def put(b, off, data):
    if len(b) < off:
        b.extend(bytes(off - len(b)))
    b[off:off + len(data)] = data


def apply(b, w):
    if w[0] == "w":
        put(b, w[1], w[2])
    elif w[1] < len(b):
        del b[w[1]:]
    else:
        b.extend(bytes(w[1] - len(b)))


class Disk:
    """Files of one map: what is in the page cache and what has been synced.
    Creating, deleting and renaming files is taken to be durable at once."""

    def __init__(self, files):
        self.cur = {p: bytearray(d) for p, d in files.items()}
        self.dur = {p: bytes(d) for p, d in files.items()}
        self.pend = {p: [] for p in files}

    def step(self, o):
        """Apply an operation; true if the files changed."""
        p = o.path
        if o.res < 0 and o.kind != "sync":
            return False
        if o.kind == "open":
            if o.flags & 1 or p not in self.cur and o.flags & 2:
                self.cur[p], self.dur[p], self.pend[p] = bytearray(), b"", []
                return True
            if o.flags & 2 and p in self.cur:
                self.pend[p].append(("t", 0))
                self.cur[p] = bytearray()
                return True
        elif o.kind in ("write", "trunc") and p in self.cur:
            w = ("w", o.off, o.data) if o.kind == "write" else ("t", o.off)
            self.pend[p].append(w)
            apply(self.cur[p], w)
            return True
        elif o.kind == "sync" and p in self.cur:
            self.dur[p], self.pend[p] = bytes(self.cur[p]), []
            return True
        elif o.kind == "unlink" and p in self.cur:
            for d in (self.cur, self.dur, self.pend):
                d.pop(p, None)
            return True
        elif o.kind == "rename" and p in self.cur:
            q = o.data.decode()
            for d in (self.cur, self.dur, self.pend):
                d[q] = d.pop(p)
            return True
        return False

    def killed(self):
        return {p: bytes(d) for p, d in self.cur.items()}

    def lost(self, rng, how):
        """A state that power loss may leave."""
        out = {}
        for p in self.cur:
            pend = self.pend[p]
            b = bytearray(self.dur[p])
            mode = how if how != "mixed" else rng.choice(["none", "all", "some", "torn"])
            if mode == "jall":    # everything of one file, nothing of the others
                mode = "all" if p.endswith("-journal") or p.endswith("-wal") else "none"
            if mode == "dall":
                mode = "none" if p.endswith("-journal") or p.endswith("-wal") else "all"
            if mode == "all":
                b = bytearray(self.cur[p])
            elif mode in ("some", "torn"):
                keep = [w for w in pend if rng.random() < 0.5]
                if mode == "torn":
                    keep = []
                    for w in pend:
                        r = rng.random()
                        if r < 0.4:
                            keep.append(w)
                        elif r < 0.7 and w[0] == "w" and len(w[2]) > 512:
                            # some sectors of the write
                            for s in range(0, len(w[2]), 512):
                                if rng.random() < 0.5:
                                    keep.append(("w", w[1] + s, w[2][s:s + 512]))
                for w in keep:
                    apply(b, w)
            out[p] = bytes(b)
        return out


class Judge:
    """Opens what a crash left, as the game would, and says what is in it."""

    def __init__(self, main, root):
        self.main = main
        self.root = root
        self.memo = {}
        self.names = {}
        self.opened = 0

    def content(self, files):
        h = hashlib.sha1()
        for p in sorted(files):
            h.update(p.encode() + b"\0%d\0" % len(files[p]))
            h.update(files[p])
        k = h.digest()
        if k not in self.memo:
            self.memo[k] = self._open(files)
        return self.memo[k]

    def _open(self, files):
        self.opened += 1
        d = tempfile.mkdtemp(prefix="im-", dir=self.root)
        try:
            base = os.path.dirname(self.main)
            for p, data in files.items():
                if os.path.dirname(p) == base:
                    with open(d + "/" + os.path.basename(p), "wb") as f:
                        f.write(data)
            m = d + "/" + os.path.basename(self.main)
            db = sqlite3.connect(m)
            try:
                db.execute("PRAGMA synchronous = OFF")
                ok = db.execute("PRAGMA integrity_check").fetchone()[0] == "ok"
                db.execute("BEGIN IMMEDIATE")
                db.execute("COMMIT")
            except sqlite3.Error:
                ok = False
            finally:
                db.close()
            if not ok:
                return "corrupt"
            return digest(m)
        except sqlite3.Error:
            return "corrupt"
        finally:
            shutil.rmtree(d, ignore_errors=True)


_pr = project.Projector()


def block_digest(key, data):
    b = dict(_pr.block(key, data))
    if b["st"] == "ok":
        # an edit need not be byte-for-byte reproducible
        b.pop("raw")
        b["meta"] = [m for m in b["meta"]
                     if m["vars"] or m["inv"] != [["EndInventory"]]]
        b.pop("wf")
        b.pop("unused")
    b.pop("pos")
    return repr(sorted(b.items()))


_bd = {}


def digest(path):
    """A digest of the logical content of a map."""
    blocks, dig = project.load(path)
    h = hashlib.sha1(dig.encode())
    for k in sorted(blocks):
        d = blocks[k]
        kk = d if d is None else hashlib.sha1(d).digest()
        if kk not in _bd:
            _bd[kk] = hashlib.sha1(block_digest(k, d).encode()).digest()
        h.update(b"%d " % k + _bd[kk])
    return h.hexdigest()
