"""Projection of stored maps to the abstract states of spec/Commands.tla."""
import hashlib
import re
import sqlite3
from urllib.parse import quote
from collections import Counter

import codec

FATAL = {"node-without-name", "position-range", "id-range"}


def text(b: bytes) -> str:
    """Short printable bytes as they are, everything else by hash."""
    if len(b) <= 48 and all(32 <= c < 127 for c in b) and b[:1] != b"#":
        return b.decode("ascii")
    return "#%d:%s" % (len(b), codec.sha(b))


class Names:
    """Node names as small integers (equality is all the spec needs)."""

    def __init__(self):
        self.t = {}

    def __call__(self, n: bytes) -> int:
        return self.t.setdefault(n, len(self.t))


def array(vals):
    c = Counter(vals)
    if len(c) == 1:
        return {"k": 0, "d": vals[0]}
    d, n = max(c.items(), key=lambda kv: (kv[1], -kv[0]))
    if len(vals) - n <= 96:
        ix = [i for i, v in enumerate(vals) if v != d]
        return {"k": 1, "d": d, "ix": ix, "v": [vals[i] for i in ix]}
    return {"k": 2, "f": list(vals)}


_ITEM = re.compile(rb'(?:\["itemstring"\]|itemstring)\s*=\s*"([^"\s]*)')


def lua_entity(t: int, d: bytes):
    """(is a readable Lua entity, name, item name)."""
    try:
        if t != 7 or d[0] != 1:
            return False, "", ""
        n = int.from_bytes(d[1:3], "big")
        name = d[3:3 + n]
        m = int.from_bytes(d[3 + n:7 + n], "big")
        data = d[7 + n:7 + n + m]
        if len(d) < 7 + n or len(name) != n or len(data) != m:
            return False, "", ""
    except IndexError:
        return False, "", ""
    if data.startswith(b"return"):
        r = _ITEM.search(data)
        item = r.group(1) if r else b""
    else:
        item = data.split(b" ")[0]
    return True, text(name), text(item)


def inv_lines(inv: bytes):
    lines = inv.split(b"\n")
    if lines[-1] == b"":
        lines = lines[:-1]
    return [[text(t) for t in ln.split(b" ", 4)] for ln in lines]


class Projector:
    def __init__(self):
        self.names = Names()
        self.cache = {}

    def block(self, key: int, data):
        raw = data if data is not None else b""
        h = (key, codec.sha(raw), data is None)
        r = self.cache.get(h)
        if r is None:
            r = self.cache[h] = self._block(key, raw, data is None)
        return r

    def _block(self, key: int, data: bytes, null: bool):
        hdr, gen = codec.header(data)
        out = {"pos": list(codec.key_pos(key)),
               "raw": codec.sha(data) + ("n" if null else ""),
               "hdr": hdr, "gen": gen, "ver": data[0] if data else 0,
               "st": "bad"}
        try:
            b = codec.decode(data)
        except codec.BadBlock as e:
            out["why"] = str(e)
            return out
        wf = codec.consistent(b)
        if FATAL & set(wf):
            out["why"] = ",".join(wf)
            return out
        nm = dict(b.nimap)
        tr = {i: self.names(n) for i, n in nm.items()}
        metas = sorted(b.meta, key=lambda m: m[0])
        used = set(b.nodes)
        out.update(
            st="ok", flags=b.flags, lit=b.lit, ts=str(b.ts),
            nodes=array([tr[i] for i in b.nodes]),
            p1=array(list(b.p1)), p2=array(list(b.p2)),
            meta=[{"i": p,
                   "vars": [[text(k), text(v), pr] for k, v, pr in sorted(vs)],
                   "inv": inv_lines(inv)} for p, vs, inv in metas],
            objs=sorted(
                (dict(zip(("t", "x", "y", "z", "d", "lua", "name", "item"),
                          (t,) + pos + (text(d),) + lua_entity(t, d)))
                 for t, pos, d in b.objs),
                key=lambda o: (o["t"], o["x"], o["y"], o["z"], o["d"])),
            timers=sorted([p, str(a), str(e)] for p, a, e in b.timers),
            wf=wf, unused=len([i for i in nm if i not in used]))
        return out


def skey(key: int) -> str:
    return "%d,%d,%d" % codec.key_pos(key)


def load(path: str):
    """(blocks: key -> data, digest of everything else in the database)."""
    db = sqlite3.connect("file:%s?mode=ro" % quote(path), uri=True)
    try:
        blocks = dict(db.execute("SELECT pos, data FROM blocks"))
        h = hashlib.sha256()
        names = [r[0] for r in db.execute(
            "SELECT name FROM sqlite_master WHERE type='table' "
            "AND name != 'blocks' AND name NOT LIKE 'sqlite_%' ORDER BY name")]
        for r in db.execute("SELECT type, name, tbl_name, sql FROM sqlite_master"
                            " ORDER BY type, name"):
            h.update(repr(r).encode())
        for n in names:
            for r in db.execute('SELECT rowid, * FROM "%s" ORDER BY rowid' % n):
                h.update(repr(r).encode())
        for p in ("user_version", "application_id", "page_size",
                  "journal_mode", "auto_vacuum", "encoding"):
            h.update(repr(db.execute("PRAGMA " + p).fetchone()).encode())
        return blocks, h.hexdigest()[:16]
    finally:
        db.close()
