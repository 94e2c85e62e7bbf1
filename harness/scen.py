"""Runs scenarios on the real program and records them as traces."""
import copy
import hashlib
import json
import os
import random
import shutil
import tempfile

import codec
import project
import run as runner
import world
from project import skey, text


def scratch_root():
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


class Recorder:
    """Writes one trace file (many scenarios)."""

    def __init__(self, tool, path):
        self.tool = tool
        self.f = open(path, "w")
        self.lines = 0
        self.runs = 0
        self.scens = 0
        self.hashes = set()
        self.crashes = []

    def emit(self, ev):
        self.f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        self.lines += 1

    def close(self):
        self.f.close()


class Scenario:
    def __init__(self, rec, sid):
        self.rec, self.sid = rec, sid
        self.pr = project.Projector()
        self.dir = tempfile.mkdtemp(prefix="sc-", dir=scratch_root())
        self.n = 0
        rec.scens += 1
        rec.emit({"e": "scen", "id": sid})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def world(self, blocks, iblocks=None, as_dir=False, extra=False, page_size=None):
        self.n += 1
        d = "%s/w%d" % (self.dir, self.n)
        os.mkdir(d)
        self.file = d + "/map.sqlite"
        world.write_map(self.file, blocks, extra, page_size)
        self.path = d if as_dir else self.file
        self.ipath = None
        if iblocks is not None:
            os.mkdir(d + "/src")
            self.ifile = d + "/src/map.sqlite"
            world.write_map(self.ifile, iblocks)
            self.ipath = d + "/src" if as_dir else self.ifile
            self.isha = self._isha()
        self.blocks, self.digest = project.load(self.file)
        self.rec.emit({
            "e": "world",
            "w": {skey(k): self.pr.block(k, v) for k, v in self.blocks.items()},
            "i": {skey(k): self.pr.block(k, v) for k, v in (iblocks or {}).items()}})

    def _isha(self):
        with open(self.ifile, "rb") as f:
            d = f.read()
        return hashlib.sha256(d).hexdigest(), sorted(os.listdir(os.path.dirname(self.ifile)))

    def layout(self, rng, blocks, iblocks, y, iy):
        """The same maps, held and named in other ways."""
        self.n += 1
        d = "%s/w%d" % (self.dir, self.n)
        os.mkdir(d)
        self.cwd = d
        self.path, self.file = place(d, y["path"], "world")
        world.write_layout(rng, self.file, blocks, y)
        self.ipath = None
        if iblocks is not None:
            self.ipath, self.ifile = place(d, iy["path"], "source")
            world.write_layout(rng, self.ifile, iblocks, iy)
            self.isha = self._isha()
        self.blocks, self.digest = project.load(self.file)
        assert self.blocks == blocks
        self.rec.emit({
            "e": "world",
            "w": {skey(k): self.pr.block(k, v) for k, v in self.blocks.items()},
            "i": {skey(k): self.pr.block(k, v) for k, v in (iblocks or {}).items()}})

    def cmd(self, c, badargs=False, consent=True, args=None, stdin="", yes=True,
            yes_last=False):
        a = [self.path] + (args if args is not None else c.args(self.ipath))
        if yes:
            a = a + ["-y"] if yes_last else ["-y"] + a
        r = runner.run(self.rec.tool, a, stdin, cwd=getattr(self, "cwd", None))
        self.rec.runs += 1
        rep = runner.parse(c.cmd, r.out)
        after, dig = project.load(self.file)
        delta = {skey(k): self.pr.block(k, v) for k, v in after.items()
                 if k not in self.blocks or self.blocks[k] != v}
        dele = [skey(k) for k in self.blocks if k not in after]
        self.rec.emit({
            "e": "cmd", "c": c.record(self.pr.names, text), "badargs": badargs,
            "consent": consent, "delta": delta, "del": dele,
            "extra": dig != self.digest, "report": rep,
            "srcchanged": bool(self.ipath) and self._isha() != self.isha})
        if r.timeout or "panicked" in r.err:
            self.rec.crashes.append((self.sid, "timeout" if r.timeout else r.err[-400:]))
        self.blocks, self.digest = after, dig
        self.last = r
        return r

    def save(self, name):
        self.rec.emit({"e": "save", "as": name})

    def twin(self, rel, name):
        self.rec.emit({"e": "twin", "rel": rel, "with": name})


# ------------------------------------------------------------------ scenarios
def setup(rng, g):
    w = g["w"]
    if w["shape"] in ("one", "line", "cube2") and rng.random() < 0.06:
        w["huge"] = "huge"
    base = world.base_pos(rng, w["place"])
    w["ext"] = world.extent(rng, w["shape"], base)
    names = world.palette(rng)
    cmds = [world.make_cmd(rng, s, base, names, w["ext"]) for s in g["cmds"]]
    return w, base, names, cmds


def source_world(rng, w, base, names, cmds):
    """The other map of overlay: similar place, other content."""
    w2 = dict(w, shape=rng.choice(["cube2", "cube3", "holes", "line", w["shape"]]))
    if any(w["ext"]):
        w2 = w
    off = next((c.off for c in cmds if c.off), None)
    b2 = base
    if off and rng.random() < 0.8:
        b2 = [max(-2047, min(2044, b - (o // 16))) for b, o in zip(base, off)]
        if any(c.area for c in cmds):
            b2 = base
    return world.make_world(rng, w2, b2, names + [b"source:node"], cmds)


def overlay_base(rng, base, cmds):
    """Where the edited map must be so that something arrives there."""
    off = next((c.off for c in cmds if c.off and c.area), None)
    if not off:
        return base
    return [max(-2047, min(2044, b + o // 16)) for b, o in zip(base, off)]


def clone_positions(rng, w, base, names, cmds):
    """Blocks around the area and around its target."""
    blocks, classes, model = world.make_world(rng, w, base, names, cmds)
    off = cmds[0].off
    if off and any(abs(o) >= 16 for o in off):
        b2 = [max(-2047, min(2044, b + o // 16)) for b, o in zip(base, off)]
        more = world.make_world(rng, w, b2, names, cmds)
        for x, y in zip((blocks, classes, model), more):
            for k, v in y.items():
                if k not in blocks or x is not blocks:
                    x.setdefault(k, v)
    return blocks, classes, model


def worlds_for(rng, g):
    w, base, names, cmds = setup(rng, g)
    isrc = None
    if any(c.cmd == "overlay" for c in cmds):
        isrc = source_world(rng, w, base, names, cmds)
        blocks, classes, model = world.make_world(
            rng, w, overlay_base(rng, base, cmds), names, cmds)
    elif any(c.cmd == "clone" for c in cmds):
        blocks, classes, model = clone_positions(rng, w, base, names, cmds)
    else:
        blocks, classes, model = world.make_world(rng, w, base, names, cmds)
    return w, cmds, (blocks, classes, model), isrc


def plain(sc, rng, g):
    """One world, one or more commands."""
    w, cmds, (blocks, _, _), isrc = worlds_for(rng, g)
    sc.world(blocks, isrc and isrc[0], as_dir=rng.random() < 0.3)
    for c in cmds:
        sc.cmd(c, yes_last=rng.random() < 0.2)


def versions(sc, rng, g):
    """The same world and command in every format version."""
    g["w"]["vers"] = "29"
    w, cmds, (_, _, model), isrc = worlds_for(rng, g)
    imodel = isrc and isrc[2]
    # The source may stay as it is: then privacy is never lost.
    fixed = bool(imodel) and rng.random() < 0.4
    order = [29, 28, 27, 25]
    rng.shuffle(order)

    def enc(b, v, strip=fixed):
        b = copy.copy(b)
        b.ver, b.meta_ver = v, -1
        if v < 28 or strip:
            b.meta = [(p, [(k, x, False) for k, x, _ in vs], inv)
                      for p, vs, inv in b.meta]
        return codec.encode(b)
    for n, v in enumerate(order):
        sc.world({k: enc(b, v) for k, b in model.items()},
                 imodel and (isrc[0] if fixed else {k: enc(b, v, False) for k, b in imodel.items()}))
        for c in cmds:
            sc.cmd(c)
        if n:
            sc.twin("versionpriv" if fixed else "version", "first")
        else:
            sc.save("first")


def without(kind):
    def f(sc, rng, g):
        """The world with and without its blocks of class `kind`."""
        w, cmds, (blocks, classes, _), isrc = worlds_for(rng, g)
        ib = icl = None
        if isrc:
            ib, icl = isrc[0], isrc[1]
            if kind == "bad" and not any(cmds[0].off or [0]):
                # a whole bad mapblock may be copied as it is
                ib = {k: v for k, v in ib.items() if icl[k] != "bad"}
                icl = {k: v for k, v in icl.items() if v != "bad"}
        sc.world({k: v for k, v in blocks.items() if classes[k] != kind},
                 ib and {k: v for k, v in ib.items() if icl[k] != kind})
        for c in cmds:
            sc.cmd(c)
        sc.save("without")
        sc.world(blocks, ib)
        for c in cmds:
            sc.cmd(c)
        sc.twin("without", "without")
    return f


def complement(sc, rng, g):
    """Area, other corners, inversion, and both in sequence."""
    w, cmds, (blocks, _, model), isrc = worlds_for(rng, g)
    c = cmds[0]
    if c.cmd == "deleteobjects":
        # Objects outside of the block that stores them are found by way of
        # that block only: area and inversion need not meet them.
        for k, b in model.items():
            p = codec.key_pos(k)
            objs = [o for o in b.objs if all((v + 5000) // 160000 == q
                                             for v, q in zip(o[1], p))]
            if len(objs) < len(b.objs):
                b = copy.copy(b)
                b.objs = objs
                blocks[k] = codec.encode(b)
    ib = isrc and isrc[0]
    sc.world(blocks, ib)
    sc.cmd(c)
    if c.area is None:
        return
    sc.save("a")
    a, b = c.area
    sw = copy.copy(c)
    m = rng.randrange(1, 8)
    sw.area = ([b[j] if m >> j & 1 else a[j] for j in range(3)],
               [a[j] if m >> j & 1 else b[j] for j in range(3)])
    sc.world(blocks, ib)
    sc.cmd(sw)
    sc.twin("same", "a")
    if c.cmd in ("clone",) or (c.cmd == "overlay" and c.off):
        return
    inv = copy.copy(c)
    inv.invert = not c.invert
    sc.cmd(inv)        # now everything has been selected exactly once
    if c.cmd in ("fill", "deleteblocks", "overlay"):
        return
    if c.cmd == "setparam2" and c.node is None:
        return
    sc.save("both")
    full = copy.copy(c)
    full.area, full.invert = None, False
    sc.world(blocks, ib)
    sc.cmd(full)
    sc.twin("same", "both")


def overlay_twice(sc, rng, g):
    w, cmds, (blocks, _, _), isrc = worlds_for(rng, g)
    sc.world(blocks, isrc[0], as_dir=rng.random() < 0.3)
    sc.cmd(cmds[0])
    sc.save("once")
    sc.cmd(cmds[0])
    sc.twin("same", "once")


def place(d, how, name):
    """A place for a map under directory d: (how the user names it, its file)."""
    w = "%s/%s" % (d, {"space": name + " of a  friend", "odd": name + "?mode=ro&x=%41#1;'",
                       "unicode": name + "-\u00fc\u4e16\u754c"}.get(how, name))
    os.mkdir(w)
    f = w + "/map.sqlite"
    rel = os.path.basename(w)
    if how == "name":
        f = w + "/" + name + ".old.db"
        return f, f
    if how == "linkfile":
        os.symlink(f, w + "/link")
        return w + "/link", f
    if how == "linkdir":
        os.symlink(w, d + "/link-" + name)
        return d + "/link-" + name, f
    return {"dir": w, "slash": w + "/", "relfile": rel + "/map.sqlite", "reldir": rel,
            "here": "./" + rel + "/../" + rel, "unicode": w}.get(how, f), f


def other_layout(rng):
    return dict(page=rng.choice([0, 512, 4096, 32768]),
                order=rng.choice(["sorted", "reversed", "shuffled", "holes", "lastrow"]),
                table=rng.choice(["plain", "plain", "worldgame", "norowid", "integers"]),
                journal="delete", free=rng.choice(["none", "few", "many"]),
                vac=rng.choice(["none", "full"]), enc=rng.choice(["UTF-8", "UTF-16le"]),
                rest=rng.choice(["none", "tables", "first", "views"]),
                path=rng.choice(["file", "dir", "slash", "relfile", "reldir", "linkfile",
                                 "linkdir", "space", "odd", "unicode", "name"]))


def layouts(sc, rng, g):
    """The same map and command, the database made and named in other ways."""
    w, cmds, (blocks, _, _), isrc = worlds_for(rng, g)
    blocks = {k: v if v is not None else b"" for k, v in blocks.items()}
    ib = isrc and {k: v if v is not None else b"" for k, v in isrc[0].items()}
    sc.world(blocks, ib)
    sc.cmd(cmds[0])
    sc.save("plain")
    first = {k: w[k] for k in ("page", "order", "table", "journal", "free", "vac", "enc",
                               "rest", "path")}
    for y in (first, other_layout(rng)):
        sc.layout(rng, blocks, ib, y, other_layout(rng))
        sc.cmd(cmds[0])
        sc.twin("same", "plain")
        sc.twin("samereport", "plain")


def vacuum(sc, rng, g):
    w, cmds, (blocks, _, _), _ = worlds_for(rng, g)
    sc.world(blocks, extra=rng.random() < 0.7,
             page_size=rng.choice([None, 512, 1024, 8192]))
    if rng.random() < 0.6 and len(blocks) > 1:
        import sqlite3
        db = sqlite3.connect(sc.file)
        db.execute("PRAGMA synchronous = OFF")
        for k in rng.sample(list(blocks), len(blocks) // 2):
            db.execute("DELETE FROM blocks WHERE pos = ?", (k,))
        db.commit()
        db.close()
        sc.blocks, sc.digest = project.load(sc.file)
        sc.rec.emit({"e": "world", "i": {}, "w": {
            skey(k): sc.pr.block(k, v) for k, v in sc.blocks.items()}})
    for c in cmds:
        sc.cmd(c)


def big_copy(sc, rng, axis, sign, unaligned, overlay=False):
    """A clone (or overlay) over so many blocks that no cache holds them."""
    c = world.Cmd("overlay" if overlay else "clone")
    n = {0: (1090, 1, 1), 1: (34, 33 if not overlay else 34, 1), 2: (34, 33, 2)}[axis]
    d = {0: 1050, 1: 32, 2: 1}[axis]
    # extent: area plus offset along the axis
    ext = list(n)
    ext[axis] += d
    base = [-(e // 2) + rng.randrange(-3, 4) for e in ext]
    a0 = list(base)
    if sign < 0:
        a0[axis] += d
    off = [0, 0, 0]
    off[axis] = sign * d * 16
    if unaligned:
        off[(axis + 1) % 3] = rng.choice([1, -1, 3])
    c.area = ([v * 16 for v in a0], [(v + e) * 16 - 1 for v, e in zip(a0, n)])
    c.off = off
    names = [b"n:%d" % i for i in range(40)]
    ver = rng.choice([29, 29, 28])

    def mk(salt):
        out = {}
        for i, (x, y, z) in enumerate(
                (base[0] + i, base[1] + j, base[2] + k) for i in range(ext[0])
                for j in range(ext[1]) for k in range(ext[2])):
            r = rng.random()
            if r < 0.01:
                continue
            b = codec.Block(ver=ver)
            b.nimap = [(0, rng.choice(names) + salt)]
            b.p2 = bytes([rng.randrange(256)]) * 4096
            b.p1 = bytes([rng.randrange(256)]) * 4096
            if r < 0.1:
                b.meta = [(rng.randrange(4096), [(b"k", b"%d" % i, False)],
                           world.END_INV)]
            out[codec.pos_key(x, y, z)] = codec.encode(b)
        return out
    sc.world(mk(b""), mk(b"s") if overlay else None)
    sc.cmd(c)


def big_count(sc, rng):
    """Counts beyond a thousand things in many blocks."""
    names = [b"air", b"default:stone"]
    blocks = {}
    for i in range(rng.choice([20, 40])):
        b = codec.Block(ver=rng.choice([25, 28, 29]))
        b.nimap = [(0, names[0]), (1, names[1])]
        b.nodes = world.node_array(rng, "sparse", [0, 1])
        b.timers = [(p, 1, 1) for p in range(0, 4096, 7)]
        b.meta = [(p, [(b"k", b"v", False)],
                   b"List main 1\nItem default:sword 2\nEndInventoryList\n" + world.END_INV)
                  for p in range(0, 4096, 64)]
        b.objs = [(7, (i * 160000, 0, 0), world.lua_obj(rng)) for _ in range(30)]
        blocks[codec.pos_key(i, 0, 0)] = codec.encode(b)
    cs = []
    for n in ("replacenodes", "setparam2", "deletetimers", "deleteobjects",
              "setmetavar", "replaceininv", "deletemeta", "fill"):
        c = world.Cmd(n)
        if n == "replacenodes":
            c.node, c.new = rng.sample(names, 2)
        elif n == "setparam2":
            c.p2, c.node = 3, names[0]
        elif n == "setmetavar":
            c.key, c.value = b"k", b"w"
        elif n == "replaceininv":
            c.item, c.newitem = b"default:sword", b"a:b"
        elif n == "fill":
            c.area = ([-100, -100, -100], [rng.randrange(50, 900), rng.randrange(16), 100])
            c.new = b"x:y"
            c.invert = rng.random() < 0.5
        cs.append(c)
    sc.world(blocks)
    for c in cs:
        sc.cmd(c)


def near_counts(sc, rng):
    """Counts around the steps between abbreviations."""
    side, names = 25, [b"air", b"default:stone"]
    some = []
    for i in range(6):
        b = codec.Block(ver=rng.choice([25, 28, 29]))
        b.nimap = [(0, names[0])]
        b.p2 = bytes([i]) * 4096
        some.append(codec.encode(b))
    base = [rng.randrange(-60, 1) for _ in range(3)]
    ax = rng.randrange(3)
    blocks = {}
    for i in range(side * side):
        p = [i % side, i // side]
        p.insert(ax, 0)
        blocks[codec.pos_key(*(v + b for v, b in zip(p, base)))] = rng.choice(some)
    sc.world(blocks)
    for t in [1000, 1000, 9995, 10000, 10000, 99950, 100000, 100000,
              rng.choice([999500, 1000000])]:
        while True:
            d = rng.randrange(1, 17)
            w = rng.randrange(1, 16 * side + 1)
            h = t // (w * d) + rng.choice([0, 0, 1])
            if 1 <= h <= 16 * side and abs(w * h * d / t - 1) < 0.01:
                break
        n = [w, h]
        n.insert(ax, d)
        c = world.Cmd("setparam2")
        o = [16 * b + (rng.randrange(16 * (1 if j == ax else side) - n[j] + 1))
             for j, b in enumerate(base)]
        c.area = (o, [v + e - 1 for v, e in zip(o, n)])
        c.p2 = rng.randrange(256)
        sc.cmd(c)


KIND = {"P14": versions, "P15": without("bad"), "P16": without("ungen"),
        "P19": overlay_twice, "P23": vacuum, "P25": complement, "P26": layouts}


def one(rec, prop, sid, seed, g):
    rng = random.Random(seed)
    with Scenario(rec, sid) as sc:
        if g.get("special") == "bigcopy":
            big_copy(sc, rng, *g["args"])
        elif g.get("special") == "bigcount":
            big_count(sc, rng)
        elif g.get("special") == "nearcounts":
            near_counts(sc, rng)
        else:
            KIND.get(prop, plain)(sc, rng, copy.deepcopy(g))
