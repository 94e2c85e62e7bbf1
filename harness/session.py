"""Records runs of the program with their file operations, interrupts them at
every point, and makes operations fail."""
import copy
import errno
import os
import random
import resource
import shutil
import signal
import sqlite3
import subprocess
import tempfile
import time

import codec
import fslog
import project
import scen
import world

EDITING = ["fill", "replacenodes", "setparam2", "deletemeta", "deletetimers",
           "deleteobjects", "setmetavar", "replaceininv", "deleteblocks", "clone",
           "overlay"]
TIMEOUT = 60
PROMPT_TIMEOUT = 20


def limits():
    """Whatever the program does, it does not fill the disk."""
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))


def tree(d):
    out = {}
    for n in os.listdir(d):
        with open(d + "/" + n, "rb") as f:
            out[n] = f.read()
    return out


def disturb_source(rng, d, kind):
    """What another program left of the source map: a journal that is to be
    rolled back ("hot"), the WAL mode, a WAL that is to be read."""
    m = d + "/map.sqlite"
    db = sqlite3.connect(m, isolation_level=None)
    if kind == "hot":
        db.execute("PRAGMA cache_size = 2")
        db.execute("PRAGMA cache_spill = 1")
        db.execute("BEGIN IMMEDIATE")
        db.execute("UPDATE blocks SET data = zeroblob(3000)")
        db.executemany("INSERT OR REPLACE INTO blocks VALUES (?, ?)",
                       [(i, bytes([i]) * 3000) for i in range(60)])
    else:
        db.execute("PRAGMA journal_mode = WAL")
        if kind == "walkilled":
            db.execute("PRAGMA wal_autocheckpoint = 0")
            k = [r[0] for r in db.execute("SELECT pos FROM blocks")]
            db.execute("DELETE FROM blocks WHERE pos = ?", (rng.choice(k),))
    files = tree(d)
    if kind == "hot":
        db.execute("ROLLBACK")
    db.close()
    shutil.rmtree(d)
    os.mkdir(d)
    for n, b in files.items():
        if not n.endswith("-shm") and not (kind == "wal" and n != "map.sqlite"):
            with open(d + "/" + n, "wb") as f:
                f.write(b)
    return kind == "hot" and "map.sqlite-journal" in files


def source_changed(a, b):
    """Files that SQLite needs to read a map in WAL mode may appear."""
    for n in a:
        if a[n] != b.get(n):
            return True
    wal = a["map.sqlite"][18:19] == b"\2"
    return any(n not in a and not (wal and (n.endswith("-shm") or
                                            n.endswith("-wal") and not b[n])) for n in b)


class Run:
    pass


class Session:
    def __init__(self, rec, sid, shim, rng):
        self.rec, self.sid, self.shim, self.rng = rec, sid, shim, rng
        self.dir = tempfile.mkdtemp(prefix="se-", dir=scen.scratch_root())
        self.images = self.faults = 0
        rec.scens += 1
        rec.emit({"e": "scen", "id": sid})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def prepare(self, blocks, iblocks, page_size=None, wal=False, extra=False,
                src="plain"):
        d = self.dir + "/orig"
        os.makedirs(d + "/main")
        world.write_map(d + "/main/map.sqlite", blocks, extra, page_size)
        if wal:
            db = sqlite3.connect(d + "/main/map.sqlite")
            db.execute("PRAGMA journal_mode = WAL")
            db.close()
        if iblocks is not None:
            os.makedirs(d + "/src")
            world.write_map(d + "/src/map.sqlite", iblocks)
            if src != "plain":
                disturb_source(self.rng, d + "/src", src)
        self.before = fslog.digest(d + "/main/map.sqlite")

    def fresh(self):
        w = self.dir + "/work"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(self.dir + "/orig", w)
        os.mkdir(w + "/tmp")
        self.main = w + "/main/map.sqlite"
        self.src = w + "/src/map.sqlite"
        return w

    def run(self, c, yes=True, stdin=b"", fail=None, slow=0, args=None, then=None):
        w = self.fresh()
        if then:
            then()
        log = self.dir + "/log"
        if os.path.exists(log):
            os.unlink(log)
        a = [self.main] + (args or c.args(self.src))
        if yes:
            a = ["-y"] + a
        env = dict(os.environ, LD_PRELOAD=self.shim, SHIM_DIR=w, SHIM_LOG=log,
                   SQLITE_TMPDIR=w + "/tmp", RUST_BACKTRACE="0")
        if fail:
            env["SHIM_FAIL"] = "%d:%d:%d" % fail
        if slow:
            env["SHIM_SLOW"] = str(slow)
        r = Run()
        r.hang = False
        try:
            p = subprocess.run([self.rec.tool] + a, input=stdin, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=TIMEOUT if yes else PROMPT_TIMEOUT,
                               preexec_fn=limits)
            r.out, r.err, r.rc = p.stdout, p.stderr, p.returncode
            r.hang = p.returncode == -signal.SIGXFSZ   # endless output or input
        except subprocess.TimeoutExpired as e:
            r.hang, r.rc = True, None
            r.out, r.err = e.stdout or b"", e.stderr or b""
        self.rec.runs += 1
        r.ops = fslog.parse(log, 1000000 if r.hang else -1) if os.path.exists(log) else []
        s0 = self.dir + "/orig/src"
        r.src = os.path.isdir(s0) and source_changed(tree(s0), tree(w + "/src"))
        return r

    def say(self, o):
        """Events for a piece of output or input."""
        if o.kind == "in":
            self.emit(e="reply", text=[ord(x) for x in o.data.decode("utf-8", "replace")])
            return
        t = o.data.decode("utf-8", "replace")
        for ln in t.replace("\r", "\n").split("\n"):
            if o.kind == "err":
                if "panicked" in ln:
                    self.emit(e="error")
            elif "Proceed?" in ln:
                self.emit(e="ask")
            elif ln.strip() == "info: Done.":
                self.emit(e="done")
            elif ln.startswith("error: "):
                self.emit(e="error")

    def emit(self, **k):
        self.rec.emit(k)

    def label(self, d):
        if d == "corrupt":
            return d
        if self.before == self.after:
            return "same" if d == self.before else "other"
        return ("before" if d == self.before else "after" if d == self.after
                else "other")

    def start(self, c, yes):
        self.emit(e="run", vacuum=c.cmd == "vacuum", confirm=not yes,
                  changes=self.before != self.after, cmd=c.cmd)

    def original(self):
        orig = {}
        for n in os.listdir(self.dir + "/orig/main"):
            with open(self.dir + "/orig/main/" + n, "rb") as f:
                orig[self.dir + "/work/main/" + n] = f.read()
        return orig

    # ---------------------------------------------------------- crash points
    def undisturbed(self, c, yes=True, stdin=b"", slow=5, points=None, loss=3,
                    after=None, args=None):
        """One complete run; every point of it as the point of a crash."""
        r = self.run(c, yes, stdin, slow=slow, args=args)
        orig = self.original()
        self.end = fslog.digest(self.main)
        self.after = after or self.end
        self.start(c, yes)
        disk = fslog.Disk(orig)
        judge = fslog.Judge(self.main, self.dir)
        rng = self.rng
        mod = [o.n for o in r.ops if o.path.startswith(os.path.dirname(self.main))
               and o.kind in ("write", "trunc", "sync", "unlink", "rename", "open")]
        if points is not None and len(mod) > points:
            keyp = [o.n for o in r.ops if o.kind in ("unlink", "sync", "trunc")]
            if len(keyp) > points:
                keyp = rng.sample(keyp, points)
            near = {n + d for n in keyp for d in (-1, 0, 1)}
            todo = near | set(rng.sample(mod, points))
        else:
            todo = None
        for o in r.ops:
            if o.kind in ("out", "err", "in"):
                self.say(o)
                continue
            if os.path.dirname(o.path) != os.path.dirname(self.main):
                continue
            if not disk.step(o) or (todo is not None and o.n not in todo):
                continue
            self.emit(e="kill", content=self.label(judge.content(disk.killed())))
            if any(disk.pend.values()):
                for how in ["none", "jall", "dall", "mixed", "mixed"][:loss]:
                    self.emit(e="loss", how=how,
                              content=self.label(judge.content(disk.lost(rng, how))))
        # and after everything
        for how in ("none", "mixed"):
            self.emit(e="loss", how=how,
                      content=self.label(judge.content(disk.lost(rng, how))))
        self.images += judge.opened
        self.finish(r)
        return r

    def finish(self, r):
        try:
            c = self.label(fslog.digest(self.main))
        except Exception:
            c = "corrupt"
        # a journal that was left behind is rolled back by whoever opens it
        try:
            judge = fslog.Judge(self.main, self.dir)
            d = os.path.dirname(self.main)
            files = {}
            for n in os.listdir(d):
                with open(d + "/" + n, "rb") as f:
                    files[d + "/" + n] = f.read()
            c = self.label(judge.content(files))
        except OSError:
            pass
        left = [n for n in os.listdir(os.path.dirname(self.main)) if n != "map.sqlite"]
        self.emit(e="end", content=c, hang=r.hang, srcchanged=r.src,
                  leftover=bool(left))

    # ---------------------------------------------------------------- faults
    def faulty(self, c, n, err, mode, yes=True, stdin=b""):
        r = self.run(c, yes, stdin, fail=(n, err, mode))
        if not any(o.kind == "fault" for o in r.ops):
            return None
        self.start(c, yes)
        self.faults += 1
        self.told(r)
        self.finish(r)
        return r

    def told(self, r):
        """What has been stored when it is said to be?"""
        disk = fslog.Disk(self.original())
        judge = fslog.Judge(self.main, self.dir)
        for o in r.ops:
            if o.kind in ("out", "err", "in"):
                if o.kind == "out" and b"Done" in o.data:
                    self.emit(e="kill", content=self.label(judge.content(disk.killed())))
                    self.say(o)
                    if any(disk.pend.values()):
                        self.emit(e="loss", how="none", content=self.label(
                            judge.content(disk.lost(self.rng, "none"))))
                else:
                    self.say(o)
            elif os.path.dirname(o.path) == os.path.dirname(self.main) \
                    and o.kind != "fault":
                disk.step(o)
            elif o.kind == "fault":
                self.emit(e="fault", op=o.flags, n=o.off, err=o.res)


    # --------------------------------------------- obstacles in the database
    def obstructed(self, c):
        """The map refuses to change one of its mapblocks."""
        after = self.after
        m = self.dir + "/orig/main/map.sqlite"
        with open(m, "rb") as f:
            orig = f.read()
        if orig[18:19] == b"\2":
            return
        keys = list(project.load(m)[0])
        if not keys:
            return
        self.fresh()
        ends = {}
        k = self.rng.choice(keys)
        what = self.rng.choice(["FAIL", "FAIL", "ABORT", "ROLLBACK"])
        sqls = ["CREATE TRIGGER t%s BEFORE %s ON blocks WHEN %s.pos = %d "
                "BEGIN SELECT RAISE(%s, 'no'); END" %
                (op[0], op, "OLD" if op == "DELETE" else "NEW", k, what)
                for op in ("INSERT", "UPDATE", "DELETE")]
        self.run(c)
        for p in (self.main, m):
            db = sqlite3.connect(p, isolation_level=None)
            for s in sqls:
                db.execute(s)
            db.close()
            ends[p] = fslog.digest(p)
        before = self.before
        self.before, self.after = ends[m], ends[self.main]
        r = self.run(c)
        self.start(c, True)
        self.told(r)
        self.finish(r)
        self.before, self.after = before, after
        with open(m, "wb") as f:
            f.write(orig)

    def watched(self, c):
        """Another program reads the map all the time."""
        self.start(c, True)
        held = []

        def hold():
            db = sqlite3.connect(self.main, isolation_level=None)
            db.execute("BEGIN")
            db.execute("SELECT count(*) FROM blocks").fetchone()
            held.append(db)
        r = self.run(c, then=hold)
        self.told(r)
        for db in held:
            db.execute("COMMIT")
            db.close()
        self.finish(r)


def fault_points(rng, ops, num, late=0):
    """(operation number, errno, mode), all kinds of operations; `late` more
    reads that fail while the map is being edited."""
    by = {}
    n = 0
    for o in ops:
        if o.kind in ("close", "fault"):
            continue
        n += 1
        if o.kind in ("out", "in", "err"):
            continue
        if o.kind == "lock" and o.flags == 2:
            continue
        k = (o.kind, "j" if o.path.endswith("-journal") else
             "s" if "/src/" in o.path else "t" if "/tmp" in o.path else "m")
        by.setdefault(k, []).append(n)
    out = []
    reads = [n for k, v in by.items() if k[0] == "read" for n in v]
    for n in rng.sample(reads, min(late, len(reads))):
        out.append((n, errno.EIO, 1))
    num += len(out)
    for k, v in sorted(by.items()):
        rng.shuffle(v)
    while len(out) < num and any(by.values()):
        for k in sorted(by):
            if by[k] and len(out) < num:
                n = by[k].pop()
                kind = k[0]
                if kind == "write":
                    f = rng.choice([(errno.ENOSPC, 2), (errno.ENOSPC, 3), (errno.EIO, 1),
                                    (errno.EIO, 2)])
                elif kind == "lock":
                    f = (errno.EAGAIN, 1)
                else:
                    f = (errno.EIO, rng.choice([1, 2]))
                out.append((n,) + f)
    return out


def build_world(rng, g, sc, prop=""):
    w, cmds, (blocks, _, _), isrc = scen.worlds_for(rng, g)
    c = cmds[0]
    sc.prepare(blocks, isrc and isrc[0],
               page_size=rng.choice([512, 1024, 4096, 4096]),
               wal=rng.random() < 0.15,
               src=rng.choice(["plain", "plain", "hot", "wal", "walkilled"])
               if prop == "P19" or rng.random() < 0.1 else "plain",
               extra=c.cmd == "vacuum" and rng.random() < 0.5)
    return c


def whole(cmd, rng, names):
    """A command that changes every block of a large world."""
    c = world.Cmd(cmd)
    big = ([-31000] * 3, [31000] * 3)
    if cmd in ("fill", "deleteblocks"):
        c.area = big
    if cmd == "fill":
        c.new = b"x:y"
    elif cmd == "replacenodes":
        c.node, c.new = names[0], b"x:y"
    elif cmd == "setparam2":
        c.area, c.p2 = ([-31000] * 3, [31000, 31000, 31000]), 7
    elif cmd == "clone":
        c.area, c.off = big, [16, 0, 0]
    elif cmd == "overlay":
        pass
    elif cmd == "setmetavar":
        c.key, c.value = b"k", b"w"
    elif cmd == "replaceininv":
        c.item, c.newitem = b"default:sword", b"a:b"
    return c


def many_blocks(rng, n, names, big=False, salt=0):
    out = {}
    side = 1
    while side ** 3 < n:
        side += 1
    ver = rng.choice([28, 29])
    for i in range(n):
        p = (i % side - 5, i // side % side - 5, i // (side * side) - 5)
        b = codec.Block(ver=ver)
        b.nimap = [(0, names[(i + salt) % len(names)] if i % 9 else names[0])]
        b.p2 = bytes([(i + salt) % 251]) * 4096
        b.p1 = world.rnd_bytes(rng, 4096) if big else bytes([i % 256]) * 4096
        if big:
            b.p2 = world.rnd_bytes(rng, 4096)
        b.meta = [(i % 4096, [(b"k", b"%d" % i, False)],
                   b"List main 1\nItem default:sword 2\nEndInventoryList\n" + world.END_INV)]
        b.timers = [(i % 4096, 1, 1)]
        b.objs = [(7, (p[0] * 160000, p[1] * 160000, p[2] * 160000),
                   world.lua_obj(rng, b"mobs:cow", b""))]
        out[codec.pos_key(*p)] = codec.encode(b)
    return out


def vast_blocks(n, names, salt=0):
    """So many mapblocks that only few of them can differ."""
    some = []
    for i in range(20):
        b = codec.Block(ver=28)
        b.nimap = [(0, names[0])]
        b.p2 = bytes([i + salt]) * 4096
        some.append(codec.encode(b))
    return {codec.pos_key(i % 30 - 9, i // 30 % 30 - 9, i // 900 - 9): some[i % 20]
            for i in range(n)}


def one(rec, prop, sid, seed, g, shim, tier):
    rng = random.Random(seed)
    stats = {"images": 0, "faults": 0}
    with Session(rec, sid, shim, rng) as sc:
        if g.get("special") in ("many", "spill"):
            names = [b"air", b"default:stone", b"default:dirt"]
            big = g["special"] == "spill"
            n = (350 if big else 2600) if tier == "quick" else (900 if big else 12000)
            c = whole(g["cmd"], rng, names)
            if big and c.cmd == "overlay" and rng.random() < 0.7:
                c.area = ([-31000, -31000, -31000], [31000, 31000, 3])
                if rng.random() < 0.6:
                    c.off = [16, 0, 0]
            late = 6 if big else 0
            if big and c.cmd == "setparam2":
                c.area = ([-31000, -31000, -31000], [31000, 31000, 3])
            ib = None
            if c.cmd == "overlay":
                ib = many_blocks(rng, n, names, big, 1)
            sc.prepare(many_blocks(rng, n, names, big), ib)
            points, loss, nf = (12 if tier == "quick" else 60), 3, (3 if tier == "quick" else 25)
        elif g.get("special") == "vast":
            names = [b"air", b"default:stone"]
            c = whole(g["cmd"], rng, names)
            n = 12000 if tier == "quick" else 30000
            sc.prepare(vast_blocks(n, names),
                       vast_blocks(n, names, 1) if c.cmd == "overlay" else None)
            points, loss, nf, late = 8, 2, 1, 0
        else:
            c = build_world(rng, copy.deepcopy(g), sc, prop)
            points, loss = (40 if tier == "quick" else None), 4 if tier == "quick" else 5
            nf = 14 if tier == "quick" else 60
            late = 0
        r = sc.undisturbed(c, points=points, loss=loss)
        if prop in ("P17", "P18", "P24") and rng.random() < 0.5:
            # the same with a question, refused or not
            reply = rng.choice([b"y\n", b"Y\n", b"n\n", b"", b"yes\n", b"\n"])
            sc.undisturbed(c, yes=False, stdin=reply, slow=0, points=10, loss=2,
                           after=sc.after)
        if prop in ("P17", "P24") and c.cmd != "vacuum" and sc.before != sc.after:
            for _ in range(2 if not g.get("special") else 1):
                sc.obstructed(c)
        if prop in ("P17", "P20", "P24"):
            sc.watched(c)
        for f in fault_points(rng, r.ops, nf, late):
            sc.faulty(c, *f)
        stats["images"], stats["faults"] = sc.images, sc.faults
    return stats
