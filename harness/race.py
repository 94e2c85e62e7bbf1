"""Another program writes to the map while a command runs: every interleaving
of its transaction with the file operations of the program."""
import copy
import os
import random
import select
import shutil
import sqlite3
import subprocess
import time

import codec
import fslog
import project
import scen
import session
import world
from project import skey, text


class Other:
    """The other program: one transaction on its own connection."""

    def __init__(self, path, change):
        self.path, self.change = path, change
        self.db = None
        self.state = "idle"

    def begin(self):
        try:
            self.db = sqlite3.connect(self.path, timeout=0, isolation_level=None)
            if not self.change:   # only reads
                self.db.execute("BEGIN")
                self.db.execute("SELECT count(*) FROM blocks").fetchone()
                self.state = "begun"
                return
            self.db.execute("BEGIN IMMEDIATE")
            for k, v in self.change.items():
                if v is None:
                    self.db.execute("DELETE FROM blocks WHERE pos = ?", (k,))
                else:
                    self.db.execute("INSERT OR REPLACE INTO blocks VALUES (?, ?)", (k, v))
            self.state = "begun"
        except sqlite3.OperationalError:
            self.giveup()

    def commit(self):
        if self.state != "begun":
            return
        try:
            self.db.execute("COMMIT")
            self.state = "committed"
            self.db.close()
        except sqlite3.OperationalError:
            self.giveup()

    def giveup(self):
        if self.state in ("failed", "committed"):
            return
        self.state = "failed"
        if self.db:
            try:
                self.db.execute("ROLLBACK")
            except sqlite3.OperationalError:
                pass
            self.db.close()


def race(sc, c, plan, change, onsrc, yes=True, stdin=b""):
    """plan: {operation number: 'begin' | 'commit' | 'both' | 'giveup'}"""
    w = sc.fresh()
    other = Other(sc.src if onsrc else sc.main, change)
    a_r, a_w = os.pipe()   # program -> us
    b_r, b_w = os.pipe()   # us -> program
    env = dict(os.environ, LD_PRELOAD=sc.shim, SHIM_DIR=w, SQLITE_TMPDIR=w + "/tmp",
               RUST_BACKTRACE="0", SHIM_GATE=",".join(str(n) for n in sorted(plan)),
               SHIM_GOUT=str(a_w), SHIM_GIN=str(b_r))
    args = [sc.rec.tool] + (["-y"] if yes else []) + [sc.main] + c.args(sc.src)
    with open(sc.dir + "/out", "wb") as fo, open(sc.dir + "/err", "wb") as fe:
        p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=fo, stderr=fe, env=env,
                             pass_fds=(a_w, b_r))
        os.close(a_w)
        os.close(b_r)
        p.stdin.write(stdin)
        p.stdin.close()
        steps = [plan[n] for n in sorted(plan)]
        end = time.time() + session.TIMEOUT
        hang = False
        while True:
            r, _, _ = select.select([a_r], [], [], max(0, end - time.time()))
            if not r:
                hang = True
                p.kill()
                break
            if not os.read(a_r, 1):
                break
            for s in {"both": ["begin", "commit"]}.get(steps[0], [steps[0]]):
                getattr(other, s)()
            steps = steps[1:]
            os.write(b_w, b"x")
        p.wait()
        os.close(a_r)
        os.close(b_w)
    for s in steps:
        for t in {"both": ["begin", "commit"]}.get(s, [s]):
            getattr(other, t)()
    if other.state == "begun":
        other.commit()
    sc.rec.runs += 1
    with open(sc.dir + "/out", "rb") as f:
        out = f.read().decode("utf-8", "replace")
    done = any(x.strip() == "info: Done." for x in out.replace("\r", "\n").split("\n"))
    return other, done, hang


def make_change(rng, blocks, names, avoid_bad=()):
    ch = {}
    keys = list(blocks)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(keys)
        r = rng.random()
        b = world.make_block(rng, rng.choice([25, 28, 29]), "sparse", True,
                             codec.key_pos(k), names + [b"other:node"], [], big=False,
                             ungen=False)
        if r < 0.6:
            ch[k] = codec.encode(b)
        elif r < 0.8:
            ch[k] = None
        else:
            x, y, z = codec.key_pos(k)
            k2 = codec.pos_key(min(x + 1, 1900), y, z)
            ch[k2] = codec.encode(b)
    return ch


def one(rec, prop, sid, seed, g, shim, tier):
    rng = random.Random(seed)
    with session.Session(rec, sid, shim, rng) as sc:
        g = copy.deepcopy(g)
        g["w"]["fill"] = rng.choice(["uniform", "sparse"])
        g["w"]["shape"] = rng.choice(["line", "cube2", "holes"])
        w, cmds, (blocks, _, _), isrc = scen.worlds_for(rng, g)
        c = cmds[0]
        wal = rng.random() < 0.25
        sc.prepare(blocks, isrc and isrc[0],
                   page_size=rng.choice([512, 1024, 4096, 4096]), wal=wal)
        pr = project.Projector()
        names = [b"air", b"default:stone"]
        rec.emit({"e": "world",
                  "w": {skey(k): pr.block(k, v) for k, v in blocks.items()},
                  "i": {skey(k): pr.block(k, v)
                        for k, v in (isrc[0] if isrc else {}).items()}})
        r = sc.run(c)
        ops = [o for o in r.ops if o.kind not in ("close", "fault")]
        total = len(ops)
        locks = [n + 1 for n, o in enumerate(ops) if o.kind in ("lock", "open", "unlink")]
        if not locks:
            return
        calm = [1] + [n + 1 for n, o in enumerate(ops)
                      if o.kind in ("out", "in") or
                      (o.kind == "write" and not o.path.endswith("-shm"))]
        num = 10 if tier == "quick" else 40
        for i in range(num):
            onsrc = bool(isrc) and rng.random() < 0.3
            n1 = (1 + (i * total) // num + rng.randrange(max(1, total // num))
                  if rng.random() < 0.5 else rng.choice(locks) + rng.choice([0, 1]))
            n1 = max(1, min(n1, total))
            if wal:
                # never while the program holds one of SQLite's short internal
                # locks: the other side would spin for ten seconds
                n1 = rng.choice(calm)
            if rng.random() < 0.5:
                plan = {n1: "both"}
            else:
                n2 = rng.randrange(n1 + 1, total + 20)
                if wal:
                    n2 = max(rng.choice(calm), n1 + 1)
                plan = {n1: "begin", n2: rng.choice(["commit", "commit", "giveup"])}
            change = make_change(rng, isrc[0] if onsrc else blocks, names)
            if rng.random() < 0.12 and not wal:
                change = {}
            yes = rng.random() < 0.7
            other, done, hang = race(sc, c, plan, change, onsrc, yes, b"y\n")
            after, dig = project.load(sc.main)
            delta = {skey(k): pr.block(k, v) for k, v in after.items()
                     if k not in blocks or blocks[k] != v}
            dele = [skey(k) for k in blocks if k not in after]
            srclost = False
            if isrc:
                s, _ = project.load(sc.src)
                want = dict(isrc[0])
                if onsrc and other.state == "committed":
                    for k, v in change.items():
                        want.pop(k, None)
                        if v is not None:
                            want[k] = v
                srclost = s != want
            rec.emit({"e": "race", "c": c.record(pr.names, text), "plan": str(plan),
                      "other": {skey(k): pr.block(k, v) for k, v in change.items()
                                if v is not None},
                      "odel": [skey(k) for k, v in change.items() if v is None],
                      "onsrc": onsrc, "committed": other.state == "committed",
                      "delta": delta, "del": dele, "done": done, "srclost": srclost})
            st = rec.__dict__.setdefault("races", {})
            key = "%s%s" % (other.state, "+done" if done else "+failed")
            st[key] = st.get(key, 0) + 1
