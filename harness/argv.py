"""Command lines, right and wrong, and replies to the prompt."""
import copy
import os
import random
import sqlite3

import fslog
import project
import run as runner
import scen
import world
from project import text

OPTNAME = {"--p1": "p1", "--p2": "p2", "--invert": "invert", "--offset": "offset",
           "--node": "node", "--obj": "obj", "--delete": "delete",
           "--deletemeta": "deletemeta", "--nodes": "nodes", "--items": "items"}
NAMES = [b"air", b"ignore", b"default:stone", b"a:", b":b", b":", b"0:0", b"_:_",
         b"a:B", b"A:b", b"a:b:c", b"stone", b"", b"default stone", b"default:st one",
         b"default:stone ", b" default:stone", "möd:x".encode(), "mod:é".encode(),
         b"mod:a-b", b"mod-a:b", b"Air", b"air ", b"ignore:", b"default:Stone9_",
         b"\xc2\xa0:a", b"mod:a\n", b"mod:\xd9\xa3", b"a.b:c", b"unknown"]
INTS = [b"1.5", b"x", b"", b"1e3", b"+7", b"-0", b"0x10", b"99999999999", b"1 2",
        b"2147483647", b"2147483648", b"-2147483648", b"00012", b"+", b"1_000",
        "٣".encode(), b"4294967296", b"4294967301", b" 5", b"5,"]
LIMITS = [31000, -31000, 31001, -31001, 31007, -31008, 30999, 62000, -62000, 40000]
OFFS = [62000, -62000, 62001, -62001, 61999, 100000, -31000, 31000]
BYTES = [b"256", b"-1", b"+5", b"007", b"", b"3.0", b"255", b"0", b"0256", b"257",
         b"300", b"1e2", b"x", b"511", b"00255", b" 1"]
REPLY = {"y": b"y\n", "Y": b"Y\n", "spacey": b"  y  \n", "tabY": b"\tY\t\n",
         "crlf": b"y\r\n", "n": b"n\n", "N": b"N\n", "empty": b"\n", "eof": b"",
         "yes": b"yes\n", "ye": b"ye\n", "yy": b"yy\n", "no": b"no\n", "q": b"q\n",
         "nothenY": b"n\ny\n", "unicode": "у\n".encode(), "badutf8": b"y\xff\n",
         "eofy": b"y", "zero": b"y\0\n", "Yes": b"Yes\n", "quoted": b"'y'\n",
         "fullwidth": "ｙ\n".encode()}


# mistakes that only some commands allow for
APPLIES = {"invoffset": ["overlay"], "p2value": ["setparam2"], "destout": ["clone", "overlay"],
           "dropoffset": ["clone", "overlay"], "limit2": ["clone", "overlay"],
           "same": ["replacenodes", "replaceininv"], "both": ["setmetavar", "replaceininv"],
           "neither": ["setmetavar", "replaceininv"], "emptyvalue": ["setmetavar"],
           "objitems": ["deleteobjects"]}


def suit(rng, g):
    """Let the command be one that allows for the mistake."""
    c, fit = g["cmds"][0], APPLIES.get(g["w"]["mut"])
    if not fit or c["cmd"] in fit or rng.random() < 0.2:
        return
    c["cmd"] = rng.choice(fit)
    if c["cmd"] in ("clone", "overlay"):
        c["area"], c["off"] = "in", c["cmd"] == "clone"
        for k in ("ox", "oy", "oz"):
            c[k] = {"b": rng.randrange(-1, 2), "r": rng.choice([0, 1, 5])}


def struct(args):
    """[cmd, positional, [option, values]...] from an argument list (bytes)."""
    a = [x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x for x in args]
    cmd, pos, opts = a[0].decode(), [], []
    for t in a[1:]:
        if t.decode("utf-8", "replace") in OPTNAME:
            opts.append([OPTNAME[t.decode()], []])
        elif opts:
            opts[-1][1].append(t)
        else:
            pos.append(t)
    return [cmd, pos, opts]


def flat(s):
    out = [s[0].encode()] if s[0] else []
    out += s[1]
    for o, v in s[2]:
        out += [b"--" + o.encode()] + v
    return out


def to_cmd(s):
    """The command that these arguments mean, as far as they mean one."""
    c = world.Cmd(s[0])

    def num(t):
        try:
            return max(-1000000, min(1000000, int(t)))
        except ValueError:
            return 0

    def vec(v):
        return [num(t) for t in (list(v) + [b"0"] * 3)[:3]]
    o = {}
    for k, v in s[2]:
        o.setdefault(k, v)
    p = s[1]
    if "p1" in o and "p2" in o:
        c.area = (vec(o["p1"]), vec(o["p2"]))
    c.invert = "invert" in o
    if "offset" in o:
        c.off = vec(o["offset"])
    if o.get("node"):
        c.node = o["node"][0]
    c.nodes = o.get("nodes", [])
    if o.get("obj"):
        c.obj = o["obj"][0]
    if "items" in o:
        c.items = o["items"]
    c.delete, c.delmeta = "delete" in o, "deletemeta" in o
    if c.cmd == "fill" and p:
        c.new = p[0]
    if c.cmd == "replacenodes" and len(p) > 1:
        c.node, c.new = p[0], p[1]
    if c.cmd == "replaceininv" and p:
        c.item = p[0]
        c.newitem = p[1] if len(p) > 1 else None
    if c.cmd == "setmetavar" and p:
        c.key = p[0]
        c.value = p[1] if len(p) > 1 else None
    if c.cmd == "setparam2" and p:
        c.p2 = num(p[0])
    return c


def opt(s, *names):
    return [x for x in s[2] if x[0] in names]


def mutate(rng, s, m):
    cmd, pos, opts = s
    nameable = [(pos, i) for i in range(len(pos))
                if cmd in ("fill", "replacenodes", "replaceininv")]
    nameable += [(v, i) for o, v in opts if o in ("node", "obj", "nodes", "items")
                 for i in range(len(v))]
    if m in ("name", "name2") and not nameable and cmd in (
            "deletemeta", "deletetimers", "setparam2", "deleteobjects", "setmetavar"):
        o = {"deleteobjects": "obj", "setmetavar": "nodes"}.get(cmd, "node")
        if not opt(s, o):
            opts.append([o, [b"default:stone"]])
            nameable = [(opts[-1][1], 0)]
    if m == "name" and nameable:
        l, i = rng.choice(nameable)
        l[i] = rng.choice(NAMES)
    elif m == "name2":
        o = opt(s, "nodes", "items")
        if o:
            o[0][1].append(rng.choice(NAMES))
        elif nameable:
            l, i = rng.choice(nameable)
            l[i] = rng.choice(NAMES)
    elif m in ("int", "int2"):
        o = opt(s, "p1", "p2", "offset")
        if o:
            v = rng.choice(o)[1]
            v[rng.randrange(len(v))] = rng.choice(INTS)
    elif m in ("limit", "limit2"):
        o = opt(s, "p1", "p2") if m == "limit" else opt(s, "offset")
        if not o and m == "limit2":
            o = opt(s, "p1", "p2")
        if o:
            x = rng.choice(o)
            x[1][rng.randrange(3)] = b"%d" % rng.choice(OFFS if x[0] == "offset" else LIMITS)
    elif m == "p2value":
        if cmd == "setparam2":
            pos[0] = rng.choice(BYTES)
    elif m == "droppos" and pos:
        pos.pop(rng.randrange(len(pos)))
    elif m == "extrapos":
        pos.append(b"extra:tok")
    elif m == "unknownopt":
        opts.append([rng.choice(["frobnicate", "force", "P1", "p3", "dry-run"]), []])
    elif m == "foreignopt":
        o = rng.choice(["invert", "delete", "deletemeta", "node", "obj", "offset"])
        if not opt(s, o):
            opts.append([o, {"node": [b"a:b"], "obj": [b"a:b"],
                             "offset": [b"1", b"2", b"3"]}.get(o, [])])
    elif m == "twice" and opts:
        opts.append(copy.deepcopy(rng.choice(opts)))
    elif m == "fewvalues":
        o = opt(s, "p1", "p2", "offset", "nodes")
        if o:
            x = rng.choice(o)
            opts.remove(x)
            opts.append(x)
            if x[0] == "nodes":
                x[1].clear()
            else:
                x[1].pop()
    elif m == "onecorner":
        o = opt(s, "p1", "p2")
        if o:
            opts.remove(rng.choice(o))
    elif m == "dropoffset":
        for x in opt(s, "offset"):
            opts.remove(x)
    elif m in ("invertalone", "droparea"):
        for x in opt(s, "p1", "p2"):
            opts.remove(x)
        if m == "invertalone" and not opt(s, "invert"):
            opts.append(["invert", []])
        if m == "invertalone" and rng.random() < 0.5:   # with whatever else
            for o, cs in (("nodes", ("setmetavar", "replaceininv")), ("items", ("deleteobjects",)),
                          ("node", ("deletemeta", "deletetimers", "setparam2"))):
                if cmd in cs and not opt(s, o, "obj"):
                    opts.append([o, [b"default:stone"]])
    elif m == "same":
        if cmd in ("replacenodes", "replaceininv") and len(pos) > 1:
            pos[1] = pos[0]
    elif m == "both":
        if cmd in ("setmetavar", "replaceininv") and not opt(s, "delete"):
            opts.append(["delete", []])
    elif m == "neither":
        if cmd in ("setmetavar", "replaceininv"):
            del pos[1:]
            for x in opt(s, "delete", "deletemeta"):
                opts.remove(x)
    elif m == "emptyvalue":
        if cmd == "setmetavar":
            pos[1:] = [b""]
    elif m == "utf8":
        flatlist = [(pos, i) for i in range(len(pos))] + \
            [(v, i) for o, v in opts for i in range(len(v))]
        if cmd == "overlay":
            flatlist = flatlist[1:]
        if flatlist:
            l, i = rng.choice(flatlist)
            l[i] = l[i] + b"\xff\xfe"
    elif m == "nocmd":
        s[0], s[1], s[2] = "", [], []
    elif m == "badcmd":
        s[0] = rng.choice(["fil", "Fill", "delete", "help2", "deleteblock"])
    elif m == "objitems":
        if cmd == "deleteobjects":
            for o in ("obj", "items"):
                if not opt(s, o):
                    opts.append([o, [b"a:b"]])
    elif m == "destout":
        if cmd in ("clone", "overlay"):
            for x in opt(s, "offset"):
                opts.remove(x)
            o = [b"0", b"0", b"0"]
            o[rng.randrange(3)] = b"%d" % rng.choice([-62000, 62000, 40000, -40000, 31000,
                                                     -31000, 31016, -31016])
            opts.append(["offset", o])
    elif m == "invoffset":
        if cmd == "overlay" and opt(s, "p1"):
            for x in opt(s, "offset", "invert"):
                opts.remove(x)
            opts.append(["invert", []])
            opts.append(["offset", rng.sample([b"0", b"0", rng.choice([b"0", b"1", b"-16"])], 3)])


def spoil(rng, path, kind):
    """Replace a map by something that is none."""
    if kind in ("missing", "srcmissing", "dirwithout"):
        os.unlink(path)
        return
    if kind in ("notdb", "srcnotdb"):
        with open(path, "wb") as f:
            f.write(rng.choice([world.rnd_bytes(rng, 5000), b"SQLite format 3\0" + bytes(84),
                                b"hello\n"]))
        return
    if kind == "empty":
        open(path, "wb").close()
        return
    os.unlink(path)
    db = sqlite3.connect(path)
    db.execute({"noblocks": "CREATE TABLE other (pos INT PRIMARY KEY, data BLOB)",
                "srcnoblocks": "CREATE TABLE other (pos INT PRIMARY KEY, data BLOB)",
                "wrongschema": rng.choice([
                    "CREATE TABLE blocks (pos INT, data BLOB)",
                    "CREATE TABLE blocks (data BLOB, pos INT PRIMARY KEY)",
                    "CREATE TABLE blocks (pos INT PRIMARY KEY, data TEXT)",
                    "CREATE TABLE blocks (x INT, y INT, z INT, data BLOB,"
                    " PRIMARY KEY (x, z, y))",
                    "CREATE TABLE blocks (pos INT PRIMARY KEY)"])}[kind])
    db.commit()
    db.close()


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            out[os.path.join(d, n)] = None
        for n in fs:
            with open(os.path.join(d, n), "rb") as f:
                out[os.path.join(d, n)] = f.read()
    return out


def one(rec, prop, sid, seed, g):
    rng = random.Random(seed)
    g = copy.deepcopy(g)
    g["w"]["fill"] = rng.choice(["uniform", "sparse"])
    g["w"]["shape"] = rng.choice(["one", "line", "cube2"])
    w = g["w"]
    suit(rng, g)
    if w["mut"] != "none" and rng.random() < 0.7:   # nothing else stands in the way
        w["yes"], w["mapst"] = rng.choice(["first", "last", "long"]), "ok"
    wd, cmds, (blocks, _, _), isrc = scen.worlds_for(rng, g)
    with scen.Scenario(rec, sid) as sc:
        d = sc.dir + "/world"
        os.makedirs(d)
        main = d + "/map.sqlite"
        world.write_map(main, blocks)
        src = sc.dir + "/src/map.sqlite"
        os.makedirs(sc.dir + "/src")
        world.write_map(src, isrc[0] if isrc else blocks)
        s = struct(cmds[0].args(src))
        mutate(rng, s, w["mut"])
        st = w["mapst"]
        if st.startswith("src") and s[0] != "overlay":
            st = "ok"
        if st != "ok":
            spoil(rng, src if st.startswith("src") else main, st)
        path = d if w["yes"] == "ask2" or st == "dirwithout" else main
        ask = w["yes"] in ("ask", "ask2")
        reply = REPLY[w["reply"]]
        toks = flat(s)

        def invoke(p, ask):
            a = [p.encode()] + toks
            if not ask:
                a = {"first": [b"-y"] + a, "long": [b"--yes"] + a}.get(w["yes"], a + [b"-y"])
            return runner.run(rec.tool, a, reply, timeout=60)
        before = snapshot(sc.dir)
        r = invoke(path, ask)
        rec.runs += 1
        after = snapshot(sc.dir)
        done = runner.parse(s[0], r.out)["done"]
        unlike = False
        if ask and done and st == "ok":
            # the same without the question
            got = fslog.digest(main)
            with open(main, "wb") as f:
                f.write(before[main])
            w["yes"] = "first"
            invoke(path, False)
            rec.runs += 1
            unlike = fslog.digest(main) != got
        try:
            b"".join(toks).decode("utf-8")
            utf8 = True
        except UnicodeDecodeError:
            utf8 = False

        def cps(t):
            return [ord(x) for x in t.decode("utf-8", "replace")]
        rec.emit({"e": "argv", "mut": w["mut"], "map": st == "ok",
                  "argv": [t.decode("utf-8", "replace") for t in toks],
                  "a": {"cmd": s[0], "pos": [cps(t) for t in s[1]], "utf8": utf8,
                        "opts": [{"o": o, "v": [cps(t) for t in v]} for o, v in s[2]]},
                  "c": to_cmd(s).record(project.Names(), text),
                  "ask": ask, "reply": [ord(x) for x in reply.decode("utf-8", "replace")],
                  "done": done, "files": before != after, "unlike": unlike})
