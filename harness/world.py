"""Makes concrete worlds and commands of the scenarios from spec/Gen.tla."""
import random
import sqlite3
import struct

import codec
from codec import Block, NODES

LIMIT = 31000
PALETTE = [b"air", b"default:stone", b"default:stonebrick", b"default:dirt",
           b"mod_a:x1", b"default:ston"]
RARE = b"my_mod:Rare_Node"
UNKNOWN = b"unknown_mod:nothing"
ABSENT = b"default:absent"
# Names whose lengths do not fit into a byte, alike in the first 255 bytes.
LONGS = [b"long:" + b"n" * k for k in (250, 251, 252, 300, 507)] + [b"long:" + b"n" * 60000]
ODD = [b"odd:\xff\xfe", "odd:\u00fc".encode(), b"odd: space", b"odd:\x00nul", b"Default:stone",
       b"", b"default:stone\n"]
KEYS = [b"infotext", b"owner", b"formspec", b"k", b"own", b"infotext2"]
ITEMS = [b"default:sword", b"default:stone", b"mod_a:x1", b"default:sword2",
         b"tools:pick"]
LONGITEM = b"tools:" + b"p" * 260
ENDITEM = b"mod_a:EndInventory"
END_INV = b"EndInventory\n"


def rnd_bytes(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "big") if n else b""


# --------------------------------------------------------------- content
def node_array(rng, kind, ids):
    """A list of 4096 IDs from `ids`."""
    if kind == "mixed":
        kind = rng.choice(["uniform", "sparse", "sparse", "planes", "dense"])
    d = rng.choice(ids)
    if kind == "uniform" or len(ids) == 1:
        return [d] * NODES
    a = [d] * NODES
    if kind == "sparse":
        for _ in range(rng.choice([1, 3, 12, 40])):
            a[pick_index(rng)] = rng.choice(ids)
    elif kind == "planes":
        e = rng.choice(ids)
        for i in range(NODES):
            x, y, z = i % 16, i // 16 % 16, i // 256
            if (x in (0, 15)) + (y in (0, 15)) + (z in (0, 15)) >= 2:
                a[i] = e
    elif kind == "ids":
        a = [ids[i % len(ids)] for i in range(NODES)]
        rng.shuffle(a)
    else:
        if rng.random() < 0.5:
            a = rng.choices(ids, k=NODES)
        else:  # rows and layers
            r = rng.choices(ids, k=256)
            a = [r[i // 16] for i in range(NODES)]
    return a


def pick_index(rng):
    def co():
        return rng.choice([0, 15, 0, 15, 1, 7, 8, 14, rng.randrange(16)])
    return co() + 16 * co() + 256 * co()


def byte_array(rng, kind):
    k = rng.random()
    if k < 0.5 or kind == "uniform":
        return bytes([rng.choice([0, 0, 15, 255, rng.randrange(256)])]) * NODES
    a = bytearray([rng.randrange(256)]) * NODES
    if k < 0.85 or kind in ("sparse", "planes"):
        for _ in range(rng.choice([1, 5, 40])):
            a[pick_index(rng)] = rng.randrange(256)
        return bytes(a)
    return rnd_bytes(rng, NODES)


def nimap_and_nodes(rng, kind, names):
    """(nimap, nodes) with varied assignments of IDs to names."""
    names = list(names)
    if kind == "ids":
        n = rng.choice([200, 256, 257, 300, 700, 1500, 4096])
        extra = [b"many:n%d" % i for i in range(n)]
        names = (names + extra)[:n]
    rng.shuffle(names)
    style = rng.random()
    if style < 0.6 or len(names) > 4000:
        ids = list(range(len(names)))
    elif style < 0.8:  # gaps
        top = max(len(names) * 2, 12)
        ids = sorted(rng.sample(range(top), len(names)))
        if rng.random() < 0.5 and len(names) < 50:
            ids[-1] = rng.choice([255, 256, 1000, 4094, 4096, 5000, 7280])
            ids = sorted(set(ids))
            names = names[:len(ids)]
    else:
        ids = list(range(len(names)))
        rng.shuffle(ids)
    use = ids
    if style > 0.35 and len(ids) > 1 and kind != "ids" and rng.random() < 0.6:
        use = rng.sample(ids, rng.randrange(1, len(ids)))
    if kind == "ids" and len(ids) == 4096:
        use = ids
    nodes = node_array(rng, kind, use)
    nimap = list(zip(ids, names))
    if rng.random() < 0.5:
        # the game only stores names that occur
        u = set(nodes)
        nimap = [p for p in nimap if p[0] in u]
    if rng.random() < 0.3:
        rng.shuffle(nimap)
    return nimap, nodes


def item_line(rng, item=None):
    it = item or (rng.choice([LONGITEM, ENDITEM, b"mod_a:EndInventoryList"])
                  if rng.random() < 0.05 else rng.choice(ITEMS))
    cnt = rng.choice([b"1", b"2", b"99", b"65535"])
    wear = rng.choice([b"0", b"0", b"1", b"300", b"32768"])
    meta = rng.choice([b"\x01color\x02#FF00FF\x03", b"\x01a b\x02c  d \x03",
                       b"\"text with spaces\"", b"EndInventory",
                       b"\x01n\x02" + b"x" * 300 + b"\x03",
                       b"\x01description\x02Item default:sword 5\x03",
                       b"\x01u\x02\xc3\xa9\xff\x03"])
    form = rng.randrange(6)
    parts = [b"Item", it]
    if form >= 1:
        parts.append(cnt)
    if form >= 2:
        parts.append(wear)
    if form >= 3:
        parts.append(meta)
    return b" ".join(parts)


def inventory(rng, big=False):
    k = rng.random()
    if k < 0.25:
        return END_INV
    out = []
    for li in range(rng.choice([1, 1, 2, 3])):
        n = rng.randrange(0, 7) if not big or rng.random() < 0.9 else 300
        out.append(b"List %s %d" % (rng.choice([b"main", b"src", b"default:sword"]), n))
        if rng.random() < 0.8:
            out.append(b"Width %d" % rng.choice([0, 1, 8]))
        for _ in range(n):
            r = rng.random()
            if r < 0.25:
                out.append(b"Empty")
            elif r < 0.3:
                out.append(b"Keep")
            else:
                out.append(item_line(rng))
        out.append(b"EndInventoryList")
    return b"\n".join(out) + b"\n" + END_INV


def meta_value(rng, big):
    r = rng.random()
    if big == "huge" and r < 0.5:
        n = rng.choice([262144, 400000, 1 << 20])
        return rnd_bytes(rng, n) if rng.random() < 0.3 else b"0123456789abcdef" * (n // 16)
    if big and r < 0.25:
        n = rng.choice([65535, 65536, 70000, 131072, 140000, 300000])
        return rnd_bytes(rng, n) if rng.random() < 0.7 else b"z" * n
    return rng.choice([b"", b"a", b"player one", b"return {1}", b"x" * 40,
                       rnd_bytes(rng, 20), b"line\nline\n", b"EndInventory",
                       b"\x00\x00", "süß".encode(), b"value"])


def metadata(rng, ver, big):
    n = rng.choice([0, 1, 2, 4, 9])
    if big == "huge":
        n = rng.choice([1, 3])
    ps = [pick_index(rng) for _ in range(n)]
    if big and rng.random() < 0.15:
        n = rng.choice([255, 256, 300, 700, 1200])
        ps = rng.sample(range(NODES), n)
    out = {}
    for q in ps:
        vs = {}
        if big and n < 20 and rng.random() < 0.05:
            vs = {b"k%d" % i: (b"v%d" % i, False) for i in range(rng.choice([256, 300]))}
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            vs[rng.choice(KEYS)] = (meta_value(rng, big if n < 20 else False),
                                    ver >= 28 and rng.random() < 0.35)
        if big and rng.random() < 0.1:
            vs[b"K" * rng.choice([255, 256, 65535])] = (b"v", False)
        inv = inventory(rng, big and n < 20)
        out[q] = ([(k, v, p) for k, (v, p) in vs.items()], inv)
    return [(i, v, inv) for i, (v, inv) in out.items()]


def lua_obj(rng, name=None, data=None):
    if name is None and rng.random() < 0.03:
        name = b"mobs:" + b"m" * 255
    name = name or rng.choice([b"__builtin:item", b"mobs:cow", b"mobs:cow2",
                               b"boats:boat", b"__builtin:falling_node"])
    if data is None:
        it = rng.choice(ITEMS)
        cnt = rng.choice([b"", b" 1", b" 99", b" 3 200", b" 2 0 \\\"m x\\\""])
        junk = b""
        if rng.random() < 0.06:   # longer than a byte, 12 bits, 15 bits can say
            junk = b"x" * rng.choice([230, 300, 4100, 6000, 33000, 64000])
        data = rng.choice([
            b'return {["description"] = "%s", ["itemstring"] = "%s%s"}' % (junk, it, cnt)
        ] * 3) if junk else rng.choice([
            b'return {["age"] = 0.91899997927248478, ["itemstring"] = "%s%s", '
            b'["dropped_by"] = "singleplayer"}' % (it, cnt),
            b'return {["itemstring"] = "%s%s"}' % (it, cnt),
            b'return {age=1.5,itemstring="%s%s",dropped_by="x"}' % (it, cnt),
            b'return {itemstring="%s%s"}' % (it, cnt),
            it + (cnt if b"\\" not in cnt else b""),
            b"return {}", b"", b'return {itemstring="",age=3}',
            b'return {["itemstring"] = "", ["age"] = 100}'])
    tail = rng.choice([
        b"\x00\x01" + bytes(12) + bytes(4), b"\x00\x05" + bytes(16),
        b"\x00\x01" + bytes(12) + bytes(4) + b"\x01" + bytes(8)])
    return b"\x01" + codec.s16(name) + codec.s32(data) + tail


def objects(rng, p, corners, big):
    out = []
    n = rng.choice([0, 1, 3, 8])
    if big and rng.random() < 0.1:
        n = rng.choice([255, 256, 300, 300, 1100, 2500])
    for _ in range(n):
        pos = []
        for j in range(3):
            base = p[j] * 16
            q = base + rng.choice([0, 15, rng.randrange(16)])
            cs = [c[j] for c in corners if base <= c[j] <= base + 15]
            if cs and rng.random() < 0.6:
                q = rng.choice(cs)
            pos.append(q * 10000 + rng.choice(
                [0, 0, 1234, -4999, 4999, -5000, 5000, -5001, 5001, -1, 1]))
        if rng.random() < 0.04:
            pos[rng.randrange(3)] = rng.choice([2147483647, -2147483647,
                                                2147480000, -2147480000])
        pos = tuple(max(-2147483647, min(2147483647, v)) for v in pos)
        r = rng.random()
        if r < 0.7:
            out.append((7, pos, lua_obj(rng)))
        elif r < 0.78:
            out.append((7, pos, b"\x00" + lua_obj(rng)[1:]))
        elif r < 0.84:
            d = lua_obj(rng)
            out.append((7, pos, d[:rng.randrange(len(d))]))
        elif r < 0.92:
            out.append((rng.choice([1, 2, 6, 8]), pos, lua_obj(rng)))
        else:
            out.append((rng.choice([7, 3]), pos, rnd_bytes(rng, rng.randrange(40))))
    return out


def timers(rng, big=False):
    ps = {pick_index(rng) for _ in range(rng.choice([0, 1, 3, 10]))}
    if big and rng.random() < 0.1:
        ps = rng.sample(range(NODES), rng.choice([255, 256, 300, 700, 4096]))
    return [(p, rng.choice([0, 1000, 2 ** 32 - 1, rng.getrandbits(32)]),
             rng.choice([0, 500, 2 ** 32 - 1, rng.getrandbits(32)])) for p in ps]


def version_of(rng, vers):
    return int(vers) if vers != "mix" else rng.choice([25, 27, 28, 29])


def make_block(rng, ver, fill, rich, p, names, corners, big=False, ungen=False):
    b = Block(ver=ver)
    b.nimap, b.nodes = nimap_and_nodes(rng, fill, names)
    b.p1, b.p2 = byte_array(rng, fill), byte_array(rng, fill)
    b.flags = rng.choice([0, 0, 2, 3, 1, 4, 7, 0x10 | 3, 0xF7 & rng.randrange(256)])
    b.flags = b.flags & ~8 | (8 if ungen else 0)
    b.lit = rng.choice([0xFFFF, 0, rng.randrange(65536)]) if ver >= 27 else 0xFFFF
    b.ts = rng.choice([0, 0xFFFFFFFF, 12345, rng.getrandbits(32)])
    if rich:
        mv = 2 if ver >= 28 else 1
        if rng.random() < 0.12:   # the list has a version of its own
            b.meta_ver = mv = 3 - mv
        b.meta = metadata(rng, 28 if mv == 2 else 27, big)
        b.objs = objects(rng, p, corners, big)
        b.timers = timers(rng, big)
        # metadata and timers mostly at nodes that differ from the rest
        if rng.random() < 0.5 and len(b.nimap) > 1:
            ids = [i for i, _ in b.nimap]
            for m in b.meta[:40]:
                b.nodes[m[0]] = rng.choice(ids)
            for t in b.timers:
                b.nodes[t[0]] = rng.choice(ids)
    return b


def edge_index(rng, p, corners):
    """A node at an edge of the mapblock or of an area."""
    i = 0
    for j in range(3):
        vs = [0, 15, 15]
        for c in corners:
            vs += [v for v in (c[j] - p[j] * 16 + d for d in (-1, 0, 0, 1)) if 0 <= v < 16] * 2
        i += rng.choice(vs) * 16 ** j
    return i


def lonely(rng, b, p, names, corners):
    """Let a node name occur at one or two nodes only."""
    if len(b.nimap) < 2:
        return
    ids = dict((n, i) for i, n in b.nimap)
    names = [n for n in names if n in ids] or list(ids)
    t = ids[rng.choice(names)]
    o = rng.choice([i for i in ids.values() if i != t])
    b.nodes = [o if n == t else n for n in b.nodes]
    for _ in range(rng.choice([1, 1, 1, 2])):
        b.nodes[rng.choice([NODES - 1, 0] + [edge_index(rng, p, corners)] * 4)] = t


def almost(rng, b, cmds):
    """Let the mapblock be almost what a command would make of it."""
    for c in cmds:
        keep = {rng.randrange(NODES) for _ in range(rng.choice([1, 2, 30]))} - {0, NODES - 1}
        if c.p2 is not None:
            b.p2 = bytes(v if i in keep else c.p2 for i, v in enumerate(b.p2))
        ids = [i for i, n in b.nimap if n == c.new]
        if c.new is not None and ids:
            b.nodes = [v if i in keep else ids[0] for i, v in enumerate(b.nodes)]


BAD_KINDS = ["ver24", "ver30", "ver0", "ver255", "empty", "one", "trunc", "null",
             "garbage", "cw", "pw", "nimapver", "objver", "metaver", "timerlen",
             "noname", "metapos", "timerpos", "cuthead", "idrange", "badz",
             "lie", "lie", "lie", "lie", "inner", "inner", "noinv", "surplus", "surplus"]
LIES = ["metas", "vars", "key", "value", "objs", "obj", "timers", "names", "name"]


def damage(rng, raw):
    """A payload with some bytes changed, removed or added."""
    k, i = rng.randrange(4), rng.randrange(len(raw))
    if k == 0:
        return raw[:i]
    if k == 1:
        return raw[:i] + rnd_bytes(rng, rng.randrange(1, 5)) + raw[i:]
    n = rng.randrange(1, 5)
    if k == 2:
        return raw[:i] + raw[i + n:]
    return raw[:i] + rng.choice([b"\xff" * n, rnd_bytes(rng, n)]) + raw[i + n:]


def bad_data(rng, kind, p, names, ver=None):
    """Bytes of an invalid or unsupported mapblock (None: NULL)."""
    ver = ver or rng.choice([25, 27, 28, 29])
    b = make_block(rng, ver, "sparse", True, p, names, [])
    if kind == "null":
        return None
    if kind == "empty":
        return b""
    if kind == "one":
        return bytes([ver])
    if kind == "garbage":
        return bytes([rng.choice([25, 28, 29, rng.randrange(256)])]) + \
            rnd_bytes(rng, rng.randrange(1, 200))
    if kind == "cw":
        b.cw = 1
    elif kind == "pw":
        b.pw = 3
    elif kind == "nimapver":
        b.nimap_ver = 1
    elif kind == "objver":
        b.obj_ver = 1
    elif kind == "metaver":
        b.meta_ver = 3
    elif kind == "timerlen":
        b.timer_len = 12
    elif kind == "noname":
        top = max(i for i, _ in b.nimap)
        b.nodes[pick_index(rng)] = rng.choice([top + 1, 5000, 65535])
    elif kind == "idrange":
        b.nimap = b.nimap + [(65535, b"far:away")]
    elif kind == "metapos":
        b.meta = b.meta + [(rng.choice([4096, 65535]), [(b"k", b"v", False)], END_INV)]
    elif kind == "timerpos":
        b.timers = b.timers + [(rng.choice([4096, 65535]), 1, 1)]
    elif kind == "lie":
        for what in rng.sample(LIES, rng.choice([1, 1, 1, 2])):
            b.lie[what] = rng.choice([0xFFFF, 0x8000, rng.randrange(300, 65536)]
                                     + [0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 1 << 24, 1 << 28]
                                     * (what in ("vars", "value")))
    elif kind == "inner":
        n = [rng.randrange(2)]

        def hit(raw):
            n[0] -= 1
            return damage(rng, raw) if n[0] < 0 or ver == 29 else raw
        b.mut = hit
    elif kind == "surplus":   # one of the two compressed parts is too long
        n = [rng.randrange(2)]
        b.ver = ver = rng.choice([25, 26, 27, 28])

        def longer(raw):
            n[0] -= 1
            return raw + rng.choice([bytes(9), rnd_bytes(rng, rng.choice([1, 2, 30]))]) if n[0] == -1 else raw
        b.mut = longer
    elif kind == "noinv" and b.meta:
        j = rng.randrange(len(b.meta))
        m = b.meta[j]
        b.meta[j] = (m[0], m[1], m[2][:-rng.choice([1, 2, 13])])
    d = codec.encode(b)
    if kind.startswith("ver"):
        return bytes([int(kind[3:])]) + d[1:]
    if kind == "trunc":
        return d[:rng.randrange(2, len(d))]
    if kind == "cuthead":
        return d[:rng.randrange(2, min(len(d), 14))]
    if kind == "badz":
        i = rng.randrange(6, 10)
        return d[:i] + b"\xff\x00\xff\xff\xff" + d[i + 5:]
    return d


def is_bad(data, key):
    """Do we and the specification agree that this is a bad block?"""
    if data is None:
        return True
    try:
        wf = codec.consistent(codec.decode(data))
    except codec.BadBlock as e:
        return "trailing" not in str(e)
    return bool({"node-without-name", "position-range", "id-range"} & set(wf))


# --------------------------------------------------------------- geometry
def base_pos(rng, place):
    def one(pl):
        return {"origin": rng.choice([-2, -1, 0]), "far": rng.choice([5, 300, 1200]),
                "neg": -rng.choice([4, 400, 1500]), "edgehi": 1935, "edgelo": -1938,
                }[pl]
    if place == "mixed":
        return [one(rng.choice(["origin", "far", "neg", "edgehi", "edgelo"]))
                for _ in range(3)]
    return [one(place) for _ in range(3)]


def extent(rng, shape, base):
    """Distances between the blocks of a large world."""
    if shape == "alias":   # equal low bits of the keys
        e = [0, rng.choice([0, 16, 16]), rng.choice([0, 1, 16, 256, 256, 256])]
        if e == [0, 0, 0]:
            e[2] = 256
    elif shape == "many":
        e = list(rng.choice([(299, 0, 0), (0, 299, 0), (0, 0, 299), (17, 16, 0), (6, 5, 7)]))
        rng.shuffle(e)
    else:
        return [0, 0, 0]
    for j in range(3):   # stay within the map
        if abs(base[j] + e[j]) > 1930:
            base[j] = max(-1930, min(1930 - e[j], base[j] - e[j]))
    return e


def positions(rng, shape, base, ext):
    bx, by, bz = base
    if shape == "alias":
        return list({(bx + i, by + j * ext[1], bz + k * ext[2])
                     for i in (0, 1) for j in (0, 1) for k in (0, 1, 2)
                     if abs(bz + k * ext[2]) < 2047})
    if shape == "many":
        return [(bx + i, by + j, bz + k) for i in range(ext[0] + 1)
                for j in range(ext[1] + 1) for k in range(ext[2] + 1)]
    if shape == "one":
        return [(bx, by, bz)]
    if shape == "line":
        ax = rng.randrange(3)
        return [tuple(base[j] + (i if j == ax else 0) for j in range(3))
                for i in range(4)]
    cube2 = [(bx + i, by + j, bz + k) for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    if shape == "cube2":
        return cube2
    cube3 = [(bx + i, by + j, bz + k) for i in range(3) for j in range(3)
             for k in range(3)]
    if shape == "cube3":
        return rng.sample(cube3, 18)
    if shape == "holes":
        return rng.sample(cube3, rng.randrange(3, 10))
    return list({tuple(max(-2047, min(2047, b + rng.choice([0, 0, 1, 2, -1, 7, -300])))
                       for b in base) for _ in range(6)})


def clamp(v):
    return max(-LIMIT, min(LIMIT, v))


def area_of(rng, cmd, base, ext=(0, 0, 0)):
    a, b = [], []
    for j, ax in enumerate("xyz"):
        s = cmd[ax]
        lo = (base[j] + s["b"]) * 16 + s["lo"]
        hi = (base[j] + s["b"] + s["n"]) * 16 + s["hi"]
        lo, hi = min(lo, hi), max(lo, hi)
        if ext[j] and rng.random() < 0.8:
            hi += ext[j] * 16
        lo, hi = clamp(lo), clamp(hi)
        if s["swap"]:
            lo, hi = hi, lo
        a.append(lo)
        b.append(hi)
    r = rng.random()
    if r < 0.03:  # enormous
        a, b = [-LIMIT] * 3, [LIMIT] * 3
    elif r < 0.06:  # a single node
        b = list(a)
    return a, b


def offset_of(cmd):
    return [cmd[k]["b"] * 16 + cmd[k]["r"] for k in ("ox", "oy", "oz")]


# --------------------------------------------------------------- commands
class Cmd:
    """One command: argument list and record for the specification."""

    def __init__(self, cmd):
        self.cmd = cmd
        self.area = None          # (a, b)
        self.invert = False
        self.off = None
        self.node = None
        self.nodes = []
        self.new = None
        self.obj = None
        self.items = None         # None or list
        self.item = None
        self.newitem = None
        self.delete = False
        self.delmeta = False
        self.key = None
        self.value = None
        self.p2 = None

    def args(self, imap=None):
        c = self.cmd
        pos, opt = [], []
        if c == "overlay":
            pos.append(imap)
        if c == "fill":
            pos.append(self.new)
        if c == "replacenodes":
            pos += [self.node, self.new]
        if c == "setparam2":
            pos.append(str(self.p2).encode())
        if c == "setmetavar":
            pos.append(self.key)
            if self.value is not None:
                pos.append(self.value)
        if c == "replaceininv":
            pos.append(self.item)
            if self.newitem is not None:
                pos.append(self.newitem)
        if self.area:
            opt += ["--p1"] + [str(v) for v in self.area[0]]
            opt += ["--p2"] + [str(v) for v in self.area[1]]
        if self.invert:
            opt.append("--invert")
        if self.off is not None:
            opt += ["--offset"] + [str(v) for v in self.off]
        if self.node is not None and c not in ("replacenodes",):
            opt += ["--node", self.node]
        if self.obj is not None:
            opt += ["--obj", self.obj]
        if self.delete:
            opt.append("--delete")
        if self.delmeta:
            opt.append("--deletemeta")
        if self.nodes:
            opt += ["--nodes"] + self.nodes
        if self.items is not None:
            opt += ["--items"] + self.items
        out = [c] + pos + opt
        return [a.decode("utf-8", "surrogateescape") if isinstance(a, bytes) else a
                for a in out]

    def record(self, names, text):
        def nm(n):
            return -1 if n is None else names(n)
        return {
            "cmd": self.cmd, "area": self.area is not None,
            "a": list(self.area[0]) if self.area else [0, 0, 0],
            "b": list(self.area[1]) if self.area else [0, 0, 0],
            "invert": self.invert, "hasoff": self.off is not None,
            "off": list(self.off) if self.off is not None else [0, 0, 0],
            "node": nm(self.node), "nodes": [names(n) for n in self.nodes],
            "new": nm(self.new),
            "hasobj": self.obj is not None,
            "obj": text(self.obj) if self.obj is not None else "",
            "hasitems": self.items is not None,
            "items": [text(i) for i in self.items or []],
            "item": text(self.item) if self.item is not None else "",
            "newitem": text(self.newitem) if self.newitem is not None else "",
            "delete": self.delete, "delmeta": self.delmeta,
            "key": text(self.key) if self.key is not None else "",
            "hasvalue": self.value is not None,
            "value": text(self.value) if self.value is not None else "",
            "p2": self.p2 if self.p2 is not None else 0}


def make_cmd(rng, s, base, names, ext=(0, 0, 0)):
    """Command record from scenario step s; names: palette of the world."""
    c = Cmd(s["cmd"])
    k = c.cmd
    if s["area"] != "no":
        c.area = area_of(rng, s, base, ext)
        c.invert = s["area"] == "inv"
    if s.get("off"):
        c.off = offset_of(s)
        if max(ext) and max(ext) not in (16, 256) and rng.random() < 0.9:
            c.off = [o & -16 for o in c.off]   # many blocks: whole ones
    v, f = s["variant"], s["filter"]
    names = [n for n in names if n not in ODD]
    common = names[rng.randrange(len(names))]
    pick = {"none": common, "common": common, "rare": RARE, "absent": ABSENT,
            "unknown": UNKNOWN,
            "long": rng.choice([n for n in names if n in LONGS] or LONGS), "many": b"many:n%d" % rng.choice([0, 5, 190])}[f]
    others = [n for n in names + [ABSENT, b"new:node"] if n != pick]
    if k == "fill":
        c.new = pick
    elif k == "replacenodes":
        c.node, c.new = pick, rng.choice(others)
    elif k == "setparam2":
        c.p2 = rng.choice([0, 1, 15, 127, 128, 255])
        if f != "none" or c.area is None:
            c.node = pick
    elif k in ("deletemeta", "deletetimers"):
        if f != "none":
            c.node = pick
    elif k == "deleteobjects":
        if v in (1, 2, 3):
            c.obj = rng.choice([b"__builtin:item", b"mobs:cow", b"boats:boat",
                                b"mobs:none", b"__builtin:falling_node"])
        elif v in (4, 5):
            c.items = []
        elif v in (6, 7):
            c.items = rng.sample(ITEMS, rng.choice([1, 2])) + \
                ([UNKNOWN] if rng.random() < 0.3 else [])
    elif k == "setmetavar":
        c.key = rng.choice(KEYS + [b"nosuchkey"])
        if rng.random() < 0.03:
            c.key = b"K" * rng.choice([255, 256])
        if v < 3:
            c.delete = True
        else:
            c.value = rng.choice([b"v", b"new value", b"w" * 60, "übel".encode(),
                                  b"player one", b"multi\nline"])
        c.nodes = filter_nodes(rng, f, pick, others)
    elif k == "replaceininv":
        c.item = rng.choice(ITEMS[:3]) if rng.random() < 0.96 else rng.choice([LONGITEM, ENDITEM])
        if v < 2:
            c.delete = True
            c.delmeta = v == 1 and rng.random() < 0.5
        elif v < 4:
            c.delmeta = True
        else:
            c.newitem = rng.choice([b"new:item", b"default:sword2", b"tools:pick"])
            c.delmeta = v >= 6
            if v == 7 and rng.random() < 0.3:
                c.newitem = c.item
        c.nodes = filter_nodes(rng, f, pick, others)
    return c


def filter_nodes(rng, f, pick, others):
    if f == "none":
        return []
    if f in ("common", "absent", "unknown"):
        return [pick]
    return [pick] + rng.sample(others, min(len(others), rng.choice([1, 2])))


# --------------------------------------------------------------- worlds
def write_map(path, blocks, extra=False, page_size=None):
    db = sqlite3.connect(path)
    if page_size:
        db.execute("PRAGMA page_size = %d" % page_size)
    db.execute("PRAGMA synchronous = OFF")
    db.execute("PRAGMA journal_mode = MEMORY")
    db.execute("CREATE TABLE `blocks` (\n\t`pos` INT PRIMARY KEY,\n\t`data` BLOB\n)")
    if extra:
        db.execute("CREATE TABLE other (a INTEGER PRIMARY KEY, b TEXT)")
        db.executemany("INSERT INTO other VALUES (?, ?)",
                       [(i, "row %d" % i) for i in range(5)])
        db.execute("CREATE INDEX other_b ON other (b)")
        db.execute("PRAGMA user_version = 7")
    db.executemany("INSERT INTO blocks VALUES (?, ?)", list(blocks.items()))
    db.commit()
    db.execute("PRAGMA journal_mode = DELETE")
    db.close()


TABLES = {
    # as the game and its tools have made them
    "plain": "CREATE TABLE `blocks` (\n\t`pos` INT PRIMARY KEY,\n\t`data` BLOB\n)",
    "worldgame": 'CREATE TABLE IF NOT EXISTS "blocks" (pos INT NOT NULL PRIMARY KEY, data BLOB NOT NULL)',
    "norowid": "CREATE TABLE blocks (`pos` INT PRIMARY KEY, `data` BLOB) WITHOUT ROWID",
    "integers": "CREATE TABLE [blocks] (pos INT NOT NULL, data BLOB, PRIMARY KEY (pos DESC))"}


def write_layout(rng, path, blocks, y):
    """The same map, held by the database in the way y."""
    db = sqlite3.connect(path, isolation_level=None)
    x = db.execute
    x("PRAGMA encoding = '%s'" % y["enc"])
    if y["page"]:
        x("PRAGMA page_size = %d" % y["page"])
    x("PRAGMA auto_vacuum = %s" % y["vac"])
    x("PRAGMA synchronous = OFF")
    x("BEGIN")
    if y["rest"] == "first":
        x("CREATE TABLE aaa (pos INT PRIMARY KEY, data BLOB)")
        x("INSERT INTO aaa VALUES (?, ?)", (0, b"not a mapblock"))
    x(TABLES[y["table"]])
    if y["rest"] in ("tables", "first"):
        x("CREATE TABLE blocks2 (pos INT PRIMARY KEY, data BLOB)")
        for k, v in list(blocks.items())[:3]:
            x("INSERT INTO blocks2 VALUES (?, ?)", (k, v))
        x("CREATE INDEX other_b ON blocks2 (data)")
        x("PRAGMA user_version = %d" % rng.choice([1, 7, 2 ** 31 - 1]))
        x("PRAGMA application_id = %d" % rng.randrange(1, 2 ** 31))
    if y["rest"] == "views":
        x("CREATE VIEW few AS SELECT pos FROM blocks WHERE pos > 0")
        x("CREATE INDEX lens ON blocks (length(data))")
        x("CREATE TABLE log (n INTEGER PRIMARY KEY AUTOINCREMENT, t TEXT)")
        x("INSERT INTO log (t) VALUES ('a'), ('b')")
    keys = sorted(blocks)
    if y["order"] == "reversed":
        keys.reverse()
    elif y["order"] != "sorted":
        rng.shuffle(keys)
    filler = [] if y["free"] == "none" else [
        k for k in (rng.randrange(-2 ** 35, 2 ** 35)
                    for _ in range(5 if y["free"] == "few" else 60)) if k not in blocks]
    todo = [(k, blocks[k]) for k in keys]
    for k in filler:
        todo.insert(rng.randrange(len(todo) + 1),
                    (k, rnd_bytes(rng, rng.choice([10, 3000, 20000]))))
    rowid = 1
    for k, v in todo:
        if y["table"] == "norowid":
            x("INSERT INTO blocks VALUES (?, ?)", (k, v))
            continue
        rowid += rng.choice([1, 1, 2, 1000]) if y["order"] == "holes" else 1
        x("INSERT INTO blocks (rowid, pos, data) VALUES (?, ?, ?)", (rowid, k, v))
    x("DELETE FROM blocks WHERE pos IN (%s)" % ",".join(map(str, filler)))
    if y["order"] == "lastrow" and y["table"] != "norowid" and keys:
        # new rows get random numbers
        x("UPDATE blocks SET rowid = ? WHERE pos = ?", (2 ** 63 - 1, rng.choice(keys)))
    x("COMMIT")
    x("PRAGMA journal_mode = %s" % y["journal"])
    db.close()


def make_world(rng, w, base, names, cmds):
    """blocks: key -> data; classes: key -> 'ok' | 'bad' | 'ungen'."""
    corners = []
    for c in cmds:
        if c.area:
            corners += [c.area[0], c.area[1]]
            if c.off:
                corners += [[u + v for u, v in zip(q, c.off)] for q in c.area]
    wanted = [n for c in cmds for n in [c.node, c.node, c.new, *(c.nodes or [])] if n]
    x = w["extras"]
    rich = "rich" in x or x == "all"
    pbad = 0.3 if x.startswith("bad") else 0.15 if x == "all" else 0
    pung = 0.4 if x.startswith("ungen") else 0.2 if x == "all" else 0
    blocks, classes, model = {}, {}, {}
    small = []
    for p in positions(rng, w["shape"], base, w.get("ext", (0, 0, 0))):
        key = codec.pos_key(*p)
        ver = version_of(rng, w["vers"])
        if w["shape"] == "many" and rng.random() < 0.97:
            # one of a few blocks without objects
            if not small:
                for i in range(10):
                    b = make_block(rng, version_of(rng, w["vers"]), "uniform",
                                   rich and i < 4, p, names, corners,
                                   ungen=rng.random() < pung)
                    b.objs = []
                    b.meta, b.timers = b.meta[:2], b.timers[:3]
                    small.append((b, codec.encode(b)))
            b, d = rng.choice(small)
            model[key], blocks[key] = b, d
            classes[key] = "ungen" if b.flags & 8 else "ok"
            continue
        r = rng.random()
        if r < pbad:
            while True:
                d = bad_data(rng, rng.choice(BAD_KINDS), p, names,
                             None if w["vers"] == "mix" else ver)
                if is_bad(d, key):
                    break
            blocks[key], classes[key] = d, "bad"
        else:
            ung = r < pbad + pung
            b = make_block(rng, ver, w["fill"], rich, p, names, corners,
                           big=rich and (w.get("huge") if w.get("huge") and rng.random() < 0.5
                                         else rng.random() < 0.15), ungen=ung)
            if rng.random() < 0.2:
                lonely(rng, b, p, wanted, corners)
            elif rng.random() < 0.1:
                almost(rng, b, cmds)
            model[key] = b
            blocks[key], classes[key] = codec.encode(b), "ungen" if ung else "ok"
    return blocks, classes, model


def palette(rng):
    names = rng.sample(PALETTE, rng.choice([2, 3, 4, 6]))
    if rng.random() < 0.5:
        names.append(RARE)
    if rng.random() < 0.4:
        names += rng.sample(LONGS[:5], rng.choice([1, 2]))
        if rng.random() < 0.1:
            names.append(LONGS[5])
    if rng.random() < 0.15:
        names.append(rng.choice(ODD))
    return names
