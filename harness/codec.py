"""Independent codec for Minetest mapblocks (versions 25..29).

Written from the Minetest world format documentation, not from MapEditr's
code.  `encode` builds blocks, `decode` is strict: it raises BadBlock for
anything that is not a complete, consistent mapblock.
"""
import ctypes
import hashlib
import struct
import zlib
from dataclasses import dataclass, field
from typing import Dict, List, Tuple

_z = ctypes.CDLL("libzstd.so.1")
_z.ZSTD_compressBound.restype = ctypes.c_size_t
_z.ZSTD_compressBound.argtypes = [ctypes.c_size_t]
_z.ZSTD_compress.restype = ctypes.c_size_t
_z.ZSTD_compress.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p,
                             ctypes.c_size_t, ctypes.c_int]
_z.ZSTD_isError.restype = ctypes.c_uint
_z.ZSTD_isError.argtypes = [ctypes.c_size_t]
_z.ZSTD_createDStream.restype = ctypes.c_void_p
_z.ZSTD_freeDStream.argtypes = [ctypes.c_void_p]
_z.ZSTD_initDStream.argtypes = [ctypes.c_void_p]
_z.ZSTD_initDStream.restype = ctypes.c_size_t
_z.ZSTD_decompressStream.restype = ctypes.c_size_t


class _Buf(ctypes.Structure):
    _fields_ = [("ptr", ctypes.c_void_p), ("size", ctypes.c_size_t),
                ("pos", ctypes.c_size_t)]


_z.ZSTD_decompressStream.argtypes = [ctypes.c_void_p, ctypes.POINTER(_Buf),
                                     ctypes.POINTER(_Buf)]


class BadBlock(Exception):
    pass


def zstd_c(data: bytes, level: int = 1) -> bytes:
    n = _z.ZSTD_compressBound(len(data))
    out = ctypes.create_string_buffer(n)
    r = _z.ZSTD_compress(out, n, data, len(data), level)
    if _z.ZSTD_isError(r):
        raise RuntimeError("zstd compress")
    return out.raw[:r]


def zstd_d(data: bytes) -> bytes:
    """Decompress exactly one complete frame; anything else is BadBlock."""
    ds = _z.ZSTD_createDStream()
    try:
        _z.ZSTD_initDStream(ds)
        src = ctypes.create_string_buffer(data, len(data))
        inb = _Buf(ctypes.cast(src, ctypes.c_void_p), len(data), 0)
        out = bytearray()
        cap = 1 << 17
        dst = ctypes.create_string_buffer(cap)
        while True:
            outb = _Buf(ctypes.cast(dst, ctypes.c_void_p), cap, 0)
            r = _z.ZSTD_decompressStream(ds, ctypes.byref(outb),
                                         ctypes.byref(inb))
            if _z.ZSTD_isError(r):
                raise BadBlock("zstd error")
            out += ctypes.string_at(dst, outb.pos)
            if r == 0:
                break
            if outb.pos == 0 and inb.pos == inb.size:
                raise BadBlock("zstd truncated")
        if inb.pos != inb.size:
            raise BadBlock("data after zstd frame")
        return bytes(out)
    finally:
        _z.ZSTD_freeDStream(ds)


NODES = 4096


@dataclass
class Block:
    ver: int = 29
    flags: int = 0
    lit: int = 0xFFFF
    ts: int = 0
    # (id, name) in stored order
    nimap: List[Tuple[int, bytes]] = field(default_factory=list)
    nodes: List[int] = field(default_factory=lambda: [0] * NODES)
    p1: bytes = bytes(NODES)
    p2: bytes = bytes(NODES)
    # (pos, [(key, value, private)], inventory bytes)
    meta: List[Tuple[int, List[Tuple[bytes, bytes, bool]], bytes]] = \
        field(default_factory=list)
    # (type, (x, y, z), data)
    objs: List[Tuple[int, Tuple[int, int, int], bytes]] = \
        field(default_factory=list)
    # (pos, timeout, elapsed)
    timers: List[Tuple[int, int, int]] = field(default_factory=list)
    # encoding knobs (not content)
    cw: int = 2
    pw: int = 2
    nimap_ver: int = 0
    obj_ver: int = 0
    meta_ver: int = -1
    timer_len: int = 10
    # damage: field -> stored value; payload -> damaged payload
    lie: Dict[str, int] = field(default_factory=dict)
    mut: object = None

    def n(self, what, true):
        return self.lie.pop(what, true)


def s16(b: bytes) -> bytes:
    return struct.pack(">H", len(b)) + b


def s32(b: bytes) -> bytes:
    return struct.pack(">I", len(b)) + b


def enc_meta(b: Block) -> bytes:
    if not b.meta:
        return b"\x00" if b.meta_ver < 0 else bytes([b.meta_ver, 0, 0])
    mv = b.meta_ver if b.meta_ver >= 0 else (2 if b.ver >= 28 else 1)
    out = [bytes([mv]), struct.pack(">H", b.n("metas", len(b.meta)))]
    for pos, vs, inv in b.meta:
        out.append(struct.pack(">HI", pos, b.n("vars", len(vs))))
        for k, v, p in vs:
            out.append(struct.pack(">H", b.n("key", len(k))) + k)
            out.append(struct.pack(">I", b.n("value", len(v))) + v)
            if mv >= 2:
                out.append(b"\x01" if p else b"\x00")
        out.append(inv)
    return b"".join(out)


def enc_objs(b: Block) -> bytes:
    out = [bytes([b.obj_ver]), struct.pack(">H", b.n("objs", len(b.objs)))]
    for t, (x, y, z), d in b.objs:
        out.append(struct.pack(">BiiiH", t, x, y, z, b.n("obj", len(d))) + d)
    return b"".join(out)


def enc_timers(b: Block) -> bytes:
    return struct.pack(">BH", b.timer_len, b.n("timers", len(b.timers))) + b"".join(
        struct.pack(">HII", *t) for t in b.timers)


def enc_nimap(b: Block) -> bytes:
    return bytes([b.nimap_ver]) + struct.pack(">H", b.n("names", len(b.nimap))) + b"".join(
        struct.pack(">HH", i, b.n("name", len(n))) + n for i, n in b.nimap)


def encode(b: Block) -> bytes:
    mut = b.mut or (lambda x: x)
    nd = struct.pack(">4096H", *b.nodes) + b.p1 + b.p2
    if b.ver >= 29:
        raw = b"".join([
            struct.pack(">BHI", b.flags, b.lit, b.ts), enc_nimap(b),
            bytes([b.cw, b.pw]), nd, enc_meta(b), enc_objs(b), enc_timers(b)])
        return bytes([b.ver]) + zstd_c(mut(raw))
    out = [bytes([b.ver, b.flags])]
    if b.ver >= 27:
        out.append(struct.pack(">H", b.lit))
    out += [bytes([b.cw, b.pw]), zlib.compress(mut(nd), 1),
            zlib.compress(mut(enc_meta(b)), 1), enc_objs(b),
            struct.pack(">I", b.ts), enc_nimap(b), enc_timers(b)]
    return b"".join(out)


class _R:
    def __init__(self, d: bytes):
        self.d, self.p = d, 0

    def take(self, n: int) -> bytes:
        if self.p + n > len(self.d):
            raise BadBlock("truncated")
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return struct.unpack(">H", self.take(2))[0]

    def u32(self):
        return struct.unpack(">I", self.take(4))[0]

    def i32(self):
        return struct.unpack(">i", self.take(4))[0]

    def s16(self):
        return self.take(self.u16())

    def s32(self):
        return self.take(self.u32())

    def zlib(self) -> bytes:
        d = zlib.decompressobj()
        try:
            out = d.decompress(self.d[self.p:])
            out += d.flush()
        except zlib.error as e:
            raise BadBlock("zlib: %s" % e)
        if not d.eof:
            raise BadBlock("zlib truncated")
        self.p = len(self.d) - len(d.unused_data)
        return out

    def end(self, what="trailing data"):
        if self.p != len(self.d):
            raise BadBlock(what)


def _dec_meta(r: _R, b: Block):
    v = r.u8()
    if v > 2:
        raise BadBlock("metadata version")
    if v == 0:
        return
    b.meta_ver = v
    for _ in range(r.u16()):
        pos = r.u16()
        vs = []
        for _ in range(r.u32()):
            k = r.s16()
            val = r.s32()
            p = bool(r.u8()) if v >= 2 else False
            vs.append((k, val, p))
        # the end is a line of its own
        e = r.p
        while not r.d.startswith(b"EndInventory\n", e):
            e = r.d.find(b"\n", e) + 1
            if e == 0:
                raise BadBlock("no inventory end")
        inv = r.take(e + 13 - r.p)
        b.meta.append((pos, vs, inv))


def _dec_nimap(r: _R, b: Block):
    if r.u8() != 0:
        raise BadBlock("name-id map version")
    for _ in range(r.u16()):
        i = r.u16()
        b.nimap.append((i, r.s16()))


def _dec_nodes(r: _R, b: Block):
    b.nodes = list(struct.unpack(">4096H", r.take(8192)))
    b.p1 = r.take(NODES)
    b.p2 = r.take(NODES)


def _dec_objs(r: _R, b: Block):
    if r.u8() != 0:
        raise BadBlock("static object version")
    for _ in range(r.u16()):
        t = r.u8()
        pos = (r.i32(), r.i32(), r.i32())
        b.objs.append((t, pos, r.s16()))


def _dec_timers(r: _R, b: Block):
    if r.u8() != 10:
        raise BadBlock("timer length")
    for _ in range(r.u16()):
        b.timers.append((r.u16(), r.u32(), r.u32()))


def decode(data: bytes) -> Block:
    r = _R(data)
    b = Block()
    b.meta, b.objs, b.timers, b.nimap = [], [], [], []
    b.ver = r.u8()
    if b.ver < 25 or b.ver > 29:
        raise BadBlock("version")
    if b.ver >= 29:
        r = _R(zstd_d(data[1:]))
    b.flags = r.u8()
    b.lit = r.u16() if b.ver >= 27 else 0xFFFF
    if b.ver >= 29:
        b.ts = r.u32()
        _dec_nimap(r, b)
    if r.u8() != 2 or r.u8() != 2:
        raise BadBlock("content/params width")
    if b.ver >= 29:
        _dec_nodes(r, b)
        _dec_meta(r, b)
    else:
        n = _R(r.zlib())
        _dec_nodes(n, b)
        n.end("surplus node data")
        m = _R(r.zlib())
        _dec_meta(m, b)
        m.end("surplus metadata")
    _dec_objs(r, b)
    if b.ver < 29:
        b.ts = r.u32()
        _dec_nimap(r, b)
    _dec_timers(r, b)
    r.end()
    return b


def consistent(b: Block):
    """Problems of a decoded block (empty list: well formed)."""
    bad = []
    ids = [i for i, _ in b.nimap]
    names = [n for _, n in b.nimap]
    if len(set(ids)) != len(ids):
        bad.append("dup-id")
    if len(set(names)) != len(names):
        bad.append("dup-name")
    if not set(b.nodes) <= set(ids):
        bad.append("node-without-name")
    mp = [m[0] for m in b.meta]
    if ids and max(ids) >= 7281:
        bad.append("id-range")
    if any(p >= NODES for p in mp) or any(t[0] >= NODES for t in b.timers):
        bad.append("position-range")
    if len(set(mp)) != len(mp):
        bad.append("dup-meta-pos")
    for _, vs, _ in b.meta:
        if len({k for k, _, _ in vs}) != len(vs):
            bad.append("dup-var")
    return bad


def _zstd_first(data: bytes):
    """First decompressed byte of a possibly damaged zstd stream, or None."""
    ds = _z.ZSTD_createDStream()
    try:
        _z.ZSTD_initDStream(ds)
        src = ctypes.create_string_buffer(data, max(len(data), 1))
        inb = _Buf(ctypes.cast(src, ctypes.c_void_p), len(data), 0)
        dst = ctypes.create_string_buffer(1)
        while True:
            outb = _Buf(ctypes.cast(dst, ctypes.c_void_p), 1, 0)
            before = inb.pos
            r = _z.ZSTD_decompressStream(ds, ctypes.byref(outb),
                                         ctypes.byref(inb))
            if _z.ZSTD_isError(r):
                return None
            if outb.pos:
                return dst.raw[0]
            if r == 0 or inb.pos == before:
                return None
    finally:
        _z.ZSTD_freeDStream(ds)


def header(data: bytes):
    """(version supported and flags readable, generated flag)."""
    if len(data) < 2 or not 25 <= data[0] <= 29:
        return False, False
    if data[0] == 29:
        f = _zstd_first(data[1:])
        if f is None:
            return False, False
        return True, not f & 8
    return True, not data[1] & 8


def sha(data: bytes) -> str:
    return hashlib.sha256(data).hexdigest()[:20]


def pos_key(x: int, y: int, z: int) -> int:
    return x + y * 4096 + z * 16777216


def key_pos(k: int):
    x = (k + 2048) % 4096 - 2048
    k = (k - x) // 4096
    y = (k + 2048) % 4096 - 2048
    z = (k - y) // 4096
    return (x, y, z)
