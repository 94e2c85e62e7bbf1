"""Planted bugs, written from the properties and the code."""
BUGS = {}


def bug(bid, prop, needs, what, edits, demo):
    BUGS[bid] = dict(prop=prop, needs=needs, what=what, edits=edits, demo=demo)


bug("fill-next-id", "P01",
    "a mapblock whose node IDs have gaps (an unused ID below the highest), filled partly",
    "fill takes the number of names for the next free ID, so the new node takes over the "
    "name of an existing one",
    [("src/commands/fill.rs", "block.nimap.get_max_id().unwrap() + 1;",
      "block.nimap.0.len() as u16;")],
    '''
b = Block(nimap=[(0, b"air"), (2, b"default:stone")], nodes=[0] * 2000 + [2] * 2096)
m = make({(0, 0, 0): b})
run(m, "fill", "default:dirt", *area((0, 0, 0), (3, 3, 3)))
n = names(load(m)[0, 0, 0])
want = [b"air"] * 2000 + [b"default:stone"] * 2096
for x in range(4):
    for y in range(4):
        for z in range(4):
            want[idx(x, y, z)] = b"default:dirt"
need(n == want, "nodes after fill")
''')

bug("search-len8", "P02",
    "a node name of more than 255 characters in a mapblock of version 28 or less",
    "the pre-filter of query_keys compares a wrong length prefix, so matching mapblocks "
    "are passed over",
    [("src/utils.rs", "res.write_u16::<BigEndian>(s.len() as u16).unwrap();",
      "res.extend_from_slice(&[0, s.len() as u8]);"),
     ("src/utils.rs", "use byteorder::{WriteBytesExt, BigEndian};\n", "")],
    '''
long = b"m:" + b"x" * 300
for v in (25, 28, 29):
    m = make({(0, 0, 0): Block(ver=v, nimap=[(0, long), (1, b"air")], nodes=[0] * 9 + [1] * 4087)})
    run(m, "replacenodes", long, "a:b")
    need(names(load(m)[0, 0, 0]) == [b"a:b"] * 9 + [b"air"] * 4087, "version %d" % v)
''')

bug("param2-inverted-id0", "P03",
    "setparam2 with an inverted area and a node whose ID is 0 in a partly selected mapblock",
    "the node filter is dropped for ID 0 in the inverted partial path",
    [("src/commands/set_param2.rs", "if let Some(id) = node_id {\n\t\t\tfor idx",
      "if let Some(id) = node_id.filter(|&id| id > 0) {\n\t\t\tfor idx")],
    '''
b = Block(nimap=[(0, b"a:a"), (1, b"b:b")], nodes=[0, 1] * 2048)
m = make({(0, 0, 0): b})
run(m, "setparam2", "7", "--node", "a:a", *area((0, 0, 0), (3, 3, 3)), "--invert")
p = load(m)[0, 0, 0].p2
need(all(p[i] == 0 for i in range(1, N, 2)), "other nodes keep param2")
need(p[4] == 7 and p[0] == 0, "selected nodes are set")
''')

bug("clone-sort-lead", "P04",
    "a clone of more mapblocks than the cache holds, overlapping its target, with a "
    "positive y or x offset and none in z",
    "the destination blocks are processed in the direction of the z offset only, so "
    "originals are overwritten before they are read",
    [("src/commands/clone.rs", "let sort_dir = offset.map(|v| if v > 0 { -1 } else { 1 });",
      "let lead = if offset.z != 0 { offset.z } else { offset.x.min(offset.y) };\n"
      "\tlet sort_dir = offset.map(|_| if lead > 0 { -1 } else { 1 });")],
    '''
blocks = {}
for x in range(40):
    for y in range(72):
        blocks[x, y, 0] = Block(nimap=[(0, b"n:%d_%d" % (x, y))])
m = make(blocks)
run(m, "clone", *area((0, 0, 0), (639, 40 * 16 - 1, 15)), "--offset", 0, 30 * 16, 0)
r = load(m)
for x in range(40):
    for y in range(30, 70):
        need(r[x, y, 0].nimap == [(0, b"n:%d_%d" % (x, y - 30))], "block %d,%d" % (x, y))
''')

bug("merge-meta-early", "P05",
    "overlay or clone of a source mapblock without any metadata over nodes that have some",
    "merge_metadata returns early, so the old metadata stays at the overwritten nodes",
    [("src/block_utils.rs", "\t// Delete any existing metadata in the destination area.\n",
      "\tif src_meta.is_empty() {\n\t\treturn;\n\t}\n"
      "\t// Delete any existing metadata in the destination area.\n")],
    '''
s = Block(nimap=[(0, b"s:s")])
t = Block(nimap=[(0, b"t:t")], meta=[(idx(2, 2, 2), [(b"k", b"v", False)], END),
                                     (idx(9, 9, 9), [(b"k", b"w", False)], END)])
src, m = make({(0, 0, 0): s}, "src.sqlite"), make({(0, 0, 0): t})
run(m, "overlay", src, *area((1, 1, 1), (4, 4, 4)))
need([x[0] for x in load(m)[0, 0, 0].meta] == [idx(9, 9, 9)], "metadata after overlay")
''')

bug("overlay-cache-key32", "P06",
    "overlay --offset that reads two source mapblocks whose keys are equal modulo 2^32 "
    "(256 mapblocks apart in z)",
    "the cache of source mapblocks is keyed by a truncated key and returns the wrong one",
    [("src/commands/overlay.rs", "cache: &mut CacheMap<i64, Option<MapBlock>>,",
      "cache: &mut CacheMap<i32, Option<MapBlock>>,"),
     ("src/commands/overlay.rs", "match cache.get(&key) {", "match cache.get(&(key as i32)) {"),
     ("src/commands/overlay.rs", "cache.insert(key, block.clone());",
      "cache.insert(key as i32, block.clone());")],
    '''
src = make({(0, 0, 0): Block(nimap=[(0, b"s:a")]), (0, 0, 256): Block(nimap=[(0, b"s:b")])},
           "src.sqlite")
m = make({(1, 0, 0): Block(nimap=[(0, b"t:t")]), (1, 0, 256): Block(nimap=[(0, b"t:t")])})
run(m, "overlay", src, "--offset", 16, 0, 0)
r = load(m)
need(names(r[1, 0, 0])[0] == b"s:a" and names(r[1, 0, 256])[0] == b"s:b", "overlaid nodes")
''')

bug("contained-negative", "P07",
    "deleteblocks with an area whose upper corner is negative and not on a mapblock border",
    "the wholly contained mapblocks are computed by truncating division, so a block that "
    "is only partly inside is deleted",
    [("src/spatial/area.rs",
      "z: (self.max.z - 15).div_euclid(16)",
      "z: (self.max.z - 15) / 16")],
    '''
pos = [(0, 0, z) for z in range(-4, 2)]
m = make({p: Block(nimap=[(0, b"a:a")]) for p in pos})
run(m, "deleteblocks", *area((0, 0, -64), (15, 15, -10)))
need(sorted(raw(m)) == sorted((0, 0, z) for z in (-1, 0, 1)), "remaining blocks %s" % sorted(raw(m)))
''')

bug("meta-node-swap", "P08",
    "deletemeta --node on nodes at high positions of a mapblock where the ID at the "
    "mirrored index differs",
    "the metadata position is compared with the node at the position without its z layer",
    [("src/commands/delete_meta.rs", "if block.node_data.nodes[idx as usize] != id {",
      "if block.node_data.nodes[(idx & 0x0FFF & !0x800) as usize] != id {")],
    '''
b = Block(nimap=[(0, b"a:a"), (1, b"b:b")], nodes=[0] * 2048 + [1] * 2048,
          meta=[(i, [(b"k", b"v", False)], END) for i in (5, 2047, 2053, 4095)])
m = make({(0, 0, 0): b})
run(m, "deletemeta", "--node", "a:a")
need([x[0] for x in load(m)[0, 0, 0].meta] == [2053, 4095], "metadata left")
''')

bug("timers-swap-remove", "P09",
    "deletetimers on a mapblock with several timers of which only some are selected",
    "timers are removed by swapping with the last one, which is then skipped or reordered",
    [("src/commands/delete_timers.rs", "for i in (0..block.node_timers.len()).rev() {",
      "let mut i = 0;\n\t\twhile i < block.node_timers.len() {\n\t\t\ti += 1;\n\t\t\tlet i = i - 1;"),
     ("src/commands/delete_timers.rs", "block.node_timers.remove(i);",
      "block.node_timers.swap_remove(i);")],
    '''
t = [(p, 1, 1) for p in (3, 9, 20, 30, 40)]
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], timers=t)})
run(m, "deletetimers")
need(load(m)[0, 0, 0].timers == [], "timers left")
''')

bug("object-trunc", "P10",
    "objects at negative positions between two nodes, near the border of the area",
    "object positions are rounded towards zero instead of to the nearest node",
    [("src/commands/delete_objects.rs", "\t\tif a.contains(rounded_pos) == invert {",
      "\t\tlet towards_zero = obj.f_pos.map(|v| v.saturating_add(DIV_FAC / 2) / DIV_FAC);\n"
      "\t\tlet rounded_pos = Vec3::new(towards_zero.x, rounded_pos.y, rounded_pos.z);\n"
      "\t\tif a.contains(rounded_pos) == invert {"),
     ("src/commands/delete_objects.rs", "use crate::spatial::Area;", "use crate::spatial::{Area, Vec3};")],
    '''
def at(x):
    return (7, (x, 0, -20000), b"\\x01" + codec.s16(b"a:a") + codec.s32(b"") + bytes(22))
m = make({(-1, 0, -1): Block(nimap=[(0, b"a:a")], objs=[at(-25000), at(-24999), at(-32001), at(-35001)])})
run(m, "deleteobjects", *area((-3, -3, -3), (-3, 3, 3)))
left = [o[1][0] for o in load(m)[-1, 0, -1].objs]
need(left == [-25000, -24999, -35001], "objects left: %s" % left)
''')

bug("setmetavar-private", "P11",
    "setmetavar on a variable that is marked private",
    "the variable is inserted anew and loses its private mark",
    [("src/commands/set_meta_var.rs", "data.vars.get_mut(&key).unwrap().0 = value.clone();",
      "data.vars.insert(key.clone(), (value.clone(), false));")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(1, [(b"k", b"v", True)], END)])})
run(m, "setmetavar", "k", "w")
need(load(m)[0, 0, 0].meta == [(1, [(b"k", b"w", True)], END)], "metadata")
''')

bug("inv-wear-count", "P12",
    "replaceininv --deletemeta on a stack of one item with wear",
    "count 1 is left out although a wear value follows, so the wear becomes the count",
    [("src/commands/replace_in_inv.rs", 'if count != b"1" || wear != b"0" {', 'if count != b"1" || wear.len() > 3 {')],
    '''
inv = b"List main 2\\nWidth 0\\nItem t:pick 1 300 meta\\nItem t:pick 1 12345\\nEndInventoryList\\n" + END
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(1, [], inv)])})
run(m, "replaceininv", "t:pick", "--deletemeta")
need(load(m)[0, 0, 0].meta[0][2] == inv.replace(b" meta", b""), "inventory")
''')

bug("timer-count8", "P13",
    "a mapblock with more than 255 node timers, rewritten by any command",
    "only the first 255 timers are written back",
    [("src/map_block/node_timer.rs", "dst.write_u16::<BigEndian>(timers.len() as u16).unwrap();\n\n\tfor t in timers {",
      "let count = timers.len().min(u8::MAX as usize);\n\tdst.write_u16::<BigEndian>(count as u16).unwrap();\n\n\tfor t in &timers[..count] {")],
    '''
t = [(p, 5, 6) for p in range(300)]
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], timers=t)})
run(m, "setparam2", "1", "--node", "a:a")
need(load(m)[0, 0, 0].timers == t, "timers kept")
''')

bug("v27-lighting", "P13",
    "a mapblock of version 27",
    "the lighting state is not written for version 27, so the rewritten block is corrupt",
    [("src/map_block/map_block.rs", "if self.version >= 27 {\n\t\t\t\tcrs.write", "if self.version >= 28 {\n\t\t\t\tcrs.write")],
    '''
m = make({(0, 0, 0): Block(ver=27, lit=0x1234, nimap=[(0, b"a:a")])})
run(m, "setparam2", "1", "--node", "a:a")
b = load(m)[0, 0, 0]
need(b.lit == 0x1234 and b.p2 == bytes([1]) * N, "block kept")
''')

bug("search-v29", "P14",
    "a command with a node name on mapblocks of version 29",
    "the textual pre-filter is applied to compressed mapblocks as well",
    [("src/utils.rs", "if block_version <= 28 && !data_searchers", "if block_version <= 29 && !data_searchers"),],
    '''
r = []
for v in (25, 27, 28, 29):
    ns = [b"mod:long_name_%d" % i for i in range(9)]
    b = Block(ver=v, nimap=[(i, n) for i, n in enumerate(ns)], nodes=[7] * N)
    m = make({(0, 0, 0): b})
    run(m, "replacenodes", "mod:long_name_7", "b:b")
    r.append(names(load(m)[0, 0, 0])[0])
need(r == [b"b:b"] * 4, "result per version %s" % r)
''')

bug("varcount-alloc", "P15",
    "a corrupt mapblock whose metadata claims billions of variables",
    "memory is reserved for all of them, which aborts the whole program",
    [("src/map_block/metadata.rs", "HashMap::with_capacity(min(var_count as usize, 64))",
      "HashMap::with_capacity(var_count as usize)"),
     ("src/map_block/metadata.rs", "use std::cmp::min;\n", "")],
    '''
import struct, zlib
good = Block(ver=29, nimap=[(0, b"a:a")])
bad = codec.encode(Block(ver=29, nimap=[(0, b"a:a")], meta=[(0, [(b"k", b"v", False)], END)]))
body = codec.zstd_d(bad[1:])
i = body.index(b"\\0\\1k\\0\\0\\0\\1v")
body = body[:i - 4] + b"\\xff\\xff\\xff\\xff" + body[i:]
bad = bad[:1] + codec.zstd_c(body)
m = make({(0, 0, 0): good, (1, 0, 0): bad})
out = run(m, "setparam2", "3", "--node", "a:a")
r = raw(m)
need("Done." in out, "command finishes")
need(codec.decode(r[0, 0, 0]).p2 == bytes([3]) * N and r[1, 0, 0] == bad, "other block edited")
''')

bug("commit-chunks", "P17",
    "a crash or error in the middle of a command that writes more than 500 mapblocks",
    "the transaction is committed every 500 written mapblocks, so a part of the edit stays",
    [("src/map_database.rs", "\tin_transaction: bool,\n}", "\tin_transaction: bool,\n\tpending: usize,\n}"),
     ("src/map_database.rs", "stmt_del, in_transaction: true})", "stmt_del, in_transaction: true,\n\t\t\tpending: 0})"),
     ("src/map_database.rs", "\t\tself.stmt_set.reset()?;\n",
      "\t\tself.stmt_set.reset()?;\n\t\tself.pending += 1;\n\t\tif self.pending >= 500 {\n"
      "\t\t\t// Keep the journal small.\n\t\t\tself.conn.execute(\"COMMIT\")?;\n"
      "\t\t\tself.conn.execute(\"BEGIN\")?;\n\t\t\tself.pending = 0;\n\t\t}\n")],
    '''
import re, resource, signal
ps = [(x, y, z) for x in range(10) for y in range(10) for z in range(8)]
blk = {p: Block(ver=29, nimap=[(0, b"a:a")], p1=os.urandom(N)) for p in ps}
m = make(blk)
before = raw(m)
size = os.path.getsize(m)
# no file may grow beyond its present size: the edit (which needs more room) must fail
blk2 = {p: Block(ver=29, nimap=[(0, b"a:a")], p1=os.urandom(N)) for p in ps}
blk2.update({(100 + i, 0, 0): blk2[ps[i]] for i in range(100)})
src = make(blk2, "src.sqlite")
p = subprocess.run([TOOL, "-y", m, "overlay", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                   preexec_fn=lambda: (signal.signal(signal.SIGXFSZ, signal.SIG_IGN),
                                       resource.setrlimit(resource.RLIMIT_FSIZE, (size + 8192, size + 8192))))
after = raw(m)
want = dict(before)
want.update(raw(src))
need(after == before or after == want, "all or nothing (%d of %d changed)" %
     (sum(after.get(k) != before.get(k) for k in after), len(after)))
''')

bug("reply-prefix", "P18",
    "an answer to the prompt that begins with y but is not y",
    "any reply that begins with y counts as consent",
    [("src/cmd_line.rs", 'result.trim().to_ascii_lowercase() == "y"',
      'result.trim().to_ascii_lowercase().starts_with(\'y\')')],
    '''
for reply, agreed in ((b"y\\n", True), (b" Y \\n", True), (b"yikes, no\\n", False), (b"n\\n", False), (b"", False)):
    m = make({(0, 0, 0): Block(nimap=[(0, b"air")])})
    before = raw(m)
    run(m, "fill", "a:a", *area((0, 0, 0), (3, 3, 3)), yes=False, stdin=reply)
    need((raw(m) != before) == agreed, "reply %r" % reply)
''')

bug("overlay-swaps-db", "P19",
    "overlay --invert with an area that cuts through a mapblock which both maps have",
    "the source map is opened writable and the merged block is written to it",
    [("src/instance.rs", "sqlite::OpenFlags::new().set_read_only()))", "sqlite::OpenFlags::new().set_read_write()))"),
     ("src/commands/overlay.rs", "clean_name_id_map(&mut src_block);\n\t\t\t\t\t\tdb.set_block(key, &src_block.serialize()).unwrap();",
      "clean_name_id_map(&mut src_block);\n\t\t\t\t\t\tlet merged = src_block.serialize();\n"
      "\t\t\t\t\t\tidb.set_block(key, &merged).unwrap();\n"
      "\t\t\t\t\t\tdb.set_block(key, &merged).unwrap();"),
     ("src/commands/overlay.rs", "\t\t\t\t\t\tclean_name_id_map(&mut dst_block);\n\t\t\t\t\t\tdb.set_block",
      "\t\t\t\t\t\tclean_name_id_map(&mut dst_block);\n\t\t\t\t\t\tdb.set_block"),
     ("src/instance.rs", "\t\tinst.db.commit_if_needed()?;\n",
      "\t\tinst.db.commit_if_needed()?;\n\t\tif let Some(idb) = &mut inst.idb {\n\t\t\tidb.commit_if_needed()?;\n\t\t}\n")],
    '''
src = make({(0, 0, 0): Block(nimap=[(0, b"s:s")])}, "src.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"t:t")])})
before = open(src, "rb").read()
run(m, "overlay", src, *area((0, 0, 0), (3, 3, 3)), "--invert")
need(open(src, "rb").read() == before, "source map unchanged")
''')

bug("late-begin", "P20",
    "another program that commits to the map between the query and the first write of a command",
    "reads take place outside of the transaction, which begins with the first write",
    [("src/map_database.rs", '\t\tconn.execute("BEGIN")?;\n\t\tverify_database(conn)?;', "\t\tverify_database(conn)?;"),
     ("src/map_database.rs", "stmt_del, in_transaction: true})", "stmt_del, in_transaction: false})"),
     ("src/map_database.rs", "\tfn begin_if_needed(&self) -> Result<(), DBError> {\n\t\tif !self.in_transaction {\n\t\t\tself.conn.execute(\"BEGIN\")?;\n",
      "\tfn begin_if_needed(&mut self) -> Result<(), DBError> {\n\t\tif !self.in_transaction {\n\t\t\tself.conn.execute(\"BEGIN\")?;\n\t\t\tself.in_transaction = true;\n"),
     ("src/map_database.rs", "\t\tself.begin_if_needed().unwrap();\n", ""),
     ("src/map_database.rs", "-> Result<Vec<u8>, DBError> {\n\t\tself.begin_if_needed()?;\n", "-> Result<Vec<u8>, DBError> {\n")],
    '''
# Delay each lock operation of the program in turn; another program keeps writing.
import time
ticks = 0
for n in range(1, 61):
    m = make({(0, 0, 0): Block(nimap=[(0, b"air")])})
    w = sqlite3.connect(m, timeout=0, isolation_level=None)
    p = subprocess.Popen(["strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=fcntl", "-e",
                          "inject=fcntl:delay_enter=150000:when=%d" % n,
                          TOOL, "-y", m, "replacenodes", "air", "a:a"],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    last = 0
    while p.poll() is None:
        ticks += 1
        d = codec.encode(Block(ts=ticks, nimap=[(0, b"air")]))
        try:
            w.execute("UPDATE blocks SET data = ?", (d,))
            last = ticks
        except sqlite3.OperationalError:
            pass
        time.sleep(0.02)
    p.communicate()
    w.close()
    need(load(m)[0, 0, 0].ts == last, "a committed write was lost (lock operation %d)" % n)
''')

bug("count-wrong-inverse", "P21",
    "an inverted setparam2 without node on a partly selected mapblock",
    "the reported count is the number of nodes inside instead of outside of the area",
    [("src/commands/set_param2.rs", "count += 4096 - area.volume();", "count += area.volume();")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
out = run(m, "setparam2", "7", *area((0, 0, 0), (0, 0, 0)), "--invert")
need("4.09k" in out or "4.10k" in out, out)
''')

bug("nimap-dup", "P22",
    "a clone or overlay into a mapblock that already knows a name of the source, followed by "
    "replacenodes of that name",
    "duplicate names are kept in the name table if they are neighbours in it",
    [("src/block_utils.rs", "if let Some(first_id) = new_nimap.get_id(&name) {",
      "if let Some(first_id) = new_nimap.get_id(&name).filter(|&i| i as usize + 1 != new_nimap.0.len()) {")],
    '''
src = make({(0, 0, 0): Block(nimap=[(0, b"x:x")])}, "src.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"x:x")])})
run(m, "overlay", src, *area((0, 0, 0), (3, 3, 3)))
run(m, "replacenodes", "x:x", "y:y")
b = load(m)[0, 0, 0]
need(set(names(b)) == {b"y:y"}, "names %s" % set(names(b)))
need(len({n for _, n in b.nimap}) == len(b.nimap), "no duplicates")
''')

bug("vacuum-nojournal", "P23",
    "vacuum interrupted (killed or out of disk space) while it writes the database back",
    "vacuum runs without a journal, so an interruption destroys the map",
    [("src/map_database.rs", '\t\tself.conn.execute("VACUUM")?;',
      '\t\tself.conn.execute("PRAGMA journal_mode = OFF")?;\n\t\tself.conn.execute("VACUUM")?;')],
    '''
import time
ps = [(x, y, 0) for x in range(50) for y in range(40)]
m = make({p: Block(ver=28, p1=os.urandom(N), nimap=[(0, b"a:a")]) for p in ps})
db = sqlite3.connect(m)
db.execute("DELETE FROM blocks WHERE pos % 3 = 0")
db.commit()
db.close()
orig = open(m, "rb").read()
want = raw(m)
seen = False
p = subprocess.Popen(["strace", "-f", "-qq", "-e", "trace=pwrite64", "-e",
                      "inject=pwrite64:signal=SIGKILL:when=2500+", TOOL, "-y", m, "vacuum"],
                     stdout=subprocess.PIPE, stderr=subprocess.PIPE)
p.communicate()
for n in (60, 200, 700, 1500, 2500, 3500, 4500, 6000):
    open(m, "wb").write(orig)
    for s in ("-journal", "-wal"):
        if os.path.exists(m + s):
            os.unlink(m + s)
    subprocess.run(["strace", "-f", "-qq", "-e", "trace=pwrite64", "-e",
                    "inject=pwrite64:signal=SIGKILL:when=%d" % n, TOOL, "-y", m, "vacuum"],
                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        ok = raw(m) == want
    except Exception as e:
        ok = False
    need(ok, "map after an interruption at write %d" % n)
''')

bug("done-despite-commit", "P24",
    "a commit that fails, for instance because the disk is full",
    "the failure to commit is swallowed and the program reports success",
    [("src/instance.rs", "\t\tinst.db.commit_if_needed()?;\n",
      "\t\tif inst.db.commit_if_needed().is_err() {\n"
      "\t\t\tinst.status.log_warning(\"Commit is delayed.\");\n\t\t}\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"air")])})
lock = sqlite3.connect(m, isolation_level=None)
lock.execute("BEGIN")
lock.execute("SELECT COUNT(*) FROM blocks").fetchone()     # a reader: the commit cannot get its lock
out = run(m, "fill", "a:a", *area((0, 0, 0), (15, 15, 15)))
lock.execute("COMMIT")
changed = names(load(m)[0, 0, 0])[0] == b"a:a"
need(changed or "Done." not in out, "reported: " + out)
''')

bug("area-upper-edge", "P25",
    "a plain partial area that ends on the last node of a mapblock in y",
    "the upper corner is treated as exclusive there",
    [("src/spatial/area.rs", "y: min(rel_max.y, 15),", "y: min(rel_max.y, if rel_max.x < 15 && rel_max.y == 15 { 14 } else { 15 }),"),],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"air")])})
run(m, "fill", "a:a", *area((2, 2, 2), (4, 15, 4)))
n = names(load(m)[0, 0, 0])
need(all((n[idx(x, y, z)] == b"a:a") == (2 <= x <= 4 and 2 <= y and 2 <= z <= 4)
         for x in range(16) for y in range(16) for z in range(16)), "filled nodes")
''')


# ------------------------------------------------------------- second batch
bug("names-256", "P22",
    "a partial fill, clone or overlay in a mapblock with more than 256 different nodes",
    "the IDs of the rebuilt name table wrap around after 256 names",
    [("src/block_utils.rs", "new_nimap.0.insert(new_nimap.0.len() as u16, name.clone());",
      "let next_id = new_nimap.0.len() as u8 as u16;\n"
      "\t\t\tnew_nimap.0.insert(next_id, name.clone());"),
     ("src/block_utils.rs", "map[id as usize] = new_nimap.0.len() as u16 - 1;",
      "map[id as usize] = next_id;")],
    '''
nm = [(i, b"m:n%d" % i) for i in range(300)]
m = make({(0, 0, 0): Block(nimap=nm, nodes=[i % 300 for i in range(N)])})
run(m, "fill", "a:b", *area((0, 0, 0), (1, 1, 1)))
n = names(load(m)[0, 0, 0])
need(all(n[i] == b"m:n%d" % (i % 300) for i in range(2, 16)), "names after fill")
need(n[4095] == b"m:n%d" % (4095 % 300) and n[280] == b"m:n280", "names after fill")
''')

bug("overlay-aligned-objects", "P06",
    "overlay --offset by whole mapblocks with objects in the source map",
    "for offsets by whole mapblocks the objects of the source are taken over as well",
    [("src/commands/overlay.rs",
      "\t\tclean_name_id_map(&mut dst_block);\n\t\tinst.db.set_block(dst_key",
      "\t\tif offset.x % 16 == 0 && offset.y % 16 == 0 && offset.z % 16 == 0 {\n"
      "\t\t\tlet src_pos = src_part_abs.to_touching_block_area().min;\n"
      "\t\t\tif src_pos.is_valid_block_pos() {\n"
      "\t\t\t\tif let Some(src) = get_cached(idb, &mut src_block_cache,\n"
      "\t\t\t\t\tsrc_pos.to_block_key())\n"
      "\t\t\t\t{\n\t\t\t\t\tdst_block.static_objects.extend(src.static_objects.clone());\n"
      "\t\t\t\t}\n\t\t\t}\n\t\t}\n"
      "\n\t\tlet dst_block = &mut dst_block;\n"
      "\t\tclean_name_id_map(dst_block);\n\t\tinst.db.set_block(dst_key")],
    '''
src = make({(0, 0, 0): Block(nimap=[(0, b"s:s")], objs=[(7, (10000, 10000, 10000), b"x")])},
           "src.sqlite")
m = make({(1, 0, 0): Block(nimap=[(0, b"t:t")])})
run(m, "overlay", src, "--offset", 16, 0, 0)
b = load(m)[1, 0, 0]
need(names(b)[0] == b"s:s" and b.objs == [], "objects after overlay")
''')

bug("overlay-part-missing", "P05",
    "overlay of an area that covers a mapblock partly which the target map does not have",
    "the whole source mapblock is copied to the missing place, beyond the area",
    [("src/commands/overlay.rs", "\t\t\t\t\tlet dst_data = opt_unwrap_or!(\n",
      "\t\t\t\t\tif !invert && db.find_block(key).is_none() {\n"
      "\t\t\t\t\t\tlet data = idb.get_block(key).unwrap();\n"
      "\t\t\t\t\t\tif is_valid_generated(&data) {\n"
      "\t\t\t\t\t\t\tdb.set_block(key, &data).unwrap();\n\t\t\t\t\t\t}\n"
      "\t\t\t\t\t\treturn Ok(());\n\t\t\t\t\t}\n"
      "\t\t\t\t\tlet dst_data: Vec<u8> = opt_unwrap_or!(\n")],
    '''
src = make({(0, 0, 0): Block(nimap=[(0, b"s:s")])}, "src.sqlite")
m = make({(1, 0, 0): Block(nimap=[(0, b"t:t")])})
run(m, "overlay", src, *area((0, 0, 0), (7, 7, 7)))
need(list(load(m)) == [(1, 0, 0)], "mapblocks after overlay")
''')

bug("invert-small-area", "P25",
    "--invert with an area that contains no whole mapblock",
    "nothing is selected when no mapblock lies wholly in the inverted area",
    [("src/utils.rs", "\tif !empty_area || invert {", "\tif !empty_area {")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")]), (5, 0, 0): Block(nimap=[(0, b"a:a")])})
run(m, "replacenodes", "a:a", "b:b", *area((0, 0, 0), (3, 3, 3)), "--invert")
r = load(m)
need(names(r[5, 0, 0])[0] == b"b:b" and names(r[0, 0, 0])[4] == b"b:b"
     and names(r[0, 0, 0])[0] == b"a:a", "inverted selection")
''')

bug("items-prefix", "P10",
    "deleteobjects --items with a name that is the beginning of another item's name",
    "item names are compared by prefix",
    [("src/commands/delete_objects.rs", "if !item_names.iter().any(|n| n == item_name) {",
      "if !item_names.iter().any(|n| item_name.starts_with(n)) {")],
    '''
def ent(item):
    d = b'return {itemstring="' + item + b'",age=1}'
    return b"\\x01\\x00\\x0e__builtin:item" + len(d).to_bytes(4, "big") + d + bytes(20)
o = [(7, (0, 0, 0), ent(x)) for x in (b"a:apple 3", b"a:apple_pie", b"a:apple", b"b:a")]
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], objs=list(o))})
run(m, "deleteobjects", "--items", "a:apple")
need(load(m)[0, 0, 0].objs == [o[1], o[3]], "objects left")
''')

bug("timers-sorted", "P09",
    "deletetimers on a mapblock whose timers are not stored in the order of position",
    "the search stops at the first timer below the area",
    [("src/commands/delete_timers.rs",
      "\t\t\t\tif a.contains(abs_pos) == inst.args.invert {\n\t\t\t\t\tcontinue;",
      "\t\t\t\tif a.contains(abs_pos) == inst.args.invert {\n"
      "\t\t\t\t\tif abs_pos.z < a.min.z && !inst.args.invert {\n\t\t\t\t\t\tbreak;\n"
      "\t\t\t\t\t}\n\t\t\t\t\tcontinue;")],
    '''
t = [(idx(1, 1, 9), 1, 1), (idx(1, 1, 1), 2, 2)]
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], timers=list(t))})
run(m, "deletetimers", *area((0, 0, 5), (15, 15, 15)))
need([tuple(x) for x in load(m)[0, 0, 0].timers] == [t[1]], "timers left")
''')

bug("metavar-first-node", "P11",
    "setmetavar --nodes with several names that occur in the same mapblock",
    "only the first of the names that a mapblock contains is considered there",
    [("src/commands/set_meta_var.rs", ".filter_map(|n| block.nimap.get_id(n)).collect();",
      ".filter_map(|n| block.nimap.get_id(n)).take(1).collect();")],
    '''
meta = [(i, [(b"k", b"v", False)], END) for i in range(4)]
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"b:b"), (2, b"c:c")],
                           nodes=[0, 1, 2, 0] + [2] * 4092, meta=meta)})
run(m, "setmetavar", "k", "w", "--nodes", "a:a", "b:b")
v = [x[1][0][1] for x in sorted(load(m)[0, 0, 0].meta)]
need(v == [b"w", b"w", b"v", b"w"], "values %r" % v)
''')

bug("inv-first-list", "P12",
    "replaceininv on a node with more than one inventory list",
    "only the first inventory list of each node is searched",
    [("src/commands/replace_in_inv.rs", "\t\tif parts.next() == Some(b\"Item\") && parts.next() == Some(item) {",
      "\t\tlet listed = lists == 0;\n"
      "\t\tif line == b\"EndInventoryList\" {\n\t\t\tlists += 1;\n\t\t}\n"
      "\t\tif listed && parts.next() == Some(b\"Item\") && parts.next() == Some(item) {"),
     ("src/commands/replace_in_inv.rs", "\tlet mut mods = 0;\n", "\tlet mut mods = 0;\n\tlet mut lists = 0;\n")],
    '''
inv = (b"List main 1\\nItem a:a 3\\nEndInventoryList\\n"
       b"List fuel 1\\nItem a:a 5\\nEndInventoryList\\nEndInventory\\n")
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(0, [], inv)])})
run(m, "replaceininv", "a:a", "b:b")
need(load(m)[0, 0, 0].meta[0][2] == inv.replace(b"a:a", b"b:b"), "inventory")
''')

bug("flags-mask", "P13",
    "a mapblock of version 29 that has a flag bit above the four known ones",
    "unknown flag bits are cleared when the mapblock is rewritten",
    [("src/map_block/map_block.rs", "\t\t\tenc.write_u8(self.flags).unwrap();",
      "\t\t\tenc.write_u8(self.flags & 0x0F).unwrap();")],
    '''
m = make({(0, 0, 0): Block(ver=29, flags=0x53, nimap=[(0, b"a:a")])})
run(m, "fill", "b:b", *area((0, 0, 0), (3, 3, 3)))
need(load(m)[0, 0, 0].flags == 0x53, "flags")
''')

bug("search-all", "P14",
    "--nodes with two names of which a mapblock of version 28 or less has only one",
    "the pre-filter wants all names to occur in an old mapblock",
    [("src/utils.rs", "&& !data_searchers.iter().any(|s| s.search_in(&data).is_some())",
      "&& !data_searchers.iter().all(|s| s.search_in(&data).is_some())")],
    '''
for v in (25, 28, 29):
    m = make({(0, 0, 0): Block(ver=v, nimap=[(0, b"a:a")], meta=[(0, [(b"k", b"v", False)], END)])})
    run(m, "setmetavar", "k", "w", "--nodes", "b:b", "a:a")
    need(load(m)[0, 0, 0].meta[0][1][0][1] == b"w", "version %d" % v)
''')

bug("leftover-node-data", "P15",
    "a mapblock of version 28 or less whose compressed node data holds "
    "surplus zero bytes",
    "surplus compressed node data is ignored if it is zeros, so the corrupt mapblock is rewritten",
    [("src/map_block/node_data.rs", "\t\tif decoder.read(&mut [0])? > 0 {\n",
      "\t\tlet mut next = [0];\n\t\tif decoder.read(&mut next)? > 0 && next[0] != 0 {\n")],
    '''
import zlib
good = codec.encode(Block(ver=28, nimap=[(0, b"a:a")]))
z = zlib.decompressobj()
nd = z.decompress(good[6:])
bad = good[:6] + zlib.compress(nd + bytes(9)) + z.unused_data
m = make({(0, 0, 0): bad, (1, 0, 0): Block(nimap=[(0, b"a:a")])})
run(m, "fill", "b:b", *area((0, 0, 0), (31, 15, 15)))
r = raw(m)
need(r[0, 0, 0] == bad, "corrupt mapblock left alone")
''')

bug("ungen-flag-nibble", "P16",
    "clone or overlay with a mapblock that is not generated and underground",
    "a mapblock counts as generated unless its low flag bits are exactly 8",
    [("src/map_block/map_block.rs", "\t};\n\n\tflags & 0x08 == 0 // Bit 3",
      "\t};\n\n\tflags & 0x0F != 0x08 // Bit 3")],
    '''
for f in (8, 9, 11):
    u = codec.encode(Block(flags=f, nimap=[(0, b"u:u")]))
    m = make({(0, 0, 0): u, (1, 0, 0): Block(nimap=[(0, b"t:t")])})
    run(m, "clone", *area((0, 0, 0), (15, 15, 15)), "--offset", 16, 0, 0)
    need(names(load(m)[1, 0, 0])[0] == b"t:t", "flags %d" % f)
''')

bug("sync-off", "P17",
    "a power loss while a command commits",
    "SQLite is told not to sync, so the journal may be lost while the map is half written",
    [("src/map_database.rs", '\t\tconn.execute("BEGIN")?;\n\t\tverify_database(conn)?;',
      '\t\tconn.execute("PRAGMA synchronous = OFF; BEGIN")?;\n\t\tverify_database(conn)?;')],
    '''
import shutil
if not shutil.which("strace"):
    sys.exit(0)
m = make({(i, 0, 0): Block(nimap=[(0, b"a:a")]) for i in range(50)})
log = DIR + "/strace"
subprocess.run(["strace", "-f", "-o", log, "-e", "trace=fsync,fdatasync,unlink", TOOL, "-y", m,
                "fill", "b:b", *area("000", "999")], stdout=subprocess.DEVNULL,
               stderr=subprocess.DEVNULL)
t = open(log).read() if os.path.exists(log) else ""
if "exited with" in t:
    need("sync(" in t, "the commit is synced")
''')

bug("set-error", "P24",
    "a failed write (I/O error, full disk) while changed mapblocks are written before the commit",
    "errors of single writes are ignored although SQLite has rolled the transaction back, "
    "so the later mapblocks are stored one by one",
    [("src/map_database.rs", "\t\tself.stmt_set.next()?;\n\t\tself.stmt_set.reset()?;\n",
      "\t\tlet _ = self.stmt_set.next();\n\t\tlet _ = self.stmt_set.reset();\n")],
    '''
c = DIR + "/fail.c"
open(c, "w").write("""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
static int n;
ssize_t pwrite64(int fd, const void *b, size_t l, off64_t o) {
\tssize_t (*f)(int, const void *, size_t, off64_t) = dlsym(RTLD_NEXT, "pwrite64");
\tif (++n == atoi(getenv("FAIL_AT"))) { errno = EIO; return -1; }
\treturn f(fd, b, l, o);
}
""")
if subprocess.run(["gcc", "-shared", "-fPIC", "-o", DIR + "/fail.so", c, "-ldl"]).returncode:
    sys.exit(0)
for at in (2, 300, 900):
    m = make({(i % 40, i // 40, 0): Block(nimap=[(0, b"a:a")], p1=os.urandom(N), p2=os.urandom(N))
              for i in range(700)})
    before = raw(m)
    out = run(m, "setparam2", "7", *area((0, 0, 0), (639, 319, 8)),
              env={"LD_PRELOAD": DIR + "/fail.so", "FAIL_AT": str(at)})
    after = raw(m)
    changed = sum(after[k] != before[k] for k in before)
    print(at, changed, out[-200:])
    need(changed == 0 if "Done" not in out else changed == 700, "all or nothing")
''')

bug("limit-max-corner", "P18",
    "an area whose lower corner lies outside of the map",
    "only the upper corner of an area is checked against the map limits",
    [("src/instance.rs", "for pos in &[a.min, a.max] {", "for pos in &[a.max] {")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
b = raw(m)
out = run(m, "fill", "b:b", *area((-31001, 0, 0), (10, 10, 10)))
need("error" in out and "Done" not in out and raw(m) == b, "refused")
''')

bug("names-first-only", "P18",
    "--nodes with a valid first name and an invalid further one",
    "only the first of several node names is checked",
    [("src/instance.rs", "\tfor n in &args.nodes {", "\tfor n in args.nodes.iter().take(1) {")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(0, [(b"k", b"v", False)], END)])})
b = raw(m)
out = run(m, "setmetavar", "k", "w", "--nodes", "a:a", "Bad-Name:x")
need("error" in out and "Done" not in out and raw(m) == b, "refused")
''')

bug("lock-upgrade", "P20",
    "another program that adds or changes a mapblock just between the query and the first edit",
    "the lock is upgraded by ending the transaction and beginning another one after the query",
    [("src/utils.rs", "\tstatus.set_total(keys.len());\n\tstatus.set_state(InstState::Ignore);\n",
      "\tdb.upgrade();\n\tstatus.set_total(keys.len());\n\tstatus.set_state(InstState::Ignore);\n"),
     ("src/map_database.rs", "\tpub fn is_in_transaction(&self) -> bool {",
      "\t/// Take the write lock early, so that later edits do not fail.\n"
      "\tpub fn upgrade(&mut self) {\n"
      "\t\tlet _ = self.conn.execute(\"COMMIT\");\n"
      "\t\tlet _ = self.conn.execute(\"BEGIN IMMEDIATE\");\n\t}\n\n"
      "\tpub fn is_in_transaction(&self) -> bool {"),
     ("src/map_database.rs", "\t\tlet stmt = self.conn.prepare(\"SELECT pos, data FROM blocks\").unwrap();",
      "\t\tlet stmt = self.conn.prepare(\"SELECT pos, data FROM `blocks`\").unwrap();")],
    '''
# Between the query and the first edit the lock must not be given up: a debugger-free
# way to see it is the order of the file locks.
import shutil
if not shutil.which("strace"):
    sys.exit(0)
m = make({(i, 0, 0): Block(nimap=[(0, b"a:a")]) for i in range(5)})
log = DIR + "/strace"
subprocess.run(["strace", "-f", "-o", log, "-e", "trace=fcntl,write,pwrite64", TOOL, "-y", m,
                "replacenodes", "a:a", "b:b"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
t = open(log).read() if os.path.exists(log) else ""
if "exited with" in t:
    first = t.find("pwrite64(")
    need(t[:first].count("F_UNLCK, l_whence=SEEK_SET, l_start=0, l_len=0") <= 1,
         "lock held from query to edit")
''')

bug("count-u8", "P21",
    "deletemeta on a mapblock with more than 255 selected metadata",
    "the number of deleted metadata of a mapblock is counted in eight bits",
    [("src/commands/delete_meta.rs", "count += to_delete.len() as u64;",
      "count += to_delete.len() as u8 as u64;")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(i, [(b"k", b"v", False)], END) for i in range(300)])})
need("Deleted metadata from 300 nodes" in run(m, "deletemeta"), "count")
''')

bug("fails-once", "P21",
    "a command that meets more than one bad mapblock",
    "at most one skipped mapblock is counted",
    [("src/instance.rs", "self.status.lock().unwrap().blocks_failed += 1;",
      "self.status.lock().unwrap().blocks_failed |= 1;")],
    '''
m = make({(0, 0, 0): b"\\x1c\\x00bad", (1, 0, 0): b"\\x1c", (2, 0, 0): b"",
          (3, 0, 0): Block(nimap=[(0, b"a:a")])})
need("Skipped 3 invalid" in run(m, "fill", "b:b", *area((0, 0, 0), (63, 15, 15))), "skipped")
''')

bug("overlay-invert-noclean", "P22",
    "overlay --invert of an area that cuts a mapblock in which both maps have the same nodes",
    "the name table of the merged mapblock is not cleaned up in the inverted case",
    [("src/commands/overlay.rs", "\t\t\t\t\t\tclean_name_id_map(&mut src_block);\n", "")],
    '''
src = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"b:b")], nodes=[0, 1] * 2048)}, "src.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"c:c")], nodes=[1, 0] * 2048)})
run(m, "overlay", src, *area((2, 2, 2), (8, 8, 8)), "--invert")
run(m, "replacenodes", "a:a", "x:x")
n = names(load(m)[0, 0, 0])
need(b"a:a" not in n, "all nodes replaced")
nm = [x for _, x in load(m)[0, 0, 0].nimap]
need(len(set(nm)) == len(nm), "names are unique")
''')

bug("panic-hang", "P24",
    "an I/O error that makes the compute thread panic while it edits",
    "the user interface only ends when the editing phase has been left in order",
    [("src/cmd_line.rs", "if err == mpsc::RecvTimeoutError::Disconnected {",
      "if err == mpsc::RecvTimeoutError::Disconnected\n"
      "\t\t\t\t\t&& cur_state == InstState::Ignore\n\t\t\t\t{")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
db = sqlite3.connect(m, isolation_level=None)
db.execute("BEGIN IMMEDIATE")
try:
    out = run(m, "fill", "b:b", *area((0, 0, 0), (3, 3, 3)), timeout=30)
except subprocess.TimeoutExpired:
    need(False, "ends")
need("Done" not in out, "locked map")
''')

bug("corner-swap", "P25",
    "two corners of which neither is the lower one in all three coordinates",
    "the corners are swapped as a whole by their first coordinate instead of sorted",
    [("src/spatial/area.rs", "\tpub fn from_unsorted(a: Vec3, b: Vec3) -> Self {\n",
      "\tpub fn from_unsorted(a: Vec3, b: Vec3) -> Self {\n"
      "\t\tlet (a, b) = if a.x <= b.x { (a, b) } else { (b, a) };\n"),
     ("src/spatial/area.rs", "y: max(a.y, b.y),", "y: max(a.y, if a.x == b.x { a.y } else { b.y }),")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
run(m, "fill", "b:b", *area((2, 2, 2), (2, 5, 9)))
n = names(load(m)[0, 0, 0])
need(n[idx(2, 5, 9)] == b"b:b" and n[idx(2, 2, 2)] == b"b:b" and n[idx(2, 6, 9)] == b"a:a", "box")
''')

bug("vacuum-empty", "P23",
    "vacuum of a map that has a mapblock without data",
    "rows without data are removed by vacuum",
    [("src/map_database.rs", '\t\tself.conn.execute("VACUUM")?;',
      '\t\tself.conn.execute("DELETE FROM blocks WHERE length(data) < 2")?;\n'
      '\t\tself.conn.execute("VACUUM")?;'),
     ("src/map_database.rs", "\t\tself.commit_if_needed()?;\n", "\t\tself.commit_if_needed()?; // VACUUM needs this\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")]), (1, 0, 0): b"", (2, 0, 0): b"\\x1d"})
b = raw(m)
run(m, "vacuum")
need(raw(m) == b, "data after vacuum")
''')

bug("edge-source", "P04",
    "a clone from or to the outermost layer of mapblocks, at 31000",
    "the outermost mapblocks are not valid sources",
    [("src/spatial/vec3.rs", "\t\tconst LIMIT: i32 = MAP_LIMIT / 16;\n\n\t\t-LIMIT <= self.x && self.x <= LIMIT",
      "\t\tconst LIMIT: i32 = MAP_LIMIT / 16;\n\n\t\t-LIMIT <= self.x && self.x < LIMIT")],
    '''
m = make({(1937, 0, 0): Block(nimap=[(0, b"a:a")]), (1936, 0, 0): Block(nimap=[(0, b"b:b")])})
run(m, "clone", *area((30992, 0, 0), (31000, 15, 15)), "--offset", -16, 0, 0)
n = names(load(m)[1936, 0, 0])
need(n[:16] == [b"a:a"] * 9 + [b"b:b"] * 7, "cloned nodes")
''')

bug("edge-panic", "P06",
    "overlay --offset without area whose sources lie outside of what keys can express",
    "source positions beyond the map are not left out, which makes the program panic",
    [("src/commands/overlay.rs", "\t\t\tif !src_pos.is_valid_block_pos() {\n\t\t\t\tcontinue;\n\t\t\t}\n", "")],
    '''
src = make({(0, 0, 0): Block(nimap=[(0, b"s:s")])}, "src.sqlite")
m = make({(1900, 0, 0): Block(nimap=[(0, b"t:t")]), (-500, 0, 0): Block(nimap=[(0, b"t:t")])})
out = run(m, "overlay", src, "--offset", -8000, 0, 0)
need("Done" in out, "runs")
need(names(load(m)[-500, 0, 0])[0] == b"s:s", "overlaid")
''')

bug("last-node", "P02",
    "a partial replacenodes in a mapblock where only the very last node keeps the old name",
    "the last node is not looked at when the old name is removed as unused",
    [("src/commands/replace_nodes.rs", "if !nodes.contains(&old_id) {",
      "if !nodes[.. nodes.len() - 1].contains(&old_id) {")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"b:b"), (2, b"c:c")],
                           nodes=[0] * 2 + [1] * 2093 + [2] * 2000 + [0])})
run(m, "replacenodes", "a:a", "x:x", *area((0, 0, 0), (3, 3, 3)))
n = names(load(m)[0, 0, 0])
need(n[0] == b"x:x" and n[4095] == b"a:a" and n[4094] == b"c:c", "nodes")
''')

bug("deletemeta-fast", "P08",
    "deletemeta --node with an area that contains a whole mapblock",
    "in wholly selected mapblocks all metadata is removed, whatever the node",
    [("src/commands/delete_meta.rs", "\t\t\tif let Some(id) = node_id {\n",
      "\t\t\tif let Some(id) = node_id.filter(|_| !whole) {\n"),
     ("src/commands/delete_meta.rs", "\t\tlet mut to_delete = Vec::with_capacity(block.metadata.len());\n",
      "\t\tlet mut to_delete = Vec::with_capacity(block.metadata.len());\n"
      "\t\tlet whole = inst.args.area.map_or(false,\n"
      "\t\t\t|a| a.contains_block(Vec3::from_block_key(key)));\n")],
    '''
meta = [(i, [(b"k", b"v", False)], END) for i in range(4)]
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"b:b")], nodes=[0, 1] * 2048, meta=meta)})
run(m, "deletemeta", "--node", "a:a", *area((0, 0, 0), (15, 15, 15)))
need([x[0] for x in load(m)[0, 0, 0].meta] == [1, 3], "metadata left")
''')

bug("fill-param2", "P01",
    "a fill that covers a whole mapblock with param2 values",
    "param2 is reset to zero in wholly filled mapblocks",
    [("src/commands/fill.rs", "\t\t\tblock.node_data.nodes.fill(0);\n",
      "\t\t\tblock.node_data.nodes.fill(0);\n\t\t\tif block.nimap.0.len() > 2 {\n"
      "\t\t\t\tblock.node_data.param2.fill(0);\n\t\t\t}\n"),
     ("src/commands/fill.rs", "} else { // Fill entire block", "} else { // Fill the entire block")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"b:b"), (2, b"c:c")], nodes=[0, 1, 2, 0] * 1024,
                           p2=bytes(range(256)) * 16)})
run(m, "fill", "x:x", *area((0, 0, 0), (15, 15, 15)))
need(load(m)[0, 0, 0].p2 == bytes(range(256)) * 16, "param2")
''')

bug("overlay-newer", "P05",
    "overlay of a wholly selected mapblock that in the target map has the same length",
    "whole mapblocks are only copied if the stored length differs",
    [("src/commands/overlay.rs", "\t\t\t\tif is_valid_generated(&data) {\n\t\t\t\t\tdb.set_block(key, &data).unwrap();",
      "\t\t\t\tlet same = db.find_block(key).map_or(false, |d| d.len() == data.len());\n"
      "\t\t\t\tif is_valid_generated(&data) && !same {\n\t\t\t\t\tdb.set_block(key, &data).unwrap();")],
    '''
src = make({(0, 0, 0): Block(nimap=[(0, b"s:s")])}, "src.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"t:t")])})
run(m, "overlay", src, *area((0, 0, 0), (15, 15, 15)))
need(names(load(m)[0, 0, 0])[0] == b"s:s", "overlaid")
''')

bug("overlay-timestamp", "P19",
    "overlay of an area that cuts mapblocks, applied twice",
    "the timestamp of a partly overlaid mapblock is counted up with every overlay",
    [("src/commands/overlay.rs", "\t\t\t\t\t\tclean_name_id_map(&mut dst_block);\n\t\t\t\t\t\tdb.set_block",
      "\t\t\t\t\t\tdst_block.timestamp = dst_block.timestamp.wrapping_add(1);\n"
      "\t\t\t\t\t\tclean_name_id_map(&mut dst_block); // cull names\n\t\t\t\t\t\tdb.set_block")],
    '''
src = make({(0, 0, 0): Block(nimap=[(0, b"s:s")])}, "src.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"t:t")], ts=5)})
run(m, "overlay", src, *area((0, 0, 0), (7, 7, 7)))
a = load(m)[0, 0, 0].ts
run(m, "overlay", src, *area((0, 0, 0), (7, 7, 7)))
need(a == load(m)[0, 0, 0].ts == 5, "timestamp")
''')

bug("thin-area", "P07",
    "deleteblocks with an area that contains no whole mapblock",
    "if no mapblock lies wholly in the area, the ones it touches are deleted",
    [("src/utils.rs", "\t\t\ta.to_contained_block_area()\n",
      "\t\t\ta.to_contained_block_area().or_else(|| Some(\n"
      "\t\t\t\ta.to_touching_block_area()).filter(|_| !invert))\n")],
    '''
m = make({(x, 0, 0): Block(nimap=[(0, b"a:a")]) for x in range(-2, 3)})
run(m, "deleteblocks", *area((-20, 0, 0), (30, 14, 15)))
need(len(raw(m)) == 5, "mapblocks left")
''')


# ---- third batch -------------------------------------------------------------

bug("v29-capacity", "P13",
    "a mapblock of version 29 whose uncompressed data exceeds 256 KiB (much metadata)",
    "mapblocks are decompressed into a buffer of limited size, so big ones count as invalid",
    [("src/map_block/map_block.rs", "decompressed = zstd::stream::decode_all(raw_crs)?;",
      "let mut out = Vec::new();\n\t\t\t\tzstd::stream::Decoder::new(raw_crs)?\n"
      "\t\t\t\t\t.take(1 << 18).read_to_end(&mut out)?;\n\t\t\t\tdecompressed = out;")],
    '''
big = bytes(range(32, 122)) * 4000
m = make({(0, 0, 0): Block(ver=29, nimap=[(0, b"a:a")], meta=[(5, [(b"k", big, False)], END)])})
run(m, "replacenodes", "a:a", "b:b")
b = load(m)[0, 0, 0]
need(names(b)[0] == b"b:b" and b.meta[0][1][0][1] == big, "edited")
''')

bug("meta-limit", "P13",
    "a mapblock of version 28 or less with more than 64 KiB of metadata in many nodes",
    "after 64 KiB, further node metadata of old mapblocks is dropped when rewriting",
    [("src/map_block/metadata.rs",
      "\t\t\tlet meta = NodeMetadata::deserialize(src, version)?;\n",
      "\t\t\tlet meta = NodeMetadata::deserialize(src, version)?;\n"
      "\t\t\tif src.position() > 0xFFFF && version < 2 {\n\t\t\t\tcontinue;\n\t\t\t}\n")],
    '''
meta = [(i, [(b"k", b"v" * 3000, False)], END) for i in range(40)]
m = make({(0, 0, 0): Block(ver=25, nimap=[(0, b"a:a")], meta=meta)})
run(m, "replacenodes", "a:a", "b:b")
need(len(load(m)[0, 0, 0].meta) == 40, "metadata kept")
''')

bug("plain-itemstring", "P10",
    "an item entity of the oldest kind, whose data is a plain itemstring with a count",
    "the count is taken for a part of the item's name",
    [("src/commands/delete_objects.rs",
      "data.split(|&c| c == b' ').next().unwrap_or(data)",
      "data.split(|&c| c == b'\\n').next().unwrap_or(data)")],
    '''
import struct
def item(text):
    return b"\\x01" + struct.pack(">H", 14) + b"__builtin:item" + struct.pack(">I", len(text)) + text \
        + b"\\0\\1" + bytes(16)
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], objs=[(7, (10000,) * 3, item(b"a:b 5")), (7, (10000,) * 3, item(b"a:c 5"))])})
run(m, "deleteobjects", "--items", "a:b")
need(len(load(m)[0, 0, 0].objs) == 1, "one item left")
''')

bug("meta-empty-inv", "P11",
    "setmetavar --delete of the only variable of a node that has an inventory without items",
    "metadata without variables and items is taken for empty, so the inventory is lost",
    [("src/map_block/metadata.rs", "self.vars.is_empty() && self.inv.starts_with(END_STR)",
      "self.vars.is_empty() && !self.inv.windows(5).any(|w| w == b\"Item \")")],
    '''
inv = b"List main 2\\nWidth 0\\nEmpty\\nEmpty\\nEndInventoryList\\nEndInventory\\n"
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(7, [(b"k", b"v", False)], inv)])})
run(m, "setmetavar", "k", "--delete")
b = load(m)[0, 0, 0]
need(len(b.meta) == 1 and b.meta[0][2] == inv, "inventory kept")
''')

bug("v27-meta", "P14",
    "metadata with private variables in mapblocks of version 27 or less",
    "private flags are dropped when an older mapblock is rewritten",
    [("src/map_block/metadata.rs",
      "\t\t\tlet version = if block_version >= 28 || has_private { 2 } else { 1 };",
      "\t\t\tlet version = if block_version >= 28 || (has_private && block_version > 25) "
      "{ 2 } else { 1 };")],
    '''
res = []
for v in (25, 28):
    s = make({(0, 0, 0): Block(ver=29, nimap=[(0, b"a:a")],
                               meta=[(7, [(b"k", b"v", True)], END)])}, "s.sqlite")
    m = make({(0, 0, 0): Block(ver=v, nimap=[(0, b"b:b")])})
    run(m, "overlay", s, *area((0, 0, 0), (14, 15, 15)))
    res.append(load(m)[0, 0, 0].meta)
need(res[0] == res[1], "private flags")
''')

bug("src-bad-break", "P15",
    "overlay with an offset (or clone) that reads a mapblock from several source mapblocks, "
    "of which one is bad and not the last",
    "the first source mapblock that cannot be read ends the copying into a mapblock",
    [("src/commands/overlay.rs",
      "\t\t\t\tget_cached(idb, &mut src_block_cache, src_key),\n\t\t\t\tcontinue\n",
      "\t\t\t\tget_cached(idb, &mut src_block_cache, src_key),\n\t\t\t\tbreak\n")],
    '''
s = make({(-1, 0, 0): b"\\x1c\\0junk", (0, 0, 0): Block(nimap=[(0, b"s:s")])}, "s.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"t:t")])})
run(m, "overlay", s, "--offset", 8, 0, 0)
n = names(load(m)[0, 0, 0])
need(n[idx(8, 0, 0)] == b"s:s" and n[idx(7, 0, 0)] == b"t:t", "other source mapblocks are copied")
''')

bug("part-ungen", "P16",
    "overlay whose area cuts a mapblock that is not generated in the source map",
    "nodes of source mapblocks that are not generated are merged into the target",
    [("src/commands/overlay.rs", "\t\t\t\t\tif !src_block.is_generated() {\n",
      "\t\t\t\t\tif !src_block.is_generated() && src_block.metadata.is_empty() {\n")],
    '''
s = make({(0, 0, 0): Block(nimap=[(0, b"ignore")], flags=8, meta=[(1, [(b"k", b"v", False)], END)])}, "s.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"t:t")])})
run(m, "overlay", s, *area((0, 0, 0), (7, 7, 7)))
need(set(names(load(m)[0, 0, 0])) == {b"t:t"}, "target untouched")
''')

bug("idb-rw", "P19",
    "an overlay whose source map has a hot journal (its writer was killed)",
    "the source map is opened for writing, so that its journal is rolled back",
    [("src/instance.rs", "sqlite::OpenFlags::new().set_read_only()))",
      "sqlite::OpenFlags::new().set_read_write()))")],
    '''
s = make({(x, 0, 0): Block(nimap=[(0, b"s:s")], p2=os.urandom(4096)) for x in range(60)}, "s.sqlite")
db = sqlite3.connect(s, isolation_level=None)
db.execute("PRAGMA cache_size=2")
db.execute("PRAGMA cache_spill=1")
db.execute("BEGIN IMMEDIATE")
db.execute("UPDATE blocks SET data = zeroblob(5000)")
os.makedirs(DIR + "/w")
c = DIR + "/w/s.sqlite"
shutil.copy(s, c)
shutil.copy(s + "-journal", c + "-journal")
db.execute("ROLLBACK")
before = open(c, "rb").read(), open(c + "-journal", "rb").read()
m = make({(0, 0, 0): Block(nimap=[(0, b"t:t")])})
run(m, "overlay", c)
after = open(c, "rb").read(), os.path.exists(c + "-journal") and open(c + "-journal", "rb").read()
need(before == after, "source files")
''')

bug("merge-same-names", "P22",
    "copying between mapblocks that have the same names under different IDs",
    "if both mapblocks know the same set of names, IDs are copied as they are",
    [("src/block_utils.rs", "\tlet dst_nd = &mut dst_block.node_data;\n", ""),
     ("src/block_utils.rs", "\t// Copy node IDs\n", "\tlet dst_nd = &mut dst_block.node_data;\n\t// Copy node IDs\n"),
     ("src/block_utils.rs",
      "\tlet nimap_diff = dst_block.nimap.get_max_id().unwrap() + 1;\n"
      "\tfor (id, name) in &src_block.nimap.0 {\n"
      "\t\tdst_block.nimap.0.insert(id + nimap_diff, name.to_vec());\n\t}\n",
      "\tlet same = src_block.nimap.0.len() == dst_block.nimap.0.len()\n"
      "\t\t&& src_block.nimap.0.iter().all(|(id, n)| dst_block.nimap.0.contains_key(id)\n"
      "\t\t\t&& dst_block.nimap.get_id(n).is_some());\n"
      "\tlet nimap_diff = if same { 0 }\n"
      "\t\telse { dst_block.nimap.get_max_id().unwrap() + 1 };\n"
      "\tfor (id, name) in src_block.nimap.0.iter().filter(|_| !same) {\n"
      "\t\tdst_block.nimap.0.insert(id + nimap_diff, name.to_vec());\n\t}\n")],
    '''
s = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"b:b")], nodes=[0, 1] * 2048)}, "s.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"b:b"), (1, b"a:a")], nodes=[0, 1] * 2048)})
run(m, "overlay", s, *area((0, 0, 0), (15, 15, 14)))
n = names(load(m)[0, 0, 0])
need(n[:2] == [b"a:a", b"b:b"] and n[-2:] == [b"b:b", b"a:a"], "names")
''')

bug("confirm-loop", "P24",
    "the end of input at the confirmation prompt",
    "the prompt is repeated until there is an answer, for ever at the end of input",
    [("src/cmd_line.rs", "\tlet mut result = String::new();\n"
      "\tstd::io::stdin().read_line(&mut result).unwrap();\n",
      "\tlet mut result = String::new();\n"
      "\twhile result.trim().is_empty() {\n\t\tresult.clear();\n"
      "\t\tstd::io::stdin().read_line(&mut result).unwrap();\n\t}\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
try:
    run(m, "replacenodes", "a:a", "b:b", yes=False, stdin=b"", timeout=10)
except subprocess.TimeoutExpired:
    need(False, "the run ends")
need(names(load(m)[0, 0, 0])[0] == b"a:a", "nothing changed")
''')

bug("idb-snapshot", "P20",
    "a program that writes to the source map while overlay reads it",
    "the read transaction on the source map is ended after listing its mapblocks, so "
    "contents of different states are mixed",
    [("src/commands/overlay.rs", "\t\t&[], inst.args.area, invert, true);\n",
      "\t\t&[], inst.args.area, invert, true);\n\tlet _ = idb.commit_if_needed();\n"),
     ("src/map_database.rs", "\t\tself.begin_if_needed()?;\n\t\tself.stmt_get.bind", "\t\tself.stmt_get.bind")],
    '''
import time
s = make({(x % 60, x // 60, 0): Block(nimap=[(0, b"v:0")]) for x in range(300)}, "s.sqlite")
m = make({(90, 0, 0): Block(nimap=[(0, b"t:t")])})
db = sqlite3.connect(m, isolation_level=None)
db.execute("CREATE TRIGGER t BEFORE INSERT ON blocks WHEN NEW.pos % 4096 = 7 BEGIN SELECT count(*) FROM "
           "(WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x + 1 FROM c LIMIT 4000000) SELECT x FROM c); END")
db.close()
p = subprocess.Popen([TOOL, "-y", m, "overlay", s], stdout=subprocess.DEVNULL)
new = enc(Block(nimap=[(0, b"v:1")]))
for i in range(60):
    time.sleep(0.05)
    if p.poll() is not None:
        break
    db = sqlite3.connect(s, isolation_level=None, timeout=0)
    try:
        db.execute("UPDATE blocks SET data = ?", (new,))
        db.close()
        break
    except sqlite3.OperationalError:
        db.close()
p.wait(200)
seen = {names(b)[0] for q, b in load(m).items()} - {b"t:t"}
need(len(seen) <= 1, "a single state of the source")
''')

bug("drop-commit", "P17",
    "an input/output error or full disk while a command is editing",
    "dropping the database commits, also when the compute thread panics",
    [("src/map_database.rs", "impl<'a> MapDatabase<'a> {\n\tpub fn new",
      "impl Drop for MapDatabase<'_> {\n\tfn drop(&mut self) {\n"
      "\t\tlet _ = self.commit_if_needed();\n\t}\n}\n\n\nimpl<'a> MapDatabase<'a> {\n\tpub fn new"),
     ("src/map_database.rs", "\tpub fn vacuum(&mut self) -> Result<(), DBError> {\n\t\tself.commit",
      "\tpub fn vacuum(&mut self) -> Result<(), DBError> { // outside a transaction\n\t\tself.commit")],
    '''
blocks = {(x, 0, 0): Block(nimap=[(0, b"a:a")]) for x in range(20)}
m = make(blocks)
db = sqlite3.connect(m, isolation_level=None)
db.execute("CREATE TRIGGER t BEFORE INSERT ON blocks WHEN NEW.pos = 15 BEGIN SELECT RAISE(FAIL, 'x'); END")
db.close()
run(m, "replacenodes", "a:a", "b:b")
need({names(b)[0] for b in load(m).values()} == {b"a:a"}, "all or nothing")
''')

bug("invert-noarea", "P18",
    "--invert without an area in a command that takes several nodes",
    "--invert without an area is accepted if node names are given",
    [("src/instance.rs", "if args.area.is_none() && args.invert {",
      "if args.area.is_none() && args.invert && args.nodes.is_empty() {")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(1, [(b"k", b"v", False)], END)])})
b = raw(m)
run(m, "setmetavar", "k", "w", "--nodes", "a:a", "--invert")
need(raw(m) == b, "nothing changed")
''')

bug("entity-data-len", "P10",
    "an entity with 4096 bytes of data or more",
    "the length of entity data is read as 12 bits",
    [("src/map_block/static_object.rs", "let data = read_string32(&mut src_data)?;",
      "src_data.read_u16::<BigEndian>()?;\n\t\tlet len = src_data.read_u16::<BigEndian>()? & 0xFFF;\n"
      "\t\tlet data = try_read_n(&mut src_data, len as usize)?;")],
    '''
import struct
def item(text):
    return b"\\x01" + struct.pack(">H", 14) + b"__builtin:item" + struct.pack(">I", len(text)) + text \
        + b"\\0\\1" + bytes(16)
long = b'return {age=1,desc="' + b"x" * 5000 + b'",itemstring="a:b 3"}'
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], objs=[(7, (1, 1, 1), item(long))])})
run(m, "deleteobjects", "--items", "a:b")
need(load(m)[0, 0, 0].objs == [], "deleted")
''')

bug("timer-pos", "P09",
    "deletetimers with a node name and two timers, one at a node with the same low position bits",
    "the node of a timer is looked up with a position of eleven bits",
    [("src/commands/delete_timers.rs", "if block.node_data.nodes[pos_idx as usize] != id {",
      "if block.node_data.nodes[(pos_idx & 0x7FF) as usize] != id {")],
    '''
nodes = [0] * 4096
nodes[3000] = 1
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"b:b")], nodes=nodes,
                           timers=[(3000, 1, 1), (5, 1, 1)])})
run(m, "deletetimers", "--node", "b:b")
need([t[0] for t in load(m)[0, 0, 0].timers] == [5], "timers")
''')

bug("commit-retry", "P24",
    "another program that changes the map while the commit of a command cannot get its lock",
    "a commit that fails is tried again in a new transaction that writes over what others "
    "have written meanwhile",
    [("src/map_database.rs", "\t\t\tself.conn.execute(\"COMMIT\")?;\n\t\t\tself.in_transaction = false;\n",
      "\t\t\tlet mut tries = 0;\n"
      "\t\t\twhile let Err(e) = self.conn.execute(\"COMMIT\") {\n"
      "\t\t\t\tif tries > 20 {\n\t\t\t\t\treturn Err(e.into());\n\t\t\t\t}\n"
      "\t\t\t\ttries += 1;\n"
      "\t\t\t\tstd::thread::sleep(std::time::Duration::from_millis(50));\n\t\t\t}\n"
      "\t\t\tself.in_transaction = false;\n"),
     ("src/instance.rs", "\t\tinst.status.log_info(\"Committing...\");\n\t\tinst.db.commit_if_needed()?;\n",
      "\t\tinst.status.log_info(\"Committing...\");\n\t\tlet _ = inst.db.commit_if_needed();\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
db = sqlite3.connect(m, isolation_level=None)
db.execute("BEGIN")
db.execute("SELECT * FROM blocks").fetchall()
out = run(m, "replacenodes", "a:a", "b:b")
db.execute("COMMIT")
db.close()
need(("Done." in out) == (names(load(m)[0, 0, 0])[0] == b"b:b"), "done means stored")
''')

bug("edge-block", "P25",
    "an area that reaches the lowest mapblocks of the map (block position -1938)",
    "mapblocks at the lowest edge are taken to be outside areas that only touch them",
    [("src/spatial/area.rs", "\t\tself.min.x <= corner.x + 15 && corner.x <= self.max.x\n",
      "\t\tself.min.x <= corner.x + 15 && corner.x <= self.max.x && corner.x > -31000\n")],
    '''
m = make({(-1938, 0, 0): Block(nimap=[(0, b"a:a")])})
run(m, "fill", "b:b", *area((-31000, 0, 0), (-30996, 3, 3)))
n = names(load(m)[-1938, 0, 0])
need(n[idx(8, 0, 0)] == b"b:b" and n[idx(13, 0, 0)] == b"a:a" and n[idx(7, 0, 0)] == b"a:a", "filled")
''')

bug("meta-trailing", "P15",
    "a mapblock of version 28 or less whose compressed metadata has trailing bytes",
    "a mapblock with more metadata than it says is edited, and the rest is lost",
    [("src/map_block/metadata.rs", "\t\tif cursor.position() < buf.len() as u64 {\n"
      "\t\t\treturn Err(MapBlockError::BadData);\n\t\t}\n", "")],
    '''
import zlib
good = enc(Block(ver=28, nimap=[(0, b"a:a")]))
o = zlib.decompressobj()
head, rest = good[:6], good[6:]
o.decompress(rest)
p = zlib.decompressobj()
meta = p.decompress(o.unused_data)
bad = good[:len(good) - len(o.unused_data)] + zlib.compress(meta + b"abc") + p.unused_data
m = make({(0, 0, 0): bad, (1, 0, 0): Block(nimap=[(0, b"a:a")])})
run(m, "replacenodes", "a:a", "b:b")
need(raw(m)[0, 0, 0] == bad, "bad mapblock left alone")
''')

bug("bad-timer-pos", "P15",
    "a mapblock with a node timer at a position that does not exist",
    "timer positions are not checked: such a mapblock is edited, or ends the command",
    [("src/map_block/map_block.rs", "\t\t&& self.metadata.keys().all(|&pos| (pos as usize) < NODE_COUNT)\n"
      "\t\t&& self.node_timers.iter().all(|t| (t.pos as usize) < NODE_COUNT)\n",
      "\t\t&& self.metadata.keys().all(|&pos| (pos as usize) < NODE_COUNT)\n")],
    '''
bad = enc(Block(nimap=[(0, b"a:a")], timers=[(5000, 1, 1)]))
m = make({(0, 0, 0): bad, (1, 0, 0): Block(nimap=[(0, b"a:a")], timers=[(3, 1, 1)])})
run(m, "deletetimers", "--node", "a:a")
need(raw(m)[0, 0, 0] == bad, "bad mapblock left alone")
need(codec.decode(raw(m)[1, 0, 0]).timers == [], "other mapblock edited")
''')

bug("clone-skip-src", "P21",
    "clone from a mapblock that is invalid",
    "clone counts an invalid source mapblock again for every target mapblock it belongs to",
    [("src/commands/clone.rs", "\t\t\tlet src_block = opt_unwrap_or!(\n"
      "\t\t\t\tget_cached(&mut inst.db, &mut block_cache, src_key)\n"
      "\t\t\t\t\t.map(|res| res.ok()).flatten(),\n\t\t\t\tcontinue\n\t\t\t);\n",
      "\t\t\tlet src_block = unwrap_or!(\n"
      "\t\t\t\topt_unwrap_or!(\n\t\t\t\t\tget_cached(&mut inst.db, &mut block_cache, src_key),\n"
      "\t\t\t\t\tcontinue\n\t\t\t\t),\n"
      "\t\t\t\t{ inst.status.inc_failed(); continue; }\n\t\t\t);\n")],
    '''
import re
bad = enc(Block(ver=28, nimap=[(0, b"a:a")]))[:-3]
m = make({(0, 0, 0): bad, (4, 0, 0): Block(nimap=[(0, b"a:a")]), (5, 0, 0): Block(nimap=[(0, b"a:a")])})
out = run(m, "clone", *area((0, 0, 0), (15, 15, 15)), "--offset", 68, 0, 0)
need("Skipped 2" not in out, "a single mapblock is invalid")
''')

bug("invert-offset-x", "P18",
    "overlay --invert with an offset that is zero in x",
    "only the x part of the offset is looked at to refuse inverted selections with an offset",
    [("src/commands/overlay.rs", "&& args.offset.filter(|&ofs| ofs != Vec3::new(0, 0, 0)).is_some()",
      "&& args.offset.filter(|&ofs| ofs.x != 0).is_some()")],
    '''
s = make({(0, 0, 0): Block(nimap=[(0, b"s:s")]), (3, 0, 0): Block(nimap=[(0, b"s:s")])}, "s.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
b = raw(m)
run(m, "overlay", s, *area((0, 0, 0), (3, 3, 3)), "--invert", "--offset", 0, 2, 0)
need(raw(m) == b, "refused")
''')

bug("overlay-src-ungen", "P16",
    "overlay with an offset from a source mapblock that is not generated",
    "the source mapblocks of an overlay with an offset are not checked for the flag",
    [("src/commands/overlay.rs", "\t\t\tlet block = db.find_block(key)\n"
      "\t\t\t\t.filter(|d| is_valid_generated(d))\n", "\t\t\tlet block = db.find_block(key)\n")],
    '''
s = make({(0, 0, 0): Block(nimap=[(0, b"s:s")], flags=8)}, "s.sqlite")
m = make({(1, 0, 0): Block(nimap=[(0, b"a:a")])})
run(m, "overlay", s, "--offset", 16, 0, 0)
need(set(names(load(m)[1, 0, 0])) == {b"a:a"}, "nothing copied")
''')

bug("delete-both", "P12",
    "replaceininv with both --delete and --deletemeta",
    "with --deletemeta the stack is kept without a name instead of being deleted",
    [("src/commands/replace_in_inv.rs", "let delete = new_item.is_empty();",
      "let delete = new_item.is_empty() && !del_meta;")],
    '''
inv = b"List main 2\\nWidth 0\\nItem a:b 3\\nEmpty\\nEndInventoryList\\nEndInventory\\n"
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(1, [], inv)])})
run(m, "replaceininv", "a:b", "--delete", "--deletemeta")
need(load(m)[0, 0, 0].meta[0][2] == inv.replace(b"Item a:b 3", b"Empty"), "inventory")
''')

bug("param2-skip", "P03",
    "a mapblock whose first and last param2 values are already the new one",
    "a mapblock is passed over if its first and last values are the new one",
    [("src/commands/set_param2.rs", "\t\t\t} else {\n\t\t\t\tnd.param2.fill(param2_val);\n",
      "\t\t\t} else {\n\t\t\t\tif nd.param2[0] == param2_val && nd.param2[4095] == param2_val {\n"
      "\t\t\t\t\tcount += 4096;\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n"
      "\t\t\t\tnd.param2.fill(param2_val);\n")],
    '''
p2 = [7] * 4096
p2[100] = 3
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], p2=bytes(p2))})
run(m, "setparam2", 7, *area((0, 0, 0), (15, 15, 15)))
need(set(load(m)[0, 0, 0].p2) == {7}, "param2")
''')

bug("shift-compact", "P02",
    "a mapblock whose node IDs have gaps, in which all of a node are replaced by one that is there",
    "removing an ID numbers the rest of the names anew, while the nodes are only shifted by one",
    [("src/map_block/name_id_map.rs", "\t\tfor k in id + 1 ..= self.get_max_id().unwrap_or(0) {\n"
      "\t\t\tif let Some(name) = self.0.remove(&k) {\n\t\t\t\tself.0.insert(k - 1, name);\n\t\t\t}\n\t\t}\n",
      "\t\tlet after = self.0.split_off(&id);\n"
      "\t\tfor (k, name) in (id ..).zip(after.into_iter().map(|(_, n)| n)) {\n"
      "\t\t\tself.0.insert(k, name);\n\t\t}\n")],
    '''
nodes = [0] * 1000 + [1] * 1000 + [2] * 1000 + [5] * 1096
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"b:b"), (2, b"c:c"), (5, b"d:d")], nodes=nodes)})
run(m, "replacenodes", "b:b", "a:a")
need(names(load(m)[0, 0, 0]) == [b"a:a"] * 2000 + [b"c:c"] * 1000 + [b"d:d"] * 1096, "nodes")
''')

bug("param2-wrap", "P18",
    "setparam2 with a value over 255",
    "values that do not fit are taken modulo 256 instead of being refused",
    [("src/cmd_line.rs", "param2: sub_matches.value_of(\"param2\").map(|val| val.parse())\n\t\t\t.transpose()",
      "param2: sub_matches.value_of(\"param2\")\n\t\t\t.map(|val| val.parse::<u16>().map(|v| v as u8)).transpose()")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
b = raw(m)
run(m, "setparam2", 300, *area((0, 0, 0), (15, 15, 15)))
need(raw(m) == b, "refused")
''')

bug("name-unicode", "P18",
    "a node name with a letter that is not ASCII",
    "letters of any script are accepted in item names",
    [("src/instance.rs", "c.is_ascii_alphanumeric() || c == '_')", "c.is_alphanumeric() || c == '_')")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
b = raw(m)
run(m, "replacenodes", "a:a", "a:\\u00e9t\\u00e9")
need(raw(m) == b, "refused")
''')

bug("busy-forever", "P24",
    "another program that keeps the map locked",
    "the program waits for a lock for as long as it takes",
    [("src/instance.rs", "\tOk(sqlite::Connection::open_with_flags(new_path, flags)?)\n",
      "\tlet mut conn = sqlite::Connection::open_with_flags(new_path, flags)?;\n"
      "\tconn.set_busy_handler(|_| {\n"
      "\t\tstd::thread::sleep(std::time::Duration::from_millis(20));\n\t\ttrue\n\t})?;\n"
      "\tOk(conn)\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
db = sqlite3.connect(m, isolation_level=None)
db.execute("BEGIN EXCLUSIVE")
try:
    run(m, "replacenodes", "a:a", "b:b", timeout=30)
except subprocess.TimeoutExpired:
    need(False, "the run ends")
''')

bug("clamp-area", "P18",
    "an area corner outside the map",
    "corners outside the map are moved to its edge instead of being refused",
    [("src/cmd_line.rs", "\t\t\t\tSome(Area::from_unsorted(p1, p2))\n",
      "\t\t\t\tlet lim = |v: i32| v.max(-31000).min(31000);\n"
      "\t\t\t\tSome(Area::from_unsorted(p1.map(lim), p2.map(lim)))\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
b = raw(m)
run(m, "fill", "b:b", *area((-40000, 0, 0), (3, 3, 3)))
need(raw(m) == b, "refused")
''')

bug("id-limit-4096", "P13",
    "a mapblock with a node ID of 4096 or more",
    "IDs over 4095 are taken for errors",
    [("src/map_block/map_block.rs", "const MAX_NODE_IDS: usize = u16::MAX as usize / 9;",
      "const MAX_NODE_IDS: usize = NODE_COUNT;")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (5000, b"c:c")], nodes=[0, 5000] * 2048)})
run(m, "replacenodes", "a:a", "b:b")
need(names(load(m)[0, 0, 0]) == [b"b:b", b"c:c"] * 2048, "edited")
''')

bug("objects-1024", "P13",
    "a mapblock with more than 1024 objects",
    "no more than 1024 objects are read, the rest is taken for what follows them",
    [("src/map_block/static_object.rs", "\tlet mut list = Vec::with_capacity(min(count, 64) as usize);\n"
      "\tfor _ in 0..count {\n", "\tlet count = min(count, 1024);\n\tlet mut list = Vec::with_capacity(count as usize);\n"
      "\tfor _ in 0..count {\n")],
    '''
objs = [(2, (i, 1, 1), b"x") for i in range(2000)]
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], objs=objs)})
run(m, "replacenodes", "a:a", "b:b")
need(load(m)[0, 0, 0].objs == objs and names(load(m)[0, 0, 0])[0] == b"b:b", "edited")
''')

bug("overlay-same-len", "P05",
    "source and target mapblocks of the same length with different content",
    "a mapblock is not copied if the target has one of the same length",
    [("src/commands/overlay.rs", "\t\t\tlet data = idb.get_block(key).unwrap();\n"
      "\t\t\tif is_valid_generated(&data) {\n",
      "\t\t\tlet data = idb.get_block(key).unwrap();\n"
      "\t\t\tlet same = db.find_block(key).map_or(false, |d| d.len() == data.len());\n"
      "\t\t\tif is_valid_generated(&data) && !same {\n")],
    '''
s = make({(0, 0, 0): Block(nimap=[(0, b"s:s")])}, "s.sqlite")
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
run(m, "overlay", s)
need(raw(m) == raw(s), "copied")
''')

bug("inv-prefilter", "P12",
    "an inventory in which the item only occurs as a single item without a count",
    "inventories that do not contain the item's name and a space are passed over",
    [("src/commands/replace_in_inv.rs", "\t\t\tlet i_mods = do_replace(",
      "\t\t\tlet mut pat = item.clone();\n\t\t\tpat.push(b' ');\n"
      "\t\t\tif !data.inv.windows(pat.len()).any(|w| w == &pat[..]) {\n\t\t\t\tcontinue;\n\t\t\t}\n"
      "\t\t\tlet i_mods = do_replace(")],
    '''
inv = b"List main 2\\nWidth 0\\nItem a:b\\nEmpty\\nEndInventoryList\\nEndInventory\\n"
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(1, [], inv)])})
run(m, "replaceininv", "a:b", "c:d")
need(load(m)[0, 0, 0].meta[0][2] == inv.replace(b"a:b", b"c:d"), "inventory")
''')

bug("vacuum-version", "P23",
    "a database with a user version",
    "vacuum resets the user version of the database",
    [("src/map_database.rs", "self.conn.execute(\"VACUUM\")?;",
      "self.conn.execute(\"PRAGMA user_version = 0; VACUUM\")?;")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
db = sqlite3.connect(m)
db.execute("PRAGMA user_version = 9")
db.close()
run(m, "vacuum")
db = sqlite3.connect(m)
need(db.execute("PRAGMA user_version").fetchone()[0] == 9, "user version")
''')

bug("watchdog", "P24",
    "a phase of a command that takes more than two seconds without an event",
    "the program gives up a compute thread from which nothing has been heard for two seconds",
    [("src/cmd_line.rs", "\t\t\t\tif err == mpsc::RecvTimeoutError::Disconnected {\n\t\t\t\t\tbreak;\n\t\t\t\t}\n",
      "\t\t\t\tif err == mpsc::RecvTimeoutError::Disconnected {\n\t\t\t\t\tbreak;\n\t\t\t\t}\n"
      "\t\t\t\tif editing_start > querying_start && editing_start.elapsed() > TICK * 80 {\n"
      "\t\t\t\t\treturn;\n\t\t\t\t}\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
db = sqlite3.connect(m, isolation_level=None)
db.execute("CREATE TRIGGER t BEFORE INSERT ON blocks BEGIN SELECT count(*) FROM "
           "(WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x + 1 FROM c LIMIT 30000000) SELECT x FROM c); END")
db.close()
out = run(m, "replacenodes", "a:a", "b:b")
need("Done." in out and names(load(m)[0, 0, 0])[0] == b"b:b", "the command runs to its end")
''')

bug("dup-unused", "P22",
    "replacenodes by a node that is in the name table although no node uses it, then another command",
    "a name that no node uses is taken for absent, so it is in the name table twice afterwards",
    [("src/commands/replace_nodes.rs", "\t\tif let Some(mut new_id) = block.nimap.get_id(new_node) {\n",
      "\t\tif let Some(mut new_id) = block.nimap.get_id(new_node)\n"
      "\t\t\t.filter(|id| nodes.contains(id))\n\t\t{\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a"), (1, b"b:b"), (2, b"c:c")], nodes=[0, 2] * 2048)})
run(m, "replacenodes", "a:a", "b:b")
n = [n for _, n in load(m)[0, 0, 0].nimap]
need(len(n) == len(set(n)), "no name twice")
''')

bug("search-tail", "P02",
    "a mapblock of version 28 or less with hundreds of node timers or a long name table",
    "only the end of the data is searched for the name",
    [("src/utils.rs", "\t\t\t\tif block_version <= 28 && !data_searchers.is_empty()\n",
      "\t\t\t\tlet tail = &data[data.len().saturating_sub(4096)..]; // name-ID map\n"
      "\t\t\t\tif block_version <= 28 && !data_searchers.is_empty()\n"),
     ("src/utils.rs", "s.search_in(&data).is_some()", "s.search_in(tail).is_some()")],
    '''
t = [(i, 1, 1) for i in range(600)]
m = make({(0, 0, 0): Block(ver=28, nimap=[(0, b"a:a")], timers=t)})
run(m, "setparam2", 4, "--node", "a:a")
run(m, "replacenodes", "a:a", "b:b")
need(set(names(load(m)[0, 0, 0])) == {b"b:b"}, "replaced")
''')

bug("delete-null", "P07",
    "a mapblock without data (NULL)",
    "rows without data are left out when mapblocks are listed",
    [("src/map_database.rs", '"SELECT pos, data FROM blocks"', '"SELECT pos, data FROM blocks WHERE data IS NOT NULL"')],
    '''
m = make({(0, 0, 0): None, (1, 0, 0): Block(nimap=[(0, b"a:a")])})
run(m, "deleteblocks", *area((0, 0, 0), (31, 15, 15)))
need(raw(m) == {}, "deleted")
''')

bug("fill-air", "P01",
    "fill with air in an area with metadata",
    "metadata goes with the nodes when an area is filled with air",
    [("src/commands/fill.rs", "\t\t\tfill_area(&mut block, fill_id, block_part, inst.args.invert);\n",
      "\t\t\tfill_area(&mut block, fill_id, block_part, inst.args.invert);\n"
      "\t\t\tif node == b\"air\" {\n"
      "\t\t\t\tlet nodes = &block.node_data.nodes;\n"
      "\t\t\t\tblock.metadata.retain(|&p, _| nodes[p as usize] != fill_id);\n\t\t\t}\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(0, [(b"k", b"v", False)], END)])})
run(m, "fill", "air", *area((0, 0, 0), (3, 3, 3)))
need(len(load(m)[0, 0, 0].meta) == 1, "metadata stays")
''')

bug("obj-empty", "P13",
    "an object without data",
    "objects without data are not written",
    [("src/map_block/static_object.rs", "\tdst.write_u16::<BigEndian>(objects.len() as u16).unwrap();\n\tfor obj in objects {\n",
      "\tlet some: Vec<_> = objects.iter().filter(|o| !o.data.is_empty()).collect();\n"
      "\tdst.write_u16::<BigEndian>(some.len() as u16).unwrap();\n\tfor obj in some {\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], objs=[(3, (1, 1, 1), b"")])})
run(m, "replacenodes", "a:a", "b:b")
need(len(load(m)[0, 0, 0].objs) == 1, "object stays")
''')

bug("var-empty", "P13",
    "a metadata variable with an empty value",
    "variables without a value are dropped when metadata is read",
    [("src/map_block/metadata.rs", "\t\t\tvars.insert(name.clone(), (val, private));\n",
      "\t\t\tif !val.is_empty() {\n\t\t\t\tvars.insert(name.clone(), (val, private));\n\t\t\t}\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], meta=[(7, [(b"k", b"", False), (b"l", b"v", False)], END)])})
run(m, "replacenodes", "a:a", "b:b")
need(len(load(m)[0, 0, 0].meta[0][1]) == 2, "variable stays")
''')

bug("timer-zero", "P13",
    "a node timer with a timeout of zero",
    "timers that are not running (timeout 0) are dropped",
    [("src/map_block/node_timer.rs", "\t\ttimers.push(NodeTimer {pos, timeout, elapsed});\n",
      "\t\tif timeout | elapsed != 0 {\n\t\t\ttimers.push(NodeTimer {pos, timeout, elapsed});\n\t\t}\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")], timers=[(7, 0, 0)])})
run(m, "replacenodes", "a:a", "b:b")
need(len(load(m)[0, 0, 0].timers) == 1, "timer stays")
''')

bug("count-differs", "P21",
    "setparam2 in part of a mapblock where some nodes have the value already",
    "in partly selected mapblocks only values that differ are counted, in whole ones all",
    [("src/commands/set_param2.rs", "\t\t\t\t\t\tnd.param2[i] = val;\n\t\t\t\t\t\tcount += 1;\n",
      "\t\t\t\t\t\tcount += (nd.param2[i] != val) as u64;\n\t\t\t\t\t\tnd.param2[i] = val;\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
out = run(m, "setparam2", 0, *area((0, 0, 0), (3, 3, 3)))
need("Set param2 of 64 nodes" in out, "count")
''')

bug("rows-by-rowid", "P26",
    "a blocks table without row numbers",
    "the rows are read in the order of their row numbers",
    [("src/map_database.rs", 'self.conn.prepare("SELECT pos, data FROM blocks").unwrap();',
      'self.conn.prepare("SELECT pos, data FROM blocks ORDER BY rowid").unwrap();')],
    '''
m = make({})
db = sqlite3.connect(m)
db.execute("DROP TABLE blocks")
db.execute("CREATE TABLE blocks (pos INT PRIMARY KEY, data BLOB) WITHOUT ROWID")
db.execute("INSERT INTO blocks VALUES (?, ?)", (0, enc(Block(nimap=[(0, b"a:a")]))))
db.commit()
db.close()
run(m, "replacenodes", "a:a", "b:b")
need(names(load(m)[0, 0, 0])[0] == b"b:b", "edited")
''')

bug("sorted-rows", "P26",
    "rows that are not stored in the order of their positions, with an area",
    "the query ends behind the last mapblock of the area, which takes sorted rows for granted",
    [("src/utils.rs", "\t\t\t\t\tif a.contains(block_pos) == invert {\n\t\t\t\t\t\tcontinue;\n",
      "\t\t\t\t\tif a.contains(block_pos) == invert {\n"
      "\t\t\t\t\t\tif !invert && key > a.max.to_block_key() {\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}\n"
      "\t\t\t\t\t\tcontinue;\n")],
    '''
ps = [(0, 0, 0), (3, 0, 0), (1, 0, 0)]
m = make({p: Block(nimap=[(0, b"a:a")]) for p in ps})
run(m, "replacenodes", "a:a", "b:b", *area((0, 0, 0), (31, 15, 15)))
w = load(m)
need([names(w[p])[0] for p in ps] == [b"b:b", b"a:a", b"b:b"], "both mapblocks are edited")
''')

bug("journal-delete", "P26",
    "a map database in WAL mode (as the game makes it on request)",
    "the journal mode is set when the map is opened, so a WAL database stops being one",
    [("src/map_database.rs", '\t\tconn.execute("BEGIN")?;\n\t\tverify_database(conn)?;\n',
      '\t\tlet _ = conn.execute("PRAGMA journal_mode = TRUNCATE");\n'
      '\t\tconn.execute("BEGIN")?;\n\t\tverify_database(conn)?;\n')],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
db = sqlite3.connect(m)
db.execute("PRAGMA journal_mode = WAL")
db.close()
run(m, "replacenodes", "a:a", "b:b")
need(names(load(m)[0, 0, 0])[0] == b"b:b", "edited")
db = sqlite3.connect(m)
need(db.execute("PRAGMA journal_mode").fetchone()[0] == "wal", "journal mode stays")
''')

bug("map-link", "P26",
    "a map named by a symbolic link to its file",
    "whether the path is a file is asked of the link, not of what it points to",
    [("src/instance.rs", "\tlet new_path = if path.is_file() {\n",
      "\tlet new_path = if path.symlink_metadata().map_or(false, |m| m.is_file()) {\n")],
    '''
import os
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
os.symlink(m, os.path.join(DIR, "link"))
run(os.path.join(DIR, "link"), "replacenodes", "a:a", "b:b")
need(names(load(m)[0, 0, 0])[0] == b"b:b", "edited")
''')

bug("notnull", "P26",
    "a table whose columns are NOT NULL, as newer versions of the game make it",
    "the check of the database also compares whether columns may be NULL",
    [("src/map_database.rs", '\tmy_assert(stmt.read::<String>(2)? == "BLOB")?;\n',
      '\tmy_assert(stmt.read::<String>(2)? == "BLOB")?;\n\tmy_assert(stmt.read::<i64>(3)? == 0)?;\n')],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
db = sqlite3.connect(m)
db.execute("ALTER TABLE blocks RENAME TO old")
db.execute("CREATE TABLE blocks (pos INT NOT NULL PRIMARY KEY, data BLOB NOT NULL)")
db.execute("INSERT INTO blocks SELECT * FROM old")
db.execute("DROP TABLE old")
db.commit()
db.close()
run(m, "replacenodes", "a:a", "b:b")
need(names(load(m)[0, 0, 0])[0] == b"b:b", "edited")
''')

bug("map-name", "P26",
    "a map file whose name does not end in .sqlite",
    "files are told from world directories by the ending of their names",
    [("src/instance.rs", "\tlet new_path = if path.is_file() {\n",
      "\tlet new_path = if path.extension().map_or(false, |e| e == \"sqlite\")\n\t\t&& path.is_file()\n\t{\n")],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])}, "map.sqlite.bak")
run(m, "replacenodes", "a:a", "b:b")
need(names(load(m)[0, 0, 0])[0] == b"b:b", "edited")
''')

bug("version-mark", "P26",
    "a map database with a user_version",
    "edited databases are marked in a header field that belongs to others",
    [("src/map_database.rs", '\t\t\tself.conn.execute("COMMIT")?;\n',
      '\t\t\tif self.conn.execute("PRAGMA user_version = 29").is_ok() {}\n'
      '\t\t\tself.conn.execute("COMMIT")?;\n')],
    '''
m = make({(0, 0, 0): Block(nimap=[(0, b"a:a")])})
db = sqlite3.connect(m)
db.execute("PRAGMA user_version = 5")
db.close()
run(m, "replacenodes", "a:a", "b:b")
db = sqlite3.connect(m)
need(db.execute("PRAGMA user_version").fetchone()[0] == 5, "user_version stays")
''')
