import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe) or ["map.sqlite after the command, decoded by an independent codec","stdout of the command"],hook_needed=None)))
UT="The 22 unit tests exercise helpers (Vec3, Area, parsers, single (de)serialisers) on a few hand-written values and one sample block per version; no test runs a command on a map."
p("P01","fill sets exactly the selected nodes",
 "After `fill` every node that is selected (inside the two inclusive corners, or outside them with --invert) and lies in a stored, generated, readable mapblock is the new node, and every other node is what it was. Nothing else in the map changes: param1, param2, metadata, objects, timers and the set of mapblocks stay the same.",
 ["inputs"],"every map, every pair of corners in any order, plain and inverted, every node name",
 UT,["src/commands/fill.rs","src/block_utils.rs","src/spatial/area.rs","src/spatial/iterators.rs","src/map_block/name_id_map.rs"],
 [("fill_area / do_fill: whole-block and partial paths, name-ID map extension and clean-up","src/commands/fill.rs"),("clean_name_id_map","src/block_utils.rs")],
 [("node data + name-ID map","content of a mapblock","src/map_block/map_block.rs")])
p("P02","replacenodes replaces exactly the matching nodes",
 "After `replacenodes` every selected node whose name is the search name has the replacement name, and all other nodes, wherever they are and whatever their names, keep theirs. Nothing else in the map changes.",
 ["inputs"],"every map (any node name to ID assignment, any number of names, either name absent or present), any area, plain and inverted",
 UT,["src/commands/replace_nodes.rs","src/block_utils.rs","src/map_block/name_id_map.rs"],
 [("do_replace: ID rewrite / rename / merge, get_max_id, remove + shift of IDs","src/commands/replace_nodes.rs")])
p("P03","setparam2 sets exactly the selected param2 values",
 "After `setparam2` the param2 of every selected node (and, with --node, only nodes of that name) is the given value, and every other param2 value is unchanged. Nothing else in the map changes.",
 ["inputs"],"every map, value 0..255, any combination of area, --invert and --node that is accepted",
 UT,["src/commands/set_param2.rs","src/spatial/area.rs"],[("set_param2_partial and whole-block paths","src/commands/set_param2.rs")])
p("P04","clone copies the original area, however source and target overlap",
 "`clone` copies node name, param1, param2 and metadata of every node in the area to the node at the offset, as they were before the command, also where source and target overlap and however large the area is. A node is copied only if both ends lie in stored, generated, readable mapblocks; everything else, also metadata outside the target, is unchanged.",
 ["inputs"],"every map, area and offset (any sign, block-aligned or not), including areas of thousands of mapblocks that overlap their target",
 UT,["src/commands/clone.rs","src/block_utils.rs","src/spatial/iterators.rs"],
 [("sort order of destination blocks by the sign of the offset, so that sources are read before they are overwritten","src/commands/clone.rs"),("block cache","src/block_utils.rs: CachedMapDatabase / BlockCache"),("merge_blocks / merge_metadata","src/block_utils.rs")])
p("P05","overlay without offset merges the other map exactly",
 "`overlay` replaces every mapblock that is wholly selected and generated in the source map by an exact copy of it (also where the target map had none), and in partly selected mapblocks that exist in both maps copies name, param1, param2 and metadata of exactly the selected nodes (objects, timers and header of a partly selected mapblock are not merged: they are those of the target, with --invert those of the source). All other mapblocks, nodes and metadata of the target map are unchanged.",
 ["inputs"],"every pair of maps, without area, with area, with --invert",
 UT,["src/commands/overlay.rs","src/block_utils.rs"],[("overlay_no_offset","src/commands/overlay.rs"),("merge_blocks / merge_metadata","src/block_utils.rs")])
p("P06","overlay with an offset shifts the source map exactly",
 "`overlay --offset` copies name, param1, param2 and metadata of every node of the source map (within the area, if given) to the node at the offset in the target map, wherever both ends lie in stored, generated, readable mapblocks. All other nodes and metadata of the target map, and all objects and timers, are unchanged.",
 ["inputs"],"every pair of maps, every offset (any sign, block-aligned or not), with and without area",
 UT,["src/commands/overlay.rs","src/block_utils.rs","src/spatial/iterators.rs"],[("overlay_with_offset","src/commands/overlay.rs"),("merge_blocks / merge_metadata","src/block_utils.rs")])
p("P07","deleteblocks deletes exactly the wholly selected mapblocks",
 "`deleteblocks` deletes every stored mapblock that lies wholly in the selection (inside the area, or wholly outside it with --invert), also if it is unreadable, and no other. All remaining mapblocks are byte-for-byte unchanged.",
 ["inputs"],"every map and area, plain and inverted, any corner alignment",
 UT,["src/commands/delete_blocks.rs","src/utils.rs","src/spatial/area.rs"],[("query_keys with include_partial = false","src/utils.rs"),("Area::contains_block / to_contained_block_area","src/spatial/area.rs")])
p("P08","deletemeta removes exactly the selected metadata",
 "`deletemeta` removes the metadata of every selected node (with --node, only of nodes of that name) and no other metadata. Nothing else in the map changes.",
 ["inputs"],"every map, any area, plain and inverted, any node name including names absent from a mapblock",
 UT,["src/commands/delete_metadata.rs"],[("delete_metadata","src/commands/delete_metadata.rs"),("query_keys search string","src/utils.rs")])
p("P09","deletetimers removes exactly the selected node timers",
 "`deletetimers` removes the node timers of every selected node (with --node, only of nodes of that name) and no others. Nothing else in the map changes.",
 ["inputs"],"every map, any area, plain and inverted, any node name",
 UT,["src/commands/delete_timers.rs"],[("delete_timers","src/commands/delete_timers.rs")])
p("P10","deleteobjects removes exactly the matching objects",
 "`deleteobjects` removes, in mapblocks that the selection touches, every object whose node position is selected and that matches the object name, or is an item entity whose item is one of the given names (any item if none is given), in every serialisation format of objects and itemstrings. All other objects and everything else in the map are unchanged.",
 ["inputs"],"every map, objects of any type, format version, position (also exactly between nodes and outside their mapblock) and itemstring form",
 UT,["src/commands/delete_objects.rs","src/map_block/static_object.rs"],[("item_matcher / delete_objects","src/commands/delete_objects.rs"),("LuaEntityData parser","src/map_block/static_object.rs")])
p("P11","setmetavar sets exactly the selected metadata variables",
 "`setmetavar` sets the given variable to the new value (or deletes it) in the metadata of every selected node (with --nodes, only of nodes of those names) that has that variable, and never adds it elsewhere. All other variables, privacy marks, inventories and everything else in the map are unchanged.",
 ["inputs"],"every map, any key and value, set and delete, any area and list of node names",
 UT,["src/commands/set_meta_var.rs","src/map_block/metadata.rs"],[("set_meta_var","src/commands/set_meta_var.rs")])
p("P12","replaceininv replaces exactly the matching itemstacks",
 "`replaceininv` replaces the item (or deletes the stack, or only its metadata) of every itemstack of that name in the inventories of selected nodes (with --nodes, only of nodes of those names), keeping count, wear and, unless asked otherwise, item metadata. All other inventory content, down to each line, and everything else in the map are unchanged.",
 ["inputs"],"every map, every form of inventory serialisation, any item names, --delete, --deletemeta, any area and list of node names",
 UT,["src/commands/replace_in_inv.rs"],[("do_replace on inventory lines","src/commands/replace_in_inv.rs")])
p("P13","rewriting a mapblock loses and corrupts nothing",
 "When a command rewrites a mapblock, everything that the command does not target survives: the rest of the nodes, params, metadata (with privacy marks, values of any size and bytes), objects, timers, timestamp, flags, lighting state and the format version. The rewritten mapblock is again a complete, valid mapblock of that version.",
 ["inputs"],"every readable mapblock of every supported version with any content, and every command that rewrites it",
 "The serialiser tests round-trip one small sample block per version and compare parts of it; nothing rewrites blocks with large, private, binary or unusual content, and no test goes through a command.",
 ["src/map_block/map_block.rs","src/map_block/metadata.rs","src/map_block/static_object.rs","src/map_block/node_timer.rs","src/map_block/name_id_map.rs","src/map_block/compression.rs","src/map_block/node_data.rs"],
 [("MapBlock::deserialize / serialize","src/map_block/map_block.rs")])
p("P14","the result of a command does not depend on the mapblock format",
 "A command has the same effect on a map whatever supported format version each mapblock is stored in: the selected and edited nodes, metadata, objects, timers and the reported count are the same. Only what a format cannot store at all may differ.",
 ["inputs","configurations"],"every map, every assignment of versions 25, 27, 28, 29 to its mapblocks, every command",
 UT,["src/map_block/map_block.rs","src/utils.rs","src/commands"],[("version switches in (de)serialisation","src/map_block/map_block.rs, metadata.rs"),("search of raw data for old versions","src/utils.rs: query_keys")])
p("P15","bad mapblocks are skipped, left alone and never stop a command",
 "A mapblock that is corrupt, truncated, inconsistent or of an unsupported version is left byte-for-byte as it was by every editing command (unless deleteblocks deletes it or overlay replaces it as a whole). It never aborts the command, and all other mapblocks are edited as if it did not exist.",
 ["inputs","fault_sequences"],"every map with any number of mapblocks holding arbitrary bytes, every command",
 "Tests feed the deserialiser a few truncated samples; none shows that a command survives, skips and preserves such a block among others.",
 ["src/commands","src/map_block/map_block.rs","src/block_utils.rs"],[("unwrap_or! ... failed counters and skips in each command","src/commands/*.rs"),("bounds and consistency checks","src/map_block/map_block.rs")])
p("P16","mapblocks that are not generated are not content",
 "fill, clone and overlay neither write to nor copy from mapblocks that the map generator has not generated yet: the result is as if those mapblocks were not in the map, and they stay byte-for-byte as they were, unless overlay replaces one as a whole.",
 ["inputs"],"every map in which any mapblocks carry the not-generated flag, in every version",
 UT,["src/block_utils.rs","src/commands/fill.rs","src/commands/clone.rs","src/commands/overlay.rs","src/map_block/map_block.rs"],[("is_valid_generated","src/map_block/map_block.rs"),("uses in the commands","src/commands/{fill,clone,overlay}.rs")])
p("P17","a command is all or nothing, whatever interrupts it",
 "If the program is killed, the machine loses power, a write, sync or other file operation fails or the disk is full at any point of any command, the map afterwards is, once opened again, exactly the map before or exactly the map after the complete command. It is never a mixture of both and never a damaged database.",
 ["crash_points","fault_sequences"],"every file-system operation of a run as the point of a kill, power loss (any unsynced write lost or torn) or I/O error, for every editing command",
 "No test runs a command, let alone interrupts one.",
 ["src/map_database.rs","src/instance.rs"],[("one transaction around all edits, commit at the end","src/map_database.rs, src/instance.rs")],
 [("map.sqlite + journal","the stored map","database file")],["file-system operations of the process (LD_PRELOAD)","database content after recovery"])
p("P18","nothing changes without valid arguments and consent",
 "Unless -y is given or the user answers the prompt with y, and in every case where the arguments are invalid or contradictory, the map stays byte-for-byte as it was. With valid arguments and consent the command runs.",
 ["inputs","histories"],"every argument list, valid or not, and every reply (including end of input) to the prompt",
 UT,["src/instance.rs","src/cmd_line.rs","src/commands"],[("verify_args + warning + confirmation before edits","src/instance.rs"),("per-command verify_args","src/commands/*.rs")],(),["database file","stdout and exit of the process"])
p("P19","overlay never modifies the source map",
 "`overlay` leaves the source map as it was, with every outcome of the command: success, refusal, crash, I/O error or failure to commit. Applying overlay a second time gives the same result as applying it once, provided nothing else writes.",
 ["inputs","crash_points","histories"],"every pair of maps and every outcome",
 UT,["src/commands/overlay.rs","src/instance.rs","src/map_database.rs"],[("input database is only read","src/commands/overlay.rs")],(),["bytes and rows of the source map"])
p("P20","edits by another program are never lost or mixed in",
 "If another program writes to the map while a command runs, the final map is what some serial order of the two would give: writes committed before the command takes its first look at the map are honoured, conflicting ones make one side wait or fail, and no committed write is silently overwritten. A command that cannot get its lock reports an error and changes nothing.",
 ["schedules"],"every interleaving of another program's transactions with the steps of a command",
 "No test runs two programs on one map.",
 ["src/map_database.rs","src/instance.rs"],[("begin of the transaction before reads","src/map_database.rs"),("SQLite locking","src/map_database.rs")],(),["database content","events of the SQLite calls"])
p("P21","reported counts are true",
 "The number of nodes, metadata entries, timers, objects or itemstacks that a command reports is the number it changed according to its definition, and the number of skipped mapblocks it reports is a number of invalid or unsupported ones among those that the selection touches, and includes every one that it had to process. Large numbers may be abbreviated to three digits.",
 ["inputs"],"every map, command, area, and combination of good and bad mapblocks",
 UT,["src/commands","src/utils.rs","src/instance.rs"],[("counters in each command","src/commands/*.rs"),("fmt_big_num","src/utils.rs")],(),["stdout of the command, map before"])
p("P22","any history of commands keeps every mapblock well formed",
 "After any sequence of commands every mapblock that was well formed still is: no ID or name occurs twice in its name table, every node has a name, metadata and timers are at valid, distinct positions, and after fill, clone or a merging overlay no name stays in the table that no node uses. Each command of the sequence acts on exactly what the previous ones left.",
 ["histories"],"every sequence of commands on every map",
 UT,["src/block_utils.rs","src/map_block/name_id_map.rs","src/commands"],[("clean_name_id_map, remove/shift of IDs","src/block_utils.rs, src/map_block/name_id_map.rs")])
p("P23","vacuum changes no data",
 "`vacuum` leaves every mapblock, and everything else stored in the database, exactly as it was, also if it is interrupted at any point or fails.",
 ["inputs","crash_points"],"every map database, every point of interruption",
 UT,["src/commands/vacuum.rs","src/map_database.rs"],[("VACUUM outside of a transaction","src/commands/vacuum.rs")],(),["all tables of the database"])
p("P24","success is reported only when the change is stored, and runs end",
 "The program says it is done only after all its changes have been stored durably; if they could not be stored it reports the failure instead. It always terminates, whatever happens to the work, and never waits forever.",
 ["crash_points","fault_sequences","schedules"],"every command, every failure of a file operation or of the database, every kind of bad map",
 "No test runs the program; the two cooperating threads are not tested.",
 ["src/instance.rs","src/map_database.rs"],[("LogServer / compute thread with status channel","src/instance.rs"),("commit before end of edit","src/instance.rs")],(),["order of output and file-system operations of the process"])
p("P25","area selection means the same inclusive box in every command",
 "For every command the area given by two corners is the box of all nodes between them, both inclusive, whichever opposite corners are given in whichever order and sign; --invert selects exactly the complement; leaving the area out selects everything. So running a command with an area and with its inversion affects each thing exactly once.",
 ["inputs"],"every pair of corners (any order, negative, on and off mapblock borders, at the limits of the world), every command that takes an area",
 "Tests check a few areas against Area's helper functions; none checks that commands select nodes, metadata, timers or objects by it.",
 ["src/spatial/area.rs","src/spatial/iterators.rs","src/utils.rs","src/commands"],[("Area, InverseBlockIterator, query_keys","src/spatial/*.rs, src/utils.rs")])
p("P26","how the database holds and names the map does not matter",
 "What a command does to the mapblocks, and what it reports, depends only on which mapblocks the map (and the source map of overlay) holds. It does not depend on how the database holds them: the order and numbers of rows, free pages, page size, journal mode, text encoding, auto-vacuum, a blocks table without row numbers or with NOT NULL columns, other tables, views and indices; nor on how the user names the map: its file (whatever it is called), its world directory, a relative path, a symbolic link, odd characters in names. Everything in the database besides the mapblocks, including those settings, stays as it was.",
 ["inputs","histories"],"every command and map, every history of the database that leads to the same mapblocks, every path to it",
 "No test opens a database.",
 ["src/map_database.rs","src/instance.rs","src/utils.rs","src/commands"],[("verify_database, iter_rows, get/set/delete statements","src/map_database.rs"),("query before edit; sorting of keys in clone","src/utils.rs, src/commands/clone.rs"),("open_map","src/instance.rs")],(),["map.sqlite after the command, all tables and settings of the database","stdout of the command"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80
