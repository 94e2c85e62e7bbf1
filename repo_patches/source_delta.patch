From 33a5eeb232f6c07cfcea90d018b5d3fd1dce074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 01/14] fix: read the setparam2 value from the argument that
 exists

The parser looked up "param2_val", but the argument is named "param2", so
setparam2 always panicked on a missing value.
---
 src/cmd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index f024712..155adf6 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -187,7 +187,7 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 		delete_meta: sub_matches.is_present("delete_meta"),
 		key: sub_matches.value_of("key").map(str::to_string),
 		value: sub_matches.value_of("value").map(str::to_string),
-		param2: sub_matches.value_of("param2_val").map(|val| val.parse())
+		param2: sub_matches.value_of("param2").map(|val| val.parse())
 			.transpose().context("Invalid param2 value.")?,
 	})
 }
-- 
2.43.0


From f725a294d8cb9c0bff4d12aa21050090fc0d6421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 02/14] fix: write serialized strings completely

Write::write may consume only part of its input, which the zstd and zlib
encoders do once a mapblock holds enough poorly compressible data. The rest
of the string was lost and the saved mapblock became unreadable.
---
 src/map_block/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map_block/mod.rs b/src/map_block/mod.rs
index df128c1..fedbf68 100644
--- a/src/map_block/mod.rs
+++ b/src/map_block/mod.rs
@@ -79,14 +79,14 @@ fn read_string32(src: &mut Cursor<&[u8]>) -> Result<Vec<u8>, MapBlockError> {
 fn write_string16<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u16::try_from(data.len()).unwrap();
 	dst.write_u16::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
 fn write_string32<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u32::try_from(data.len()).unwrap();
 	dst.write_u32::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
-- 
2.43.0


From 521d14781d35cbf6f3996a33bf8376a8fdf419a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 03/14] fix: count the nodes filled in partial blocks by an
 inverted fill

The volume inside the area was added to the count, although the nodes
outside of it had been filled.
---
 src/commands/fill.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index e838b2a..a434ab3 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -55,7 +55,11 @@ fn fill(inst: &mut InstBundle) {
 			});
 			fill_area(&mut block, fill_id, block_part, inst.args.invert);
 			clean_name_id_map(&mut block);
-			count += block_part.volume();
+			count += if inst.args.invert {
+				block.node_data.nodes.len() as u64 - block_part.volume()
+			} else {
+				block_part.volume()
+			};
 		} else { // Fill entire block
 			block.node_data.nodes.fill(0);
 			block.nimap.0.clear();
-- 
2.43.0


From 61c9a9761bcbe20d72c11ea749bab8d5befe5e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 04/14] fix: do not fill mapblocks that are not yet generated

The manual promises that fill leaves them alone.
---
 src/commands/fill.rs       | 3 +++
 src/map_block/map_block.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index a434ab3..f47703e 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -44,6 +44,9 @@ fn fill(inst: &mut InstBundle) {
 		let data = inst.db.get_block(key).unwrap();
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
 			{ inst.status.inc_failed(); continue; });
+		if !block.is_generated() {
+			continue;
+		}
 
 		if area.contains_block(pos) != area.touches_block(pos) {
 			// Fill part of block
diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index a146a5f..04ead43 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -130,6 +130,11 @@ impl MapBlock {
 		})
 	}
 
+	/// Return `true` if the mapblock has been generated by mapgen.
+	pub fn is_generated(&self) -> bool {
+		self.flags & 0x08 == 0 // Bit 3 set if block is not generated.
+	}
+
 	pub fn serialize(&self) -> Vec<u8> {
 		// TODO: Retain compression level used by Minetest?
 		assert!(MIN_BLOCK_VER <= self.version && self.version <= MAX_BLOCK_VER,
-- 
2.43.0


From 6c63a00093d2d206904fd82413d96ce2cbfa2fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 05/14] fix: do not overlay parts of mapblocks that are not yet
 generated

Whole mapblocks were skipped if not generated, but partially selected ones
were copied. With an inverted selection the destination mapblock was also
marked as not generated, so that mapgen would overwrite it.
---
 src/commands/overlay.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index ce9e14d..ef9755f 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -72,6 +72,9 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 
 					let mut src_block = MapBlock::deserialize(&src_data)?;
 					let mut dst_block = MapBlock::deserialize(&dst_data)?;
+					if !src_block.is_generated() {
+						return Ok(());
+					}
 
 					let block_part = area.rel_block_overlap(pos).unwrap();
 					if invert {
-- 
2.43.0


From 2ca1dbc82dd296c8027334207ec1178275019a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 06/14] fix: keep metadata variables private when copied to old
 mapblocks

clone and overlay can copy private variables into a version 25 or 27
mapblock, where they were saved in metadata version 1, which has no private
flag. Minetest selects the format by the metadata version, and every version
that writes private variables reads version 2.
---
 src/map_block/metadata.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map_block/metadata.rs b/src/map_block/metadata.rs
index 84c5aac..8d11f2d 100644
--- a/src/map_block/metadata.rs
+++ b/src/map_block/metadata.rs
@@ -130,7 +130,10 @@ impl NodeMetadataListExt for NodeMetadataList {
 		if count == 0 {
 			dst.write_u8(0).unwrap();
 		} else {
-			let version = if block_version >= 28 { 2 } else { 1 };
+			// Private variables can be copied in from newer mapblocks.
+			let has_private = self.values()
+				.any(|m| m.vars.values().any(|&(_, private)| private));
+			let version = if block_version >= 28 || has_private { 2 } else { 1 };
 			dst.write_u8(version).unwrap();
 			dst.write_u16::<BigEndian>(count as u16).unwrap();
 
-- 
2.43.0


From 7f000cc89551fb430879b1e72cff518deb3e2a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 07/14] fix: ignore the item count in plain itemstrings of item
 entities

"default:stone 5" was not recognized as default:stone, unlike the same
itemstring inside serialized entity data.
---
 src/commands/delete_objects.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/delete_objects.rs b/src/commands/delete_objects.rs
index 47fcf88..a03ce5d 100644
--- a/src/commands/delete_objects.rs
+++ b/src/commands/delete_objects.rs
@@ -52,7 +52,8 @@ fn get_item_name<'a>(data: &'a [u8]) -> &'a[u8] {
 		}
 		b""
 	} else {
-		data
+		// Oldest format; the data is a plain itemstring.
+		data.split(|&c| c == b' ').next().unwrap_or(data)
 	}
 }
 
-- 
2.43.0


From 604ce0b9f71edbd2d207b11e453ee7980d92c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 08/14] fix: do not overflow on objects at extreme positions

A corrupted object position made deleteobjects panic in debug builds, or
wrap around to the other side of the map in release builds.
---
 src/commands/delete_objects.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/delete_objects.rs b/src/commands/delete_objects.rs
index a03ce5d..2121f87 100644
--- a/src/commands/delete_objects.rs
+++ b/src/commands/delete_objects.rs
@@ -69,7 +69,7 @@ fn can_delete(
 	if let Some(a) = area {
 		const DIV_FAC: i32 = 10_000;
 		let rounded_pos = obj.f_pos
-			.map(|v| (v + DIV_FAC / 2).div_euclid(DIV_FAC));
+			.map(|v| v.saturating_add(DIV_FAC / 2).div_euclid(DIV_FAC));
 		if a.contains(rounded_pos) == invert {
 			return false; // Object not included in area.
 		}
-- 
2.43.0


From 7970ce206fceafcdd36883f51ee16e64e9951d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:47 +0000
Subject: [PATCH 09/14] fix: skip mapblocks whose node IDs or positions are out
 of range

A node ID missing from the name-ID map, or a metadata or timer position
outside of the mapblock, made most commands panic, so that a single corrupted
mapblock prevented editing the rest of the map. Such mapblocks are now skipped
and counted like other invalid ones.
---
 src/map_block/map_block.rs | 26 ++++++++++++++++++++++++--
 src/map_block/mod.rs       |  1 +
 src/map_block/node_data.rs |  2 +-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index 04ead43..9fa7c1c 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -115,7 +115,7 @@ impl MapBlock {
 
 		let node_timers = deserialize_timers(&mut crs)?;
 
-		Ok(Self {
+		let block = Self {
 			version,
 			flags,
 			lighting_complete,
@@ -127,7 +127,29 @@ impl MapBlock {
 			timestamp,
 			nimap: nimap.unwrap(),
 			node_timers
-		})
+		};
+
+		if !block.is_consistent() {
+			return Err(MapBlockError::BadData);
+		}
+		Ok(block)
+	}
+
+	/// Return `true` if all node IDs have names, and if no IDs or positions
+	/// are larger than a mapblock allows.
+	fn is_consistent(&self) -> bool {
+		let mut known = [false; NODE_COUNT];
+		for &id in self.nimap.0.keys() {
+			match known.get_mut(id as usize) {
+				Some(k) => *k = true,
+				None => return false
+			}
+		}
+
+		self.node_data.nodes.iter()
+			.all(|&id| known.get(id as usize) == Some(&true))
+		&& self.metadata.keys().all(|&pos| (pos as usize) < NODE_COUNT)
+		&& self.node_timers.iter().all(|t| (t.pos as usize) < NODE_COUNT)
 	}
 
 	/// Return `true` if the mapblock has been generated by mapgen.
diff --git a/src/map_block/mod.rs b/src/map_block/mod.rs
index fedbf68..a60c3f3 100644
--- a/src/map_block/mod.rs
+++ b/src/map_block/mod.rs
@@ -13,6 +13,7 @@ mod name_id_map;
 
 pub use map_block::{MapBlock, is_valid_generated};
 pub use node_data::NodeData;
+use node_data::NODE_COUNT;
 pub use metadata::{NodeMetadataList, NodeMetadataListExt};
 pub use static_object::{StaticObject, StaticObjectList, LuaEntityData};
 use static_object::{serialize_objects, deserialize_objects};
diff --git a/src/map_block/node_data.rs b/src/map_block/node_data.rs
index 00de807..e86414d 100644
--- a/src/map_block/node_data.rs
+++ b/src/map_block/node_data.rs
@@ -6,7 +6,7 @@ use flate2::Compression;
 
 
 const BLOCK_SIZE: usize = 16;
-const NODE_COUNT: usize = BLOCK_SIZE * BLOCK_SIZE * BLOCK_SIZE;
+pub const NODE_COUNT: usize = BLOCK_SIZE * BLOCK_SIZE * BLOCK_SIZE;
 
 
 #[derive(Clone, Debug)]
-- 
2.43.0


From b208d77f3625fe3edb5be3f7fd16903c9c7a06c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:40 +0000
Subject: [PATCH 10/14] fix: do not skip mapblocks with slightly more node IDs
 than nodes

Replacing nodes in part of a mapblock may add an ID after the highest one, so
mapblocks that use up to 4096 IDs must remain valid with one more.
---
 src/map_block/map_block.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index 9fa7c1c..bca0b18 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -13,6 +13,9 @@ Supported mapblock versions:
 const MIN_BLOCK_VER: u8 = 25;
 const MAX_BLOCK_VER: u8 = 29;
 const SERIALIZE_BUF_SIZE: usize = 2048;
+/// Number of possible node IDs. Leaves room for the IDs of eight other mapblocks
+/// while merging them.
+const MAX_NODE_IDS: usize = u16::MAX as usize / 9;
 
 
 pub fn is_valid_generated(src: &[u8]) -> bool {
@@ -138,7 +141,7 @@ impl MapBlock {
 	/// Return `true` if all node IDs have names, and if no IDs or positions
 	/// are larger than a mapblock allows.
 	fn is_consistent(&self) -> bool {
-		let mut known = [false; NODE_COUNT];
+		let mut known = [false; MAX_NODE_IDS];
 		for &id in self.nimap.0.keys() {
 			match known.get_mut(id as usize) {
 				Some(k) => *k = true,
-- 
2.43.0


From 5ccfd33871a0a20ea5b0c99687ce283eb74f1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 11/14] fix: do not take failed reads for missing mapblocks

---
 src/commands/clone.rs   |  2 +-
 src/commands/overlay.rs |  6 +++---
 src/map_database.rs     | 10 ++++++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/commands/clone.rs b/src/commands/clone.rs
index 5fdb0b3..579cf03 100644
--- a/src/commands/clone.rs
+++ b/src/commands/clone.rs
@@ -35,7 +35,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.find_block(key)
 				.filter(|d| is_valid_generated(d))
 				.map(|d| MapBlock::deserialize(&d));
 			cache.insert(key, block.clone());
diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index ef9755f..f881a85 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -65,7 +65,7 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 			} else { // Copy part of mapblock
 				let res = || -> Result<(), MapBlockError> {
 					let dst_data = opt_unwrap_or!(
-						db.get_block(key).ok()
+						db.find_block(key)
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
@@ -122,7 +122,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.find_block(key)
 				.filter(|d| is_valid_generated(d))
 				.and_then(|d| MapBlock::deserialize(&d).ok());
 			cache.insert(key, block.clone());
@@ -152,7 +152,7 @@ fn overlay_with_offset(inst: &mut InstBundle) {
 
 		let dst_pos = Vec3::from_block_key(dst_key);
 		let dst_data = opt_unwrap_or!(
-			inst.db.get_block(dst_key).ok().filter(|d| is_valid_generated(d)),
+			inst.db.find_block(dst_key).filter(|d| is_valid_generated(d)),
 			continue
 		);
 		let mut dst_block = unwrap_or!(
diff --git a/src/map_database.rs b/src/map_database.rs
index e9b4242..6f1879c 100644
--- a/src/map_database.rs
+++ b/src/map_database.rs
@@ -119,6 +119,16 @@ impl<'a> MapDatabase<'a> {
 		value
 	}
 
+	/// Like `get_block`, but returns `None` if the block does not exist. A
+	/// failed read must not be mistaken for a missing block.
+	pub fn find_block(&mut self, map_key: i64) -> Option<Vec<u8>> {
+		match self.get_block(map_key) {
+			Ok(data) => Some(data),
+			Err(DBError::MissingData) => None,
+			Err(e) => panic!("Failed to read a mapblock: {}", e)
+		}
+	}
+
 	pub fn set_block(&mut self, map_key: i64, data: &[u8])
 		-> Result<(), DBError>
 	{
-- 
2.43.0


From c9611dc3ac78bbb7011014f1e37a2d17d3d920c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 12/14] fix: end node inventories at a line of their own

An item whose name (or old-style metadata) ends in EndInventory ended the
inventory early. The rest of the inventory was lost when a mapblock of
version 28 or less was rewritten, and mapblocks of version 29 were skipped.
---
 src/map_block/metadata.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/map_block/metadata.rs b/src/map_block/metadata.rs
index 8d11f2d..f8a2b53 100644
--- a/src/map_block/metadata.rs
+++ b/src/map_block/metadata.rs
@@ -36,11 +36,18 @@ impl NodeMetadata {
 		}
 
 		let end_finder = TwoWaySearcher::new(END_STR);
-		// This should be safe; EndInventory\n cannot appear in item metadata
-		// since newlines are escaped.
-		let end = end_finder
-			.search_in(&src.get_ref()[src.position() as usize ..])
-			.ok_or(MapBlockError::BadData)?;
+		// The end of the inventory is a line of its own. The same text can also
+		// end the line of an item, as part of its name.
+		let rest = &src.get_ref()[src.position() as usize ..];
+		let mut end = 0;
+		loop {
+			end += end_finder.search_in(&rest[end..])
+				.ok_or(MapBlockError::BadData)?;
+			if end == 0 || rest[end - 1] == b'\n' {
+				break;
+			}
+			end += 1;
+		}
 
 		let mut inv = vec_with_len(end + END_STR.len());
 		src.read_exact(&mut inv)?;
-- 
2.43.0


From 20bbc871def6947a7c900e724d28919a0e5f8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 13/14] fix: skip mapblocks with leftover compressed metadata

---
 src/map_block/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_block/metadata.rs b/src/map_block/metadata.rs
index f8a2b53..2cde860 100644
--- a/src/map_block/metadata.rs
+++ b/src/map_block/metadata.rs
@@ -120,7 +120,7 @@ impl NodeMetadataListExt for NodeMetadataList {
 		let metadata = Self::deserialize(&mut cursor)?;
 
 		// Fail if there is leftover compressed data.
-		if decoder.read(&mut [0])? > 0 {
+		if cursor.position() < buf.len() as u64 {
 			return Err(MapBlockError::BadData);
 		}
 
-- 
2.43.0


From 48f060f2f111d6d43937dc4a68ba61c00c2250e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:08 +0000
Subject: [PATCH 14/14] fix: keep node IDs small when replacing nodes in part
 of a mapblock

---
 src/commands/replace_nodes.rs | 2 +-
 src/map_block/name_id_map.rs  | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/commands/replace_nodes.rs b/src/commands/replace_nodes.rs
index 48653eb..ffe7b00 100644
--- a/src/commands/replace_nodes.rs
+++ b/src/commands/replace_nodes.rs
@@ -29,7 +29,7 @@ fn do_replace(
 
 		let (new_id, new_id_needed) = match block.nimap.get_id(new_node) {
 			Some(id) => (id, false),
-			None => (block.nimap.get_max_id().unwrap() + 1, true)
+			None => (block.nimap.get_free_id(), true)
 		};
 
 		if invert {
diff --git a/src/map_block/name_id_map.rs b/src/map_block/name_id_map.rs
index 0403518..8f910cb 100644
--- a/src/map_block/name_id_map.rs
+++ b/src/map_block/name_id_map.rs
@@ -50,6 +50,12 @@ impl NameIdMap {
 	}
 
 	/// Remove the name at a given ID and shift down any values above it.
+	/// Return the lowest ID that is not in the map.
+	#[inline]
+	pub fn get_free_id(&self) -> u16 {
+		(0..).find(|id| !self.0.contains_key(id)).unwrap()
+	}
+
 	pub fn remove_shift(&mut self, id: u16) {
 		self.0.remove(&id);
 		for k in id + 1 ..= self.get_max_id().unwrap_or(0) {
-- 
2.43.0

