From 75802257bc2625ef324bf8f694bfb9838405fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 01/58] fix: keep unreadable trailing data when rewriting OGG
 comments

---
 lofty/src/ogg/tag/write.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index c9ef0fa..f26b7d9 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -122,7 +122,14 @@ where
 	// Correct all remaining page sequence numbers
 	let mut pages_reader = Cursor::new(&remaining_file_content[..]);
 	let mut idx = 0;
-	while let Ok(mut page) = Page::read(&mut pages_reader) {
+	loop {
+		let page_start = pages_reader.position() as usize;
+		let Ok(mut page) = Page::read(&mut pages_reader) else {
+			// The rest of the file cannot be interpreted as pages, retain it as is
+			file.write_all(&remaining_file_content[page_start..])?;
+			break;
+		};
+
 		let header = page.header_mut();
 		header.sequence_number = pages_written + idx;
 		page.gen_crc();
-- 
2.43.0


From d5bd4f62d3a65a3240cdbc119119020f712319f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 02/58] fix: do not read FLAC picture blocks when tags are not
 to be read

---
 lofty/src/flac/read.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lofty/src/flac/read.rs b/lofty/src/flac/read.rs
index 44dbc3d..4cd8930 100644
--- a/lofty/src/flac/read.rs
+++ b/lofty/src/flac/read.rs
@@ -81,7 +81,9 @@ where
 	while !last_block {
 		let block = Block::read(data, |block_type| {
 			(block_type == BLOCK_ID_VORBIS_COMMENTS && parse_options.read_tags)
-				|| (block_type == BLOCK_ID_PICTURE && parse_options.read_cover_art)
+				|| (block_type == BLOCK_ID_PICTURE
+					&& parse_options.read_tags
+					&& parse_options.read_cover_art)
 		})?;
 
 		last_block = block.last;
@@ -121,7 +123,7 @@ where
 			continue;
 		}
 
-		if block.ty == BLOCK_ID_PICTURE && parse_options.read_cover_art {
+		if block.ty == BLOCK_ID_PICTURE && parse_options.read_tags && parse_options.read_cover_art {
 			log::debug!("Encountered a FLAC picture block, parsing");
 
 			match Picture::from_flac_bytes(&block.content, false, parse_options.parsing_mode) {
-- 
2.43.0


From f0f829491a2cfd9de3545fea5398e18ed14406b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 03/58] fix: report failing seeks while looking for an ID3v1
 tag

---
 lofty/src/id3/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 9bf003d..337b24b 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -118,12 +118,13 @@ where
 	let mut id3v1 = None;
 	let mut header = None;
 
-	// Reader is too small to contain an ID3v2 tag
-	if data.seek(SeekFrom::End(-128)).is_err() {
-		data.seek(SeekFrom::End(0))?;
+	// Reader is too small to contain an ID3v1 tag
+	if data.seek(SeekFrom::End(0))? < 128 {
 		return Ok(ID3FindResults(header, id3v1));
 	}
 
+	data.seek(SeekFrom::End(-128))?;
+
 	let mut id3v1_header = [0; 3];
 	data.read_exact(&mut id3v1_header)?;
 
-- 
2.43.0


From bbc5b5642023c22197d6dca773280a2a65d46c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 04/58] fix: do not hold the resolver lock while running
 resolvers or panicking

---
 lofty/src/file/file_type.rs |  6 ++----
 lofty/src/probe.rs          |  9 +++------
 lofty/src/resolve.rs        | 21 ++++++++++++++++-----
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 029564d..2f0f304 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -1,5 +1,5 @@
 use crate::config::global_options;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::registered_resolvers;
 use crate::tag::{TagSupport, TagType};
 
 use std::ffi::OsStr;
@@ -189,9 +189,7 @@ impl FileType {
 
 		// Give custom resolvers priority
 		if unsafe { global_options().use_custom_resolvers }
-			&& let Some((ty, _)) = CUSTOM_RESOLVERS
-				.lock()
-				.ok()?
+			&& let Some((ty, _)) = registered_resolvers()
 				.iter()
 				.find(|(_, f)| f.extension() == Some(ext.as_str()))
 		{
diff --git a/lofty/src/probe.rs b/lofty/src/probe.rs
index 15cd1b4..c3c5d41 100644
--- a/lofty/src/probe.rs
+++ b/lofty/src/probe.rs
@@ -16,7 +16,7 @@ use crate::musepack::MpcFile;
 use crate::ogg::opus::OpusFile;
 use crate::ogg::speex::SpeexFile;
 use crate::ogg::vorbis::VorbisFile;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::registered_resolvers;
 use crate::wavpack::WavPackFile;
 
 use std::fs::File;
@@ -334,11 +334,8 @@ impl<R: Read + Seek> Probe<R> {
 		self.inner.seek(SeekFrom::Start(starting_position))?;
 
 		// Give custom resolvers priority
-		if unsafe { global_options().use_custom_resolvers }
-			&& let Ok(lock) = CUSTOM_RESOLVERS.lock()
-		{
-			#[allow(clippy::significant_drop_in_scrutinee)]
-			for resolve in lock.values() {
+		if unsafe { global_options().use_custom_resolvers } {
+			for (_, resolve) in registered_resolvers() {
 				if let ret @ Some(_) = resolve.guess(&buf[..buf_len]) {
 					return Ok(ret);
 				}
diff --git a/lofty/src/resolve.rs b/lofty/src/resolve.rs
index 9fd9981..6fe5331 100644
--- a/lofty/src/resolve.rs
+++ b/lofty/src/resolve.rs
@@ -45,12 +45,23 @@ pub(crate) fn lookup_resolver(name: &'static str) -> &'static dyn ObjectSafeFile
 		return resolver;
 	}
 
+	// Panicking with the lock held would poison it for every other resolver
+	drop(res);
+
 	panic!(
 		"Encountered an unregistered custom `FileType` named `{}`",
 		name
 	);
 }
 
+/// The registered resolvers, in a copy so that no resolver is called with the lock held
+pub(crate) fn registered_resolvers() -> Vec<(&'static str, &'static dyn ObjectSafeFileResolver)> {
+	match CUSTOM_RESOLVERS.lock() {
+		Ok(res) => res.iter().map(|(name, r)| (*name, *r)).collect(),
+		Err(_) => Vec::new(),
+	}
+}
+
 // A `Read + Seek` supertrait for use in [`ObjectSafeFileResolver::read_from`]
 pub(crate) trait SeekRead: Read + Seek {}
 impl<T: Seek + Read> SeekRead for T {}
@@ -113,11 +124,11 @@ impl<T: FileResolver> ObjectSafeFileResolver for GhostlyResolver<T> {
 /// * See [`Mutex::lock`]
 pub fn register_custom_resolver<T: FileResolver + 'static>(name: &'static str) {
 	let mut res = CUSTOM_RESOLVERS.lock().unwrap();
-	assert!(
-		res.iter().all(|(n, _)| *n != name),
-		"Resolver `{}` already exists!",
-		name
-	);
+	if res.iter().any(|(n, _)| *n == name) {
+		// Panicking with the lock held would poison it for every other resolver
+		drop(res);
+		panic!("Resolver `{}` already exists!", name);
+	}
 
 	let ghost = GhostlyResolver::<T>(PhantomData);
 	let b: Box<dyn ObjectSafeFileResolver> = Box::new(ghost);
-- 
2.43.0


From 1998dea6a32ac635572172639e5a57c88306641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 05/58] fix: restore the reader's position when nothing was
 found

---
 lofty/src/id3/mod.rs | 2 +-
 lofty/src/util/io.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 337b24b..b869e54 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -221,7 +221,7 @@ where
 
 		header = Some(id3v2_header);
 	} else {
-		reader.seek(SeekFrom::Current(-10))?;
+		reader.seek(SeekFrom::Start(start))?;
 	}
 
 	Ok(ID3FindResults(header, id3v2))
diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index 0be5517..d4b0a9b 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -439,6 +439,7 @@ where
 			current_pos -= std::cmp::min(read_size, overlap_step);
 		}
 
+		self.reader.seek(SeekFrom::Start(original_pos))?;
 		Ok(false)
 	}
 }
-- 
2.43.0


From 181be9465ec68f15ae1c8dc484a38b7438bd9c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 06/58] fix: map the ID3v2.2 frames TOA and TXT to TOPE and
 TEXT

TOA is the original artist and TXT the lyricist; they were upgraded to the original album and the original lyricist.
---
 lofty/src/id3/v2/util/upgrade.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/util/upgrade.rs b/lofty/src/id3/v2/util/upgrade.rs
index f3b7e0b..c118759 100644
--- a/lofty/src/id3/v2/util/upgrade.rs
+++ b/lofty/src/id3/v2/util/upgrade.rs
@@ -91,7 +91,7 @@ gen_upgrades!(
 		"TLA" => "TLAN",
 		"TLE" => "TLEN",
 		"TMT" => "TMED",
-		"TOA" => "TOAL",
+		"TOA" => "TOPE",
 		"TOF" => "TOFN",
 		"TOL" => "TOLY",
 		"TOR" => "TDOR",
@@ -114,7 +114,7 @@ gen_upgrades!(
 		"TT1" => "TIT1",
 		"TT2" => "TIT2",
 		"TT3" => "TIT3",
-		"TXT" => "TOLY",
+		"TXT" => "TEXT",
 		"TXX" => "TXXX",
 		"TYE" => "TDRC",
 		"UFI" => "UFID",
-- 
2.43.0


From 3f2d7bfd28ad6241fe0a6cb90f0f531bb1101a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 07/58] fix: accept OWNE and ETCO frames when writing ID3v2

Both are parsed into frames of their own, which the writer then refused, so a tag containing one could not be saved.
---
 lofty/src/id3/v2/write/frame.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 84bc870..3ac1235 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -277,6 +277,8 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("WFED" | "GRP1" | "MVNM" | "MVIN", Frame::Text { .. })
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
+		| ("OWNE", Frame::Ownership(_))
+		| ("ETCO", Frame::EventTimingCodes(_))
 		| ("PRIV", Frame::Private(_))
 		| ("CHAP", Frame::Chapter(_))
 		| ("CTOC", Frame::TableOfContents(_)) => Ok(()),
-- 
2.43.0


From ae6a450c19e26288af775acca1124f792268b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 08/58] fix: keep URL items when saving a Tag as ID3v2

Items with locator values were dropped when a Tag was saved by reference, while converting the Tag to an Id3v2Tag kept them.
---
 lofty/src/id3/v2/tag/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 093c693..58b23f3 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -83,7 +83,7 @@ pub(crate) fn from_tag<'a>(
 					item_value,
 					..
 				}) => {
-					let Some(text) = item_value.text() else {
+					let Some(text) = item_value.text().or_else(|| item_value.locator()) else {
 						log::warn!("Expected a text item for {item_key:?}");
 						return None;
 					};
-- 
2.43.0


From 149f827ddccb0f9147bb26a52e58961d36fef885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 09/58] fix: write all user text items when converting a Tag to
 ID3v2

MusicBrainz release, release group and release track IDs and the color were dropped, and the work became an invalid text frame that made saving fail.
---
 lofty/src/id3/v2/tag/conversion.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 58b23f3..ef536bd 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -135,7 +135,6 @@ pub(crate) fn from_tag<'a>(
 			| ItemKey::InternetRadioStationName
 			| ItemKey::InternetRadioStationOwner
 			| ItemKey::Remixer
-			| ItemKey::Work
 			| ItemKey::Movement
 			| ItemKey::FileOwner
 			| ItemKey::CopyrightMessage
@@ -160,12 +159,17 @@ pub(crate) fn from_tag<'a>(
 			| ItemKey::AcoustId
 			| ItemKey::AcoustIdFingerprint
 			| ItemKey::CatalogNumber
+			| ItemKey::MusicBrainzTrackId
+			| ItemKey::MusicBrainzReleaseId
+			| ItemKey::MusicBrainzReleaseGroupId
 			| ItemKey::MusicBrainzArtistId
 			| ItemKey::MusicBrainzReleaseArtistId
 			| ItemKey::MusicBrainzWorkId
 			| ItemKey::MusicBrainzReleaseType
 			| ItemKey::ReleaseCountry
-			| ItemKey::Barcode => {
+			| ItemKey::Barcode
+			| ItemKey::Work
+			| ItemKey::Color => {
 				let (value, _) = take_item_text_and_description(item)?;
 
 				let frame_id = item_key.map_key(TagType::Id3v2).expect("valid frame id");
-- 
2.43.0


From f9c6ce902d4dc14119704b33717dc4d3a4e6705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 10/58] fix: write movement numbers when converting a Tag to
 ID3v2

MVIN frames were split into the movement number and total, but never created from them, so saving a Tag dropped them.
---
 lofty/src/id3/v2/tag.rs            |  1 +
 lofty/src/id3/v2/tag/conversion.rs | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 06d0d69..1a88938 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -384,6 +384,7 @@ const ALBUM_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TALB"));
 const GENRE_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TCON"));
 const TRACK_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TRCK"));
 const DISC_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TPOS"));
+const MOVEMENT_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("MVIN"));
 const RECORDING_TIME_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TDRC"));
 pub(super) const ATTACHED_PICTURE_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("APIC"));
 
diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index ef536bd..6a465fb 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -288,6 +288,14 @@ pub(crate) fn from_tag<'a>(
 				ctx.disc_total = parse_number(&item);
 				None
 			},
+			ItemKey::MovementNumber => {
+				ctx.movement_number = parse_number(&item);
+				None
+			},
+			ItemKey::MovementTotal => {
+				ctx.movement_total = parse_number(&item);
+				None
+			},
 
 			ItemKey::MusicBrainzRecordingId => {
 				let (recording_id, _) = take_item_text_and_description(item)?;
@@ -375,6 +383,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: Option<u32>,
 		disc_number: Option<u32>,
 		disc_total: Option<u32>,
+		movement_number: Option<u32>,
+		movement_total: Option<u32>,
 	}
 
 	#[derive(Hash, PartialEq, Eq)]
@@ -397,6 +407,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: None,
 		disc_number: None,
 		disc_total: None,
+		movement_number: None,
+		movement_total: None,
 	};
 
 	let mut frames = HashSet::with_capacity(items.len());
@@ -450,6 +462,14 @@ pub(crate) fn from_tag<'a>(
 		frames.insert(disc_frame);
 	}
 
+	if let Some(movement_frame) = new_number_pair_frame(
+		super::MOVEMENT_ID,
+		ctx.movement_number,
+		ctx.movement_total,
+	) {
+		frames.insert(movement_frame);
+	}
+
 	frames
 }
 
-- 
2.43.0


From 4a75c85f7fc77ed013d3a493b0e903a19f9636ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 11/58] fix: read the APE movement total as the total

MOVEMENTTOTAL is an item of its own, but its value was split as a number/total pair and ended up as the movement number.
---
 lofty/src/ape/tag/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index e4fc6f8..19682f0 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -555,7 +555,7 @@ impl SplitTag for ApeTag {
 					*item = ApeItem::EMPTY;
 					false // Item consumed
 				},
-				(ItemKey::MovementNumber | ItemKey::MovementTotal, ItemValue::Text(val))
+				(ItemKey::MovementNumber, ItemValue::Text(val))
 					if split_pair(
 						val,
 						&mut tag,
-- 
2.43.0


From 91e44c40451c7f607115df2e356924c5d3b551c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 12/58] fix: normalize the compilation flag when saving a Tag
 as APE

Converting the Tag to an ApeTag stores 0 or 1 and drops other values, while saving it directly wrote the value as it was.
---
 lofty/src/ape/tag/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index 19682f0..81ebc27 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -682,10 +682,20 @@ pub(crate) fn tagitems_into_ape(tag: &Tag) -> impl Iterator<Item = ApeItemRef<'_
 	tag.items()
 		.filter(|item| !NUMBER_PAIR_KEYS.contains(&item.key()))
 		.filter_map(|i| {
-			i.key().map_key(TagType::Ape).map(|key| ApeItemRef {
+			let key = i.key().map_key(TagType::Ape)?;
+
+			// Normalize flag items
+			let value = if i.key() == ItemKey::FlagCompilation {
+				let flag = flag_item(i.item_value.text()?)?;
+				ItemValueRef::Text(Cow::Owned(u8::from(flag).to_string()))
+			} else {
+				(&i.item_value).into()
+			};
+
+			Some(ApeItemRef {
 				read_only: false,
 				key,
-				value: (&i.item_value).into(),
+				value,
 			})
 		})
 		.chain(create_apeitemref_for_number_pair(
-- 
2.43.0


From cb12068fb9d3783b4f6d998d782ae7509275838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 13/58] fix: write the pictures when saving a Tag as APE

Converting the Tag to an ApeTag kept them, saving it directly dropped them.
---
 lofty/src/ape/tag/mod.rs   | 12 ++++++++++++
 lofty/src/ape/tag/write.rs |  4 ++--
 lofty/src/tag/item.rs      |  4 ++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index 81ebc27..e086255 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -708,6 +708,18 @@ pub(crate) fn tagitems_into_ape(tag: &Tag) -> impl Iterator<Item = ApeItemRef<'_
 			tag.get_string(ItemKey::DiscTotal),
 			"Disc",
 		))
+		.chain(tag.pictures().iter().enumerate().filter_map(|(i, pic)| {
+			// Keys are unique, the last picture of a type wins
+			if tag.pictures()[i + 1..].iter().any(|p| p.pic_type == pic.pic_type) {
+				return None;
+			}
+
+			pic.pic_type.as_ape_key().map(|key| ApeItemRef {
+				read_only: false,
+				key,
+				value: ItemValueRef::Binary(Cow::Owned(pic.as_ape_bytes())),
+			})
+		}))
 }
 
 #[cfg(test)]
diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index dbbb317..1e339bc 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -207,10 +207,10 @@ where
 
 	for item in peek {
 		let (mut flags, value) = match item.value {
-			ItemValueRef::Binary(value) => {
+			ItemValueRef::Binary(ref value) => {
 				tag_write.write_u32::<LittleEndian>(value.len() as u32)?;
 
-				(1_u32 << 1, value)
+				(1_u32 << 1, &**value)
 			},
 			ItemValueRef::Text(ref value) => {
 				tag_write.write_u32::<LittleEndian>(value.len() as u32)?;
diff --git a/lofty/src/tag/item.rs b/lofty/src/tag/item.rs
index 11c26ca..dbedb30 100644
--- a/lofty/src/tag/item.rs
+++ b/lofty/src/tag/item.rs
@@ -1037,7 +1037,7 @@ impl ItemValue {
 pub(crate) enum ItemValueRef<'a> {
 	Text(Cow<'a, str>),
 	Locator(&'a str),
-	Binary(&'a [u8]),
+	Binary(Cow<'a, [u8]>),
 }
 
 impl<'a> Into<ItemValueRef<'a>> for &'a ItemValue {
@@ -1045,7 +1045,7 @@ impl<'a> Into<ItemValueRef<'a>> for &'a ItemValue {
 		match self {
 			ItemValue::Text(text) => ItemValueRef::Text(Cow::Borrowed(text)),
 			ItemValue::Locator(locator) => ItemValueRef::Locator(locator),
-			ItemValue::Binary(binary) => ItemValueRef::Binary(binary),
+			ItemValue::Binary(binary) => ItemValueRef::Binary(Cow::Borrowed(binary)),
 		}
 	}
 }
-- 
2.43.0


From 8525825ff0da1bee5b53f0efeefb3a98da427b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 14/58] fix: store the date set on an ID3v2 tag as the
 timestamp frame it is read from

---
 lofty/src/id3/v2/tag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 1a88938..2efdcdb 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -492,7 +492,7 @@ impl Accessor for Id3v2Tag {
 	}
 
 	fn set_date(&mut self, value: Timestamp) {
-		self.insert(Frame::text(Cow::Borrowed("TDRC"), value.to_string()));
+		self.insert(new_timestamp_frame(RECORDING_TIME_ID, value));
 	}
 
 	fn remove_date(&mut self) {
-- 
2.43.0


From e21c8c26e034abf8ef15d7bc3a247ec54665d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 15/58] fix: remove every AIFF chunk a comment is read from

---
 lofty/src/iff/aiff/tag/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/iff/aiff/tag/mod.rs b/lofty/src/iff/aiff/tag/mod.rs
index 624d412..8646098 100644
--- a/lofty/src/iff/aiff/tag/mod.rs
+++ b/lofty/src/iff/aiff/tag/mod.rs
@@ -123,6 +123,7 @@ impl Accessor for AiffTextChunks {
 	}
 	fn remove_comment(&mut self) {
 		self.annotations = None;
+		self.comments = None;
 	}
 }
 
-- 
2.43.0


From 718b13e409251e83d97b0b2016a14f8ee0c5a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 16/58] fix: setting the AIFF comment replaces the comments
 chunk too

---
 lofty/src/iff/aiff/tag/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/iff/aiff/tag/mod.rs b/lofty/src/iff/aiff/tag/mod.rs
index 8646098..7943ec1 100644
--- a/lofty/src/iff/aiff/tag/mod.rs
+++ b/lofty/src/iff/aiff/tag/mod.rs
@@ -120,6 +120,7 @@ impl Accessor for AiffTextChunks {
 	}
 	fn set_comment(&mut self, value: String) {
 		self.annotations = Some(vec![value]);
+		self.comments = None;
 	}
 	fn remove_comment(&mut self) {
 		self.annotations = None;
-- 
2.43.0


From e7b783b7bb66df16107222f50c8cbd6393a73fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 17/58] fix: MPEG-4 channel configuration 4 is front center,
 left, right and back center

---
 lofty/src/properties/channel_mask.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lofty/src/properties/channel_mask.rs b/lofty/src/properties/channel_mask.rs
index 89fa527..c913f03 100644
--- a/lofty/src/properties/channel_mask.rs
+++ b/lofty/src/properties/channel_mask.rs
@@ -146,10 +146,7 @@ impl ChannelMask {
 			2 => Some(Self::stereo()),
 			3 => Some(Self::linear_surround()),
 			4 => Some(Self(
-				Self::FRONT_LEFT.bits()
-					| Self::FRONT_RIGHT.bits()
-					| Self::BACK_LEFT.bits()
-					| Self::BACK_RIGHT.bits(),
+				Self::linear_surround().bits() | Self::BACK_CENTER.bits(),
 			)),
 			5 => Some(Self(
 				Self::linear_surround().bits() | Self::BACK_LEFT.bits() | Self::BACK_RIGHT.bits(),
-- 
2.43.0


From a08b31e84db6a1cc2d1ea9af765736ec9a407c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 18/58] fix: ID3v2 extended headers are read completely, and
 counted once in the size of the tag

---
 lofty/src/id3/mod.rs       |   4 +-
 lofty/src/id3/v2/header.rs | 110 ++++++++++++++++++++++++++++---------
 lofty/src/id3/v2/read.rs   |   2 +-
 lofty/src/mpeg/read.rs     |   2 +-
 4 files changed, 88 insertions(+), 30 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index b869e54..3cafa20 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -207,12 +207,12 @@ where
 		log::debug!("Found an ID3v2 tag, parsing");
 
 		if config.read {
-			let mut tag = try_vec![0; id3v2_header.size as usize]?;
+			let mut tag = try_vec![0; id3v2_header.content_size() as usize]?;
 			reader.read_exact(&mut tag)?;
 
 			id3v2 = Some(tag)
 		} else {
-			reader.seek(SeekFrom::Current(i64::from(id3v2_header.size)))?;
+			reader.seek(SeekFrom::Current(i64::from(id3v2_header.content_size())))?;
 		}
 
 		if id3v2_header.flags.footer {
diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 5412c5f..4da1946 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -1,7 +1,7 @@
 use crate::error::FakeTagError;
 use crate::id3::v2::error::{Id3v2HeaderError, Id3v2ParseError};
 use crate::id3::v2::restrictions::TagRestrictions;
-use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
+use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 
 use std::fmt::Display;
 use std::io::Read;
@@ -150,26 +150,19 @@ impl Id3v2Header {
 			(version == Id3v2Version::V4 || version == Id3v2Version::V3) && flags & 0x40 == 0x40;
 
 		if extended_header {
-			match version {
+			let mut reader = ExtendedHeaderReader {
+				reader: bytes,
 				// In ID3v2.3, the extended header is considered separate from the frame header, and
 				// thus subject to unsynchronization
-				Id3v2Version::V3 => {
-					if flags_parsed.unsynchronisation {
-						let mut reader = UnsynchronizedStream::new(bytes);
-						extended_size = reader.read_u32::<BigEndian>()?;
-						read_extended_header(&mut reader, &mut flags_parsed, extended_size)?;
-					} else {
-						extended_size = bytes.read_u32::<BigEndian>()?;
-						read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-					}
-				},
+				//
 				// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
-				Id3v2Version::V4 => {
-					extended_size = bytes.read_u32::<BigEndian>()?.unsynch();
-					read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-				},
-				_ => unreachable!(),
-			}
+				unsynchronised: version == Id3v2Version::V3 && flags_parsed.unsynchronisation,
+				last_byte: 0,
+				bytes_read: 0,
+			};
+
+			read_extended_header(&mut reader, &mut flags_parsed, version, size)?;
+			extended_size = reader.bytes_read;
 		}
 
 		if extended_size > 0 && extended_size >= size {
@@ -184,42 +177,107 @@ impl Id3v2Header {
 		})
 	}
 
+	/// The number of bytes left of the tag contents, once the extended header was read
+	pub(crate) fn content_size(&self) -> u32 {
+		self.size - self.extended_size
+	}
+
 	/// The total size of the tag, including the header, footer, and extended header
 	pub(crate) fn full_tag_size(&self) -> u32 {
-		self.size + 10 + self.extended_size + if self.flags.footer { 10 } else { 0 }
+		self.size + 10 + if self.flags.footer { 10 } else { 0 }
+	}
+}
+
+/// Reads no further than asked to, counting the bytes the extended header really occupies
+struct ExtendedHeaderReader<'a, R> {
+	reader: &'a mut R,
+	unsynchronised: bool,
+	last_byte: u8,
+	bytes_read: u32,
+}
+
+impl<R: Read> Read for ExtendedHeaderReader<'_, R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let Some(dest) = buf.first_mut() else {
+			return Ok(0);
+		};
+
+		let mut byte = [0];
+		loop {
+			if self.reader.read(&mut byte)? == 0 {
+				return Ok(0);
+			}
+
+			self.bytes_read += 1;
+			let stuffing = self.unsynchronised && self.last_byte == 0xFF && byte[0] == 0;
+			self.last_byte = byte[0];
+
+			if !stuffing {
+				break;
+			}
+		}
+
+		*dest = byte[0];
+		Ok(1)
 	}
 }
 
 fn read_extended_header<R: Read>(
 	reader: &mut R,
 	flags: &mut Id3v2TagFlags,
-	header_size: u32,
+	version: Id3v2Version,
+	tag_size: u32,
 ) -> Result<(), Id3v2ParseError> {
-	if header_size < 6 {
+	let mut header_size = reader.read_u32::<BigEndian>()?;
+	if version == Id3v2Version::V4 {
+		header_size = header_size.unsynch();
+	}
+
+	if header_size < 6 || header_size >= tag_size {
 		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
 	}
 
+	if version == Id3v2Version::V3 {
+		// In ID3v2.3, the size excludes itself, and there are no restrictions
+		let mut content = reader.take(u64::from(header_size));
+
+		flags.crc = content.read_u16::<BigEndian>()? & 0x8000 == 0x8000;
+
+		// We don't care about the size of the padding (4), or the existing CRC (4)
+		std::io::copy(&mut content, &mut std::io::sink())?;
+		return Ok(());
+	}
+
+	let mut content = reader.take(u64::from(header_size - 4));
+
 	// Useless byte since there's only 1 byte for flags
-	let _num_flag_bytes = reader.read_u8()?;
+	let _num_flag_bytes = content.read_u8()?;
 
-	let extended_flags = reader.read_u8()?;
+	let extended_flags = content.read_u8()?;
 
 	// The only flags we care about here are the CRC and restrictions
 
+	// The flag for tags that are an update of a previous one has no data, but a length byte of 0
+	if extended_flags & 0x40 == 0x40 {
+		let _data_length = content.read_u8()?;
+	}
+
 	if extended_flags & 0x20 == 0x20 {
 		flags.crc = true;
 
 		// We don't care about the existing CRC (5) or its length byte (1)
 		let mut crc = [0; 6];
-		reader.read_exact(&mut crc)?;
+		content.read_exact(&mut crc)?;
 	}
 
 	if extended_flags & 0x10 == 0x10 {
 		// We don't care about the length byte, it is always 1
-		let _data_length = reader.read_u8()?;
+		let _data_length = content.read_u8()?;
 
-		flags.restrictions = Some(TagRestrictions::from_byte(reader.read_u8()?));
+		flags.restrictions = Some(TagRestrictions::from_byte(content.read_u8()?));
 	}
 
+	std::io::copy(&mut content, &mut std::io::sink())?;
+
 	Ok(())
 }
diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index a1facba..b892464 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -24,7 +24,7 @@ where
 		header.version
 	);
 
-	let mut tag_bytes = bytes.take(u64::from(header.size - header.extended_size));
+	let mut tag_bytes = bytes.take(u64::from(header.content_size()));
 
 	// Prior to Id3v2.4, the tag-wide `unsynchronization` flag implied that unsynchronization was applied
 	// to the *entire* content of the tag following the header, since there was no frame-level flag.
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index db5bf1c..456fd29 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -59,7 +59,7 @@ where
 					}
 					file.id3v2_tag = Some(id3v2);
 				} else {
-					reader.seek(SeekFrom::Current(i64::from(header.size)))?;
+					reader.seek(SeekFrom::Current(i64::from(header.content_size())))?;
 				}
 
 				// Skip over the footer
-- 
2.43.0


From f5cf428fee49c122eb4335f08e3e0b50d8686770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 19/58] fix: AAC files' ID3v2 tags are skipped when tags are
 not read, and the footer of repeated tags always

---
 lofty/src/aac/read.rs  | 6 ++++--
 lofty/src/mpeg/read.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index cc79ee7..6a5ddc3 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -66,9 +66,11 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
+				} else {
+					reader.seek(SeekFrom::Current(i64::from(header.content_size())))?;
 				}
 
 				// Skip over the footer
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 456fd29..e4d7973 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -55,9 +55,9 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
 				} else {
 					reader.seek(SeekFrom::Current(i64::from(header.content_size())))?;
 				}
-- 
2.43.0


From 8e6a437e06e60c9e79c75fd74caf34ef1e3ed2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 20/58] fix: ID3v2.4 tags with an extended header say so,
 ID3v2.3 tags get none and announce being experimental with the right flag

---
 lofty/src/id3/v2/header.rs    |  2 +-
 lofty/src/id3/v2/write/mod.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 4da1946..9dd6887 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -80,7 +80,7 @@ impl Id3v2TagFlags {
 		let mut byte = 0;
 
 		if self.experimental {
-			byte |= 0x40;
+			byte |= 0x20;
 		}
 
 		if self.footer {
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index ceaa876..005cf06 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -110,7 +110,8 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	}
 
 	let has_footer = tag.flags.footer;
-	let needs_crc = tag.flags.crc;
+	// The extended header of ID3v2.3 is a different one, and optional
+	let needs_crc = tag.flags.crc && !is_id3v23;
 	let has_restrictions = tag.flags.restrictions.is_some();
 
 	let (mut id3v2, extended_header_len) = create_tag_header(tag.flags, is_id3v23)?;
@@ -146,7 +147,7 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		let mut content_start_idx = 22;
 
 		if has_restrictions {
-			content_start_idx += 3;
+			content_start_idx += 2;
 		}
 
 		// Skip 16 bytes
@@ -207,14 +208,18 @@ fn create_tag_header(
 		header.write_all(&[4, 0])?;
 	}
 
-	let extended_header = flags.crc || flags.restrictions.is_some();
+	let extended_header = !is_id3v23 && (flags.crc || flags.restrictions.is_some());
 
-	let tag_flags = if is_id3v23 {
+	let mut tag_flags = if is_id3v23 {
 		flags.as_id3v23_byte()
 	} else {
 		flags.as_id3v24_byte()
 	};
 
+	if extended_header {
+		tag_flags |= 0x40;
+	}
+
 	header.write_u8(tag_flags)?;
 	header.write_u32::<BigEndian>(0)?;
 
-- 
2.43.0


From c1c3345c8b98f2866287d8f4af42e1f4ff4458f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 21/58] fix: APE durations count every frame, whatever the
 length of the last one

---
 lofty/src/ape/properties.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lofty/src/ape/properties.rs b/lofty/src/ape/properties.rs
index 4435848..b86b580 100644
--- a/lofty/src/ape/properties.rs
+++ b/lofty/src/ape/properties.rs
@@ -250,11 +250,9 @@ fn get_duration_bitrate(
 	blocks_per_frame: u32,
 	stream_len: u64,
 ) {
-	let mut total_samples = u64::from(final_frame_blocks);
-
-	if total_samples > 1 {
-		total_samples += u64::from(blocks_per_frame) * u64::from(total_frames - 1)
-	}
+	// Every frame but the last one is full, see `verify()` for `total_frames > 0`
+	let total_samples = u64::from(blocks_per_frame) * u64::from(total_frames - 1)
+		+ u64::from(final_frame_blocks);
 
 	if properties.sample_rate > 0 {
 		let length = (total_samples as f64 * 1000.0) / f64::from(properties.sample_rate);
-- 
2.43.0


From c57c36c35a91b21736a9bf3a842b6f435c8c7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 22/58] fix: MPEG Layer I frames are a whole number of 4 byte
 slots long

---
 lofty/src/mpeg/header.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index ef3c680..15b7554 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -314,8 +314,12 @@ impl Header {
 
 		header.data_start = SIDE_INFORMATION_SIZES[version_index][header.channel_mode as usize] + 4;
 		header.samples = SAMPLES[layer_index][version_index];
-		header.len =
-			(u32::from(header.samples) * header.bitrate * 125 / header.sample_rate) + padding;
+		header.len = u32::from(header.samples) * header.bitrate * 125 / header.sample_rate;
+		if let Layer::Layer1 = header.layer {
+			// Layer I frames are made of 4 byte slots
+			header.len -= header.len % 4;
+		}
+		header.len += padding;
 
 		Some(header)
 	}
-- 
2.43.0


From 84fad7606b8fe00c87786970f156b81f310bd5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 23/58] fix: WavPack multichannel information is found, and
 read as it is laid out

---
 lofty/src/wavpack/properties.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index f50e037..4f90215 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -144,9 +144,12 @@ where
 		let sample_rate_idx = ((flags >> 23) & 0xF) as usize;
 		properties.sample_rate = SAMPLE_RATES[sample_rate_idx];
 
+		// Whether the stream is spread over multiple blocks, and this is the first
+		let is_multichannel = flags & (FLAG_INITIAL_BLOCK | FLAG_FINAL_BLOCK) == FLAG_INITIAL_BLOCK;
+
 		// In the case of non-standard sample rates and DSD audio, we need to actually read the
-		// block to get the sample rate
-		if sample_rate_idx == 15 || flags & FLAG_DSD == FLAG_DSD {
+		// block to get the sample rate, and the channels of multichannel streams
+		if sample_rate_idx == 15 || flags & FLAG_DSD == FLAG_DSD || is_multichannel {
 			let mut block_contents = try_vec![0; (block_header.block_size - 24) as usize]?;
 			reader.read_exact(&mut block_contents)?;
 
@@ -371,10 +374,10 @@ fn get_extended_meta_info(
 				}
 
 				properties.channels = u16::from(reader.read_u8()?);
+				size -= 1;
 
-				// size - (id length + channel length)
-				let s = size - 2;
-				match s {
+				// The first size with a channel mask is 1
+				match size - 1 {
 					0 => {
 						let channel_mask = reader.read_u8()?;
 						size -= 1;
@@ -396,20 +399,26 @@ fn get_extended_meta_info(
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
 					4 => {
+						// Low byte of the stream count (1)
+						let _ = reader.read_u8()?;
+
 						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
 						properties.channels += 1;
 
 						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 4;
+						size -= 5;
 
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
 					5 => {
+						// Low byte of the stream count (1)
+						let _ = reader.read_u8()?;
+
 						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
 						properties.channels += 1;
 
 						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 5;
+						size -= 6;
 
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
-- 
2.43.0


From cc22a3d87ffc5df42f0afdce2ffdae581024346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 24/58] fix: AAC channel configuration 7 is eight channels

---
 lofty/src/aac/properties.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lofty/src/aac/properties.rs b/lofty/src/aac/properties.rs
index 40c0b6e..390072c 100644
--- a/lofty/src/aac/properties.rs
+++ b/lofty/src/aac/properties.rs
@@ -106,14 +106,18 @@ pub(super) fn read_properties(
 	properties.version = first_frame.version;
 	properties.audio_object_type = first_frame.audio_object_ty;
 	properties.sample_rate = first_frame.sample_rate;
-	properties.channels = first_frame.channels;
+	// Channel configuration 7 is 7.1, the others are their channel count
+	properties.channels = match first_frame.channels {
+		7 => 8,
+		channels => channels,
+	};
 
-	match ChannelMask::from_mp4_channels(properties.channels) {
+	match ChannelMask::from_mp4_channels(first_frame.channels) {
 		Some(mask) => properties.channel_mask = Some(mask),
 		None => {
 			log::warn!(
 				"Unable to create channel mask, invalid channel count: {}",
-				properties.channels
+				first_frame.channels
 			);
 		},
 	}
-- 
2.43.0


From 1b224601268297287a316149bc0914edf5732641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 25/58] fix: MP4 AudioSpecificConfig fields are taken from the
 bits they occupy

---
 lofty/src/mp4/properties.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f86f52d..87f3ae3 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -849,7 +849,7 @@ where
 				if object_type == 31 {
 					extended_object_type = true;
 
-					object_type = 32 + ((byte_a & 7) | (byte_b >> 5));
+					object_type = 32 + (((byte_a & 7) << 3) | (byte_b >> 5));
 					frequency_index = (byte_b >> 1) & 0x0F;
 				}
 
@@ -864,14 +864,15 @@ where
 						let sample_rate;
 						let explicit_sample_rate = stsd.read_u24()?;
 						if extended_object_type {
-							sample_rate = explicit_sample_rate >> 1;
-							channel_conf = ((explicit_sample_rate >> 4) & 0x0F) as u8;
-						} else {
-							sample_rate = explicit_sample_rate << 1;
-							let byte_c = stsd.read_u8()?;
+							let byte_f = stsd.read_u8()?;
 
-							channel_conf =
-								((explicit_sample_rate & 0x80) as u8 | (byte_c >> 1)) & 0x0F;
+							sample_rate =
+								(u32::from(byte_b & 0x01) << 23) | (explicit_sample_rate >> 1);
+							channel_conf = ((explicit_sample_rate as u8 & 0x01) << 3) | (byte_f >> 5);
+						} else {
+							sample_rate =
+								(u32::from(byte_b & 0x7F) << 17) | (explicit_sample_rate >> 7);
+							channel_conf = ((explicit_sample_rate >> 3) & 0x0F) as u8;
 						}
 
 						// Just use the sample rate we already read above if this is invalid
@@ -884,7 +885,7 @@ where
 
 						if extended_object_type {
 							let byte_c = stsd.read_u8()?;
-							channel_conf = (byte_b & 1) | (byte_c & 0xE0);
+							channel_conf = ((byte_b & 1) << 3) | (byte_c >> 5);
 						} else {
 							channel_conf = (byte_b >> 3) & 0x0F;
 						}
@@ -896,15 +897,16 @@ where
 				// The channel configuration isn't always set, at least when testing with
 				// the Audio Lossless Coding reference software
 				if channel_conf > 0 {
-					properties.channels = Some(channel_conf);
+					// Configuration 7 is 7.1, the others are their channel count
+					properties.channels = Some(if channel_conf == 7 { 8 } else { channel_conf });
 				}
 
 				// We just check for ALS here, might extend it for more codes eventually
 				if object_type == 36 {
-					let mut ident = [0; 5];
+					let mut ident = [0; 4];
 					stsd.read_exact(&mut ident)?;
 
-					if &ident == b"\0ALS\0" {
+					if &ident == b"ALS\0" {
 						properties.sample_rate = Some(stsd.read_u32()?);
 
 						// Sample count
-- 
2.43.0


From 5d52e8061be85bb017d9d7903b4645af99089168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 26/58] fix: MP4 version 2 sound descriptions are read, and
 left at their end

---
 lofty/src/mp4/properties.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 87f3ae3..4b2fa11 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -617,18 +617,24 @@ where
 				// Bytes per sample (4)
 				offset = reader.seek(SeekFrom::Current(16))?;
 			} else if stsd_version == 2 {
-				let extension_struct_size = reader.read_u32()?;
+				// Up to the end of the fields below, the sound description is 72 bytes in size
+				let struct_size = reader.read_u32()?;
 
-				// Skipping (at least) 32 bytes
-				// Sample rate 64 (8)
-				// Channel count (4)
+				// The values above are only placeholders
+				let sample_rate = f64::from_bits(reader.read_u64()?);
+				properties.sample_rate = Some(sample_rate.round() as u32);
+				properties.channels = Some(reader.read_u32()? as u8);
+
+				// Skipping (at least) 20 bytes
 				// Reserved (4)
 				// Bits per channel (4)
 				// Format specific flags (4)
 				// Bytes per audio packet (4)
 				// LPCM frames per audio packet (4)
-				// Struct size (variable)
-				offset = reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
+				// Extensions (variable)
+				offset = reader.seek(SeekFrom::Current(
+					20 + i64::from(struct_size.saturating_sub(72)),
+				))?;
 			}
 
 			match descriptor_format {
@@ -868,7 +874,8 @@ where
 
 							sample_rate =
 								(u32::from(byte_b & 0x01) << 23) | (explicit_sample_rate >> 1);
-							channel_conf = ((explicit_sample_rate as u8 & 0x01) << 3) | (byte_f >> 5);
+							channel_conf =
+								((explicit_sample_rate as u8 & 0x01) << 3) | (byte_f >> 5);
 						} else {
 							sample_rate =
 								(u32::from(byte_b & 0x7F) << 17) | (explicit_sample_rate >> 7);
-- 
2.43.0


From ee3237cead3d988be1d413776ad321e9c9a4e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:08 +0000
Subject: [PATCH 27/58] fix: MP4 atoms with a 64-bit size have a header of 16
 bytes

---
 lofty/src/mp4/atom_info.rs  | 15 +++++++++++++--
 lofty/src/mp4/ilst/write.rs | 16 +++++++---------
 lofty/src/mp4/moov.rs       | 27 +++++++++++++++------------
 lofty/src/mp4/properties.rs | 17 +++++++++--------
 lofty/src/mp4/read/mod.rs   | 29 ++++++++++++++++-------------
 lofty/src/mp4/write.rs      |  4 ++--
 6 files changed, 62 insertions(+), 46 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 31099a6..ed63b40 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -197,11 +197,17 @@ impl AtomInfo {
 			_ => (len_raw, false),
 		};
 
-		if len < ATOM_HEADER_LEN {
+		let header_size = if extended {
+			ATOM_HEADER_LEN + 8
+		} else {
+			ATOM_HEADER_LEN
+		};
+
+		if len < header_size {
 			// Seek to the end, since we can't recover from this
 			reader.seek(SeekFrom::End(0))?;
 
-			return Err(NotEnoughDataError::new(Some(8)).into());
+			return Err(NotEnoughDataError::new(Some(header_size as usize)).into());
 		}
 
 		// `len` includes itself and the identifier
@@ -253,6 +259,11 @@ impl AtomInfo {
 
 		ATOM_HEADER_LEN + 8
 	}
+
+	/// The length of the atom, without its header
+	pub(crate) fn content_len(&self) -> u64 {
+		self.len.saturating_sub(self.header_size())
+	}
 }
 
 fn parse_freeform<R>(
diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 1be152b..4a88897 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -58,6 +58,7 @@ where
 
 	let moov_start = moov.info.start;
 	let moov_len = moov.info.len;
+	let moov_content_len = moov.info.content_len();
 	let moov_extended = moov.info.extended;
 
 	log::trace!(
@@ -66,10 +67,7 @@ where
 		moov_len
 	);
 
-	let mut moov_data_start = moov_start + ATOM_HEADER_LEN;
-	if moov_extended {
-		moov_data_start += 8;
-	}
+	let moov_data_start = moov_start + moov.info.header_size();
 
 	let mut write_handle = atom_writer.start_write();
 	write_handle.seek(SeekFrom::Start(moov_data_start))?;
@@ -79,7 +77,7 @@ where
 
 	let udta = find_child_atom(
 		&mut write_handle,
-		moov_len,
+		moov_content_len,
 		*b"udta",
 		write_options.parse_options.parsing_mode,
 	)
@@ -108,7 +106,7 @@ where
 
 		let meta = find_child_atom(
 			&mut write_handle,
-			udta.len,
+			udta.content_len(),
 			*b"meta",
 			write_options.parse_options.parsing_mode,
 		)
@@ -171,7 +169,7 @@ where
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
 				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + ATOM_HEADER_LEN) as usize;
+				let meta_start_pos = (udta.start + udta.header_size()) as usize;
 				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
@@ -187,7 +185,7 @@ where
 		new_udta_size = bytes.len() as u64;
 
 		// We'll put the new `udta` atom right at the start of `moov`
-		let udta_pos = (moov_start + ATOM_HEADER_LEN) as usize;
+		let udta_pos = moov_data_start as usize;
 		write_handle.splice(udta_pos..udta_pos, bytes);
 
 		drop(write_handle);
@@ -230,7 +228,7 @@ fn save_to_existing(
 
 	let (ilst_idx, tree) = atom_tree(
 		&mut write_handle,
-		meta.len - ATOM_HEADER_LEN,
+		meta.content_len(),
 		b"ilst",
 		write_options.parse_options.parsing_mode,
 	)
diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index c85b2d7..3dd8cf1 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -50,15 +50,18 @@ impl Moov {
 				match &fourcc {
 					b"trak" if parse_options.read_properties => {
 						// All we need from here is trak.mdia
-						if let Some(mdia) =
-							find_child_atom(reader, atom.len, *b"mdia", parse_options.parsing_mode)?
-						{
+						if let Some(mdia) = find_child_atom(
+							reader,
+							atom.content_len(),
+							*b"mdia",
+							parse_options.parsing_mode,
+						)? {
 							skip_atom(reader, mdia.extended, mdia.len)?;
 							traks.push(mdia);
 						}
 					},
 					b"udta" if parse_options.read_tags => {
-						let ilst_parsed = ilst_from_udta(reader, parse_options, atom.len - 8)
+						let ilst_parsed = ilst_from_udta(reader, parse_options, atom.content_len())
 							.map_err(TagParseError::from)?;
 						if let Some(ilst_parsed) = ilst_parsed {
 							let Some(mut existing_ilst) = ilst else {
@@ -97,7 +100,7 @@ where
 {
 	let mut read = 8;
 	let mut found_meta = false;
-	let mut meta_atom_size = 0;
+	let mut meta_content_len = 0;
 
 	while read < len {
 		let Some(atom) = reader.next()? else {
@@ -106,7 +109,7 @@ where
 
 		if atom.ident == AtomIdent::Fourcc(*b"meta") {
 			found_meta = true;
-			meta_atom_size = atom.len;
+			meta_content_len = atom.content_len();
 			break;
 		}
 
@@ -123,22 +126,22 @@ where
 	let full_meta_atom = meta_is_full(reader)?;
 
 	if full_meta_atom {
-		read = 12;
+		read = 4;
 	} else {
-		read = 8;
+		read = 0;
 	}
 
 	let mut found_ilst = false;
-	let mut ilst_atom_size = 0;
+	let mut ilst_content_len = 0;
 
-	while read < meta_atom_size {
+	while read < meta_content_len {
 		let Some(atom) = reader.next()? else {
 			break;
 		};
 
 		if atom.ident == AtomIdent::Fourcc(*b"ilst") {
 			found_ilst = true;
-			ilst_atom_size = atom.len;
+			ilst_content_len = atom.content_len();
 			break;
 		}
 
@@ -147,7 +150,7 @@ where
 	}
 
 	if found_ilst {
-		return parse_ilst(reader, parse_options, ilst_atom_size - 8).map(Some);
+		return parse_ilst(reader, parse_options, ilst_content_len).map(Some);
 	}
 
 	Ok(None)
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 4b2fa11..3278617 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -307,9 +307,9 @@ where
 		mdhd = None;
 		minf = None;
 
-		reader.seek(SeekFrom::Start(mdia.start + 8))?;
+		reader.seek(SeekFrom::Start(mdia.start + mdia.header_size()))?;
 
-		let mut read = 8;
+		let mut read = mdia.header_size();
 		while read < mdia.len {
 			let Some(atom) = reader.next()? else { break };
 
@@ -493,7 +493,7 @@ impl Minf {
 			let mut stsd_data = None;
 			let mut stts = None;
 
-			let mut read = 8;
+			let mut read = stbl.header_size();
 			while read < stbl.len {
 				let Some(atom) = reader.next()? else { break };
 
@@ -509,7 +509,7 @@ impl Minf {
 							where
 								R: Read + Seek,
 							{
-								let mut stsd = try_vec![0; (atom.len - 8) as usize]?;
+								let mut stsd = try_vec![0; atom.content_len() as usize]?;
 								reader.read_exact(&mut stsd)?;
 								Ok(stsd)
 							}
@@ -688,7 +688,7 @@ where
 	// We need the mdhd and minf atoms from the audio track
 	let AudioTrak { mdhd, minf } = find_audio_trak(reader, traks)?;
 
-	reader.seek(SeekFrom::Start(mdhd.start + 8))?;
+	reader.seek(SeekFrom::Start(mdhd.start + mdhd.header_size()))?;
 	let Mdhd {
 		timescale,
 		duration,
@@ -707,8 +707,9 @@ where
 		return Ok(properties);
 	};
 
-	reader.seek(SeekFrom::Start(minf_info.start + 8))?;
-	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.len, parse_mode)? else {
+	reader.seek(SeekFrom::Start(minf_info.start + minf_info.header_size()))?;
+	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.content_len(), parse_mode)?
+	else {
 		return Ok(properties);
 	};
 
@@ -1038,7 +1039,7 @@ where
 
 	while let Ok(Some(atom)) = reader.next() {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
-			return Ok(atom.len - 8);
+			return Ok(atom.content_len());
 		}
 
 		skip_atom(reader, atom.extended, atom.len)?;
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 5954072..3606293 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -1,7 +1,7 @@
 mod atom_reader;
 
 use super::Mp4File;
-use super::atom_info::{AtomIdent, AtomInfo};
+use super::atom_info::{ATOM_HEADER_LEN, AtomIdent, AtomInfo};
 use super::moov::Moov;
 use super::properties::Mp4Properties;
 use crate::config::{ParseOptions, ParsingMode};
@@ -61,7 +61,10 @@ where
 
 	// Find the `moov` atom and restrict the reader to its length
 	let moov_info = Moov::find(&mut reader)?;
-	reader.reset_bounds(moov_info.start + 8, moov_info.len - 8);
+	reader.reset_bounds(
+		moov_info.start + moov_info.header_size(),
+		moov_info.content_len(),
+	);
 
 	let moov = Moov::parse(&mut reader, parse_options)?;
 
@@ -97,27 +100,27 @@ pub(super) fn skip_atom<R>(reader: &mut R, extended: bool, len: u64) -> Result<(
 where
 	R: Read + Seek,
 {
-	log::trace!("Attempting to skip {} bytes", len - 8);
-
-	if !extended {
-		reader.seek(SeekFrom::Current(i64::from(len as u32) - 8))?;
-		return Ok(());
-	}
+	let header_size = if extended {
+		ATOM_HEADER_LEN + 8
+	} else {
+		ATOM_HEADER_LEN
+	};
 
-	let pos = reader.stream_position()?;
+	let to_skip = len.saturating_sub(header_size);
+	log::trace!("Attempting to skip {to_skip} bytes");
 
-	let Some(pos) = pos.checked_add(len - 8) else {
+	let Ok(to_skip) = i64::try_from(to_skip) else {
 		return Err(TooMuchDataError.into());
 	};
 
-	reader.seek(SeekFrom::Start(pos))?;
+	reader.seek(SeekFrom::Current(to_skip))?;
 
 	Ok(())
 }
 
 /// Finds the first child atom with the given fourcc
 ///
-/// * `len` is the length of the parent atom
+/// * `len` is the length of the parent atom's content
 /// * `expected` is the fourcc of the child atom to find
 pub(super) fn find_child_atom<R>(
 	reader: &mut R,
@@ -130,7 +133,7 @@ where
 {
 	let mut ret = None;
 
-	while len > 8 {
+	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 276c5cf..ff97393 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -61,7 +61,7 @@ impl ContextualAtom {
 			},
 		}
 
-		let mut len = info.len - info.header_size();
+		let mut len = info.content_len();
 		let mut children = Vec::new();
 
 		// See meta_is_full for details
@@ -212,7 +212,7 @@ impl AtomWriterCompanion<'_> {
 		size: u64,
 		extended: bool,
 	) -> std::io::Result<()> {
-		if u32::try_from(size).is_ok() {
+		if !extended && u32::try_from(size).is_ok() {
 			// ???? (identifier)
 			self.write_u32::<BigEndian>(size as u32)?;
 			self.seek(SeekFrom::Current(IDENTIFIER_LEN as i64))?;
-- 
2.43.0


From 97324570cc817b23b10fdc86600189c97ddc548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 28/58] fix: seeking within the bounds of an MP4 atom takes the
 positions it returns

---
 lofty/src/mp4/read/atom_reader.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 7861b5d..5e994de 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -114,29 +114,24 @@ where
 {
 	fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
 		match pos {
+			// Positions are those of the underlying reader, the bounds are never left
 			SeekFrom::Start(s) => {
-				if s > self.len {
-					self.remaining_size = 0;
-
-					let bound_end = self.start + self.len;
-					return self.reader.seek(SeekFrom::Start(bound_end));
-				}
+				let bound_end = self.start + self.len;
+				let pos = s.clamp(self.start, bound_end);
 
-				let ret = self.reader.seek(SeekFrom::Start(self.start + s))?;
-				self.remaining_size = self.len.saturating_sub(ret);
-				Ok(ret)
+				self.remaining_size = bound_end - pos;
+				self.reader.seek(SeekFrom::Start(pos))
 			},
 			SeekFrom::End(s) => {
-				if s >= 0 {
-					self.remaining_size = 0;
-					return self.reader.seek(SeekFrom::Start(self.start + self.len));
-				}
-
 				let bound_end = self.start + self.len;
-				let relative_seek_count = core::cmp::min(self.len, s.unsigned_abs());
-				self.reader.seek(SeekFrom::Start(
-					bound_end.saturating_sub(relative_seek_count),
-				))
+				let from_end = if s.is_negative() {
+					core::cmp::min(self.len, s.unsigned_abs())
+				} else {
+					0
+				};
+
+				self.remaining_size = from_end;
+				self.reader.seek(SeekFrom::Start(bound_end - from_end))
 			},
 			SeekFrom::Current(s) => {
 				if s.is_negative() {
-- 
2.43.0


From 708dba3487f77e611d85df966e041685f1769408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 29/58] fix: an MP4 atom that extends to the end of the file
 includes its header

---
 lofty/src/mp4/atom_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index ed63b40..190699f 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -190,7 +190,7 @@ impl AtomInfo {
 
 				reader.seek(SeekFrom::Start(pos))?;
 
-				(end - pos, false)
+				(end - start, false)
 			},
 			// There's an extended length
 			1 => (reader.read_u64::<BigEndian>()?, true),
-- 
2.43.0


From df4f8412ce4a17770b7a88e5b25392b315c471a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 30/58] fix: the children of an MP4 track or udta were taken
 for children of moov

---
 lofty/src/mp4/moov.rs       | 10 ++++++++--
 lofty/src/mp4/properties.rs |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index 3dd8cf1..f70915c 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -7,7 +7,7 @@ use crate::error::TagParseError;
 use crate::mp4::error::Mp4ParseError;
 use crate::mp4::ilst::error::IlstParseError;
 
-use std::io::{Read, Seek};
+use std::io::{Read, Seek, SeekFrom};
 
 pub(crate) struct Moov {
 	// Represents the trak.mdia atom
@@ -56,13 +56,19 @@ impl Moov {
 							*b"mdia",
 							parse_options.parsing_mode,
 						)? {
-							skip_atom(reader, mdia.extended, mdia.len)?;
 							traks.push(mdia);
 						}
+
+						// There can be more in the `trak` than the `mdia`
+						reader.seek(SeekFrom::Start(atom.start + atom.len))?;
 					},
 					b"udta" if parse_options.read_tags => {
 						let ilst_parsed = ilst_from_udta(reader, parse_options, atom.content_len())
 							.map_err(TagParseError::from)?;
+
+						// There can be more in the `udta` than the `ilst`
+						reader.seek(SeekFrom::Start(atom.start + atom.len))?;
+
 						if let Some(ilst_parsed) = ilst_parsed {
 							let Some(mut existing_ilst) = ilst else {
 								ilst = Some(ilst_parsed);
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 3278617..81b94b3 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -340,7 +340,10 @@ where
 
 						skip_atom(reader, atom.extended, atom.len - 12)?;
 					},
-					b"minf" => minf = Some(atom),
+					b"minf" => {
+						skip_atom(reader, atom.extended, atom.len)?;
+						minf = Some(atom)
+					},
 					_ => {
 						skip_atom(reader, atom.extended, atom.len)?;
 					},
-- 
2.43.0


From cfae553399bf91ea29b78f04148bb2660f01e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 31/58] fix: MP4 sample entries after an unsupported one were
 looked for in the wrong place

---
 lofty/src/mp4/properties.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 81b94b3..159132b 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -611,14 +611,13 @@ where
 			// 16.16 fixed point number
 			properties.sample_rate = Some(reader.read_u32()? >> 16);
 
-			let mut offset = reader.stream_position()?;
 			if stsd_version == 1 {
 				// Skipping 16 bytes
 				// Samples per packet (4)
 				// Bytes per packet (4)
 				// Bytes per frame (4)
 				// Bytes per sample (4)
-				offset = reader.seek(SeekFrom::Current(16))?;
+				reader.seek(SeekFrom::Current(16))?;
 			} else if stsd_version == 2 {
 				// Up to the end of the fields below, the sound description is 72 bytes in size
 				let struct_size = reader.read_u32()?;
@@ -635,7 +634,7 @@ where
 				// Bytes per audio packet (4)
 				// LPCM frames per audio packet (4)
 				// Extensions (variable)
-				offset = reader.seek(SeekFrom::Current(
+				reader.seek(SeekFrom::Current(
 					20 + i64::from(struct_size.saturating_sub(72)),
 				))?;
 			}
@@ -654,8 +653,7 @@ where
 				// Special case to detect encrypted files
 				b"drms" => {
 					properties.drm_protected = true;
-					skip_atom(reader, false, offset - atom.start)
-						.map_err(|e| e.with_ident(atom.ident))?;
+					reader.seek(SeekFrom::Start(atom.start + atom.len))?;
 					continue;
 				},
 				_ => {
@@ -663,7 +661,7 @@ where
 						"Found unsupported sample entry: {:?}",
 						descriptor_format.escape_ascii().to_string()
 					);
-					skip_atom(reader, false, offset - atom.start)?;
+					reader.seek(SeekFrom::Start(atom.start + atom.len))?;
 					continue;
 				},
 			}
-- 
2.43.0


From c13ce7f4bcbba63047c2657b85c699ea60ee0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 32/58] fix: MP4 co64 chunk offsets were read 8 bytes too far
 in

---
 lofty/src/mp4/ilst/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 4a88897..4d16f06 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -476,7 +476,7 @@ fn update_offsets(
 	for co64 in moov.find_all_children(*b"co64", true) {
 		log::trace!("Found `co64` atom");
 
-		write_handle.seek(SeekFrom::Start(co64.start + ATOM_HEADER_LEN + 8 + 4))?;
+		write_handle.seek(SeekFrom::Start(co64.start + co64.header_size() + 4))?;
 
 		let count = write_handle.read_u32::<BigEndian>()?;
 		for _ in 0..count {
-- 
2.43.0


From 06c4a7275ce2a2d153af12acc0885363c282297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:59 +0000
Subject: [PATCH 33/58] fix: MP4 chunk offsets were not updated when a udta or
 meta atom was added

---
 lofty/src/mp4/ilst/write.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 4d16f06..32cc2d1 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -169,12 +169,17 @@ where
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
 				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + udta.header_size()) as usize;
-				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
+				let meta_start_pos = udta.start + udta.header_size();
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
 				//       This whole function needs to be refactored eventually.
 				drop(write_handle);
+
+				update_offsets(&atom_writer, moov, bytes.len() as i64, meta_start_pos)?;
+
+				let mut write_handle = atom_writer.start_write();
+				write_handle.splice(meta_start_pos as usize..meta_start_pos as usize, bytes);
+				drop(write_handle);
 			},
 		}
 	} else {
@@ -185,9 +190,12 @@ where
 		new_udta_size = bytes.len() as u64;
 
 		// We'll put the new `udta` atom right at the start of `moov`
+		drop(write_handle);
+		update_offsets(&atom_writer, moov, bytes.len() as i64, moov_data_start)?;
+
 		let udta_pos = moov_data_start as usize;
+		let mut write_handle = atom_writer.start_write();
 		write_handle.splice(udta_pos..udta_pos, bytes);
-
 		drop(write_handle);
 	}
 
-- 
2.43.0


From a2fe7f302cba6388a7009102103aa0035eee5ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:59 +0000
Subject: [PATCH 34/58] fix: MP4 fragments kept their old base data offsets

---
 lofty/src/mp4/ilst/write.rs | 13 ++++++-------
 lofty/src/mp4/write.rs      | 14 +++++++++++---
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 32cc2d1..74a9814 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -503,14 +503,9 @@ fn update_offsets(
 		}
 	}
 
-	let Some(moof) = writer.find_contextual_atom(*b"moof") else {
-		return Ok(());
-	};
-
-	log::trace!("Found `moof` atom, checking for `tfhd` atoms to update");
-
 	// 64-bit offsets
-	for tfhd in moof.find_all_children(*b"tfhd", true) {
+	let moofs = writer.find_contextual_atoms(*b"moof");
+	for tfhd in moofs.flat_map(|moof| moof.find_all_children(*b"tfhd", true)) {
 		log::trace!("Found `tfhd` atom");
 
 		let tfhd_start = tfhd.start;
@@ -529,6 +524,10 @@ fn update_offsets(
 		let base_data_offset = (flags & 0b1) != 0;
 
 		if base_data_offset {
+			// Skipping 4 bytes
+			// Track ID (4)
+			write_handle.seek(SeekFrom::Current(4))?;
+
 			let read_offset = write_handle.read_u64::<BigEndian>()?;
 			if read_offset < ilst_offset {
 				continue;
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index ff97393..d2e957d 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -25,6 +25,7 @@ const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 	*b"moov",
 		*b"udta",
 		*b"moof",
+			*b"traf",
 		*b"trak",
 			*b"mdia",
 				*b"minf",
@@ -152,9 +153,16 @@ impl AtomWriter {
 	}
 
 	pub(super) fn find_contextual_atom(&self, fourcc: [u8; 4]) -> Option<&ContextualAtom> {
-		self.atoms
-			.iter()
-			.find(|atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc))
+		self.find_contextual_atoms(fourcc).next()
+	}
+
+	pub(super) fn find_contextual_atoms(
+		&self,
+		fourcc: [u8; 4],
+	) -> impl Iterator<Item = &ContextualAtom> {
+		self.atoms.iter().filter(
+			move |atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc),
+		)
 	}
 
 	pub(super) fn into_contents(self) -> Vec<u8> {
-- 
2.43.0


From 13fa7577eb3afaea2d949a270075f5d0ac1d4c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 35/58] fix: saving to an MP4 'meta' without an 'ilst' replaced
 its first atom

---
 lofty/src/mp4/ilst/write.rs | 22 +++++++++++-----------
 lofty/src/mp4/read/mod.rs   | 14 ++++----------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 74a9814..8f51702 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -242,17 +242,7 @@ fn save_to_existing(
 	)
 	.map_err(Into::<FileParseError>::into)?;
 
-	if tree.is_empty() {
-		// Nothing to do
-		if remove_tag {
-			return Ok(());
-		}
-
-		let meta_end = (meta.start + meta.len) as usize;
-
-		replacement = ilst;
-		range = meta_end..meta_end;
-	} else {
+	if let Some(ilst_idx) = ilst_idx {
 		let existing_ilst = &tree[ilst_idx];
 		let existing_ilst_size = existing_ilst.len;
 
@@ -327,6 +317,16 @@ fn save_to_existing(
 			replacement = ilst;
 			range = range_start as usize..range_end as usize;
 		}
+	} else {
+		// Nothing to do
+		if remove_tag {
+			return Ok(());
+		}
+
+		let meta_end = (meta.start + meta.len) as usize;
+
+		replacement = ilst;
+		range = meta_end..meta_end;
 	}
 
 	drop(write_handle);
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 3606293..e8311af 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -153,21 +153,19 @@ where
 	Ok(ret)
 }
 
-// Creates a tree of nested atoms
+// Lists the atoms next to each other, and gives the index of the `up_to` atom, if there is one
 pub(super) fn atom_tree<R>(
 	reader: &mut R,
 	mut len: u64,
 	up_to: &[u8],
 	parse_mode: ParsingMode,
-) -> Result<(usize, Vec<AtomInfo>), Mp4ParseError>
+) -> Result<(Option<usize>, Vec<AtomInfo>), Mp4ParseError>
 where
 	R: Read + Seek,
 {
-	let mut found_idx: usize = 0;
+	let mut found_idx = None;
 	let mut buf = Vec::new();
 
-	let mut i = 0;
-
 	while len > 8 {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
@@ -177,18 +175,14 @@ where
 		len = len.saturating_sub(atom.len);
 
 		if let AtomIdent::Fourcc(ref fourcc) = atom.ident {
-			i += 1;
-
 			if fourcc == up_to {
-				found_idx = i;
+				found_idx = Some(buf.len());
 			}
 
 			buf.push(atom);
 		}
 	}
 
-	found_idx = found_idx.saturating_sub(1);
-
 	Ok((found_idx, buf))
 }
 
-- 
2.43.0


From c840ec60beb4f129a69f5ca45d5ffe31ccf66ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 36/58] fix: 32-bit MP4 chunk offsets wrapped around when they
 grew past 4 GiB

---
 lofty/src/mp4/ilst/write.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 8f51702..cb2aa15 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -470,13 +470,13 @@ fn update_offsets(
 			if u64::from(read_offset) < ilst_offset {
 				continue;
 			}
+			let new_offset =
+				u32::try_from(i64::from(read_offset) + difference).map_err(|_| TooMuchDataError)?;
+
 			write_handle.seek(SeekFrom::Current(-4))?;
-			write_handle.write_u32::<BigEndian>((i64::from(read_offset) + difference) as u32)?;
+			write_handle.write_u32::<BigEndian>(new_offset)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				(i64::from(read_offset) + difference) as u32
-			);
+			log::trace!("Updated offset from {read_offset} to {new_offset}");
 		}
 	}
 
-- 
2.43.0


From 6c46374f8094bfd152049a2e1074f4281bff44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 37/58] fix: a preferred padding smaller than an MP4 atom
 header underflowed

---
 lofty/src/mp4/ilst/write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index cb2aa15..6b9fbf7 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -410,7 +410,12 @@ where
 		return Ok((atom_size_difference, padding_size));
 	}
 
-	let Some(preferred_padding) = write_options.preferred_padding else {
+	// A `free` atom cannot be smaller than its header
+	let preferred_padding = write_options
+		.preferred_padding
+		.filter(|padding| u64::from(padding.get()) >= ATOM_HEADER_LEN);
+
+	let Some(preferred_padding) = preferred_padding else {
 		log::trace!("Cannot avoid offset update, not padding atom");
 		return Ok((atom_size_difference, 0));
 	};
-- 
2.43.0


From d9924366658a17b96cb904a62bf1ac98c389d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 38/58] fix: removing entries of a tag changed the order of the
 remaining ones

---
 lofty/src/id3/v2/frame/list.rs | 16 +++++-----------
 lofty/src/mp4/ilst/mod.rs      | 15 ++++-----------
 lofty/src/ogg/tag.rs           | 16 +++++-----------
 lofty/src/tag/mod.rs           | 16 ++++------------
 4 files changed, 18 insertions(+), 45 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index cf16f10..1158bb8 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -326,17 +326,11 @@ impl<'a> FrameList<'a> {
 	/// assert!(tag.is_empty());
 	/// ```
 	pub fn remove(&mut self, id: &FrameId<'_>) -> impl Iterator<Item = Frame<'a>> {
-		// TODO: drain_filter
-		let mut split_idx = 0_usize;
-
-		for read_idx in 0..self.0.len() {
-			if self.0[read_idx].id() == id {
-				self.0.to_mut().swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.0.to_mut().drain(..split_idx)
+		self.0
+			.to_mut()
+			.extract_if(.., |frame| frame.id() == id)
+			.collect::<Vec<_>>()
+			.into_iter()
 	}
 
 	/// Removes a certain [`PictureType`]
diff --git a/lofty/src/mp4/ilst/mod.rs b/lofty/src/mp4/ilst/mod.rs
index cd5b3db..ae5b848 100644
--- a/lofty/src/mp4/ilst/mod.rs
+++ b/lofty/src/mp4/ilst/mod.rs
@@ -272,17 +272,10 @@ impl Ilst {
 		&'a mut self,
 		ident: &AtomIdent<'_>,
 	) -> impl Iterator<Item = Atom<'static>> + use<'a> {
-		// TODO: drain_filter
-		let mut split_idx = 0_usize;
-
-		for read_idx in 0..self.atoms.len() {
-			if &self.atoms[read_idx].ident == ident {
-				self.atoms.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.atoms.drain(..split_idx)
+		self.atoms
+			.extract_if(.., |atom| &atom.ident == ident)
+			.collect::<Vec<_>>()
+			.into_iter()
 	}
 
 	/// Retain atoms based on the predicate
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index b20e1c7..6e509fe 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -303,17 +303,11 @@ impl VorbisComments {
 	/// }
 	/// ```
 	pub fn remove<'a>(&'a mut self, key: &str) -> impl Iterator<Item = String> + use<'a> {
-		// TODO: drain_filter
-		let mut split_idx = 0_usize;
-
-		for read_idx in 0..self.items.len() {
-			if self.items[read_idx].0.eq_ignore_ascii_case(key) {
-				self.items.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.items.drain(..split_idx).map(|(_, v)| v)
+		self.items
+			.extract_if(.., |(k, _)| k.eq_ignore_ascii_case(key))
+			.map(|(_, v)| v)
+			.collect::<Vec<_>>()
+			.into_iter()
 	}
 }
 
diff --git a/lofty/src/tag/mod.rs b/lofty/src/tag/mod.rs
index 7133a95..7eb052f 100644
--- a/lofty/src/tag/mod.rs
+++ b/lofty/src/tag/mod.rs
@@ -465,18 +465,10 @@ impl Tag {
 	where
 		F: FnMut(&TagItem) -> bool,
 	{
-		// TODO: drain_filter
-		let mut split_idx = 0;
-
-		for read_idx in 0..self.items.len() {
-			let item = &self.items[read_idx];
-			if item.key() == key && filter(item) {
-				self.items.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.items.drain(..split_idx)
+		self.items
+			.extract_if(.., |item| item.key() == key && filter(item))
+			.collect::<Vec<_>>()
+			.into_iter()
 	}
 
 	/// Removes all items with the specified [`ItemKey`], and filters them through [`ItemValue::into_string()`]
-- 
2.43.0


From ccb94a6f68b60db8017461762f4bc75845a1e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 39/58] fix: borrowed ID3v2 pictures were not removed by their
 type

---
 lofty/src/id3/v2/frame/list.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index 1158bb8..6ab780b 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -2,7 +2,7 @@ use super::Frame;
 use crate::TextEncoding;
 use crate::id3::v2::tag::new_picture_frame;
 use crate::id3::v2::{AttachedPictureFrame, ExtendedTextFrame, FrameId, TextInformationFrame};
-use crate::picture::{Picture, PictureType};
+use crate::picture::PictureType;
 
 use std::borrow::Cow;
 use std::ops::Deref;
@@ -336,12 +336,8 @@ impl<'a> FrameList<'a> {
 	/// Removes a certain [`PictureType`]
 	pub fn remove_picture_type(&mut self, picture_type: PictureType) {
 		self.0.to_mut().retain(|f| {
-			!matches!(f, Frame::Picture(AttachedPictureFrame {
-						picture: Cow::Owned(Picture {
-							pic_type: p_ty,
-							..
-						}), ..
-					}) if p_ty == &picture_type)
+			!matches!(f, Frame::Picture(AttachedPictureFrame { picture, .. })
+				if picture.pic_type == picture_type)
 		})
 	}
 
-- 
2.43.0


From 785b26428e52dc23adbbd2ee56a5bffada8564fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:08 +0000
Subject: [PATCH 40/58] fix: inserting an ID3v2 timestamp or key-value frame
 kept the one it replaces

---
 lofty/src/id3/v2/frame/list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index 6ab780b..11040d5 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -242,7 +242,10 @@ impl<'a> FrameList<'a> {
 			"MCDI", "ETCO", "MLLT", "SYTC", "RVRB", "PCNT", "RBUF", "POSS", "OWNE", "SEEK", "ASPI",
 		];
 
-		if ONE_PER_TAG.contains(&frame.id_str()) {
+		// "There may only be one text information frame of its kind in an tag"
+		let is_unique_text = matches!(frame, Frame::Timestamp(_) | Frame::KeyValue(_));
+
+		if is_unique_text || ONE_PER_TAG.contains(&frame.id_str()) {
 			let ret = self.remove(frame.id()).next();
 			self.push(frame);
 			return ret;
-- 
2.43.0


From 72d31f8b438ae601c457bc08706d83e51e83323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:08 +0000
Subject: [PATCH 41/58] fix: RIFF INFO items were not found in the letter case
 they are replaced and removed in

---
 lofty/src/iff/wav/tag/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 219cf9b..a1e5887 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -85,7 +85,7 @@ impl RiffInfoList {
 	pub fn get(&self, key: &str) -> Option<&str> {
 		self.items
 			.iter()
-			.find(|(k, _)| k == key)
+			.find(|(k, _)| k.eq_ignore_ascii_case(key))
 			.map(|(_, v)| v.as_str())
 	}
 
-- 
2.43.0


From ae6aab7c113eac71ad23dffb734006f8f159cec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:08 +0000
Subject: [PATCH 42/58] fix: a picture that could not be inserted into Vorbis
 Comments removed the existing icon

---
 lofty/src/ogg/picture_storage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lofty/src/ogg/picture_storage.rs b/lofty/src/ogg/picture_storage.rs
index 3e60a86..a3deae0 100644
--- a/lofty/src/ogg/picture_storage.rs
+++ b/lofty/src/ogg/picture_storage.rs
@@ -24,6 +24,11 @@ pub trait OggPictureStorage: private::Sealed {
 		picture: Picture,
 		information: Option<PictureInformation>,
 	) -> Result<Option<(Picture, PictureInformation)>, PictureParseError> {
+		let info = match information {
+			Some(pic_info) => pic_info,
+			None => PictureInformation::from_picture(&picture)?,
+		};
+
 		let ret = match picture.pic_type {
 			PictureType::Icon | PictureType::OtherIcon => self
 				.pictures()
@@ -33,11 +38,6 @@ pub trait OggPictureStorage: private::Sealed {
 			_ => None,
 		};
 
-		let info = match information {
-			Some(pic_info) => pic_info,
-			None => PictureInformation::from_picture(&picture)?,
-		};
-
 		self.pictures_mut().push((picture, info));
 
 		Ok(ret)
-- 
2.43.0


From b2b63a599d4e7da379960ae63a13c6d2950a14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 43/58] fix: borrowed ID3v2 icons were not replaced

---
 lofty/src/id3/v2/frame/list.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index 11040d5..c7f15f5 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -2,7 +2,7 @@ use super::Frame;
 use crate::TextEncoding;
 use crate::id3::v2::tag::new_picture_frame;
 use crate::id3::v2::{AttachedPictureFrame, ExtendedTextFrame, FrameId, TextInformationFrame};
-use crate::picture::PictureType;
+use crate::picture::{Picture, PictureType};
 
 use std::borrow::Cow;
 use std::ops::Deref;
@@ -458,9 +458,8 @@ impl FrameList<'static> {
 			for (i, frame) in self.0.iter().enumerate() {
 				match frame {
 					Frame::Picture(AttachedPictureFrame {
-						picture: Cow::Owned(Picture { pic_type, .. }),
-						..
-					}) if pic_type == &picture.pic_type => {
+						picture: existing, ..
+					}) if existing.pic_type == picture.pic_type => {
 						pos = Some(i);
 						break;
 					},
-- 
2.43.0


From e118a6b8a4e197a34b38e37ca5f68bc68c4833e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:28 +0000
Subject: [PATCH 44/58] fix: ID3v2 tags were flagged as unsynchronised without
 being so

---
 lofty/src/id3/v2/write/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 005cf06..0012afb 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -210,6 +210,12 @@ fn create_tag_header(
 
 	let extended_header = !is_id3v23 && (flags.crc || flags.restrictions.is_some());
 
+	// Frames are never unsynchronised when writing
+	let flags = Id3v2TagFlags {
+		unsynchronisation: false,
+		..flags
+	};
+
 	let mut tag_flags = if is_id3v23 {
 		flags.as_id3v23_byte()
 	} else {
-- 
2.43.0


From e2cd67a8eef55822d3a703eec3e6671addd9d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:29 +0000
Subject: [PATCH 45/58] fix: ID3v2 frames were written with flags and sizes
 that do not fit their content

---
 lofty/src/id3/v2/write/frame.rs | 58 +++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 3ac1235..e32e175 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -297,34 +297,48 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 fn write_frame<W>(
 	writer: &mut W,
 	name: &str,
-	flags: FrameFlags,
+	mut flags: FrameFlags,
 	value: &[u8],
 	write_options: WriteOptions,
 ) -> Result<(), FrameEncodingError>
 where
 	W: Write,
 {
+	// Content is never unsynchronised when writing
+	flags.unsynchronisation = false;
+
 	if flags.encryption.is_some() {
 		write_encrypted(writer, name, value, flags, write_options)?;
 		return Ok(());
 	}
 
-	let len = value.len() as u32;
+	// ... nor is it compressed
+	flags.compression = false;
+
+	let mut len = value.len() as u32;
 	let is_grouping_identity = flags.grouping_identity.is_some();
+	if is_grouping_identity {
+		len += 1;
+	}
 
-	write_frame_header(
-		writer,
-		name,
-		if is_grouping_identity { len + 1 } else { len },
-		flags,
-		write_options,
-	)?;
+	// ID3v2.3 doesn't have a data length indicator
+	let has_data_length_indicator =
+		flags.data_length_indicator.is_some() && !write_options.use_id3v23;
+	if has_data_length_indicator {
+		len += 4;
+	}
+
+	write_frame_header(writer, name, len, flags, write_options)?;
 
 	if is_grouping_identity {
 		// Guaranteed to be `Some` at this point.
 		writer.write_u8(flags.grouping_identity.unwrap())?;
 	}
 
+	if has_data_length_indicator {
+		writer.write_u32::<BigEndian>((value.len() as u32).synch()?)?;
+	}
+
 	writer.write_all(value)?;
 
 	Ok(())
@@ -350,16 +364,32 @@ where
 		));
 	}
 
-	if let Some(mut len) = flags.data_length_indicator
-		&& len > 0
+	if let Some(data_length) = flags.data_length_indicator
+		&& data_length > 0
 	{
-		write_frame_header(writer, name, (value.len() + 1) as u32, flags, write_options)?;
+		// The method symbol
+		let mut len = value.len() as u32 + 1;
+
+		if flags.grouping_identity.is_some() {
+			len += 1;
+		}
+
+		// ID3v2.3 doesn't have a data length indicator
 		if !write_options.use_id3v23 {
-			len = len.synch()?;
+			len += 4;
 		}
 
-		writer.write_u32::<BigEndian>(len)?;
+		write_frame_header(writer, name, len, flags, write_options)?;
+
 		writer.write_u8(method_symbol)?;
+		if let Some(group) = flags.grouping_identity {
+			writer.write_u8(group)?;
+		}
+
+		if !write_options.use_id3v23 {
+			writer.write_u32::<BigEndian>(data_length.synch()?)?;
+		}
+
 		writer.write_all(value)?;
 
 		return Ok(());
-- 
2.43.0


From af7903fbcb36fc4c0e79f0e26d2749c217726d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:57 +0000
Subject: [PATCH 46/58] fix: the RIFF/AIFF stream size shrank when a longer
 ID3v2 tag was written over the last chunk

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 3a813d5..ec10dfd 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -102,7 +102,7 @@ where
 					updated_stream_len -= remainder;
 					file.truncate(existing_id3_tag.end - remainder)?;
 				} else {
-					updated_stream_len -= tag_chunk_size - existing_tag_len;
+					updated_stream_len += tag_chunk_size - existing_tag_len;
 				}
 			}
 
-- 
2.43.0


From 6286dcdefa51a8126edec07ab7206aa3da6ffb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:57 +0000
Subject: [PATCH 47/58] fix: JUNK chunks after an ID3v2 tag covered 8 bytes of
 what follows

---
 lofty/src/id3/v2/write/chunk_file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index ec10dfd..633acf8 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -140,7 +140,8 @@ where
 				write_id3v2_chunk::<_, B>(tag, write_options, &mut file)?;
 
 				file.write_all(&JUNK_CHUNK_NAME)?;
-				file.write_u32::<B>(remainder as u32)?;
+				// The header isn't included in the size
+				file.write_u32::<B>((remainder as u32) - IFF_CHUNK_HEADER_SIZE)?;
 				return Ok(());
 			}
 		}
-- 
2.43.0


From 44c3fba817c27491244233ee521bcce841c0f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:30 +0000
Subject: [PATCH 48/58] fix: the padding of an existing RIFF INFO list was left
 behind

---
 lofty/src/iff/wav/tag/write.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lofty/src/iff/wav/tag/write.rs b/lofty/src/iff/wav/tag/write.rs
index 6bbdb00..0b86f6c 100644
--- a/lofty/src/iff/wav/tag/write.rs
+++ b/lofty/src/iff/wav/tag/write.rs
@@ -13,6 +13,7 @@ use crate::util::io::FileLike;
 
 use std::borrow::Cow;
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::ops::Range;
 
 use byteorder::{LittleEndian, WriteBytesExt};
 
@@ -47,7 +48,7 @@ where
 
 	file_bytes.seek(SeekFrom::Start(u64::from(FIRST_CHUNK_LEN)))?;
 
-	let Some(original_info_list_size) = find_info_list(
+	let Some(original_info_list) = find_info_list(
 		&mut file_bytes,
 		u64::from(original_stream_length - 4),
 		write_options.parse_options.parsing_mode,
@@ -82,11 +83,9 @@ where
 
 	// Replace the existing tag
 
-	let info_list_start = file_bytes.seek(SeekFrom::Current(-12))? as usize;
-
-	// `original_info_list_size` doesn't include the b"LIST\0\0\0\0" chunk header
-	let info_list_end =
-		info_list_start + (IFF_CHUNK_HEADER_SIZE + original_info_list_size) as usize;
+	// The chunks were read from after the first one
+	let info_list_start = original_info_list.start as usize + FIRST_CHUNK_LEN as usize;
+	let info_list_end = original_info_list.end as usize + FIRST_CHUNK_LEN as usize;
 	let original_info_list = info_list_start..info_list_end;
 
 	let new_stream_length = riff_info_bytes.len() as u64
@@ -114,7 +113,7 @@ fn find_info_list<R>(
 	data: &mut R,
 	file_size: u64,
 	parse_mode: ParsingMode,
-) -> Result<Option<u32>, WavParseError>
+) -> Result<Option<Range<u64>>, WavParseError>
 where
 	R: Read + Seek,
 {
@@ -137,7 +136,13 @@ where
 				chunk.size()
 			);
 
-			info = Some(chunk.size());
+			let chunk_start = chunk.start();
+
+			// Can't trust the written chunk size, the list may be followed by a padding byte,
+			// see Chunks::skip().
+			chunks.skip()?;
+
+			info = Some(chunk_start..chunks.stream_position());
 			break;
 		}
 	}
-- 
2.43.0


From c8cec04e252d987b2e6ecc8749d31634a6650637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:35 +0000
Subject: [PATCH 49/58] fix: the footer of an ID3v2 tag was not skipped when
 guessing the file type

---
 lofty/src/file/file_type.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 2f0f304..fb03c98 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -289,10 +289,15 @@ impl FileType {
 			None if buf.len() >= 10 && &buf[..3] == b"ID3" => {
 				// This is infallible, but preferable to an unwrap
 				if let Ok(arr) = buf[6..10].try_into() {
+					let mut size = u32::from_be_bytes(arr).unsynch();
+
+					// The footer (10 bytes) is not included in the size of the tag
+					if matches!(buf[3], 3 | 4) && buf[5] & 0x10 == 0x10 {
+						size += 10;
+					}
+
 					// Set the ID3v2 size
-					ret = Some(FileTypeGuessResult::MaybePrecededById3(
-						u32::from_be_bytes(arr).unsynch(),
-					));
+					ret = Some(FileTypeGuessResult::MaybePrecededById3(size));
 				}
 			},
 			None => ret = Some(FileTypeGuessResult::MaybePrecededByJunk),
-- 
2.43.0


From 2bd5363b2a088f64b4c9ee3edfb6b4c5b15dcaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:03 +0000
Subject: [PATCH 50/58] fix: detect Lyrics3v2 tags, and count the whole tag

---
 lofty/src/id3/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 3cafa20..90d969b 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -88,17 +88,18 @@ where
 	let mut lyrics3v2 = [0; 15];
 	data.read_exact(&mut lyrics3v2)?;
 
-	if &lyrics3v2[7..] == b"LYRICS200" {
+	if &lyrics3v2[6..] == b"LYRICS200" {
 		log::warn!("Encountered a Lyrics3v2 tag. This is an outdated format, and will be skipped.");
 
 		header = Some(());
 
-		let lyrics_size = utf8_decode_str(&lyrics3v2[..7])?;
+		let lyrics_size = utf8_decode_str(&lyrics3v2[..6])?;
 		let lyrics_size = lyrics_size.parse::<u32>()?;
 
-		size += lyrics_size;
+		// The stored size doesn't include the size itself, nor the end marker
+		size += lyrics_size + 15;
 
-		data.seek(SeekFrom::Current(i64::from(lyrics_size + 15).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size).neg()))?;
 	}
 
 	Ok(ID3FindResults(header, size))
-- 
2.43.0


From 6cf039763b093cd87ff873793f51799d94f19486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:03 +0000
Subject: [PATCH 51/58] fix: don't count the ID3v2 tag of an MPC file as audio
 when tags aren't read

---
 lofty/src/musepack/read.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lofty/src/musepack/read.rs b/lofty/src/musepack/read.rs
index 2faac94..816e960 100644
--- a/lofty/src/musepack/read.rs
+++ b/lofty/src/musepack/read.rs
@@ -34,7 +34,7 @@ where
 
 	// ID3v2 tags are unsupported in MPC files, but still possible
 	#[allow(unused_variables)]
-	if let ID3FindResults(Some(header), Some(content)) =
+	if let ID3FindResults(Some(header), content) =
 		find_id3v2(reader, find_id3v2_config).map_err(TagParseError::from)?
 	{
 		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.full_tag_size()))
@@ -44,10 +44,12 @@ where
 
 		stream_length = new_stream_length;
 
-		let reader = &mut &*content;
+		if let Some(content) = content {
+			let reader = &mut &*content;
 
-		let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
-		file.id3v2_tag = Some(id3v2);
+			let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
+			file.id3v2_tag = Some(id3v2);
+		}
 	}
 
 	// Save the current position, so we can go back and read the properties after the tags
-- 
2.43.0


From 486869aef3ff0c4a0ef47865ac93d11221d6b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:03 +0000
Subject: [PATCH 52/58] fix: end up at the same position whether or not an APE
 tag is read

---
 lofty/src/ape/tag/header.rs | 11 ++++++++++-
 lofty/src/ape/tag/read.rs   |  3 +++
 lofty/src/mpeg/read.rs      |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index 7ecd9cf..6f117f0 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -9,8 +9,11 @@ use byteorder::{LittleEndian, ReadBytesExt};
 
 #[derive(Copy, Clone)]
 pub(crate) struct ApeHeader {
+	/// The size of the whole tag
 	pub(crate) size: u32,
 	pub(crate) item_count: u32,
+	/// The size of the tag, excluding the header
+	pub(crate) content_size: u32,
 }
 
 pub(crate) fn read_ape_header<R>(data: &mut R, footer: bool) -> Result<ApeHeader, ApeTagParseError>
@@ -39,6 +42,8 @@ where
 		data.seek(SeekFrom::Current(12))?;
 	}
 
+	let content_size = size;
+
 	// Version 1 doesn't include a header
 	if version == 2000 {
 		size = size.saturating_add(32);
@@ -48,5 +53,9 @@ where
 		return Err(SizeMismatchError.into());
 	}
 
-	Ok(ApeHeader { size, item_count })
+	Ok(ApeHeader {
+		size,
+		item_count,
+		content_size,
+	})
 }
diff --git a/lofty/src/ape/tag/read.rs b/lofty/src/ape/tag/read.rs
index 813ebab..91414f4 100644
--- a/lofty/src/ape/tag/read.rs
+++ b/lofty/src/ape/tag/read.rs
@@ -123,6 +123,9 @@ pub(crate) fn read_ape_tag<R: Read + Seek>(
 		let ape_header = header::read_ape_header(reader, footer)?;
 		if parse_options.read_tags {
 			ape_tag = Some(read_ape_tag_with_header(reader, ape_header, parse_options)?);
+		} else {
+			// Leave the reader at the end of the tag either way
+			reader.seek(SeekFrom::Current(i64::from(ape_header.content_size)))?;
 		}
 
 		return Ok((ape_tag, Some(ape_header)));
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index e4d7973..af20f9e 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -90,7 +90,7 @@ where
 							.map_err(TagParseError::from)?,
 						);
 					} else {
-						reader.seek(SeekFrom::Current(i64::from(ape_header.size)))?;
+						reader.seek(SeekFrom::Current(i64::from(ape_header.content_size)))?;
 					}
 
 					continue;
-- 
2.43.0


From e1d34d75c4808d2300544725790382962b606e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:03 +0000
Subject: [PATCH 53/58] fix: continue after an APE tag at the beginning of an
 APE file

---
 lofty/src/ape/read.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index dfb861e..a5eea8c 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -96,7 +96,11 @@ where
 					let ape = read_ape_tag_with_header(data, ape_header, parse_options)
 						.map_err(TagParseError::from)?;
 					ape_tag = Some(ape);
+				} else {
+					data.seek(SeekFrom::Current(i64::from(ape_header.content_size)))?;
 				}
+
+				data.read_exact(&mut header)?;
 			},
 			_ => {
 				return Err(ApeParseError::message(
-- 
2.43.0


From 3bcccda94cc2e825b812c336b081007473a6e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:04 +0000
Subject: [PATCH 54/58] fix: return an error for APE tags larger than the
 stream

---
 lofty/src/ape/read.rs     | 6 +++++-
 lofty/src/wavpack/read.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index a5eea8c..4e65b31 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -147,7 +147,11 @@ where
 	if let (tag, Some(header)) =
 		read_ape_tag(data, true, parse_options).map_err(TagParseError::from)?
 	{
-		stream_len -= u64::from(header.size);
+		let Some(new_stream_length) = stream_len.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_len = new_stream_length;
 		ape_tag = tag;
 	}
 
diff --git a/lofty/src/wavpack/read.rs b/lofty/src/wavpack/read.rs
index 72aa464..fae6234 100644
--- a/lofty/src/wavpack/read.rs
+++ b/lofty/src/wavpack/read.rs
@@ -52,7 +52,11 @@ where
 	if let (tag, Some(header)) = crate::ape::tag::read::read_ape_tag(reader, true, parse_options)
 		.map_err(TagParseError::from)?
 	{
-		stream_length -= u64::from(header.size);
+		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_length = new_stream_length;
 		ape_tag = tag;
 	}
 
-- 
2.43.0


From 6989d4ca40eb9f0a7c2b20cbc60f3ef10d96fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:49 +0000
Subject: [PATCH 55/58] fix: an APE tag at the beginning of the file was never
 found when writing

---
 lofty/src/ape/tag/write.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index 1e339bc..7e46fb8 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -67,9 +67,6 @@ where
 	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists
 	find_id3v2(file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
 
-	let mut ape_preamble = [0; 8];
-	file.read_exact(&mut ape_preamble)?;
-
 	// We have to check the APE tag for any read only items first
 	let mut read_only = None;
 
@@ -81,8 +78,10 @@ where
 	match read::read_ape_tag(file, false, write_options.parse_options)
 		.map_err(TagParseError::from)?
 	{
-		(Some(mut existing_tag), Some(header)) => {
-			if write_options.respect_read_only {
+		(existing_tag, Some(header)) => {
+			if let Some(mut existing_tag) = existing_tag
+				&& write_options.respect_read_only
+			{
 				// Only keep metadata around that's marked read only
 				existing_tag.items.retain(|i| i.read_only);
 
@@ -113,10 +112,12 @@ where
 
 	// Also check this tag for any read only items
 	let start = file.stream_position()? as usize + 32;
-	if let (Some(mut existing_tag), Some(header)) =
+	if let (existing_tag, Some(header)) =
 		read::read_ape_tag(file, true, write_options.parse_options).map_err(TagParseError::from)?
 	{
-		if write_options.respect_read_only {
+		if let Some(mut existing_tag) = existing_tag
+			&& write_options.respect_read_only
+		{
 			existing_tag.items.retain(|i| i.read_only);
 
 			if !existing_tag.items.is_empty() {
@@ -139,6 +140,16 @@ where
 		footer_tag_location = Some(start..start + size as usize);
 	}
 
+	// The tag at the beginning can't reach into what follows the audio
+	if let Some(header_tag) = &header_tag_location {
+		let end_of_audio = footer_tag_location
+			.as_ref()
+			.map_or(ape_position as usize, |footer_tag| footer_tag.start);
+		if header_tag.end > end_of_audio {
+			return Err(SizeMismatchError.into());
+		}
+	}
+
 	Ok(ApeTags {
 		read_only,
 		header: header_tag_location,
-- 
2.43.0


From b33fb62246c20f804c341f61c799d3bb2058f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:06 +0000
Subject: [PATCH 56/58] fix: APEv2 tags without a header were taken to start 32
 bytes early

---
 lofty/src/ape/tag/header.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index 6f117f0..f23712a 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -32,20 +32,21 @@ where
 
 	let item_count = data.read_u32::<LittleEndian>()?;
 
+	// Bit 31 set: tag contains a header
+	let has_header = data.read_u32::<LittleEndian>()? & (1 << 31) != 0;
+
 	if footer {
 		// No point in reading the rest of the footer, just seek back to the end of the header
-		data.seek(SeekFrom::Current(i64::from(size - 12).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size).neg() + 8))?;
 	} else {
-		// There are 12 bytes remaining in the header
-		// Flags (4)
-		// Reserved (8)
-		data.seek(SeekFrom::Current(12))?;
+		// There are 8 reserved bytes remaining in the header
+		data.seek(SeekFrom::Current(8))?;
 	}
 
 	let content_size = size;
 
-	// Version 1 doesn't include a header
-	if version == 2000 {
+	// Version 1 doesn't include a header, and it's optional in version 2
+	if version == 2000 && (has_header || !footer) {
 		size = size.saturating_add(32);
 	}
 
-- 
2.43.0


From 6ae4d4502f8a3b0c83b75a64ae86c18857bb0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:34 +0000
Subject: [PATCH 57/58] fix: the file length of an untagged APE file was 24
 bytes short

---
 lofty/src/ape/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index 4e65b31..a38fe3e 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -153,6 +153,9 @@ where
 
 		stream_len = new_stream_length;
 		ape_tag = tag;
+	} else {
+		// Correct the position (APE header - Preamble)
+		data.seek(SeekFrom::Current(24))?;
 	}
 
 	let file_length = data.stream_position()?;
-- 
2.43.0


From e56d6a3cc4932810c5058b76f7ad8b6ec380ffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:18 +0000
Subject: [PATCH 58/58] fix: an empty ID3v1 tag was written to files without
 one

---
 lofty/src/id3/v1/write.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/v1/write.rs b/lofty/src/id3/v1/write.rs
index 21bdd3c..d29331f 100644
--- a/lofty/src/id3/v1/write.rs
+++ b/lofty/src/id3/v1/write.rs
@@ -28,11 +28,13 @@ where
 		find_id3v1(&mut file, false, write_options.parse_options.parsing_mode)
 			.map_err(TagParseError::from)?;
 
-	if tag.is_empty() && header.is_some() {
-		// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
-		// shrink it down.
-		let new_length = file.len()?.saturating_sub(128);
-		file.truncate(new_length)?;
+	if tag.is_empty() {
+		if header.is_some() {
+			// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
+			// shrink it down.
+			let new_length = file.len()?.saturating_sub(128);
+			file.truncate(new_length)?;
+		}
 
 		return Ok(());
 	}
-- 
2.43.0

