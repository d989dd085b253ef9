From bc9398b361bcc8462e142bc33bdaf0db37be2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 01/34] fix: a TDMS timestamp occupies 16 bytes in raw data

---
 src/io/data_types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index cf11837..d84a6d9 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -79,7 +79,7 @@ impl DataType {
             DataType::ExtendedFloatWithUnit => 16,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
-            DataType::Timestamp => 8,
+            DataType::Timestamp => 16,
             DataType::FixedPoint => 8,
             DataType::ComplexSingleFloat => 8,
             DataType::ComplexDoubleFloat => 16,
-- 
2.43.0


From ed48200dae0ed6b8666b2a49b7a5c85b74993a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 02/34] fix: an extended float occupies 10 bytes in raw data,
 not the 16 of its u128

---
 src/io/data_types/extended.rs | 3 +++
 src/io/data_types/mod.rs      | 4 ++--
 src/raw_data/write.rs         | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/data_types/extended.rs b/src/io/data_types/extended.rs
index 33d11ef..f03f467 100644
--- a/src/io/data_types/extended.rs
+++ b/src/io/data_types/extended.rs
@@ -33,6 +33,9 @@ impl TdmsStorageType for ExtendedRaw {
 
     const NATURAL_TYPE: DataType = DataType::ExtendedFloat;
 
+    // The in-memory representation is wider than the value in the file.
+    const SIZE_BYTES: usize = EXT_SIZE;
+
     fn read_le(reader: &mut impl Read) -> StorageResult<Self> {
         let mut buffer = [0u8; U128_SIZE];
         reader.read_exact(&mut buffer[0..EXT_SIZE])?;
diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index d84a6d9..791c610 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -73,10 +73,10 @@ impl DataType {
             DataType::I64 | DataType::U64 => 8,
             DataType::SingleFloat => 4,
             DataType::DoubleFloat => 8,
-            DataType::ExtendedFloat => 16,
+            DataType::ExtendedFloat => 10,
             DataType::SingleFloatWithUnit => 4,
             DataType::DoubleFloatWithUnit => 8,
-            DataType::ExtendedFloatWithUnit => 16,
+            DataType::ExtendedFloatWithUnit => 10,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
             DataType::Timestamp => 16,
diff --git a/src/raw_data/write.rs b/src/raw_data/write.rs
index 4650416..c6e5a54 100644
--- a/src/raw_data/write.rs
+++ b/src/raw_data/write.rs
@@ -33,7 +33,7 @@ impl<D: TdmsStorageType> WriteBlock for &[D] {
     }
 
     fn size(&self) -> usize {
-        std::mem::size_of_val(*self)
+        self.len() * D::SIZE_BYTES
     }
 }
 
-- 
2.43.0


From fd9dfa01223e911864132073ac4f97b67069c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 03/34] fix: use the TDMS type codes 0x1A and 0x1B for double
 and extended floats with unit

---
 src/io/data_types/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index 791c610..14c7c4d 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -51,8 +51,8 @@ pub enum DataType {
     DoubleFloat = 10,
     ExtendedFloat = 11,
     SingleFloatWithUnit = 0x19,
-    DoubleFloatWithUnit = 12,
-    ExtendedFloatWithUnit = 13,
+    DoubleFloatWithUnit = 0x1A,
+    ExtendedFloatWithUnit = 0x1B,
     TdmsString = 0x20,
     Boolean = 0x21,
     Timestamp = 0x44,
-- 
2.43.0


From 3b427f491d60d6db40f04e06d40c71b7a539f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 04/34] fix: do not parse raw data as meta data in segments
 without meta data

---
 src/io/reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/reader.rs b/src/io/reader.rs
index 7d200b7..8c0609e 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -46,14 +46,18 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
         let next_segment_offset = self.read_value()?;
         let raw_data_offset = self.read_value()?;
 
-        //todo handle no meta data mode.
-        let meta_data = self.read_meta()?;
+        // Segments which repeat the previous layout carry no meta data at all.
+        let meta_data = if toc.contains_meta_data {
+            Some(self.read_meta()?)
+        } else {
+            None
+        };
 
         Ok(Segment {
             toc,
             next_segment_offset,
             raw_data_offset,
-            meta_data: Some(meta_data),
+            meta_data,
         })
     }
 }
-- 
2.43.0


From 0ed69f35d8ff108e21de901f27de06652c3801f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 05/34] fix: only omit meta data when the channels and formats
 all match the previous segment

---
 src/file/file_writer.rs | 8 +++++++-
 src/index/writing.rs    | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 05d9b4b..4126377 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -2,7 +2,7 @@ use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
 use crate::io::data_types::TdmsStorageType;
 use crate::io::writer::TdmsWriter;
-use crate::meta_data::{MetaData, ObjectMetaData, Segment, ToC};
+use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
@@ -129,6 +129,12 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
 
         let (matches_live, channels) = index.check_write_values(channels);
 
+        // The meta data can only be left out if the formats are unchanged as well.
+        let matches_live = matches_live
+            && channels
+                .iter()
+                .all(|(_, raw_index)| *raw_index == RawDataIndex::MatchPrevious);
+
         let meta = if matches_live {
             None
         } else {
diff --git a/src/index/writing.rs b/src/index/writing.rs
index 4ad8ed3..914d17f 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -14,7 +14,10 @@ impl Index {
         &self,
         objects: Vec<(&'b str, DataFormat)>,
     ) -> (bool, Vec<(&'b str, RawDataIndex)>) {
-        let live_matches = if !self.active_objects.is_empty() {
+        // Every active object must be written and nothing but the active objects.
+        let live_matches = if !self.active_objects.is_empty()
+            && self.active_objects.len() == objects.len()
+        {
             self.active_objects
                 .iter()
                 .zip(objects.iter())
-- 
2.43.0


From 115bf9ee2590d9d368ed21ba1784c9e0cda4e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 06/34] fix: do not flag raw data in a segment when no values
 are written

---
 src/io/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/writer.rs b/src/io/writer.rs
index 873e740..d33c79e 100644
--- a/src/io/writer.rs
+++ b/src/io/writer.rs
@@ -41,12 +41,12 @@ pub trait TdmsWriter<W: Write>: Sized {
         };
 
         let data_bytes = if let Some(data) = &data {
-            toc.contains_raw_data = true;
             data.size()
         } else {
-            toc.contains_raw_data = false;
             0
         };
+        // An empty data block is not a data block.
+        toc.contains_raw_data = data_bytes > 0;
         let next_segment_offset = (meta_data_bytes + data_bytes) as u64;
         let raw_data_offset = meta_data_bytes as u64;
 
-- 
2.43.0


From 4a8a321553a223bda473ff7c72fef0f3bdd4fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 07/34] fix: parse object paths by their quoting so names can
 contain slashes and quotes

---
 src/paths.rs | 82 ++++++++++++++++++++++------------------------------
 1 file changed, 35 insertions(+), 47 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index f22f764..a053b35 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -23,38 +23,44 @@ fn escape_name(name: &str) -> String {
 /// - Ok(Some(group), None): The path is to a group.
 /// - Ok(Some(group), Some(channel)): The path is to a channel.
 fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), TdmsError> {
-    //Simple filter.
-    if !path.starts_with('/') {
-        return Err(TdmsError::InvalidObjectPath(path.to_string()));
-    }
+    let invalid = || TdmsError::InvalidObjectPath(path.to_string());
 
     //Early escape for root.
-    if path.len() == 1 {
+    if path == "/" {
         return Ok((None, None));
     }
 
-    let mut parts = path
-        .split('/')
-        .skip(1)
-        .map(|p| parse_name(p).ok_or_else(|| TdmsError::InvalidObjectPath(path.to_string())));
-    let group = invert(parts.next())?;
-    let channel = invert(parts.next())?;
+    let (group, remaining) = parse_name(path).ok_or_else(invalid)?;
+    if remaining.is_empty() {
+        return Ok((Some(group), None));
+    }
 
-    if parts.next().is_some() {
+    let (channel, remaining) = parse_name(remaining).ok_or_else(invalid)?;
+    if !remaining.is_empty() {
         // There is more than one group or channel in the path.
-        return Err(TdmsError::InvalidObjectPath(path.to_string()));
+        return Err(invalid());
     }
 
-    Ok((group, channel))
+    Ok((Some(group), Some(channel)))
 }
 
-//expects name with quotes and removes the quotes.
-fn parse_name(name: &str) -> Option<&str> {
-    if !name.starts_with('\'') || !name.ends_with('\'') {
-        return None;
+/// Expects a path starting with `/'name'`. Returns the name without its quotes and
+/// whatever follows it in the path.
+///
+/// The name can contain any character, but a quote which is part of the name is doubled.
+fn parse_name(path: &str) -> Option<(&str, &str)> {
+    let quoted = path.strip_prefix("/'")?;
+
+    let mut search_from = 0;
+    loop {
+        let end = search_from + quoted[search_from..].find('\'')?;
+        let remaining = &quoted[end + 1..];
+        if remaining.starts_with('\'') {
+            search_from = end + 2;
+        } else {
+            return Some((&quoted[..end], remaining));
+        }
     }
-
-    Some(&name[1..name.len() - 1])
 }
 
 /// Get the group name for the path, if one exists.
@@ -62,10 +68,6 @@ pub fn path_group_name(path: ObjectPath<'_>) -> Option<&str> {
     parse_path(path).ok()?.0
 }
 
-fn invert<T, E>(x: Option<Result<T, E>>) -> Result<Option<T>, E> {
-    x.map_or(Ok(None), |v| v.map(Some))
-}
-
 /// A path to a location in a tdms file.
 ///
 /// These will format the path correctly and turn it into a owned string
@@ -116,15 +118,9 @@ impl PropertyPath {
         self.0.as_ref()
     }
 
-    /// Get the levels of the path structure
-    fn path_levels(&self) -> impl Iterator<Item = &str> {
-        self.0.split('/').skip(1).filter_map(|value| {
-            if value.starts_with("'") && value.ends_with("'") {
-                Some(&value[1..value.len() - 1])
-            } else {
-                None
-            }
-        })
+    /// Get the group and channel names in the path.
+    fn path_levels(&self) -> (Option<&str>, Option<&str>) {
+        parse_path(&self.0).unwrap_or_default()
     }
 
     /// Get the group name from the path, if there is one.
@@ -143,7 +139,7 @@ impl PropertyPath {
     /// assert_eq!(channel.group_name(), Some("group"));
     /// ```
     pub fn group_name(&self) -> Option<&str> {
-        self.path_levels().next()
+        self.path_levels().0
     }
 
     /// Get the channel name from the path, if there is one.
@@ -160,15 +156,11 @@ impl PropertyPath {
     /// assert_eq!(channel.channel_name(), Some("channel"));
     /// ```
     pub fn channel_name(&self) -> Option<&str> {
-        self.path_levels().nth(1)
-    }
-
-    fn path_depth(&self) -> usize {
-        self.0.chars().filter(|c| *c == '/').count()
+        self.path_levels().1
     }
 
     fn is_channel(&self) -> bool {
-        self.path_depth() == 2
+        self.channel_name().is_some()
     }
 }
 
@@ -188,13 +180,9 @@ impl<'a> TryFrom<ObjectPath<'a>> for PropertyPath {
     type Error = TdmsError;
 
     fn try_from(value: ObjectPath) -> Result<Self, Self::Error> {
-        let parsed = parse_path(value)?;
-        match parsed {
-            (None, None) => Ok(Self::file()),
-            (Some(group), None) => Ok(Self::group(group)),
-            (Some(group), Some(channel)) => Ok(Self::channel(group, channel)),
-            _ => unreachable!(),
-        }
+        // The names in a valid path are escaped already so it is kept as it is.
+        parse_path(value)?;
+        Ok(Self(value.to_string()))
     }
 }
 
-- 
2.43.0


From 40898cfd06dca0aea11c6f536713e20a3f94aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 08/34] fix: only list the channels of the requested group

---
 src/file/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 7f37a88..40e7336 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -148,7 +148,11 @@ impl<F: Read + Seek> TdmsFile<F> {
         group: &'b PropertyPath,
     ) -> impl Iterator<Item = ChannelPath> + 'c {
         let paths = self.index.paths_starting_with(group.path());
-        paths.filter_map(|path| ChannelPath::try_from(path).ok())
+        // The start of the path alone also matches a group whose name begins with `group'`.
+        let group_name = group.group_name();
+        paths
+            .filter_map(|path| ChannelPath::try_from(path).ok())
+            .filter(move |path| group_name.is_none_or(|name| path.group_name() == name))
     }
 }
 
-- 
2.43.0


From effeed40e88983a1c1634316d3eb0cd240ed57b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 09/34] fix: convert between timestamps and chrono times
 without floating point

---
 src/properties.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index e67d479..654e4b9 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -269,16 +269,38 @@ impl<'a> TryFrom<&'a PropertyValue> for &'a str {
 mod chrono_support {
     use super::*;
     use chrono::{DateTime, Utc};
+    use labview_interop::types::timestamp::{LVTimeError, UNIX_EPOCH_IN_LV_SECONDS_I64};
+
+    const NANOS_PER_SECOND: u32 = 1_000_000_000;
+
+    /// Convert with integers only as a floating point number can't represent all the
+    /// timestamps exactly and can round the fraction up to a full second.
+    fn to_chrono(value: LVTime) -> Result<DateTime<Utc>, LVTimeError> {
+        let (seconds, fraction) = value.to_parts();
+        let nanoseconds = (fraction as u128 * NANOS_PER_SECOND as u128) >> 64;
+        seconds
+            .checked_sub(UNIX_EPOCH_IN_LV_SECONDS_I64)
+            .and_then(|seconds| DateTime::from_timestamp(seconds, nanoseconds as u32))
+            .ok_or(LVTimeError::ChronoOutOfRange)
+    }
+
+    /// The opposite of [`to_chrono`], the fraction always counts up from the full second.
+    fn from_chrono(value: DateTime<Utc>) -> LVTime {
+        // A leap second in chrono is represented by more than a second of nanoseconds.
+        let nanoseconds = value.timestamp_subsec_nanos();
+        let seconds = value.timestamp() + (nanoseconds / NANOS_PER_SECOND) as i64;
+        let nanoseconds = (nanoseconds % NANOS_PER_SECOND) as u128;
+        // Round up so that the same nanosecond comes back.
+        let fraction = (nanoseconds << 64).div_ceil(NANOS_PER_SECOND as u128);
+        LVTime::from_parts(seconds + UNIX_EPOCH_IN_LV_SECONDS_I64, fraction as u64)
+    }
 
     impl TryFrom<PropertyValue> for DateTime<Utc> {
         type Error = TdmsError;
 
         fn try_from(value: PropertyValue) -> Result<Self, Self::Error> {
             let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            to_chrono(lvtime).map_err(TdmsError::ChronoDateTimeConversionFailed)
         }
     }
 
@@ -287,16 +309,13 @@ mod chrono_support {
 
         fn try_from(value: &'a PropertyValue) -> Result<Self, Self::Error> {
             let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            to_chrono(lvtime).map_err(TdmsError::ChronoDateTimeConversionFailed)
         }
     }
 
     impl From<DateTime<Utc>> for PropertyValue {
         fn from(value: DateTime<Utc>) -> Self {
-            PropertyValue::Timestamp(value.into())
+            PropertyValue::Timestamp(from_chrono(value))
         }
     }
 
-- 
2.43.0


From 923accc4ca887a94edcba92d55ac653f560e602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 10/34] fix: never expose uninitialised memory when reading a
 string

---
 src/io/data_types/strings.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/io/data_types/strings.rs b/src/io/data_types/strings.rs
index 6670d7e..511de0b 100644
--- a/src/io/data_types/strings.rs
+++ b/src/io/data_types/strings.rs
@@ -10,16 +10,11 @@ fn read_string_with_length(reader: &mut impl Read, length: u32) -> Result<String
     buffer
         .try_reserve(length as usize)
         .map_err(|_| TdmsError::StringAllocationFailed)?;
-    // SAFETY: This is safe because:
-    // 1. We just allocated capacity
-    // 2. The memory will be immediately filled by read_exact
-    // 3. No drop checks are needed since we're dealing with u8 (no destructors)
-    //
-    // If we can get a fallible allocation with fill in the future, we should use that.
-    unsafe {
-        buffer.set_len(length as usize);
+    // The capacity is only a request, the buffer only ever holds what was actually read.
+    reader.take(length as u64).read_to_end(&mut buffer)?;
+    if buffer.len() < length as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
     }
-    reader.read_exact(&mut buffer[..])?;
     let value = String::from_utf8(buffer)?;
     Ok(value)
 }
-- 
2.43.0


From 094226a0b574cfc78ee5586ea3daa671cbb1034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 11/34] fix: recognise DAQmx channels in little endian files

---
 src/meta_data.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index c6138c4..756b7db 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -282,8 +282,13 @@ impl TdmsMetaData for RawDataIndex {
             0xFFFF_FFFF => RawDataIndex::None,
             0x69120000..=0x6912FFFF => return Err(TdmsError::DaqmxChannelsNotSupported), // daqmx 1
             0x69130000..=0x6913FFFF => return Err(TdmsError::DaqmxChannelsNotSupported), //daqmx 2
+            // The markers as they are found in little endian files.
+            0x1269 | 0x126A | 0x1369 => return Err(TdmsError::DaqmxChannelsNotSupported),
             _ => {
                 let data_type: DataType = reader.read_meta()?;
+                if data_type == DataType::DAQmxRawData {
+                    return Err(TdmsError::DaqmxChannelsNotSupported);
+                }
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
                 let meta = RawDataMeta {
-- 
2.43.0


From 2052aea5d03f98ca577d6fc86ebf772326b0ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 12/34] fix: refuse to write string channels, the raw data
 would be invalid

---
 src/file/file_writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 4126377..d97c76d 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -1,6 +1,6 @@
 use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
-use crate::io::data_types::TdmsStorageType;
+use crate::io::data_types::{DataType, TdmsStorageType};
 use crate::io::writer::TdmsWriter;
 use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
@@ -114,6 +114,11 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         values: &'b [D],
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
+        // The raw data of strings has a different layout which isn't supported.
+        if D::NATURAL_TYPE == DataType::TdmsString {
+            return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
+        }
+
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
-- 
2.43.0


From d8360f632f30bc7ef57770a78bbbce2638be9ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 13/34] fix: account for the size of string channels next to
 the channels being read

---
 src/meta_data.rs        |  7 ++++++-
 src/raw_data/mod.rs     | 21 ++++++++++++++++++---
 src/raw_data/records.rs | 16 +++++++++++++---
 3 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index 756b7db..379de64 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -291,10 +291,15 @@ impl TdmsMetaData for RawDataIndex {
                 }
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
+                // Only types with a variable size are followed by their total size.
+                let total_size_bytes = match data_type {
+                    DataType::TdmsString => Some(reader.read_value()?),
+                    _ => None,
+                };
                 let meta = RawDataMeta {
                     data_type,
                     number_of_values,
-                    total_size_bytes: None,
+                    total_size_bytes,
                 };
                 RawDataIndex::RawData(meta)
             }
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index a437311..73ae503 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -186,6 +186,21 @@ impl DataBlock {
         Ok(chunk_count)
     }
 
+    /// Plan the read of the channels specified into the output slices.
+    fn record_plan<'o, 'b: 'o, D: TdmsStorageType>(
+        &self,
+        channels_to_read: &'b mut [(usize, &'b mut [D])],
+    ) -> Result<RecordPlan<'o, D>, TdmsError> {
+        // There is no fixed size for a row if it contains values of a variable size.
+        if self.layout == DataLayout::Interleaved {
+            let variable_size = |channel: &&RawDataMeta| channel.total_size_bytes.is_some();
+            if let Some(channel) = self.channels.iter().find(variable_size) {
+                return Err(TdmsError::UnsupportedType(channel.data_type));
+            }
+        }
+        RecordPlan::build_record_plan(&self.channels, channels_to_read)
+    }
+
     /// Read the data from the block for the channels specified into the output slices.
     ///
     /// We assume all channels in the block have the same length and so return the maximum
@@ -199,7 +214,7 @@ impl DataBlock {
         reader: &mut (impl Read + Seek),
         channels_to_read: &'b mut [(usize, &'b mut [D])],
     ) -> Result<usize, TdmsError> {
-        let record_plan = RecordPlan::build_record_plan(&self.channels, channels_to_read)?;
+        let record_plan = self.record_plan(channels_to_read)?;
 
         match (self.layout, self.byte_order) {
             // No multichannel implementation for contiguous data yet.
@@ -275,7 +290,7 @@ impl DataBlock {
         channels_to_read: &'b mut [(usize, &'b mut [D])],
         start_sample: u64,
     ) -> Result<usize, TdmsError> {
-        let record_plan = RecordPlan::build_record_plan(&self.channels, channels_to_read)?;
+        let record_plan = self.record_plan(channels_to_read)?;
 
         match (self.layout, self.byte_order) {
             (DataLayout::Contigious, Endianess::Big) => MultiChannelContiguousReader::<_, _>::new(
@@ -346,7 +361,7 @@ impl DataBlock {
             )
             .collect();
 
-        let mut record_plan = RecordPlan::build_record_plan(&self.channels, &mut channel_refs)?;
+        let mut record_plan = self.record_plan(&mut channel_refs)?;
 
         match (self.layout, self.byte_order) {
             (DataLayout::Contigious, Endianess::Big) => MultiChannelContiguousReader::<_, _>::new(
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 913cd21..9368bf2 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -129,9 +129,16 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
     fn build_base_record(channels: &[RawDataMeta]) -> Self {
         let mut plan = Vec::with_capacity(channels.len());
         for channel in channels {
-            plan.push(RecordEntry {
-                length: channel.number_of_values as usize,
-                plan: RecordEntryPlan::Skip(channel.data_type.size() as i64),
+            plan.push(match channel.total_size_bytes {
+                // The values have no fixed size so they can only be skipped as a whole.
+                Some(total_size) => RecordEntry {
+                    length: 1,
+                    plan: RecordEntryPlan::Skip(total_size as i64),
+                },
+                None => RecordEntry {
+                    length: channel.number_of_values as usize,
+                    plan: RecordEntryPlan::Skip(channel.data_type.size() as i64),
+                },
             })
         }
         Self(plan)
@@ -156,6 +163,9 @@ fn validate_types_match<T: TdmsStorageType>(
     channels: &[RawDataMeta],
 ) -> Result<(), TdmsError> {
     for (output_idx, _) in outputs.iter() {
+        if channels[*output_idx].total_size_bytes.is_some() {
+            return Err(TdmsError::UnsupportedType(channels[*output_idx].data_type));
+        }
         if !T::SUPPORTED_TYPES.contains(&channels[*output_idx].data_type) {
             return Err(TdmsError::DataTypeMismatch(
                 channels[*output_idx].data_type,
-- 
2.43.0


From 169d449d3753b6559016d963501cb677633a9453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 14/34] fix: an object without a raw data index has no data in
 the segment

---
 src/index/building.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index/building.rs b/src/index/building.rs
index 01a8101..c05eada 100644
--- a/src/index/building.rs
+++ b/src/index/building.rs
@@ -73,7 +73,11 @@ impl super::Index {
         if let Some(meta_data) = &segment.meta_data {
             for obj in meta_data.objects.iter() {
                 match obj.raw_data_index {
-                    RawDataIndex::None => self.update_meta_object(obj)?,
+                    RawDataIndex::None => {
+                        // There is no more data for the object until it is activated again.
+                        self.active_objects.retain(|active| active.path != obj.path);
+                        self.update_meta_object(obj)?
+                    }
                     _ => self.update_or_activate_data_object(obj)?,
                 }
             }
-- 
2.43.0


From 6f505f75d3aba7f6ca164b5132a51822196e71d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 15/34] fix: load segments which announce raw data but hold
 none

---
 src/index/building.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/index/building.rs b/src/index/building.rs
index c05eada..a601100 100644
--- a/src/index/building.rs
+++ b/src/index/building.rs
@@ -90,10 +90,16 @@ impl super::Index {
                 return Err(TdmsError::SegmentTocDataBlockWithoutDataChannels);
             }
 
-            let data_block =
-                DataBlock::from_segment(&segment, self.next_segment_start, active_data_channels)?;
-
-            self.insert_data_block(data_block)?;
+            // The ToC can announce a data block that turned out to be empty.
+            if segment.next_segment_offset != segment.raw_data_offset {
+                let data_block = DataBlock::from_segment(
+                    &segment,
+                    self.next_segment_start,
+                    active_data_channels,
+                )?;
+
+                self.insert_data_block(data_block)?;
+            }
         }
 
         let segment_size = segment.total_size_bytes()?;
-- 
2.43.0


From f015ba5d81a6217d78343e883d6e3a704e7c81ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 16/34] fix: load everything before a torn or unfinished last
 segment

---
 src/file/mod.rs  | 78 ++++++++++++++++++++++++++++++++++++++++--------
 src/meta_data.rs | 29 +++++++++++++++++-
 2 files changed, 94 insertions(+), 13 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 40e7336..eb7a377 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -5,11 +5,11 @@ mod file_writer;
 
 use std::{
     fs::File,
-    io::{Read, Seek, SeekFrom, Write},
+    io::{ErrorKind, Read, Seek, SeekFrom, Write},
     path::Path,
 };
 
-use crate::meta_data::Segment;
+use crate::meta_data::{LEAD_IN_BYTES, Segment};
 use crate::{ChannelPath, index::Index};
 use crate::{PropertyPath, PropertyValue, error::TdmsError};
 use crate::{
@@ -31,6 +31,7 @@ pub use file_writer::TdmsFileWriter;
 pub struct TdmsFile<F: Read + Seek> {
     index: Index,
     file: F,
+    torn_segment: Option<TornSegment>,
 }
 
 impl TdmsFile<File> {
@@ -53,25 +54,74 @@ impl TdmsFile<File> {
     }
 }
 
-fn build_index(file: &mut (impl Read + Seek)) -> Result<Index, TdmsError> {
+/// Marks the last segment of the file as shorter than its lead in says.
+///
+/// This is what an interrupted write leaves behind.
+#[derive(Debug)]
+struct TornSegment {
+    start: u64,
+    /// The lead in with the offsets corrected to what is in the file.
+    lead_in: Segment,
+}
+
+fn build_index(file: &mut (impl Read + Seek)) -> Result<(Index, Option<TornSegment>), TdmsError> {
     let mut index = Index::new();
+    let mut torn_segment = None;
 
+    let file_length = file.seek(SeekFrom::End(0))?;
     //Make sure we are at the beginning.
     file.seek(SeekFrom::Start(0))?;
 
-    loop {
+    let mut segment_start = 0;
+    while segment_start < file_length {
+        let available = file_length - segment_start;
         match Segment::read(file) {
-            Ok(segment) => {
-                let next_segment = index.add_segment(segment)?;
-                if file.seek(SeekFrom::Start(next_segment)).is_err() {
-                    break;
+            Ok(mut segment) => {
+                let expected = segment.next_segment_offset;
+                segment.limit_to_length(available);
+                if segment.next_segment_offset != expected {
+                    torn_segment = Some(TornSegment {
+                        start: segment_start,
+                        lead_in: Segment {
+                            meta_data: None,
+                            ..segment
+                        },
+                    });
                 }
+                segment_start = index.add_segment(segment)?;
+                file.seek(SeekFrom::Start(segment_start))?;
+            }
+            // The file was cut before the meta data was complete so this segment has nothing to offer.
+            Err(e) if is_end_of_file(&e) && header_is_cut(file, segment_start, available)? => break,
+            Err(TdmsError::EndOfFile) => {
+                return Err(TdmsError::IoError(ErrorKind::UnexpectedEof.into()));
             }
-            Err(TdmsError::EndOfFile) => break,
             Err(e) => return Err(e),
         }
     }
-    Ok(index)
+    Ok((index, torn_segment))
+}
+
+fn is_end_of_file(error: &TdmsError) -> bool {
+    match error {
+        TdmsError::EndOfFile => true,
+        TdmsError::IoError(e) => e.kind() == ErrorKind::UnexpectedEof,
+        _ => false,
+    }
+}
+
+/// Determines if the lead in or the meta data of the segment doesn't fit into the bytes available.
+fn header_is_cut(
+    file: &mut (impl Read + Seek),
+    segment_start: u64,
+    available: u64,
+) -> Result<bool, TdmsError> {
+    if available < LEAD_IN_BYTES {
+        return Ok(true);
+    }
+    file.seek(SeekFrom::Start(segment_start))?;
+    let lead_in = Segment::read_lead_in(file)?;
+    Ok(lead_in.raw_data_offset > available - LEAD_IN_BYTES)
 }
 
 impl<F: Read + Seek> TdmsFile<F> {
@@ -84,8 +134,12 @@ impl<F: Read + Seek> TdmsFile<F> {
     /// let file = TdmsFile::new(fake_file);
     /// ```
     pub fn new(mut file: F) -> Result<Self, TdmsError> {
-        let index = build_index(&mut file)?;
-        Ok(Self { index, file })
+        let (index, torn_segment) = build_index(&mut file)?;
+        Ok(Self {
+            index,
+            file,
+            torn_segment,
+        })
     }
 
     /// Read the property by name from the full object path.
diff --git a/src/meta_data.rs b/src/meta_data.rs
index 379de64..6dffd10 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -174,6 +174,31 @@ impl Segment {
     }
 
     pub fn read(reader: &mut (impl Read + Seek)) -> Result<Segment, TdmsError> {
+        let toc = Self::read_toc(reader)?;
+        Self::read_after_toc(reader, toc)
+    }
+
+    /// Limit the segment to the bytes that exist in the file, including the lead in.
+    pub fn limit_to_length(&mut self, available: u64) {
+        let content = available.saturating_sub(LEAD_IN_BYTES);
+        if self.next_segment_offset > content {
+            self.next_segment_offset = content;
+            self.raw_data_offset = self.raw_data_offset.min(content);
+        }
+    }
+
+    /// Read only the lead in of the segment, even if it is followed by meta data.
+    pub fn read_lead_in(reader: &mut (impl Read + Seek)) -> Result<Segment, TdmsError> {
+        let toc = Self::read_toc(reader)?;
+        let without_meta_data = ToC {
+            contains_meta_data: false,
+            ..toc
+        };
+        let lead_in = Self::read_after_toc(reader, without_meta_data)?;
+        Ok(Segment { toc, ..lead_in })
+    }
+
+    fn read_toc(reader: &mut (impl Read + Seek)) -> Result<ToC, TdmsError> {
         let mut tag = [0u8; 4];
         match reader.read_exact(&mut tag) {
             Ok(_) => {}
@@ -193,8 +218,10 @@ impl Segment {
         //ToC is always little endian.
         let mut buf = [0u8; 4];
         reader.read_exact(&mut buf)?;
-        let toc = ToC::from_u32(u32::from_le_bytes(buf));
+        Ok(ToC::from_u32(u32::from_le_bytes(buf)))
+    }
 
+    fn read_after_toc(reader: &mut (impl Read + Seek), toc: ToC) -> Result<Segment, TdmsError> {
         let segment = match toc.big_endian {
             true => BigEndianReader::from_reader(reader).read_segment(toc)?,
             false => LittleEndianReader::from_reader(reader).read_segment(toc)?,
-- 
2.43.0


From 3f6ccbc4991a07cf17e52821c03ee89685decb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 17/34] fix: append after the last complete segment when an
 interrupted write left a tail

---
 src/file/mod.rs  | 44 +++++++++++++++++++++++++++++++++++++++++---
 src/index/mod.rs |  5 +++++
 src/meta_data.rs | 21 +++++++++++++++++++++
 3 files changed, 67 insertions(+), 3 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index eb7a377..5983aba 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -9,7 +9,7 @@ use std::{
     path::Path,
 };
 
-use crate::meta_data::{LEAD_IN_BYTES, Segment};
+use crate::meta_data::{LEAD_IN_BYTES, LEAD_IN_OFFSETS_POSITION, Segment};
 use crate::{ChannelPath, index::Index};
 use crate::{PropertyPath, PropertyValue, error::TdmsError};
 use crate::{
@@ -237,8 +237,7 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
     pub fn writer(
         &mut self,
     ) -> Result<TdmsFileWriter<'_, F, LittleEndianWriter<&mut F>>, TdmsError> {
-        //make sure we are at the end.
-        self.file.seek(SeekFrom::End(0))?;
+        self.repair_end()?;
         Ok(TdmsFileWriter::new(
             &mut self.index,
             LittleEndianWriter::from_writer(&mut self.file),
@@ -246,6 +245,45 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
     }
 }
 
+impl<F: Write + Read + Seek> TdmsFile<F> {
+    /// Make sure that a new segment will be found after the ones in the index and move
+    /// the file to where it must be written.
+    ///
+    /// An interrupted write may have left something behind which would hide it.
+    fn repair_end(&mut self) -> Result<(), TdmsError> {
+        if let Some(torn) = &self.torn_segment {
+            // Correct the offsets so that the segment ends where the next will start.
+            let offsets = &torn.lead_in.lead_in_bytes()[LEAD_IN_OFFSETS_POSITION..];
+            self.file.seek(SeekFrom::Start(
+                torn.start + LEAD_IN_OFFSETS_POSITION as u64,
+            ))?;
+            self.file.write_all(offsets)?;
+            self.torn_segment = None;
+        }
+
+        let file_length = self.file.seek(SeekFrom::End(0))?;
+        let next_segment = self.index.next_segment_start();
+        let leftover = file_length
+            .checked_sub(next_segment)
+            .ok_or(TdmsError::EndOfFile)?;
+
+        if leftover >= LEAD_IN_BYTES {
+            // This may be longer than the next segment so hide it in an empty one.
+            let filler = Segment {
+                next_segment_offset: leftover - LEAD_IN_BYTES,
+                ..Default::default()
+            };
+            self.file.seek(SeekFrom::Start(next_segment))?;
+            self.file.write_all(&filler.lead_in_bytes())?;
+            self.index.add_segment(filler)?;
+        }
+
+        self.file
+            .seek(SeekFrom::Start(self.index.next_segment_start()))?;
+        Ok(())
+    }
+}
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/index/mod.rs b/src/index/mod.rs
index e79241b..ff1909f 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -176,6 +176,11 @@ impl Index {
         })
     }
 
+    /// Get the position in the file after the last segment.
+    pub fn next_segment_start(&self) -> u64 {
+        self.next_segment_start
+    }
+
     pub fn get_data_block(&self, index: usize) -> Option<&DataBlock> {
         self.data_blocks.get(index)
     }
diff --git a/src/meta_data.rs b/src/meta_data.rs
index 6dffd10..8224242 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -16,6 +16,10 @@ use crate::properties::PropertyValue;
 
 ///The fixed byte size of the lead in section.
 pub const LEAD_IN_BYTES: u64 = 28;
+///The position of the two offsets in the lead in section.
+pub const LEAD_IN_OFFSETS_POSITION: usize = 12;
+///The version of the format that we write.
+const VERSION: u32 = 4713;
 
 /// Represents data that is endian agnostic.
 pub trait TdmsMetaData: Sized {
@@ -198,6 +202,23 @@ impl Segment {
         Ok(Segment { toc, ..lead_in })
     }
 
+    /// The lead in of the segment as found in the file.
+    pub fn lead_in_bytes(&self) -> Vec<u8> {
+        let mut bytes = Vec::with_capacity(LEAD_IN_BYTES as usize);
+        bytes.extend_from_slice(b"TDSm");
+        bytes.extend_from_slice(&self.toc.as_bytes());
+        if self.toc.big_endian {
+            bytes.extend_from_slice(&VERSION.to_be_bytes());
+            bytes.extend_from_slice(&self.next_segment_offset.to_be_bytes());
+            bytes.extend_from_slice(&self.raw_data_offset.to_be_bytes());
+        } else {
+            bytes.extend_from_slice(&VERSION.to_le_bytes());
+            bytes.extend_from_slice(&self.next_segment_offset.to_le_bytes());
+            bytes.extend_from_slice(&self.raw_data_offset.to_le_bytes());
+        }
+        bytes
+    }
+
     fn read_toc(reader: &mut (impl Read + Seek)) -> Result<ToC, TdmsError> {
         let mut tag = [0u8; 4];
         match reader.read_exact(&mut tag) {
-- 
2.43.0


From d609ef4f818c714c81067346a120e9a1e3f9ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 18/34] fix: refuse to write after a segment that the stream
 failed to take

---
 src/file/file_writer.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index d97c76d..9a8bba1 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -13,6 +13,8 @@ pub struct TdmsFileWriter<'a, F: Write + 'a, W: TdmsWriter<&'a mut F>> {
     index: &'a mut Index,
     writer: W,
     _file: std::marker::PhantomData<F>,
+    /// Set once a segment could only be written in part so nothing may follow it.
+    interrupted: bool,
 }
 
 impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
@@ -26,9 +28,28 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
             index,
             writer,
             _file: std::marker::PhantomData,
+            interrupted: false,
         }
     }
 
+    /// Stop further segments being written after one which failed part way.
+    ///
+    /// They could not be found in the file. Getting a new writer cleans up what was left.
+    fn check_not_interrupted(&self) -> Result<(), TdmsError> {
+        if self.interrupted {
+            return Err(TdmsError::IoError(std::io::Error::other(
+                "A previous write to the file was interrupted",
+            )));
+        }
+        Ok(())
+    }
+
+    /// Take note if the stream failed while writing a segment.
+    fn note_interruption<T>(&mut self, result: Result<T, TdmsError>) -> Result<T, TdmsError> {
+        self.interrupted |= matches!(result, Err(TdmsError::IoError(_)));
+        result
+    }
+
     /// Write the data to the given channels.
     ///
     /// If you provide multiple channels then it is assumed tha the values is a 2d array layout.
@@ -42,9 +63,10 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         values: &'b [D],
         layout: DataLayout,
     ) -> Result<(), TdmsError> {
-        let stream = DataStreamWriter::new(self.index, &mut self.writer, channels, values, layout)?;
-        stream.end_stream()?;
-        Ok(())
+        self.check_not_interrupted()?;
+        let stream = DataStreamWriter::new(self.index, &mut self.writer, channels, values, layout);
+        let result = stream.and_then(|stream| stream.end_stream());
+        self.note_interruption(result)
     }
 
     /// Write the properties to the given path.
@@ -70,6 +92,7 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         path: &PropertyPath,
         properties: &[(&str, PropertyValue)],
     ) -> Result<(), TdmsError> {
+        self.check_not_interrupted()?;
         let path = path.path();
         let properties = properties
             .iter()
@@ -88,7 +111,8 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
 
         let segment =
             self.writer
-                .write_segment(ToC::default(), Some(meta), Option::<&[u8]>::None)?;
+                .write_segment(ToC::default(), Some(meta), Option::<&[u8]>::None);
+        let segment = self.note_interruption(segment)?;
         self.index.add_segment(segment)?;
         Ok(())
     }
-- 
2.43.0


From a0eb65efe2665e69babde3b439b899ce559414e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 19/34] fix: do not count samples of a string block which is
 not complete

---
 src/raw_data/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 73ae503..790181f 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -181,6 +181,8 @@ impl DataBlock {
         let chunk_count = match size {
             ChunkSize::Fixed(0) => 0,
             ChunkSize::Fixed(size) => (self.length.get() / size) as usize,
+            // The last write to the block may be incomplete.
+            ChunkSize::Variable(size) if size > self.length.get() => 0,
             ChunkSize::Variable(_) => 1,
         };
         Ok(chunk_count)
-- 
2.43.0


From 50b50eb5fc477deafbd8d697a22e17d9ea132bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 20/34] fix: track the samples read per channel when their
 counts in a block differ

---
 src/file/channel_reader.rs | 65 +++++++++++++++++++++++++++-----------
 src/raw_data/mod.rs        |  9 ++++++
 2 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 60b9d93..43742c0 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -38,6 +38,12 @@ impl ChannelProgress {
         self.samples_read >= self.samples_target
     }
 
+    /// Limit the number of samples to what is still needed.
+    fn limit_to_remaining(&self, available: u64) -> usize {
+        let remaining = self.samples_target - self.samples_read;
+        available.min(remaining as u64) as usize
+    }
+
     fn add_samples(&mut self, samples: usize) {
         self.samples_read += samples;
     }
@@ -169,26 +175,40 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
                     )
                 })?;
 
+            // Each channel can have a different number of samples left in the block.
+            let block_samples = location
+                .channel_indexes
+                .iter()
+                .zip(channel_progress.iter())
+                .map(|(plan, progress)| match plan {
+                    Some(plan) => {
+                        let available = block
+                            .channel_samples(plan.index)?
+                            .saturating_sub(plan.samples_to_skip);
+                        Ok(progress.limit_to_remaining(available))
+                    }
+                    None => Ok(0),
+                })
+                .collect::<Result<Vec<usize>, TdmsError>>()?;
+
             // Use fast path if no skip needed, slow path otherwise
-            let location_samples_read = if any_skip_needed {
-                let mut channels_with_skip =
-                    get_block_read_data_with_skip(&location, output, &channel_progress);
-                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?
+            if any_skip_needed {
+                let mut channels_with_skip = get_block_read_data_with_skip(
+                    &location,
+                    output,
+                    &channel_progress,
+                    &block_samples,
+                );
+                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?;
             } else {
                 let mut channels_to_read =
-                    get_block_read_data(&location, output, &channel_progress);
-                block.read(&mut self.file, &mut channels_to_read)?
-            };
+                    get_block_read_data(&location, output, &channel_progress, &block_samples);
+                block.read(&mut self.file, &mut channels_to_read)?;
+            }
 
             // Update progress
-            for (plan, progress) in location
-                .channel_indexes
-                .iter()
-                .zip(channel_progress.iter_mut())
-            {
-                if plan.is_some() {
-                    progress.add_samples(location_samples_read);
-                }
+            for (samples, progress) in block_samples.iter().zip(channel_progress.iter_mut()) {
+                progress.add_samples(*samples);
             }
 
             if all_channels_complete(&channel_progress) {
@@ -205,18 +225,23 @@ fn get_block_read_data<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    block_samples: &[usize],
 ) -> Vec<(usize, &'o mut [D])> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(block_samples.iter())
+        .filter_map(|(((plan, output), progress), samples)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel.
-                (Some(plan), progress) => Some((plan.index, &mut output[progress.samples_read..])),
+                (Some(plan), progress) => Some((
+                    plan.index,
+                    &mut output[progress.samples_read..][..*samples],
+                )),
                 _ => None,
             }
         })
@@ -228,20 +253,22 @@ fn get_block_read_data_with_skip<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    block_samples: &[usize],
 ) -> Vec<BlockReadChannelConfig<'b, D>> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(block_samples.iter())
+        .filter_map(|(((plan, output), progress), samples)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel with its skip amount.
                 (Some(plan), progress) => Some(BlockReadChannelConfig {
                     channel_index: plan.index,
-                    output: &mut output[progress.samples_read..],
+                    output: &mut output[progress.samples_read..][..*samples],
                     samples_to_skip: plan.samples_to_skip,
                 }),
                 _ => None,
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 790181f..691f3b6 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -188,6 +188,15 @@ impl DataBlock {
         Ok(chunk_count)
     }
 
+    /// The number of samples in the block for the channel at the index.
+    pub fn channel_samples(&self, channel_index: usize) -> Result<u64, TdmsError> {
+        let chunks = self.number_of_chunks()? as u64;
+        self.channels[channel_index]
+            .number_of_values
+            .checked_mul(chunks)
+            .ok_or(TdmsError::ChunkSizeOverflow)
+    }
+
     /// Plan the read of the channels specified into the output slices.
     fn record_plan<'o, 'b: 'o, D: TdmsStorageType>(
         &self,
-- 
2.43.0


From 2a13cc21e97099982790dd75a491fc33986a6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 21/34] fix: apply the skip of each channel on its own when
 reading contiguous blocks

---
 src/raw_data/contigious_multi_channel_read.rs | 137 ++++--------------
 src/raw_data/mod.rs                           |  20 +--
 src/raw_data/records.rs                       |  32 ++++
 3 files changed, 69 insertions(+), 120 deletions(-)

diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index a724010..6facf39 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -57,137 +57,52 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         mut channels: RecordPlan<D>,
         start_sample: u64,
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
-
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
-
-        // Calculate how many complete sub-blocks to skip and the remainder
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip = start_sample / sub_block_length;
-        let remainder_skip = start_sample % sub_block_length;
-
-        let mut length = 0;
-
-        for sub_block_idx in 0..total_sub_blocks {
-            if sub_block_idx < sub_blocks_to_skip {
-                // Skip entire sub-block by seeking past it
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else if sub_block_idx == sub_blocks_to_skip {
-                // First sub-block to read - apply remainder skip
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = remainder_skip;
-                    }
-                }
-                length += self.read_sub_block(&mut channels)?;
-            } else {
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = 0;
-                    }
-                }
-                // Subsequent sub-blocks - no skip
-                length += self.read_sub_block(&mut channels)?;
-            }
+        for channel_skip in channels.block_skips_mut() {
+            *channel_skip = start_sample;
         }
-
-        Ok(length)
+        self.read_with_planned_skips(channels)
     }
 
-    /// Read the data from the block with per-channel skip amounts.
+    /// Read the data from the block with the skip amounts in the plan.
     ///
     /// For contiguous data, each channel can skip independently by seeking.
-    pub fn read_with_per_channel_skip<D: TdmsStorageType>(
+    pub fn read_with_planned_skips<D: TdmsStorageType>(
         &mut self,
         mut channels: RecordPlan<D>,
-        skip_amounts: &[u64],
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
 
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
-
-        // Calculate per-channel sub-blocks to skip and remainders
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip / sub_block_length)
-            .collect();
-        let remainder_skips: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip % sub_block_length)
-            .collect();
+        let sub_block_size = channels.block_size() as u64;
+        let total_sub_blocks = self
+            .block_size
+            .get()
+            .checked_div(sub_block_size)
+            .unwrap_or(0);
 
         let mut length = 0;
+        let mut sub_block_idx: u64 = 0;
 
-        for sub_block_idx in 0..total_sub_blocks {
-            // Check if any channel needs to read from this sub-block
-            let any_channel_reads = sub_blocks_to_skip.iter().all(|&skip| sub_block_idx >= skip);
+        // Stop when there is nothing left to read for any of the channels.
+        while let Some(sub_blocks_to_skip) = channels.sub_blocks_before_next_read() {
+            sub_block_idx = sub_block_idx.saturating_add(sub_blocks_to_skip);
+            if sub_block_idx >= total_sub_blocks {
+                break;
+            }
 
-            if !any_channel_reads {
-                // Skip entire sub-block
-                let skip_bytes = channels.block_size() as i64;
+            if sub_blocks_to_skip > 0 {
+                // Skip entire sub-blocks by seeking past them.
+                let skip_bytes = (sub_blocks_to_skip * sub_block_size) as i64;
                 self.reader.move_position(skip_bytes)?;
-            } else {
-                // Build skip amounts for this sub-block
-                let channel_skip_values =
-                    channels
-                        .read_instructions()
-                        .iter_mut()
-                        .filter_map(|instruction| {
-                            if let RecordEntryPlan::Read {
-                                block_skip: skip_first_samples,
-                                ..
-                            } = &mut instruction.plan
-                            {
-                                Some(skip_first_samples)
-                            } else {
-                                None
-                            }
-                        });
-                for ((blocks_to_skip, remainder_skip), sub_block_skip) in sub_blocks_to_skip
-                    .iter()
-                    .zip(remainder_skips.iter())
-                    .zip(channel_skip_values)
-                {
-                    *sub_block_skip = Self::calculate_skip_for_this_block(
-                        sub_block_idx,
-                        *blocks_to_skip,
-                        *remainder_skip,
-                    );
-                }
-                length += self.read_sub_block(&mut channels)?;
+                channels.skip_sub_blocks(sub_blocks_to_skip);
             }
+
+            length += self.read_sub_block(&mut channels)?;
+            sub_block_idx += 1;
         }
 
         Ok(length)
     }
 
-    fn calculate_skip_for_this_block(
-        sub_block_idx: u64,
-        blocks_to_skip: u64,
-        remainder_skip: u64,
-    ) -> u64 {
-        if sub_block_idx == blocks_to_skip {
-            // First sub-block to read for this channel - use remainder
-            remainder_skip
-        } else if sub_block_idx > blocks_to_skip {
-            // Subsequent sub-blocks - no skip
-            0
-        } else {
-            // Should not happen if any_channel_reads is correct
-            0
-        }
-    }
-
     fn read_sub_block<D: TdmsStorageType>(
         &mut self,
         channels: &mut RecordPlan<'_, D>,
@@ -201,6 +116,8 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
                     block_skip: skip_first_samples,
                 } => {
                     let skip = (*skip_first_samples).min(read_instruction.length as u64) as usize;
+                    // Anything left is to be skipped in the next sub-block.
+                    *skip_first_samples -= skip as u64;
 
                     let samples_to_read = read_instruction.length.saturating_sub(skip);
 
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 691f3b6..615ba7d 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -350,13 +350,14 @@ impl DataBlock {
         channels_to_read: &'b mut [BlockReadChannelConfig<'b, D>],
     ) -> Result<usize, TdmsError> {
         // Extract skip amounts first (before mutable borrow)
-        let skip_amounts: Vec<u64> = channels_to_read
+        let skip_amounts: Vec<(usize, u64)> = channels_to_read
             .iter()
             .map(
                 |BlockReadChannelConfig {
+                     channel_index,
                      samples_to_skip: skip,
                      ..
-                 }| *skip,
+                 }| (*channel_index, *skip),
             )
             .collect();
 
@@ -374,25 +375,27 @@ impl DataBlock {
 
         let mut record_plan = self.record_plan(&mut channel_refs)?;
 
+        // The channels can be requested in a different order than they are stored in.
+        for (channel_index, skip) in skip_amounts {
+            record_plan.set_block_skip(channel_index, skip);
+        }
+
         match (self.layout, self.byte_order) {
             (DataLayout::Contigious, Endianess::Big) => MultiChannelContiguousReader::<_, _>::new(
                 BigEndianReader::from_reader(reader),
                 self.start,
                 self.length,
             )
-            .read_with_per_channel_skip(record_plan, &skip_amounts),
+            .read_with_planned_skips(record_plan),
             (DataLayout::Contigious, Endianess::Little) => {
                 MultiChannelContiguousReader::<_, _>::new(
                     LittleEndianReader::from_reader(reader),
                     self.start,
                     self.length,
                 )
-                .read_with_per_channel_skip(record_plan, &skip_amounts)
+                .read_with_planned_skips(record_plan)
             }
             (DataLayout::Interleaved, Endianess::Big) => {
-                for (plan_skip, skip_amount) in record_plan.block_skips_mut().zip(skip_amounts) {
-                    *plan_skip = skip_amount;
-                }
                 MultiChannelInterleavedReader::<_, _>::new(
                     BigEndianReader::from_reader(reader),
                     self.start,
@@ -401,9 +404,6 @@ impl DataBlock {
                 .read(record_plan)
             }
             (DataLayout::Interleaved, Endianess::Little) => {
-                for (plan_skip, skip_amount) in record_plan.block_skips_mut().zip(skip_amounts) {
-                    *plan_skip = skip_amount;
-                }
                 MultiChannelInterleavedReader::<_, _>::new(
                     LittleEndianReader::from_reader(reader),
                     self.start,
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 9368bf2..3884344 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -92,6 +92,38 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         })
     }
 
+    /// Set the number of samples to skip for the channel at the index of the block.
+    pub fn set_block_skip(&mut self, channel_index: usize, skip: u64) {
+        if let RecordEntryPlan::Read { block_skip, .. } = &mut self.0[channel_index].plan {
+            *block_skip = skip;
+        }
+    }
+
+    /// The number of whole sub blocks before the next one which has samples for the outputs.
+    ///
+    /// Returns `None` once all of the outputs are filled.
+    pub fn sub_blocks_before_next_read(&self) -> Option<u64> {
+        self.0
+            .iter()
+            .filter_map(|entry| match &entry.plan {
+                RecordEntryPlan::Read { output, block_skip } if output.len() > 0 => {
+                    block_skip.checked_div(entry.length as u64)
+                }
+                _ => None,
+            })
+            .min()
+    }
+
+    /// Remove whole sub blocks from the samples that are still to be skipped.
+    pub fn skip_sub_blocks(&mut self, sub_blocks: u64) {
+        for entry in &mut self.0 {
+            if let RecordEntryPlan::Read { block_skip, .. } = &mut entry.plan {
+                *block_skip =
+                    block_skip.saturating_sub(sub_blocks.saturating_mul(entry.length as u64));
+            }
+        }
+    }
+
     /// Get the size of a single record in bytes.
     ///
     /// ## Panics
-- 
2.43.0


From b4092759db89d2eb71279ecc1cc152d8c7046f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 22/34] fix: keep reading interleaved rows for the channels
 which skip more than others

---
 .../interleaved_multi_channel_read.rs         | 42 ++++++++-----------
 src/raw_data/records.rs                       | 15 +++++++
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index e39e548..32f3df5 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -39,35 +39,32 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
     /// *ASSUMPTION*: All channels have the same number of values available. The spec
     /// allows for different lengths, but all clients have I have seen do not.
     ///
-    /// For interleaved data, we skip the minimum across all channels (entire rows),
-    /// then read rows while discarding samples for channels that need more skipping.
+    /// For interleaved data, we skip the rows that no channel needs, then read rows while
+    /// discarding samples for channels that need more skipping.
     pub fn read<D: TdmsStorageType>(
         &mut self,
         mut channels: RecordPlan<D>,
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
-        let total_row_count = self.block_size.get() / channels.row_size() as u64;
+        let row_size = channels.row_size() as u64;
+        let total_row_count = self.block_size.get().checked_div(row_size).unwrap_or(0);
 
-        // Find minimum skip (we can skip entire rows up to this point)
-        let min_skip = channels.block_skips().min().unwrap_or(0);
-
-        // Skip entire rows
-        if min_skip > 0 {
-            let skip_bytes = min_skip as i64 * channels.row_size() as i64;
-            self.reader.move_position(skip_bytes)?;
-        }
+        let mut samples_read = 0;
+        let mut row = 0;
 
-        // Calculate the remaining skip per channel
-        for skip in channels.block_skips_mut() {
-            *skip = skip.saturating_sub(min_skip);
-        }
+        // Stop when there is nothing left to read for any of the channels.
+        while let Some(next_row) = channels.next_row_to_read(row) {
+            if next_row >= total_row_count {
+                break;
+            }
 
-        // Read rows, discarding samples for channels that still need to skip
-        let rows_to_process = total_row_count.saturating_sub(min_skip);
+            // Skip entire rows
+            if next_row > row {
+                let skip_bytes = ((next_row - row) * row_size) as i64;
+                self.reader.move_position(skip_bytes)?;
+                row = next_row;
+            }
 
-        let mut samples_read = 0;
-        for row in 0..rows_to_process {
-            let mut any_values_read = false;
             for read_instruction in channels.read_instructions().iter_mut() {
                 match &mut read_instruction.plan {
                     RecordEntryPlan::Read { output, block_skip } => {
@@ -78,7 +75,6 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                             && let Some(value) = output.next()
                         {
                             *value = read_value;
-                            any_values_read = true;
                         }
                     }
                     RecordEntryPlan::Skip(bytes) => {
@@ -86,9 +82,7 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                     }
                 };
             }
-            if !any_values_read {
-                break;
-            }
+            row += 1;
             samples_read += 1;
         }
 
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 3884344..325adb5 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -114,6 +114,21 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
             .min()
     }
 
+    /// The next row, from the row provided, which has samples for the outputs.
+    ///
+    /// Returns `None` once all of the outputs are filled.
+    pub fn next_row_to_read(&self, row: u64) -> Option<u64> {
+        self.0
+            .iter()
+            .filter_map(|entry| match &entry.plan {
+                RecordEntryPlan::Read { output, block_skip } if output.len() > 0 => {
+                    Some(row.max(*block_skip))
+                }
+                _ => None,
+            })
+            .min()
+    }
+
     /// Remove whole sub blocks from the samples that are still to be skipped.
     pub fn skip_sub_blocks(&mut self, sub_blocks: u64) {
         for entry in &mut self.0 {
-- 
2.43.0


From 02a41add97dc70c42cb3a6af8b99c057160ea666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 23/34] fix: fill every output when a channel is requested more
 than once

---
 src/file/channel_reader.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 43742c0..ebde46e 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -138,6 +138,20 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
             })
             .collect::<Result<Vec<&[DataLocation]>, TdmsError>>()?;
 
+        // A block is read into one output per channel so repeated channels need their own read.
+        let is_repeated = |(index, channel): (usize, &_)| {
+            let path = AsRef::<ChannelPath>::as_ref(channel).path();
+            channels[..index].iter().any(|c| c.as_ref().path() == path)
+        };
+        if channels.iter().enumerate().any(is_repeated) {
+            return channels
+                .iter()
+                .zip(output.iter_mut())
+                .try_for_each(|(channel, output)| {
+                    self.read_channel_from(channel.as_ref(), start, output)
+                });
+        }
+
         let start_skips: Vec<u64> = vec![start; channels.len()];
         let plan = read_plan(&channel_positions[..], &start_skips);
 
-- 
2.43.0


From 94919068246b3c890e16a070c3e49ae332d54d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 24/34] fix: do not overflow when adding up the length of a
 channel

---
 src/index/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index ff1909f..346637d 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -172,7 +172,7 @@ impl Index {
                 .data_locations
                 .iter()
                 .map(|location| location.number_of_samples)
-                .sum()
+                .fold(0, u64::saturating_add)
         })
     }
 
-- 
2.43.0


From adc47721fa4c6a3634ad00b61ee664bdb34ace18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 25/34] fix: refuse interleaved data with a different length
 for each channel

---
 src/raw_data/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 615ba7d..3dee208 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -208,6 +208,14 @@ impl DataBlock {
             if let Some(channel) = self.channels.iter().find(variable_size) {
                 return Err(TdmsError::UnsupportedType(channel.data_type));
             }
+            // Every row has a value for each channel.
+            let rows = self.channels[0].number_of_values;
+            if self.channels.iter().any(|c| c.number_of_values != rows) {
+                return Err(TdmsError::BadDataBlockLength(
+                    self.length.get() as usize,
+                    self.channels.len(),
+                ));
+            }
         }
         RecordPlan::build_record_plan(&self.channels, channels_to_read)
     }
-- 
2.43.0


From ba40f0b7bcf2084a670ee36d90e3790bb444a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 26/34] fix: find active objects by path without searching all
 of them

---
 src/index/building.rs | 45 ++++++++++++++++++++++++++++++++++---------
 src/index/mod.rs      |  2 ++
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/index/building.rs b/src/index/building.rs
index a601100..7789e68 100644
--- a/src/index/building.rs
+++ b/src/index/building.rs
@@ -11,6 +11,8 @@ use crate::{
     raw_data::DataBlock,
 };
 
+use std::collections::BTreeSet;
+
 use super::{DataFormat, DataLocation, ObjectData, ObjectIndex};
 
 /// Data cached for the current "active" objects which are the objects
@@ -71,16 +73,25 @@ impl super::Index {
         }
 
         if let Some(meta_data) = &segment.meta_data {
+            let mut deactivated = BTreeSet::new();
             for obj in meta_data.objects.iter() {
                 match obj.raw_data_index {
                     RawDataIndex::None => {
                         // There is no more data for the object until it is activated again.
-                        self.active_objects.retain(|active| active.path != obj.path);
+                        if self.active_positions.contains_key(&obj.path) {
+                            deactivated.insert(obj.path.as_str());
+                        }
                         self.update_meta_object(obj)?
                     }
-                    _ => self.update_or_activate_data_object(obj)?,
+                    _ => {
+                        if deactivated.contains(obj.path.as_str()) {
+                            self.deactivate_objects(&std::mem::take(&mut deactivated));
+                        }
+                        self.update_or_activate_data_object(obj)?
+                    }
                 }
             }
+            self.deactivate_objects(&deactivated);
         }
 
         if segment.toc.contains_raw_data {
@@ -156,19 +167,33 @@ impl super::Index {
     /// Panics if the object was already listed as inactive.
     fn deactivate_all_objects(&mut self) {
         self.active_objects.clear();
+        self.active_positions.clear();
+    }
+
+    /// Makes some of the objects inactive.
+    fn deactivate_objects(&mut self, paths: &BTreeSet<&str>) {
+        if paths.is_empty() {
+            return;
+        }
+        self.active_objects
+            .retain(|active| !paths.contains(active.path.as_str()));
+        self.active_positions = self
+            .active_objects
+            .iter()
+            .enumerate()
+            .map(|(position, active)| (active.path.clone(), position))
+            .collect();
     }
 
     /// Activate Data Object
     ///
     /// Adds the object by path to the active objects. Creates it if it doesn't exist.
     fn update_or_activate_data_object(&mut self, object: &ObjectMetaData) -> Result<(), TdmsError> {
-        let matching_active = self
-            .active_objects
-            .iter_mut()
-            .find(|active_object| active_object.path == object.path);
+        let matching_active = self.active_positions.get(&object.path);
 
         match matching_active {
-            Some(active_object) => {
+            Some(&position) => {
+                let active_object = &mut self.active_objects[position];
                 active_object.update(object);
                 active_object
                     .get_object_data_mut(&mut self.objects)
@@ -181,8 +206,10 @@ impl super::Index {
                     .channel_format(&object.path)
                     .expect("Should not reach this if there is no data with the object.");
 
-                self.active_objects
-                    .push(ActiveObject::new(&object.path, format));
+                let active_object = ActiveObject::new(&object.path, format);
+                self.active_positions
+                    .insert(object.path.clone(), self.active_objects.len());
+                self.active_objects.push(active_object);
                 Ok(())
             }
         }
diff --git a/src/index/mod.rs b/src/index/mod.rs
index 346637d..4773dda 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -116,6 +116,8 @@ type ObjectIndex = BTreeMap<String, ObjectData>;
 #[derive(Default, Debug, Clone)]
 pub struct Index {
     active_objects: Vec<building::ActiveObject>,
+    /// The position of each path in the active objects.
+    active_positions: BTreeMap<String, usize>,
     objects: ObjectIndex,
     data_blocks: Vec<DataBlock>,
     next_segment_start: u64,
-- 
2.43.0


From 745a38699afead17e1c5832726cea8683c20a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 27/34] fix: look for repeated channels in a request without
 comparing every pair

---
 src/file/channel_reader.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index ebde46e..1bab661 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -1,3 +1,5 @@
+use std::collections::BTreeSet;
+
 use crate::paths::ChannelPath;
 use crate::raw_data::BlockReadChannelConfig;
 use crate::{TdmsFile, error::TdmsError, index::DataLocation, io::data_types::TdmsStorageType};
@@ -139,11 +141,8 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
             .collect::<Result<Vec<&[DataLocation]>, TdmsError>>()?;
 
         // A block is read into one output per channel so repeated channels need their own read.
-        let is_repeated = |(index, channel): (usize, &_)| {
-            let path = AsRef::<ChannelPath>::as_ref(channel).path();
-            channels[..index].iter().any(|c| c.as_ref().path() == path)
-        };
-        if channels.iter().enumerate().any(is_repeated) {
+        let mut paths = BTreeSet::new();
+        if channels.iter().any(|c| !paths.insert(c.as_ref().path())) {
             return channels
                 .iter()
                 .zip(output.iter_mut())
-- 
2.43.0


From 80f89a124db3daf39330050d3d4f4471bf640eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 28/34] fix: an interrupted repair of a cut big endian segment
 leaves the file readable

---
 src/file/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 5983aba..cf43cdb 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -253,11 +253,17 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
     fn repair_end(&mut self) -> Result<(), TdmsError> {
         if let Some(torn) = &self.torn_segment {
             // Correct the offsets so that the segment ends where the next will start.
-            let offsets = &torn.lead_in.lead_in_bytes()[LEAD_IN_OFFSETS_POSITION..];
-            self.file.seek(SeekFrom::Start(
-                torn.start + LEAD_IN_OFFSETS_POSITION as u64,
-            ))?;
-            self.file.write_all(offsets)?;
+            // The least significant byte goes first so that an offset is never too small if this is interrupted.
+            let lead_in = torn.lead_in.lead_in_bytes();
+            let mut positions: Vec<usize> = (LEAD_IN_OFFSETS_POSITION..lead_in.len()).collect();
+            if torn.lead_in.toc.big_endian {
+                positions.reverse();
+            }
+            for position in positions {
+                self.file
+                    .seek(SeekFrom::Start(torn.start + position as u64))?;
+                self.file.write_all(&lead_in[position..=position])?;
+            }
             self.torn_segment = None;
         }
 
-- 
2.43.0


From 1484fdbdbf1e768dbc85ab029a456aefecde213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 29/34] fix: refuse texts too long for the format

---
 src/error.rs                 |  2 ++
 src/file/file_writer.rs      | 13 ++++++++++++-
 src/io/data_types/mod.rs     |  1 +
 src/io/data_types/strings.rs |  9 +++++++--
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 4fa54fc..83e1398 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -69,6 +69,8 @@ pub enum TdmsError {
     ChunkSizeOverflow,
     #[error("DAQmx Channels are not supported yet")]
     DaqmxChannelsNotSupported,
+    #[error("A text of {0} bytes is too long to be stored")]
+    TextTooLong(usize),
     #[cfg(feature = "chrono")]
     #[error("Failed to convert LVTime to chrono::DateTime")]
     ChronoDateTimeConversionFailed(#[source] labview_interop::types::timestamp::LVTimeError),
diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 9a8bba1..50ad6aa 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -1,6 +1,6 @@
 use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
-use crate::io::data_types::{DataType, TdmsStorageType};
+use crate::io::data_types::{DataType, TdmsStorageType, text_length};
 use crate::io::writer::TdmsWriter;
 use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
@@ -94,6 +94,14 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
     ) -> Result<(), TdmsError> {
         self.check_not_interrupted()?;
         let path = path.path();
+        // Nothing must be written if there is a text which can't be.
+        text_length(path)?;
+        for (name, value) in properties {
+            text_length(name)?;
+            if let PropertyValue::String(text) = value {
+                text_length(text)?;
+            }
+        }
         let properties = properties
             .iter()
             .map(|(name, value)| (name.to_string(), (*value).clone()))
@@ -144,6 +152,9 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         }
 
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
+        for channel in channels {
+            text_length(channel.as_ref().path())?;
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
             .data_structure()
diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index 14c7c4d..da85638 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -30,6 +30,7 @@ pub use bool::*;
 pub use complex::*;
 pub use extended::*;
 pub use native_numerics::*;
+pub(crate) use strings::text_length;
 pub use timestamp::*;
 
 /// The data types that can be encoded into TDMS data.
diff --git a/src/io/data_types/strings.rs b/src/io/data_types/strings.rs
index 511de0b..777e687 100644
--- a/src/io/data_types/strings.rs
+++ b/src/io/data_types/strings.rs
@@ -19,6 +19,11 @@ fn read_string_with_length(reader: &mut impl Read, length: u32) -> Result<String
     Ok(value)
 }
 
+/// The length of a text is stored in 32 bits.
+pub fn text_length(text: &str) -> StorageResult<u32> {
+    u32::try_from(text.len()).map_err(|_| TdmsError::TextTooLong(text.len()))
+}
+
 impl TdmsStorageType for String {
     const SUPPORTED_TYPES: &'static [DataType] = &[DataType::TdmsString];
 
@@ -35,13 +40,13 @@ impl TdmsStorageType for String {
     }
 
     fn write_le(&self, writer: &mut impl Write) -> StorageResult<()> {
-        writer.write_all(&(self.len() as u32).to_le_bytes())?;
+        writer.write_all(&text_length(self)?.to_le_bytes())?;
         writer.write_all(self.as_bytes())?;
         Ok(())
     }
 
     fn write_be(&self, writer: &mut impl Write) -> StorageResult<()> {
-        writer.write_all(&(self.len() as u32).to_be_bytes())?;
+        writer.write_all(&text_length(self)?.to_be_bytes())?;
         writer.write_all(self.as_bytes())?;
         Ok(())
     }
-- 
2.43.0


From 685ff467b669c9b704447b8749c7b79a71c2e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 30/34] fix: refuse to write the raw data of DAQmx

---
 src/file/file_writer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 50ad6aa..dde762c 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -146,8 +146,11 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         values: &'b [D],
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
-        // The raw data of strings has a different layout which isn't supported.
-        if D::NATURAL_TYPE == DataType::TdmsString {
+        // The raw data of strings and DAQmx has a different layout which isn't supported.
+        if matches!(
+            D::NATURAL_TYPE,
+            DataType::TdmsString | DataType::DAQmxRawData
+        ) {
             return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
         }
 
-- 
2.43.0


From c9b5a04b0e01ef3431118a6d139b4308ba6e5057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 31/34] fix: refuse to write after a segment that ended with
 any kind of error

---
 src/file/file_writer.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index dde762c..a85b758 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -44,12 +44,6 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         Ok(())
     }
 
-    /// Take note if the stream failed while writing a segment.
-    fn note_interruption<T>(&mut self, result: Result<T, TdmsError>) -> Result<T, TdmsError> {
-        self.interrupted |= matches!(result, Err(TdmsError::IoError(_)));
-        result
-    }
-
     /// Write the data to the given channels.
     ///
     /// If you provide multiple channels then it is assumed tha the values is a 2d array layout.
@@ -64,9 +58,17 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         layout: DataLayout,
     ) -> Result<(), TdmsError> {
         self.check_not_interrupted()?;
-        let stream = DataStreamWriter::new(self.index, &mut self.writer, channels, values, layout);
-        let result = stream.and_then(|stream| stream.end_stream());
-        self.note_interruption(result)
+        let stream = DataStreamWriter::new(
+            self.index,
+            &mut self.writer,
+            &mut self.interrupted,
+            channels,
+            values,
+            layout,
+        )?;
+        stream.end_stream()?;
+        self.interrupted = false;
+        Ok(())
     }
 
     /// Write the properties to the given path.
@@ -117,11 +119,12 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
             objects: vec![object],
         };
 
+        self.interrupted = true;
         let segment =
             self.writer
-                .write_segment(ToC::default(), Some(meta), Option::<&[u8]>::None);
-        let segment = self.note_interruption(segment)?;
+                .write_segment(ToC::default(), Some(meta), Option::<&[u8]>::None)?;
         self.index.add_segment(segment)?;
+        self.interrupted = false;
         Ok(())
     }
 
@@ -142,6 +145,7 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
     pub fn new<'b, C: AsRef<ChannelPath>, D: TdmsStorageType>(
         index: &'a mut Index,
         writer: &'a mut W,
+        interrupted: &mut bool,
         channels: &'b [C],
         values: &'b [D],
         layout: DataLayout,
@@ -198,6 +202,8 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
             data_is_interleaved: layout == DataLayout::Interleaved,
             ..Default::default()
         };
+        // Any error or panic from here on leaves an incomplete segment.
+        *interrupted = true;
         let segment = writer.write_segment(toc, meta, Some(raw_data))?;
         Ok(Self {
             index,
-- 
2.43.0


From d5576ec18198b3bf13485c603cf81446d2d329b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 32/34] fix: keep the segments another handle has appended when
 writing

---
 src/file/mod.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index cf43cdb..e04e39a 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -268,6 +268,8 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
         }
 
         let file_length = self.file.seek(SeekFrom::End(0))?;
+        self.index_appended_segments(file_length)?;
+
         let next_segment = self.index.next_segment_start();
         let leftover = file_length
             .checked_sub(next_segment)
@@ -288,6 +290,29 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
             .seek(SeekFrom::Start(self.index.next_segment_start()))?;
         Ok(())
     }
+
+    /// Add any complete segments which have been appended without using this index.
+    fn index_appended_segments(&mut self, file_length: u64) -> Result<(), TdmsError> {
+        loop {
+            let start = self.index.next_segment_start();
+            let available = file_length.saturating_sub(start);
+            if available < LEAD_IN_BYTES {
+                return Ok(());
+            }
+            self.file.seek(SeekFrom::Start(start))?;
+            let lead_in = match Segment::read_lead_in(&mut self.file) {
+                Ok(lead_in) => lead_in,
+                Err(TdmsError::HeaderPatternNotMatched(_)) => return Ok(()),
+                Err(e) => return Err(e),
+            };
+            if lead_in.next_segment_offset > available - LEAD_IN_BYTES {
+                return Ok(());
+            }
+            self.file.seek(SeekFrom::Start(start))?;
+            let segment = Segment::read(&mut self.file)?;
+            self.index.add_segment(segment)?;
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From d7273e53b4914ec18a0e8477f6ca84bb27bc9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:31 +0000
Subject: [PATCH 33/34] fix: drop the bits which are not part of an extended
 float

---
 src/io/data_types/extended.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/data_types/extended.rs b/src/io/data_types/extended.rs
index f03f467..bcaa935 100644
--- a/src/io/data_types/extended.rs
+++ b/src/io/data_types/extended.rs
@@ -18,11 +18,15 @@ use super::*;
 pub struct ExtendedRaw(u128);
 
 impl ExtendedRaw {
+    /// Create the value from its raw bits.
+    ///
+    /// Only the lower 80 bits are part of an extended float so any others are dropped.
     pub fn new(value: u128) -> Self {
-        Self(value)
+        Self(value & EXT_MASK)
     }
 }
 
+const EXT_MASK: u128 = (1 << (EXT_SIZE * 8)) - 1;
 const EXT_SIZE: usize = 10;
 const U128_SIZE: usize = std::mem::size_of::<u128>();
 const SIZE_DIFF: usize = U128_SIZE - EXT_SIZE;
-- 
2.43.0


From 7d892927ba4555618d9857cb18d04d56c50be8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:46 +0000
Subject: [PATCH 34/34] fix: refuse to write the same channel more than once in
 a segment

---
 src/error.rs            | 2 ++
 src/file/file_writer.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 83e1398..6806bf0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -71,6 +71,8 @@ pub enum TdmsError {
     DaqmxChannelsNotSupported,
     #[error("A text of {0} bytes is too long to be stored")]
     TextTooLong(usize),
+    #[error("The same channel is given more than once in a write. {0}")]
+    RepeatedChannel(ObjectPathOwned),
     #[cfg(feature = "chrono")]
     #[error("Failed to convert LVTime to chrono::DateTime")]
     ChronoDateTimeConversionFailed(#[source] labview_interop::types::timestamp::LVTimeError),
diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index a85b758..1f6d608 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -6,6 +6,7 @@ use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
+use std::collections::BTreeSet;
 use std::io::Write;
 use std::num::NonZeroUsize;
 
@@ -159,8 +160,14 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         }
 
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
+        // The values of a repeated channel would be read as those of the channels after it.
+        let mut paths = BTreeSet::new();
         for channel in channels {
-            text_length(channel.as_ref().path())?;
+            let path = channel.as_ref().path();
+            text_length(path)?;
+            if !paths.insert(path) {
+                return Err(TdmsError::RepeatedChannel(path.to_owned()));
+            }
         }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
-- 
2.43.0

