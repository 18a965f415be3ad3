From 64c39baeab9a818b55d2fcddd67ca365ba357523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 01/50] fix: hold the chunk's read lock for the whole query

The guard was a temporary, dropped at the end of its own statement, so a
query could run in the middle of an insert and see a half created index.
---
 src/chunk/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 5bfa9e9..8f4a092 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -142,7 +142,8 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<Vec<TimeSeries>> {
-        self.mutex
+        let _m = self
+            .mutex
             .read()
             .expect("Poisoned mutex when try to read from chunk");
         if !is_duration_overlap(self.start_time, self.end_time, start_time, end_time) {
-- 
2.43.0


From 25981f4c42ac436b519a5ee55d91f25a224f1ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 02/50] fix: a series without samples in range no longer
 empties the whole chunk query

Storages answer OutOfRangeErr for such a series, and the query passed that
on for all of its candidates.
---
 src/chunk/chunk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 8f4a092..6c3417b 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -153,7 +153,12 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
 
         let mut res = Vec::new();
         for (id, metadata) in candidates {
-            let data = self.storage.read_time_series(id, start_time, end_time)?;
+            let data = match self.storage.read_time_series(id, start_time, end_time) {
+                Ok(data) => data,
+                // this series has nothing in the range, the others may
+                Err(OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => continue,
+                Err(err) => return Err(err),
+            };
             if data.len() == 0 {
                 continue; //skip empty series
             }
-- 
2.43.0


From 7119290f826b528b5a3473ea1f45f3414c2a88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 03/50] fix: report a failed write to an existing series

The storage's error was dropped and the insert acknowledged.
---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 6c3417b..bebcacb 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -130,7 +130,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         } else {
             //only one, skip the choose process
             self.storage
-                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value);
+                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value)?;
         }
 
         Ok(())
-- 
2.43.0


From 79ee7d7f203601154e1bb64b498228005e2b4857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 04/50] fix: a chunk accepts samples at both ends of its window

write_time_points offers the chunk the timestamps equal to its start and its
end; the chunk refused them, which failed the whole batch.
---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index bebcacb..f410577 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -177,7 +177,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
     }
 
     fn is_in_range(&self, timestamp: &Timestamp) -> bool {
-        return self.start_time < *timestamp && self.end_time > *timestamp;
+        return self.start_time <= *timestamp && self.end_time >= *timestamp;
     }
 }
 
-- 
2.43.0


From 89bb144369c7b2dd0748e7c60c86d6e0f4d3ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 05/50] fix: compute a chunk's default end time only when it is
 needed

The addition overflowed for a late start time even when an end was given.
---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index f410577..194c105 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -89,7 +89,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
             mutex: RwLock::new(()),
             end_time: ops
                 .end_time
-                .unwrap_or(start_time + DEFAULT_CHUNK_SIZE.parse::<Timestamp>().unwrap()),
+                .unwrap_or_else(|| start_time + DEFAULT_CHUNK_SIZE.parse::<Timestamp>().unwrap()),
             closed: AtomicBool::new(false),
             id_generator: IdGenerator::new(1),
         }
-- 
2.43.0


From 16d44b36b9e5621f3d6e05cc1e197e0b7e2f470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 06/50] fix: a query sees a chunk swap either entirely or not
 at all

The stale chunk was listed as a previous one before it stopped being the
current one, and a query read the two separately: it could return the
samples of that chunk twice.
---
 src/db.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 5208abb..fb4eaeb 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -208,9 +208,11 @@ where
         let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
         let res_ref = &mut res;
         //insert in reverse time order in order to quickly append vec
+        // hold the current chunk until the previous ones are read, so that a swap in between
+        // cannot move it there and have it read twice
+        let _c = &self.current_chuck.read().unwrap();
         {
             //check current chunk
-            let _c = &self.current_chuck.read().unwrap();
             let _res = _c.query(labels.clone(), start_time, end_time);
             if _res.is_ok() {
                 for ref t in _res.unwrap() {
@@ -303,12 +305,9 @@ where
         );
 
         let chunk = Chunk::<S, I>::new(storage, indexer, &chunk_opt);
-        {
-            let stale = self.current_chuck.read().unwrap();
-            self.secondary_chunks.write().unwrap().push(stale.clone());
-        }
         {
             let mut current = self.current_chuck.write().unwrap(); //will also block all read util swap finish
+            self.secondary_chunks.write().unwrap().push(current.clone());
             let (_, end_time) = current.start_end_time();
             info!("The old chunk with end time {} is closing", end_time);
             current.close(); //close the stale one
-- 
2.43.0


From 46fe06b7dbd79c5acd011b926a0cddae7a296cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 07/50] fix: a query fails when a chunk could not be read

The error was dropped, and an incomplete answer returned as a success.
---
 src/db.rs | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index fb4eaeb..166323e 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -213,15 +213,13 @@ where
         let _c = &self.current_chuck.read().unwrap();
         {
             //check current chunk
-            let _res = _c.query(labels.clone(), start_time, end_time);
-            if _res.is_ok() {
-                for ref t in _res.unwrap() {
+            if _c.is_with_range(start_time, end_time) {
+                for ref t in _c.query(labels.clone(), start_time, end_time)? {
                     res_ref.insert(
                         t.meta_data().clone(),
                         t.time_points().clone().into_iter().rev().collect(),
                     );
                 }
-            } else {
             }
         };
         {
@@ -229,25 +227,21 @@ where
             let chunks = &self.secondary_chunks.read().unwrap();
             for _c in chunks.iter().rev() {
                 if _c.is_with_range(start_time, end_time) {
-                    let _res = _c.query(labels.clone(), start_time, end_time);
-                    if _res.is_ok() {
-                        for ref t in _res.unwrap() {
-                            let mut current_val = t
-                                .time_points()
-                                .clone()
-                                .into_iter()
-                                .rev()
-                                .collect::<Vec<TimePoint>>();
-                            match res_ref.get_mut(t.meta_data()) {
-                                Some(val) => {
-                                    val.append(&mut current_val);
-                                }
-                                None => {
-                                    res_ref.insert(t.meta_data().clone(), current_val);
-                                }
-                            };
-                        }
-                    } else {
+                    for ref t in _c.query(labels.clone(), start_time, end_time)? {
+                        let mut current_val = t
+                            .time_points()
+                            .clone()
+                            .into_iter()
+                            .rev()
+                            .collect::<Vec<TimePoint>>();
+                        match res_ref.get_mut(t.meta_data()) {
+                            Some(val) => {
+                                val.append(&mut current_val);
+                            }
+                            None => {
+                                res_ref.insert(t.meta_data().clone(), current_val);
+                            }
+                        };
                     }
                 };
             }
-- 
2.43.0


From f4e9668bdb3d9ae749fa7d8b3256a09fa442f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 08/50] fix: keep the samples of a reopened chunk that lie
 after the reopening

The window of a chunk that was current when the database stopped was cut
at the time of the reopening, which hid the later samples it had accepted.
Windows of chunks may overlap then, so a query sorts what it merged.
---
 src/db.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 166323e..32d8117 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -144,14 +144,8 @@ where
                     // Read Chunk Options from metadata.json
                     let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
-                    let current_time = get_current_timestamp();
                     chunk_opts.start_time = Some(start_time);
-                    // reset end time is necessary
-                    chunk_opts.end_time = Some(if end_time > current_time {
-                        current_time
-                    } else {
-                        end_time
-                    });
+                    chunk_opts.end_time = Some(end_time);
 
                     let storage = storage_builder
                         .read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;
@@ -253,10 +247,9 @@ where
             .filter(|o| o.is_some())
             .map(|o| o.unwrap())
             .map(|(labels, points)| {
-                (
-                    labels.clone(),
-                    points.iter().cloned().rev().collect::<Vec<TimePoint>>(),
-                )
+                let mut points = points.iter().cloned().rev().collect::<Vec<TimePoint>>();
+                points.sort_by_key(|point| point.timestamp); // chunks may overlap
+                (labels.clone(), points)
             })
             .collect();
         Ok(res_vec)
-- 
2.43.0


From 86ecd426bf95dd954f6699d6b86a4643db5729ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 09/50] fix: find the chunks of a database whose path is not
 ASCII

The directory name was cut out of the path by a byte offset used as a
character offset, so no chunk was recognised and all data was ignored.
---
 src/db.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 32d8117..0d3db4d 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -131,18 +131,14 @@ where
     ) -> Result<Vec<Arc<Chunk<S, I>>>> {
         let mut res = Vec::new();
         for entry in fs::read_dir(dir)? {
-            let path_str = entry?.path().into_os_string().into_string().unwrap();
-            let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
-            let dir_name = path_str.clone();
-            let dir_name = dir_name
-                .chars()
-                .skip(_slash)
-                .take(dir_name.len() - _slash)
-                .collect();
+            let path = entry?.path();
+            let dir_name = path
+                .file_name()
+                .map(|name| name.to_string_lossy().into_owned())
+                .unwrap_or_default();
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
-                    let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
                     chunk_opts.start_time = Some(start_time);
                     chunk_opts.end_time = Some(end_time);
-- 
2.43.0


From 625d295a26cc82d4439d599a2d9a870514b352fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 10/50] fix: open a database that has a directory entry named
 like a chunk but without options

A hexadecimal file name, or a chunk whose creation was cut short by a crash,
made every later start fail.
---
 src/db.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/db.rs b/src/db.rs
index 0d3db4d..fc652af 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -14,7 +14,9 @@ use crate::common::utils::{decode_chunk_dir, encode_chunk_dir, get_current_times
 use crate::indexer::Indexer;
 use crate::option::DbOpts;
 use crate::storage::Storage;
-use crate::{Builder, MonolithErr, Result, Timestamp, DB_METADATA_FILENAME};
+use crate::{
+    Builder, MonolithErr, Result, Timestamp, CHUNK_METADATA_FILENAME, DB_METADATA_FILENAME,
+};
 use std::fs::File;
 use std::io::BufWriter;
 
@@ -139,6 +141,9 @@ where
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
+                    if !path.join(CHUNK_METADATA_FILENAME).exists() {
+                        continue; // not a chunk, or one whose creation was interrupted
+                    }
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
                     chunk_opts.start_time = Some(start_time);
                     chunk_opts.end_time = Some(end_time);
-- 
2.43.0


From 733763d7dcf1c30ad489b56f877ea6cbd7ab9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 11/50] fix: write the metadata files of the database and of a
 chunk in one step

A crash while one was being written left an incomplete file, and the
database could not be opened again.
---
 src/chunk/chunk.rs  |  8 ++------
 src/common/utils.rs | 11 +++++++++++
 src/db.rs           | 10 ++++------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 194c105..c1a1c7c 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -1,7 +1,7 @@
 use crate::common::label::Labels;
 use crate::common::time_point::TimePoint;
 use crate::common::time_series::TimeSeries;
-use crate::common::utils::{get_current_timestamp, is_duration_overlap};
+use crate::common::utils::{get_current_timestamp, is_duration_overlap, write_json_file};
 use crate::common::IdGenerator;
 use crate::{MonolithErr, Result, Timestamp, CHUNK_METADATA_FILENAME, DEFAULT_CHUNK_SIZE};
 
@@ -15,8 +15,6 @@ use std::sync::RwLock;
 
 use serde::{Deserialize, Serialize};
 use std::fs;
-use std::fs::File;
-use std::io::BufWriter;
 
 /// ChunkOps contains all options for chunk
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -47,9 +45,7 @@ impl ChunkOpts {
         // only write when start time and end time is not null
         if self.start_time.is_some() && self.end_time.is_some() {
             std::fs::create_dir_all(dir)?;
-            let file = File::create(dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;
-            let mut writer = BufWriter::new(file);
-            serde_json::to_writer(&mut writer, &self.clone());
+            write_json_file(&dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)), &self)?;
         }
         Ok(())
     }
diff --git a/src/common/utils.rs b/src/common/utils.rs
index 9f9c33e..9b68d32 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -2,6 +2,7 @@ use crate::ops::OrderIntersect;
 use crate::time_series::TimeSeriesId;
 use crate::{MonolithErr, Result, Timestamp};
 use std::fs::File;
+use std::io::Write;
 use std::ops::Index;
 use std::path::Path;
 use std::sync::mpsc::{channel, Receiver, Sender, TryRecvError};
@@ -127,6 +128,16 @@ pub fn intersect_time_series_id_vec(mut ts: Vec<Vec<TimeSeriesId>>) -> Result<Ve
     }
 }
 
+/// Write a value as JSON so that the file either has all of it or is not there at all
+pub(crate) fn write_json_file<T: serde::Serialize>(path: &Path, value: &T) -> Result<()> {
+    let temp_path = path.with_extension("tmp");
+    let mut file = File::create(&temp_path)?;
+    file.write_all(serde_json::to_string(value)?.as_bytes())?;
+    file.sync_all()?;
+    fs::rename(&temp_path, path)?;
+    Ok(())
+}
+
 /// Read file from dir, filename must be constant
 ///
 /// Return None if no such file found
diff --git a/src/db.rs b/src/db.rs
index fc652af..c6dd8a5 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -10,15 +10,15 @@ use crate::common::label::Labels;
 use crate::common::metadata::DbMetadata;
 use crate::common::time_point::TimePoint;
 use crate::common::time_series::LabelPointPairs;
-use crate::common::utils::{decode_chunk_dir, encode_chunk_dir, get_current_timestamp};
+use crate::common::utils::{
+    decode_chunk_dir, encode_chunk_dir, get_current_timestamp, write_json_file,
+};
 use crate::indexer::Indexer;
 use crate::option::DbOpts;
 use crate::storage::Storage;
 use crate::{
     Builder, MonolithErr, Result, Timestamp, CHUNK_METADATA_FILENAME, DB_METADATA_FILENAME,
 };
-use std::fs::File;
-use std::io::BufWriter;
 
 /// MonolithDb is thread-safe
 pub struct MonolithDb<S: Storage, I: Indexer>
@@ -117,9 +117,7 @@ where
                 return Err(MonolithErr::OptionErr);
             }
         } else {
-            let file = File::create(base_dir.join(DB_METADATA_FILENAME))?;
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, db_metadata)?;
+            write_json_file(&base_dir.join(DB_METADATA_FILENAME), db_metadata)?;
         }
 
         Ok(())
-- 
2.43.0


From e73e8e3a47f450de5433158ce845de95ac203f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 12/50] fix: a label no series has selects nothing

Both indexers left such a label out of the selection and answered with the
series that have the other labels.  The TiKV indexer did the same with a
label it failed to read.
---
 src/indexer/sled_indexer.rs |  6 ++++--
 src/indexer/tikv_indexer.rs | 29 +++++++++++++----------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 0beeccc..064dc79 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -87,8 +87,10 @@ impl Indexer for SledIndexer {
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         let mut ts_vec = Vec::new();
         for label in labels.vec() {
-            if let Some(ts) = self.get_id(label)? {
-                ts_vec.push(ts as Vec<TimeSeriesId>);
+            match self.get_id(label)? {
+                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),
+                // no series has this label
+                None => return Ok(Vec::new()),
             }
         }
 
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c9b0449..ec8a212 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -69,22 +69,19 @@ impl Indexer for TiKvIndexer {
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         // Get raw value from tikv
-        let query_res = labels
-            .vec()
-            .into_iter()
-            .map(|label| {
-                self.add_indexer_id(
-                    KvIndexerProcessor::encode_label(label)
-                        .into_bytes()
-                        .as_mut(),
-                )
-            })
-            .map(|key| self.client.get(key)) //todo: error handling
-            .filter(|res| res.is_ok())
-            .map(|res| res.unwrap())
-            .filter(|res| res.is_some())
-            .map(|res| res.unwrap())
-            .collect::<Vec<Vec<u8>>>();
+        let mut query_res: Vec<Vec<u8>> = vec![];
+        for label in labels.vec() {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_label(label)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            match self.client.get(key)? {
+                Some(val) => query_res.push(val),
+                // no series has this label
+                None => return Ok(vec![]),
+            }
+        }
         // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
         for val in query_res {
-- 
2.43.0


From f1f5b85c433e6635b220d3970b6b0dfdd2124f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 13/50] fix: a selection fails when TiKV could not be read

Series whose labels could not be read or decoded were left out of an answer
that looked complete.
---
 src/indexer/tikv_indexer.rs | 46 +++++++++++--------------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index ec8a212..8cb4520 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -32,39 +32,19 @@ impl Indexer for TiKvIndexer {
     ) -> Result<Vec<(TimeSeriesId, Labels)>> {
         let ids = self.get_series_id_contains_labels(labels.clone())?;
 
-        //todo: refactor this.
-        Ok(ids
-            .iter()
-            // Convert into keys
-            .map(|id| {
-                (
-                    *id,
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_time_series_id(*id)
-                            .into_bytes()
-                            .as_mut(),
-                    ),
-                )
-            })
-            // Get raw value from db store
-            .map(|(id, key)| (id, self.client.get(key)))
-            // Choose the valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap the valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            // Choose the one with value
-            .filter(|(_id, option)| option.is_some())
-            // Unwrap value
-            .map(|(id, option)| (id, option.unwrap()))
-            // Convert Vec<u8> into String
-            .map(|(id, raw)| (id, String::from_utf8_lossy(raw.as_slice()).to_string()))
-            // Convert String into labels
-            .map(|(id, raw)| (id, KvIndexerProcessor::decode_labels(raw, false)))
-            // Choose valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            .collect())
+        let mut res = vec![];
+        for id in ids {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_time_series_id(id)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            if let Some(raw) = self.client.get(key)? {
+                let labels = KvIndexerProcessor::decode_labels(String::from_utf8(raw)?, false)?;
+                res.push((id, labels));
+            }
+        }
+        Ok(res)
     }
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
-- 
2.43.0


From 99db1c242be0e4c0c2dfd235ffc2512b2bd02828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 14/50] fix: creating an index reports its failures, and can be
 retried

Errors of the store were dropped, so samples of a series nobody can find
were acknowledged.  The entry that marks a series as known is written last.
---
 src/indexer/sled_indexer.rs | 10 ++++----
 src/indexer/tikv_indexer.rs | 46 ++++++++++++++-----------------------
 2 files changed, 23 insertions(+), 33 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 064dc79..87226cb 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -119,13 +119,12 @@ impl Indexer for SledIndexer {
                 "Duplicate label => id pair found in storage".to_string(),
             ));
         }
-        tree.set(label_key, format!("{}", time_series_id).into_bytes());
 
         // from time series to label set
         tree.set(
             KvIndexerProcessor::encode_time_series_id(time_series_id),
             KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-        );
+        )?;
 
         // from label to time series ids
         let keys: Vec<String> = labels
@@ -141,10 +140,13 @@ impl Indexer for SledIndexer {
                     format!("{},{}", val_str, time_series_id)
                 }
             };
-            tree.set(&key, val.into_bytes());
-            tree.flush();
+            tree.set(&key, val.into_bytes())?;
         }
 
+        // last, so that a series that was only indexed in part is indexed again by the next write
+        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
+        tree.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 8cb4520..410b62d 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -99,43 +99,31 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-            );
+            )?;
+        }
+
+        {
+            // Create Reverse Search
+            for label in labels.vec() {
+                let key = self.add_indexer_id(
+                    KvIndexerProcessor::encode_label(label)
+                        .into_bytes()
+                        .as_mut(),
+                );
+                let mut val = self.client.get(key.clone())?.unwrap_or_default();
+                val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
+                self.client.set(key, val)?;
+            }
         }
 
         {
             //Create map between full label set to time series id
+            //last, so that a series that was only indexed in part is indexed again by the next write
             let key = KvIndexerProcessor::encode_labels(&labels, true);
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 Vec::from(&time_series_id.to_be_bytes()[..]),
-            );
-        }
-
-        {
-            // Create Reverse Search
-            labels
-                .vec()
-                .iter()
-                .map(|label| {
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_label(label)
-                            .into_bytes()
-                            .as_mut(),
-                    )
-                })
-                .map(|key| (key.clone(), self.client.get(key.to_vec())))
-                .filter(|(_key, res)| res.is_ok())
-                .map(|(key, res)| match res.unwrap() {
-                    Some(mut val) => {
-                        val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
-                        self.client.set(key.clone(), val);
-                    }
-                    None => {
-                        self.client
-                            .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..]));
-                    }
-                })
-                .collect::<Vec<()>>();
+            )?;
         }
 
         Ok(())
-- 
2.43.0


From cfe4129339020ca39e8b6ada122ba85fa6c8c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 15/50] fix: report a failed append to a series in sled

---
 src/storage/sled_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index d03587a..2f7fe65 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -70,7 +70,7 @@ impl Storage for SledStorage {
         if let Some(current_val) = tree.get(key_name.clone())? {
             let mut current_val_bytes = current_val.to_vec();
             current_val_bytes.append(&mut value);
-            tree.set(key_name.clone(), current_val_bytes);
+            tree.set(key_name.clone(), current_val_bytes)?;
         } else {
             tree.set(key_name.clone(), value)?;
         }
-- 
2.43.0


From e968f60da162e9041129516c37be0700b6e65bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 16/50] fix: label values may contain commas and backslashes

The comma separates the labels of a series in its index entries.  A value
with a comma made the series unreadable, or the same as another series.
---
 src/indexer/sled_indexer.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 87226cb..3e00468 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -258,8 +258,28 @@ mod tests {
 pub(crate) struct KvIndexerProcessor {}
 
 impl KvIndexerProcessor {
+    /// Label pairs are separated by `,`, thus it is escaped within a label value
     fn _encode_label(label: &Label) -> String {
-        format!("{}={}", label.key(), label.value())
+        let value = label.value().replace('\\', "\\\\").replace(',', "\\,");
+        format!("{}={}", label.key(), value)
+    }
+
+    /// Split at the `,` that separate label pairs, and remove the escapes
+    fn _split_labels(labels_str: &str) -> Vec<String> {
+        let mut pairs = vec![String::new()];
+        let mut chars = labels_str.chars();
+        while let Some(c) = chars.next() {
+            let escaped = match c {
+                ',' => {
+                    pairs.push(String::new());
+                    continue;
+                }
+                '\\' => chars.next(),
+                _ => None,
+            };
+            pairs.last_mut().unwrap().push(escaped.unwrap_or(c));
+        }
+        pairs
     }
 
     /// encode single label as key
@@ -301,7 +321,7 @@ impl KvIndexerProcessor {
         if is_key {
             _labels_str.replace_range(..LABEL_PREFIX.len(), "");
         }
-        let pairs: Vec<&str> = _labels_str.split(",").collect();
+        let pairs = KvIndexerProcessor::_split_labels(&_labels_str);
         let mut res = Vec::new();
         for pair in pairs {
             // Per Prometheus doc https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels
-- 
2.43.0


From 03b4e6d146fbc5e62de1892a5a5f297104864084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 17/50] fix: keep the index entries of label names that start
 with R apart

The key of the label set Rjob=x was that of the reverse index of job=x: one
overwrote the other, and with TiKV reading it back panicked.
---
 src/indexer/sled_indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 3e00468..2daf202 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -307,6 +307,10 @@ impl KvIndexerProcessor {
         }
         res.pop(); //remove last ,
         if with_prefix {
+            if res.starts_with('R') {
+                // LR starts the keys of the reverse index, see encode_label
+                res.insert(0, '\\');
+            }
             res.insert_str(0, LABEL_PREFIX);
         }
         res
-- 
2.43.0


From 4eb0637a1eb6c8459b46d0051255af92f22adfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 18/50] fix: trimming a series to a range is exact

Binary search ended at any one of several samples with the same timestamp,
and a range between two samples or an inverted one panicked.
---
 src/storage/common.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/storage/common.rs b/src/storage/common.rs
index 1fbdead..21df2b0 100644
--- a/src/storage/common.rs
+++ b/src/storage/common.rs
@@ -34,17 +34,10 @@ pub trait Storage: Sized + HasTypeName {
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<Vec<TimePoint>> {
-        //series should already sorted
-        let left = match series.binary_search(&TimePoint::new(start_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx,
-        };
-        let right = match series.binary_search(&TimePoint::new(end_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx - 1,
-        };
-        let res = &series[left..=right];
-        Ok(Vec::from(res))
+        Ok(series
+            .into_iter()
+            .filter(|point| point.timestamp >= start_time && point.timestamp <= end_time)
+            .collect())
     }
 }
 
-- 
2.43.0


From 38ed4c3a7b909e8ecd29be6a00950f8af285173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 19/50] fix: read a series from sled in time order

Samples may arrive out of order and are stored as they come, but the range
check, and the users, take the series for sorted.
---
 src/storage/sled_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index 2f7fe65..037ad85 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -49,6 +49,8 @@ impl SledStorage {
                 {
                     res.push(KvStorageProcessor::decode_time_point(timepoint_bytes)?);
                 }
+                // time points are stored as they came
+                res.sort();
 
                 return Ok(Some(res));
             }
-- 
2.43.0


From f72ebe66899d3e656c36e485201c71023d2aa97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 20/50] fix: keep the identifiers of both components of a chunk
 in TiKV

Each component's registration replaced the other's identifier, and the
identifiers it returned were not the recorded ones, so that a reopened
database found none of its data in TiKV.
---
 src/backend/tikv.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 3771225..43fb05f 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -20,16 +20,17 @@ pub trait TiKvRawBackend: Send + Sync {
             id
         });
         if is_indexer {
-            let mut indexer_id = Uuid::new_v4().as_bytes().to_vec();
-            indexer_id.append(value[..16].to_vec().as_mut());
-            self.set(chunk_identifier.clone(), indexer_id.clone());
+            let indexer_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = indexer_id.clone();
+            res.append(value[16..].to_vec().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(indexer_id)
         } else {
-            let mut storage_id = Uuid::new_v4().as_bytes().to_vec();
+            let storage_id = Uuid::new_v4().as_bytes().to_vec();
             let mut res = vec![];
-            res.append(value[16..].to_vec().as_mut());
-            res.append(storage_id.as_mut());
-            self.set(chunk_identifier.clone(), res);
+            res.append(value[..16].to_vec().as_mut());
+            res.append(storage_id.clone().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(storage_id)
         }
     }
-- 
2.43.0


From 0c020f41521bea800ee19b37944bfcdfe1a3707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 21/50] fix: label sets of different lengths are different

The comparison looked at as many labels as the left one has: it took a
prefix for equal, and panicked when the right one was shorter.
---
 src/common/label.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/common/label.rs b/src/common/label.rs
index 47151f0..771601f 100644
--- a/src/common/label.rs
+++ b/src/common/label.rs
@@ -98,12 +98,7 @@ impl Eq for Labels {}
 
 impl PartialEq for Labels {
     fn eq(&self, other: &Self) -> bool {
-        for i in 0..self.len() {
-            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
-                return false;
-            }
-        }
-        true
+        self.0 == other.0
     }
 }
 
-- 
2.43.0


From 47fb1373c1ad88760fb6f6c401ed810ef4f76585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 22/50] fix: time points with different values are different

One of the two conditions that were combined with or is always true.
---
 src/common/time_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/time_point.rs b/src/common/time_point.rs
index 2150cd9..ad28867 100644
--- a/src/common/time_point.rs
+++ b/src/common/time_point.rs
@@ -22,7 +22,7 @@ impl Eq for TimePoint {}
 impl PartialEq for TimePoint {
     fn eq(&self, other: &Self) -> bool {
         self.timestamp.eq(&other.timestamp)
-            && (self.value - other.value < F64_MARGIN || other.value - self.value < F64_MARGIN)
+            && (self.value == other.value || (self.value - other.value).abs() < F64_MARGIN)
     }
 }
 
-- 
2.43.0


From fd9714c4f0f5c2e97aec2013bafbbcc3f4caefe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 23/50] fix: a request whose body cannot be read or
 decompressed does not stop the server

---
 src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 45f924a..b5fb6cf 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -65,9 +65,20 @@ where
     fn _process(server: MonolithServer<S, I>, mut request: Request) {
         //Convert request content to protobuf coded format
         let mut content = Vec::new();
-        request.as_reader().read_to_end(&mut content).unwrap();
+        if let Err(err) = request.as_reader().read_to_end(&mut content) {
+            error!("Cannot read the content of a request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
         let mut decoder = snap::raw::Decoder::new();
-        let _content = decoder.decompress_vec(content.as_slice()).unwrap();
+        let _content = match decoder.decompress_vec(content.as_slice()) {
+            Ok(content) => content,
+            Err(err) => {
+                error!("Cannot decompress the content of a request, {}", err);
+                request.respond(Response::empty(400));
+                return;
+            }
+        };
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
 
-- 
2.43.0


From dc3ca895afc005310e8573728923a07d8b840ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 24/50] fix: refuse a write request that cannot be decoded

What had been decoded before the error was written, and all of it
acknowledged.
---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index b5fb6cf..462bda5 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -124,7 +124,11 @@ where
             }
             (_, write_path) if write_path == server.write_path => {
                 let mut write_req = WriteRequest::new();
-                write_req.merge_from(&mut input_stream);
+                if let Err(err) = write_req.merge_from(&mut input_stream) {
+                    error!("Cannot read content from write request {}", err);
+                    request.respond(Response::empty(400));
+                    return;
+                }
                 match server.write(write_req) {
                     Ok(_) => {
                         request.respond(Response::empty(200));
-- 
2.43.0


From b0ac7f363110553f0fdd279b7a58100ae672d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 25/50] fix: answer a read request with an error when a query
 failed

The failed query's result was replaced by an empty one.
---
 src/server.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 462bda5..226c1f6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -151,8 +151,9 @@ where
                 read_rq
                     .queries
                     .iter()
-                    .map(|q| {
-                        self.db
+                    .map(|q| -> Result<Vec<crate::proto::TimeSeries>> {
+                        Ok(self
+                            .db
                             .query(
                                 Labels::from_vec(
                                     q.matchers
@@ -162,21 +163,19 @@ where
                                 ),
                                 q.start_timestamp_ms as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
-                            )
-                            .ok()
-                            .unwrap_or(Vec::new())
+                            )?
                             .iter()
                             .map(crate::proto::TimeSeries::from)
-                            .collect::<Vec<crate::proto::TimeSeries>>()
+                            .collect::<Vec<crate::proto::TimeSeries>>())
                     })
-                    .map(|v: Vec<crate::proto::TimeSeries>| -> QueryResult {
-                        QueryResult {
-                            timeseries: RepeatedField::from(v),
+                    .map(|v| -> Result<QueryResult> {
+                        Ok(QueryResult {
+                            timeseries: RepeatedField::from(v?),
                             unknown_fields: Default::default(),
                             cached_size: Default::default(),
-                        }
+                        })
                     })
-                    .collect::<Vec<crate::proto::QueryResult>>(),
+                    .collect::<Result<Vec<crate::proto::QueryResult>>>()?,
             ),
             unknown_fields: Default::default(),
             cached_size: Default::default(),
-- 
2.43.0


From 71600dd7ef4d37b62d1741a9f01aaef60423e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 26/50] fix: a query may start before 1970

A negative start, which Prometheus sends for an unbounded range, became one
in the far future and the result was empty.
---
 src/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 226c1f6..fb09245 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -161,8 +161,8 @@ where
                                         .map(Label::from_label_matcher)
                                         .collect::<Vec<Label>>(),
                                 ),
-                                q.start_timestamp_ms as Timestamp,
-                                q.end_timestamp_ms as Timestamp,
+                                q.start_timestamp_ms.max(0) as Timestamp,
+                                q.end_timestamp_ms.max(0) as Timestamp,
                             )?
                             .iter()
                             .map(crate::proto::TimeSeries::from)
-- 
2.43.0


From 4387481fe5fc3394d8aff7855b46dfd8c3aff346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 27/50] fix: serve requests on all workers

The loop waited for each request to be answered before it took the next, so
one slow client held up all others, and a panic ended the server.
---
 src/server.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index fb09245..4c8b022 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -49,15 +49,18 @@ where
         let server = Server::http(addr).unwrap();
 
         let workers = rayon::ThreadPoolBuilder::new()
-            .num_threads(self.worker_num)
+            // one more, which hands out the requests
+            .num_threads(self.worker_num.max(1) + 1)
             .build()
             .unwrap();
 
-        for request in server.incoming_requests() {
-            let server = self.clone();
-            //do we need a context and a time out in case some thread stuck for some reason?
-            workers.install(move || MonolithServer::_process(server, request));
-        }
+        workers.scope(|scope| {
+            for request in server.incoming_requests() {
+                let server = self.clone();
+                //do we need a context and a time out in case some thread stuck for some reason?
+                scope.spawn(move |_| MonolithServer::_process(server, request));
+            }
+        });
 
         Ok(())
     }
-- 
2.43.0


From 7df19c6cb20bfd8bf29538341a2d2f108cd19e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 28/50] fix: compact values whose xor has many leading zeros or
 64 significant bits

The number of leading zeros has 5 bits and the number of significant bits
has 6: larger ones were cut off and the values came back different.
---
 src/compaction/gorilla.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 90cbc1b..55fcd67 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -101,7 +101,8 @@ impl GorillaCompactor {
             } else {
                 // single one bit
                 self.bstream.write_one();
-                let leading: u8 = xord.leading_zeros() as u8;
+                // it has to fit into 5 bits
+                let leading: u8 = xord.leading_zeros().min(31) as u8;
                 let trailing: u8 = xord.trailing_zeros() as u8;
                 if self.len > 1 && leading >= self.leading && trailing >= self.tailing {
                     self.bstream.write_zero(); // write 10
@@ -117,6 +118,7 @@ impl GorillaCompactor {
                                               // Use the next 5 bits to store len of leading zeros
                     self.bstream.write_bits((leading as u64).to_be_bytes(), 5);
 
+                    // 64 does not fit into 6 bits and is written as 0, which is not possible otherwise
                     let sigbits = value_size as u8 - leading - trailing;
                     self.bstream.write_bits((sigbits as u64).to_be_bytes(), 6);
                     self.bstream
@@ -208,7 +210,13 @@ impl GorillaDecompactor {
             if l != 6 {
                 return None;
             }
-            let sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            let sig_len = match sigbits_len[0] >> 2 {
+                0 => value_size as u8,
+                sig_len => sig_len,
+            };
+            if leading + sig_len > value_size as u8 {
+                return None;
+            }
 
             let tailing = value_size as u8 - sig_len - leading;
 
-- 
2.43.0


From 72bab95e05029052f69495432a02ee3820e4b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 29/50] fix: compact timestamps at the ends of the ranges, and
 decreasing ones

The upper end of each range was one too high for its two's complement, the
last one was not even computed in 64 bits, and a timestamp before its
predecessor overflowed.
---
 src/compaction/gorilla.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 55fcd67..3687c50 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -51,14 +51,14 @@ impl GorillaCompactor {
             // second comporessed timestamp should be delta between the first timestamp in time stream and the aligned start time
             // Again, in Prometheus, Instead of using 14 bits to store. They use the delta between first and second timestamp as the second compressed timestamp
             // Again, we follow prometheus' idea
-            let t_delta = (tp.timestamp - self.t) as i64;
+            let t_delta = tp.timestamp.wrapping_sub(self.t) as i64;
             self.bstream.append_bytes(&t_delta.to_be_bytes(), 0);
             self.compact_value(&tp.value);
 
             self.d = t_delta;
         } else {
-            let t_delta: i64 = (tp.timestamp - self.t) as i64;
-            let dod = t_delta - self.d;
+            let t_delta: i64 = tp.timestamp.wrapping_sub(self.t) as i64;
+            let dod = t_delta.wrapping_sub(self.d);
 
             self.d = t_delta;
 
@@ -252,22 +252,26 @@ impl GorillaDecompactor {
         }
         match range {
             8 => {
-                self.d = i8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                let dod = i8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64;
+                self.d = dod.wrapping_add(self.d);
             }
             16 => {
-                self.d = i16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                let dod = i16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64;
+                self.d = dod.wrapping_add(self.d);
             }
             32 => {
-                self.d = i32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                let dod = i32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64;
+                self.d = dod.wrapping_add(self.d);
             }
             64 => {
-                self.d = i64::from_be_bytes(bytes.as_slice().try_into().unwrap()) + self.d;
+                let dod = i64::from_be_bytes(bytes.as_slice().try_into().unwrap());
+                self.d = dod.wrapping_add(self.d);
             }
             _ => {
                 // should never been here.
             }
         }
-        let timestamp = self.t + self.d as u64;
+        let timestamp = self.t.wrapping_add(self.d as u64);
         Some(timestamp)
     }
 }
@@ -310,7 +314,7 @@ impl Iterator for GorillaDecompactor {
             }
 
             let delta = i64::from_be_bytes(delta_v.as_slice().try_into().unwrap());
-            let timestamp = delta + self.t as i64;
+            let timestamp = delta.wrapping_add(self.t as i64);
 
             self.d = delta;
             self.t = timestamp as u64;
@@ -333,7 +337,7 @@ impl Iterator for GorillaDecompactor {
             let mut timestamp = 0;
             if dod_flag_byte & 0b10000000 == 0 {
                 // dod == 0
-                timestamp = self.t + self.d as u64;
+                timestamp = self.t.wrapping_add(self.d as u64);
                 self.source
                     .reset_cursor(self.source.get_cursor() + (4 - l) - 3);
             } else if dod_flag_byte & 0b11000000 == 0b10000000 {
@@ -401,7 +405,8 @@ fn vec_with_len(len: usize) -> Vec<u8> {
 
 // Find if the timestamp's meaningful in the `nbit` range.
 fn in_bit_range(t: i64, nbits: u8) -> bool {
-    return -((1 << (nbits - 1)) - 1) as i64 <= t && t <= 1 << (nbits - 1) as i64;
+    let limit = 1i64 << (nbits - 1);
+    return -limit <= t && t < limit;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 27010786476c82e3c45b2d5c35f4d1ccfa8b1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 30/50] fix: the compaction without compaction keeps the time
 points

compact_vec returned only the tag, and reading split the bytes into pieces
of 72 instead of 16.
---
 src/compaction/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index b3b3fcd..ab2cbb2 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -100,10 +100,11 @@ impl Compactor {
                 vec.push(CompactType::Gorilla as u8);
                 vec
             }
-            &mut Compactor::None(ref _v) => {
-                let mut vec = _v.clone();
-                vec.push(CompactType::None as u8);
-                vec
+            &mut Compactor::None(_) => {
+                for tp in data {
+                    self.compact(&tp);
+                }
+                self.get_bytes_vec()
             }
         }
     }
@@ -165,7 +166,10 @@ impl Decompactor {
             &mut Decompactor::Gorilla(ref decompactor) => Ok(Vec::from_iter(decompactor.clone())),
             &mut Decompactor::None(ref _v) => {
                 let timepoint_size =
-                    std::mem::size_of::<Timestamp>() * 8 + std::mem::size_of::<Value>();
+                    std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
+                if _v.len() % timepoint_size != 0 {
+                    return Err(MonolithErr::InternalErr("Incomplete time point".into()));
+                }
                 let mut res = vec![];
                 for _b in _v.chunks(timepoint_size) {
                     let (timestamp_bytes, value_bytes) =
-- 
2.43.0


From 69150a869b3ed8116c3e03587a5184f694030da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 31/50] fix: refuse compacted data with an impossible number of
 bits

Reading it panicked.
---
 src/compaction/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index ab2cbb2..6ad2fdf 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -144,6 +144,9 @@ impl Decompactor {
                     ));
                 }
                 let bstream = Bstream::from_bytes(data);
+                if bstream.remaining > 7 || (bstream.data.is_empty() && bstream.remaining > 0) {
+                    return Err(MonolithErr::InternalErr("Wrong number of bits".into()));
+                }
                 let decompactor = GorillaDecompactor::new(bstream);
                 Ok(Decompactor::Gorilla(decompactor))
             }
-- 
2.43.0


From 9f640193a99f7fefe95a9419c201e863207be17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 32/50] fix: the write ahead log writes whole entries and
 reports failures

Cached entries were written without their header and checksum, a short
write lost the rest, and errors of the flush were dropped.
---
 src/wal/segment.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index dd31035..7ba7738 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -21,8 +21,9 @@ pub struct Segment<W: Write> {
 
 impl<W: Write> Write for Segment<W> {
     fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
-        self.crc.write(bytes); // update crc
-        self.writer.write(bytes)
+        let written = self.writer.write(bytes)?;
+        self.crc.write(&bytes[..written]); // update crc
+        Ok(written)
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
@@ -56,7 +57,7 @@ impl<W: Write> Write for Segment<W> {
 
         if remaining.len() > 0 {
             for entry in remaining {
-                self.write(entry.content.as_slice())?;
+                self.write_all(entry.get_bytes().as_slice())?;
             }
         }
 
@@ -70,8 +71,8 @@ impl<W> Segment<W>
 {
     pub fn new(flush_policy: FlushPolicy, mut writer: W) -> Result<Segment<W>> {
         // write magic number. Note that we don't include this when compute CRC
-        writer.write(&WAL_MAGIC_NUMBER.to_be_bytes()[..]);
-        writer.flush();
+        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;
+        writer.flush()?;
 
         Ok(Segment {
             writer,
@@ -102,15 +103,15 @@ impl<W> Segment<W>
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
         let _crc = self.crc.finish();
-        self.write(&_crc.to_be_bytes())?; // append crc result
+        self.write_all(&_crc.to_be_bytes())?; // append crc result
         Ok(())
     }
 
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
         match &mut self.cache {
             &mut FlushCache::None => {
-                self.write(entry.get_bytes().as_slice())?;
-                self.flush();
+                self.write_all(entry.get_bytes().as_slice())?;
+                self.flush()?;
             }
             &mut FlushCache::NumBased {
                 limit: ref size,
@@ -120,7 +121,7 @@ impl<W> Segment<W>
                 cache[*idx] = entry;
                 *idx += 1;
                 if idx == size {
-                    self.flush();
+                    self.flush()?;
                 }
             }
             &mut FlushCache::TimeBased { ref mut cache, .. } => {
@@ -134,7 +135,7 @@ impl<W> Segment<W>
                 let entry_len = entry.len();
                 cache.push(entry);
                 if *size + entry_len >= *limit {
-                    self.flush();
+                    self.flush()?;
                 } else {
                     *size += entry_len;
                 }
-- 
2.43.0


From 14ca3a812854f436f00ec6004c67323a1f971279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 33/50] fix: the write ahead log's caches keep their entries
 and are written on close

The first entry of a segment that flushes by number panicked, one that
flushes by time was never written, and closing dropped what was cached.
---
 src/wal/segment.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 7ba7738..10a5680 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -35,13 +35,10 @@ impl<W: Write> Write for Segment<W> {
                 ref mut cache,
             } => {
                 *idx = 0;
-                let _cache = cache.clone();
-                *cache = vec![Entry::default(); *size];
-                _cache
+                std::mem::replace(cache, Vec::with_capacity(*size))
             }
-            &mut FlushCache::TimeBased { .. } => {
-                // fixme and above
-                vec![]
+            &mut FlushCache::TimeBased { ref mut cache, .. } => {
+                std::mem::replace(&mut *cache.lock().unwrap(), vec![])
             }
             &mut FlushCache::SizeBased {
                 ref limit,
@@ -102,8 +99,10 @@ impl<W> Segment<W>
 
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
+        self.flush()?;
         let _crc = self.crc.finish();
         self.write_all(&_crc.to_be_bytes())?; // append crc result
+        self.flush()?;
         Ok(())
     }
 
@@ -118,9 +117,9 @@ impl<W> Segment<W>
                 ref mut idx,
                 ref mut cache,
             } => {
-                cache[*idx] = entry;
+                cache.push(entry);
                 *idx += 1;
-                if idx == size {
+                if *idx >= *size {
                     self.flush()?;
                 }
             }
-- 
2.43.0


From 49fd75b041875a7ad0c557a83133aa1384f23003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 34/50] fix: refuse entries that are too long for the write
 ahead log

Their length was cut to 16 bits, which made the rest of the log unreadable.
---
 src/wal/segment.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 10a5680..079cd19 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -1,5 +1,5 @@
 use crate::wal::{Entry, FlushCache, FlushPolicy, WalErr, WAL_MAGIC_NUMBER};
-use crate::Result;
+use crate::{MonolithErr, Result};
 use std::fs::File;
 use std::hash::Hasher;
 use std::io::Write;
@@ -107,6 +107,9 @@ impl<W> Segment<W>
     }
 
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
+        if entry.content.len() > u16::max_value() as usize {
+            return Err(MonolithErr::InternalErr("Entry is too long".into()));
+        }
         match &mut self.cache {
             &mut FlushCache::None => {
                 self.write_all(entry.get_bytes().as_slice())?;
-- 
2.43.0


From 3151831b485c336980819b262fcd3a83b7059c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 35/50] hook: make the write ahead log reachable with --cfg
 monolith_verif

---
 src/lib.rs     | 4 ++++
 src/wal/mod.rs | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index da5fcba..ca02397 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,7 +5,11 @@ use std::time::Duration;
 mod common;
 mod error;
 mod backend;
+#[cfg(not(monolith_verif))]
 mod wal;
+/// Reachable from outside for the verification harness only
+#[cfg(monolith_verif)]
+pub mod wal;
 
 pub mod compaction;
 pub mod chunk;
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 5f3a12f..358275b 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -5,6 +5,9 @@ use std::sync::{Arc, Mutex};
 mod segment;
 mod writer;
 
+#[cfg(monolith_verif)]
+pub use segment::Segment;
+
 /// Note that we only use the first three byte in this magic number
 /// User can still use the remaining 5 bytes to add more metadata
 /// Like WAL for different component
-- 
2.43.0


From ebb8e8ddb59fc64aacb478ab70c9868fc4538877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 36/50] fix: a label name with a separator in it does not spoil
 other reads

Such a name came back as a different label, or made every query that
selects the series fail.
---
 src/indexer/sled_indexer.rs | 38 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 2daf202..0258e31 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -258,26 +258,31 @@ mod tests {
 pub(crate) struct KvIndexerProcessor {}
 
 impl KvIndexerProcessor {
-    /// Label pairs are separated by `,`, thus it is escaped within a label value
+    /// Label pairs are separated by `,` and a name ends at the first `=`, thus they are escaped
     fn _encode_label(label: &Label) -> String {
-        let value = label.value().replace('\\', "\\\\").replace(',', "\\,");
-        format!("{}={}", label.key(), value)
+        let escape = |s: &String| s.replace('\\', "\\\\").replace(',', "\\,");
+        let key = escape(label.key()).replace('=', "\\=");
+        format!("{}={}", key, escape(label.value()))
     }
 
     /// Split at the `,` that separate label pairs, and remove the escapes
-    fn _split_labels(labels_str: &str) -> Vec<String> {
-        let mut pairs = vec![String::new()];
+    ///
+    /// Each pair comes with the position of the `=` that ends the label name
+    fn _split_labels(labels_str: &str) -> Vec<(String, Option<usize>)> {
+        let mut pairs = vec![(String::new(), None)];
         let mut chars = labels_str.chars();
         while let Some(c) = chars.next() {
-            let escaped = match c {
-                ',' => {
-                    pairs.push(String::new());
-                    continue;
+            let (pair, equal_idx) = pairs.last_mut().unwrap();
+            match c {
+                ',' => pairs.push((String::new(), None)),
+                '\\' => pair.push(chars.next().unwrap_or(c)),
+                _ => {
+                    if c == '=' && equal_idx.is_none() {
+                        *equal_idx = Some(pair.len());
+                    }
+                    pair.push(c)
                 }
-                '\\' => chars.next(),
-                _ => None,
-            };
-            pairs.last_mut().unwrap().push(escaped.unwrap_or(c));
+            }
         }
         pairs
     }
@@ -327,11 +332,8 @@ impl KvIndexerProcessor {
         }
         let pairs = KvIndexerProcessor::_split_labels(&_labels_str);
         let mut res = Vec::new();
-        for pair in pairs {
-            // Per Prometheus doc https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels
-            // Label name must match regex [a-zA-Z_][a-zA-Z0-9_]*
-            // Thus, we can always use the first = to split label name from label value
-            let equal_idx = pair.find("=").ok_or(MonolithErr::InternalErr(
+        for (pair, equal_idx) in pairs {
+            let equal_idx = equal_idx.ok_or(MonolithErr::InternalErr(
                 "Cannot parse label data".to_string(),
             ))?;
             let (key, value_with_equal) = pair.split_at(equal_idx);
-- 
2.43.0


From 10144ede0c25ed8845c528316822d010f4a9d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 37/50] fix: the README names the actual port, and the actual
 keys of the TiKV configuration

---
 README.md | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 924f603..16847b7 100644
--- a/README.md
+++ b/README.md
@@ -16,20 +16,20 @@ monolith-server [Options]
     -i   --indexer    type of indexer. Valid value <sled, tikv>
     -dir --file_dir   dictionary of to store the data from indexer and storage.
          --chunk_size size of one chunk in seconds.
-         --port       port of server. Default to be 10090
+         --port       port of server. Default to be 9001
          --write_path path of write endpoint. Default to be /write
          --read_path  path of read endpoint. Default to be /read
          --worker_num number of thread to process incoming requests. We use multiple 
          --tikv_config config file if using tikv backend. If not provide, will go into debug mode and use an in-memory key value map to mock tikv.
 ```
 
-After started monolith-server, you can set remote write endpoint in prometheus to be `http://127.0.0.1:10090/write` if using default port.
+After started monolith-server, you can set remote write endpoint in prometheus to be `http://127.0.0.1:9001/write` if using default port.
 
 To connect to tikv, provide below information in yaml file and use that file in `--tikv_config`
 
 ```yaml
-dry_run: false # if true, then instead of connecting to tikv, we will use an in-memory key value map to mock tikv. Default to be true
-pd_endpoint: # pd endpoint of tikv cluster. 
+dry_run: false # if true, then instead of connecting to tikv, we will use an in-memory key value map to mock tikv. Default to be false
+pd_endpoints: # pd endpoint of tikv cluster. 
  - 127.0.0.1 
 ```
 
-- 
2.43.0


From 4abfacc87635641131c6f485a79b24c381528471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 38/50] fix: metadata that cannot be read is not replaced

---
 src/db.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/db.rs b/src/db.rs
index c6dd8a5..8c2cc7f 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::channel;
 use std::sync::{Arc, RwLock};
@@ -117,6 +118,10 @@ where
                 return Err(MonolithErr::OptionErr);
             }
         } else {
+            let err = content.unwrap_err();
+            if err.kind() != ErrorKind::NotFound {
+                return Err(err.into()); // there is one, which must not be replaced
+            }
             write_json_file(&base_dir.join(DB_METADATA_FILENAME), db_metadata)?;
         }
 
-- 
2.43.0


From c2097c6b2aad29af25e6590a8ce42ad832e8ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 39/50] fix: --tikv_config takes a file

---
 src/bin/monolith-server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/monolith-server.rs b/src/bin/monolith-server.rs
index 4f327a2..cf74a16 100644
--- a/src/bin/monolith-server.rs
+++ b/src/bin/monolith-server.rs
@@ -54,7 +54,9 @@ fn main() {
             Arg::with_name(WORKER_NUM)
                 .long(WORKER_NUM)
                 .default_value(default_worker_num.as_str()),
-            Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG),
+            Arg::with_name(TIKV_CONFIG)
+                .long(TIKV_CONFIG)
+                .takes_value(true),
         ])
         .get_matches();
 
-- 
2.43.0


From 82cef09c6a7eac9f6d2acddb1eb4658ce4820f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 40/50] fix: a message that is cut off between two of its
 fields is refused

---
 src/server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 4c8b022..4f74aca 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -82,8 +82,15 @@ where
                 return;
             }
         };
+        let content_len = _content.len() as u64;
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
+        // without a limit, a message that is cut off between two of its fields would pass
+        if let Err(err) = input_stream.push_limit(content_len) {
+            error!("Cannot read the content of a request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
 
         //triage the request
         match (request.method(), request.url()) {
-- 
2.43.0


From cba01edbe9775b6c94d1d0e6470780c44b4d170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 41/50] fix: the README names the short option of file_dir

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 16847b7..8d15159 100644
--- a/README.md
+++ b/README.md
@@ -14,7 +14,7 @@ monolith-server [Options]
     
     -s   --storage    type of storage. Valid value <sled, tikv>
     -i   --indexer    type of indexer. Valid value <sled, tikv>
-    -dir --file_dir   dictionary of to store the data from indexer and storage.
+    -d   --file_dir   dictionary of to store the data from indexer and storage.
          --chunk_size size of one chunk in seconds.
          --port       port of server. Default to be 9001
          --write_path path of write endpoint. Default to be /write
-- 
2.43.0


From 97592c72f308c647b98b1203cdef3dc96c3f4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 42/50] fix: nothing follows a failed write to the write ahead
 log

---
 src/wal/segment.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 079cd19..8b41c2d 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -2,7 +2,7 @@ use crate::wal::{Entry, FlushCache, FlushPolicy, WalErr, WAL_MAGIC_NUMBER};
 use crate::{MonolithErr, Result};
 use std::fs::File;
 use std::hash::Hasher;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use std::sync::atomic::AtomicU64;
 use std::sync::{Arc, Mutex};
 
@@ -17,16 +17,27 @@ pub struct Segment<W: Write> {
     writer: W,
     cache: FlushCache,
     crc: crc::crc64::Digest,
+    // a write failed: there may be a part of an entry at the end, which nothing must follow
+    failed: bool,
 }
 
 impl<W: Write> Write for Segment<W> {
     fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
-        let written = self.writer.write(bytes)?;
+        self.check_failed()?;
+        let written = match self.writer.write(bytes) {
+            Ok(0) if !bytes.is_empty() => Err(ErrorKind::WriteZero.into()),
+            res => res,
+        };
+        if let Err(err) = &written {
+            self.failed = err.kind() != ErrorKind::Interrupted;
+        }
+        let written = written?;
         self.crc.write(&bytes[..written]); // update crc
         Ok(written)
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
+        self.check_failed()?;
         let remaining = match &mut self.cache {
             &mut FlushCache::None => vec![],
             &mut FlushCache::NumBased {
@@ -94,9 +105,20 @@ impl<W> Segment<W>
                 },
             },
             crc: crc::crc64::Digest::new(crc::crc64::ECMA),
+            failed: false,
         })
     }
 
+    fn check_failed(&self) -> std::io::Result<()> {
+        if self.failed {
+            return Err(std::io::Error::new(
+                ErrorKind::Other,
+                "an earlier write to the log failed",
+            ));
+        }
+        Ok(())
+    }
+
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
         self.flush()?;
@@ -110,6 +132,7 @@ impl<W> Segment<W>
         if entry.content.len() > u16::max_value() as usize {
             return Err(MonolithErr::InternalErr("Entry is too long".into()));
         }
+        self.check_failed()?;
         match &mut self.cache {
             &mut FlushCache::None => {
                 self.write_all(entry.get_bytes().as_slice())?;
-- 
2.43.0


From c10b0308b7f21770c96c4a733d0516fc2024800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 43/50] hook: make the protocol's types reachable with --cfg
 monolith_verif

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ca02397..b8890f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,7 +20,11 @@ pub mod storage;
 
 
 /// Generated proto definition
+#[cfg(not(monolith_verif))]
 pub(crate) mod proto;
+/// Reachable from outside for the verification harness only
+#[cfg(monolith_verif)]
+pub mod proto;
 pub use common::*;
 pub use error::*;
 
-- 
2.43.0


From 6a22e32ae6cf79c4c9d2d1e55b2ad57642211c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 44/50] fix: refuse a chunk size that leaves a chunk no window

---
 src/db.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/db.rs b/src/db.rs
index 8c2cc7f..2fc7fa1 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -44,6 +44,11 @@ where
         storage_builder: Box<dyn Builder<S> + Sync + Send>,
         indexer_builder: Box<dyn Builder<I> + Sync + Send>,
     ) -> Result<Arc<Self>> {
+        // a chunk needs a window, the ends of which are timestamps
+        let chunk_millis = ops.chunk_size.as_millis();
+        if chunk_millis == 0 || chunk_millis > i64::max_value() as u128 {
+            return Err(MonolithErr::OptionErr);
+        }
         let db_metadata = DbMetadata {
             indexer_type: S::get_type_name().to_string(),
             storage_type: I::get_type_name().to_string(),
-- 
2.43.0


From 697093c8d27e333cd1c01a93d1423969e086c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:22 +0000
Subject: [PATCH 45/50] fix: give a new chunk a directory of its own when the
 clock was set back

---
 src/db.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/db.rs b/src/db.rs
index 2fc7fa1..8314e39 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -63,7 +63,7 @@ where
         storage_builder.write_config(&ops.base_dir)?;
 
         let chunk_size = ops.chunk_size.as_millis() as Timestamp;
-        let current_time = get_current_timestamp();
+        let current_time = Self::free_start_time(&ops, get_current_timestamp());
 
         let mut chunk_opt = ChunkOpts::default();
         chunk_opt.start_time = Some(current_time);
@@ -264,7 +264,23 @@ where
         Ok(res_vec)
     }
 
+    /// The first time from `start_time` on at which no chunk starts yet. The system clock may have been
+    /// set back to a time that has been, and a new chunk must not take the directory of another one
+    fn free_start_time(options: &DbOpts, start_time: Timestamp) -> Timestamp {
+        let chunk_size = options.chunk_size.as_millis() as Timestamp;
+        let is_taken = |start_time| {
+            let chunk_dir = encode_chunk_dir(start_time, start_time + chunk_size);
+            options.base_dir.join(chunk_dir).exists()
+        };
+        let mut start_time = start_time;
+        while is_taken(start_time) {
+            start_time += 1;
+        }
+        start_time
+    }
+
     fn swap(&self, start_time: Timestamp) -> Result<()> {
+        let start_time = Self::free_start_time(&self.options, start_time);
         info!("Chunk swap, new chunk with start time {}", start_time);
         let mut chunk_opt = ChunkOpts::default();
         chunk_opt.start_time = Some(start_time);
-- 
2.43.0


From 1590d06f7e25499a1c2c924c1787d08ee2ce4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 46/50] fix: a panic of a backend does not end chunk rotation

---
 src/db.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/db.rs b/src/db.rs
index 8314e39..12e7489 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 use std::io::ErrorKind;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::channel;
 use std::sync::{Arc, RwLock};
@@ -105,7 +106,10 @@ where
         let _db = db.clone();
         thread::spawn(move || loop {
             let start_time = swap_rx.recv().unwrap() + 1;
-            _db.clone().swap(start_time);
+            // a backend may panic (sled does when the disk is full), the next swap must be tried nevertheless
+            if catch_unwind(AssertUnwindSafe(|| _db.clone().swap(start_time))).is_err() {
+                error!("Chunk swap panicked");
+            }
         });
         Ok(db.clone())
     }
-- 
2.43.0


From ee725d690c9c464198eba4cee362dd48ad01e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:50 +0000
Subject: [PATCH 47/50] fix: a chunk's default size is in seconds, its window
 in milliseconds

---
 src/chunk/chunk.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index c1a1c7c..0c9abf2 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -85,7 +85,11 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
             mutex: RwLock::new(()),
             end_time: ops
                 .end_time
-                .unwrap_or_else(|| start_time + DEFAULT_CHUNK_SIZE.parse::<Timestamp>().unwrap()),
+                .unwrap_or_else(|| {
+                    // the default is in seconds, a timestamp in milliseconds
+                    let size = DEFAULT_CHUNK_SIZE.parse::<Timestamp>().unwrap() * 1000;
+                    start_time.saturating_add(size)
+                }),
             closed: AtomicBool::new(false),
             id_generator: IdGenerator::new(1),
         }
-- 
2.43.0


From 40ac1a4bd5f2130b94f398a591c7c15fac039762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:59 +0000
Subject: [PATCH 48/50] fix: the index's builder writes its configuration, too

---
 src/db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.rs b/src/db.rs
index 12e7489..de2262f 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -61,7 +61,7 @@ where
 
         // write custom config to db config
         storage_builder.write_config(&ops.base_dir)?;
-        storage_builder.write_config(&ops.base_dir)?;
+        indexer_builder.write_config(&ops.base_dir)?;
 
         let chunk_size = ops.chunk_size.as_millis() as Timestamp;
         let current_time = Self::free_start_time(&ops, get_current_timestamp());
-- 
2.43.0


From 87f1eb71e3e98448463cbdb0c565ed80ed3f183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:59 +0000
Subject: [PATCH 49/50] fix: a builder that cannot prepare the first chunk ends
 the opening

---
 src/db.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index de2262f..8b9201e 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -76,8 +76,8 @@ where
         ));
 
         //write metadata into chunk config
-        storage_builder.write_to_chunk(&chunk_dir);
-        indexer_builder.write_to_chunk(&chunk_dir);
+        storage_builder.write_to_chunk(&chunk_dir)?;
+        indexer_builder.write_to_chunk(&chunk_dir)?;
         if let Err(_) = chunk_opt.write_config_to_dir(chunk_dir.as_path()) {
             error!("Cannot create metadata file for chunk");
             return Err(MonolithErr::InternalErr(
-- 
2.43.0


From d1192c471a9457449fb16100bc5bb0e202f02da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 50/50] fix: two databases opened on one directory at the same
 time do not share a chunk

Both looked for a start time whose directory is not there yet, and then
both made that directory: the later metadata file replaced the identifiers
of the other's chunk. The directory is now what is taken.
---
 src/db.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 8b9201e..5de5839 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -64,7 +64,7 @@ where
         indexer_builder.write_config(&ops.base_dir)?;
 
         let chunk_size = ops.chunk_size.as_millis() as Timestamp;
-        let current_time = Self::free_start_time(&ops, get_current_timestamp());
+        let current_time = Self::create_chunk_dir(&ops, get_current_timestamp())?;
 
         let mut chunk_opt = ChunkOpts::default();
         chunk_opt.start_time = Some(current_time);
@@ -268,23 +268,25 @@ where
         Ok(res_vec)
     }
 
-    /// The first time from `start_time` on at which no chunk starts yet. The system clock may have been
-    /// set back to a time that has been, and a new chunk must not take the directory of another one
-    fn free_start_time(options: &DbOpts, start_time: Timestamp) -> Timestamp {
+    /// Create the directory of a new chunk, and return the time at which that chunk starts: the first one from
+    /// `start_time` on at which no chunk starts yet. The system clock may have been set back to a time that has
+    /// been, or another database may be opened on the same directory at the same time, and a new chunk must not
+    /// take the directory of another one
+    fn create_chunk_dir(options: &DbOpts, start_time: Timestamp) -> Result<Timestamp> {
         let chunk_size = options.chunk_size.as_millis() as Timestamp;
-        let is_taken = |start_time| {
-            let chunk_dir = encode_chunk_dir(start_time, start_time + chunk_size);
-            options.base_dir.join(chunk_dir).exists()
-        };
         let mut start_time = start_time;
-        while is_taken(start_time) {
-            start_time += 1;
+        loop {
+            let chunk_dir = encode_chunk_dir(start_time, start_time + chunk_size);
+            match fs::create_dir(options.base_dir.join(chunk_dir)) {
+                Ok(()) => return Ok(start_time),
+                Err(err) if err.kind() == ErrorKind::AlreadyExists => start_time += 1,
+                Err(err) => return Err(err.into()),
+            }
         }
-        start_time
     }
 
     fn swap(&self, start_time: Timestamp) -> Result<()> {
-        let start_time = Self::free_start_time(&self.options, start_time);
+        let start_time = Self::create_chunk_dir(&self.options, start_time)?;
         info!("Chunk swap, new chunk with start time {}", start_time);
         let mut chunk_opt = ChunkOpts::default();
         chunk_opt.start_time = Some(start_time);
-- 
2.43.0

