From c8b71fe758e47784a8c18b353de513d980b05446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 01/20] fix: botk compared inverse counts against the raw
 threshold when merging

With the default threshold (u32::MAX) no ngram was ever merged, so botk printed nothing.
---
 src/cmd/botk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index bdcf1c1..b4c224e 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -10,7 +10,7 @@ use std::time::Duration;
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
 use console::style;
-use num_traits::{NumCast, One};
+use num_traits::One;
 use rand::{random, rngs::StdRng, seq::SliceRandom, SeedableRng};
 use serde_json::json;
 use structopt::StructOpt;
@@ -272,7 +272,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         // global top-k.
         let sync_local_topk = {
             let min_count = topk.min_count();
-            let threshold = <<AtomicU32 as Atomic>::Type as NumCast>::from(opt.threshold).unwrap();
+            let threshold = u32::MAX - opt.threshold;
             let tx = tx.clone();
 
             move |mut local_topk: TopKNgrams<String, AtomicU32>| -> Result<()> {
-- 
2.43.0


From 9d46e8a2af5880cf419868ffc15345e396f37484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 02/20] fix: truncate an existing output file overwritten with
 --force

---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 2203fe0..1d41046 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -15,7 +15,10 @@ pub(crate) fn get_output_file(path: impl AsRef<Path>, force: bool) -> Result<(Fi
                 path
             );
         }
-        Ok((File::options().write(true).open(path)?, path.into()))
+        Ok((
+            File::options().write(true).truncate(true).open(path)?,
+            path.into(),
+        ))
     } else {
         if let Some(parent) = path.parent() {
             fs::create_dir_all(parent)?;
-- 
2.43.0


From c30b21287623ebe5c8036f5878beb33edf9b1cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 03/20] fix: make seeded ngram hashing reproducible across runs

RandomState::with_seed mixes in keys chosen at random per process, so --seed had no effect
across runs; adding the index to the seed could also overflow.
---
 src/ngrams/counter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index f2b22ed..58a7939 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -77,7 +77,9 @@ where
         let mut hash_builders = Vec::with_capacity(num_hash_functions);
         for i in 0..num_hash_functions {
             let hash_builder = match seed {
-                Some(seed) => RandomState::with_seed((seed as usize) + i),
+                Some(seed) => {
+                    RandomState::with_seeds(seed.wrapping_add(i as u64), seed, seed, seed)
+                }
                 None => RandomState::new(),
             };
             hash_builders.push(hash_builder);
-- 
2.43.0


From 759f6489ec55443bae780c7ad3a07518cae5a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 04/20] fix: reject an empty counts array instead of panicking
 on the first ngram

A --size below the element size gave a table of length zero.
---
 src/ngrams/counter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index 58a7939..69a3ee7 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -2,7 +2,7 @@ use std::hash::{BuildHasher, Hash, Hasher};
 use std::sync::atomic::Ordering;
 
 use ahash::RandomState;
-use anyhow::{Context, Result};
+use anyhow::{bail, Context, Result};
 use atomic_traits::{Atomic, NumOps};
 use num_traits::{Bounded, NumCast, One, SaturatingSub, Zero};
 
@@ -64,6 +64,10 @@ where
         seed: Option<u64>,
         initial_value: <A as Atomic>::Type,
     ) -> Result<Self> {
+        if size == 0 {
+            bail!("The counts array must have at least one element");
+        }
+
         // Initialize count table
         let mut count_array = Vec::new();
         count_array.try_reserve_exact(size).with_context(|| {
-- 
2.43.0


From d54a5aadeca1fb016564f95530f718df06233bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 05/20] fix: drain worker results until every sender is gone

The collectors stopped as soon as the executor looked idle, so results still queued in the
channel (or sent after a one second lull) were silently dropped. Receiving until the channel
disconnects merges all of them.
---
 src/cmd/botk.rs   | 10 ++--------
 src/cmd/search.rs | 19 +++++++------------
 src/cmd/topk.rs   | 10 ++--------
 src/cmd/util.rs   | 10 ----------
 4 files changed, 11 insertions(+), 38 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index b4c224e..7cebc32 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
@@ -304,13 +303,8 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     drop(tx);
 
     // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    while let Ok((ngram, count)) = rx.recv() {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index e8cf0e2..b7352a1 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
 use std::sync::Arc;
-use std::time::Duration;
 
 use ahash::RandomState;
 use anyhow::{bail, Result};
@@ -225,20 +224,16 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    while !executor.done() {
-        if let Some(ref rx) = rx {
-            while let Ok((pattern, path, matches)) = rx.recv_timeout(Duration::from_secs(1)) {
-                let matches_for_pattern: &mut HashMap<
-                    PathBuf,
-                    Vec<MatchLocation>,
-                    ahash::RandomState,
-                > = match_locations
+    // Collect match locations from the channel until all jobs are done.
+    if let Some(ref rx) = rx {
+        while let Ok((pattern, path, matches)) = rx.recv() {
+            let matches_for_pattern: &mut HashMap<PathBuf, Vec<MatchLocation>, ahash::RandomState> =
+                match_locations
                     .as_mut()
                     .map(|m| m.get_mut(&pattern).unwrap())
                     .unwrap();
-                if !matches.is_empty() {
-                    matches_for_pattern.insert(path.clone(), matches);
-                }
+            if !matches.is_empty() {
+                matches_for_pattern.insert(path.clone(), matches);
             }
         }
     }
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 6ad1d44..fddb377 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -6,7 +6,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::{Atomic, NumOps};
@@ -275,13 +274,8 @@ where
     drop(tx);
 
     // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    while let Ok((ngram, count)) = rx.recv() {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0f209fb..ffc6c4f 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -250,16 +250,6 @@ impl DataExecutor {
         Ok(())
     }
 
-    pub(crate) fn done(&self) -> bool {
-        (self.pool.active_count() == 0 && self.pool.queued_count() == 0)
-            || self.pool.panic_count() > 0
-            || self.early_exit.load(Ordering::Relaxed)
-    }
-
-    pub(crate) fn has_errors(&self) -> bool {
-        self.early_exit.load(Ordering::Relaxed)
-    }
-
     pub(crate) fn join(&self) -> Result<()> {
         self.pool.join();
 
-- 
2.43.0


From 8bc6a1baeddf657cc37eb57c6ce7eca39a132988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 06/20] fix: prune every outdated document pointer in stats,
 not only a prefix

Workers sync concurrently, so a stale pointer can sit behind an up-to-date one.
---
 src/cmd/stats.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/cmd/stats.rs b/src/cmd/stats.rs
index bf2344a..67a09c3 100644
--- a/src/cmd/stats.rs
+++ b/src/cmd/stats.rs
@@ -322,26 +322,14 @@ impl Stats<Arc<AtomicUsize>> {
             .max_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*max_token_documents).front() {
-            if doc_pointer.num_tokens < current_max {
-                (*max_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        (*max_token_documents).retain(|doc_pointer| doc_pointer.num_tokens >= current_max);
 
         let current_min = self.document_min_tokens.load(Ordering::Relaxed);
         let mut min_token_documents = self
             .min_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*min_token_documents).front() {
-            if doc_pointer.num_tokens > current_min {
-                (*min_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        (*min_token_documents).retain(|doc_pointer| doc_pointer.num_tokens <= current_min);
 
         Ok(())
     }
-- 
2.43.0


From 7753babfaac6a6d33ea2588769c18fc2da09b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 07/20] fix: escape glob metacharacters in directory names when
 expanding paths

---
 src/cmd/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index ffc6c4f..0e6a5fb 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -5,7 +5,7 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, bail, Context, Result};
-use glob::glob;
+use glob::{glob, Pattern};
 use humantime::format_duration;
 use parse_size::parse_size;
 use serde::Deserialize;
@@ -313,7 +313,7 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
                 .to_str()
                 .ok_or_else(|| anyhow!("invalid path '{}'", path.to_string_lossy()))?;
             let mut num_hits = 0;
-            for entry in glob(&format!("{}/**/*.json*.gz", path_str))? {
+            for entry in glob(&format!("{}/**/*.json*.gz", Pattern::escape(path_str)))? {
                 files.push(entry?.to_path_buf());
                 num_hits += 1;
             }
-- 
2.43.0


From 815bc17ef4a0afa9f87c5d1ea213f958efeace07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 08/20] fix: don't modify the caller's subset_filter when
 querying the c4 index

---
 wimbd/es/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index a69a435..7653825 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -171,7 +171,7 @@ def count_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -228,7 +228,7 @@ def get_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -303,7 +303,7 @@ def count_documents_for_each_phrase(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     done = False
     generator = iter(phrases)
@@ -380,7 +380,7 @@ def count_total_occurrences_of_unigrams(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     term_freq_dict = {}
     for term in unigrams:
-- 
2.43.0


From d924c19f2a72d9d4ae13c089b9b9f6461ff5c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 09/20] fix: wrap subset filters in a term query when counting
 unigrams

---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 7653825..ab28979 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -388,7 +388,7 @@ def count_total_occurrences_of_unigrams(
         if subset_filter:
             query = {"bool": {"filter": [{"match": {"text": term}}]}}
             for filter_ in subset_filter:
-                query["bool"]["filter"].append(filter_)
+                query["bool"]["filter"].append({"term": filter_})
 
         else:
             query = {"bool": {"filter": {"match": {"text": term}}}}
-- 
2.43.0


From 846d6117727f0417712c6a27e2022c120322355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 10/20] fix: send at most batch_size queries per msearch
 request

---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index ab28979..d2381c6 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -309,7 +309,7 @@ def count_documents_for_each_phrase(
     generator = iter(phrases)
     while not done:
         queries = []
-        for i, phrase in enumerate(generator):
+        for i, phrase in enumerate(generator, start=1):
             if not isinstance(phrase, List):
                 phrase = [phrase]
             match_query = []
-- 
2.43.0


From 6b4727d9d10471cf8b05192a12ed456d90906fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 11/20] fix: write split files as text and detect rows that
 already have an id

---
 wimbd/utils/split_files.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 9e4dec6..fb7c35e 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -23,13 +23,13 @@ def main():
 
     out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
 
-    test_stream = gzip.open(out_path + ".test.jsonl.gz", "w")
-    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "w")
-    train_stream = gzip.open(out_path + ".train.jsonl.gz", "w")
+    test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt", encoding="UTF8")
+    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt", encoding="UTF8")
+    train_stream = gzip.open(out_path + ".train.jsonl.gz", "wt", encoding="UTF8")
 
     for row in data:
         text = row['text'] if row['text'] is not None else ""
-        if id in row:
+        if 'id' in row:
             raise ValueError("id already in row")
         row['id'] = hashlib.sha1(text.encode("utf-8")).hexdigest()
 
-- 
2.43.0


From 935888d743dc96061dfd52d42838987c016db991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 12/20] fix: name split files after the whole input path

Cutting the path at its first dot made inputs such as ./data/x.jsonl.gz (and files sharing a
prefix up to a dot) overwrite each other's output.
---
 wimbd/utils/file_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 99fbee0..174820f 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -21,12 +21,12 @@ def main():
         n = args.n
         chunks = len(data) // n
         for i in range(n - 1):
-            file_split = file.split(".")[0] + f"_{i}.json.gz"
+            file_split = file.removesuffix(".jsonl.gz") + f"_{i}.json.gz"
             print(i*chunks, (i+1)*chunks)
             with gzip.open(file_split, 'wt') as f:
                 f.writelines(data[i*chunks:(i+1)*chunks])
         i = n - 1
-        file_split = file.split(".")[0] + f"_{i}.json.gz"
+        file_split = file.removesuffix(".jsonl.gz") + f"_{i}.json.gz"
         print(i*chunks, (i+1)*chunks)
         with gzip.open(file_split, 'wt') as f:
             f.writelines(data[i*chunks:])
-- 
2.43.0


From b8e3bb7332355ac6d9f1c3213dc3850e8f0c31f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 13/20] fix: token and character length distributions were
 swapped

---
 wimbd/sentence_lengths/summarize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/sentence_lengths/summarize.py b/wimbd/sentence_lengths/summarize.py
index 3fd888e..7994a04 100644
--- a/wimbd/sentence_lengths/summarize.py
+++ b/wimbd/sentence_lengths/summarize.py
@@ -23,9 +23,9 @@ for filename in os.listdir(lengths_data_path):
             count_type, value = key.split(' ')
             length = int(value)
             if count_type.lower() == 'tokens':
-                chars_data[length] = count
-            elif count_type.lower() == 'chars':
                 toks_data[length] = count
+            elif count_type.lower() == 'chars':
+                chars_data[length] = count
 
     count_sum = sum(toks_data.values())
     dist = {length: count / count_sum for length, count in toks_data.items()}
-- 
2.43.0


From 5d82296bd883d9ad5238dbaa2c44baf9f1aaef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 14/20] fix: increments racing on one ngram could all return
 too small a count

---
 src/ngrams/counter.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index 69a3ee7..b5104bd 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -124,7 +124,7 @@ where
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_add(by.clone(), Ordering::Relaxed);
+            let old_count = self.count_array[index].fetch_add(by.clone(), Ordering::AcqRel);
             let count = if old_count > <A as Atomic>::Type::max_value() - by.clone() {
                 // Catch overflows and just keep as MAX.
                 self.count_array[index].store(<A as Atomic>::Type::max_value(), Ordering::Relaxed);
@@ -134,7 +134,18 @@ where
             };
             min_count = std::cmp::min(min_count, count);
         }
-        min_count
+
+        // Another thread may have counted the same ngram while we were updating its cells one by one,
+        // in which case all of these calls could have seen too small a minimum. So we read the cells
+        // again now that they're all updated. That way the last call to finish sees the full count.
+        let mut settled_count = <A as Atomic>::Type::max_value();
+        for i in 0..self.num_hash_functions {
+            let hash = self.hash(&mut ngram.as_iter(), i);
+            let index = self.index_for_hash(hash);
+            let count = self.count_array[index].load(Ordering::Relaxed);
+            settled_count = std::cmp::min(settled_count, count);
+        }
+        std::cmp::max(min_count, settled_count)
     }
 
     /// Decrement the count for an ngram.
-- 
2.43.0


From bda1b8db9d457fb8cb0a7df6e2e3a6a72ed05e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 15/20] fix: topk with no paths fails like the other commands

---
 src/cmd/topk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index fddb377..790d457 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -106,6 +106,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     opt.path = expand_dirs(&opt.path)?;
 
     // Validate arguments.
+    if opt.path.is_empty() {
+        bail!("at least one path is required");
+    }
     if opt.topk == 0 {
         bail!("-k/--topk must be greater than 0");
     }
-- 
2.43.0


From 91f18b94cc43a032e6abb0be0cb09fb23a9d4f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 16/20] fix: reject NaN for --p-keep

---
 src/cmd/botk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 7cebc32..93fcd10 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -122,7 +122,8 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         opt.path.truncate(file_limit);
     }
     if let Some(p_keep) = opt.p_keep {
-        if p_keep <= 0.0 || p_keep > 1.0 {
+        // NOTE: written so that NaN is rejected too.
+        if !(p_keep > 0.0 && p_keep <= 1.0) {
             bail!("--p-keep must be between in the interval (0, 1]");
         }
     }
-- 
2.43.0


From af4edae1ba55fc43e26082ada5995bb7e6339a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 17/20] fix: don't preallocate by user-supplied k and ngram
 sizes

---
 src/cmd/botk.rs    | 4 ++--
 src/cmd/topk.rs    | 2 +-
 src/cmd/unique.rs  | 2 +-
 src/ngrams/mod.rs  | 2 +-
 src/ngrams/topk.rs | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 93fcd10..a0c759e 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -183,7 +183,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                             Box::new(tokenize(&text).map(|s| s.to_string()))
                         };
 
-                    let mut ngram_deque: VecDeque<String> = VecDeque::with_capacity(opt.ngram);
+                    let mut ngram_deque: VecDeque<String> = VecDeque::new();
                     for token in tokens {
                         if ngram_deque.len() == opt.ngram {
                             ngram_deque.pop_front();
@@ -238,7 +238,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                             Box::new(tokenize(&text).map(|s| s.to_string()))
                         };
 
-                    let mut ngram_deque: VecDeque<String> = VecDeque::with_capacity(opt.ngram);
+                    let mut ngram_deque: VecDeque<String> = VecDeque::new();
                     for token in tokens {
                         if ngram_deque.len() == opt.ngram {
                             ngram_deque.pop_front();
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 790d457..2ab0bb1 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -217,7 +217,7 @@ where
                             Box::new(tokenize(&text).map(|s| s.to_string()))
                         };
 
-                    let mut ngram_deque: VecDeque<String> = VecDeque::with_capacity(opt.ngram);
+                    let mut ngram_deque: VecDeque<String> = VecDeque::new();
                     for token in tokens {
                         if ngram_deque.len() == opt.ngram {
                             ngram_deque.pop_front();
diff --git a/src/cmd/unique.rs b/src/cmd/unique.rs
index 806c444..3bfb40c 100644
--- a/src/cmd/unique.rs
+++ b/src/cmd/unique.rs
@@ -121,7 +121,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                             Box::new(tokenize(&text).map(|s| s.to_string()))
                         };
 
-                    let mut ngram_deque: VecDeque<String> = VecDeque::with_capacity(opt.ngram);
+                    let mut ngram_deque: VecDeque<String> = VecDeque::new();
                     for token in tokens {
                         if ngram_deque.len() == opt.ngram {
                             ngram_deque.pop_front();
diff --git a/src/ngrams/mod.rs b/src/ngrams/mod.rs
index 5f72641..72f085b 100644
--- a/src/ngrams/mod.rs
+++ b/src/ngrams/mod.rs
@@ -65,7 +65,7 @@ impl<'a, T: 'a + fmt::Debug + Clone + Sized> Ngrams<'a, T> {
             source: Box::new(source),
             num: n,
             memsize,
-            memory: VecDeque::with_capacity(memsize),
+            memory: VecDeque::new(),
         }
     }
 
diff --git a/src/ngrams/topk.rs b/src/ngrams/topk.rs
index b4d7ffc..96009da 100644
--- a/src/ngrams/topk.rs
+++ b/src/ngrams/topk.rs
@@ -32,7 +32,7 @@ where
         Self {
             k,
             topk: BTreeSet::new(),
-            ngrams: HashMap::with_capacity_and_hasher(k + 1, RandomState::new()),
+            ngrams: HashMap::with_hasher(RandomState::new()),
             min_count: <A as Atomic>::Type::one(),
             min_count_atomic: Arc::new(<A as Atomic>::new(<A as Atomic>::Type::one())),
         }
@@ -81,7 +81,7 @@ where
     }
 
     pub fn drain(&mut self) -> Vec<(Rc<Vec<T>>, <A as Atomic>::Type)> {
-        let mut out: Vec<(Rc<Vec<T>>, <A as Atomic>::Type)> = Vec::with_capacity(self.k);
+        let mut out: Vec<(Rc<Vec<T>>, <A as Atomic>::Type)> = Vec::with_capacity(self.topk.len());
         while let Some((count, ngram)) = self.topk.pop_last() {
             self.ngrams.remove(&ngram);
             out.push((ngram, count))
-- 
2.43.0


From e7d25cbeecb1e93ba2f79f4669933bf709d171f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 18/20] fix: keep match locations of a path given more than
 once

---
 src/cmd/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index b7352a1..394bc45 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -233,7 +233,8 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                     .map(|m| m.get_mut(&pattern).unwrap())
                     .unwrap();
             if !matches.is_empty() {
-                matches_for_pattern.insert(path.clone(), matches);
+                // NOTE: a path can be given more than once.
+                matches_for_pattern.entry(path).or_default().extend(matches);
             }
         }
     }
-- 
2.43.0


From fe2f5b9a1af026c4d7c2867e452267abd748345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 19/20] fix: accept blocklists that list a hash more than once

---
 .../helper_scripts/deduplicate_by_hash.py                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index 093c347..65b7a4a 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -86,8 +86,9 @@ def main(args):
 
     # Add the hashes to the blocklist
     with open(args.blocklist, 'rt') as fin:
-        for i, hash in tqdm(enumerate(fin), desc="Loading blocklist"):
-            blocklist[hash.strip()] = i
+        for hash in tqdm(fin, desc="Loading blocklist"):
+            # a hash may be listed more than once: indices must stay below len(blocklist)
+            blocklist.setdefault(hash.strip(), len(blocklist))
     
     seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=len(blocklist))
 
-- 
2.43.0


From 8c2352b025d476dcd83681469b211d383c6ff6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 20/20] fix: a worker's panic could go unnoticed when joining

---
 src/cmd/util.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0e6a5fb..1d24bc5 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -94,6 +94,18 @@ where
     Ok((total_lines, total_bytes))
 }
 
+/// Raises a flag if it is dropped by a panic. The thread pool may report a job that panicked as
+/// finished before it counts the panic, so its panic count alone isn't enough after joining.
+struct PanicFlag(Arc<AtomicBool>);
+
+impl Drop for PanicFlag {
+    fn drop(&mut self) {
+        if std::thread::panicking() {
+            self.0.store(true, Ordering::Relaxed);
+        }
+    }
+}
+
 pub(crate) struct DataExecutor {
     all_progress: MultiProgress,
     file_progress: ProgressBar,
@@ -205,6 +217,7 @@ impl DataExecutor {
         let error_count = self.error_count.clone();
 
         self.pool.execute(move || {
+            let _panic_flag = PanicFlag(early_exit.clone());
             let mut retries = 0;
             loop {
                 match process_file(
-- 
2.43.0

