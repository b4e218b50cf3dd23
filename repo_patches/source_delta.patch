From e0c8a85b619d0445f1457505adc553235dc0dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 01/43] fix: truncate an existing output file when overwriting
 it with --force

---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 2203fe0..1d41046 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -15,7 +15,10 @@ pub(crate) fn get_output_file(path: impl AsRef<Path>, force: bool) -> Result<(Fi
                 path
             );
         }
-        Ok((File::options().write(true).open(path)?, path.into()))
+        Ok((
+            File::options().write(true).truncate(true).open(path)?,
+            path.into(),
+        ))
     } else {
         if let Some(parent) = path.parent() {
             fs::create_dir_all(parent)?;
-- 
2.43.0


From de3ed7ea0e8d6c0dccaac695888d46fede75651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 02/43] fix: botk compares inverse counts with the inverse
 threshold when merging results

---
 src/cmd/botk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index bdcf1c1..b4c224e 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -10,7 +10,7 @@ use std::time::Duration;
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
 use console::style;
-use num_traits::{NumCast, One};
+use num_traits::One;
 use rand::{random, rngs::StdRng, seq::SliceRandom, SeedableRng};
 use serde_json::json;
 use structopt::StructOpt;
@@ -272,7 +272,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         // global top-k.
         let sync_local_topk = {
             let min_count = topk.min_count();
-            let threshold = <<AtomicU32 as Atomic>::Type as NumCast>::from(opt.threshold).unwrap();
+            let threshold = u32::MAX - opt.threshold;
             let tx = tx.clone();
 
             move |mut local_topk: TopKNgrams<String, AtomicU32>| -> Result<()> {
-- 
2.43.0


From d9927445e0d7920f86a04bdf6910e9f93859c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 03/43] fix: receive worker results until all senders are gone
 instead of polling the pool

---
 src/cmd/botk.rs   | 12 +++---------
 src/cmd/search.rs | 19 +++++++------------
 src/cmd/topk.rs   | 12 +++---------
 src/cmd/util.rs   | 10 ----------
 4 files changed, 13 insertions(+), 40 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index b4c224e..c82e4d0 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
@@ -303,14 +302,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from channel until all jobs have dropped their senders.
+    for (ngram, count) in rx {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index e8cf0e2..488f9b3 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
 use std::sync::Arc;
-use std::time::Duration;
 
 use ahash::RandomState;
 use anyhow::{bail, Result};
@@ -225,20 +224,16 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    while !executor.done() {
-        if let Some(ref rx) = rx {
-            while let Ok((pattern, path, matches)) = rx.recv_timeout(Duration::from_secs(1)) {
-                let matches_for_pattern: &mut HashMap<
-                    PathBuf,
-                    Vec<MatchLocation>,
-                    ahash::RandomState,
-                > = match_locations
+    // Collect match locations from channel until all jobs have dropped their senders.
+    if let Some(rx) = rx {
+        for (pattern, path, matches) in rx {
+            let matches_for_pattern: &mut HashMap<PathBuf, Vec<MatchLocation>, ahash::RandomState> =
+                match_locations
                     .as_mut()
                     .map(|m| m.get_mut(&pattern).unwrap())
                     .unwrap();
-                if !matches.is_empty() {
-                    matches_for_pattern.insert(path.clone(), matches);
-                }
+            if !matches.is_empty() {
+                matches_for_pattern.insert(path.clone(), matches);
             }
         }
     }
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 6ad1d44..c2fc6d0 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -6,7 +6,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::{Atomic, NumOps};
@@ -274,14 +273,9 @@ where
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from channel until all jobs have dropped their senders.
+    for (ngram, count) in rx {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0f209fb..ffc6c4f 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -250,16 +250,6 @@ impl DataExecutor {
         Ok(())
     }
 
-    pub(crate) fn done(&self) -> bool {
-        (self.pool.active_count() == 0 && self.pool.queued_count() == 0)
-            || self.pool.panic_count() > 0
-            || self.early_exit.load(Ordering::Relaxed)
-    }
-
-    pub(crate) fn has_errors(&self) -> bool {
-        self.early_exit.load(Ordering::Relaxed)
-    }
-
     pub(crate) fn join(&self) -> Result<()> {
         self.pool.join();
 
-- 
2.43.0


From 6751d1bd7e733d50dd215814ceaaf3b1acdbdb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 04/43] fix: derive seeded hash functions from the seed only,
 not from per-process keys

---
 src/ngrams/counter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index f2b22ed..678e0fd 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -77,7 +77,8 @@ where
         let mut hash_builders = Vec::with_capacity(num_hash_functions);
         for i in 0..num_hash_functions {
             let hash_builder = match seed {
-                Some(seed) => RandomState::with_seed((seed as usize) + i),
+                // NOTE: 'RandomState::with_seed' mixes in keys that are random per process.
+                Some(seed) => RandomState::with_seeds(seed, i as u64, 0, 0),
                 None => RandomState::new(),
             };
             hash_builders.push(hash_builder);
-- 
2.43.0


From eb4da32a6bddc434d971ebbbc3ab20547662a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 05/43] fix: stats drops every stale extreme document, not only
 those at the front

---
 src/cmd/stats.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/cmd/stats.rs b/src/cmd/stats.rs
index bf2344a..2c19e5a 100644
--- a/src/cmd/stats.rs
+++ b/src/cmd/stats.rs
@@ -322,26 +322,14 @@ impl Stats<Arc<AtomicUsize>> {
             .max_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*max_token_documents).front() {
-            if doc_pointer.num_tokens < current_max {
-                (*max_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        max_token_documents.retain(|doc_pointer| doc_pointer.num_tokens >= current_max);
 
         let current_min = self.document_min_tokens.load(Ordering::Relaxed);
         let mut min_token_documents = self
             .min_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*min_token_documents).front() {
-            if doc_pointer.num_tokens > current_min {
-                (*min_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        min_token_documents.retain(|doc_pointer| doc_pointer.num_tokens <= current_min);
 
         Ok(())
     }
-- 
2.43.0


From 7fe42f8e765cb952e2515a0ed0dd019fd7a09136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 06/43] fix: escape pattern metacharacters in directory
 arguments

---
 src/cmd/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index ffc6c4f..0e6a5fb 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -5,7 +5,7 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, bail, Context, Result};
-use glob::glob;
+use glob::{glob, Pattern};
 use humantime::format_duration;
 use parse_size::parse_size;
 use serde::Deserialize;
@@ -313,7 +313,7 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
                 .to_str()
                 .ok_or_else(|| anyhow!("invalid path '{}'", path.to_string_lossy()))?;
             let mut num_hits = 0;
-            for entry in glob(&format!("{}/**/*.json*.gz", path_str))? {
+            for entry in glob(&format!("{}/**/*.json*.gz", Pattern::escape(path_str)))? {
                 files.push(entry?.to_path_buf());
                 num_hits += 1;
             }
-- 
2.43.0


From 52030da5379243f6452cf7be819f06d13d9ae015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 07/43] fix: refuse '--file-limit 0' and an empty path list in
 every command

---
 src/cmd/botk.rs   | 3 +++
 src/cmd/stats.rs  | 3 +++
 src/cmd/topk.rs   | 6 ++++++
 src/cmd/unique.rs | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index c82e4d0..014b863 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -119,6 +119,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         bail!("-n/--ngram must be greater than 0");
     }
     if let Some(file_limit) = opt.file_limit {
+        if file_limit == 0 {
+            bail!("File limit cannot be 0");
+        }
         opt.path.truncate(file_limit);
     }
     if let Some(p_keep) = opt.p_keep {
diff --git a/src/cmd/stats.rs b/src/cmd/stats.rs
index 2c19e5a..6882fef 100644
--- a/src/cmd/stats.rs
+++ b/src/cmd/stats.rs
@@ -65,6 +65,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         bail!("at least one path is required");
     }
     if let Some(file_limit) = opt.file_limit {
+        if file_limit == 0 {
+            bail!("File limit cannot be 0");
+        }
         opt.path.truncate(file_limit);
     }
 
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index c2fc6d0..de6ecd7 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -106,6 +106,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     opt.path = expand_dirs(&opt.path)?;
 
     // Validate arguments.
+    if opt.path.is_empty() {
+        bail!("at least one path is required");
+    }
     if opt.topk == 0 {
         bail!("-k/--topk must be greater than 0");
     }
@@ -119,6 +122,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         bail!("-n/--ngram must be greater than 0");
     }
     if let Some(file_limit) = opt.file_limit {
+        if file_limit == 0 {
+            bail!("File limit cannot be 0");
+        }
         opt.path.truncate(file_limit);
     }
 
diff --git a/src/cmd/unique.rs b/src/cmd/unique.rs
index 806c444..24fa025 100644
--- a/src/cmd/unique.rs
+++ b/src/cmd/unique.rs
@@ -79,6 +79,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         bail!("-n/--ngram must be greater than 0");
     }
     if let Some(file_limit) = opt.file_limit {
+        if file_limit == 0 {
+            bail!("File limit cannot be 0");
+        }
         opt.path.truncate(file_limit);
     }
 
-- 
2.43.0


From d140ba9c25329d9606af154a478618bef68bb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 08/43] fix: refuse NaN for --p-keep

---
 src/cmd/botk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 014b863..3abde3a 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -125,7 +125,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         opt.path.truncate(file_limit);
     }
     if let Some(p_keep) = opt.p_keep {
-        if p_keep <= 0.0 || p_keep > 1.0 {
+        if !(p_keep > 0.0 && p_keep <= 1.0) {
             bail!("--p-keep must be between in the interval (0, 1]");
         }
     }
-- 
2.43.0


From 8872cf2ad839263253b6f3c724eea45f38a6814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 09/43] fix: do not append to the caller's subset_filter

---
 wimbd/es/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index a69a435..7653825 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -171,7 +171,7 @@ def count_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -228,7 +228,7 @@ def get_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -303,7 +303,7 @@ def count_documents_for_each_phrase(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     done = False
     generator = iter(phrases)
@@ -380,7 +380,7 @@ def count_total_occurrences_of_unigrams(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     term_freq_dict = {}
     for term in unigrams:
-- 
2.43.0


From 1909acb17dabd8e6aab2e37aed54c4c1ff4edc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 10/43] fix: apply subset filters of unigram counts as term
 clauses

---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 7653825..ab28979 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -388,7 +388,7 @@ def count_total_occurrences_of_unigrams(
         if subset_filter:
             query = {"bool": {"filter": [{"match": {"text": term}}]}}
             for filter_ in subset_filter:
-                query["bool"]["filter"].append(filter_)
+                query["bool"]["filter"].append({"term": filter_})
 
         else:
             query = {"bool": {"filter": {"match": {"text": term}}}}
-- 
2.43.0


From 03958ee8728976d3eea7e86dda34044d9370b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 11/43] fix: keep batches of phrase counts at batch_size
 phrases

---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index ab28979..d2381c6 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -309,7 +309,7 @@ def count_documents_for_each_phrase(
     generator = iter(phrases)
     while not done:
         queries = []
-        for i, phrase in enumerate(generator):
+        for i, phrase in enumerate(generator, start=1):
             if not isinstance(phrase, List):
                 phrase = [phrase]
             match_query = []
-- 
2.43.0


From ddf40375f94a9042b22d9f6a1299160f3fd9a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 12/43] fix: page through the point in time that was opened,
 and always close it

---
 wimbd/es/__init__.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index d2381c6..1fec2d0 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -239,27 +239,28 @@ def get_documents_containing_phrases(
     if return_all_hits:
         sort = [{sort_field: "asc"}]
         pit = es.open_point_in_time(index=index, keep_alive="1m")
-        # pit_search = {"id": pit["id"], "keep_alive": "1m"}
-        # all_results = []
-        results = es.search(index=index, query=query, size=num_documents, sort=sort)[
-            "hits"
-        ]["hits"]
-        yield from results
-        while len(results) > 0:
-            # todo: perhaps we need to refresh pit?
+        # Searches in a point in time take no index, and renew it with every page.
+        pit_search = {"id": pit["id"], "keep_alive": "1m"}
+        try:
             results = es.search(
-                index=index,
-                query=query,
-                size=num_documents,
-                sort=sort,
-                search_after=results[-1]["sort"],
+                pit=pit_search, query=query, size=num_documents, sort=sort
             )["hits"]["hits"]
             yield from results
-        try:
-            es.close_point_in_time(id=pit["id"])
-        except NotFoundError:
-            # Already closed.
-            pass
+            while len(results) > 0:
+                results = es.search(
+                    pit=pit_search,
+                    query=query,
+                    size=num_documents,
+                    sort=sort,
+                    search_after=results[-1]["sort"],
+                )["hits"]["hits"]
+                yield from results
+        finally:
+            try:
+                es.close_point_in_time(id=pit["id"])
+            except NotFoundError:
+                # Already closed.
+                pass
     else:
         yield from es.search(index=index, query=query, size=num_documents)["hits"][
             "hits"
-- 
2.43.0


From 1166fb2deb62a3081cf6d720d7332f31fff3d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 13/43] fix: fall back to ES_API_KEY and warn about the default
 config in es_init

---
 wimbd/es/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 1fec2d0..809f807 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -22,6 +22,9 @@ def es_init(config: Path = DEFAULT_CONFIG_LOCATION, cloud_id: str = None, api_ke
     :param config: Path to the config yaml file, containing `cloud_id` and `api_key` fields.
     :return: Authenticated ElasticSearch client.
     """
+    if config == DEFAULT_CONFIG_LOCATION:
+        logger.warning("Using default config file. This will unlikely work unless you're the creator of this library. Please make sure to specify the ES config file and provide it to the function you are using.")
+
     if config:
         with open(config) as file_ref:
             config = yaml.safe_load(file_ref)
@@ -30,12 +33,9 @@ def es_init(config: Path = DEFAULT_CONFIG_LOCATION, cloud_id: str = None, api_ke
             "cloud_id": cloud_id,
             "api_key": api_key
         }
-    
-    if config == DEFAULT_CONFIG_LOCATION:
-        logger.warning("Using default config file. This will unlikely work unless you're the creator of this library. Please make sure to specify the ES config file and provide it to the function you are using.")
 
     cloud_id = config["cloud_id"]
-    api_key = config.get("api_key", os.getenv("ES_API_KEY", None))
+    api_key = config.get("api_key") or os.getenv("ES_API_KEY", None)
     if not api_key:
         raise RuntimeError(
             f"Please specify ES_API_KEY environment variable or add api_key to {DEFAULT_CONFIG_LOCATION}."
-- 
2.43.0


From 126078909aaaed9b30c3ddcfc85833fb389df878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 14/43] fix: write token lengths to the token summary and char
 lengths to the char summary

---
 wimbd/sentence_lengths/summarize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/sentence_lengths/summarize.py b/wimbd/sentence_lengths/summarize.py
index 3fd888e..7994a04 100644
--- a/wimbd/sentence_lengths/summarize.py
+++ b/wimbd/sentence_lengths/summarize.py
@@ -23,9 +23,9 @@ for filename in os.listdir(lengths_data_path):
             count_type, value = key.split(' ')
             length = int(value)
             if count_type.lower() == 'tokens':
-                chars_data[length] = count
-            elif count_type.lower() == 'chars':
                 toks_data[length] = count
+            elif count_type.lower() == 'chars':
+                chars_data[length] = count
 
     count_sum = sum(toks_data.values())
     dist = {length: count / count_sum for length, count in toks_data.items()}
-- 
2.43.0


From e27077156fa53e1560ed967fe8f2f7309c5c4a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 15/43] fix: random_documents reads from the index it was asked
 for

---
 wimbd/es/random_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/random_access.py b/wimbd/es/random_access.py
index 57af2cf..74ba8f0 100644
--- a/wimbd/es/random_access.py
+++ b/wimbd/es/random_access.py
@@ -19,5 +19,5 @@ def random_documents(index_name: str, h5_path: str, n: int):
 
     docs = [ds[x].decode() for x in rand_doc_ids]
 
-    es_docs = es.mget(index="laion2b-en-2", ids=docs)["docs"]
+    es_docs = es.mget(index=index_name, ids=docs)["docs"]
     return es_docs
-- 
2.43.0


From f1832d03a544e7c21a1431fcbfc671aebc2e279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 16/43] fix: import h5py in random_access

---
 wimbd/indexing/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wimbd/indexing/__init__.py b/wimbd/indexing/__init__.py
index ed3b3de..a767ac0 100644
--- a/wimbd/indexing/__init__.py
+++ b/wimbd/indexing/__init__.py
@@ -1,5 +1,6 @@
 import random
 
+import h5py
 from wimbd.es import es_init
 
 
-- 
2.43.0


From ee2f7a3b17536d6b3edb0404dba4f4a4000da213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 17/43] fix: open the split files in text mode

---
 wimbd/utils/split_files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 9e4dec6..fb883a9 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -23,9 +23,9 @@ def main():
 
     out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
 
-    test_stream = gzip.open(out_path + ".test.jsonl.gz", "w")
-    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "w")
-    train_stream = gzip.open(out_path + ".train.jsonl.gz", "w")
+    test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt", encoding="utf-8")
+    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt", encoding="utf-8")
+    train_stream = gzip.open(out_path + ".train.jsonl.gz", "wt", encoding="utf-8")
 
     for row in data:
         text = row['text'] if row['text'] is not None else ""
-- 
2.43.0


From e28a73597da1af5a448944091f5d3f135bd69cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 18/43] fix: detect rows that already have an id

---
 wimbd/utils/split_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index fb883a9..5b91f9a 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -29,7 +29,7 @@ def main():
 
     for row in data:
         text = row['text'] if row['text'] is not None else ""
-        if id in row:
+        if "id" in row:
             raise ValueError("id already in row")
         row['id'] = hashlib.sha1(text.encode("utf-8")).hexdigest()
 
-- 
2.43.0


From 588973b79df4d4014f254e43e71e8c17b47756fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 19/43] fix: pass the parsed options to main instead of relying
 on a global

---
 wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py | 4 ++--
 wimbd/utils/split_files.py                                    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py b/wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py
index 35426d6..52f5357 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py
@@ -2,7 +2,7 @@ import argparse
 from wimbd.utils.utils import read_jsonl_smart_open_file
 import hashlib
 
-def main():
+def main(args):
     """
     Get MD5 hashes of text in jsonl.gz file and print to stdout
     """
@@ -21,5 +21,5 @@ if __name__ == "__main__":
     parse = argparse.ArgumentParser("")
     parse.add_argument("--in_file", type=str)
     args = parse.parse_args()
-    main()
+    main(args)
 
diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 5b91f9a..a8703ca 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -5,7 +5,7 @@ import os
 import json
 import gzip
 
-def main():
+def main(args):
     """
     Split a jsonl.gz file into train, valid, and test sets.
 
@@ -49,5 +49,5 @@ if __name__ == "__main__":
     parse.add_argument("--in_file", type=str)
     parse.add_argument("--out_prefix", type=str)
     args = parse.parse_args()
-    main()
+    main(args)
 
-- 
2.43.0


From 11bd44d66cf6b0ccfa3400c35af51a134e501e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 20/43] fix: keep the whole input name in the names of split
 files

---
 wimbd/utils/file_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 99fbee0..0a80555 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -21,12 +21,12 @@ def main():
         n = args.n
         chunks = len(data) // n
         for i in range(n - 1):
-            file_split = file.split(".")[0] + f"_{i}.json.gz"
+            file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
             print(i*chunks, (i+1)*chunks)
             with gzip.open(file_split, 'wt') as f:
                 f.writelines(data[i*chunks:(i+1)*chunks])
         i = n - 1
-        file_split = file.split(".")[0] + f"_{i}.json.gz"
+        file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
         print(i*chunks, (i+1)*chunks)
         with gzip.open(file_split, 'wt') as f:
             f.writelines(data[i*chunks:])
-- 
2.43.0


From 6683ce8bdd8772292945cd2238203749399a5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 21/43] fix: require --filenames-path, without which no file
 was defined

---
 wimbd/indexing/index_json_files.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index c5e6fbc..e9aa262 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -33,7 +33,7 @@ def main():
     )
     parser.add_argument("--save-ids-file", type=str, required=False, default=None)
     # parser.add_argument("filename", type=str, nargs="+")
-    parser.add_argument("--filenames-path", type=str, required=False)
+    parser.add_argument("--filenames-path", type=str, required=True)
     parser.add_argument("--num-shards", type=int, required=False, default=4)
     parser.add_argument(
         "--es-config", type=str, required=False, default="../../es_config.yml"
@@ -41,12 +41,9 @@ def main():
 
     args = parser.parse_args()
 
-    if args.filenames_path:
-        with open(args.filenames_path) as f:
-            filenames = f.readlines()
-            filenames = [path.strip() for path in filenames]
-    else:
-        filenames = args.filename
+    with open(args.filenames_path) as f:
+        filenames = f.readlines()
+        filenames = [path.strip() for path in filenames]
 
     with open("es_index.config", "w+") as f:
         json.dump(args.__dict__, f, indent=4)
-- 
2.43.0


From c50b13ee3f6bd9201cbc5dfbc8f7227c20a75f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 22/43] fix: skip documents with null text instead of failing
 on them

---
 wimbd/indexing/index_json_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index e9aa262..0948b8d 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -56,7 +56,8 @@ def main():
 
     def make_action(filename, line_number, line):
         doc = json.loads(line)
-        doc["text"] = doc.pop(args.text_field)[: args.max_doc_size]
+        text = doc.pop(args.text_field)
+        doc["text"] = text[: args.max_doc_size] if text is not None else None
         for field in skip_fields:
             doc.pop(field, None)
         if args.id_field is None:
-- 
2.43.0


From 909f59726cd7a8b1bb4912b1f1a6084817a18e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 23/43] fix: do not pass the dataset name as an input file

---
 wimbd/sentence_lengths/run_uniq.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wimbd/sentence_lengths/run_uniq.sh b/wimbd/sentence_lengths/run_uniq.sh
index df5808d..fadeb43 100755
--- a/wimbd/sentence_lengths/run_uniq.sh
+++ b/wimbd/sentence_lengths/run_uniq.sh
@@ -5,6 +5,7 @@ SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
 PYTHON=$(which python | head -1)
 
 DATASET=$1
+shift
 
 echo $DATASET
 
-- 
2.43.0


From c0aa163189cfd063fecbc2a3b7b85e407ffd6203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 24/43] fix: stop when building the blocklist or applying it
 fails

---
 wimbd/text_and_url_overlaps/decontaminate.py | 6 +++---
 wimbd/text_and_url_overlaps/deduplicate.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/decontaminate.py b/wimbd/text_and_url_overlaps/decontaminate.py
index 543bbb4..5017fad 100755
--- a/wimbd/text_and_url_overlaps/decontaminate.py
+++ b/wimbd/text_and_url_overlaps/decontaminate.py
@@ -13,13 +13,13 @@ def main(args):
     else:
         blockfile = os.path.join(args.tmp_dir, 'blocklist.txt')
         # Generate blocklist
-        cmd = f"$TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files1)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_just_keys.sh > {blockfile}"
-        subprocess.run(cmd, shell=True)
+        cmd = f"set -o pipefail; $TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files1)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_just_keys.sh > {blockfile}"
+        subprocess.run(cmd, shell=True, check=True, executable="/bin/bash")
 
     # Decontaminate
     if not args.build_blocklist_only:
         cmd = f"python $TEXT_AND_URL_OVERLAPS/helper_scripts/deduplicate_by_hash.py --shards {' '.join(args.in_files2)} --blocklist {blockfile} --outpath {args.out_dir} --just_write_attributes"
-        subprocess.run(cmd, shell=True)
+        subprocess.run(cmd, shell=True, check=True, executable="/bin/bash")
 
 
 if __name__ in "__main__":
diff --git a/wimbd/text_and_url_overlaps/deduplicate.py b/wimbd/text_and_url_overlaps/deduplicate.py
index 9e7b720..c221adb 100755
--- a/wimbd/text_and_url_overlaps/deduplicate.py
+++ b/wimbd/text_and_url_overlaps/deduplicate.py
@@ -13,13 +13,13 @@ def main(args):
     else:
         blockfile = os.path.join(args.tmp_dir, 'duplicates_hashes.txt')
         # Generate blocklist
-        cmd = f"$TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_keys.sh > {blockfile}"
-        subprocess.run(cmd, shell=True)
+        cmd = f"set -o pipefail; $TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_keys.sh > {blockfile}"
+        subprocess.run(cmd, shell=True, check=True, executable="/bin/bash")
 
     # Decontaminate
     if not args.build_blocklist_only:
         cmd = f"python $TEXT_AND_URL_OVERLAPS/helper_scripts/deduplicate_by_hash.py --shards {' '.join(args.in_files)} --blocklist {blockfile} --outpath {args.out_dir} --just_write_attributes --keep_first_occurrence"
-        subprocess.run(cmd, shell=True)
+        subprocess.run(cmd, shell=True, check=True, executable="/bin/bash")
 
 
 if __name__ in "__main__":
-- 
2.43.0


From fc872e5487320bc10389f9d3dff09fa4eef3ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 25/43] fix: count the tokens of documents whose URL has no
 host

---
 wimbd/url_per_tok_counts/reduce_count.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/wimbd/url_per_tok_counts/reduce_count.py b/wimbd/url_per_tok_counts/reduce_count.py
index 9e3320e..0439468 100644
--- a/wimbd/url_per_tok_counts/reduce_count.py
+++ b/wimbd/url_per_tok_counts/reduce_count.py
@@ -8,11 +8,8 @@ def main():
     data = defaultdict(int)
 
     for line in sys.stdin:
-        try:
-            url, count = line.strip().split()
-            data[url] += int(count)
-        except:
-            pass
+        url, count = line.rstrip("\n").rsplit(" ", maxsplit=1)
+        data[url] += int(count)
 
     
     for k, v in data.items():
-- 
2.43.0


From 424ed7c759430f7d57b4ff7980c5faccac4addd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 26/43] fix: keep texts with carriage returns on one record
 line

---
 wimbd/sentence_lengths/map_unique_lengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/sentence_lengths/map_unique_lengths.py b/wimbd/sentence_lengths/map_unique_lengths.py
index 452a6bf..249b38f 100644
--- a/wimbd/sentence_lengths/map_unique_lengths.py
+++ b/wimbd/sentence_lengths/map_unique_lengths.py
@@ -41,7 +41,7 @@ def main():
             to_print = ""
             if args.dataset in TOK_LENGTHS:
                 tok_length = len(wordpunct_tokenize(text.strip()))
-                to_print = text.replace("\n", "(newline)")
+                to_print = text.replace("\n", "(newline)").replace("\r", "(return)")
 
                 if tok_length in TOK_LENGTHS[args.dataset]:
                     print(f'{tok_length} tok / {to_print}')
@@ -49,7 +49,7 @@ def main():
             if args.dataset in CHAR_LENGTHS:
                 char_length = len(text)
                 if not to_print:
-                    to_print = text.replace("\n", "(newline)")
+                    to_print = text.replace("\n", "(newline)").replace("\r", "(return)")
 
                 if char_length in CHAR_LENGTHS[args.dataset]:
                     print(f'{char_length} char / {to_print}')
-- 
2.43.0


From f8eee1a58095ed6db7c0f3626dc1ab958bcff11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 27/43] fix: write attributes of documents without a source

---
 .../text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index 093c347..001238e 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -19,7 +19,7 @@ def process_shard(shard, args):
 
     def write_doc(doc, fout, contaminated, just_write_attributes):
         if just_write_attributes:
-            fout.write(json.dumps({'id':doc['id'], 'source':doc['source'], 'contaminated':contaminated}) + '\n')
+            fout.write(json.dumps({'id':doc['id'], 'source':doc.get('source', 'no_source'), 'contaminated':contaminated}) + '\n')
         else:
             if contaminated:
                 pass
-- 
2.43.0


From 439555d8c91141bc49bf92a6d853f0f3f1e881aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 28/43] fix: decide about documents without text like the
 script that lists them

---
 .../helper_scripts/deduplicate_by_hash.py             | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index 001238e..8a1d708 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -32,11 +32,12 @@ def process_shard(shard, args):
         for doc in data:
             # hash incoming doc
             if doc['text'] is None:
-                print('None')
-                continue
-            h = hashlib.md5()
-            h.update(doc['text'].encode())
-            hash = h.hexdigest()
+                # get_text_hashes.py lists documents without text as 'None'
+                hash = 'None'
+            else:
+                h = hashlib.md5()
+                h.update(doc['text'].encode())
+                hash = h.hexdigest()
 
             # check blocklist
             if hash in blocklist:
-- 
2.43.0


From f86bcf6150081cfeb1ae0bd2181d20c52914ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 29/43] fix: refuse shards whose outputs would overwrite each
 other

---
 .../helper_scripts/deduplicate_by_hash.py                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index 8a1d708..ff10257 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -80,6 +80,9 @@ def worker_initializer(l, block, seen):
 
 
 def main(args):
+    if len(set(os.path.basename(shard) for shard in args.shards)) < len(args.shards):
+        raise ValueError("Shards with the same file name would overwrite each other's output")
+
     # Create global objects
     
     blocklist = dict()
-- 
2.43.0


From d07e5acbcd0854e3efa5fd03a86763eb1eb827d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 30/43] fix: number blocklist entries densely when lines are
 repeated

---
 .../helper_scripts/deduplicate_by_hash.py                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index ff10257..d388913 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -90,8 +90,8 @@ def main(args):
 
     # Add the hashes to the blocklist
     with open(args.blocklist, 'rt') as fin:
-        for i, hash in tqdm(enumerate(fin), desc="Loading blocklist"):
-            blocklist[hash.strip()] = i
+        for hash in tqdm(fin, desc="Loading blocklist"):
+            blocklist.setdefault(hash.strip(), len(blocklist))
     
     seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=len(blocklist))
 
-- 
2.43.0


From 87437cebce734bc844b62d47aa1d4eed912d0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 31/43] fix: resume the conversion of a dataset without
 dropping or repeating examples

---
 wimbd/indexing/huggingface.py | 44 +++++++++++------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/wimbd/indexing/huggingface.py b/wimbd/indexing/huggingface.py
index 01e9447..e62bd08 100644
--- a/wimbd/indexing/huggingface.py
+++ b/wimbd/indexing/huggingface.py
@@ -1,6 +1,5 @@
 import argparse
 import concurrent.futures
-import glob
 import gzip
 import itertools
 import json
@@ -13,16 +12,10 @@ import datasets
 logger = logging.getLogger(__name__)
 
 
-def chunks(iterable, start, size):
-    from itertools import chain, islice
-
+def chunks(iterable, size):
     iterator = iter(iterable)
     for first in iterator:
-        yield list(
-            itertools.chain(
-                [first], itertools.islice(iterator, start, start + size - 1)
-            )
-        )
+        yield list(itertools.chain([first], itertools.islice(iterator, size - 1)))
 
 
 def save_dataset_as_jsonl(
@@ -41,22 +34,6 @@ def save_dataset_as_jsonl(
 
     for split in dataset:
         ds = dataset[split]
-        try:
-            start = max(
-                [
-                    int(path.split(".jsonl.gz")[0].split("_")[-1])
-                    for path in glob.glob(
-                        os.path.join(output_dir, split + "_*.jsonl.gz")
-                    )
-                ]
-            )
-        except ValueError:
-            start = 0
-        # Group the streaming examples into batches of batch_size
-        batches = itertools.islice(ds, start, None, batch_size)
-
-        if start != 0:
-            logger.warning(f"Already processed until batch {start-1}. Continuing.")
 
         def _update_example(example: dict):
             example["text"] = example.pop(text_field)
@@ -64,15 +41,21 @@ def save_dataset_as_jsonl(
 
         def _func(batch_number, batch, split):
             logger.warning(f"Processing batch number {split}-{batch_number}")
+            batch_filename = os.path.join(
+                output_dir, f"{split}_{batch_number}.jsonl.gz"
+            )
+            if os.path.exists(batch_filename):
+                logger.warning(f"Already processed batch {split}-{batch_number}")
+                return
+
             batch_jsonl = "\n".join(
                 json.dumps(_update_example(example)) for example in batch
             )
 
-            batch_filename = os.path.join(
-                output_dir, f"{split}_{batch_number}.jsonl.gz"
-            )
-            with gzip.open(batch_filename, "wt", encoding="utf-8") as f:
+            # A file under its final name is always complete.
+            with gzip.open(batch_filename + ".tmp", "wt", encoding="utf-8") as f:
                 f.write(batch_jsonl)
+            os.replace(batch_filename + ".tmp", batch_filename)
 
         # Loop through the batches and save each batch as a gzipped JSONL file
 
@@ -81,8 +64,7 @@ def save_dataset_as_jsonl(
             thread_name_prefix="save_dataset_as_jsonl-",
         ) as executor:
             futures = []
-            for i, batch in enumerate(chunks(iter(ds), start, batch_size - 1)):
-                batch_number = start + i
+            for batch_number, batch in enumerate(chunks(iter(ds), batch_size - 1)):
                 futures.append(executor.submit(_func, batch_number, batch, split))
             for future in concurrent.futures.as_completed(futures):
                 future.result()
-- 
2.43.0


From 6976e4d38dd772b06ad710cab80a6f10c136ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 32/43] fix: never leave a half-written file that the next run
 takes for complete

---
 preparation/stack/download_url.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preparation/stack/download_url.py b/preparation/stack/download_url.py
index 4051363..474f53e 100644
--- a/preparation/stack/download_url.py
+++ b/preparation/stack/download_url.py
@@ -66,8 +66,10 @@ def _save_url_as_jsonl(url: str, output_path: str):
         added=datetime.utcnow().isoformat(),
     )
     js = df.to_json(orient="records", lines=True)
-    with gzip.open(output_path, "wt") as f:
+    # A file under its final name is always complete.
+    with gzip.open(output_path + ".tmp", "wt") as f:
         f.write(js)
+    os.replace(output_path + ".tmp", output_path)
 
 
 def download(url: str, output_dir: str):
-- 
2.43.0


From e65f33b6b9d29998916344468e32d6879fdc310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 33/43] fix: download files that do not exist yet

---
 preparation/stack/download_url.sh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/preparation/stack/download_url.sh b/preparation/stack/download_url.sh
index 79034ee..878fa74 100755
--- a/preparation/stack/download_url.sh
+++ b/preparation/stack/download_url.sh
@@ -10,10 +10,7 @@ DOWNLOAD_PATH=$LOCAL_DIR/$LANG/$JSONL_FILENAME
 
 # DEST_EXISTS=$(aws s3 ls $dest_path)
 
-DOWNLOAD_SIZE=$(ls -s $DOWNLOAD_PATH)
-EMPTY_SIZE_STR='0 '$DOWNLOAD_PATH
-
-if [[ "$DOWNLOAD_SIZE" == *"$EMPTY_SIZE_STR"* ]]
+if [[ ! -s $DOWNLOAD_PATH ]]
 # if [[ ! -f $DOWNLOAD_PATH ]]
 then
     # echo $SOURCE_PATH $DEST_PATH
-- 
2.43.0


From 4303271bcbdb1c063159d0658d79d2765ffb329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 34/43] fix: name the top-k outputs after n instead of the
 unset variable n_

---
 runs/run_analysis.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/run_analysis.sh b/runs/run_analysis.sh
index 7844dfc..5298bd9 100644
--- a/runs/run_analysis.sh
+++ b/runs/run_analysis.sh
@@ -12,12 +12,12 @@ OUT_DIR="/mnt/tank3/results/"
 # Top-k
 for n in 1 2
 do
-    ./bin/wimbd topk $DATASET -n $n -k 10000 -j 200 --threshold 300000 --size 200GiB --out $OUT_DIR/top$n_$DATA_NAME.jsonl
+    ./bin/wimbd topk $DATASET -n $n -k 10000 -j 200 --threshold 300000 --size 200GiB --out $OUT_DIR/top${n}_$DATA_NAME.jsonl
 done
 
 for n in 3 5 10
 do
-    ./bin/wimbd topk $DATASET -n $n -k 10000 -j 200 --threshold 10000 --size 200GiB --out $OUT_DIR/top$n_$DATA_NAME.jsonl
+    ./bin/wimbd topk $DATASET -n $n -k 10000 -j 200 --threshold 10000 --size 200GiB --out $OUT_DIR/top${n}_$DATA_NAME.jsonl
 done
 
 ./bin/wimbd topk $DATASET -n 100 -k 10000 -j 200 --threshold 1000 --size 200GiB --out $OUT_DIR/top100_$DATA_NAME.jsonl
-- 
2.43.0


From 02376101de9d840495d4b7f1cd4e301000ed912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 35/43] fix: judge each PII match by the text around that match

---
 wimbd/pii/map_count.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/wimbd/pii/map_count.py b/wimbd/pii/map_count.py
index 292a6cd..7b93341 100644
--- a/wimbd/pii/map_count.py
+++ b/wimbd/pii/map_count.py
@@ -66,11 +66,7 @@ def postprocess_ip_addresses(text_input, match, pii_start, pii_end):
     return True
     
 
-def postprocess_pass(text_input, match, pii_type):
-    match = str("".join(match))
-    pii_start = text_input.find(match)
-    pii_end = pii_start + len(match)
-
+def postprocess_pass(text_input, match, pii_type, pii_start, pii_end):
     if pii_type=="email":
         return postprocess_email(text_input, match, pii_start, pii_end)
     elif pii_type=="phone_numbers":
@@ -87,15 +83,12 @@ def extract_pii_regex(text_input: str,
     for pii_type in pattern_dict:
         pattern = pattern_dict[pii_type]
         # search for the pattern in the string
-        matches = pattern.findall(text_input.lower())
+        text = text_input.lower()
         # loop through the matches and print corresponding values from the dictionary
-        for match in matches:
-            
-            match = str("".join(match))
-            pii_start = text_input.find(match)
-            pii_end = pii_start + len(match)
+        for m in pattern.finditer(text):
+            match = "".join(m.groups()) or m.group()
 
-            if postprocess_pass(text_input, match, pii_type):
+            if postprocess_pass(text, match, pii_type, m.start(), m.end()):
                 pii.append(pii_type)
 
     return pii
-- 
2.43.0


From 3a673dcc755b28950ea80ddcb70e5e568f48817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 36/43] fix: keep counts saturated while other threads update
 them

fetch_add wraps around at the maximum before the store that repairs the cell,
so another thread could see (and return) a count that had wrapped to almost 0.
---
 src/ngrams/counter.rs | 54 ++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index 678e0fd..a91ed2c 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -119,14 +119,14 @@ where
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_add(by.clone(), Ordering::Relaxed);
-            let count = if old_count > <A as Atomic>::Type::max_value() - by.clone() {
-                // Catch overflows and just keep as MAX.
-                self.count_array[index].store(<A as Atomic>::Type::max_value(), Ordering::Relaxed);
-                <A as Atomic>::Type::max_value()
-            } else {
-                old_count + by.clone()
-            };
+            let count = self.update(index, |old_count| {
+                if old_count > <A as Atomic>::Type::max_value() - by.clone() {
+                    // Catch overflows and just keep as MAX.
+                    <A as Atomic>::Type::max_value()
+                } else {
+                    old_count + by.clone()
+                }
+            });
             min_count = std::cmp::min(min_count, count);
         }
         min_count
@@ -147,14 +147,14 @@ where
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_sub(by.clone(), Ordering::Relaxed);
-            let count = if old_count < by {
-                // Catch underflows and just keep as 0.
-                self.count_array[index].store(<A as Atomic>::Type::zero(), Ordering::Relaxed);
-                <A as Atomic>::Type::zero()
-            } else {
-                old_count - by.clone()
-            };
+            let count = self.update(index, |old_count| {
+                if old_count < by {
+                    // Catch underflows and just keep as 0.
+                    <A as Atomic>::Type::zero()
+                } else {
+                    old_count - by.clone()
+                }
+            });
             max_count = std::cmp::max(max_count, count);
         }
         max_count
@@ -177,6 +177,28 @@ where
         max_count
     }
 
+    /// Atomically replace the count at `index` by `f` of it and return the new count.
+    /// NOTE: a separate 'fetch_add' and store could let other threads see a count that has wrapped.
+    fn update<F>(&self, index: usize, f: F) -> <A as Atomic>::Type
+    where
+        F: Fn(<A as Atomic>::Type) -> <A as Atomic>::Type,
+    {
+        let cell = &self.count_array[index];
+        let mut old_count = cell.load(Ordering::Relaxed);
+        loop {
+            let new_count = f(old_count.clone());
+            match cell.compare_exchange_weak(
+                old_count,
+                new_count.clone(),
+                Ordering::Relaxed,
+                Ordering::Relaxed,
+            ) {
+                Ok(_) => return new_count,
+                Err(current) => old_count = current,
+            }
+        }
+    }
+
     fn hash<I, T>(&self, ngram: &mut I, hasher: usize) -> usize
     where
         I: Iterator<Item = T> + ?Sized,
-- 
2.43.0


From 890e287815ee6c5b4b3979095e5b8ee80c851a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:32 +0000
Subject: [PATCH 37/43] fix: keep the matches of a file that is listed twice

Each of its two jobs counts its matches, but the locations of the second
replaced those of the first.
---
 src/cmd/search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index 488f9b3..b084de6 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -233,7 +233,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                     .map(|m| m.get_mut(&pattern).unwrap())
                     .unwrap();
             if !matches.is_empty() {
-                matches_for_pattern.insert(path.clone(), matches);
+                matches_for_pattern.entry(path).or_default().extend(matches);
             }
         }
     }
-- 
2.43.0


From 9ff24ccecbdaa7ce32283f2658835b6042a644f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 38/43] fix: interrupting the Stack listing before the first
 language no longer raises NameError

---
 preparation/stack/get_urls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preparation/stack/get_urls.py b/preparation/stack/get_urls.py
index ae134d4..5927a9b 100644
--- a/preparation/stack/get_urls.py
+++ b/preparation/stack/get_urls.py
@@ -13,6 +13,7 @@ def list_stack_files(languages: List[str], lang_idx: int, total_files: int, vers
     """
     fs = fs_auth()
     lang_files: Dict[str, List[str]] = {}
+    lang = None
     try:
         with tqdm.tqdm(total=len(languages)) as pbar:
             for idx, lang in enumerate(languages):
-- 
2.43.0


From 8b5888ca770058de7667077f6b7bf39f255fdbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 39/43] fix: deduplicate_by_hash.py with an empty blocklist
 failed to map an empty array

---
 .../text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index d388913..aaa11da 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -93,7 +93,7 @@ def main(args):
         for hash in tqdm(fin, desc="Loading blocklist"):
             blocklist.setdefault(hash.strip(), len(blocklist))
     
-    seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=len(blocklist))
+    seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=max(len(blocklist), 1))
 
     # Create a pool of processes
     with mp.Pool(processes=args.num_processes, initializer=worker_initializer, initargs=(lock, blocklist, seen_array)) as pool:
-- 
2.43.0


From 5ad47e00c01f4978de84f824c55927b4c4d1b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 40/43] fix: a failing stage of the scripts that build a list
 of hashes was not reported

---
 wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh | 1 +
 wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh      | 1 +
 .../text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh b/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh
index a17a178..407c95e 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 # This script is used to get the duplicate keys from the output of the
 # either the text or url overlap script.
 
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh b/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh
index 286f4ff..f343be0 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 # This script is used to get the all keys from the output of the
 # either the text or url overlap script.
 
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh b/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
index e1d2b4f..cf39283 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 
 # this gets the directory of the script, even if it's called from another directory
 SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
-- 
2.43.0


From 45754affcf7d3a8fd774efd90c4aad79c4d2c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 41/43] fix: split_files.py removed every '.jsonl' and '.gz'
 from the path of its output

---
 wimbd/utils/split_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index a8703ca..92537dd 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -21,7 +21,8 @@ def main(args):
     if not os.path.exists(os.path.join(args.out_prefix, os.path.dirname(args.in_file))):
         os.makedirs(os.path.join(args.out_prefix, os.path.dirname(args.in_file)))
 
-    out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
+    # only the end of the name is removed: other inputs may differ in nothing else
+    out_path = os.path.join(args.out_prefix, args.in_file).removesuffix(".jsonl.gz")
 
     test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt", encoding="utf-8")
     valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt", encoding="utf-8")
-- 
2.43.0


From 390eac26889314fc3c3bd0e2e42411fd71c532ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 42/43] fix: mc4.py wrote input files of the same name to one
 output file

---
 preparation/mc4/mc4.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preparation/mc4/mc4.py b/preparation/mc4/mc4.py
index 1cf816a..776e474 100644
--- a/preparation/mc4/mc4.py
+++ b/preparation/mc4/mc4.py
@@ -48,6 +48,8 @@ def main():
         for b in tqdm(input_bucket.list_blobs(prefix=input_prefix), desc="Finding files to not skip")
         if ".tfrecord-" in blob_to_name(b) and input_name_to_output_name(blob_to_name(b)) not in existing_files
     ]
+    if len(set(input_name_to_output_name(blob_to_name(b)) for b in files_to_process)) < len(files_to_process):
+        raise ValueError("Input files with the same name would overwrite each other's output")
 
     def process_object(o: storage.Blob) -> int:
         input_filename = blob_to_name(o)
-- 
2.43.0


From d6d0fe8cd2d8758283db57d84ab440faacdb34a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 43/43] fix: get_urls.py left a half-written list that the next
 run took for complete

---
 preparation/stack/get_urls.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preparation/stack/get_urls.py b/preparation/stack/get_urls.py
index 5927a9b..1453b15 100644
--- a/preparation/stack/get_urls.py
+++ b/preparation/stack/get_urls.py
@@ -1,5 +1,6 @@
 import argparse
 import json
+import os
 from typing import Dict, List
 
 import tqdm
@@ -89,7 +90,9 @@ if __name__ == "__main__":
         urls = list_stack_files(langs, lang_idx, sum([len(v) for v in lang_urls.values()]), args.version)
         lang_urls.update(urls)
 
-    with open(args.output_file, "w+") as f:
+    # A list under its final name is always complete.
+    with open(args.output_file + ".tmp", "w+") as f:
         for _, urls in lang_urls.items():
             for url in urls:
                 f.write(url + "\n")
+    os.replace(args.output_file + ".tmp", args.output_file)
-- 
2.43.0

