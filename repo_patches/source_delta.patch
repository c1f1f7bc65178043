From fa5e19bc0edc0028fe7c0d91755cec3aaa0cd4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 01/15] fix: don't take shortcuts for symmetric clusters with
 duplicates or unsatisfiable inner quorum sets

---
 src/analysis/symmetric_clusters.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/analysis/symmetric_clusters.rs b/src/analysis/symmetric_clusters.rs
index 7787173..1094f52 100644
--- a/src/analysis/symmetric_clusters.rs
+++ b/src/analysis/symmetric_clusters.rs
@@ -37,6 +37,9 @@ fn symmetric_clusters_finder(consensus_clusters: Vec<NodeIdSet>, fbas: &Fbas) ->
     found_clusters_in_all_clusters
 }
 
+/// Returns the common quorum set of the symmetric cluster that `cluster` consists of, if it is one
+/// and its minimal quorums, blocking sets and splitting sets can be read directly from this quorum
+/// set.
 pub(crate) fn find_symmetric_cluster_in_consensus_cluster(
     cluster: &NodeIdSet,
     fbas: &Fbas,
@@ -45,12 +48,27 @@ pub(crate) fn find_symmetric_cluster_in_consensus_cluster(
     if !symmetric_clusters.is_empty() {
         assert!(symmetric_clusters.len() == 1, "More than one symmetric clusters found - perhaps input wasn't a consensus cluster, i.e., not a strongly-connected component?");
         assert!(symmetric_clusters[0].contained_nodes() == *cluster);
-        Some(symmetric_clusters.into_iter().next().unwrap())
+        symmetric_clusters
+            .into_iter()
+            .next()
+            .filter(|qset| !qset.contains_duplicates() && qset.is_satisfiable_throughout())
     } else {
         None
     }
 }
 
+impl QuorumSet {
+    /// Whether neither `self` nor any of its inner quorum sets has a threshold that can't be reached
+    fn is_satisfiable_throughout(&self) -> bool {
+        self.threshold > 0
+            && self.threshold <= self.validators.len() + self.inner_quorum_sets.len()
+            && self
+                .inner_quorum_sets
+                .iter()
+                .all(|qset| qset.is_satisfiable_throughout())
+    }
+}
+
 pub(crate) fn find_symmetric_clusters_in_node_set(
     nodes: &NodeIdSet,
     fbas: &Fbas,
-- 
2.43.0


From c7f28a36add085b750973719206769abb28f0d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 02/15] fix: find all minimal splitting sets of symmetric
 clusters with inner quorum sets

---
 src/analysis/splitting_sets.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 19460df..f862c96 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -155,7 +155,10 @@ impl QuorumSet {
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS.
     fn to_minimal_splitting_sets(&self) -> Vec<NodeIdSet> {
         let splitting_sets = self.to_splitting_sets();
-        if self.contains_duplicates() {
+        // check to see if we aren't really a 1-quorum quorum set
+        if splitting_sets.len() == 1 && self.is_quorum_slice(&splitting_sets[0]) {
+            vec![]
+        } else if self.contains_duplicates() || self.contains_split_inner_quorum_sets() {
             remove_non_minimal_node_sets(splitting_sets)
         } else {
             splitting_sets
@@ -164,6 +167,9 @@ impl QuorumSet {
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS,
     /// but perhaps also a few extra...
     fn to_splitting_sets(&self) -> Vec<NodeIdSet> {
+        if self.splitting_threshold() == 0 {
+            return vec![bitset![]]; // no nodes needed for splitting what is already split
+        }
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
@@ -175,7 +181,7 @@ impl QuorumSet {
                 .iter()
                 .map(|qset| qset.to_splitting_sets()),
         );
-        let potential_splitting_sets: Vec<NodeIdSet> = subslice_groups
+        subslice_groups
             .into_iter()
             .combinations(self.splitting_threshold())
             .map(|group_combination| {
@@ -192,14 +198,12 @@ impl QuorumSet {
                     })
                     .collect()
             })
-            .concat();
-        // check to see if we aren't really a 1-quorum quorum set
-        if potential_splitting_sets.len() == 1 && self.is_quorum_slice(&potential_splitting_sets[0])
-        {
-            vec![]
-        } else {
-            potential_splitting_sets
-        }
+            .concat()
+    }
+    fn contains_split_inner_quorum_sets(&self) -> bool {
+        self.inner_quorum_sets
+            .iter()
+            .any(|qset| qset.splitting_threshold() == 0 || qset.contains_split_inner_quorum_sets())
     }
     fn splitting_threshold(&self) -> usize {
         if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-- 
2.43.0


From 9f9ed5509ac614542d7170a57759a7884ae52313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 03/15] fix: don't panic in the alternative quorum intersection
 check if there are no quorums

---
 src/analysis/front_end.rs | 3 ++-
 src/analysis/quorums.rs   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/analysis/front_end.rs b/src/analysis/front_end.rs
index ee7e45e..a76b2e8 100644
--- a/src/analysis/front_end.rs
+++ b/src/analysis/front_end.rs
@@ -68,7 +68,8 @@ impl Analysis {
                 Some(self.make_shrunken_set_vec_result(quorums.to_vec())),
             )
         } else {
-            (true, None)
+            // an FBAS without any quorums doesn't enjoy quorum intersection
+            (self.fbas_shrunken.borrow().number_of_nodes() > 0, None)
         }
     }
     /// Minimal quorums - no proper subset of any of these node sets is a quorum.
diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 0c990bd..5d21deb 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -116,6 +116,9 @@ fn nonintersecting_quorums_finder(
             .into_iter()
             .map(|node_set| find_satisfiable_nodes(&node_set, fbas).0)
             .collect()
+    } else if consensus_clusters.is_empty() {
+        warn!("There are no consensus clusters - the FBAS contains no quorums.");
+        vec![]
     } else {
         warn!("There is only one consensus cluster - there might be no non-intersecting quorums and the subsequent search might be slow.");
         let nodes = consensus_clusters.into_iter().next().unwrap_or_default();
-- 
2.43.0


From 064fa990debe7f5d6770c71c1cb1a9035db05628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 04/15] fix: don't panic on grouping names that are empty or
 end with a multi-byte character

---
 src/io/groupings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/groupings.rs b/src/io/groupings.rs
index 59bd877..97020c3 100644
--- a/src/io/groupings.rs
+++ b/src/io/groupings.rs
@@ -167,9 +167,9 @@ impl RawGroupings {
 
 fn remove_special_chars_from_grouping_name(mut name: String) -> String {
     name.retain(|c| c != ',');
-    let mut maybe_fullstop = name.split_off(name.len() - 1);
-    maybe_fullstop.retain(|c| c != '.');
-    name.push_str(&maybe_fullstop);
+    if name.ends_with('.') {
+        name.pop();
+    }
     name
 }
 
-- 
2.43.0


From 6986f8f21467fdccc54ad2e353efc4014a2c9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 05/15] fix: don't panic when generating scale-free graphs with
 m0 = 1

---
 src/simulation/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/graph.rs b/src/simulation/graph.rs
index 1620b63..32d804e 100644
--- a/src/simulation/graph.rs
+++ b/src/simulation/graph.rs
@@ -68,7 +68,8 @@ impl Graph {
             let mut possible_targets: Vec<NodeId> = (0..i).collect();
             for _ in 0..m {
                 let j = possible_targets
-                    .choose_weighted(&mut rng, |&x| outlinks[x].len())
+                    // `max` because the first node has no connections yet if `m0 == 1`
+                    .choose_weighted(&mut rng, |&x| outlinks[x].len().max(1))
                     .unwrap()
                     .to_owned();
                 connect!(i, j);
-- 
2.43.0


From 362ce83d6cc379e132231ae13a94735ef3acde4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 06/15] fix: don't panic in RandomQsc if all remaining nodes
 have weight 0

---
 src/simulation/qsc/random.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index ac24100..672ef49 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -51,7 +51,8 @@ impl QuorumSetConfigurator for RandomQsc {
                     .choose_weighted(&mut rng, |&node_id| {
                         *self.weights.get(node_id).unwrap_or(&1)
                     })
-                    .unwrap();
+                    // all remaining nodes have weight 0 => they are equally (un)likely
+                    .unwrap_or_else(|_| available_nodes.choose(&mut rng).unwrap());
                 let chosen_idx = available_nodes.binary_search(&chosen_node).unwrap();
                 available_nodes.remove(chosen_idx);
                 existing_quorum_set.validators.push(chosen_node);
-- 
2.43.0


From dc9807194fba7bf2082fc84887cf47ac4be7f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 07/15] fix: refuse to overwrite existing output files in all
 cases

---
 src/bin/bulk_fbas_analyzer.rs          | 27 ++++++++++++++++----------
 src/bin/bulk_performance_experiment.rs | 27 ++++++++++++++++----------
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/bin/bulk_fbas_analyzer.rs b/src/bin/bulk_fbas_analyzer.rs
index df78e56..4262419 100644
--- a/src/bin/bulk_fbas_analyzer.rs
+++ b/src/bin/bulk_fbas_analyzer.rs
@@ -9,6 +9,7 @@ use structopt::StructOpt;
 
 use std::collections::BTreeMap;
 use std::error::Error;
+use std::fs::OpenOptions;
 use std::io;
 use std::path::{Path, PathBuf};
 
@@ -358,14 +359,7 @@ fn write_csv(
     overwrite_allowed: bool,
 ) -> Result<(), Box<dyn Error>> {
     if let Some(path) = output_path {
-        if !overwrite_allowed && path.exists() {
-            Err(Box::new(io::Error::new(
-                io::ErrorKind::AlreadyExists,
-                "Output file exists, refusing to overwrite.",
-            )))
-        } else {
-            write_csv_to_file(data_points, path)
-        }
+        write_csv_to_file(data_points, path, overwrite_allowed)
     } else {
         write_csv_to_stdout(data_points)
     }
@@ -464,9 +458,22 @@ fn read_csv_from_file(path: &Path) -> Result<Vec<OutputDataPoint>, Box<dyn Error
 fn write_csv_to_file(
     data_points: impl IntoIterator<Item = impl serde::Serialize>,
     path: &Path,
+    overwrite_allowed: bool,
 ) -> Result<(), Box<dyn Error>> {
-    let writer = Writer::from_path(path)?;
-    write_csv_via_writer(data_points, writer)
+    let mut options = OpenOptions::new();
+    options.write(true);
+    if overwrite_allowed {
+        options.create(true).truncate(true);
+    } else {
+        options.create_new(true); // checks and creates in one step
+    }
+    let file = options.open(path).map_err(|e| match e.kind() {
+        io::ErrorKind::AlreadyExists => {
+            io::Error::new(e.kind(), "Output file exists, refusing to overwrite.")
+        }
+        _ => e,
+    })?;
+    write_csv_via_writer(data_points, Writer::from_writer(file))
 }
 fn write_csv_to_stdout(
     data_points: impl IntoIterator<Item = impl serde::Serialize>,
diff --git a/src/bin/bulk_performance_experiment.rs b/src/bin/bulk_performance_experiment.rs
index 46e95b7..2cce811 100644
--- a/src/bin/bulk_performance_experiment.rs
+++ b/src/bin/bulk_performance_experiment.rs
@@ -11,6 +11,7 @@ use csv::{Reader, Writer};
 use std::io;
 
 use std::error::Error;
+use std::fs::OpenOptions;
 use std::path::{Path, PathBuf};
 
 use par_map::ParMap;
@@ -252,14 +253,7 @@ fn write_csv(
     overwrite_allowed: bool,
 ) -> Result<(), Box<dyn Error>> {
     if let Some(path) = output_path {
-        if !overwrite_allowed && path.exists() {
-            Err(Box::new(io::Error::new(
-                io::ErrorKind::AlreadyExists,
-                "Output file exists, refusing to overwrite.",
-            )))
-        } else {
-            write_csv_to_file(data_points, path)
-        }
+        write_csv_to_file(data_points, path, overwrite_allowed)
     } else {
         write_csv_to_stdout(data_points)
     }
@@ -325,9 +319,22 @@ fn read_csv_from_file(path: &Path) -> Result<Vec<OutputDataPoint>, Box<dyn Error
 fn write_csv_to_file(
     data_points: impl IntoIterator<Item = impl serde::Serialize>,
     path: &Path,
+    overwrite_allowed: bool,
 ) -> Result<(), Box<dyn Error>> {
-    let writer = Writer::from_path(path)?;
-    write_csv_via_writer(data_points, writer)
+    let mut options = OpenOptions::new();
+    options.write(true);
+    if overwrite_allowed {
+        options.create(true).truncate(true);
+    } else {
+        options.create_new(true); // checks and creates in one step
+    }
+    let file = options.open(path).map_err(|e| match e.kind() {
+        io::ErrorKind::AlreadyExists => {
+            io::Error::new(e.kind(), "Output file exists, refusing to overwrite.")
+        }
+        _ => e,
+    })?;
+    write_csv_via_writer(data_points, Writer::from_writer(file))
 }
 fn write_csv_to_stdout(
     data_points: impl IntoIterator<Item = impl serde::Serialize>,
-- 
2.43.0


From fef31c42276d695e670996fd0a8bec1f575c60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 08/15] fix: keep the existing output file until all results of
 an update are there

---
 src/bin/bulk_fbas_analyzer.rs          | 6 ++++++
 src/bin/bulk_performance_experiment.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/bin/bulk_fbas_analyzer.rs b/src/bin/bulk_fbas_analyzer.rs
index 4262419..d6714dc 100644
--- a/src/bin/bulk_fbas_analyzer.rs
+++ b/src/bin/bulk_fbas_analyzer.rs
@@ -467,6 +467,12 @@ fn write_csv_to_file(
     } else {
         options.create_new(true); // checks and creates in one step
     }
+    let data_points: Box<dyn Iterator<Item = _>> = if overwrite_allowed {
+        // don't touch existing results until we have everything that should be written
+        Box::new(data_points.into_iter().collect::<Vec<_>>().into_iter())
+    } else {
+        Box::new(data_points.into_iter())
+    };
     let file = options.open(path).map_err(|e| match e.kind() {
         io::ErrorKind::AlreadyExists => {
             io::Error::new(e.kind(), "Output file exists, refusing to overwrite.")
diff --git a/src/bin/bulk_performance_experiment.rs b/src/bin/bulk_performance_experiment.rs
index 2cce811..70abba7 100644
--- a/src/bin/bulk_performance_experiment.rs
+++ b/src/bin/bulk_performance_experiment.rs
@@ -328,6 +328,12 @@ fn write_csv_to_file(
     } else {
         options.create_new(true); // checks and creates in one step
     }
+    let data_points: Box<dyn Iterator<Item = _>> = if overwrite_allowed {
+        // don't touch existing results until we have everything that should be written
+        Box::new(data_points.into_iter().collect::<Vec<_>>().into_iter())
+    } else {
+        Box::new(data_points.into_iter())
+    };
     let file = options.open(path).map_err(|e| match e.kind() {
         io::ErrorKind::AlreadyExists => {
             io::Error::new(e.kind(), "Output file exists, refusing to overwrite.")
-- 
2.43.0


From cad8019701ec442442227bf614706c1c193d3802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 09/15] fix: return original node IDs from
 NodeIdSetVecResult::involved_nodes

---
 src/analysis/results.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/analysis/results.rs b/src/analysis/results.rs
index b677109..14b7250 100644
--- a/src/analysis/results.rs
+++ b/src/analysis/results.rs
@@ -83,7 +83,11 @@ impl NodeIdSetVecResult {
             .collect()
     }
     pub fn involved_nodes(&self) -> NodeIdSet {
-        involved_nodes(&self.node_sets)
+        let involved = involved_nodes(&self.node_sets);
+        match &self.unshrink_table {
+            Some(unshrink_table) => unshrink_set(&involved, unshrink_table),
+            None => involved,
+        }
     }
     pub fn len(&self) -> usize {
         self.node_sets.len()
-- 
2.43.0


From 4660104aa4cad4691973a696dfa62c913b5a78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 10/15] fix: keep the mapping from public keys to node IDs when
 shrinking an FBAS

---
 src/core_types/shrinking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core_types/shrinking.rs b/src/core_types/shrinking.rs
index 3f9d28b..0acf526 100644
--- a/src/core_types/shrinking.rs
+++ b/src/core_types/shrinking.rs
@@ -96,6 +96,12 @@ impl Fbas {
                 fbas_shrunken.nodes[new_id] = Node::shrunken(&self.nodes[old_id], &shrink_map);
             }
         }
+        fbas_shrunken.pk_to_id = fbas_shrunken
+            .nodes
+            .iter()
+            .enumerate()
+            .map(|(id, node)| (node.public_key.clone(), id))
+            .collect();
         (fbas_shrunken, shrink_manager)
     }
 }
-- 
2.43.0


From 4efd2c73c83b3b190d635a089fc8dc2f6581921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 11/15] fix: 67p threshold for zero validators is 1, as per its
 formula

With t = 0 the configured quorum set was indistinguishable from an
unconfigured one, so GlobalRankQsc on regular graphs never stabilized.
---
 src/simulation/qsc/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/qsc/mod.rs b/src/simulation/qsc/mod.rs
index 8760a28..200e3dc 100644
--- a/src/simulation/qsc/mod.rs
+++ b/src/simulation/qsc/mod.rs
@@ -34,7 +34,8 @@ fn calculate_threshold(n: usize, relative_threshold: Option<f64>) -> usize {
 /// t = ceil((2n+1)/3) => n >= 3f+1
 pub fn calculate_67p_threshold(n: usize) -> usize {
     // reformed for more robustness against floating point errors
-    n - ((n as f64 - 1.) / 3.).floor() as usize
+    // `max` because the formula requires t = 1 for n = 0
+    cmp::max(1, n - ((n as f64 - 1.) / 3.).floor() as usize)
 }
 
 /// t = max(1, ceil(nx))
-- 
2.43.0


From 61e5a0690b0753a051571ad2025ec292e7eb1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 12/15] fix: don't take an unreadable existing output file for
 an empty one

The csv reader swallows errors from reading the header line when deserializing and
then reports the end of the file. With -u, both bulk tools went on to overwrite the
existing results.
---
 src/bin/bulk_fbas_analyzer.rs          | 1 +
 src/bin/bulk_performance_experiment.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bin/bulk_fbas_analyzer.rs b/src/bin/bulk_fbas_analyzer.rs
index d6714dc..891cff6 100644
--- a/src/bin/bulk_fbas_analyzer.rs
+++ b/src/bin/bulk_fbas_analyzer.rs
@@ -449,6 +449,7 @@ fn maybe_load_countries<'a>(nodes_path: &Path, fbas: &'a Fbas) -> Option<Groupin
 
 fn read_csv_from_file(path: &Path) -> Result<Vec<OutputDataPoint>, Box<dyn Error>> {
     let mut reader = Reader::from_path(path)?;
+    reader.headers()?; // `deserialize` ignores errors here and goes on as if the file was empty
     let mut result = vec![];
     for line in reader.deserialize() {
         result.push(line?);
diff --git a/src/bin/bulk_performance_experiment.rs b/src/bin/bulk_performance_experiment.rs
index 70abba7..3813776 100644
--- a/src/bin/bulk_performance_experiment.rs
+++ b/src/bin/bulk_performance_experiment.rs
@@ -310,6 +310,7 @@ fn make_almost_ideal_stellarlike_fbas(top_tier_size: usize) -> Fbas {
 
 fn read_csv_from_file(path: &Path) -> Result<Vec<OutputDataPoint>, Box<dyn Error>> {
     let mut reader = Reader::from_path(path)?;
+    reader.headers()?; // `deserialize` ignores errors here and goes on as if the file was empty
     let mut result = vec![];
     for line in reader.deserialize() {
         result.push(line?);
-- 
2.43.0


From c7dcd38f5640b6e3a373cfc281118b19a5e75367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 13/15] fix: don't take a truncated bz2 file for a complete one

---
 src/io/graph.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io/graph.rs b/src/io/graph.rs
index 7bf6451..83aca8b 100644
--- a/src/io/graph.rs
+++ b/src/io/graph.rs
@@ -98,11 +98,18 @@ fn get_edge_from_as_rel_line(line: &str) -> Option<(NodeId, NodeId, bool)> {
 
 fn read_bz2_file_to_string(path: &Path) -> io::Result<String> {
     let f = fs::File::open(path)?;
-    let mut decompressor = BzDecoder::new(f);
+    // `BzDecoder` by itself takes the end of a truncated file for the end of the data
+    let mut decompressor = BzDecoder::new(f.chain(UnexpectedEnd));
     let mut contents = String::new();
     decompressor.read_to_string(&mut contents)?;
     Ok(contents)
 }
+struct UnexpectedEnd;
+impl Read for UnexpectedEnd {
+    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
+        Err(io::ErrorKind::UnexpectedEof.into())
+    }
+}
 fn read_file_to_string(path: &Path) -> io::Result<String> {
     let mut f = fs::File::open(path)?;
     let mut contents = String::new();
-- 
2.43.0


From d552ceea2ed80954e44255c06c715e2b7215888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 14/15] fix: read all streams of a bz2 file

---
 src/io/graph.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/io/graph.rs b/src/io/graph.rs
index 83aca8b..b1a9782 100644
--- a/src/io/graph.rs
+++ b/src/io/graph.rs
@@ -1,7 +1,7 @@
 use super::*;
 use crate::simulation::Graph;
 
-use bzip2::read::BzDecoder;
+use bzip2::bufread::BzDecoder;
 use bzip2::write;
 use bzip2::Compression;
 use std::cmp::max;
@@ -97,11 +97,15 @@ fn get_edge_from_as_rel_line(line: &str) -> Option<(NodeId, NodeId, bool)> {
 }
 
 fn read_bz2_file_to_string(path: &Path) -> io::Result<String> {
-    let f = fs::File::open(path)?;
-    // `BzDecoder` by itself takes the end of a truncated file for the end of the data
-    let mut decompressor = BzDecoder::new(f.chain(UnexpectedEnd));
+    let compressed = fs::read(path)?;
+    let mut rest = &compressed[..];
     let mut contents = String::new();
-    decompressor.read_to_string(&mut contents)?;
+    // there can be several streams, e.g., in files made by parallel compressors
+    while !rest.is_empty() {
+        // `BzDecoder` by itself takes the end of a truncated file for the end of the data
+        let mut decompressor = BzDecoder::new((&mut rest).chain(UnexpectedEnd));
+        decompressor.read_to_string(&mut contents)?;
+    }
     Ok(contents)
 }
 struct UnexpectedEnd;
@@ -110,6 +114,12 @@ impl Read for UnexpectedEnd {
         Err(io::ErrorKind::UnexpectedEof.into())
     }
 }
+impl BufRead for UnexpectedEnd {
+    fn fill_buf(&mut self) -> io::Result<&[u8]> {
+        Err(io::ErrorKind::UnexpectedEof.into())
+    }
+    fn consume(&mut self, _: usize) {}
+}
 fn read_file_to_string(path: &Path) -> io::Result<String> {
     let mut f = fs::File::open(path)?;
     let mut contents = String::new();
-- 
2.43.0


From 02bfa100cd35be0486df5db285ce9424e069c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 15/15] fix: don't complete a bz2 graph file after a failed
 write

---
 src/io/graph.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/io/graph.rs b/src/io/graph.rs
index b1a9782..f62ec85 100644
--- a/src/io/graph.rs
+++ b/src/io/graph.rs
@@ -7,7 +7,6 @@ use bzip2::Compression;
 use std::cmp::max;
 
 use std::fs;
-use std::fs::File;
 
 use std::io::prelude::*;
 
@@ -47,12 +46,12 @@ impl Graph {
         path: &Path,
         head_comment: Option<&str>,
     ) -> std::io::Result<()> {
-        let file = File::create(&path)?;
-        let mut compresser = write::BzEncoder::new(file, Compression::Default);
-        let graph_as_string = Self::to_as_rel_string(graph, head_comment).unwrap();
-        compresser.write_all(graph_as_string.as_bytes()).unwrap();
-        compresser.finish()?;
-        Ok(())
+        // An encoder that writes to the file directly would complete the bz2 stream when it is
+        // dropped after an error, leaving a file that reads as a smaller graph.
+        let mut compresser = write::BzEncoder::new(Vec::new(), Compression::Default);
+        let graph_as_string = Self::to_as_rel_string(graph, head_comment)?;
+        compresser.write_all(graph_as_string.as_bytes())?;
+        fs::write(path, compresser.finish()?)
     }
     pub fn to_as_rel_string(graph: &Self, head_comment: Option<&str>) -> io::Result<String> {
         let mut graph_as_string = String::new();
-- 
2.43.0

