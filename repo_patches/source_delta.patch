From b3f06a7ab310dab761808661e374d8a9a4f79c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 01/32] fix: do not panic in debug builds when a description
 file is parsed again

The debug-only read map assumed that no package.json is ever parsed twice.
That does not hold: two threads may miss the cache at the same time, a file
whose parsing failed is parsed again by the next call, and two resolvers with
different options may do so through different caches.  Each of these made
resolve() panic in debug builds.
---
 src/cache.rs       | 19 -------------------
 src/description.rs | 19 -------------------
 src/lib.rs         |  7 -------
 3 files changed, 45 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 85e0c79..c1900a8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -11,22 +11,3 @@ pub struct ResolverCache {
     pub exports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
     pub imports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
 }
-
-#[cfg(debug_assertions)]
-#[derive(Default, Debug, Clone)]
-pub(crate) struct DebugReadMap(DashMap<PathBuf, bool>);
-
-#[cfg(debug_assertions)]
-impl DebugReadMap {
-    pub(crate) fn remove(&self, path: &std::path::Path) {
-        self.0.remove(path);
-    }
-
-    pub(crate) fn contains_key(&self, path: &std::path::Path) -> bool {
-        self.0.contains_key(path)
-    }
-
-    pub(crate) fn insert(&self, path: &std::path::Path, value: bool) {
-        self.0.insert(path.to_path_buf(), value);
-    }
-}
diff --git a/src/description.rs b/src/description.rs
index 416468d..fbd5911 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -27,20 +27,6 @@ pub struct PkgFileInfo {
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
-        #[cfg(debug_assertions)]
-        {
-            // ensure that the same package.json is not parsed twice
-            if self.dbg_read_map.contains_key(&file_path) {
-                println!("{:?}", self.cache.file_dir_to_pkg_info);
-                println!("{:?}", self.dbg_read_map);
-                panic!(
-                    "Had try to parse same package.json, {}",
-                    file_path.display()
-                )
-            }
-            self.dbg_read_map.insert(&file_path, true);
-        }
-
         let str = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
@@ -183,11 +169,6 @@ impl Resolver {
                 // and not modified, then return
                 return Ok(r#ref.clone());
             } else {
-                #[cfg(debug_assertions)]
-                {
-                    self.dbg_read_map.remove(&description_file_path);
-                }
-
                 false
             }
         } else {
diff --git a/src/lib.rs b/src/lib.rs
index 0dcfb57..2b08531 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,9 +54,6 @@ mod tsconfig;
 mod tsconfig_path;
 mod utils;
 
-#[cfg(debug_assertions)]
-use cache::DebugReadMap;
-
 pub use cache::ResolverCache;
 pub use description::SideEffects;
 use kind::PathKind;
@@ -75,8 +72,6 @@ pub struct Resolver {
     pub options: ResolverOptions,
     cache: Arc<ResolverCache>,
     fs: fs::CacheFile,
-    #[cfg(debug_assertions)]
-    dbg_read_map: DebugReadMap,
 }
 
 pub type ResolverError = String;
@@ -179,8 +174,6 @@ impl Resolver {
             fs,
             cache,
             options,
-            #[cfg(debug_assertions)]
-            dbg_read_map: Default::default(),
         }
     }
 
-- 
2.43.0


From 60418ec872b3598a5d672be4fc45d303a5a65e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 02/32] fix: report a directory without an entry as unresolved
 instead of panicking

A relative or absolute request for an existing directory that has neither a
usable main field nor a main file (for instance because its index file has
just been deleted) ran into unreachable!() at the end of _resolve().
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b08531..220eba4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,7 +245,8 @@ impl Resolver {
                 };
                 ResolverStats::Error((err_msg, info))
             }
-            _ => unreachable!(),
+            // e.g. a directory that has neither a main field nor a main file
+            ResolverStats::Resolving(info) => ResolverStats::Error((resolve_err_msg, info)),
         }
     }
 }
-- 
2.43.0


From c2691d41e936ea4aa49aabda3eb5f8cf22db8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 03/32] fix: reload a description file whose modification time
 moved backwards

Restoring an older file (git checkout with preserved times, cp -p, a package
manager's normalised times, an adjusted clock) made every further call that
needed the file fail with "Compare SystemTime failed".
---
 src/fs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fs.rs b/src/fs.rs
index 2d67760..e43b08b 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -42,12 +42,14 @@ impl CacheFile {
             .get(path.as_ref())
             .map(|value| value.1)
             .map(|stored_last_modify_time| -> RResult<bool> {
-                let duration = Self::get_last_modified_time_from_file(path.as_ref())?
-                    .duration_since(stored_last_modify_time)
-                    .map_err(|_| {
-                        format!("Compare SystemTime failed in {}", path.as_ref().display())
-                    })?;
-                Ok(duration >= self.duration)
+                let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
+                Ok(
+                    match last_modified_time.duration_since(stored_last_modify_time) {
+                        Ok(duration) => duration >= self.duration,
+                        // the file is older than what had been read, so it is another one
+                        Err(_) => true,
+                    },
+                )
             })
             .map_or(Ok(true), |val| val)
     }
-- 
2.43.0


From d7dc5e03b2516687f1fc9e6c6e332851aaafbe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 04/32] fix: try tsconfig path mappings in a fixed order

The mappings were tried in the iteration order of a HashMap, so that which of
several matching patterns won differed from process to process (and from call
to call).
---
 src/tsconfig_path.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 7a43b55..e531fa1 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -25,7 +25,7 @@ impl Resolver {
         absolute_base_url: &Path,
         paths: &HashMap<String, Vec<String>>,
     ) -> Vec<MappingEntry> {
-        paths
+        let mut entries: Vec<MappingEntry> = paths
             .iter()
             .map(|(key, paths)| {
                 let pattern = key.to_string();
@@ -35,7 +35,16 @@ impl Resolver {
                     .collect();
                 MappingEntry { pattern, paths }
             })
-            .collect()
+            .collect();
+        // `paths` has no order of its own. Like TypeScript does, try an exact pattern
+        // first, then the ones with the longest prefix in front of the '*'.
+        entries.sort_by(|a, b| {
+            let star = |entry: &MappingEntry| entry.pattern.find('*').unwrap_or(usize::MAX);
+            star(b)
+                .cmp(&star(a))
+                .then_with(|| a.pattern.cmp(&b.pattern))
+        });
+        entries
     }
 
     fn parse_tsconfig(location: &Path, resolver: &Resolver) -> RResult<TsConfigInfo> {
-- 
2.43.0


From c27822ac785d375f9fad4289d84cdd149331904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 05/32] fix: match browser field entries in the order they are
 written

They were kept in a HashMap and matched in its iteration order, so that which
of several matching entries won ("./lib" and "./lib.js", say) differed from
process to process.
---
 src/description.rs        | 6 +++---
 src/plugin/alias_field.rs | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index fbd5911..0f8f488 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -1,6 +1,6 @@
 use crate::map::{ExportsField, Field, ImportsField, PathTreeNode};
 use crate::{AliasMap, RResult, Resolver};
-use std::collections::HashMap;
+use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -17,7 +17,7 @@ pub struct PkgFileInfo {
     pub abs_dir_path: PathBuf,
     pub name: Option<String>,
     pub version: Option<String>,
-    pub alias_fields: HashMap<String, AliasMap>,
+    pub alias_fields: IndexMap<String, AliasMap>,
     pub exports_field_tree: Option<Arc<PathTreeNode>>,
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
@@ -38,7 +38,7 @@ impl Resolver {
                     .map_err(|_| format!("Parse {} failed", file_path.display()))
             })?;
 
-        let mut alias_fields = HashMap::new();
+        let mut alias_fields = IndexMap::new();
 
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 425049d..dc1731e 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,6 +1,7 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
+use indexmap::IndexMap;
 use std::sync::Arc;
-use std::{collections::HashMap, path::PathBuf};
+use std::path::PathBuf;
 
 use super::Plugin;
 use crate::{PathKind, ResolveInfo, ResolveResult, ResolverStats};
@@ -17,7 +18,7 @@ impl<'a> AliasFieldPlugin<'a> {
     pub(super) fn deal_with_alias_fields_recursive(
         &self,
         target: &AliasMap,
-        alias_fields: &HashMap<String, AliasMap>,
+        alias_fields: &IndexMap<String, AliasMap>,
     ) -> AliasMap {
         match target {
             AliasMap::Target(target) => {
-- 
2.43.0


From 5df852b089beff6d665870e9e0b4ca4993d1a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 06/32] fix: do not keep the first caller's spelling of a
 package directory

Paths that differ only in '.' components are one key of the package cache, but
the cached info kept the spelling of the call that happened to load it:
load_side_effects("/a") answered "/a/././package.json" after
resolve("/a", ".").
---
 src/description.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 0f8f488..0fba861 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -124,7 +124,9 @@ impl Resolver {
         Ok(PkgFileInfo {
             name,
             version,
-            abs_dir_path: dir.to_path_buf(),
+            // without `.` components: the same for every spelling of `dir` that leads here,
+            // because they all are the same key of the cache
+            abs_dir_path: dir.components().collect(),
             alias_fields,
             exports_field_tree,
             imports_field_tree,
-- 
2.43.0


From 727edcee8917d9478c33db0ae83a83cb0000127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 07/32] fix: keep trees of imports fields in the imports cache

They were stored in the cache for exports fields (and hence never found by a
later lookup), where an exports field with the same content picked them up:
the answer for a package depended on which other packages had been read
before.
---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 0fba861..df06387 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -76,7 +76,7 @@ impl Resolver {
                 Some(tree.clone())
             } else {
                 let tree = Arc::new(ImportsField::build_field_path_tree(value)?);
-                self.cache.exports_content_to_tree.insert(key, tree.clone());
+                self.cache.imports_content_to_tree.insert(key, tree.clone());
                 Some(tree)
             }
         } else {
-- 
2.43.0


From bc74483fe0e8c8ecaf5b399c3265f4b3315569e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 08/32] fix: do not hold a cache lock while checking a file's
 modification time

load_pkg_file() kept the DashMap guard of the entry while it did stat() calls.
While such a call hangs (network file systems), any other caller that needs to
insert into the same shard of the shared cache hangs with it - and with that
one, every caller that only wants to read from the shard.
---
 src/description.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index df06387..ba2d981 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -165,11 +165,17 @@ impl Resolver {
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
-        let need_find_up = if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
+        // Clone it, instead of holding the lock of the map while the file system is accessed.
+        let cached = self
+            .cache
+            .file_dir_to_pkg_info
+            .get(path)
+            .map(|pkg_info| pkg_info.value().clone());
+        let need_find_up = if let Some(pkg_info) = cached {
             // if pkg_info_cache contain this key
             if !self.fs.need_update(&description_file_path)? {
                 // and not modified, then return
-                return Ok(r#ref.clone());
+                return Ok(pkg_info);
             } else {
                 false
             }
-- 
2.43.0


From c1be24a2e45a07771d134788a12efe31611a44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 09/32] fix: look up which directory holds the description file
 on every call

---
 src/description.rs | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index ba2d981..6f14e84 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -165,48 +165,34 @@ impl Resolver {
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
+        if !description_file_path.is_file() {
+            // Find the closest directory which contains a description file. Whether there is
+            // one has to be looked up each time, because such a file may appear or disappear.
+            return match path
+                .parent()
+                .and_then(|parent| Self::find_up(parent, description_file_name))
+            {
+                Some(target_dir) => self.load_pkg_file(&target_dir),
+                None => Ok(None),
+            };
+        }
+
         // Clone it, instead of holding the lock of the map while the file system is accessed.
         let cached = self
             .cache
             .file_dir_to_pkg_info
             .get(path)
             .map(|pkg_info| pkg_info.value().clone());
-        let need_find_up = if let Some(pkg_info) = cached {
+        if let Some(pkg_info) = cached {
             // if pkg_info_cache contain this key
             if !self.fs.need_update(&description_file_path)? {
                 // and not modified, then return
                 return Ok(pkg_info);
-            } else {
-                false
             }
-        } else {
-            !description_file_path.is_file()
-        };
+        }
 
         // pkg_info_cache do **not** contain this key
         // or this file had modified
-        if need_find_up {
-            // find the closest directory witch contains description file
-            if let Some(target_dir) = Self::find_up(path, description_file_name) {
-                return self.load_pkg_file(&target_dir);
-            } else {
-                // it means all paths during from the `path` to root pointed None.
-                // cache it
-                let mut path = path;
-                loop {
-                    if path.is_dir() {
-                        self.cache
-                            .file_dir_to_pkg_info
-                            .insert(path.to_path_buf(), None);
-                        match path.parent() {
-                            Some(parent) => path = parent,
-                            None => return Ok(None),
-                        }
-                    }
-                }
-            }
-        }
-
         let pkg_info = Some(Arc::new(
             self.parse_description_file(path, description_file_path)?,
         ));
-- 
2.43.0


From 91bff0c26cde74d4572980fadbdc522a1af628f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 10/32] fix: do not take the info of another description file
 for the configured one

---
 src/description.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 6f14e84..d4e2863 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -15,6 +15,9 @@ pub struct PkgFileInfo {
     /// The path to the directory where the description file located.
     /// It not a property in package.json.
     pub abs_dir_path: PathBuf,
+    /// The path to the description file itself.
+    /// It not a property in package.json.
+    pub file_path: PathBuf,
     pub name: Option<String>,
     pub version: Option<String>,
     pub alias_fields: IndexMap<String, AliasMap>,
@@ -127,6 +130,7 @@ impl Resolver {
             // without `.` components: the same for every spelling of `dir` that leads here,
             // because they all are the same key of the cache
             abs_dir_path: dir.components().collect(),
+            file_path,
             alias_fields,
             exports_field_tree,
             imports_field_tree,
@@ -183,7 +187,12 @@ impl Resolver {
             .file_dir_to_pkg_info
             .get(path)
             .map(|pkg_info| pkg_info.value().clone());
-        if let Some(pkg_info) = cached {
+        if let Some(pkg_info) = cached.filter(|pkg_info| {
+            // resolvers which share a cache may have different names for description files
+            pkg_info
+                .as_ref()
+                .map_or(false, |info| info.file_path == description_file_path)
+        }) {
             // if pkg_info_cache contain this key
             if !self.fs.need_update(&description_file_path)? {
                 // and not modified, then return
-- 
2.43.0


From fb9d81fe4dee099e2733c188e945037dabe7cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 11/32] fix: keep the modification time of a description file
 next to its content

---
 src/description.rs | 25 ++++++++++++--------
 src/fs.rs          | 57 +++++++++++++++++++---------------------------
 2 files changed, 38 insertions(+), 44 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index d4e2863..c2f0ffd 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -3,6 +3,7 @@ use crate::{AliasMap, RResult, Resolver};
 use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
+use std::time::SystemTime;
 
 #[derive(Clone, Debug)]
 pub enum SideEffects {
@@ -18,6 +19,9 @@ pub struct PkgFileInfo {
     /// The path to the description file itself.
     /// It not a property in package.json.
     pub file_path: PathBuf,
+    /// The modified time of the description file when it was read.
+    /// It not a property in package.json.
+    pub last_modified_time: SystemTime,
     pub name: Option<String>,
     pub version: Option<String>,
     pub alias_fields: IndexMap<String, AliasMap>,
@@ -30,7 +34,7 @@ pub struct PkgFileInfo {
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
-        let str = tracing::debug_span!("read_to_string").in_scope(|| {
+        let (str, last_modified_time) = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
                 .map_err(|_| format!("Open {} failed", file_path.display()))
@@ -131,6 +135,7 @@ impl Resolver {
             // because they all are the same key of the cache
             abs_dir_path: dir.components().collect(),
             file_path,
+            last_modified_time,
             alias_fields,
             exports_field_tree,
             imports_field_tree,
@@ -186,17 +191,17 @@ impl Resolver {
             .cache
             .file_dir_to_pkg_info
             .get(path)
-            .map(|pkg_info| pkg_info.value().clone());
-        if let Some(pkg_info) = cached.filter(|pkg_info| {
+            .and_then(|pkg_info| pkg_info.value().clone());
+        if let Some(pkg_info) = cached {
+            // if pkg_info_cache contain this key, and it is the info of the same file:
             // resolvers which share a cache may have different names for description files
-            pkg_info
-                .as_ref()
-                .map_or(false, |info| info.file_path == description_file_path)
-        }) {
-            // if pkg_info_cache contain this key
-            if !self.fs.need_update(&description_file_path)? {
+            if pkg_info.file_path == description_file_path
+                && !self
+                    .fs
+                    .need_update(&description_file_path, pkg_info.last_modified_time)?
+            {
                 // and not modified, then return
-                return Ok(pkg_info);
+                return Ok(Some(pkg_info));
             }
         }
 
diff --git a/src/fs.rs b/src/fs.rs
index e43b08b..f908f40 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -1,9 +1,6 @@
-use dashmap::DashMap;
 use std::fmt::Debug;
 use std::fs;
 use std::path::Path;
-use std::path::PathBuf;
-use std::sync::Arc;
 use std::time;
 
 use crate::RResult;
@@ -11,7 +8,6 @@ use crate::RResult;
 #[derive(Default, Debug)]
 pub struct CacheFile {
     duration: time::Duration,
-    cached_file: DashMap<PathBuf, (Arc<String>, time::SystemTime)>,
 }
 
 impl CacheFile {
@@ -19,7 +15,6 @@ impl CacheFile {
     pub fn new(duration: u64) -> Self {
         CacheFile {
             duration: time::Duration::from_millis(duration),
-            cached_file: Default::default(),
         }
     }
 
@@ -32,39 +27,33 @@ impl CacheFile {
             .map_err(|_| format!("Get modified time of {} failed", path.as_ref().display()))
     }
 
+    /// `stored_last_modify_time` is what `read_to_string` had returned with the content.
     #[tracing::instrument]
-    pub fn need_update<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<bool> {
-        if !path.as_ref().is_file() {
-            // no  need update if `p` pointed file dose not exist
-            return Ok(false);
-        }
-        self.cached_file
-            .get(path.as_ref())
-            .map(|value| value.1)
-            .map(|stored_last_modify_time| -> RResult<bool> {
-                let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
-                Ok(
-                    match last_modified_time.duration_since(stored_last_modify_time) {
-                        Ok(duration) => duration >= self.duration,
-                        // the file is older than what had been read, so it is another one
-                        Err(_) => true,
-                    },
-                )
-            })
-            .map_or(Ok(true), |val| val)
+    pub fn need_update<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+        stored_last_modify_time: time::SystemTime,
+    ) -> RResult<bool> {
+        let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
+        Ok(
+            match last_modified_time.duration_since(stored_last_modify_time) {
+                Ok(duration) => duration >= self.duration,
+                // the file is older than what had been read, so it is another one
+                Err(_) => true,
+            },
+        )
     }
 
     #[tracing::instrument]
-    pub fn read_to_string<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<Arc<String>> {
-        let str = Arc::new(
-            fs::read_to_string(path.as_ref())
-                .map_err(|_| format!("Open {} failed", path.as_ref().display()))?,
-        );
+    pub fn read_to_string<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+    ) -> RResult<(String, time::SystemTime)> {
+        // It should be before the reading: if the file is modified in between, then the content
+        // goes with an older modified time, and will be read again.
         let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
-        self.cached_file.insert(
-            path.as_ref().to_path_buf(),
-            (str.clone(), last_modified_time),
-        );
-        Ok(str)
+        let str = fs::read_to_string(path.as_ref())
+            .map_err(|_| format!("Open {} failed", path.as_ref().display()))?;
+        Ok((str, last_modified_time))
     }
 }
-- 
2.43.0


From 1ab1da52f4975eb2d797fbcccd85994a62cedef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 12/32] fix: report an unusable description file met while
 following a main field

---
 src/plugin/main_field.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index a68c6a7..21e1b1c 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, Resolver};
+use crate::{description::PkgFileInfo, utils::RAISE_RESOLVE_ERROR_TAG, Resolver};
 
 use super::{AliasFieldPlugin, Plugin, ResolveInfo, ResolverStats};
 
@@ -45,11 +45,14 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         .and_then(|info| resolver.resolve_as_file(info))
                         .and_then(|info| resolver.resolve_as_dir(info));
 
-                    if stats.is_success() {
-                        return stats;
-                    } else {
-                        main_field_info = stats.extract_info();
-                    }
+                    main_field_info = match stats {
+                        // only an entry which is not found gives way to the next one
+                        ResolverStats::Error((error, info)) if error == RAISE_RESOLVE_ERROR_TAG => {
+                            info
+                        }
+                        ResolverStats::Resolving(info) => info,
+                        _ => return stats,
+                    };
                 }
             }
         }
-- 
2.43.0


From 1d237d552901cdd937258749d19a53586dd5ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 13/32] fix: report unexpected values in a description file
 instead of panicking

---
 src/description.rs | 14 +++++++++++---
 src/map.rs         | 19 ++++++++++++++++---
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index c2f0ffd..9780532 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -51,7 +51,13 @@ impl Resolver {
             if let Some(map) = value.as_object() {
                 for (key, value) in map {
                     if let Some(b) = value.as_bool() {
-                        assert!(!b);
+                        if b {
+                            return Err(format!(
+                                "browser in {} had unexpected value {}",
+                                file_path.display(),
+                                value
+                            ));
+                        }
                         alias_fields.insert(key.to_string(), AliasMap::Ignored);
                     } else if let Some(s) = value.as_str() {
                         alias_fields.insert(key.to_string(), AliasMap::Target(s.to_string()));
@@ -60,7 +66,8 @@ impl Resolver {
             }
         }
 
-        let exports_field_tree = if let Some(value) = json.get("exports") {
+        let exports_field = json.get("exports").filter(|value| !value.is_null());
+        let exports_field_tree = if let Some(value) = exports_field {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/exports to hash key failed", file_path.display())
             });
@@ -75,7 +82,8 @@ impl Resolver {
             None
         };
 
-        let imports_field_tree = if let Some(value) = json.get("imports") {
+        let imports_field = json.get("imports").filter(|value| !value.is_null());
+        let imports_field_tree = if let Some(value) = imports_field {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/imports to hash key failed", file_path.display())
             });
diff --git a/src/map.rs b/src/map.rs
index 8122f31..ba5d3ec 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -114,12 +114,19 @@ pub trait Field {
             serde_json::Value::Array(arr) => {
                 let mut temp: ArrayMapping = vec![];
                 for item in arr {
+                    if item.is_null() {
+                        continue;
+                    }
                     match Self::from_json(item)? {
                         MappingValue::Direct(direct) => temp.push(AvailableMapping::Direct(direct)),
                         MappingValue::Conditional(conditional) => {
                             temp.push(AvailableMapping::Conditional(conditional))
                         }
-                        _ => panic!("Array mapping is not allowed nested in exports field"),
+                        MappingValue::Array(_) => {
+                            return Err(format!(
+                                "Array mapping is not allowed nested, but got {json_value}"
+                            ))
+                        }
                     }
                 }
                 MappingValue::Array(temp)
@@ -131,7 +138,9 @@ pub trait Field {
                 }
                 MappingValue::Conditional(map)
             }
-            _ => unreachable!(),
+            // nothing is available there
+            serde_json::Value::Null => MappingValue::Array(vec![]),
+            _ => return Err(format!("Mapping had unexpected value {json_value}")),
         };
         Ok(result)
     }
@@ -362,7 +371,11 @@ impl Field for ImportsField {
     fn build_field_path_tree(imports_field_value: &serde_json::Value) -> RResult<PathTreeNode> {
         let field = match Self::from_json(imports_field_value)? {
             MappingValue::Conditional(field) => field,
-            _ => unreachable!(),
+            _ => {
+                return Err(format!(
+                    "Imports field should be an object, but got {imports_field_value}"
+                ))
+            }
         };
         let mut root = PathTreeNode::default();
         for (key, value) in field {
-- 
2.43.0


From 315e564ae69ba798839e355a4f9225853aaa629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 14/32] fix: report an empty tsconfig or unexpected values in
 it instead of panicking

---
 src/tsconfig.rs | 61 +++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 04901bf..37e2b6b 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -20,28 +20,45 @@ pub struct CompilerOptions {
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
         let json = parse_file_to_value(location, resolver)?;
-        let compiler_options = json.get("compilerOptions").map(|options| {
-            // TODO: should optimized
-            let base_url = options
-                .get("baseUrl")
-                .map(|v| v.as_str().unwrap().to_string());
-            let paths = options.get("paths").map(|v| {
-                let mut map = HashMap::new();
+        let compiler_options = match json.get("compilerOptions") {
+            Some(options) => {
+                let unexpected = |name: &str, value: &serde_json::Value| {
+                    format!(
+                        "{name} in {} had unexpected value {value}",
+                        location.display()
+                    )
+                };
                 // TODO: should optimized
-                for (key, obj) in v.as_object().unwrap() {
-                    map.insert(
-                        key.to_string(),
-                        obj.as_array()
-                            .unwrap()
-                            .iter()
-                            .map(|v| v.as_str().unwrap().to_string())
-                            .collect(),
-                    );
-                }
-                map
-            });
-            CompilerOptions { base_url, paths }
-        });
+                let base_url = match options.get("baseUrl") {
+                    Some(v) => Some(
+                        v.as_str()
+                            .ok_or_else(|| unexpected("baseUrl", v))?
+                            .to_string(),
+                    ),
+                    None => None,
+                };
+                let paths = match options.get("paths") {
+                    Some(v) => {
+                        let mut map = HashMap::new();
+                        // TODO: should optimized
+                        for (key, obj) in v.as_object().ok_or_else(|| unexpected("paths", v))? {
+                            let targets = obj
+                                .as_array()
+                                .ok_or_else(|| unexpected("paths", v))?
+                                .iter()
+                                .map(|target| target.as_str().map(|target| target.to_string()))
+                                .collect::<Option<Vec<String>>>()
+                                .ok_or_else(|| unexpected("paths", v))?;
+                            map.insert(key.to_string(), targets);
+                        }
+                        Some(map)
+                    }
+                    None => None,
+                };
+                Some(CompilerOptions { base_url, paths })
+            }
+            None => None,
+        };
         let extends: Option<String> = json.get("extends").map(|v| v.to_string());
         Ok(TsConfig {
             extends,
@@ -55,7 +72,7 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-        .unwrap_or_else(|| panic!("Transfer {} to serde value failed", location.display()));
+        .ok_or_else(|| format!("Parse {} failed. Error: it is empty", location.display()))?;
 
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
-- 
2.43.0


From 66d5b02fbc8e3493569ade3632a1b5d23cf3e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 15/32] fix: report an unusable file in the extends of a
 tsconfig instead of ignoring it

---
 src/tsconfig.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 37e2b6b..3df8fff 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -80,15 +80,17 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         let dir = location.parent().unwrap().to_path_buf();
         let stats = resolver._resolve(ResolveInfo::from(dir, resolver.parse(s)));
         // Is it better to use cache?
-        if let ResolverStats::Success(result) = stats {
-            let extends_tsconfig_json = match result {
-                ResolveResult::Info(info) => parse_file_to_value(&info.get_path(), resolver),
-                ResolveResult::Ignored => {
-                    return Err(format!("{s} had been ignored in {}", location.display()))
-                }
-            }?;
-            merge(&mut json, extends_tsconfig_json);
-        }
+        let extends_tsconfig_json = match stats {
+            ResolverStats::Success(ResolveResult::Info(info)) => {
+                parse_file_to_value(&info.get_path(), resolver)
+            }
+            ResolverStats::Success(ResolveResult::Ignored) => {
+                Err(format!("{s} had been ignored in {}", location.display()))
+            }
+            ResolverStats::Error((error, _)) => Err(error),
+            ResolverStats::Resolving(_) => unreachable!(),
+        }?;
+        merge(&mut json, extends_tsconfig_json);
     }
     Ok(json)
 }
-- 
2.43.0


From 301eb0351de80fb70855a6829787f2e9d6565f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 16/32] fix: report a circular extends of tsconfig instead of
 overflowing the stack

---
 src/tsconfig.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 3df8fff..f607b5d 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -19,7 +19,7 @@ pub struct CompilerOptions {
 
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
-        let json = parse_file_to_value(location, resolver)?;
+        let json = parse_file_to_value(location, resolver, 0)?;
         let compiler_options = match json.get("compilerOptions") {
             Some(options) => {
                 let unexpected = |name: &str, value: &serde_json::Value| {
@@ -67,7 +67,17 @@ impl TsConfig {
     }
 }
 
-fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_json::Value> {
+/// More files than a chain of `extends` ever has, unless it leads back to itself.
+const MAX_EXTENDS: usize = 64;
+
+fn parse_file_to_value(
+    location: &Path,
+    resolver: &Resolver,
+    depth: usize,
+) -> RResult<serde_json::Value> {
+    if depth > MAX_EXTENDS {
+        return Err(format!("extends in {} is circular", location.display()));
+    }
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
@@ -82,7 +92,7 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         // Is it better to use cache?
         let extends_tsconfig_json = match stats {
             ResolverStats::Success(ResolveResult::Info(info)) => {
-                parse_file_to_value(&info.get_path(), resolver)
+                parse_file_to_value(&info.get_path(), resolver, depth + 1)
             }
             ResolverStats::Success(ResolveResult::Ignored) => {
                 Err(format!("{s} had been ignored in {}", location.display()))
-- 
2.43.0


From cc41f1a97291f2a910554a4ec9e46277bb2e8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 17/32] fix: report a circular browser field instead of
 recursing forever

---
 src/plugin/alias_field.rs | 42 +++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index dc1731e..29d89a1 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -15,21 +15,23 @@ impl<'a> AliasFieldPlugin<'a> {
         Self { pkg_info }
     }
 
-    pub(super) fn deal_with_alias_fields_recursive(
-        &self,
-        target: &AliasMap,
-        alias_fields: &IndexMap<String, AliasMap>,
-    ) -> AliasMap {
-        match target {
-            AliasMap::Target(target) => {
-                if let Some(next) = alias_fields.get(target) {
-                    self.deal_with_alias_fields_recursive(next, alias_fields)
-                } else {
-                    AliasMap::Target(target.clone())
-                }
+    /// `None` if the fields lead back to where they started.
+    pub(super) fn deal_with_alias_fields<'b>(
+        mut target: &'b AliasMap,
+        alias_fields: &'b IndexMap<String, AliasMap>,
+    ) -> Option<AliasMap> {
+        for _ in 0..=alias_fields.len() {
+            match target {
+                AliasMap::Target(key) => match alias_fields.get(key) {
+                    // it stands for itself
+                    Some(AliasMap::Target(next)) if next == key => return Some(target.clone()),
+                    Some(next) => target = next,
+                    None => return Some(target.clone()),
+                },
+                AliasMap::Ignored => return Some(AliasMap::Ignored),
             }
-            AliasMap::Ignored => AliasMap::Ignored,
         }
+        None
     }
 
     pub(super) fn request_target_is_module_and_equal_alias_key(
@@ -70,14 +72,20 @@ impl<'a> Plugin for AliasFieldPlugin<'a> {
                     ),
                 };
                 if should_deal_alias {
-                    return match self
-                        .deal_with_alias_fields_recursive(alias_target, &pkg_info.alias_fields)
+                    return match Self::deal_with_alias_fields(alias_target, &pkg_info.alias_fields)
                     {
-                        AliasMap::Target(converted) => ResolverStats::Resolving(
+                        Some(AliasMap::Target(converted)) => ResolverStats::Resolving(
                             info.with_path(pkg_info.abs_dir_path.to_path_buf())
                                 .with_target(&converted),
                         ),
-                        AliasMap::Ignored => ResolverStats::Success(ResolveResult::Ignored),
+                        Some(AliasMap::Ignored) => ResolverStats::Success(ResolveResult::Ignored),
+                        None => ResolverStats::Error((
+                            format!(
+                                "browser in {} is circular at {alias_key}",
+                                pkg_info.file_path.display()
+                            ),
+                            info,
+                        )),
                     };
                 }
             }
-- 
2.43.0


From ba915f9df23affe854bda2e4cedd18d9c42a9cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 18/32] fix: report a circular imports field instead of
 overflowing the stack

---
 src/plugin/imports_field.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index e1dcbdb..d449b25 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -8,6 +8,9 @@ use crate::{
     PathKind, ResolveInfo, ResolverStats,
 };
 
+/// More than an entry of `imports` is ever redirected to other entries, unless they are circular.
+const MAX_REDIRECTS: usize = 64;
+
 pub struct ImportsFieldPlugin<'a> {
     pkg_info: &'a Option<Arc<PkgFileInfo>>,
 }
@@ -24,15 +27,20 @@ impl<'a> ImportsFieldPlugin<'a> {
             ResolverStats::Error((format!("Package path {target} is not exported"), info))
         }
     }
-}
 
-impl<'a> Plugin for ImportsFieldPlugin<'a> {
-    fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
+    fn apply_at(&self, resolver: &Resolver, info: ResolveInfo, depth: usize) -> ResolverStats {
         if let Some(pkg_info) = self.pkg_info {
             if !info.request.target.starts_with('#') {
                 return ResolverStats::Resolving(info);
             }
 
+            if depth > MAX_REDIRECTS {
+                return ResolverStats::Error((
+                    format!("imports in {} is circular", pkg_info.file_path.display()),
+                    info,
+                ));
+            }
+
             let target = &info.request.target;
             let list = if let Some(root) = &pkg_info.imports_field_tree {
                 match ImportsField::field_process(root, target, &resolver.options.condition_names) {
@@ -75,7 +83,7 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                         .and_then(|info| AliasFieldPlugin::new(&pkg_info).apply(resolver, info))
                         .and_then(|info| ImportsFieldPlugin::check_target(info, target))
                 } else if is_internal_kind {
-                    self.apply(resolver, info)
+                    self.apply_at(resolver, info, depth + 1)
                 } else {
                     ImportsFieldPlugin::check_target(info, target)
                 }
@@ -87,3 +95,9 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
         }
     }
 }
+
+impl<'a> Plugin for ImportsFieldPlugin<'a> {
+    fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
+        self.apply_at(resolver, info, 0)
+    }
+}
-- 
2.43.0


From 9c603846aeaebb819b17d06449fdf571b83a76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 19/32] fix: report a too deeply nested tsconfig instead of
 overflowing the stack

---
 src/tsconfig.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index f607b5d..be06409 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -1,6 +1,7 @@
 // copy from https://github.com/drivasperez/tsconfig
 
 use crate::{RResult, ResolveInfo, ResolveResult, Resolver, ResolverStats};
+use jsonc_parser::{tokens::Token, Scanner};
 use std::collections::HashMap;
 use std::fs::read_to_string;
 use std::path::Path;
@@ -80,6 +81,8 @@ fn parse_file_to_value(
     }
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
+    check_nesting(&json_str)
+        .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
         .ok_or_else(|| format!("Parse {} failed. Error: it is empty", location.display()))?;
@@ -105,6 +108,26 @@ fn parse_file_to_value(
     Ok(json)
 }
 
+/// The parser recurses into each of them (`serde_json` has the same limit of its own).
+const MAX_NESTING: usize = 128;
+
+fn check_nesting(json_str: &str) -> RResult<()> {
+    let mut scanner = Scanner::new(json_str);
+    let mut depth = 0_usize;
+    // what is wrong with a token is left to the parser
+    while let Ok(Some(token)) = scanner.scan() {
+        match token {
+            Token::OpenBrace | Token::OpenBracket => depth += 1,
+            Token::CloseBrace | Token::CloseBracket => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+        if depth > MAX_NESTING {
+            return Err("it is nested too deeply".to_string());
+        }
+    }
+    Ok(())
+}
+
 fn merge(a: &mut serde_json::Value, b: serde_json::Value) {
     match (a, b) {
         (&mut serde_json::Value::Object(ref mut a), serde_json::Value::Object(b)) => {
-- 
2.43.0


From 19eff39c12f1107c45887eb66fdfd70579b3db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 20/32] fix: do not panic for a module name with non-ASCII
 characters

---
 src/resolve.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index f33572a..8b5c5a9 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -50,8 +50,7 @@ impl Resolver {
             // join request part
             let has_namespace_scope = target.starts_with('@');
             let slash_index_list: Vec<usize> = target
-                .chars()
-                .enumerate()
+                .char_indices()
                 .filter(|(_, char)| '/'.eq(char))
                 .map(|(index, _)| index)
                 .collect();
-- 
2.43.0


From a5c6babab20538538171ae429bc628fdd603490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 21/32] fix: match tsconfig patterns against non-ASCII requests

The request was cut at byte offsets of the pattern, which panics when
they are inside of a character.
---
 src/tsconfig_path.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index e531fa1..1777e20 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -67,14 +67,7 @@ impl Resolver {
         pattern.find(|c| c == '*').and_then(|star_index| {
             let part1 = &pattern[..star_index];
             let part2 = &pattern[star_index + 1..];
-            if &search[0..star_index] != part1 {
-                return None;
-            }
-            if &search[search.len() - part2.len()..] != part2 {
-                return None;
-            }
-            let len = search.len() - part2.len() - part1.len();
-            Some(&search[star_index..star_index + len])
+            search.strip_prefix(part1)?.strip_suffix(part2)
         })
     }
 
-- 
2.43.0


From 0d7a91a8f9d987db3061f53d101d4e403f1daa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 22/32] fix: do not panic on a scope without a package name

'@foo' looked up in a package with an exports field has no '/'.
---
 src/plugin/exports_field.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f7d1214..bcc092a 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -47,8 +47,11 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 let query = &info.request.query;
                 let fragment = &info.request.fragment;
                 let chars: String = if target.starts_with('@') {
-                    let index = target.find('/').unwrap();
-                    &target[index + 1..]
+                    match target.find('/') {
+                        Some(index) => &target[index + 1..],
+                        // only a scope
+                        None => return ResolverStats::Error((Resolver::raise_tag(), info)),
+                    }
                 } else {
                     target
                 }
-- 
2.43.0


From 27d0af3f42c059468d25b946822db150d5f1e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 23/32] fix: a main field which leads back to its own directory
 is not an entry

'main': './/', './.' or two packages whose main fields name each other
recursed until the stack was exhausted. The next main field is looked up
from the package again, not from the directory the previous one led to.
---
 src/plugin/main_field.rs | 36 +++++++++++++++++++++++-------------
 src/resolve.rs           | 12 +++++++++++-
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index 21e1b1c..f4951b5 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -1,4 +1,4 @@
-use std::sync::Arc;
+use std::{path::PathBuf, sync::Arc};
 
 use crate::{description::PkgFileInfo, utils::RAISE_RESOLVE_ERROR_TAG, Resolver};
 
@@ -6,11 +6,23 @@ use super::{AliasFieldPlugin, Plugin, ResolveInfo, ResolverStats};
 
 pub struct MainFieldPlugin<'a> {
     pkg_info: &'a Option<Arc<PkgFileInfo>>,
+    parents: &'a [PathBuf],
 }
 
 impl<'a> MainFieldPlugin<'a> {
-    pub fn new(pkg_info: &'a Option<Arc<PkgFileInfo>>) -> Self {
-        Self { pkg_info }
+    pub fn new(pkg_info: &'a Option<Arc<PkgFileInfo>>, parents: &'a [PathBuf]) -> Self {
+        Self { pkg_info, parents }
+    }
+
+    /// The main field may name a directory, but not one it was reached from.
+    fn resolve_as_dir(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
+        match info.get_path().canonicalize() {
+            Ok(dir) if !self.parents.contains(&dir) => {
+                let parents = [self.parents, &[dir]].concat();
+                resolver.resolve_as_dir_within(info, &parents)
+            }
+            _ => ResolverStats::Error((Resolver::raise_tag(), info)),
+        }
     }
 }
 
@@ -21,8 +33,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            let mut main_field_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
-
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -34,7 +44,9 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         break;
                     }
 
-                    main_field_info = if main_field.starts_with("./") {
+                    let main_field_info =
+                        ResolveInfo::from(info.path.to_owned(), info.request.clone());
+                    let main_field_info = if main_field.starts_with("./") {
                         main_field_info.with_target(main_field)
                     } else {
                         main_field_info.with_target(&format!("./{main_field}"))
@@ -43,16 +55,14 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                     let stats = AliasFieldPlugin::new(self.pkg_info)
                         .apply(resolver, main_field_info)
                         .and_then(|info| resolver.resolve_as_file(info))
-                        .and_then(|info| resolver.resolve_as_dir(info));
+                        .and_then(|info| self.resolve_as_dir(resolver, info));
 
-                    main_field_info = match stats {
+                    match stats {
                         // only an entry which is not found gives way to the next one
-                        ResolverStats::Error((error, info)) if error == RAISE_RESOLVE_ERROR_TAG => {
-                            info
-                        }
-                        ResolverStats::Resolving(info) => info,
+                        ResolverStats::Error((error, _)) if error == RAISE_RESOLVE_ERROR_TAG => {}
+                        ResolverStats::Resolving(_) => {}
                         _ => return stats,
-                    };
+                    }
                 }
             }
         }
diff --git a/src/resolve.rs b/src/resolve.rs
index 8b5c5a9..364f039 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -26,6 +26,16 @@ impl Resolver {
 
     #[tracing::instrument]
     pub(crate) fn resolve_as_dir(&self, info: ResolveInfo) -> ResolverStats {
+        self.resolve_as_dir_within(info, &[])
+    }
+
+    /// `parents` are the (canonical) directories whose main field led to this one.
+    #[tracing::instrument]
+    pub(crate) fn resolve_as_dir_within(
+        &self,
+        info: ResolveInfo,
+        parents: &[PathBuf],
+    ) -> ResolverStats {
         let dir = info.get_path();
         if !dir.is_dir() {
             return ResolverStats::Error((Resolver::raise_tag(), info));
@@ -36,7 +46,7 @@ impl Resolver {
         };
 
         let info = info.with_path(dir).with_target("");
-        MainFieldPlugin::new(&pkg_info_wrap)
+        MainFieldPlugin::new(&pkg_info_wrap, parents)
             .apply(self, info)
             .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
     }
-- 
2.43.0


From 710f7df571b4e959f47bd94bab57e029b4c12120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 24/32] fix: return real paths whose names are not valid UTF-8
 unchanged

---
 src/normalize.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 018324b..d1def5d 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -4,20 +4,21 @@ use crate::{RResult, ResolveResult, Resolver};
 
 impl Resolver {
     #[cfg(not(target_os = "windows"))]
-    fn adjust(p: PathBuf) -> String {
-        p.display().to_string()
+    fn adjust(p: PathBuf) -> PathBuf {
+        // as it is: a name need not be valid UTF-8
+        p
     }
 
     /// Eliminate `\\?\` prefix in windows.
     /// reference: https://stackoverflow.com/questions/41233684/why-does-my-canonicalized-path-get-prefixed-with
     #[cfg(target_os = "windows")]
-    fn adjust(p: PathBuf) -> String {
+    fn adjust(p: PathBuf) -> PathBuf {
         const VERBATIM_PREFIX: &str = r#"\\?\"#;
         let p = p.display().to_string();
         if p.starts_with(VERBATIM_PREFIX) {
-            p[VERBATIM_PREFIX.len()..].to_string()
+            PathBuf::from(&p[VERBATIM_PREFIX.len()..])
         } else {
-            p
+            PathBuf::from(p)
         }
     }
 
@@ -41,7 +42,7 @@ impl Resolver {
         if self.options.symlinks {
             Path::canonicalize(path)
                 .map_err(|_| "Path normalized failed".to_string())
-                .map(|result| PathBuf::from(Self::adjust(result)))
+                .map(Self::adjust)
         } else {
             Ok(Self::normalize_path_without_link(path))
         }
-- 
2.43.0


From 35efe98c8c8fa18b6c62f97e1d2a30dec19e7ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 25/32] fix: check that the real path of a module still is a
 file

---
 src/normalize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index d1def5d..18cb0a9 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -41,7 +41,10 @@ impl Resolver {
     fn normalize_path(&self, path: &Path) -> RResult<PathBuf> {
         if self.options.symlinks {
             Path::canonicalize(path)
-                .map_err(|_| "Path normalized failed".to_string())
+                .ok()
+                // a link on the way may lead to something else since it was found to be a file
+                .filter(|result| result.is_file())
+                .ok_or_else(|| "Path normalized failed".to_string())
                 .map(Self::adjust)
         } else {
             Ok(Self::normalize_path_without_link(path))
-- 
2.43.0


From 6359f109c2a932157805f4aedb530994e4bcfe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 26/32] fix: do not collapse '..' after a symbolic link into
 another path

---
 src/normalize.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 18cb0a9..4da1222 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -38,6 +38,13 @@ impl Resolver {
             })
     }
 
+    fn is_same_file(a: &Path, b: &Path) -> bool {
+        match (a.canonicalize(), b.canonicalize()) {
+            (Ok(real_a), Ok(real_b)) => real_a == real_b && a.is_file(),
+            _ => false,
+        }
+    }
+
     fn normalize_path(&self, path: &Path) -> RResult<PathBuf> {
         if self.options.symlinks {
             Path::canonicalize(path)
@@ -47,7 +54,15 @@ impl Resolver {
                 .ok_or_else(|| "Path normalized failed".to_string())
                 .map(Self::adjust)
         } else {
-            Ok(Self::normalize_path_without_link(path))
+            let normalized = Self::normalize_path_without_link(path);
+            // `..` after a symbolic link does not lead back to the directory of that link
+            let has_parent = path
+                .components()
+                .any(|component| component == Component::ParentDir);
+            if has_parent && !Self::is_same_file(&normalized, path) {
+                return Ok(path.components().collect());
+            }
+            Ok(normalized)
         }
     }
 
-- 
2.43.0


From 9828ce87041f98dccc0bc270424f10338dd1d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 27/32] fix: walk up long paths in a loop, not by recursion

---
 src/description.rs | 10 ++++------
 src/resolve.rs     | 31 ++++++++++++++++---------------
 src/utils.rs       | 12 ++++--------
 3 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 9780532..073b247 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -173,12 +173,10 @@ impl Resolver {
         }
         // Because the key in `self.cache.file_dir_to_pkg_info` represents directory.
         // So this step is ensure `path` pointed to directory.
-        if !path.is_dir() {
-            return match path.parent() {
-                Some(dir) => self.load_pkg_file(dir),
-                None => Err(Resolver::raise_tag()),
-            };
-        }
+        let path = path
+            .ancestors()
+            .find(|dir| dir.is_dir())
+            .ok_or_else(Resolver::raise_tag)?;
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
diff --git a/src/resolve.rs b/src/resolve.rs
index 364f039..6be730f 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -54,8 +54,22 @@ impl Resolver {
     #[tracing::instrument]
     pub(crate) fn resolve_as_modules(&self, info: ResolveInfo) -> ResolverStats {
         let original_dir = info.path.clone();
-        let module_root_path = original_dir.join(MODULE);
-        let stats = if module_root_path.is_dir() {
+        let mut stats = ResolverStats::Resolving(info);
+        for dir in original_dir.ancestors() {
+            stats = stats.and_then(|info| self.resolve_in_modules_of(info.with_path(dir.into())));
+        }
+
+        match stats {
+            ResolverStats::Success(success) => ResolverStats::Success(success),
+            ResolverStats::Resolving(info) => ResolverStats::Error((Resolver::raise_tag(), info)),
+            ResolverStats::Error(err) => ResolverStats::Error(err),
+        }
+    }
+
+    #[tracing::instrument]
+    fn resolve_in_modules_of(&self, info: ResolveInfo) -> ResolverStats {
+        let module_root_path = info.path.join(MODULE);
+        if module_root_path.is_dir() {
             let target = &info.request.target;
             // join request part
             let has_namespace_scope = target.starts_with('@');
@@ -119,18 +133,5 @@ impl Resolver {
         } else {
             ResolverStats::Resolving(info)
         }
-        .and_then(|info| {
-            if let Some(parent_dir) = original_dir.parent() {
-                self.resolve_as_modules(info.with_path(parent_dir.to_path_buf()))
-            } else {
-                ResolverStats::Resolving(info)
-            }
-        });
-
-        match stats {
-            ResolverStats::Success(success) => ResolverStats::Success(success),
-            ResolverStats::Resolving(info) => ResolverStats::Error((Resolver::raise_tag(), info)),
-            ResolverStats::Error(err) => ResolverStats::Error(err),
-        }
     }
 }
diff --git a/src/utils.rs b/src/utils.rs
index c3f12d2..5b790d6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -18,13 +18,9 @@ impl Resolver {
     }
 
     pub(super) fn find_up(now_dir: &Path, file_name: &str) -> Option<PathBuf> {
-        let path = now_dir.join(file_name);
-        if path.is_file() {
-            Some(now_dir.to_path_buf())
-        } else {
-            now_dir
-                .parent()
-                .and_then(|parent| Self::find_up(parent, file_name))
-        }
+        now_dir
+            .ancestors()
+            .find(|dir| dir.join(file_name).is_file())
+            .map(Path::to_path_buf)
     }
 }
-- 
2.43.0


From 554c41239cc8673c8a5de842db167ec264c60e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 28/32] fix: report circular aliases instead of overflowing the
 stack

---
 src/lib.rs                    | 23 ++++++++++++++++++++---
 src/plugin/alias.rs           | 15 +++++++++++----
 src/plugin/prefer_relative.rs | 15 +++++++++++----
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 220eba4..1a42907 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,10 @@ impl ResolverStats {
         matches!(self, ResolverStats::Success(_))
     }
 
+    pub fn is_circular(&self) -> bool {
+        matches!(self, ResolverStats::Error((error, _)) if error.starts_with(CIRCULAR))
+    }
+
     pub fn extract_info(self) -> ResolveInfo {
         match self {
             ResolverStats::Resolving(info) => info,
@@ -151,6 +155,11 @@ impl ResolverStats {
 
 pub(crate) static MODULE: &str = "node_modules";
 
+/// More than a request is ever redirected by the options, unless they are circular.
+const MAX_REDIRECTS: usize = 64;
+
+static CIRCULAR: &str = "The alias is circular";
+
 pub type RResult<T> = Result<T, ResolverError>;
 
 impl Resolver {
@@ -203,12 +212,20 @@ impl Resolver {
         }
     }
 
-    #[tracing::instrument]
     fn _resolve(&self, info: ResolveInfo) -> ResolverStats {
+        self._resolve_at(info, 0)
+    }
+
+    /// `depth` is the number of times that the options have redirected this request already.
+    #[tracing::instrument]
+    pub(crate) fn _resolve_at(&self, info: ResolveInfo, depth: usize) -> ResolverStats {
         let resolve_err_msg = Self::raise_resolve_failed_message(&info);
-        let stats = AliasPlugin::default()
+        if depth > MAX_REDIRECTS {
+            return ResolverStats::Error((format!("{CIRCULAR}: {resolve_err_msg}"), info));
+        }
+        let stats = AliasPlugin::new(depth)
             .apply(self, info)
-            .and_then(|info| PreferRelativePlugin::default().apply(self, info))
+            .and_then(|info| PreferRelativePlugin::new(depth).apply(self, info))
             .and_then(|info| {
                 let request = if info.request.kind.eq(&PathKind::Normal) {
                     info.path.join(MODULE).join(&*info.request.target)
diff --git a/src/plugin/alias.rs b/src/plugin/alias.rs
index 316222f..8107f7c 100644
--- a/src/plugin/alias.rs
+++ b/src/plugin/alias.rs
@@ -3,8 +3,15 @@ use crate::{options::AliasMap, Resolver, MODULE};
 use super::Plugin;
 use crate::{ResolveInfo, ResolveResult, ResolverStats};
 
-#[derive(Default)]
-pub struct AliasPlugin;
+pub struct AliasPlugin {
+    depth: usize,
+}
+
+impl AliasPlugin {
+    pub fn new(depth: usize) -> Self {
+        Self { depth }
+    }
+}
 
 impl Plugin for AliasPlugin {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
@@ -26,8 +33,8 @@ impl Plugin for AliasPlugin {
                             info.path.to_path_buf(),
                             info.request.clone().with_target(&normalized_target),
                         );
-                        let stats = resolver._resolve(alias_info);
-                        if stats.is_success() {
+                        let stats = resolver._resolve_at(alias_info, self.depth + 1);
+                        if stats.is_success() || stats.is_circular() {
                             return stats;
                         }
                     }
diff --git a/src/plugin/prefer_relative.rs b/src/plugin/prefer_relative.rs
index 60c2351..183a49a 100644
--- a/src/plugin/prefer_relative.rs
+++ b/src/plugin/prefer_relative.rs
@@ -1,8 +1,15 @@
 use crate::Resolver;
 
 use super::{Plugin, ResolveInfo, ResolverStats};
-#[derive(Default)]
-pub struct PreferRelativePlugin;
+pub struct PreferRelativePlugin {
+    depth: usize,
+}
+
+impl PreferRelativePlugin {
+    pub fn new(depth: usize) -> Self {
+        Self { depth }
+    }
+}
 
 impl Plugin for PreferRelativePlugin {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
@@ -16,8 +23,8 @@ impl Plugin for PreferRelativePlugin {
                 info.path.to_owned(),
                 info.request.clone().with_target(&target),
             );
-            let stats = resolver._resolve(info);
-            if stats.is_success() {
+            let stats = resolver._resolve_at(info, self.depth + 1);
+            if stats.is_success() || stats.is_circular() {
                 return stats;
             }
         }
-- 
2.43.0


From 6ca48f90d05207be11466289836f689157a2bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 29/32] fix: do not keep the first caller's spelling of a
 description file's path

---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 073b247..b727b77 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -142,7 +142,7 @@ impl Resolver {
             // without `.` components: the same for every spelling of `dir` that leads here,
             // because they all are the same key of the cache
             abs_dir_path: dir.components().collect(),
-            file_path,
+            file_path: file_path.components().collect(),
             last_modified_time,
             alias_fields,
             exports_field_tree,
-- 
2.43.0


From ebe977fea2f7eb1d0638f796634fb3f002e0a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:15 +0000
Subject: [PATCH 30/32] fix: do not recurse into trees that are as deep as a
 key is long

---
 src/map.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index ba5d3ec..2147742 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -69,7 +69,7 @@ fn conditional_mapping<'a>(
     Ok(None)
 }
 
-#[derive(Default, Clone, Debug)]
+#[derive(Default, Clone)]
 pub struct PathTreeNode {
     pub children: Option<IndexMap<String, PathTreeNode>>,
     pub folder: Option<MappingValue>,
@@ -77,6 +77,36 @@ pub struct PathTreeNode {
     pub files: IndexMap<String, MappingValue>,
 }
 
+/// The names of the children are all that is shown of them, because the tree is as deep as the
+/// longest key of the field has segments.
+impl std::fmt::Debug for PathTreeNode {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.debug_struct("PathTreeNode")
+            .field(
+                "children",
+                &self
+                    .children
+                    .as_ref()
+                    .map(|children| children.keys().collect::<Vec<_>>()),
+            )
+            .field("folder", &self.folder)
+            .field("wildcards", &self.wildcards)
+            .field("files", &self.files)
+            .finish()
+    }
+}
+
+/// Without recursion, for the same reason.
+impl Drop for PathTreeNode {
+    fn drop(&mut self) {
+        let mut nodes: Vec<PathTreeNode> = Vec::new();
+        nodes.extend(self.children.take().into_iter().flatten().map(|(_, n)| n));
+        while let Some(mut node) = nodes.pop() {
+            nodes.extend(node.children.take().into_iter().flatten().map(|(_, n)| n));
+        }
+    }
+}
+
 /// TODO: should seal all functions except
 ///  `build_field_path_tree` and `field_process`.
 pub trait Field {
-- 
2.43.0


From c62face74189e012b9d8cf879538b0d6180907da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:56 +0000
Subject: [PATCH 31/32] fix: do not cache a description file that was modified
 while it was read

---
 src/description.rs | 13 ++++++++++++-
 src/fs.rs          | 11 +++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index b727b77..debd5d1 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -214,9 +214,20 @@ impl Resolver {
         // pkg_info_cache do **not** contain this key
         // or this file had modified
         let pkg_info = Some(Arc::new(
-            self.parse_description_file(path, description_file_path)?,
+            self.parse_description_file(path, description_file_path.clone())?,
         ));
 
+        // If it was modified while it was read, then the content goes with the modified time of
+        // another one, which may come back (e.g. by a restored backup).
+        if let Some(info) = pkg_info.as_ref() {
+            if !self
+                .fs
+                .is_unmodified(description_file_path, info.last_modified_time)
+            {
+                return Ok(pkg_info);
+            }
+        }
+
         self.cache
             .file_dir_to_pkg_info
             .insert(path.to_path_buf(), pkg_info.clone());
diff --git a/src/fs.rs b/src/fs.rs
index f908f40..fc09ccb 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -44,6 +44,17 @@ impl CacheFile {
         )
     }
 
+    /// Whether the file is still the one which `read_to_string` had returned.
+    #[tracing::instrument]
+    pub fn is_unmodified<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+        stored_last_modify_time: time::SystemTime,
+    ) -> bool {
+        Self::get_last_modified_time_from_file(path.as_ref())
+            .map_or(false, |time| time == stored_last_modify_time)
+    }
+
     #[tracing::instrument]
     pub fn read_to_string<P: AsRef<Path> + Debug>(
         &self,
-- 
2.43.0


From 5532497fb94427965ed64fc0c746d465f7a08922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 32/32] fix: a relative path is another one after the working
 directory has changed

---
 src/description.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index debd5d1..75b2d67 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -22,6 +22,9 @@ pub struct PkgFileInfo {
     /// The modified time of the description file when it was read.
     /// It not a property in package.json.
     pub last_modified_time: SystemTime,
+    /// The working directory that `file_path` is relative to, if it is.
+    /// It not a property in package.json.
+    pub working_dir: Option<PathBuf>,
     pub name: Option<String>,
     pub version: Option<String>,
     pub alias_fields: IndexMap<String, AliasMap>,
@@ -34,6 +37,7 @@ pub struct PkgFileInfo {
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
+        let working_dir = Self::working_dir_of(&file_path);
         let (str, last_modified_time) = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
@@ -144,6 +148,7 @@ impl Resolver {
             abs_dir_path: dir.components().collect(),
             file_path: file_path.components().collect(),
             last_modified_time,
+            working_dir,
             alias_fields,
             exports_field_tree,
             imports_field_tree,
@@ -152,6 +157,15 @@ impl Resolver {
         })
     }
 
+    /// A relative path stands for something else after the working directory has changed.
+    fn working_dir_of(path: &Path) -> Option<PathBuf> {
+        if path.is_absolute() {
+            None
+        } else {
+            std::env::current_dir().ok()
+        }
+    }
+
     pub fn load_side_effects(
         &self,
         path: &Path,
@@ -202,6 +216,7 @@ impl Resolver {
             // if pkg_info_cache contain this key, and it is the info of the same file:
             // resolvers which share a cache may have different names for description files
             if pkg_info.file_path == description_file_path
+                && pkg_info.working_dir == Self::working_dir_of(&description_file_path)
                 && !self
                     .fs
                     .need_update(&description_file_path, pkg_info.last_modified_time)?
@@ -220,9 +235,10 @@ impl Resolver {
         // If it was modified while it was read, then the content goes with the modified time of
         // another one, which may come back (e.g. by a restored backup).
         if let Some(info) = pkg_info.as_ref() {
-            if !self
-                .fs
-                .is_unmodified(description_file_path, info.last_modified_time)
+            if info.working_dir != Self::working_dir_of(&description_file_path)
+                || !self
+                    .fs
+                    .is_unmodified(description_file_path, info.last_modified_time)
             {
                 return Ok(pkg_info);
             }
-- 
2.43.0

