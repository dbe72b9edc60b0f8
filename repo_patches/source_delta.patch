From 59d0469662b3f1a03751c9f49b332f51b6149045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 01/19] fix: apply the patches of an upgrade in the order of
 the path

patches_needed sorted the patches of the shortest path by version name, so a
chain such as 9 -> 10 -> 11 (or any downgrade chain) was applied in the wrong
order and needed builds which the path does not contain.
---
 src/index/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 555877a..89b4683 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -194,7 +194,7 @@ impl PatchGraph {
             |_| 0,
         )
         .with_context(|| format!("no A& solution for patch from `{:?}` to `{:?}`", from, to))?;
-        let mut path: Vec<_> = steps
+        let path: Vec<_> = steps
             .windows(2)
             .map(|x| {
                 let from = self.graph[x[0]].version.clone();
@@ -202,7 +202,6 @@ impl PatchGraph {
                 Patch::new(from, to)
             })
             .collect();
-        path.sort();
 
         Ok((cost, path))
     }
-- 
2.43.0


From 8ee8e67443e47f60af2712b2c8b65a4452971c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 02/19] fix: only list regular files of a directory storage

Listing canonicalized every entry before symlinks were filtered out, so a
dangling `current` link, a file removed while listing, or a file with a name
which is not UTF-8 made every command fail. Directories were listed as files.
---
 src/storage/mod.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9cd5d80..71eb5d3 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -4,7 +4,7 @@ pub use std::{
     convert::{TryFrom, TryInto},
     fmt,
     fs::{self, read_dir},
-    io::{BufWriter, Write},
+    io::{self, Write},
     path::{Path, PathBuf},
     str::FromStr,
     sync::Arc,
@@ -139,18 +139,29 @@ impl Storage {
                 .map(|entry| -> Result<_> {
                     let entry = entry.context("could not read file entry")?;
                     let path = entry.path();
-                    let path = path.canonicalize().with_context(|| {
-                        format!("cannot canonicalize path `{}`", path.display())
-                    })?;
-                    let metadata = entry.metadata().with_context(|| {
-                        format!("could not read metadata of `{}`", path.display())
-                    })?;
-
-                    Ok((metadata, path_as_string(path)?))
+                    let metadata = match entry.metadata() {
+                        // something else just removed or renamed this file
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(None),
+                        metadata => metadata.with_context(|| {
+                            format!("could not read metadata of `{}`", path.display())
+                        })?,
+                    };
+                    if !metadata.is_file() || entry.file_name().to_str().is_none() {
+                        log::debug!("ignoring `{}`", path.display());
+                        return Ok(None);
+                    }
+                    let path = match path.canonicalize() {
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(None),
+                        path => path.with_context(|| {
+                            format!("cannot canonicalize path `{}`", entry.path().display())
+                        })?,
+                    };
+
+                    Ok(Some((metadata, path_as_string(path)?)))
                 })
                 .collect::<Result<Vec<_>>>()?
                 .into_iter()
-                .filter(|(metadata, _)| !metadata.file_type().is_symlink())
+                .flatten()
                 .map(|(metadata, path)| Entry {
                     storage: self.clone(),
                     path,
-- 
2.43.0


From 280be926e5bcd34d657d177382a5064701faec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 03/19] fix: ignore files which are not named like builds or
 patches

A single file such as `foo.patch.zst` or `a---b.tar.zst` in either storage
made every command fail while building the index.
---
 src/index/graph.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 89b4683..d73c2d3 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -47,7 +47,14 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let version = paths::build_version_from_path(&entry.path)?;
+            let version = match paths::build_version_from_path(&entry.path) {
+                Ok(version) => version,
+                e => {
+                    log::error!("ignoring `{}`: not the name of a build.", entry.path);
+                    e.map(drop).log_and_discard();
+                    continue;
+                }
+            };
             self.add_build(&version, entry.clone(), location)
                 .with_context(|| format!("add build `{}`", entry.path))?;
         }
@@ -57,7 +64,14 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let Patch { from, to, .. } = Patch::from_path(&entry.path)?;
+            let Patch { from, to, .. } = match Patch::from_path(&entry.path) {
+                Ok(patch) => patch,
+                e => {
+                    log::error!("ignoring `{}`: not the name of a patch.", entry.path);
+                    e.map(drop).log_and_discard();
+                    continue;
+                }
+            };
             match self.add_patch(&from, &to, entry.clone(), location) {
                 Ok(_) => log::debug!("added patch `{}`", entry.path),
                 e => {
-- 
2.43.0


From c42b65ee6d41f85b622a45cd3d9091dca1a717b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 04/19] fix: keep remote patches whose builds are only known
 locally

Patches of the remote were added to the index before the local builds, and
dropped when they connect builds which only the local storage has.
---
 src/index.rs       | 16 ++++++++--------
 src/index/graph.rs | 29 ++++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 645752d..06abe3e 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -40,18 +40,18 @@ impl Index {
             .context("invalid local storage path")
             .note("`mkdir -pv` is your friend")?;
         let mut patch_graph = PatchGraph::empty();
+        let remote_files = remote.list_files().await.context("list files")?;
+        let local_files = local.list_files().await.context("list files")?;
+        // patches can connect builds from the other storage: add all builds first
         patch_graph
-            .update_from_file_list(
-                &remote.list_files().await.context("list files")?,
-                Location::Remote,
-            )
+            .update_builds_from_file_list(&remote_files, Location::Remote)
             .with_context(|| format!("build patch graph from `{:?}`", remote))?;
         patch_graph
-            .update_from_file_list(
-                &local.list_files().await.context("list files")?,
-                Location::Local,
-            )
+            .update_from_file_list(&local_files, Location::Local)
             .with_context(|| format!("build patch graph from `{:?}`", local))?;
+        patch_graph
+            .update_patches_from_file_list(&remote_files, Location::Remote)
+            .with_context(|| format!("build patch graph from `{:?}`", remote))?;
 
         Ok(Index {
             local,
diff --git a/src/index/graph.rs b/src/index/graph.rs
index d73c2d3..4a95d6f 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -31,16 +31,20 @@ impl PatchGraph {
     }
 
     pub fn update_from_file_list(&mut self, list: &[Entry], location: Location) -> Result<()> {
+        self.update_builds_from_file_list(list, location)?;
+        self.update_patches_from_file_list(list, location)
+    }
+
+    pub fn update_builds_from_file_list(
+        &mut self,
+        list: &[Entry],
+        location: Location,
+    ) -> Result<()> {
         let builds: Vec<_> = list
             .iter()
             .filter(|entry| entry.path.ends_with(".tar.zst"))
             .filter(|entry| entry.size > 0)
             .collect();
-        let patches: Vec<_> = list
-            .iter()
-            .filter(|entry| entry.path.ends_with(".patch.zst"))
-            .filter(|entry| entry.size > 0)
-            .collect();
 
         log::trace!("Builds: {:?}", builds);
         for entry in builds {
@@ -59,6 +63,21 @@ impl PatchGraph {
                 .with_context(|| format!("add build `{}`", entry.path))?;
         }
 
+        Ok(())
+    }
+
+    /// Builds have to be added first: patches between unknown builds are dropped
+    pub fn update_patches_from_file_list(
+        &mut self,
+        list: &[Entry],
+        location: Location,
+    ) -> Result<()> {
+        let patches: Vec<_> = list
+            .iter()
+            .filter(|entry| entry.path.ends_with(".patch.zst"))
+            .filter(|entry| entry.size > 0)
+            .collect();
+
         log::trace!("Patches: {:?}", patches);
         for entry in patches {
             if entry.path.ends_with('/') {
-- 
2.43.0


From 7273e68167714adc72a3b7b4428cfa2f9d96f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 05/19] fix: use different partial files in different processes

Two processes writing the same file within the same second shared one partial
file and could publish a mix of both, or fail each other's rename.
---
 src/partial_file.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index dd30cc2..ae54249 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -106,7 +106,12 @@ fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
         let timestamp = SystemTime::now()
             .duration_since(SystemTime::UNIX_EPOCH)
             .context("cannot get timestamp")?;
-        format!("artefacta-temp-{}", timestamp.as_secs())
+        // other processes might write the same file at the same time
+        format!(
+            "artefacta-temp-{}-{}",
+            timestamp.as_nanos(),
+            std::process::id()
+        )
     };
     let new_file_name = {
         let mut res = OsString::from("._");
-- 
2.43.0


From ff24358972bc3395d23f95e6631035e903d3b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 06/19] fix: copy files into a directory storage via a partial
 file

fs::copy wrote builds and patches in place: a copy which was interrupted left a
truncated file under the final name, in the local storage as well as in
directory remotes.
---
 src/storage/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 71eb5d3..6f4b125 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -313,9 +313,22 @@ impl Storage {
 
                 match file {
                     File::InFilesystem(entry) => {
-                        fs::copy(&entry.path, &new_path).with_context(|| {
+                        let mut source = fs::File::open(&entry.path)
+                            .with_context(|| format!("open `{}`", entry.path))?;
+                        let permissions = source
+                            .metadata()
+                            .with_context(|| format!("read metadata of `{}`", entry.path))?
+                            .permissions();
+                        let mut new_file = PartialFile::create(&new_path)
+                            .with_context(|| format!("create `{}`", new_path.display()))?;
+                        io::copy(&mut source, &mut new_file).with_context(|| {
                             format!("copy `{}` to `{}`", entry.path, new_path.display())
                         })?;
+                        new_file
+                            .finish()
+                            .context("finish writing to new file")?
+                            .set_permissions(permissions)
+                            .context("set permissions of new file")?;
                     }
                     File::Inline(_, content) => {
                         let mut new_file = PartialFile::create(&new_path)
-- 
2.43.0


From 8fc8b10c01b06bcf35a191f74246694ad7e10ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 07/19] fix: do not use files which the index ignores

Empty files and symlinks are skipped when listing a storage, but an empty local
`1.tar.zst` was still picked instead of the remote build and installed, and an
empty patch counted as already calculated.
---
 src/storage/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 6f4b125..14c743e 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -209,10 +209,16 @@ impl Storage {
             InnerStorage::Filesystem(root) => {
                 let path = root.join(path);
                 ensure!(path.exists(), "Path `{}` does not exist", path.display());
-                let size = path
-                    .metadata()
-                    .with_context(|| format!("read metadata of `{}`", path.display()))?
-                    .len();
+                // same rules as for listing files: no links, no directories, no empty files
+                let metadata = path
+                    .symlink_metadata()
+                    .with_context(|| format!("read metadata of `{}`", path.display()))?;
+                let size = metadata.len();
+                ensure!(
+                    metadata.is_file() && size > 0,
+                    "Path `{}` is empty or not a regular file",
+                    path.display()
+                );
 
                 Ok(File::InFilesystem(Entry {
                     storage: self.clone(),
@@ -243,6 +249,7 @@ impl Storage {
                     .content_length
                     .map(|s| s as u64)
                     .context("got an object with no size")?;
+                ensure!(size > 0, "object `{}` is empty", key);
 
                 let mut stream = result
                     .body
-- 
2.43.0


From 9eb4166f34bacec67299bbb96338e3857445c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 08/19] fix: reject empty builds before they replace existing
 ones

Adding an empty file failed only after it had overwritten the build which was
stored under that version.
---
 src/index.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 06abe3e..012798e 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -392,6 +392,13 @@ impl Index {
             .local_path()
             .context("add_build can only write to local storage right now")?;
 
+        let (FileEntry::InFilesystem(entry) | FileEntry::Inline(entry, ..)) = file;
+        ensure!(
+            entry.size > 0,
+            "Asked to add `{}` but it's empty (size 0). That's not gonna be useful.",
+            entry.path
+        );
+
         let path = match file {
             FileEntry::InFilesystem(entry) => {
                 let path = Path::new(&entry.path);
@@ -417,12 +424,6 @@ impl Index {
         let entry = Entry::from_path(&new_path, self.local.clone())
             .context("create entry for new build file")?;
 
-        ensure!(
-            entry.size > 0,
-            "Just added `{}` but it's empty (size 0). That's not gonna be useful.",
-            entry.path
-        );
-
         self.patch_graph
             .add_build(&version, entry.clone(), Location::Local)
             .with_context(|| format!("add build `{}`", path.display()))?;
-- 
2.43.0


From 4771c13b6b8b7205570a4cc384fbea632e51e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 09/19] fix: never calculate a patch from a version to itself

Only create-patch refused this; `add --calc-patch-from` with the version of the
added build stored a patch from that version to itself.
---
 src/index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index 012798e..474c70a 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -85,6 +85,13 @@ impl Index {
             size.file_size(options::BINARY).expect("never negative")
         }
 
+        ensure!(
+            from != to,
+            "Rejecting to create patch between same versions ({}->{})",
+            from,
+            to
+        );
+
         if self.get_patch(from.clone(), to.clone()).await.is_ok() {
             log::warn!(
                 "asked to calculate patch from `{:?}` to `{:?}` but it's already present",
-- 
2.43.0


From 826cbacaf3378b62c5dbe0a2abb2ff4bfa39ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 10/19] fix: detect truncated patches

A truncated zstd stream ends in an unexpected end of file, which bipatch treats
as the regular end of the patch: upgrading with a truncated patch succeeded and
installed a truncated build.
---
 src/apply_patch.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/apply_patch.rs b/src/apply_patch.rs
index 8571aed..1c95deb 100644
--- a/src/apply_patch.rs
+++ b/src/apply_patch.rs
@@ -4,7 +4,6 @@ use std::{
     io::{BufReader, Cursor, Read},
     path::Path,
 };
-use zstd::stream::read::Decoder as ZstdDecoder;
 
 pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result<impl Read> {
     let archive = archive.as_ref();
@@ -12,7 +11,9 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
 
     let patch_file =
         File::open(patch).with_context(|| format!("open file `{}`", patch.display()))?;
-    let patch_decompressed = ZstdDecoder::new(patch_file)
+    // bipatch takes an unexpected end of file for the end of the patch: make sure
+    // that the whole patch can be decoded before anything is built from it
+    let patch_decompressed = zstd::stream::decode_all(BufReader::new(patch_file))
         .with_context(|| format!("read zstd compressed file `{}`", patch.display()))?;
 
     let archive_file =
@@ -20,8 +21,11 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
     let archive_decompressed = zstd::stream::decode_all(BufReader::new(archive_file))
         .with_context(|| format!("read zstd compressed file `{}`", archive.display()))?;
 
-    bipatch::Reader::new(patch_decompressed, Cursor::new(archive_decompressed))
-        .context("read patch")
+    bipatch::Reader::new(
+        Cursor::new(patch_decompressed),
+        Cursor::new(archive_decompressed),
+    )
+    .context("read patch")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0eb41485af7eb8fe518dcdda9fbeb1e680b539d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 11/19] fix: do not rebuild builds which are already cached

Only leading cached builds of an upgrade path were skipped: a cached target or
later intermediate build was built again from patches, fetching patches (and
replacing the cached file) for nothing.
---
 src/index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 474c70a..3536032 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -242,9 +242,13 @@ impl Index {
         {
             UpgradePath::ApplyPatches(patches) => {
                 log::debug!("found upgrade path via patches: {:?}", patches);
+                // start from the last build of the path that is already here
+                let cached = patches
+                    .iter()
+                    .rposition(|patch| self.patch_graph.has_local_build(patch.to.clone()));
                 let needed_patches = patches
                     .into_iter()
-                    .skip_while(|patch| self.patch_graph.has_local_build(patch.to.clone()))
+                    .skip(cached.map_or(0, |idx| idx + 1))
                     .collect::<Vec<Patch>>();
                 log::debug!(
                     "using already existing local builds, we need to fetch: {:?}",
-- 
2.43.0


From 87ef217f71318bbf4bf20444cb7a4252641d1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 12/19] fix: switch the current link atomically and repair a
 dangling one

The old link was removed before the new one was created, so an interrupted
install left nothing installed. A link whose build was deleted from the cache
counted as installed, and could not be replaced either.
---
 src/lib.rs          | 36 ++++++++++++++++++++++--------------
 src/partial_file.rs |  2 +-
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ff2c321..a35a6eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,8 +39,11 @@ pub async fn install(
     target_version: Version,
     current: &Path,
 ) -> Result<()> {
+    // the build that `current` points at might have been deleted
+    let is_installed = fs::metadata(&current).map_or(false, |file| file.len() > 0);
+
     let target_build = match fs::read_link(&current) {
-        Ok(curent_path) => {
+        Ok(curent_path) if is_installed => {
             let current_version = paths::build_version_from_path(&curent_path)?;
             log::debug!(
                 "identified version `{}` from path `{}`",
@@ -58,8 +61,8 @@ pub async fn install(
                 .await
                 .context("get build")?
         }
-        Err(e) => {
-            log::debug!("could not read `current` symlink: {}", e);
+        link => {
+            log::debug!("no build installed as `current`: {:?}", link);
             index
                 .get_build(target_version.clone())
                 .await
@@ -72,17 +75,22 @@ pub async fn install(
     #[cfg(windows)]
     use std::os::windows::fs::symlink_file as symlink;
 
-    if current.exists() {
-        fs::remove_file(&current).context("clear old `current` symlink")?;
-    }
-
-    symlink(&target_build.path, &current).with_context(|| {
-        format!(
-            "create symlink pointing at new build: {} to {}",
-            target_build.path,
-            current.display()
-        )
-    })?;
+    // rename the new link into place, so that there always is a `current` build
+    let new_link = partial_file::generate_partial_file_name(current)?;
+    symlink(&target_build.path, &new_link)
+        .and_then(|_| {
+            fs::rename(&new_link, &current).map_err(|e| {
+                let _ = fs::remove_file(&new_link);
+                e
+            })
+        })
+        .with_context(|| {
+            format!(
+                "create symlink pointing at new build: {} to {}",
+                target_build.path,
+                current.display()
+            )
+        })?;
     log::info!(
         "successfully installed `{}` as `{}`",
         target_version,
diff --git a/src/partial_file.rs b/src/partial_file.rs
index ae54249..3a3ba37 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -98,7 +98,7 @@ impl Drop for PartialFile {
     }
 }
 
-fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
+pub(crate) fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
     let target_file_name = path
         .file_name()
         .with_context(|| format!("cannot get file name from path `{}`", path.display()))?;
-- 
2.43.0


From 3161723785b490b2c3892edd2bd82976bfdace33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 13/19] fix: keep .tar and .patch in versions

All .tar and .patch suffixes were removed from file names, so that builds of a
version such as `1.patch` or `1.tar` were known under another name.
---
 src/paths.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index 71c7fc0..1bef276 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -18,10 +18,11 @@ pub fn file_name(path: impl AsRef<Path>) -> Result<String> {
         .with_context(|| format!("no file stem for `{:?}`", path))?;
     let name = path_as_string(file_name)?;
 
-    // get rid of pesky .tar suffixes
-    let name = name.trim_end_matches(".tar");
-    // get rid of pesky .patch suffixes
-    let name = name.trim_end_matches(".patch");
+    // get rid of one pesky .tar or .patch suffix (more belong to the version)
+    let name = name
+        .strip_suffix(".tar")
+        .or_else(|| name.strip_suffix(".patch"))
+        .unwrap_or(&name);
 
     Ok(name.to_string())
 }
-- 
2.43.0


From e0dfe68cd190fa3e7b661132c67729c3d17af969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 14/19] fix: reject path separators in versions

Versions are used as file names: with `../x` or `/x` as version, add-package
wrote outside of the storage and its temporary directory.
---
 src/index/version.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/index/version.rs b/src/index/version.rs
index 28fdae8..52806f0 100644
--- a/src/index/version.rs
+++ b/src/index/version.rs
@@ -28,6 +28,7 @@ impl fmt::Display for Version {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum InvalidVersion {
     ThreeDashes,
+    PathSeparator,
 }
 
 impl StdError for InvalidVersion {}
@@ -39,6 +40,10 @@ impl fmt::Display for InvalidVersion {
                 f,
                 "Invalid version format: `---` must not appear in version"
             ),
+            InvalidVersion::PathSeparator => write!(
+                f,
+                "Invalid version format: path separators must not appear in version"
+            ),
         }
     }
 }
@@ -50,6 +55,9 @@ impl FromStr for Version {
         if s.contains("---") {
             return Err(InvalidVersion::ThreeDashes);
         }
+        if s.contains(std::path::is_separator) {
+            return Err(InvalidVersion::PathSeparator);
+        }
         Ok(Version { data: s.into() })
     }
 }
-- 
2.43.0


From 96ac405b55c10bda1b0a46fe22e536f86cff2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 15/19] fix: only list objects directly below the S3 path

The path was used as a bare prefix, so that builds of sibling paths (`test2/`
for `test`) and of deeper paths were indexed but could not be fetched. With an
empty path, keys were written with a leading slash.
---
 src/storage/mod.rs |  3 ++-
 src/storage/s3.rs  | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 14c743e..57572fb 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -176,7 +176,8 @@ impl Storage {
                 let res = client
                     .list_objects_v2(ListObjectsV2Request {
                         bucket: bucket.bucket.to_owned(),
-                        prefix: Some(bucket.path.trim_start_matches('/').to_string()),
+                        prefix: Some(bucket.prefix()),
+                        delimiter: Some("/".to_string()),
                         ..Default::default()
                     })
                     .await
diff --git a/src/storage/s3.rs b/src/storage/s3.rs
index de24a1d..2a3ade7 100644
--- a/src/storage/s3.rs
+++ b/src/storage/s3.rs
@@ -17,13 +17,19 @@ impl Bucket {
     /// Takes into account the root path in the bucket as well as normalizes the
     /// path.
     pub fn key_for(&self, path: &str) -> String {
+        self.prefix() + path
+    }
+
+    /// What all keys start with: the root path and a slash, or nothing at all
+    pub fn prefix(&self) -> String {
         let mut root = self
             .path
             .trim_start_matches('/')
             .trim_end_matches('/')
             .to_owned();
-        root.push('/');
-        root.push_str(path);
+        if !root.is_empty() {
+            root.push('/');
+        }
         root
     }
 }
-- 
2.43.0


From 5b2190d6fe865df62b9c2ea3dabd46ebd9843a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 16/19] fix: read all pages of an S3 listing

Only the first page was read, so that files beyond the first 1000 of a bucket
were unknown (and uploaded again by every sync).
---
 src/storage/mod.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 57572fb..9576400 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -173,21 +173,30 @@ impl Storage {
 
                 let client: S3Client = bucket.try_into().context("build S3 client")?;
 
-                let res = client
-                    .list_objects_v2(ListObjectsV2Request {
-                        bucket: bucket.bucket.to_owned(),
-                        prefix: Some(bucket.prefix()),
-                        delimiter: Some("/".to_string()),
-                        ..Default::default()
-                    })
-                    .await
-                    .context("list files in bucket")?;
-                if res.is_truncated.unwrap_or_default() {
-                    log::debug!("didn't get all the files -- pagination not implemented!");
+                let mut objects = Vec::new();
+                let mut continuation_token = None;
+                loop {
+                    let res = client
+                        .list_objects_v2(ListObjectsV2Request {
+                            bucket: bucket.bucket.to_owned(),
+                            prefix: Some(bucket.prefix()),
+                            delimiter: Some("/".to_string()),
+                            continuation_token: continuation_token.take(),
+                            ..Default::default()
+                        })
+                        .await
+                        .context("list files in bucket")?;
+                    objects.extend(res.contents.unwrap_or_default());
+                    if !res.is_truncated.unwrap_or_default() {
+                        break;
+                    }
+                    continuation_token = Some(
+                        res.next_continuation_token
+                            .context("got a truncated list with no continuation token")?,
+                    );
                 }
 
-                res.contents
-                    .unwrap_or_default()
+                objects
                     .iter()
                     .map(|obj| {
                         Ok(Entry {
-- 
2.43.0


From 903f5e0df9b732f9dd161db8447d4d48727171fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 17/19] fix: skip tags which do not point at commits

A single tag of a blob or tree in the repository made every auto-patch fail.
---
 src/git.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/git.rs b/src/git.rs
index 2a93967..eed6fbc 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -13,10 +13,12 @@ pub fn get_tags(repo: &git2::Repository) -> Result<Vec<Tag>> {
         .context("cannot load references from repo")?
         .filter_map(|x| x.ok())
         .filter(|r| r.is_tag())
-        .map(|reference| {
-            let commit = reference.peel_to_commit().with_context(|| {
-                format!("cannot get commit for reference {:?}", reference.name())
-            })?;
+        .filter_map(|reference| {
+            // not every tag is a release: tags can point at any git object
+            let commit = reference.peel_to_commit().ok()?;
+            Some((reference, commit))
+        })
+        .map(|(reference, commit)| {
             Ok(Tag {
                 name: reference.shorthand().map(String::from).unwrap_or_else(|| {
                     String::from_utf8_lossy(reference.shorthand_bytes()).to_string()
-- 
2.43.0


From d737c1c2bc4828237967ce01f883870e72f0b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 18/19] fix: choose the latest tags by numeric order of their
 components

human_sort orders `1.0.100` before `1.0.12`, panics on large numbers, and tells
letter case, dots and dashes apart, which are otherwise ignored here. Components
beyond u32 were never patched from, nor zero-padded predecessors (`2020.06`).
---
 src/git.rs | 61 +++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/git.rs b/src/git.rs
index eed6fbc..f15eb70 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -1,5 +1,6 @@
 use erreur::{Context, Result};
 use smol_str::SmolStr;
+use std::cmp::Ordering;
 
 #[derive(Debug, Clone)]
 pub struct Tag {
@@ -38,17 +39,66 @@ pub fn tag_to_slice(tag: &str) -> Vec<SmolStr> {
         .collect()
 }
 
+/// Digits of a number without leading zeros (`None` if this is not a number)
+fn number(x: &str) -> Option<&str> {
+    if x.is_empty() || !x.bytes().all(|c| c.is_ascii_digit()) {
+        return None;
+    }
+    Some(x.trim_start_matches('0'))
+}
+
+/// Natural order: numbers (of any size) by value, everything else by character
+fn compare_tags(a: &[SmolStr], b: &[SmolStr]) -> Ordering {
+    fn compare(mut a: &str, mut b: &str) -> Ordering {
+        fn split_digits(x: &str) -> (&str, &str) {
+            x.split_at(x.find(|c: char| !c.is_ascii_digit()).unwrap_or(x.len()))
+        }
+
+        while !a.is_empty() && !b.is_empty() {
+            let (digits_a, digits_b) = (split_digits(a), split_digits(b));
+            let ordering = match (number(digits_a.0), number(digits_b.0)) {
+                (Some(x), Some(y)) => {
+                    a = digits_a.1;
+                    b = digits_b.1;
+                    x.len().cmp(&y.len()).then_with(|| x.cmp(y))
+                }
+                _ => {
+                    let (mut chars_a, mut chars_b) = (a.chars(), b.chars());
+                    let ordering = chars_a.next().cmp(&chars_b.next());
+                    a = chars_a.as_str();
+                    b = chars_b.as_str();
+                    ordering
+                }
+            };
+            if ordering != Ordering::Equal {
+                return ordering;
+            }
+        }
+        a.len().cmp(&b.len())
+    }
+
+    a.iter()
+        .zip(b)
+        .map(|(a, b)| compare(a, b))
+        .find(|ordering| *ordering != Ordering::Equal)
+        .unwrap_or_else(|| a.len().cmp(&b.len()))
+}
+
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     fn dec(x: &SmolStr) -> Option<SmolStr> {
-        let num = x.parse::<u32>().ok()?;
-        let prev = num.checked_sub(1)?;
-        Some(SmolStr::from(prev.to_string()))
+        let digits = number(x)?;
+        // the last digit that is not zero gets decremented, zeros after it become nines
+        let pos = digits.rfind(|c| c != '0')?;
+        let prev = digits[..pos].to_owned()
+            + &char::from(digits.as_bytes()[pos] - 1).to_string()
+            + &"9".repeat(digits.len() - pos - 1);
+        Some(SmolStr::from(prev))
     }
 
     let tags = {
         let mut tags = tags.to_vec();
-        tags.sort_by(|a, b| human_sort::compare(a, b));
+        tags.sort_by(|a, b| compare_tags(&tag_to_slice(a), &tag_to_slice(b)));
         tags
     };
     let parsed_tags = tags.iter().map(|tag| tag_to_slice(tag)).collect::<Vec<_>>();
@@ -66,7 +116,8 @@ pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>>
                 if let Some((idx, _)) = parsed_tags
                     .iter()
                     .enumerate()
-                    .filter(|(_idx, tag)| tag.starts_with(&prev[..=pos]))
+                    .filter(|(_idx, tag)| tag.len() > pos && tag[..pos] == prev[..pos])
+                    .filter(|(_idx, tag)| number(&tag[pos]) == number(&prev[pos]))
                     .last()
                 {
                     return Some(tags[idx].clone());
-- 
2.43.0


From ef759db874cd03f6fab52bec047485bab5cab692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 19/19] fix: install directly when the current build is not
 known

---
 src/index.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 3536032..cfbf7a4 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -224,17 +224,13 @@ impl Index {
     /// Upgrade from one version to the next
     pub async fn upgrade_to_build(&mut self, from: Version, to: Version) -> Result<Entry> {
         log::debug!("searching for upgrade path from `{}` to `{}`", from, to);
-        ensure!(
-            self.patch_graph.has_build(from.clone()),
-            "build `{:?}` unknown",
-            from
-        );
         ensure!(
             self.patch_graph.has_build(to.clone()),
             "build `{:?}` unknown",
             to
         );
 
+        // no patches start from an unknown build, which leaves the direct build
         match self
             .patch_graph
             .find_upgrade_path(from.clone(), to.clone())
-- 
2.43.0

