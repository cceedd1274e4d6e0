From db3c900fd3ce3878e11d8d551122ac2eb3fa3013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 01/27] fix: ranged file reads no longer run past the end of
 the file

---
 xdvdfs-core/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index 6aaac26..761bd7e 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -273,7 +273,7 @@ impl DirectoryEntryDiskData {
         size: u64,
         offset: u64,
     ) -> Result<alloc::boxed::Box<[u8]>, util::Error<BDR::ReadError>> {
-        let size = core::cmp::min(size, self.data.size as u64);
+        let size = core::cmp::min(size, (self.data.size as u64).saturating_sub(offset));
         let buf = alloc::vec![0; size as usize];
         let mut buf = buf.into_boxed_slice();
 
-- 
2.43.0


From bf9c60d17b56dd8d26b7b4de21da96f989851c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 02/27] fix: treat child offset 0xffff as absent in path
 lookup, as the tree walk does

---
 xdvdfs-core/src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 3c827a5..78fdfd9 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -197,7 +197,7 @@ impl DirectoryEntryTable {
                 core::cmp::Ordering::Greater => dirent.node.right_entry_offset,
             };
 
-            if next_offset == 0 {
+            if next_offset == 0 || next_offset == 0xffff {
                 return Err(util::Error::DoesNotExist);
             }
 
-- 
2.43.0


From 52a71a5d7751c8976874cb77fb3b3c3b02800f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 03/27] fix: report a directory entry that leaves its sector
 instead of panicking

---
 xdvdfs-core/src/read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 78fdfd9..2fba6b9 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -63,7 +63,12 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
 
             let name_len = dirent.node.dirent.filename_length as usize;
             let name_buf = &mut dirent.name[0..name_len];
-            assert!(name_offset + name_len <= layout::SECTOR_SIZE as usize);
+            if name_offset + name_len > layout::SECTOR_SIZE as usize {
+                break Err(util::Error::SizeOutOfBounds(
+                    (name_offset + name_len) as u64,
+                    layout::SECTOR_SIZE,
+                ));
+            }
             name_buf.copy_from_slice(&self.sector_buf[name_offset..(name_offset + name_len)]);
 
             // Dirent is valid, advance cursor before returning
-- 
2.43.0


From 6f8e2794cb060137a916a076e34b4c5a0b3cb0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 04/27] fix: in-memory block device reports a short read
 instead of panicking

---
 xdvdfs-core/src/blockdev.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 722cf3c..07f4ca8 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -57,14 +57,14 @@ impl BlockDeviceRead for [u8] {
     type ReadError = OutOfBounds;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), OutOfBounds> {
-        let offset = offset as usize;
-        if offset >= self.as_ref().len() {
+        let offset: usize = offset.try_into().map_err(|_| OutOfBounds)?;
+        let device_size = <[u8]>::len(self);
+        let buffer_size = <[u8]>::len(buffer);
+        if offset >= device_size || device_size - offset < buffer_size {
             return Err(OutOfBounds);
         }
 
-        let size = core::cmp::min(self.as_ref().len() - offset, <[u8]>::len(buffer));
-        let range = offset..(offset + size);
-        buffer.copy_from_slice(&self[range]);
+        buffer.copy_from_slice(&self[offset..(offset + buffer_size)]);
         Ok(())
     }
 }
-- 
2.43.0


From 73cc2623acee330dc6ac70839e6c0caba4d9dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 05/27] fix: info no longer overflows on child offsets above
 0x3fff

---
 xdvdfs-cli/src/cmd_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_info.rs b/xdvdfs-cli/src/cmd_info.rs
index 4c7c796..34e2c91 100644
--- a/xdvdfs-cli/src/cmd_info.rs
+++ b/xdvdfs-cli/src/cmd_info.rs
@@ -42,7 +42,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Left Child Offset:",
         if dirent.node.left_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.left_entry_offset)
+            format!("{} bytes", 4 * u32::from(dirent.node.left_entry_offset))
         } else {
             String::from("None")
         }
@@ -51,7 +51,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Right Child Offset:",
         if dirent.node.right_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.right_entry_offset)
+            format!("{} bytes", 4 * u32::from(dirent.node.right_entry_offset))
         } else {
             String::from("None")
         }
-- 
2.43.0


From 4078fd6e82f944f083458f090529c4ebc78e93af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 06/27] fix: walk_path reports NoDirent for paths made only of
 slashes instead of panicking

---
 xdvdfs-core/src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 2fba6b9..71f283b 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -222,7 +222,7 @@ impl DirectoryEntryTable {
         path: &str,
     ) -> Result<DirectoryEntryNode, util::Error<BDR::ReadError>> {
         debugln!("[walk_path] Called on {}", path);
-        if path.is_empty() || path == "/" {
+        if path.trim_start_matches('/').is_empty() {
             return Err(util::Error::NoDirent);
         }
 
-- 
2.43.0


From 771990f067febef3cf9ea4c9d8e90ca9d39fc51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 07/27] fix: directory scan reports the image offset of an
 entry, as lookup does

---
 xdvdfs-core/src/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 71f283b..db9c97b 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -49,7 +49,10 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
             let mut buf = [0; 0xe];
             let name_offset = self.offset + 0xe;
             buf.copy_from_slice(&self.sector_buf[self.offset..name_offset]);
-            let dirent = deserialize_dirent_node(&buf, self.offset as u64)?;
+            let dirent = deserialize_dirent_node(
+                &buf,
+                (self.sector as u64) * (layout::SECTOR_SIZE as u64) + self.offset as u64,
+            )?;
             let Some(mut dirent) = dirent else {
                 // If we find an empty record, but we still have sectors to go,
                 // advance the sector count and retry
-- 
2.43.0


From 47844d7ef6da47e8b61d52ccaef052a05a1ff466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 08/27] fix: mounted lookup of a missing name replies ENOENT

---
 xdvdfs-fsd/src/img_fs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 6112fc9..d7f28b9 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -212,6 +212,10 @@ impl fuser::Filesystem for FuseFilesystem {
         let dirent = self.rt.block_on(dirtab.walk_path(&mut self.device, name));
         let dirent = match dirent {
             Ok(dirent) => dirent,
+            Err(xdvdfs::util::Error::DoesNotExist | xdvdfs::util::Error::DirectoryEmpty) => {
+                reply.error(libc::ENOENT);
+                return;
+            }
             Err(_) => {
                 reply.error(libc::EIO);
                 return;
-- 
2.43.0


From 051308d5399cd7834145b67b89754210e1e43e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 09/27] fix: extract-xiso create mode accepts an output file
 for every -c

---
 xdvdfs-cli/src/exiso_compat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 45d2fec..3750dae 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -117,7 +117,7 @@ async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> a
 
         if i + 2 < rest.len() && rest[i + 2] != "-c" {
             tasks.push((&rest[i + 1], Some(rest[i + 2].clone())));
-            i += 2;
+            i += 3;
         } else {
             tasks.push((&rest[i + 1], None));
             i += 2;
-- 
2.43.0


From 58b5262557de0283c4a763a99913cb4490798dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 10/27] fix: extract-xiso rewrite mode writes inside the
 directory given by -d

---
 xdvdfs-cli/src/exiso_compat.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 3750dae..5d3ab80 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -179,9 +179,7 @@ async fn exiso_repack(
 
         // Pack using `input.old` as input, and source path as output
         let dest_path = match directory {
-            Some(d) => {
-                absolute_path(Path::new(d))?.with_file_name(source_path.file_name().unwrap())
-            }
+            Some(d) => absolute_path(Path::new(d))?.join(source_path.file_name().unwrap()),
             None => source_path,
         };
 
-- 
2.43.0


From ca12c64fff40f0a4245aa7fb4638fc9ee768e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 11/27] fix: build-image honours the -O output option

---
 xdvdfs-cli/src/cmd_build_image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 90dddbc..1ff31cd 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -198,7 +198,8 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         let output_path = image_spec
             .as_ref()
             .and_then(|spec| spec.metadata.as_ref())
-            .and_then(|meta| meta.output.as_ref());
+            .and_then(|meta| meta.output.as_ref())
+            .or(args.meta_output.as_ref());
 
         if let Some(output) = output_path {
             source_path.join(output)
-- 
2.43.0


From 13c4960297db99973c2525fd47d27e7a20259b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:25 +0000
Subject: [PATCH 12/27] fix: unpack refuses names that would leave the output
 directory

---
 xdvdfs-cli/src/cmd_unpack.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 23e6a85..cb21d28 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,4 +1,5 @@
 use crate::img::open_image_raw;
+use anyhow::bail;
 use clap::Args;
 use maybe_async::maybe_async;
 use std::{
@@ -9,6 +10,15 @@ use std::{
 };
 use xdvdfs::{blockdev::OffsetWrapper, layout::DirectoryEntryTable};
 
+/// Rejects names that would not stay a single component below the output directory
+fn validate_file_name(name: &str) -> Result<(), anyhow::Error> {
+    if name == "." || name == ".." || name.contains(['/', '\\', '\0']) {
+        bail!("Image contains invalid file name {name:?}");
+    }
+
+    Ok(())
+}
+
 #[maybe_async]
 async fn copyout_directory(
     img: &mut OffsetWrapper<BufReader<File>>,
@@ -21,6 +31,7 @@ async fn copyout_directory(
         let dir = dir.trim_start_matches('/');
         let dirname = dest_dir.join(dir);
         let file_name = dirent.name_str::<std::io::Error>()?;
+        validate_file_name(&file_name)?;
         let file_path = dirname.join(&*file_name);
         let is_dir = dirent.node.dirent.is_directory();
 
-- 
2.43.0


From f33aac2741ba42d0370740657432b6cefc026bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 13/27] fix: unpack and copy-out fail when the image ends
 before the file does

---
 xdvdfs-cli/src/cmd_unpack.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index cb21d28..efe89fb 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -66,9 +66,12 @@ async fn copyout_directory(
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
-                let data = data.take(dirent.node.dirent.data.size as u64);
+                let size = dirent.node.dirent.data.size as u64;
+                let data = data.take(size);
                 let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file)?;
+                if std::io::copy(&mut data, &mut file)? != size {
+                    bail!("Image ends before the end of {file_name}");
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
@@ -152,9 +155,12 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
     let data = img.get_ref().get_ref().try_clone();
     match data {
         Ok(data) => {
-            let data = data.take(dirent.node.dirent.data.size as u64);
+            let size = dirent.node.dirent.data.size as u64;
+            let data = data.take(size);
             let mut data = std::io::BufReader::new(data);
-            std::io::copy(&mut data, &mut file)?;
+            if std::io::copy(&mut data, &mut file)? != size {
+                bail!("Image ends before the end of {}", args.src_path);
+            }
         }
         Err(err) => {
             eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-- 
2.43.0


From 55929130dcfa1e9c262daaefa45a685b62ae7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 14/27] fix: packing fails when a file could not be copied in
 full

---
 xdvdfs-core/src/write/img.rs | 22 +++++++++++++---------
 xdvdfs-core/src/write/mod.rs |  2 ++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/xdvdfs-core/src/write/img.rs b/xdvdfs-core/src/write/img.rs
index 4e3499e..e45b59a 100644
--- a/xdvdfs-core/src/write/img.rs
+++ b/xdvdfs-core/src/write/img.rs
@@ -169,15 +169,19 @@ pub async fn create_xdvdfs_image<
             if entry.is_dir {
                 dir_sectors.insert(file_path.clone(), entry.sector);
             } else {
-                fs.copy_file_in(
-                    &file_path,
-                    image,
-                    0,
-                    entry.sector * layout::SECTOR_SIZE as u64,
-                    entry.size,
-                )
-                .await
-                .map_err(WriteError::FilesystemCopierError)?;
+                let copied = fs
+                    .copy_file_in(
+                        &file_path,
+                        image,
+                        0,
+                        entry.sector * layout::SECTOR_SIZE as u64,
+                        entry.size,
+                    )
+                    .await
+                    .map_err(WriteError::FilesystemCopierError)?;
+                if copied != entry.size {
+                    return Err(FileStructureError::FileSizeMismatch.into());
+                }
             }
         }
     }
diff --git a/xdvdfs-core/src/write/mod.rs b/xdvdfs-core/src/write/mod.rs
index d269ecb..33a3ac3 100644
--- a/xdvdfs-core/src/write/mod.rs
+++ b/xdvdfs-core/src/write/mod.rs
@@ -18,6 +18,7 @@ pub enum FileStructureError {
     DuplicateFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    FileSizeMismatch,
 }
 
 #[derive(Debug)]
@@ -43,6 +44,7 @@ impl FileStructureError {
             Self::DuplicateFileName => "Duplicate file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::FileSizeMismatch => "File size changed while it was copied",
         }
     }
 }
-- 
2.43.0


From 81b10c236e4a0a9164c363ae1f142257696b8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:38 +0000
Subject: [PATCH 15/27] fix: pack and build-image report a failed final flush
 of the image

---
 xdvdfs-cli/src/cmd_build_image.rs | 1 +
 xdvdfs-cli/src/cmd_pack.rs        | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 1ff31cd..8dbedf6 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -245,6 +245,7 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
     write::img::create_xdvdfs_image(&mut remapfs, &mut image, progress_callback).await?;
 
+    image.flush()?;
     Ok(())
 }
 
diff --git a/xdvdfs-cli/src/cmd_pack.rs b/xdvdfs-cli/src/cmd_pack.rs
index 2605c8e..61190d4 100644
--- a/xdvdfs-cli/src/cmd_pack.rs
+++ b/xdvdfs-cli/src/cmd_pack.rs
@@ -1,4 +1,7 @@
-use std::path::{Path, PathBuf};
+use std::{
+    io::Write,
+    path::{Path, PathBuf},
+};
 
 use anyhow::bail;
 use clap::Args;
@@ -99,5 +102,6 @@ pub async fn cmd_pack_path(source_path: &Path, image_path: &Path) -> Result<(),
         return Err(anyhow::anyhow!("Symlink image sources are not supported"));
     }
 
+    image.flush()?;
     Ok(())
 }
-- 
2.43.0


From 27efbdc2e0271af67a90d2e2b88dad6cb06ed20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:38 +0000
Subject: [PATCH 16/27] fix: compress reports write errors instead of dropping
 them when files are closed

---
 xdvdfs-cli/src/cmd_compress.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 68b55da..5f80c5c 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -22,7 +22,8 @@ pub struct CompressArgs {
 
 struct SplitStdFs;
 
-type BufFile = std::io::BufWriter<std::fs::File>;
+// Unbuffered: `close` cannot report a failed flush
+type BufFile = std::fs::File;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
     write::fs::XDVDFSFilesystem<
@@ -35,9 +36,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
-        let bf: BufFile = std::io::BufWriter::new(file);
-        Ok(bf)
+        std::fs::File::create(name)
     }
 
     async fn close(&mut self, _: BufFile) {}
-- 
2.43.0


From f7d7057e27b9d7d513bcb10ea179eb291d6f47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:38 +0000
Subject: [PATCH 17/27] fix: compress writes its output at the requested path,
 not in the current directory

---
 xdvdfs-cli/src/cmd_compress.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 5f80c5c..bb919f1 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -20,7 +20,9 @@ pub struct CompressArgs {
     image_path: Option<String>,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    dir: PathBuf,
+}
 
 // Unbuffered: `close` cannot report a failed flush
 type BufFile = std::fs::File;
@@ -36,7 +38,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        std::fs::File::create(name)
+        std::fs::File::create(self.dir.join(name))
     }
 
     async fn close(&mut self, _: BufFile) {}
@@ -73,7 +75,12 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         ));
     }
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, image_path);
+    let mut output = ciso::split::SplitOutput::new(
+        SplitStdFs {
+            dir: image_path.parent().unwrap_or(Path::new("")).to_path_buf(),
+        },
+        image_path,
+    );
 
     let progress_callback = |pi| match pi {
         ProgressInfo::DirAdded(path, sector) => {
-- 
2.43.0


From e18b63e31994aedcb3f2701f25f12079106e0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:38 +0000
Subject: [PATCH 18/27] fix: compress compares absolute paths when refusing to
 overwrite its source

---
 xdvdfs-cli/src/cmd_compress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index bb919f1..9a6df73 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -53,7 +53,7 @@ fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
 
 #[maybe_async]
 pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
-    let source_path = PathBuf::from(&args.source_path);
+    let source_path = absolute_path(Path::new(&args.source_path))?;
     let meta = std::fs::metadata(&source_path)?;
     let is_dir = meta.is_dir();
 
@@ -69,7 +69,7 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         return Err(anyhow::anyhow!("Source and destination paths are the same"));
     }
 
-    if image_path.starts_with(&source_path) {
+    if absolute_path(&image_path)?.starts_with(&source_path) {
         return Err(anyhow::anyhow!(
             "Destination path is contained by source path"
         ));
-- 
2.43.0


From 56f21bfb86470597b2e15bdaa725e4c1cda43444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:38 +0000
Subject: [PATCH 19/27] fix: sector allocation no longer wraps around in
 release builds

---
 xdvdfs-core/src/write/sector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/write/sector.rs b/xdvdfs-core/src/write/sector.rs
index 85715d9..9708408 100644
--- a/xdvdfs-core/src/write/sector.rs
+++ b/xdvdfs-core/src/write/sector.rs
@@ -33,7 +33,9 @@ impl SectorAllocator {
     pub fn allocate_contiguous(&mut self, bytes: u64) -> u32 {
         let sectors = required_sectors(bytes);
         let allocation = self.next_free;
-        self.next_free += sectors;
+        self.next_free = allocation
+            .checked_add(sectors)
+            .expect("number of sectors should fit in u32");
         allocation
     }
 }
-- 
2.43.0


From 534175e105cda784003303e5ab4921afd436503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 20/27] fix: file names outside Latin-1 no longer panic when
 repacking or remapping

---
 xdvdfs-core/src/write/fs/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/mod.rs b/xdvdfs-core/src/write/fs/mod.rs
index aef75a2..878f9f3 100644
--- a/xdvdfs-core/src/write/fs/mod.rs
+++ b/xdvdfs-core/src/write/fs/mod.rs
@@ -192,7 +192,7 @@ struct PathPrefixTree<T> {
 }
 
 struct PPTIter<'a, T> {
-    queue: Vec<(String, &'a PathPrefixTree<T>)>,
+    queue: Vec<(Vec<u8>, &'a PathPrefixTree<T>)>,
 }
 
 impl<'a, T> Iterator for PPTIter<'a, T> {
@@ -207,13 +207,15 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
             for (ch, child) in node.children.iter().enumerate() {
                 if let Some(child) = child {
                     let mut name = name.to_owned();
-                    name.push(ch as u8 as char);
+                    name.push(ch as u8);
                     self.queue.push((name, child));
                 }
             }
 
             if let Some(record) = &node.record {
-                return Some((name.to_owned(), &record.0));
+                // Records are only ever inserted at the end of a whole UTF-8 string
+                let name = String::from_utf8_lossy(name).into_owned();
+                return Some((name, &record.0));
             }
         }
 
@@ -237,7 +239,7 @@ impl<T> PathPrefixTree<T> {
 
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &node.children[ch as usize];
                 node = next.as_ref()?;
             }
@@ -258,7 +260,7 @@ impl<T> PathPrefixTree<T> {
 
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &mut node.children[ch as usize];
                 node = next.as_mut()?;
             }
@@ -278,7 +280,7 @@ impl<T> PathPrefixTree<T> {
         let mut node = self;
 
         for component in path.iter() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &node.children[ch as usize];
                 node = next.as_ref()?;
             }
@@ -294,7 +296,7 @@ impl<T> PathPrefixTree<T> {
     pub fn insert_tail(&mut self, tail: &str, val: T) -> &mut Self {
         let mut node = self;
 
-        for ch in tail.chars() {
+        for ch in tail.bytes() {
             let next = &mut node.children[ch as usize];
             node = next.get_or_insert_with(|| Box::new(Self::default()));
         }
@@ -312,7 +314,7 @@ impl<T> PathPrefixTree<T> {
 
     pub fn iter(&self) -> PPTIter<'_, T> {
         PPTIter {
-            queue: alloc::vec![(String::new(), self)],
+            queue: alloc::vec![(Vec::new(), self)],
         }
     }
 }
-- 
2.43.0


From 41a8849924d558f05dfb21d6536b2ea0c729b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 21/27] fix: copying from an image stops at the end of the
 source file

---
 xdvdfs-core/src/write/fs/xdvdfs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 3de5119..c562867 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -306,7 +306,8 @@ where
                 util::Error::NoDirent,
             ))?;
 
-        let size_to_copy = core::cmp::min(size, dirent.node.dirent.data.size as u64);
+        let file_size = dirent.node.dirent.data.size as u64;
+        let size_to_copy = core::cmp::min(size, file_size.saturating_sub(input_offset));
         if size_to_copy == 0 {
             return Ok(0);
         }
-- 
2.43.0


From 5336eec2701d7f3c1d31cb07f9f861ebf4af989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 22/27] fix: compressing an image with a partially filled
 sector no longer panics

---
 xdvdfs-core/src/write/fs/sector_linear.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/write/fs/sector_linear.rs b/xdvdfs-core/src/write/fs/sector_linear.rs
index 24af142..aa00478 100644
--- a/xdvdfs-core/src/write/fs/sector_linear.rs
+++ b/xdvdfs-core/src/write/fs/sector_linear.rs
@@ -206,7 +206,8 @@ where
                         sector_size as u64,
                     )
                     .await?;
-                assert_eq!(bytes_read, sector_size as u64);
+                // The last sector of a file is zero padded
+                assert!(bytes_read <= sector_size as u64);
             }
         };
 
-- 
2.43.0


From 25211f21108206d2e5b880ff2eac1992d55a25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 23/27] fix: copying a host file into memory no longer stops at
 a short read

---
 xdvdfs-core/src/write/fs/stdfs.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index f41179a..12637c1 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -116,16 +116,19 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         use std::io::{Read, Seek, SeekFrom};
 
         let src = src.as_path_buf(&self.root);
-        let file = std::fs::File::open(src)?;
-        let mut file = std::io::BufReader::with_capacity(1024 * 1024, file);
+        let mut file = std::fs::File::open(src)?;
         file.seek(SeekFrom::Start(input_offset))?;
 
         let output_offset = output_offset as usize;
-        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
+        let available = <[u8]>::len(dest)
+            .checked_sub(output_offset)
+            .ok_or(std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
+        let size = core::cmp::min(size as usize, available);
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        dest.fill(0);
+        let mut remaining = &mut *dest;
+        std::io::copy(&mut file.take(size as u64), &mut remaining)?;
         Ok(<[u8]>::len(dest) as u64)
     }
 }
@@ -145,16 +148,19 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         use std::io::{Read, Seek, SeekFrom};
 
         let src = src.as_path_buf(&self.root);
-        let file = std::fs::File::open(src)?;
-        let mut file = std::io::BufReader::with_capacity(1024 * 1024, file);
+        let mut file = std::fs::File::open(src)?;
         file.seek(SeekFrom::Start(input_offset))?;
 
         let output_offset = output_offset as usize;
-        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
+        let available = <[u8]>::len(dest)
+            .checked_sub(output_offset)
+            .ok_or(std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
+        let size = core::cmp::min(size as usize, available);
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        dest.fill(0);
+        let mut remaining = &mut *dest;
+        std::io::copy(&mut file.take(size as u64), &mut remaining)?;
         Ok(<[u8]>::len(dest) as u64)
     }
 }
-- 
2.43.0


From 42f514f44628f89ccbfd028bd5cacdebcc60dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:03 +0000
Subject: [PATCH 24/27] fix: the mount command exits non-zero when the daemon
 fails to start

---
 xdvdfs-fsd/src/daemonize.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xdvdfs-fsd/src/daemonize.rs b/xdvdfs-fsd/src/daemonize.rs
index cb6b7a8..1a31599 100644
--- a/xdvdfs-fsd/src/daemonize.rs
+++ b/xdvdfs-fsd/src/daemonize.rs
@@ -11,7 +11,7 @@ pub struct Daemonize(Inner, bool);
 impl Drop for Daemonize {
     fn drop(&mut self) {
         if !self.1 {
-            self.finish_impl().unwrap();
+            self.finish_impl(1).unwrap();
         }
     }
 }
@@ -22,7 +22,7 @@ impl Daemonize {
             return Ok(());
         }
 
-        self.finish_impl()?;
+        self.finish_impl(0)?;
         self.1 = true;
         Ok(())
     }
@@ -47,10 +47,10 @@ impl Daemonize {
             unistd::ForkResult::Parent { child: _ } => {
                 // Wait for message on pipe, then exit
                 std::mem::drop(w);
-                let mut buf = [0];
+                let mut buf = [1];
                 unistd::read(r.as_raw_fd(), &mut buf)?;
                 std::mem::drop(r);
-                std::process::exit(0);
+                std::process::exit(buf[0].into());
             }
             unistd::ForkResult::Child => {
                 std::mem::drop(r);
@@ -59,8 +59,8 @@ impl Daemonize {
         }
     }
 
-    fn finish_impl(&mut self) -> anyhow::Result<()> {
-        nix::unistd::write(&self.0, &[0])?;
+    fn finish_impl(&mut self, status: u8) -> anyhow::Result<()> {
+        nix::unistd::write(&self.0, &[status])?;
         Ok(())
     }
 }
@@ -73,7 +73,7 @@ impl Daemonize {
         Ok(Daemonize((), true))
     }
 
-    fn finish_impl(&mut self) -> anyhow::Result<()> {
+    fn finish_impl(&mut self, _status: u8) -> anyhow::Result<()> {
         Ok(())
     }
 }
-- 
2.43.0


From 8f1ebbbe0d3175bf93c90fbed6ceb7ae6b658b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 25/27] fix: the length of a buffered file device includes its
 buffered bytes

---
 xdvdfs-core/src/blockdev.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 07f4ca8..b06c33a 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -272,6 +272,8 @@ impl BlockDeviceWrite for std::io::BufWriter<std::fs::File> {
     }
 
     async fn len(&mut self) -> Result<u64, std::io::Error> {
+        // Bytes still in the buffer are part of the device
+        std::io::Write::flush(self)?;
         Ok(self.get_mut().metadata()?.len())
     }
 }
-- 
2.43.0


From fce70ad904c391dddf4bcf7f8c0bae0a98e6db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:36 +0000
Subject: [PATCH 26/27] fix: compress refuses to write an output part over its
 source

---
 xdvdfs-cli/src/cmd_compress.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 9a6df73..3c3436a 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -22,6 +22,7 @@ pub struct CompressArgs {
 
 struct SplitStdFs {
     dir: PathBuf,
+    source: PathBuf,
 }
 
 // Unbuffered: `close` cannot report a failed flush
@@ -38,7 +39,16 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        std::fs::File::create(self.dir.join(name))
+        // The names of the parts differ from the requested name, and may be the source's
+        let path = self.dir.join(name);
+        if path.exists() && absolute_path(&path)?.starts_with(&self.source) {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "Source and destination paths are the same",
+            ));
+        }
+
+        std::fs::File::create(path)
     }
 
     async fn close(&mut self, _: BufFile) {}
@@ -78,6 +88,7 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
     let mut output = ciso::split::SplitOutput::new(
         SplitStdFs {
             dir: image_path.parent().unwrap_or(Path::new("")).to_path_buf(),
+            source: source_path.clone(),
         },
         image_path,
     );
-- 
2.43.0


From b81489694ce1efbec477219d16f413d1050ae59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:20 +0000
Subject: [PATCH 27/27] fix: mounted files read as empty at and after their end

---
 xdvdfs-fsd/src/img_fs.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index d7f28b9..e92dc11 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -304,6 +304,12 @@ impl fuser::Filesystem for FuseFilesystem {
             return;
         }
 
+        // Reading at or after the end of the file is not an error
+        if offset as u64 >= dirent.node.dirent.data.size as u64 {
+            reply.data(&[]);
+            return;
+        }
+
         let data =
             dirent
                 .node
-- 
2.43.0

