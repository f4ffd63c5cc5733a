From 16c6f719f4f249bf8cbf3377540527c482611428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 01/41] fix: reads stop at the end of the file and stay inside
 the caller's buffer

The requested size was never clamped to the file size, so cached bytes past the end of the
file were returned, and a read crossing the end in the middle of the buffer cleared memory
past it (e.g. a 4051 byte file, read of 100 bytes at 4000).
---
 lazyfs/src/lazyfs.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4709ff3..3931ff0 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1381,8 +1381,16 @@ int LazyFS::lfs_read (const char* path,
         // std::printf ("\tread: file has %d bytes\n", (int)meta.size);
     }
 
-    if (offset > (meta.size - 1))
-        return 0;
+    // never read past the end of the file
+
+    off_t bytes_until_eof = meta.size > offset ? meta.size - offset : 0;
+
+    if (BYTES_LEFT > bytes_until_eof) {
+
+        size       = bytes_until_eof;
+        BYTES_LEFT = bytes_until_eof;
+        blk_high   = bytes_until_eof > 0 ? (offset + bytes_until_eof - 1) / IO_BLOCK_SIZE : blk_low - 1;
+    }
 
     // ---------------------------------------------------------------------------------
 
@@ -1456,11 +1464,6 @@ int LazyFS::lfs_read (const char* path,
                 BUF_ITERATOR += (read_to - blk_readable_from) + 1;
                 BYTES_LEFT -= (read_to - blk_readable_from) + 1;
 
-                if (read_to < (IO_BLOCK_SIZE - 1) && CURR_BLK_IDX < blk_high) {
-
-                    memset (buf + BUF_ITERATOR + read_to, 0, IO_BLOCK_SIZE - read_to);
-                }
-
                 data_allocated += (read_to - blk_readable_from) + 1;
 
             } else {
-- 
2.43.0


From ca2105b9aa22c1d11fb138e380166231e249ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 02/41] fix: truncate drops the cached blocks of the file's
 inode

Cached contents are indexed by inode, but the path was given, so shrinking a file left its
blocks (and pages) in the cache.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3931ff0..2d09b12 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1818,7 +1818,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
     } else if (truncate_size < previous_metadata->size) {
 
-        this_ ()->FSCache->truncate_item (owner, truncate_size);
+        this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
-- 
2.43.0


From 3d544175cad5a9652ec862ba701f4611b80d421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 03/41] fix: truncate returns a defined result

The result was read uninitialised whenever the file was already cached.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 2d09b12..2200382 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1728,7 +1728,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
-    int res;
+    int res = 0;
 
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
-- 
2.43.0


From 0e1ad3fbcc39f65369c76a310030c2da8331e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 04/41] fix: fsync writes every block of a dirty page

The page was marked clean when its first block was collected, so the other blocks of the
same page were never written. Also do not dereference begin() of an empty map.
---
 .../libpcache/src/engine/backends/custom/custom_cache.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 68ec7d9..c2a1745 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -492,12 +492,14 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
             auto pptr = std::get<1> (cit->second);
             if (pptr->is_page_dirty ()) {
                 new_iterate_blocks.insert ({cit->first, cit->second});
-                pptr->set_page_as_dirty (false);
             }
         }
 
-        off_t page_streak_last_offset =
-            (new_iterate_blocks.begin ()->first) * this->config->IO_BLOCK_SIZE;
+        // a page can hold several blocks, so clean pages only after collecting them all
+        for (auto const& dirty_block : new_iterate_blocks)
+            std::get<1> (dirty_block.second)->set_page_as_dirty (false);
+
+        off_t page_streak_last_offset = 0;
 
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
         page_chunk.reserve (new_iterate_blocks.size ());
-- 
2.43.0


From f2055792013521d9e27facd599d219a05852b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 05/41] fix: take partially filled pages out of the owner's
 list when reusing them

The entry was popped from a copy, so a full page was handed out again and the block lost.
---
 libs/libpcache/src/engine/backends/custom/custom_cache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index c2a1745..bdd9f10 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -125,7 +125,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
     if (this->owner_pages_mapping.find (owner_id) != this->owner_pages_mapping.end ()) {
 
-        auto free_pages = this->owner_free_pages_mapping.at (owner_id);
+        auto& free_pages = this->owner_free_pages_mapping.at (owner_id);
 
         if (free_pages.size () > 0) {
 
-- 
2.43.0


From 127a1ef0453fe3f551a76df2d8887e15c49ee0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 06/41] fix: truncate clears the cut block up to its end,
 whatever its place in the page

---
 libs/libpcache/src/engine/page/page.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 076460a..c57731b 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -201,7 +201,7 @@ void Page::write_null_from (int block_id, int from_offset) {
 
     memset (this->data + off_first + from_offset,
             0,
-            this->config->IO_BLOCK_SIZE - off_first - from_offset);
+            this->config->IO_BLOCK_SIZE - from_offset);
 }
 
 void Page::remove_block (int block_id) {
-- 
2.43.0


From d376e466549daabe05a6da468580696fc4be4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 07/41] fix: truncate frees a page only when none of its blocks
 is left

With several blocks per page the page was freed (or leaked, when dirty) while other blocks
of the file were still in it.
---
 .../engine/backends/custom/custom_cache.cpp    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index bdd9f10..79ef4e0 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -627,10 +627,24 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
                 page->remove_block (blk_id);
 
-                this->owner_pages_mapping.at (content_owner_id).erase (page_id);
                 this->owner_ordered_pages_mapping.at (content_owner_id).erase (blk_id);
 
-                if (not page->is_page_dirty ()) {
+                auto& owner_free_pages = this->owner_free_pages_mapping.at (content_owner_id);
+                auto free_page_pos =
+                    std::find (owner_free_pages.begin (), owner_free_pages.end (), page_id);
+
+                if (not page->allocated_block_ids.empty ()) {
+
+                    // other blocks of this owner remain in the page
+                    if (free_page_pos == owner_free_pages.end ())
+                        owner_free_pages.push_back (page_id);
+
+                } else {
+
+                    this->owner_pages_mapping.at (content_owner_id).erase (page_id);
+
+                    if (free_page_pos != owner_free_pages.end ())
+                        owner_free_pages.erase (free_page_pos);
 
                     // add page to free pages...
                     this->free_pages.push_back (page_id);
-- 
2.43.0


From 3f02975e2dd0bd36503dda3ce0535e5c28769f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 08/41] fix: an evicted page leaves its old owner completely

The page kept its old owner, so handing it to another file erased an unrelated block of the
old owner from the list of blocks to sync, and the old owner could allocate in it again.
---
 .../src/engine/backends/custom/custom_cache.cpp      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 79ef4e0..dc3f894 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -170,7 +170,16 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         if (this->owner_pages_mapping.find (old_owner) != this->owner_pages_mapping.end ()) {
             this->owner_pages_mapping.at (old_owner).erase (replace_page_id);
-            // todo: if in free pages remove from there
+        }
+
+        if (this->owner_free_pages_mapping.find (old_owner) !=
+            this->owner_free_pages_mapping.end ()) {
+
+            auto& old_free_pages = this->owner_free_pages_mapping.at (old_owner);
+            auto old_free_pos =
+                std::find (old_free_pages.begin (), old_free_pages.end (), replace_page_id);
+            if (old_free_pos != old_free_pages.end ())
+                old_free_pages.erase (old_free_pos);
         }
 
         if (page_to_reset->is_page_dirty ())
@@ -182,6 +191,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
         // this->owner_ordered_pages_mapping.at (owner);
 
         page_to_reset->reset ();
+        page_to_reset->change_owner ("none");
 
         return make_pair (replace_page_id, page_to_reset);
     }
-- 
2.43.0


From 5abecfa3f32a2943edbf9ee6c1aeb6f7ebf76848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 09/41] fix: clear faults with timing before fire at the
 configured occurrence

fetch_add returns the previous value, so they fired one operation late.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 2200382..b561935 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -188,7 +188,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                     
                     int current_count = clear_fault->counter.load();
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1);
+                        current_count = clear_fault->counter.fetch_add(1) + 1;
                     }
             
                     if (clear_fault->timing == optiming) {
-- 
2.43.0


From 9228ebfb6cbdbd921fbdb591764aec434efae4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 10/41] fix: clear faults after unlink are triggered as after,
 not before

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b561935..f870173 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2161,7 +2161,7 @@ int LazyFS::lfs_unlink (const char* path) {
         return -errno;
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
+    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
     return 0;
 }
-- 
2.43.0


From 0bb6e5b2a7ef5fd06c7c6ecc7ae58a9ae7c0783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 11/41] fix: zero filling inside write and truncate is not
 counted as a write

The fill done by a write past the end of the file or by an extending truncate went through
the write operation itself, so it advanced fault counters and could trigger write faults.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  6 +++
 lazyfs/src/lazyfs.cpp            | 66 ++++++++++++++++++--------------
 2 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 5fcff7c..711246b 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -330,6 +330,12 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
 
     static int lfs_fsync (const char* path, int isdatasync, struct fuse_file_info* fi);
 
+    static int write_to_cache (const char* path,
+                               const char* buf,
+                               size_t size,
+                               off_t offset,
+                               struct fuse_file_info* fi);
+
     static int lfs_write (const char* path,
                           const char* buf,
                           size_t size,
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f870173..4af258c 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -935,20 +935,11 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
     return 0;
 }
 
-int LazyFS::lfs_write (const char* path,
-                       const char* buf,
-                       size_t size,
-                       off_t offset,
-                       struct fuse_file_info* fi) {
-
-    this_ ()->trigger_crash_fault ("write", "before", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("write", "before", path, "");
-
-    std::shared_lock<std::shared_mutex> lock (cache_command_lock);
-
-    if (this_ ()->FSConfig->log_all_operations) {
-        spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
-    }
+int LazyFS::write_to_cache (const char* path,
+                            const char* buf,
+                            size_t size,
+                            off_t offset,
+                            struct fuse_file_info* fi) {
 
     int fd;
     int res;
@@ -1021,7 +1012,7 @@ int LazyFS::lfs_write (const char* path,
                 if (size_to_fill > 0) {
 
                     char* fill_zeros = (char*)calloc (size_to_fill, 1);
-                    lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
+                    write_to_cache (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
                     free (fill_zeros);
                 }
             }
@@ -1264,17 +1255,6 @@ int LazyFS::lfs_write (const char* path,
         close (fd_caching);
     }
 
-    // ----------------------------------------------------------------------------------
-    
-    string fault_type = CLEAR;
-    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
-    if (!crash_added) { //At the moment only one fault type can be injected
-        crash_added =  this_ () -> split_write(path,buf,size,offset);
-        fault_type = TORN_OP;
-    } else {
-        fault_type = TORN_SEQ; 
-    }
-
     // res should be = actual bytes written as pwrite could fail...
     res = size;
 
@@ -1286,7 +1266,37 @@ int LazyFS::lfs_write (const char* path,
     if (fi == NULL)
         close (fd);
 
-    
+    return res;
+}
+
+int LazyFS::lfs_write (const char* path,
+                       const char* buf,
+                       size_t size,
+                       off_t offset,
+                       struct fuse_file_info* fi) {
+
+    this_ ()->trigger_crash_fault ("write", "before", path, "", CLEAR);
+    this_ ()->trigger_configured_clear_fault ("write", "before", path, "");
+
+    std::shared_lock<std::shared_mutex> lock (cache_command_lock);
+
+    if (this_ ()->FSConfig->log_all_operations) {
+        spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
+    }
+
+    int res = write_to_cache (path, buf, size, offset, fi);
+
+    if (res < 0)
+        return res;
+
+    string fault_type = CLEAR;
+    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
+    if (!crash_added) { //At the moment only one fault type can be injected
+        crash_added =  this_ () -> split_write(path,buf,size,offset);
+        fault_type = TORN_OP;
+    } else {
+        fault_type = TORN_SEQ; 
+    }
 
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
     this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
@@ -1802,7 +1812,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         char* buf = (char*)malloc (add_bytes_total);
         memset (buf, 0, add_bytes_total);
 
-        int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
+        int r = write_to_cache (path, buf, add_bytes_total, add_bytes_from_offset, fi);
 
         if (r != add_bytes_total) {
 
-- 
2.43.0


From 6b6095bbc7a66a3f32053423ed89947d800f6be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 12/41] fix: release the command lock before triggering faults
 after an operation

A clear fault with crash=false clears the cache under the exclusive command lock, which the
operation itself was still holding in shared mode: the file system hung.
---
 lazyfs/src/lazyfs.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4af258c..5108b60 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -851,6 +851,9 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
     }
 
+    // the fault triggers may need the command lock
+    lock.unlock ();
+
     if (fi->flags & O_TRUNC)
         lfs_truncate (path, 0, fi);
 
@@ -929,6 +932,8 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
         this_ ()->FSCache->unlockItem (inode);
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("create", "after", path, "");
 
@@ -1298,6 +1303,8 @@ int LazyFS::lfs_write (const char* path,
         fault_type = TORN_SEQ; 
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
     this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
 
@@ -1545,6 +1552,8 @@ int LazyFS::lfs_read (const char* path,
     if (fi == NULL)
         close (fd);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
@@ -1584,6 +1593,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
                               : fsync (fi->fh);
 
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
     
@@ -1716,6 +1727,8 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
 
@@ -1863,6 +1876,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
@@ -1886,6 +1901,8 @@ int LazyFS::lfs_symlink (const char* from, const char* to) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("symlink", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("symlink", "after", from, to);
     return 0;
@@ -1908,6 +1925,8 @@ int LazyFS::lfs_access (const char* path, int mask) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("access", "after", path, "");
 
@@ -1953,6 +1972,8 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
 
@@ -2170,6 +2191,8 @@ int LazyFS::lfs_unlink (const char* path) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
-- 
2.43.0


From 5505cfa4d7ed58d515c9317196325bc2c61ff59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 13/41] fix: crash faults on two paths match each given pattern

The test for an omitted source pattern was inverted: a given one was ignored and with only
the destination given the fault never fired.
---
 lazyfs/src/lazyfs.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5108b60..d0dc250 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -139,8 +139,7 @@ void LazyFS::trigger_crash_fault (string opname,
                 string to = it.second;
                 std::regex to_rgx (".*" + to + ".*");
 
-                if (std::regex_match ("none", from_rgx))
-                    regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_match (from_op_path, from_rgx);
                 if (to != "none")
                     regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
 
@@ -223,6 +222,10 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_from,
                               string crash_regex_to) {
 
+    // the source path can be omitted in operations with two paths
+    if (crash_regex_from == "none" && fs_op_multi_path.find (crash_operation) != fs_op_multi_path.end ())
+        crash_regex_from = "";
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-- 
2.43.0


From c6de13ea64955ba897ef72fd1535a0a2c763a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 14/41] fix: torn faults crash whatever characters the path
 contains

The path was used as a regular expression, so for a name with special characters (a+b) the
crash never happened, and an unbalanced parenthesis threw.
---
 lazyfs/src/lazyfs.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index d0dc250..f7cb51e 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -497,6 +497,12 @@ faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
     return fault_r;
 }
 
+// Returns a regex that matches exactly the given path.
+static string regex_escape (const string& path) {
+    static const std::regex special (R"([.^$|()\[\]{}*+?\\])");
+    return std::regex_replace (path, special, R"(\$&)");
+}
+
 bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t offset) {
     string path_str(path);
     int pw,fd;
@@ -524,7 +530,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
 
                 if (pw==this->pending_write->size) {
                     if ((fault->persist).size()==1) {
-                        this_ ()->add_crash_fault ("after", "write", path_str, "none");            
+                        this_ ()->add_crash_fault ("after", "write", regex_escape (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
                         return res;
@@ -555,7 +561,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     if (pw == size) {
                         int max = fault->persist.back();
                         if (max == fault->counter) {
-                            this_ ()->add_crash_fault ("after", "write", path_str, "none"); 
+                            this_ ()->add_crash_fault ("after", "write", regex_escape (path_str), "none"); 
                             spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                             res= true;
                         }
@@ -651,7 +657,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                         } 
                     }
 
-                    this_ ()->add_crash_fault ("after", "write", path_s, "none");            
+                    this_ ()->add_crash_fault ("after", "write", regex_escape (path_s), "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
                 }
-- 
2.43.0


From 6743a6cf628b7fcddd3de618810aa96a835e5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 15/41] fix: reject invalid torn-seq faults of the
 configuration file

The validation result went to a shadowing variable and was ignored.
---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index 6466e59..b3a5eea 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -202,7 +202,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 vector<string> errors;
                 if (valid_fault) {
                     fault = new faults::ReorderF(op,persist,occurrence);
-                    vector<string> errors = fault->validate();
+                    errors = fault->validate();
                 }
 
                 if (!valid_fault || errors.size() > 0) {
-- 
2.43.0


From 24bec38d27712159ddca7ddc9909357f7db93fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 16/41] fix: torn-op adds the remaining bytes to the last part
 of the write

They were added to the last persisted part, even when that is not the last one.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f7cb51e..e068852 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -638,7 +638,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                             size_t final_size_to_persist = size_to_persist;
 
                             off_to_persist = offset + (p - 1) * size_to_persist;
-                            if (extra_size_to_persist>0 && p_i == split_fault->persist.size()-1) {
+                            if (extra_size_to_persist>0 && p == split_fault->parts) {
                                 spdlog::info("[lazyfs.warning]: The value of 'parts' specified for the split write fault does not evenly divide the size of the write to split. We recommend changing this value, since to the last part will be added the extra bytes.");
                                 final_size_to_persist += extra_size_to_persist;
                             }
-- 
2.43.0


From 47073d38a9322778e4525f1efd0955dfdded081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 17/41] fix: torn-op keeps 64-bit offsets

Parts at file offsets over 2 GiB were persisted at a truncated offset.
---
 lazyfs/src/lazyfs.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index e068852..2605c27 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -596,7 +596,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
 
                 if (split_fault->counter.load() == split_fault->occurrence) {
                     fd = open(path, O_CREAT|O_WRONLY, 0666);
-                    vector<tuple<int,int,int>> persist_info; 
+                    vector<tuple<off_t,size_t,off_t>> persist_info; 
                     persist_info.reserve((split_fault->persist).size());
 
                     size_t size_to_persist;
@@ -605,7 +605,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
 
                     if (split_fault->parts == -1) {
                         for (auto & p : split_fault->persist) { //not equal parts
-                            int sum = 0;
+                            size_t sum = 0;
                             int sum_until_persist = 0;
                             buf_i = 0;
                         
@@ -623,7 +623,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                                 off_to_persist = offset + buf_i;
                             }
 
-                            tuple <int,int,int> info_part (buf_i,size_to_persist,off_to_persist);
+                            tuple <off_t,size_t,off_t> info_part (buf_i,size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                         }
                         
@@ -643,7 +643,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                                 final_size_to_persist += extra_size_to_persist;
                             }
                             
-                            tuple <int,int,int> info_part (buf_i,final_size_to_persist,off_to_persist);
+                            tuple <off_t,size_t,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                          }
                     }
-- 
2.43.0


From c454e2f4683e5ebbbe29dd751e99fbd365277ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 18/41] fix: torn-seq faults added by command take the
 persisted writes in order

---
 lazyfs/src/lazyfs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 2605c27..5a55737 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -314,6 +314,9 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
         ++iter;
     }
 
+    //Sorting the persist vector is necessary for injecting this fault
+    sort(persistv.begin(), persistv.end());
+
     faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
     vector<string> errors = fault->validate();
 
-- 
2.43.0


From e047814eb200c1b859df3ffcbc4eb6c91320739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 19/41] fix: torn-seq crashes after the first write when it is
 the last selected one

The number of entries was tested, so a repeated entry (1,1) suppressed the crash.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5a55737..9ce1dad 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -532,7 +532,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                 close(fd);
 
                 if (pw==this->pending_write->size) {
-                    if ((fault->persist).size()==1) {
+                    if ((fault->persist).back()==1) {
                         this_ ()->add_crash_fault ("after", "write", regex_escape (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
-- 
2.43.0


From 217a04289b87c75a726fea8574164d502df045f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 20/41] fix: torn-seq holds back the first write of each file
 separately

There was one pending write for all files, so faults on two files dropped or persisted each
other's first write.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  4 ++--
 lazyfs/src/lazyfs.cpp            | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 711246b..f76de2d 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -113,9 +113,9 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     std::unordered_map<string, unordered_set<string>> crash_faults;
 
     /**
-     * @brief Write that was put on hold and may or may not be persisted.
+     * @brief Writes that were put on hold and may or may not be persisted (at most one per path).
      */
-    Write *pending_write;
+    std::unordered_map<string, Write*> pending_writes;
 
     /**
      * @brief Lock for pending write.
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 9ce1dad..93a5515 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -79,7 +79,6 @@ LazyFS::LazyFS (Cache* cache,
     this->faults_handler_thread = faults_handler_thread;
     this->fht_worker            = fht_worker;
     this->faults                = faults;
-    this->pending_write         = NULL;
 
     for (auto const& it : this->allow_crash_fs_operations) {
         this->crash_faults_before_map.insert ({it, {}});
@@ -471,9 +470,11 @@ void LazyFS::restart_counter(string path, string op) {
 bool LazyFS::check_and_delete_pendingwrite(const char* path) {
     bool res = false;
     (this->write_lock).lock();
-    if (this->pending_write && (res = (strcmp(this->pending_write->path,path) == 0))) {
-        delete(this->pending_write); 
-        this->pending_write = NULL;
+    auto it = this->pending_writes.find(path);
+    if (it != this->pending_writes.end()) {
+        res = true;
+        delete(it->second);
+        this->pending_writes.erase(it);
     }
     (this->write_lock).unlock();
 
@@ -523,15 +524,17 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
             fault->group_counter.fetch_add(1);
         }
 
-        if (this->pending_write!=NULL) {
+        auto pending_it = this->pending_writes.find(path_str);
+        if (pending_it != this->pending_writes.end()) {
+            Write* pending_write = pending_it->second;
             //Update group counter
             if (fault->group_counter.load() == fault->occurrence) {
-                fd = open (this->pending_write->path, O_CREAT|O_WRONLY, 0666);
-                pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,this->pending_write->offset);
+                fd = open (pending_write->path, O_CREAT|O_WRONLY, 0666);
+                pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);
                 spdlog::warn ("[lazyfs.faults]: Going to persist the write 1 for the path {}",path_str);
                 close(fd);
 
-                if (pw==this->pending_write->size) {
+                if (pw==pending_write->size) {
                     if ((fault->persist).back()==1) {
                         this_ ()->add_crash_fault ("after", "write", regex_escape (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
@@ -542,14 +545,15 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     spdlog::warn ("[lazyfs.faults]: Something went wrong when trying to persist the 1st write for path {} (pwrite failed).", path);
                 }
             }
-            delete(this->pending_write); this->pending_write = NULL;
+            delete(pending_write);
+            this->pending_writes.erase(pending_it);
         }
         (this->write_lock).unlock();
         
         if (find((fault->persist).begin(), (fault->persist).end(), fault->counter.load()) != (fault->persist).end()) {  //If count is in vector persist
             if (fault->counter==1) { //If array persist has 1st write, we need to store this write until we know another write will happen
                 (this->write_lock).lock();
-                this->pending_write = new Write(path,buf,size,offset);
+                this->pending_writes[path_str] = new Write(path,buf,size,offset);
                 (this->write_lock).unlock();
                 
             } else {
-- 
2.43.0


From 4de1ba53627c869e9adcd99da64e0686307cde11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 21/41] fix: removing a file forgets its name even when its
 contents are not cached

After a cache clear the names of hard linked files stayed mapped to the old inode.
---
 libs/libpcache/src/cache.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 08d79e3..80a67b9 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -453,6 +453,8 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
     lock.lock ();
 
+    this->file_inode_mapping.erase (string (path));
+
     if (not has_content_cached (owner)) {
 
         lock.unlock ();
@@ -461,8 +463,6 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     lockItem (owner);
 
-    this->file_inode_mapping.erase (string (path));
-
     Item* item = _get_content_ptr (owner);
 
     nlink_t before_nlinks = item->get_metadata ()->nlinks;
-- 
2.43.0


From 24a48d0817f25916488fb21165565f7e91e9f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 22/41] fix: renaming between hard links of the same file
 changes nothing

The cached link count was decremented although both names remain, so removing one of them
later dropped the unsynced data.
---
 libs/libpcache/src/cache.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 80a67b9..9d901ba 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -409,6 +409,10 @@ bool Cache::rename_item (string old_cid, string new_cid) {
             to_remove_inode = this->file_inode_mapping.at (new_cid);
         }
 
+        // both names refer to the same file, so rename does nothing
+        if (to_remove_inode == inode)
+            return return_val;
+
         this->file_inode_mapping.erase (old_cid);
         this->file_inode_mapping[new_cid] = inode;
 
-- 
2.43.0


From 28dd43d62956cc5cb452e6b43da18e9f4548ab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 23/41] fix: a failed rename leaves the cache alone

The cached names were moved before renaming in the backing file system, and stayed moved
when that failed.
---
 lazyfs/src/lazyfs.cpp | 45 +++++++++----------------------------------
 1 file changed, 9 insertions(+), 36 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 93a5515..5b78df9 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1668,41 +1668,13 @@ int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int
     std::vector<string> from_dir_filepaths;
     lfs_get_dir_filenames (from, &from_dir_filepaths);
 
-    // Check if destination folder exists
-
-    struct stat to_stat;
-    if (!stat (to, &to_stat) && S_ISDIR (to_stat.st_mode)) {
-
-        // destination folder exists and is a directory
-        // prepend with new prepend and merge
-
-        int is_empty = lfs_is_dir_empty (to);
-
-        if (is_empty == 1) {
-
-            goto replace_prepend;
-
-        } else if (is_empty == 0) {
-
-            errno = ENOTEMPTY;
-
-            return -1;
-        }
-
-    } else {
-
-    replace_prepend:
+    if (rename (from, to) == -1)
+        return -1;
 
-        // destination folder doesn't exist
-        // all 'from' paths should be replaced with the new prepend
+    // all 'from' paths should be replaced with the new prepend
 
-        for (auto const& it : from_dir_filepaths) {
-
-            this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())))
-                ? 0
-                : -1;
-        }
-    }
+    for (auto const& it : from_dir_filepaths)
+        this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())));
 
     return 0;
 }
@@ -1731,13 +1703,14 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
         // from: is a dir, because getattr does not cache dirs
 
-        lfs_recursive_rename (from, to, flags);
-        res = rename (from, to);
+        res = lfs_recursive_rename (from, to, flags);
 
     } else {
 
-        res = this_ ()->FSCache->rename_item (last_owner, new_owner) ? 0 : -1;
         res = rename (from, to);
+
+        if (res == 0)
+            this_ ()->FSCache->rename_item (last_owner, new_owner);
     }
 
     if (res == -1)
-- 
2.43.0


From a7dfe9602aeef037e45fc503839c92a9d93b3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 24/41] fix: a failed unlink leaves the cached data alone

---
 lazyfs/src/lazyfs.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5b78df9..e08641a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2167,19 +2167,14 @@ int LazyFS::lfs_unlink (const char* path) {
 
     int res;
 
-    string inode = this_ ()->FSCache->get_original_inode (path);
-    if (!inode.empty ())
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
-
     res = unlink (path);
 
-    if (res == 0 && inode.empty ()) {
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
-    }
-
     if (res == -1)
         return -errno;
 
+    string inode = this_ ()->FSCache->get_original_inode (path);
+    this_ ()->FSCache->remove_cached_item (inode, path, false);
+
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-- 
2.43.0


From d14df939c3ac0c35c6debe84e19905d7d066feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 25/41] fix: fsync stores the times in the synced file

The inode number was used as the path.
---
 libs/libpcache/src/cache.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 9d901ba..17ba007 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -385,8 +385,7 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
         TIMESPEC_TO_TIMEVAL (&times[0], &(meta->atim));
         TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));
 
-        const char* path = owner.c_str ();
-        utimes (path, times);
+        utimes (orig_path, times);
     }
 
     unlockItem (owner);
-- 
2.43.0


From 89368b5f0d36943a61fc96197ffd79193ba5ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 26/41] fix: setting file times updates the cached times

Otherwise attribute queries keep reporting the old times of a cached file.
---
 lazyfs/src/lazyfs.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index e08641a..f2320e7 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2121,6 +2121,22 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
     if (res == -1)
         return -errno;
 
+    // the cached times must follow
+
+    struct stat stats;
+    string inode = this_ ()->FSCache->get_original_inode (path);
+
+    if (lstat (path, &stats) == 0 && this_ ()->FSCache->lockItemCheckExists (inode)) {
+
+        Metadata meta;
+        meta.atim = stats.st_atim;
+        meta.ctim = stats.st_ctim;
+        meta.mtim = stats.st_mtim;
+
+        this_ ()->FSCache->update_content_metadata (inode, meta, {"atime", "ctime", "mtime"});
+        this_ ()->FSCache->unlockItem (inode);
+    }
+
     return 0;
 }
 // #endif
-- 
2.43.0


From 269061987aae5a76fb2197f6eb4f6bc04b29f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 27/41] fix: the unsynced data report starts each range at its
 own first block

After a gap the next range was reported from the last block of the previous one, and the
entry after the last block was read.
---
 lazyfs/src/lazyfs.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f2320e7..638bf1e 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -388,7 +388,9 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                             first_block_id       = block_id;
                         }
 
-                        if (block_id != (get<0> (*std::next (block_it)) - 1)) {
+                        auto next_it = std::next (block_it);
+
+                        if (next_it == std::get<2> (it).end () || block_id != (get<0> (*next_it) - 1)) {
 
                             spdlog::info (
                                 "[lazyfs.cmds]: report: [inode {}] info: (block {}) to (block "
@@ -400,8 +402,8 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                                 (offs.second + block_id * FSConfig->IO_BLOCK_SIZE) -
                                     (first_block_id * FSConfig->IO_BLOCK_SIZE));
 
-                            last_block_off_start = offs.first;
-                            last_block_index     = block_id;
+                            // the next block starts a new range
+                            last_block_index = -1;
                         }
 
                         total_bytes_unsynced +=
-- 
2.43.0


From 83e3c0b04e741833108283a5c701dd8bb1b0d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 28/41] fix: the unsynced data report leaves out the excluded
 paths, not the others

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 638bf1e..9e35bac 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -363,7 +363,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
             
             bool report = true;
             if (paths_to_exclude.size() > 0) {
-                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) != files_mapped.end();
+                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) == files_mapped.end();
             }
 
             if(report) {
-- 
2.43.0


From 77401fdfb428eb73be77fbf40026b364d06e6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 29/41] fix: a cache size without a unit is a number of bytes

The multiplier was uninitialised.
---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index b3a5eea..b9ba123 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -98,7 +98,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 size_type += curr_char;
         }
 
-        size_t size_bytes;
+        size_t size_bytes = 1; // plain bytes, without a unit
 
         std::for_each (size_type.begin (), size_type.end (), [] (char& c) { c = ::tolower (c); });
 
-- 
2.43.0


From c1b773ea1ab9423adef025ecd8fe105d1ca5c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 30/41] fix: open the backing file with the requested access
 and without O_APPEND

With O_RDWR|O_TRUNC the descriptor could not be read, and with O_APPEND the blocks that do
not fit in the cache were appended instead of written at their offset.
---
 lazyfs/src/lazyfs.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 9e35bac..9afd95b 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -836,9 +836,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     int res;
 
-    int access_tmp = fi->flags;
-    if (fi->flags & O_TRUNC)
-        access_tmp = O_WRONLY;
+    // truncation is done in the cache; offsets are always explicit
+    int access_tmp = fi->flags & ~(O_TRUNC | O_APPEND);
 
     res = open (path, access_tmp);
 
@@ -890,7 +889,7 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
 
     int res;
 
-    res = open (path, fi->flags, mode);
+    res = open (path, fi->flags & ~O_APPEND, mode);
 
     if (res == -1)
         return -errno;
-- 
2.43.0


From 415ac7dfc666a89fb5d11c71bd16f628282fd277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 31/41] fix: fsync fails when the data could not be written to
 the backing file

Errors and short writes were ignored and success was returned.
---
 libs/libpcache/src/cache.cpp                        |  2 +-
 .../src/engine/backends/custom/custom_cache.cpp     | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 17ba007..5300c7c 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -372,7 +372,7 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
 
     off_t last_size = get_content_metadata (owner)->size;
 
-    res = this->engine->sync_pages (owner, last_size, orig_path);
+    res = this->engine->sync_pages (owner, last_size, orig_path) ? -EIO : 0;
     _get_content_ptr (owner)->set_data_sync_flag (true);
 
     if (not only_sync_data) {
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index dc3f894..4616d70 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -485,13 +485,13 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
-    int fd = open (orig_path, O_WRONLY);
+    int fd      = open (orig_path, O_WRONLY);
+    bool failed = false;
 
     // std::printf ("\tengine: (fsync) %s opened descriptor %d\n", owner.c_str (), fd);
 
     if (this->owner_pages_mapping.find (owner) != this->owner_pages_mapping.end ()) {
 
-        off_t wrote_bytes = 0;
         off_t page_streak = 0;
 
         auto& iterate_blocks = this->owner_ordered_pages_mapping.at (owner);
@@ -533,6 +533,7 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 page_chunk.push_back (it->second);
 
                 struct iovec iov[page_streak];
+                off_t streak_bytes = 0;
 
                 page_streak_last_offset =
                     (current_block_id - page_streak + 1) * this->config->IO_BLOCK_SIZE;
@@ -554,11 +555,14 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                         iov[p_id].iov_len = this->config->IO_BLOCK_SIZE;
                     }
 
+                    streak_bytes += iov[p_id].iov_len;
+
                     // mark block as clean
                     std::get<3> (iterate_blocks.at (streak_block)) = true;
                 }
 
-                wrote_bytes += pwritev (fd, iov, page_streak, page_streak_last_offset);
+                if (pwritev (fd, iov, page_streak, page_streak_last_offset) != streak_bytes)
+                    failed = true;
 
                 page_streak = 0;
 
@@ -571,11 +575,12 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     if (ftruncate (fd, size) < 0) {
         spdlog::info ("ftruncate: failed");
+        failed = true;
     }
 
     close (fd);
 
-    return 0;
+    return failed;
 }
 
 bool CustomCacheEngine::rename_owner_pages (string old_owner, string new_owner) {
-- 
2.43.0


From cefa890423266b73c75363c942216bcaa3695022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 32/41] fix: fault commands longer than 100 bytes are not cut

A long path made the rest of the command a different command, or dropped its parameters.
---
 lazyfs/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 851f844..9c9ee25 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -22,7 +22,7 @@
 
 using namespace lazyfs;
 
-#define MAX_READ_CHUNK 100
+#define MAX_READ_CHUNK 8192
 
 cache::config::Config std_config;
 std::thread faults_handler_thread;
-- 
2.43.0


From 69350910a098082505e908bed6a435622ad21e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 33/41] fix: reject crash commands without operation or timing

The missing operation was looked up in the fault tables, which threw and ended the file
system; a missing timing was taken as after.
---
 lazyfs/src/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 9c9ee25..6496fb8 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -125,6 +125,16 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (crash_operation == "none") {
+                    errors.push_back ("should specify 'op'");
+                    VF = false;
+                }
+
+                if (crash_timing == "none") {
+                    errors.push_back ("should specify 'timing'");
+                    VF = false;
+                }
+
                 bool is_from_to = false;
 
                 if (filesystem->fs_op_multi_path.find (crash_operation) !=
-- 
2.43.0


From 002ed4f01115083d4f5a0fd0cd4dffd40fb29921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 34/41] fix: reject incomplete torn-op and torn-seq commands

Without file or persist a fault that does nothing was installed, with both parts and
parts_bytes one was silently ignored, and invalid commands were reported as configured.
---
 lazyfs/src/main.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 6496fb8..5f4f326 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -273,7 +273,17 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
-                if (parts=="none" && parts_bytes=="none") {
+                if (file == "none") {
+                    errors.push_back ("file not specified");
+                    valid_fault = false;
+                }
+
+                if (persist == "none") {
+                    errors.push_back ("should specify 'persist'");
+                    valid_fault = false;
+                }
+
+                if ((parts == "none") == (parts_bytes == "none")) {
                     errors.push_back ("should specify 'parts' or 'parts_bytes', not both");
                     valid_fault = false;
                 }
@@ -282,7 +292,7 @@ void fht_worker (LazyFS* filesystem) {
                 if (valid_fault) 
                     errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
 
-                if (errors_add_torn_op.size() == 0) 
+                if (valid_fault && errors_add_torn_op.size() == 0) 
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {
                     spdlog::warn ("[lazyfs.faults.worker]: received: INVALID torn-op fault:");
@@ -355,11 +365,16 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (file == "none" || persist == "none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
+
                 vector<string> errors_add_torn_seq;
                 if (valid_fault) 
                     errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
 
-                if (errors_add_torn_seq.size() == 0)
+                if (valid_fault && errors_add_torn_seq.size() == 0)
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {  
                         errors.insert(errors.end(), errors_add_torn_seq.begin(), errors_add_torn_seq.end());
-- 
2.43.0


From 576b62922785bb85af076f4dc6808b00f3dfb71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:26 +0000
Subject: [PATCH 35/41] fix: read a cached block to its end, whatever its place
 in the page

---
 libs/libpcache/src/engine/page/page.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index c57731b..9f48619 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -110,7 +110,7 @@ void Page::get_block_data (int block_id, char* buffer, int read_to_max_index) {
 
     pair<int, int> offsets = get_block_offsets (block_id);
     int off_min            = offsets.first;
-    int off_max            = read_to_max_index + 1;
+    int off_max            = off_min + read_to_max_index + 1;
 
     memcpy (buffer, this->data + off_min, off_max - off_min);
 }
-- 
2.43.0


From 0228eb3491db8defa0a3a36bcd9ca6e54e9ba981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:54 +0000
Subject: [PATCH 36/41] fix: report unsynced data of files whose known names
 are gone

After a cache clear and an unlink of the only name seen since, the inode
still has unsynced blocks (reachable through its other links) but no
known path, and the report left it out.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 9afd95b..b722000 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -368,7 +368,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
 
             if(report) {
 
-                if (std::get<2> (it).size () > 0 && files_mapped.size () > 0) {
+                if (std::get<2> (it).size () > 0) {
 
                     spdlog::info ("[lazyfs.cmds]: report: [inode {}] is not fully synced, info:", ino);
 
-- 
2.43.0


From 70e46c7aa696d337c861c69a0183b11e6c97ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:25 +0000
Subject: [PATCH 37/41] fix: use the given configuration file when its path
 contains "-o"

---
 lazyfs/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 5f4f326..ac1d91c 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -449,7 +449,7 @@ int main (int argc, char* argv[]) {
 
         if (!strcmp (argv[i], "--config-path")) {
 
-            if (strcasestr (argv[i + 1], "-o"))
+            if (i + 1 >= argc || !strncmp (argv[i + 1], "-o", 2))
 
                 path_specified = false;
 
-- 
2.43.0


From d6228dc24141bc2d2b78313ff9dd291f96a98b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:55 +0000
Subject: [PATCH 38/41] fix: drop the cached file that a renamed symbolic link
 replaces

---
 lazyfs/src/lazyfs.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b722000..32dadcf 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1672,6 +1672,15 @@ int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int
     if (rename (from, to) == -1)
         return -1;
 
+    // 'to' was a cached file and is now something else (e.g. a symbolic link)
+
+    struct stat stats;
+    string replaced = this_ ()->FSCache->get_original_inode (to);
+
+    if (not replaced.empty () &&
+        (lstat (to, &stats) == -1 || to_string (stats.st_ino) != replaced))
+        this_ ()->FSCache->remove_cached_item (replaced, to, false);
+
     // all 'from' paths should be replaced with the new prepend
 
     for (auto const& it : from_dir_filepaths)
-- 
2.43.0


From c9458d48342979d4536f1301506c5148c6180bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 39/41] fix: crash fault patterns with alternatives match
 anywhere in the path

---
 lazyfs/src/lazyfs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 32dadcf..ad52b16 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -136,7 +136,7 @@ void LazyFS::trigger_crash_fault (string opname,
             if (is_multi_path) {
 
                 string to = it.second;
-                std::regex to_rgx (".*" + to + ".*");
+                std::regex to_rgx (".*(?:" + to + ").*");
 
                 regex_match = std::regex_match (from_op_path, from_rgx);
                 if (to != "none")
@@ -228,13 +228,13 @@ void LazyFS::add_crash_fault (string crash_timing,
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
+        std::regex from_rgx (".*(?:" + crash_regex_from + ").*");
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
 
     } else {
 
         auto& crash_regex_list = crash_faults_after_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
+        std::regex from_rgx (".*(?:" + crash_regex_from + ").*");
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
     }
 }
-- 
2.43.0


From af9e2e63956fdc3e53f2b3d539875bee479cf591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:37 +0000
Subject: [PATCH 40/41] fix: do not dereference the end of the dirty blocks in
 sync_pages

---
 libs/libpcache/src/engine/backends/custom/custom_cache.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 4616d70..8b8b3a6 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -517,10 +517,10 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
         for (auto it = new_iterate_blocks.begin (); it != new_iterate_blocks.end (); it++) {
 
             auto current_block_id     = it->first;
-            auto const& next_block_id = std::next (it, 1)->first;
+            auto const next_it        = std::next (it, 1);
 
-            if ((page_streak < (__IOV_MAX - 1)) && (it != prev (new_iterate_blocks.end (), 1)) &&
-                (current_block_id == (next_block_id - 1))) {
+            if ((page_streak < (__IOV_MAX - 1)) && (next_it != new_iterate_blocks.end ()) &&
+                (current_block_id == (next_it->first - 1))) {
 
                 page_streak++;
 
-- 
2.43.0


From a546359acdef9c61e10166a56b8d76310d85808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:22 +0000
Subject: [PATCH 41/41] fix: do not follow symbolic links when renaming a
 directory

---
 lazyfs/src/lazyfs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ad52b16..0b6c8e7 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1657,7 +1657,9 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
             if (from_DIRENT->d_type == DT_REG)
                 result->push_back (base_path);
 
-            lfs_get_dir_filenames (base_path.c_str (), result);
+            // files reached through a link have other names, and a link may lead back up
+            if (from_DIRENT->d_type != DT_LNK)
+                lfs_get_dir_filenames (base_path.c_str (), result);
         }
     }
 
-- 
2.43.0

