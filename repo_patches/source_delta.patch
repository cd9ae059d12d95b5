From 2924e137d959bb2b777077d33a9fecb922c88cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:14 +0000
Subject: [PATCH 01/39] fix: lfs_read never reads or zero-fills past the end of
 the file

Requests reaching past EOF preaded stale backing bytes and zero-filled memory outside the caller's buffer when a short
cached block was followed by another block.
---
 lazyfs/src/lazyfs.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4709ff3..6347599 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1331,17 +1331,6 @@ int LazyFS::lfs_read (const char* path,
 
     // ----------------------------------------------------------------------------------
 
-    off_t blk_low        = offset / IO_BLOCK_SIZE;
-    off_t blk_high       = (offset + size - 1) / IO_BLOCK_SIZE;
-    int fd_caching       = fd;
-    off_t BUF_ITERATOR   = 0;
-    off_t BYTES_LEFT     = size;
-    off_t data_allocated = 0;
-
-    char read_buffer[IO_BLOCK_SIZE];
-
-    // ----------------------------------------------------------------------------------
-
     bool cache_had_owner = this_ ()->FSCache->has_content_cached (inode);
 
     Metadata meta;
@@ -1381,8 +1370,20 @@ int LazyFS::lfs_read (const char* path,
         // std::printf ("\tread: file has %d bytes\n", (int)meta.size);
     }
 
-    if (offset > (meta.size - 1))
-        return 0;
+    // never read past the end of the file
+
+    size = offset < meta.size ? std::min ((off_t)size, meta.size - offset) : 0;
+
+    // ---------------------------------------------------------------------------------
+
+    off_t blk_low        = offset / IO_BLOCK_SIZE;
+    off_t blk_high       = size > 0 ? (off_t)((offset + size - 1) / IO_BLOCK_SIZE) : blk_low - 1;
+    int fd_caching       = fd;
+    off_t BUF_ITERATOR   = 0;
+    off_t BYTES_LEFT     = size;
+    off_t data_allocated = 0;
+
+    char read_buffer[IO_BLOCK_SIZE];
 
     // ---------------------------------------------------------------------------------
 
@@ -1456,11 +1457,6 @@ int LazyFS::lfs_read (const char* path,
                 BUF_ITERATOR += (read_to - blk_readable_from) + 1;
                 BYTES_LEFT -= (read_to - blk_readable_from) + 1;
 
-                if (read_to < (IO_BLOCK_SIZE - 1) && CURR_BLK_IDX < blk_high) {
-
-                    memset (buf + BUF_ITERATOR + read_to, 0, IO_BLOCK_SIZE - read_to);
-                }
-
                 data_allocated += (read_to - blk_readable_from) + 1;
 
             } else {
-- 
2.43.0


From f3cffb5c9c6a18f0bdce0b03f4f87695a231d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 02/39] fix: pages holding several blocks lose or corrupt
 blocks

The owner's list of partly filled pages was popped from a copy (so full pages were handed out again), fsync cleaned a
page after collecting only its first block, and block reads/zeroing used the wrong length for blocks not at the
start of a page.
---
 .../src/engine/backends/custom/custom_cache.cpp     | 13 +++++++------
 libs/libpcache/src/engine/page/page.cpp             |  9 +++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 68ec7d9..9677c0a 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -125,7 +125,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
     if (this->owner_pages_mapping.find (owner_id) != this->owner_pages_mapping.end ()) {
 
-        auto free_pages = this->owner_free_pages_mapping.at (owner_id);
+        auto& free_pages = this->owner_free_pages_mapping.at (owner_id);
 
         if (free_pages.size () > 0) {
 
@@ -490,14 +490,15 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
         for (auto cit = iterate_blocks.begin (); cit != iterate_blocks.end (); cit++) {
             auto pptr = std::get<1> (cit->second);
-            if (pptr->is_page_dirty ()) {
+            if (pptr->is_page_dirty ())
                 new_iterate_blocks.insert ({cit->first, cit->second});
-                pptr->set_page_as_dirty (false);
-            }
         }
 
-        off_t page_streak_last_offset =
-            (new_iterate_blocks.begin ()->first) * this->config->IO_BLOCK_SIZE;
+        // a page may hold several of these blocks, so it is clean only when all were collected
+        for (auto const& dirty : new_iterate_blocks)
+            std::get<1> (dirty.second)->set_page_as_dirty (false);
+
+        off_t page_streak_last_offset = 0;
 
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
         page_chunk.reserve (new_iterate_blocks.size ());
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 076460a..02545f9 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -110,9 +110,8 @@ void Page::get_block_data (int block_id, char* buffer, int read_to_max_index) {
 
     pair<int, int> offsets = get_block_offsets (block_id);
     int off_min            = offsets.first;
-    int off_max            = read_to_max_index + 1;
 
-    memcpy (buffer, this->data + off_min, off_max - off_min);
+    memcpy (buffer, this->data + off_min, read_to_max_index + 1);
 }
 
 pair<int, int> Page::get_block_offsets (int block_id) {
@@ -197,11 +196,9 @@ void Page::write_null_from (int block_id, int from_offset) {
     //             __func__,
     //             block_id,
     //            off_first + from_offset,
-    //             (int)this->config->IO_BLOCK_SIZE - off_first - from_offset);
+    //             (int)this->config->IO_BLOCK_SIZE - from_offset);
 
-    memset (this->data + off_first + from_offset,
-            0,
-            this->config->IO_BLOCK_SIZE - off_first - from_offset);
+    memset (this->data + off_first + from_offset, 0, this->config->IO_BLOCK_SIZE - from_offset);
 }
 
 void Page::remove_block (int block_id) {
-- 
2.43.0


From bea1158c36a1358603c52a66370b6d1bdd0f644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:02 +0000
Subject: [PATCH 03/39] fix: truncate leaves the removed blocks in the cache

lfs_truncate asked the cache to truncate the item named by the path, but items are named by the inode, so nothing was
dropped: pages stayed allocated and reported as unsynced. truncate_cached_blocks itself freed a page although other
blocks of the file were still in it. The result variable of a successful truncate was never initialised.
---
 lazyfs/src/lazyfs.cpp                             |  4 ++--
 .../src/engine/backends/custom/custom_cache.cpp   | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 6347599..6ea9797 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1721,7 +1721,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
-    int res;
+    int res = 0;
 
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
@@ -1811,7 +1811,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
     } else if (truncate_size < previous_metadata->size) {
 
-        this_ ()->FSCache->truncate_item (owner, truncate_size);
+        this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 9677c0a..5c952d7 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -626,10 +626,21 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
                 page->remove_block (blk_id);
 
-                this->owner_pages_mapping.at (content_owner_id).erase (page_id);
                 this->owner_ordered_pages_mapping.at (content_owner_id).erase (blk_id);
 
-                if (not page->is_page_dirty ()) {
+                // the page now has a free slot, or none of its slots is used anymore
+
+                auto& owner_free = this->owner_free_pages_mapping.at (content_owner_id);
+                owner_free.erase (std::remove (owner_free.begin (), owner_free.end (), page_id),
+                                  owner_free.end ());
+
+                if (not page->allocated_block_ids.empty ()) {
+
+                    owner_free.push_back (page_id);
+
+                } else {
+
+                    this->owner_pages_mapping.at (content_owner_id).erase (page_id);
 
                     // add page to free pages...
                     this->free_pages.push_back (page_id);
-- 
2.43.0


From c7c3edd0fc72bd75bb77ee7fbd6ffc52fc7ba5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:29 +0000
Subject: [PATCH 04/39] fix: backing store errors are reported to the caller
 and failed syncs stay unsynced

---
 lazyfs/src/lazyfs.cpp                         | 101 +++++++++++++-----
 .../engine/backends/custom/custom_cache.hpp   |   2 +-
 .../include/cache/engine/page_cache.hpp       |   5 +-
 libs/libpcache/src/cache.cpp                  |   3 +-
 .../engine/backends/custom/custom_cache.cpp   |  45 ++++++--
 5 files changed, 116 insertions(+), 40 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 6ea9797..b5c68d0 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -851,8 +851,15 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
     }
 
-    if (fi->flags & O_TRUNC)
-        lfs_truncate (path, 0, fi);
+    if (fi->flags & O_TRUNC) {
+
+        res = lfs_truncate (path, 0, fi);
+
+        if (res < 0) {
+            close (fi->fh);
+            return res;
+        }
+    }
 
     this_ ()->trigger_crash_fault ("open", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("open", "after", path, "");
@@ -951,7 +958,7 @@ int LazyFS::lfs_write (const char* path,
     }
 
     int fd;
-    int res;
+    int res = 0;
 
     (void)fi;
     if (fi == NULL) {
@@ -966,7 +973,13 @@ int LazyFS::lfs_write (const char* path,
 
     struct stat stats;
 
-    lfs_getattr (path, &stats, fi);
+    int attr_res = lfs_getattr (path, &stats, fi);
+
+    if (attr_res < 0) {
+        if (fi == NULL)
+            close (fd);
+        return attr_res;
+    }
 
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
@@ -978,7 +991,7 @@ int LazyFS::lfs_write (const char* path,
 
         // std::printf ("\t[write] direct_io=1, flushing data...");
 
-        res = pwrite (fd, buf, size, offset);
+        res = pwrite (fd, buf, size, offset) == (ssize_t)size ? 0 : -1;
 
     } else {
 
@@ -1021,8 +1034,11 @@ int LazyFS::lfs_write (const char* path,
                 if (size_to_fill > 0) {
 
                     char* fill_zeros = (char*)calloc (size_to_fill, 1);
-                    lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
+                    int filled = lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
                     free (fill_zeros);
+
+                    if (filled < 0)
+                        return filled;
                 }
             }
         }
@@ -1036,6 +1052,7 @@ int LazyFS::lfs_write (const char* path,
         off_t data_allocated       = 0;
         off_t data_buffer_iterator = 0;
         int fd_caching             = open (path, O_RDONLY);
+        int write_errno            = errno;
 
         char block_caching_buffer[IO_BLOCK_SIZE];
         map<int, tuple<const char*, size_t, int, int>> put_mapping;
@@ -1105,7 +1122,8 @@ int LazyFS::lfs_write (const char* path,
                         // Read failed for this file,
                         // We assume that the file is not reachable
 
-                        res = -1;
+                        res         = -1;
+                        write_errno = errno;
                         break;
 
                     } else {
@@ -1170,7 +1188,8 @@ int LazyFS::lfs_write (const char* path,
                                                      CURR_BLK_IDX * IO_BLOCK_SIZE + cache_from);
 
                             if (pwrite_res != cache_wr_sz) {
-                                res = -1;
+                                res         = -1;
+                                write_errno = pwrite_res < 0 ? errno : EIO;
                                 break;
                             }
                         }
@@ -1215,7 +1234,8 @@ int LazyFS::lfs_write (const char* path,
                                              CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
 
                     if (pwrite_res != (blk_readable_to - blk_readable_from + 1)) {
-                        res = -1;
+                        res         = -1;
+                        write_errno = pwrite_res < 0 ? errno : EIO;
                         break;
                     }
                 }
@@ -1228,6 +1248,15 @@ int LazyFS::lfs_write (const char* path,
 
         // close (fd_caching);
 
+        if (res == -1) {
+
+            close (fd_caching);
+            if (fi == NULL)
+                close (fd);
+
+            return -write_errno;
+        }
+
         // ----------------------------------------------------------------------------------
 
         bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
@@ -1275,8 +1304,8 @@ int LazyFS::lfs_write (const char* path,
         fault_type = TORN_SEQ; 
     }
 
-    // res should be = actual bytes written as pwrite could fail...
-    res = size;
+    if (res != -1)
+        res = size;
 
     // std::printf ("\twrite: returning %d bytes\n", res);
 
@@ -1323,7 +1352,13 @@ int LazyFS::lfs_read (const char* path,
     std::string OWNER (path);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int attr_res = lfs_getattr (path, &stats, fi);
+
+    if (attr_res < 0) {
+        if (fi == NULL)
+            close (fd);
+        return attr_res;
+    }
 
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
@@ -1418,6 +1453,13 @@ int LazyFS::lfs_read (const char* path,
                                        last_pread_chunk_size,
                                        last_pread_chunk_offset);
 
+                if (pread_res < 0) {
+                    pread_res = -errno;
+                    if (fi == NULL)
+                        close (fd);
+                    return pread_res;
+                }
+
                 BUF_ITERATOR += pread_res;
                 BYTES_LEFT -= pread_res;
 
@@ -1514,6 +1556,13 @@ int LazyFS::lfs_read (const char* path,
         int pread_res =
             pread (fd_caching, buf + BUF_ITERATOR, last_pread_chunk_size, last_pread_chunk_offset);
 
+        if (pread_res < 0) {
+            pread_res = -errno;
+            if (fi == NULL)
+                close (fd);
+            return pread_res;
+        }
+
         BUF_ITERATOR += pread_res;
         BYTES_LEFT -= pread_res;
     }
@@ -1543,7 +1592,10 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int attr_res = lfs_getattr (path, &stats, fi);
+
+    if (attr_res < 0)
+        return attr_res;
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},isdatasync={})", __FUNCTION__, path, isdatasync);
@@ -1566,6 +1618,11 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path)
                               : fsync (fi->fh);
 
+    if (!is_owner_cached && res == -1)
+        res = -errno;
+
+    if (res < 0)
+        return res;
 
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
@@ -1715,7 +1772,10 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int attr_res = lfs_getattr (path, &stats, fi);
+
+    if (attr_res < 0)
+        return attr_res;
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
@@ -1797,18 +1857,11 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
         int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
 
-        if (r != add_bytes_total) {
-
-            int res;
-
-            if (fi != NULL)
-                res = ftruncate (fi->fh, truncate_size);
-            else
-                res = truncate (path, truncate_size);
-        }
-
         free (buf);
 
+        if (r < 0)
+            return r;
+
     } else if (truncate_size < previous_metadata->size) {
 
         this_ ()->FSCache->truncate_item (inode, truncate_size);
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 361977b..824f8d7 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -174,7 +174,7 @@ class CustomCacheEngine : public PageCacheEngine {
     void print_page_cache_engine ();
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
-    bool sync_pages (string owner, off_t size, char* orig_path);
+    int sync_pages (string owner, off_t size, char* orig_path);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index d05b700..842a500 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -136,10 +136,9 @@ class PageCacheEngine {
      * @param owner the content id
      * @param size final file size
      * @param orig_path original file name to sync data
-     * @return true the pages were synced
-     * @return false the content was not found
+     * @return 0 if the pages were synced, -errno otherwise
      */
-    virtual bool sync_pages (string owner, off_t size, char* orig_path) = 0;
+    virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
 
     /**
      * @brief Renames the content associated with an owner to the new owner
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 08d79e3..71745b5 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -373,7 +373,8 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     off_t last_size = get_content_metadata (owner)->size;
 
     res = this->engine->sync_pages (owner, last_size, orig_path);
-    _get_content_ptr (owner)->set_data_sync_flag (true);
+    if (res == 0)
+        _get_content_ptr (owner)->set_data_sync_flag (true);
 
     if (not only_sync_data) {
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 5c952d7..1a018e0 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -471,17 +471,20 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     }
 }
 
-bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
+int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
-    int fd = open (orig_path, O_WRONLY);
+    int fd  = open (orig_path, O_WRONLY);
+    int res = 0;
+
+    if (fd < 0)
+        return -errno;
 
     // std::printf ("\tengine: (fsync) %s opened descriptor %d\n", owner.c_str (), fd);
 
     if (this->owner_pages_mapping.find (owner) != this->owner_pages_mapping.end ()) {
 
-        off_t wrote_bytes = 0;
         off_t page_streak = 0;
 
         auto& iterate_blocks = this->owner_ordered_pages_mapping.at (owner);
@@ -494,10 +497,6 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 new_iterate_blocks.insert ({cit->first, cit->second});
         }
 
-        // a page may hold several of these blocks, so it is clean only when all were collected
-        for (auto const& dirty : new_iterate_blocks)
-            std::get<1> (dirty.second)->set_page_as_dirty (false);
-
         off_t page_streak_last_offset = 0;
 
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
@@ -547,7 +546,16 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                     std::get<3> (iterate_blocks.at (streak_block)) = true;
                 }
 
-                wrote_bytes += pwritev (fd, iov, page_streak, page_streak_last_offset);
+                ssize_t wrote_bytes = pwritev (fd, iov, page_streak, page_streak_last_offset);
+                ssize_t chunk_bytes = 0;
+
+                for (int p_id = 0; p_id < page_streak; p_id++)
+                    chunk_bytes += iov[p_id].iov_len;
+
+                if (wrote_bytes != chunk_bytes) {
+                    res = wrote_bytes < 0 ? -errno : -EIO;
+                    break;
+                }
 
                 page_streak = 0;
 
@@ -556,15 +564,30 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 page_streak_last_offset = (current_block_id + 1) * this->config->IO_BLOCK_SIZE;
             }
         }
-    }
 
-    if (ftruncate (fd, size) < 0) {
+        if (res == 0 && ftruncate (fd, size) < 0) {
+            spdlog::info ("ftruncate: failed");
+            res = -errno;
+        }
+
+        // a page may hold several of these blocks, and they stay unsynced if the sync failed
+
+        for (auto const& dirty : new_iterate_blocks) {
+
+            if (res == 0)
+                std::get<1> (dirty.second)->set_page_as_dirty (false);
+            else
+                std::get<3> (iterate_blocks.at (dirty.first)) = std::get<3> (dirty.second);
+        }
+
+    } else if (ftruncate (fd, size) < 0) {
         spdlog::info ("ftruncate: failed");
+        res = -errno;
     }
 
     close (fd);
 
-    return 0;
+    return res;
 }
 
 bool CustomCacheEngine::rename_owner_pages (string old_owner, string new_owner) {
-- 
2.43.0


From 5b86ccc9ca3ef7be71b56c51ae572d9a734dffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:29 +0000
Subject: [PATCH 05/39] fix: handles opened with O_TRUNC cannot read and
 O_APPEND misplaces writes that bypass the cache

---
 lazyfs/src/lazyfs.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b5c68d0..1209f8e 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -818,9 +818,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     int res;
 
-    int access_tmp = fi->flags;
-    if (fi->flags & O_TRUNC)
-        access_tmp = O_WRONLY;
+    // the truncation is done in the cache, and writes have explicit offsets
+    int access_tmp = fi->flags & ~(O_TRUNC | O_APPEND);
 
     res = open (path, access_tmp);
 
@@ -876,7 +875,7 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
 
     int res;
 
-    res = open (path, fi->flags, mode);
+    res = open (path, fi->flags & ~O_APPEND, mode);
 
     if (res == -1)
         return -errno;
-- 
2.43.0


From 76725d2f1006b6c8990cd368e7ece2c79ae6b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:05 +0000
Subject: [PATCH 06/39] fix: faults fire at the wrong occurrence, at internal
 steps, or deadlock

---
 lazyfs/src/lazyfs.cpp | 49 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 1209f8e..b8a293f 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -42,6 +42,14 @@ std::shared_mutex cache_command_lock;
 
 namespace lazyfs {
 
+// Operations LazyFS runs as a step of another one are not seen by the faults.
+static thread_local int internal_steps = 0;
+
+struct InternalStep {
+    InternalStep () { internal_steps++; }
+    ~InternalStep () { internal_steps--; }
+};
+
 /* Write class */
 Write::Write() {
     this->path = this->buf = NULL;
@@ -100,6 +108,9 @@ void LazyFS::trigger_crash_fault (string opname,
                                   string to_op_path,
                                   string fault_type) {
 
+    if (internal_steps > 0)
+        return;
+
     vector<pair<std::regex, string>> opfaults;
     const int length = from_op_path.length();
  /*
@@ -172,6 +183,9 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                                   string from_path,
                                   string to_path) {
 
+    if (internal_steps > 0)
+        return;
+
     auto it = faults->find(from_path);
 
     if (it != faults->end()) {
@@ -188,7 +202,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                     
                     int current_count = clear_fault->counter.load();
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1);
+                        current_count = clear_fault->counter.fetch_add(1) + 1;
                     }
             
                     if (clear_fault->timing == optiming) {
@@ -495,6 +509,9 @@ faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
 }
 
 bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t offset) {
+    if (internal_steps > 0)
+        return false;
+
     string path_str(path);
     int pw,fd;
     bool res = false;
@@ -568,6 +585,9 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
 
 
 bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t offset) {
+    if (internal_steps > 0)
+        return false;
+
     string path_s(path);
     int fd;
     bool res = false;
@@ -852,6 +872,7 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     if (fi->flags & O_TRUNC) {
 
+        InternalStep step;
         res = lfs_truncate (path, 0, fi);
 
         if (res < 0) {
@@ -860,6 +881,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         }
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("open", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("open", "after", path, "");
 
@@ -935,6 +958,8 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
         this_ ()->FSCache->unlockItem (inode);
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("create", "after", path, "");
 
@@ -1033,6 +1058,7 @@ int LazyFS::lfs_write (const char* path,
                 if (size_to_fill > 0) {
 
                     char* fill_zeros = (char*)calloc (size_to_fill, 1);
+                    InternalStep step;
                     int filled = lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
                     free (fill_zeros);
 
@@ -1316,6 +1342,8 @@ int LazyFS::lfs_write (const char* path,
 
     
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
     this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
 
@@ -1576,6 +1604,8 @@ int LazyFS::lfs_read (const char* path,
     if (fi == NULL)
         close (fd);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
@@ -1623,6 +1653,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     if (res < 0)
         return res;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
     
@@ -1755,6 +1787,8 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
 
@@ -1854,6 +1888,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         char* buf = (char*)malloc (add_bytes_total);
         memset (buf, 0, add_bytes_total);
 
+        InternalStep step;
         int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
 
         free (buf);
@@ -1898,6 +1933,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
@@ -1921,6 +1958,8 @@ int LazyFS::lfs_symlink (const char* from, const char* to) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("symlink", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("symlink", "after", from, to);
     return 0;
@@ -1943,6 +1982,8 @@ int LazyFS::lfs_access (const char* path, int mask) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("access", "after", path, "");
 
@@ -1988,6 +2029,8 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
 
@@ -2205,8 +2248,10 @@ int LazyFS::lfs_unlink (const char* path) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
+    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
     return 0;
 }
-- 
2.43.0


From 0da620881d954c6e71a6c9a70bd3892df4c3c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:32 +0000
Subject: [PATCH 07/39] fix: crash faults on two-path operations ignore
 from_rgx, and alternations match too much

---
 lazyfs/src/lazyfs.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b8a293f..8868cec 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -148,10 +148,9 @@ void LazyFS::trigger_crash_fault (string opname,
             if (is_multi_path) {
 
                 string to = it.second;
-                std::regex to_rgx (".*" + to + ".*");
+                std::regex to_rgx (".*(?:" + to + ").*");
 
-                if (std::regex_match ("none", from_rgx))
-                    regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_match (from_op_path, from_rgx);
                 if (to != "none")
                     regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
 
@@ -240,13 +239,13 @@ void LazyFS::add_crash_fault (string crash_timing,
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
+        std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*(?:" + crash_regex_from + ").*");
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
 
     } else {
 
         auto& crash_regex_list = crash_faults_after_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
+        std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*(?:" + crash_regex_from + ").*");
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
     }
 }
-- 
2.43.0


From 3b9dd829d46a9f22bac079d5cdbd2bf95ba62632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:38 +0000
Subject: [PATCH 08/39] fix: torn-seq mixes files, needs ordered writes and
 ignores invalid values

---
 lazyfs/include/lazyfs/lazyfs.hpp     |  4 +--
 lazyfs/src/lazyfs.cpp                | 37 +++++++++++++++++-----------
 libs/libpcache/src/config/config.cpp |  2 +-
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 5fcff7c..3733374 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -113,9 +113,9 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     std::unordered_map<string, unordered_set<string>> crash_faults;
 
     /**
-     * @brief Write that was put on hold and may or may not be persisted.
+     * @brief Writes that were put on hold and may or may not be persisted, by file path.
      */
-    Write *pending_write;
+    std::unordered_map<string, Write*> pending_writes;
 
     /**
      * @brief Lock for pending write.
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8868cec..9d290d6 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -87,7 +87,6 @@ LazyFS::LazyFS (Cache* cache,
     this->faults_handler_thread = faults_handler_thread;
     this->fht_worker            = fht_worker;
     this->faults                = faults;
-    this->pending_write         = NULL;
 
     for (auto const& it : this->allow_crash_fs_operations) {
         this->crash_faults_before_map.insert ({it, {}});
@@ -250,6 +249,10 @@ void LazyFS::add_crash_fault (string crash_timing,
     }
 }
 
+static string exact_path_regex (string path) {
+    return "^" + std::regex_replace (path, std::regex ("[.^$|()\\[\\]{}*+?\\\\]"), "\\$&") + "$";
+}
+
 vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
@@ -324,6 +327,9 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
         ++iter;
     }
 
+    //Sorting the persist vector is necessary for injecting this fault
+    sort(persistv.begin(), persistv.end());
+
     faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
     vector<string> errors = fault->validate();
 
@@ -478,9 +484,10 @@ void LazyFS::restart_counter(string path, string op) {
 bool LazyFS::check_and_delete_pendingwrite(const char* path) {
     bool res = false;
     (this->write_lock).lock();
-    if (this->pending_write && (res = (strcmp(this->pending_write->path,path) == 0))) {
-        delete(this->pending_write); 
-        this->pending_write = NULL;
+    auto it = this->pending_writes.find(path);
+    if ((res = (it != this->pending_writes.end()))) {
+        delete(it->second);
+        this->pending_writes.erase(it);
     }
     (this->write_lock).unlock();
 
@@ -527,17 +534,19 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
             fault->group_counter.fetch_add(1);
         }
 
-        if (this->pending_write!=NULL) {
+        auto pending_it = this->pending_writes.find(path_str);
+        if (pending_it != this->pending_writes.end()) {
+            Write* pending_write = pending_it->second;
             //Update group counter
             if (fault->group_counter.load() == fault->occurrence) {
-                fd = open (this->pending_write->path, O_CREAT|O_WRONLY, 0666);
-                pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,this->pending_write->offset);
+                fd = open (pending_write->path, O_CREAT|O_WRONLY, 0666);
+                pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);
                 spdlog::warn ("[lazyfs.faults]: Going to persist the write 1 for the path {}",path_str);
                 close(fd);
 
-                if (pw==this->pending_write->size) {
-                    if ((fault->persist).size()==1) {
-                        this_ ()->add_crash_fault ("after", "write", path_str, "none");            
+                if (pw==pending_write->size) {
+                    if ((fault->persist).back()==1) {
+                        this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
                         return res;
@@ -546,14 +555,14 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     spdlog::warn ("[lazyfs.faults]: Something went wrong when trying to persist the 1st write for path {} (pwrite failed).", path);
                 }
             }
-            delete(this->pending_write); this->pending_write = NULL;
+            delete(pending_write); this->pending_writes.erase(pending_it);
         }
         (this->write_lock).unlock();
         
         if (find((fault->persist).begin(), (fault->persist).end(), fault->counter.load()) != (fault->persist).end()) {  //If count is in vector persist
             if (fault->counter==1) { //If array persist has 1st write, we need to store this write until we know another write will happen
                 (this->write_lock).lock();
-                this->pending_write = new Write(path,buf,size,offset);
+                this->pending_writes[path_str] = new Write(path,buf,size,offset);
                 (this->write_lock).unlock();
                 
             } else {
@@ -568,7 +577,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     if (pw == size) {
                         int max = fault->persist.back();
                         if (max == fault->counter) {
-                            this_ ()->add_crash_fault ("after", "write", path_str, "none"); 
+                            this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_str), "none"); 
                             spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                             res= true;
                         }
@@ -667,7 +676,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                         } 
                     }
 
-                    this_ ()->add_crash_fault ("after", "write", path_s, "none");            
+                    this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_s), "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
                 }
diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index 6466e59..b3a5eea 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -202,7 +202,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 vector<string> errors;
                 if (valid_fault) {
                     fault = new faults::ReorderF(op,persist,occurrence);
-                    vector<string> errors = fault->validate();
+                    errors = fault->validate();
                 }
 
                 if (!valid_fault || errors.size() > 0) {
-- 
2.43.0


From e53a484b5649bc143579beb81dc382d9535026b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:48 +0000
Subject: [PATCH 09/39] fix: torn-op adds the remainder to a part that is not
 the last one

---
 lazyfs/src/lazyfs.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 9d290d6..36f7f7a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -615,16 +615,16 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
 
                 if (split_fault->counter.load() == split_fault->occurrence) {
                     fd = open(path, O_CREAT|O_WRONLY, 0666);
-                    vector<tuple<int,int,int>> persist_info; 
+                    vector<tuple<size_t,size_t,off_t>> persist_info; 
                     persist_info.reserve((split_fault->persist).size());
 
                     size_t size_to_persist;
                     off_t off_to_persist;
-                    int buf_i;
+                    size_t buf_i;
 
                     if (split_fault->parts == -1) {
                         for (auto & p : split_fault->persist) { //not equal parts
-                            int sum = 0;
+                            size_t sum = 0;
                             int sum_until_persist = 0;
                             buf_i = 0;
                         
@@ -636,13 +636,14 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
 
                             if (sum!=size) {
                                 spdlog::warn ("[lazyfs.faults]: Could not inject fault of split write for file {} because sum of parts is different than the size of write!",path_s);
+                                close(fd);
                                 return res;
                             } else {
                                 size_to_persist = split_fault->parts_bytes[p - 1];
                                 off_to_persist = offset + buf_i;
                             }
 
-                            tuple <int,int,int> info_part (buf_i,size_to_persist,off_to_persist);
+                            tuple <size_t,size_t,off_t> info_part (buf_i,size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                         }
                         
@@ -657,24 +658,26 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                             size_t final_size_to_persist = size_to_persist;
 
                             off_to_persist = offset + (p - 1) * size_to_persist;
-                            if (extra_size_to_persist>0 && p_i == split_fault->persist.size()-1) {
+                            if (extra_size_to_persist>0 && p == split_fault->parts) {
                                 spdlog::info("[lazyfs.warning]: The value of 'parts' specified for the split write fault does not evenly divide the size of the write to split. We recommend changing this value, since to the last part will be added the extra bytes.");
                                 final_size_to_persist += extra_size_to_persist;
                             }
                             
-                            tuple <int,int,int> info_part (buf_i,final_size_to_persist,off_to_persist);
+                            tuple <size_t,size_t,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                          }
                     }
 
                     for (auto & persist : persist_info) {
-                        int pw = pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));
+                        ssize_t pw = pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));
                         if (pw==get<1>(persist)) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,get<1>(persist),get<2>(persist));      
                         else {
                             spdlog::warn("[lazyfs.faults]: There was a problem spliting the {} write for the file {} (pwrite failed).",split_fault->occurrence,path);
+                            close(fd);
                             return res;
                         } 
                     }
+                    close(fd);
 
                     this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_s), "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
-- 
2.43.0


From f8f6af04e0ae19f25bd653bf1618b19f81e1faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:48 +0000
Subject: [PATCH 10/39] fix: the documented injection type "clear" is ignored

---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index b3a5eea..fd0d1e0 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -325,7 +325,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                     }
                 }
 
-            } else if (type == CLEAR) {
+            } else if (type == CLEAR || type == "clear") {
                 valid_fault = true;
                 error_msg = "The following errors were found in the configuration file for a fault of type \"clear-cache\": \n";
 
-- 
2.43.0


From 5c3531c06c279968ef101f5e5668947e6cd0f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:04 +0000
Subject: [PATCH 11/39] fix: fifo commands that are long, batched or malformed
 are lost or stop LazyFS

---
 lazyfs/include/lazyfs/lazyfs.hpp |   6 +-
 lazyfs/src/lazyfs.cpp            |   8 +--
 lazyfs/src/main.cpp              | 104 +++++++++++++++++++++++++++----
 3 files changed, 98 insertions(+), 20 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 3733374..968038b 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -381,9 +381,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param path path of the fault
      * @param op system call 
      * @param persist which parts of the write to persist
+     * @param occurrence which write or group of writes is affected
      * @return errors
     */
-    vector<string> add_torn_seq_fault(string path, string op, string persist);
+    vector<string> add_torn_seq_fault(string path, string op, string persist, int occurrence);
 
     /**
      * @brief Adds a torn-op fault to the faults map. Returns a vector with errors if any.
@@ -392,9 +393,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param parts which parts of the write to persist
      * @param parts_bytes division of the write in bytes
      * @param persist which parts of the write to persist
+     * @param occurrence which write or group of writes is affected
      * @return errors
     */
-    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist);
+    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist, int occurrence);
 
     /**
      * @brief Kills lazyfs with SIGKILL if any fault condition verifies
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 36f7f7a..545d5f4 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -253,7 +253,7 @@ static string exact_path_regex (string path) {
     return "^" + std::regex_replace (path, std::regex ("[.^$|()\\[\\]{}*+?\\\\]"), "\\$&") + "$";
 }
 
-vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist) {
+vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist, int occurrence) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -280,8 +280,6 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
         partsi = stoi(parts);
     }
 
-    int occurrence=1;
-
     faults::SplitWriteF* fault;
     vector<string> errors;
 
@@ -316,7 +314,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     return errors;
 }
 
-vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist) {
+vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist, int occurrence) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -330,7 +328,7 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
     //Sorting the persist vector is necessary for injecting this fault
     sort(persistv.begin(), persistv.end());
 
-    faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
+    faults::ReorderF* fault = new faults::ReorderF(op, persistv, occurrence);
     vector<string> errors = fault->validate();
 
     bool valid_fault = true;
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 851f844..81c908a 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -28,6 +28,36 @@ cache::config::Config std_config;
 std::thread faults_handler_thread;
 LazyFS fs;
 
+// Reads the next command, which ends with a new line, from the fifo
+static bool read_command (int fd_fifo, std::string& pending, std::string& command) {
+
+    size_t eol;
+
+    while ((eol = pending.find ('\n')) == std::string::npos) {
+
+        char chunk[MAX_READ_CHUNK];
+        ssize_t ret = read (fd_fifo, chunk, MAX_READ_CHUNK);
+
+        if (ret <= 0)
+            return false;
+
+        pending.append (chunk, ret);
+    }
+
+    command = pending.substr (0, eol);
+    pending.erase (0, eol + 1);
+
+    return true;
+}
+
+static bool is_valid_regex (const std::string& expression) {
+
+    try {
+        std::regex rgx (".*(?:" + expression + ").*");
+        return true;
+    } catch (const std::regex_error&) { return false; }
+}
+
 void fht_worker (LazyFS* filesystem) {
     int fd_fifo, fd_fifo_completed;
     std::shared_mutex fifo_lock;
@@ -54,14 +84,13 @@ void fht_worker (LazyFS* filesystem) {
 
     spdlog::info ("[lazyfs.faults.worker]: waiting for fault commands...");
 
-    char buffer[MAX_READ_CHUNK];
+    std::string pending_commands, command_str;
     int ret;
     while (true) {
-        if ((ret = read (fd_fifo, &buffer, MAX_READ_CHUNK)) > 0) {
+        if (read_command (fd_fifo, pending_commands, command_str)) {
 
-            buffer[ret - 1] = '\0';
+            const char* buffer = command_str.c_str ();
 
-            std::string command_str = string (buffer);
             if (command_str.rfind ("lazyfs::crash", 0) == 0) {
 
                 std::regex rgx_global ("::");
@@ -116,15 +145,30 @@ void fht_worker (LazyFS* filesystem) {
                         if (tmp_from_rgx.length () != 0)
                             crash_from_rgx = tmp_from_rgx;
 
+                        if (!is_valid_regex (tmp_from_rgx)) {
+                            errors.push_back ("'from_rgx' is not a valid regex");
+                            VF = false;
+                        }
+
                     } else if (current.rfind ("to_rgx=", 0) == 0) {
 
                         string tmp_to_rgx = current.erase (0, current.find ("=") + 1);
 
                         if (tmp_to_rgx.length () != 0)
                             crash_to_rgx = tmp_to_rgx;
+
+                        if (!is_valid_regex (tmp_to_rgx)) {
+                            errors.push_back ("'to_rgx' is not a valid regex");
+                            VF = false;
+                        }
                     }
                 }
 
+                if (crash_operation == "none" || crash_timing == "none") {
+                    errors.push_back ("should specify 'op' and 'timing'");
+                    VF = false;
+                }
+
                 bool is_from_to = false;
 
                 if (filesystem->fs_op_multi_path.find (crash_operation) !=
@@ -201,6 +245,7 @@ void fht_worker (LazyFS* filesystem) {
                 string parts = "none";
                 string parts_bytes = "none";
                 string persist = "none";
+                int occurrence = 1;
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -225,7 +270,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts=", 0) == 0) {
 
                         string tmp_parts = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"(\d+)");
+                        std::regex pattern(R"(\d{1,9})");
 
                         if (!std::regex_match(tmp_parts, pattern)) {
                             errors.push_back ("parts should be a number");
@@ -237,7 +282,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts_bytes=", 0) == 0) {
                         
                         string tmp_parts_bytes = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
+                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
                         if (!std::regex_match(tmp_parts_bytes, pattern)) {
                             errors.push_back ("parts_bytes should be a list of numbers separated by commas");
@@ -249,7 +294,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_persist = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
+                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
                         if (!std::regex_match(tmp_persist, pattern)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
@@ -257,22 +302,38 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_persist;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d{1,9})");
+
+                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else 
+                            occurrence = stoi (tmp_occurrence);
+                        
                     } else if (current != "lazyfs" && current != "torn-op") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
                     }
                 }
 
-                if (parts=="none" && parts_bytes=="none") {
+                if (file=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
+
+                if ((parts=="none") == (parts_bytes=="none")) {
                     errors.push_back ("should specify 'parts' or 'parts_bytes', not both");
                     valid_fault = false;
                 }
                 
                 vector<string> errors_add_torn_op;
                 if (valid_fault) 
-                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
+                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist, occurrence);
 
-                if (errors_add_torn_op.size() == 0) 
+                if (valid_fault && errors_add_torn_op.size() == 0) 
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {
                     spdlog::warn ("[lazyfs.faults.worker]: received: INVALID torn-op fault:");
@@ -299,6 +360,7 @@ void fht_worker (LazyFS* filesystem) {
                 string file = "none";
                 string op = "none";
                 string persist = "none";
+                int occurrence = 1;
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -331,7 +393,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_per = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
+                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
                         if (!std::regex_match(tmp_per, pattern)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
@@ -339,17 +401,33 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_per;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d{1,9})");
+
+                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else 
+                            occurrence = stoi (tmp_occurrence);
+                        
                     } else if (current != "lazyfs" && current != "torn-seq") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
                     }
                 }
 
+                if (file=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
+
                 vector<string> errors_add_torn_seq;
                 if (valid_fault) 
-                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
+                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist, occurrence);
 
-                if (errors_add_torn_seq.size() == 0)
+                if (valid_fault && errors_add_torn_seq.size() == 0)
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {  
                         errors.insert(errors.end(), errors_add_torn_seq.begin(), errors_add_torn_seq.end());
-- 
2.43.0


From 8870fb677537cbc44edec1be61f69a3c41e6c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:40 +0000
Subject: [PATCH 12/39] fix: utimens is invisible for cached files and fsync
 sets the times of a wrong path

---
 lazyfs/src/lazyfs.cpp        | 25 +++++++++++++++++++++++++
 libs/libpcache/src/cache.cpp |  9 ++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 545d5f4..85fa1a7 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2198,6 +2198,31 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
     if (res == -1)
         return -errno;
 
+    // cached times override the ones of the underlying file
+
+    string inode = this_ ()->FSCache->get_original_inode (path);
+    struct stat stbuf;
+
+    if (!inode.empty () && lstat (path, &stbuf) == 0 &&
+        this_ ()->FSCache->lockItemCheckExists (inode)) {
+
+        Metadata meta;
+        meta.atim = stbuf.st_atim;
+        meta.mtim = stbuf.st_mtim;
+        meta.ctim = stbuf.st_ctim;
+
+        vector<string> values_to_change = {"ctime"};
+
+        if (ts == NULL || ts[0].tv_nsec != UTIME_OMIT)
+            values_to_change.push_back ("atime");
+
+        if (ts == NULL || ts[1].tv_nsec != UTIME_OMIT)
+            values_to_change.push_back ("mtime");
+
+        this_ ()->FSCache->update_content_metadata (inode, meta, values_to_change);
+        this_ ()->FSCache->unlockItem (inode);
+    }
+
     return 0;
 }
 // #endif
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 71745b5..dd1eb69 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -12,10 +12,12 @@
 #include <cache/constants/constants.hpp>
 #include <cache/item/item.hpp>
 #include <chrono>
+#include <fcntl.h>
 #include <list>
 #include <map>
 #include <mutex>
 #include <spdlog/spdlog.h>
+#include <sys/stat.h>
 #include <sys/syscall.h>
 #include <sys/time.h>
 #include <sys/xattr.h>
@@ -382,12 +384,9 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
 
         Metadata* meta = _get_content_ptr (owner)->get_metadata ();
 
-        struct timeval times[2];
-        TIMESPEC_TO_TIMEVAL (&times[0], &(meta->atim));
-        TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));
+        struct timespec times[2] = {meta->atim, meta->mtim};
 
-        const char* path = owner.c_str ();
-        utimes (path, times);
+        utimensat (AT_FDCWD, orig_path, times, AT_SYMLINK_NOFOLLOW);
     }
 
     unlockItem (owner);
-- 
2.43.0


From 7164101c48c8975862a5ee671a838bae9e8095cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:06 +0000
Subject: [PATCH 13/39] fix: eviction discards dirty pages instead of writing
 them back

---
 libs/libpcache/include/cache/cache.hpp        |  7 +++++
 .../engine/backends/custom/custom_cache.hpp   |  7 +++++
 .../include/cache/engine/page/page.hpp        |  2 +-
 .../include/cache/engine/page_cache.hpp       |  8 ++++++
 libs/libpcache/src/cache.cpp                  | 17 ++++++++++++
 .../engine/backends/custom/custom_cache.cpp   | 27 +++++++++++++++----
 libs/libpcache/src/engine/page/page.cpp       | 19 +++++++++----
 7 files changed, 76 insertions(+), 11 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 68dce2d..2bba5c2 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -104,6 +104,13 @@ class Cache {
      */
     ~Cache ();
 
+    /**
+     * @brief Tells the engine a path that is currently mapped to the inode
+     *
+     * @param inode the content id
+     */
+    void _refresh_owner_path (string inode);
+
     /**
      * @brief Creates an empty item with the specified id.
      *
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 824f8d7..3249b0b 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -91,6 +91,12 @@ class CustomCacheEngine : public PageCacheEngine {
      */
     unordered_map<string, vector<int>> owner_free_pages_mapping;
 
+    /**
+     * @brief Maps owners to a path of their underlying file
+     *
+     */
+    unordered_map<string, string> owner_paths;
+
     /**
      * @brief Controls concurrency inside the LRU queue
      *
@@ -175,6 +181,7 @@ class CustomCacheEngine : public PageCacheEngine {
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
     int sync_pages (string owner, off_t size, char* orig_path);
+    void set_owner_path (string owner, string path);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page/page.hpp b/libs/libpcache/include/cache/engine/page/page.hpp
index b087606..93113dc 100644
--- a/libs/libpcache/include/cache/engine/page/page.hpp
+++ b/libs/libpcache/include/cache/engine/page/page.hpp
@@ -179,7 +179,7 @@ class Page {
      * @return true page was synced.
      * @return false error ocurred
      */
-    bool sync_data ();
+    bool sync_data (string path);
 
     /**
      * @brief Checks if a page has the diry flag on.
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index 842a500..c5d80c2 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -140,6 +140,14 @@ class PageCacheEngine {
      */
     virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
 
+    /**
+     * @brief Tells the engine under which path the content of an owner can be written back.
+     *
+     * @param owner the content id
+     * @param path a path of the underlying file, or empty if none is known
+     */
+    virtual void set_owner_path (string owner, string path) = 0;
+
     /**
      * @brief Renames the content associated with an owner to the new owner
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index dd1eb69..ad44bab 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -80,10 +80,23 @@ string Cache::get_original_inode (string path) {
     return "";
 }
 
+void Cache::_refresh_owner_path (string inode) {
+
+    string path = "";
+
+    for (auto const& it : this->file_inode_mapping) {
+        if (it.second == inode)
+            path = it.first;
+    }
+
+    this->engine->set_owner_path (inode, path);
+}
+
 void Cache::insert_inode_mapping (string path, string inode, bool increase) {
 
     lock_guard<std::shared_mutex> lock (lock_cache_mtx);
     this->file_inode_mapping[path] = inode;
+    this->engine->set_owner_path (inode, path);
 
     if (increase) {
         Metadata* oldmeta = get_content_metadata (inode);
@@ -411,6 +424,7 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
         this->file_inode_mapping.erase (old_cid);
         this->file_inode_mapping[new_cid] = inode;
+        this->engine->set_owner_path (inode, new_cid);
 
         if (has_content_cached (to_remove_inode)) {
 
@@ -428,6 +442,7 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
                 if (before_nlinks > 1) {
 
+                    _refresh_owner_path (to_remove_inode);
                     unlockItem (to_remove_inode);
                     return return_val;
                 }
@@ -473,12 +488,14 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     if (!is_from_cache && before_nlinks > 1) {
 
+        _refresh_owner_path (owner);
         unlockItem (owner);
         lock.unlock ();
         return false;
     }
 
     this->engine->remove_cached_blocks (owner);
+    this->engine->set_owner_path (owner, "");
     this->_delete_item (owner);
 
     unlockItem (owner);
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 1a018e0..89d6cf6 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -159,6 +159,12 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         string old_owner = page_to_reset->get_page_owner ();
 
+        // a page whose data cannot be written back must stay
+
+        if (page_to_reset->is_page_dirty () &&
+            not page_to_reset->sync_data (this->owner_paths[old_owner]))
+            return make_pair (-1, nullptr);
+
         auto blocks = page_to_reset->allocated_block_ids.get_block_readable_offsets ();
 
         if (this->owner_ordered_pages_mapping.find (old_owner) !=
@@ -170,11 +176,11 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         if (this->owner_pages_mapping.find (old_owner) != this->owner_pages_mapping.end ()) {
             this->owner_pages_mapping.at (old_owner).erase (replace_page_id);
-            // todo: if in free pages remove from there
-        }
 
-        if (page_to_reset->is_page_dirty ())
-            page_to_reset->sync_data ();
+            auto& owner_free = this->owner_free_pages_mapping.at (old_owner);
+            owner_free.erase (std::remove (owner_free.begin (), owner_free.end (), replace_page_id),
+                              owner_free.end ());
+        }
 
         // cout << "[engine] _get_next_free_page: Resetting page '" <<
         // replace_page_id << "'...\n";
@@ -182,6 +188,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
         // this->owner_ordered_pages_mapping.at (owner);
 
         page_to_reset->reset ();
+        page_to_reset->change_owner ("none");
 
         return make_pair (replace_page_id, page_to_reset);
     }
@@ -590,6 +597,16 @@ int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
     return res;
 }
 
+void CustomCacheEngine::set_owner_path (string owner, string path) {
+
+    std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
+
+    if (path.empty ())
+        this->owner_paths.erase (owner);
+    else
+        this->owner_paths[owner] = path;
+}
+
 bool CustomCacheEngine::rename_owner_pages (string old_owner, string new_owner) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
@@ -633,7 +650,7 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
         Page* page = _get_page_ptr (page_id);
 
-        if (page->is_page_owner (content_owner_id)) {
+        if (page->is_page_owner (content_owner_id) && page->contains_block (blk_id)) {
 
             // std::printf ("%s: %s is page %d owner\n", __func__, content_owner_id.c_str (),
             // page_id);
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 02545f9..f14f0e5 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -16,6 +16,7 @@
 #include <iterator>
 #include <map>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <utility>
 
@@ -151,11 +152,19 @@ bool Page::is_page_dirty () { return this->is_dirty; }
 
 void Page::set_page_as_dirty (bool dirty) { this->is_dirty = dirty; }
 
-bool Page::sync_data () {
+bool Page::sync_data (string path) {
 
-    char const* path;
-    path   = this->page_owner_id.c_str ();
-    int fd = open (path, O_WRONLY);
+    int fd = open (path.c_str (), O_WRONLY);
+
+    // the path must still name the file that owns this page
+
+    struct stat stbuf;
+
+    if (fd < 0 || fstat (fd, &stbuf) < 0 || to_string (stbuf.st_ino) != this->page_owner_id) {
+        if (fd >= 0)
+            close (fd);
+        return false;
+    }
 
     int should_write = 0, actually_wrote = 0;
 
@@ -164,7 +173,7 @@ bool Page::sync_data () {
     for (auto it = block_rdble_offs.begin (); it != block_rdble_offs.end (); ++it) {
         if (contains_block (it->first)) {
             pair<int, int> data_offsets = get_block_offsets (it->first);
-            int offset                  = it->first * this->config->IO_BLOCK_SIZE;
+            off_t offset                = (off_t)it->first * this->config->IO_BLOCK_SIZE;
             int total_bytes             = this->config->IO_BLOCK_SIZE;
             if (it == prev (block_rdble_offs.end (), 1))
                 total_bytes = it->second + 1;
-- 
2.43.0


From 757716310837b7c9f67bc4a43827d8c17f268d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:45 +0000
Subject: [PATCH 14/39] fix: rename and unlink drop cached data before they
 succeed and confuse links of one file

Both dropped or moved the cached data before calling the backing file
system, so a failing rename/unlink lost unsynced data, a renaming between
two links of one file discarded it, and an inode number reused by another
file in between could inherit it. The path mapping of an uncached file was
also kept after its removal.
---
 lazyfs/src/lazyfs.cpp        | 85 ++++++++++++++++++------------------
 libs/libpcache/src/cache.cpp |  4 +-
 2 files changed, 45 insertions(+), 44 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 85fa1a7..8e321c1 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1709,7 +1709,9 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
             if (from_DIRENT->d_type == DT_REG)
                 result->push_back (base_path);
 
-            lfs_get_dir_filenames (base_path.c_str (), result);
+            // symbolic links are not part of the renamed tree
+            if (from_DIRENT->d_type == DT_DIR)
+                lfs_get_dir_filenames (base_path.c_str (), result);
         }
     }
 
@@ -1721,40 +1723,14 @@ int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int
     std::vector<string> from_dir_filepaths;
     lfs_get_dir_filenames (from, &from_dir_filepaths);
 
-    // Check if destination folder exists
-
-    struct stat to_stat;
-    if (!stat (to, &to_stat) && S_ISDIR (to_stat.st_mode)) {
-
-        // destination folder exists and is a directory
-        // prepend with new prepend and merge
-
-        int is_empty = lfs_is_dir_empty (to);
-
-        if (is_empty == 1) {
-
-            goto replace_prepend;
-
-        } else if (is_empty == 0) {
-
-            errno = ENOTEMPTY;
-
-            return -1;
-        }
-
-    } else {
-
-    replace_prepend:
+    if (rename (from, to) == -1)
+        return -1;
 
-        // destination folder doesn't exist
-        // all 'from' paths should be replaced with the new prepend
+    // all 'from' paths should be replaced with the new prepend
 
-        for (auto const& it : from_dir_filepaths) {
+    for (auto const& it : from_dir_filepaths) {
 
-            this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())))
-                ? 0
-                : -1;
-        }
+        this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())));
     }
 
     return 0;
@@ -1780,21 +1756,41 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     string inode = this_ ()->FSCache->get_original_inode (last_owner);
     string new_owner (to);
 
+    // keeps the inode number of a replaced file in use until its cached data is gone
+    int replaced_fd = open (to, O_PATH | O_NOFOLLOW);
+
+    struct stat from_stat, to_stat;
+    bool is_same_file = lstat (from, &from_stat) == 0 && lstat (to, &to_stat) == 0 &&
+                        from_stat.st_dev == to_stat.st_dev && from_stat.st_ino == to_stat.st_ino;
+
     if (inode.empty ()) {
 
-        // from: is a dir, because getattr does not cache dirs
+        // from: is a dir or a symbolic link, because getattr only caches regular files
 
-        lfs_recursive_rename (from, to, flags);
-        res = rename (from, to);
+        res = lfs_recursive_rename (from, to, flags);
+
+        string replaced_inode = this_ ()->FSCache->get_original_inode (new_owner);
+
+        if (res == 0 && !is_same_file && !replaced_inode.empty ())
+            this_ ()->FSCache->remove_cached_item (replaced_inode, to, false);
 
     } else {
 
-        res = this_ ()->FSCache->rename_item (last_owner, new_owner) ? 0 : -1;
         res = rename (from, to);
+
+        // renaming a file to another link of itself does nothing
+
+        if (res == 0 && !is_same_file)
+            this_ ()->FSCache->rename_item (last_owner, new_owner);
     }
 
+    int rename_errno = errno;
+
+    if (replaced_fd >= 0)
+        close (replaced_fd);
+
     if (res == -1)
-        return -errno;
+        return -rename_errno;
 
     lock.unlock ();
 
@@ -2269,18 +2265,23 @@ int LazyFS::lfs_unlink (const char* path) {
 
     int res;
 
+    // keeps the inode number in use until the cached data is gone
+    int removed_fd = open (path, O_PATH | O_NOFOLLOW);
+
     string inode = this_ ()->FSCache->get_original_inode (path);
-    if (!inode.empty ())
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
 
     res = unlink (path);
 
-    if (res == 0 && inode.empty ()) {
+    int unlink_errno = errno;
+
+    if (res == 0)
         this_ ()->FSCache->remove_cached_item (inode, path, false);
-    }
+
+    if (removed_fd >= 0)
+        close (removed_fd);
 
     if (res == -1)
-        return -errno;
+        return -unlink_errno;
 
     lock.unlock ();
 
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index ad44bab..4d326f1 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -468,6 +468,8 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
     lock.lock ();
 
+    this->file_inode_mapping.erase (string (path));
+
     if (not has_content_cached (owner)) {
 
         lock.unlock ();
@@ -476,8 +478,6 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     lockItem (owner);
 
-    this->file_inode_mapping.erase (string (path));
-
     Item* item = _get_content_ptr (owner);
 
     nlink_t before_nlinks = item->get_metadata ()->nlinks;
-- 
2.43.0


From 797aa7d9155f7134297585feed981c2865ab7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:41 +0000
Subject: [PATCH 15/39] fix: the unsynced data report reads past the last
 block, joins ranges over gaps and inverts its exclusions

A write into the last block of a file that was truncated in the cache also
cached the stale bytes beyond the end of the file, which the report then
counted.
---
 lazyfs/src/lazyfs.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8e321c1..8bcb43d 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -375,7 +375,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
             
             bool report = true;
             if (paths_to_exclude.size() > 0) {
-                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) != files_mapped.end();
+                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) == files_mapped.end();
             }
 
             if(report) {
@@ -400,7 +400,10 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                             first_block_id       = block_id;
                         }
 
-                        if (block_id != (get<0> (*std::next (block_it)) - 1)) {
+                        auto next_block_it = std::next (block_it);
+
+                        if (next_block_it == std::get<2> (it).end () ||
+                            block_id != (get<0> (*next_block_it) - 1)) {
 
                             spdlog::info (
                                 "[lazyfs.cmds]: report: [inode {}] info: (block {}) to (block "
@@ -412,8 +415,8 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                                 (offs.second + block_id * FSConfig->IO_BLOCK_SIZE) -
                                     (first_block_id * FSConfig->IO_BLOCK_SIZE));
 
-                            last_block_off_start = offs.first;
-                            last_block_index     = block_id;
+                            // the next block starts a new range
+                            last_block_index = -1;
                         }
 
                         total_bytes_unsynced +=
@@ -1149,6 +1152,11 @@ int LazyFS::lfs_write (const char* path,
                                            block_caching_buffer,
                                            IO_BLOCK_SIZE,
                                            CURR_BLK_IDX * IO_BLOCK_SIZE);
+
+                        // bytes past the (cached) end of the file are not part of it
+
+                        if (pread_res > FILE_SIZE_BEFORE - CURR_BLK_IDX * IO_BLOCK_SIZE)
+                            pread_res = FILE_SIZE_BEFORE - CURR_BLK_IDX * IO_BLOCK_SIZE;
                     }
 
                     if (pread_res < 0) {
-- 
2.43.0


From 863cf6d972d35a48d6f82a4316b51cb9c37d2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:27 +0000
Subject: [PATCH 16/39] fix: a config path containing "-o" is ignored

Only an option that follows --config-path means that no path was given; a
path such as /tmp/lazyfs-test-o1/config.toml was taken for one and LazyFS
looked for config/default.toml instead. A trailing --config-path was a null
pointer dereference.
---
 lazyfs/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 81c908a..bd79e4d 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -502,7 +502,7 @@ int main (int argc, char* argv[]) {
 
         if (!strcmp (argv[i], "--config-path")) {
 
-            if (strcasestr (argv[i + 1], "-o"))
+            if (i + 1 >= argc || !strncmp (argv[i + 1], "-o", 2))
 
                 path_specified = false;
 
-- 
2.43.0


From d4746a74adca296f136d0d131eb8b6f365db597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:44 +0000
Subject: [PATCH 17/39] fix: crash faults accept expressions that are not valid
 on their own

---
 lazyfs/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index bd79e4d..927a395 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -53,7 +53,7 @@ static bool read_command (int fd_fifo, std::string& pending, std::string& comman
 static bool is_valid_regex (const std::string& expression) {
 
     try {
-        std::regex rgx (".*(?:" + expression + ").*");
+        std::regex rgx (expression);
         return true;
     } catch (const std::regex_error&) { return false; }
 }
-- 
2.43.0


From dacb2c82744c7ff588afca165015269339f25a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:16 +0000
Subject: [PATCH 18/39] fix: an injection without type, or with a value of a
 wrong type, stops LazyFS at start-up

---
 libs/libpcache/src/config/config.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index fd0d1e0..e149771 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -155,7 +155,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
         const auto& programmed_injections = toml::find<toml::array>(data,"injection");
 	
         //Parse each injection
-        for (const auto& injection : programmed_injections) {
+        for (const auto& injection : programmed_injections) try {
             if (!injection.contains("type")) throw std::runtime_error("Key 'type' for some injection of is not defined in the configuration file.");
             string type = toml::find<string>(injection,"type");
 
@@ -403,6 +403,9 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
             } else {
                 spdlog::error("Key 'type' for some injection has an unknown value in the configuration file.");
             }
+        } catch (const std::exception& e) {
+            // a missing type or a value of a wrong type: only this injection is ignored
+            spdlog::error ("{}", e.what ());
         }
 	
     }
-- 
2.43.0


From bef0deafbd707439bfe7768fb5801990c6c1fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:16 +0000
Subject: [PATCH 19/39] fix: command line arguments after the tenth are dropped

---
 lazyfs/src/main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 927a395..6c2ede1 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -491,14 +491,14 @@ int main (int argc, char* argv[]) {
 
     // Parse command line args
 
-    enum { MAX_ARGS = 10 };
     int i, new_argc;
-    char* new_argv[MAX_ARGS];
+    std::vector<char*> new_args (argc + 1, nullptr);
+    char** new_argv = new_args.data ();
 
     string config_path;
     bool path_specified = false;
 
-    for (i = 0, new_argc = 0; (i < argc) && (new_argc < MAX_ARGS); i++)
+    for (i = 0, new_argc = 0; i < argc; i++)
 
         if (!strcmp (argv[i], "--config-path")) {
 
-- 
2.43.0


From fd12942846b42673b0d02882e98c7d9725837752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:23 +0000
Subject: [PATCH 20/39] fix: logparse --files fails, and takes the paths for
 expressions

---
 logparse/parse.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 37273d9..63c3e1a 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -254,11 +254,7 @@ def main():
     if args.page_size:
         big = int(args.page_size[0])
     if args.files:
-        files_arr = args.paths
-        files = ''
-        for file in files_arr[:-1]:
-            files += file+'|'
-        files += files_arr[-1]
+        files = '|'.join(re.escape(file) for file in args.files)
     if args.out:
         out = args.out
         if re.search(r'[./\[\]()?,;:´`*+~^«»<>!|"@€$%\\]',out):
-- 
2.43.0


From 1be288f85fde233842cf1a12d08da20161aa8619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:23 +0000
Subject: [PATCH 21/39] fix: logparse ignores --group_limit

---
 logparse/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 63c3e1a..a09d307 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -218,7 +218,7 @@ def output_filter():
 
 
 def main():
-    global log_file, covered_syscalls, files, text, filter_only, out, big_write, big
+    global log_file, covered_syscalls, files, text, filter_only, out, big_write, big, group_limit
 
     parser = argparse.ArgumentParser()
 
-- 
2.43.0


From 8a18dc48a8d67304a5e227534146128fac6414d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:23 +0000
Subject: [PATCH 22/39] fix: logparse loses truncates, links and paths with
 commas, and fails on two faults

---
 logparse/parse.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index a09d307..8d3c2e5 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -33,10 +33,7 @@ big_write = False
 
 #Two operations are the same if they have the same syscall and path
 def compare_ops(op1,op2): 
-    if op1['syscall'] == 'rename':
-        return (op2['syscall'] == 'rename' and op1['from_'] == op2['from_'] and op1['to'] == op2['to'])
-    else:
-        return op1['syscall'] == op2['syscall'] and op1['path'] == op2['path'] 
+    return all(op1.get(key) == op2.get(key) for key in ('syscall','path','from_','to'))
 
 def add_to_writes(op):
     global big
@@ -55,7 +52,7 @@ def parse_ops():
     with open(log_file) as f:
         lines = f.readlines()
 
-    path = r'([^,]*)'
+    path = r'(.*?)'
     from_ = r'(.*?)'
     to = r'(.*?)'
     if len(files)!=0:
@@ -64,15 +61,15 @@ def parse_ops():
         to = '(' + files + ')'
     for line in lines:  
         #.*\[lazyfs.ops\]:\s*lfs_((rename|write|open)\((path=([^,]*)|from=(.*?),to=(.*?)\)))(,size=(\d+),off=(\d+))?(,mode=([A-Z_\-]+))?\)
-        if op:=re.match(r'.*\[lazyfs.ops\]:\s*lfs_((' + covered_syscalls + r')\((path=' + path + r'|from='+ from_ + r',to=' + to + r'))(,size=(\d+),off=(\d+))?(,mode=([A-Z_\-]+))?(,isdatasync=[01])?\)',line):
+        if op:=re.match(r'.*\[lazyfs.ops\]:\s*lfs_((' + covered_syscalls + r')\((path=' + path + r'|from='+ from_ + r',to=' + to + r'))((?:,size=(\d+))?(?:, ?off=(\d+))?)(,mode=([A-Z_\-]+))?(,isdatasync=[01])?\)\s*$',line):
             op_parsed = {'syscall':op.group(2)}
-            if op.group(2)!='rename':
+            if op.group(4) is not None:
                 op_parsed['path'] = op.group(4)
 
             if op.group(2) == 'write' or op.group(2) == 'read':
                 op_parsed['size'] = op.group(8)
                 op_parsed['off'] = op.group(9)
-            elif op.group(2) == 'rename':
+            elif op.group(4) is None:               #rename, link and symlink have two paths
                 op_parsed['from_'] = op.group(5)
                 op_parsed['to'] = op.group(6)
             elif op.group(2) == 'open' or op.group(2) == 'create':
@@ -177,13 +174,13 @@ def make_graph():
             label = ''
             if op[0]['syscall'] == 'group':
                 for syscall in op[0]['group']:
-                    if syscall['syscall'] == 'rename':
+                    if 'from_' in syscall:
                         label += syscall['syscall'] + ' from=' +  syscall['from_'] + ' to=' +  syscall['to'] + '\n'
                     else:
                         label += syscall['syscall'] + ' path=' +  syscall['path'] + '\n'
             else:
                 syscall = op[0]
-                if syscall['syscall'] == 'rename':
+                if 'from_' in syscall:
                     label = syscall['syscall'] + ' from=' +  syscall['from_'] + ' to=' +  syscall['to']
                 else:
                     label = op[0]['syscall'] + ' path=' + op[0]['path']
-- 
2.43.0


From 19c473e2eb10589a10755d18147bb449daa546c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:18 +0000
Subject: [PATCH 23/39] fix: grouping in logparse loses and invents operations

---
 logparse/parse.py | 112 +++++++++++-----------------------------------
 1 file changed, 27 insertions(+), 85 deletions(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 8d3c2e5..18735bb 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -8,16 +8,9 @@
 import pydot
 import re
 import argparse
-import sys
-
-sys.setrecursionlimit(10**6)
 
 ops = []
 ops_grouped = [] 
-buffer = []
-ops_i = 0
-buffer_i = 0
-i = 0
 group_limit = 4
 
 writes = {}
@@ -83,84 +76,33 @@ def parse_ops():
         elif op:=re.match(r'.*?(Triggered fault condition).*?\n',line):
             ops.append({'syscall': 'fault'})
 
-def group_ops(ops):
-    global ops_i, buffer_i, i, group_limit, ops_grouped, buffer
-
-    while ops_i < len(ops) and len(buffer) < group_limit:
-            op = ops[ops_i]
-            if len(buffer) == 0:                    #If there's no pattern, we'll start one
-                buffer.append([op,1])
-                buffer_i = ops_i
-            else:                                   #If there's a pattern being constructed
-                if compare_ops(buffer[i][0],op):    #If the operation is the same as the one in the beggining of the pattern  
-                    buffer[i][1]+=1                 #Increment the occurrence of that operation   
-                    i+=1                            #Update i. Now, when we add an operation we will compare it with the operation in the i+1 position of the buffer 
-                    
-                    if i==len(buffer):              #If we found the whole pattern, i is set to 0, because the pattern can be repeated more times
-                        i = 0
-                else:
-                    if i==0 and buffer[0][1]==1:    #If the operation is not the same as the one in the beggining of the pattern, but we are still forming a pattern, we add this operation to the buffer
-                        buffer.append([op,1])
-                    else:                           #If i>0, it means that we were already on the process of repeating a pattern and now it was broken
-                        buffer_to_ops_grouped()
-                        
-            ops_i+=1
-                
-    if len(buffer) > 0:                             #If there's operations in the buffer, we will copy them to ops_grouped 
-        if buffer[0][1] > 2 or (buffer[0][1] == 2 and len(buffer) == 1): #If the pattern in the buffer was repeated (1st op has reps>2) or if the 1st op has 2 reps and is the only one in the buffer (case where the same op is repeated)
-            group = {'syscall':'group','group':[]}
-            for elem in buffer:
-                if 'off' in elem[0]:
-                    del elem[0]["off"]
-                    del elem[0]["size"]
-                if 'mode' in elem[0]:
-                    del elem[0]['mode']
-                group['group'].append(elem[0])
-                buffer_i += elem[1]
-            ops_grouped.append((group,buffer[0][1]))
-        else:
-            ops_grouped.append((buffer[0][0],1))
-    
-    buffer.clear()
-    if buffer_i < len(ops)-1:
-        ops_i = 0
-        i = 0
-        group_ops(ops[buffer_i+1:])                 #We'll try to build a pattern, but now starting in another operation    
-
-def buffer_to_ops_grouped():
-    global ops_i, buffer_i, i, group_limit, ops_grouped, buffer
-    count_reps = buffer[0][1]                       #Check in what repetion we were (reps of the 1st op)
-    right_count = buffer[len(buffer)-1][1]          #Check how many repetions of the pattern were actually done (reps of the last op)
-    group1 = {'syscall':'group','group':[]}
-    if count_reps==right_count or (count_reps==2 and compare_ops(buffer[0][0],buffer[1][0])): #If the 1st and last ops of the buffer have the same number of reps, we can copy those ops in ops_grouped and clean completely the buffer
-        for elem in buffer:
-            if 'off' in elem[0]:
-                del elem[0]["off"]
-                del elem[0]["size"]
-            if 'mode' in elem[0]:
-                del elem[0]['mode']
-            group1['group'].append(elem[0])
-        ops_grouped.append((group1,right_count))    
-        ops_i-=1                                    #We want to keep "pointing" to the current op
-    elif count_reps==2:                             #For ops=='abcabd' we want the result ((a,1),(b,1),(c,1),(a,1),(b,1),(d,1)), no group of ops was formed
-        ops_grouped.append((buffer[0][0],1))
-        
-        for o in buffer:
-            ops_i -= o[1]
-        #ops_i-=len(buffer)+1
-    elif count_reps>2:                              #Example: "ababac"
-        for elem in buffer:
-            if 'off' in elem[0]:
-                del elem[0]["off"]
-                del elem[0]["size"]
-            if 'mode' in elem[0]:
-                del elem[0]['mode']
-            group1['group'].append(elem[0])
-        ops_grouped.append((group1,right_count)) 
-        ops_i-=len(buffer)      # a4b4c3 -> abcabcabcabd
-
-    buffer.clear()
+#Counts how many times the pattern formed by the length ops starting at start is done sequentially
+def count_reps(start,length):
+    reps = 1
+    pos = start + length
+    while pos + length <= len(ops) and all(compare_ops(ops[start+k],ops[pos+k]) for k in range(length)):
+        reps += 1
+        pos += length
+    return reps
+
+#Copies the ops to ops_grouped, replacing the repeated patterns (of at most group_limit ops) by groups. Expanding the groups results in the original ops
+def group_ops():
     i = 0
+    while i < len(ops):
+        size, reps = 1, 1
+        for length in range(1,group_limit+1):       #The pattern that covers more ops is chosen
+            if any(op['syscall']=='fault' for op in ops[i:i+length]):
+                break                               #Faults are never grouped
+            count = count_reps(i,length)
+            if count > 1 and count*length > size*reps:
+                size, reps = length, count
+        if reps > 1:
+            #The ops of a group may have different sizes, offsets and modes
+            group = [{key:value for key,value in op.items() if key not in ('size','off','mode')} for op in ops[i:i+size]]
+            ops_grouped.append(({'syscall':'group','group':group},reps))
+        else:
+            ops_grouped.append((ops[i],1))
+        i += size*reps
 
 def make_graph():
     global ops, ops_grouped
@@ -262,7 +204,7 @@ def main():
     if filter_only:
         output_filter()
     else: 
-        group_ops(ops)
+        group_ops()
         if text:
             ouput_text()
         else:
-- 
2.43.0


From f61564a8eecdd5bcdf13791b9c249b3b558552f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 24/39] fix: the operation log shows zero fills and truncations
 that LazyFS did not receive

---
 lazyfs/src/lazyfs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8bcb43d..bc4d517 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -989,7 +989,7 @@ int LazyFS::lfs_write (const char* path,
 
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
-    if (this_ ()->FSConfig->log_all_operations) {
+    if (this_ ()->FSConfig->log_all_operations && internal_steps == 0) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
     }
 
@@ -1823,7 +1823,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (attr_res < 0)
         return attr_res;
 
-    if (this_ ()->FSConfig->log_all_operations) {
+    if (this_ ()->FSConfig->log_all_operations && internal_steps == 0) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
-- 
2.43.0


From aade25d6ad92119f61fe27b928fc0ee64fec52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:06 +0000
Subject: [PATCH 25/39] fix: a lookup of a file overwrites the attributes that
 a concurrent operation has just cached

---
 lazyfs/src/lazyfs.cpp                  | 26 ++++++++------------------
 libs/libpcache/include/cache/cache.hpp | 10 ++++++++++
 libs/libpcache/src/cache.cpp           | 12 ++++++++++++
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index bc4d517..45c1b57 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -742,27 +742,17 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
 
     if (!locked) {
 
-        this_ ()->FSCache->put_data_blocks (inode, {}, OP_PASSTHROUGH);
-
-        bool locked_now = this_ ()->FSCache->lockItemCheckExists (inode);
-
-        if (locked_now) {
-
-            Metadata meta;
+        Metadata meta;
 
-            meta.size   = stbuf->st_size;
-            meta.atim   = stbuf->st_atim;
-            meta.ctim   = stbuf->st_ctim;
-            meta.mtim   = stbuf->st_mtim;
-            meta.nlinks = stbuf->st_nlink;
+        meta.size   = stbuf->st_size;
+        meta.atim   = stbuf->st_atim;
+        meta.ctim   = stbuf->st_ctim;
+        meta.mtim   = stbuf->st_mtim;
+        meta.nlinks = stbuf->st_nlink;
 
-            this_ ()->FSCache->update_content_metadata (
-                inode,
-                meta,
-                {"size", "atime", "ctime", "mtime", "nlinks"});
+        // a concurrent operation may have cached (and changed) the file since the lstat
 
-            this_ ()->FSCache->unlockItem (inode);
-        }
+        this_ ()->FSCache->insert_item (inode, meta);
 
     } else if (locked) {
 
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 2bba5c2..8a0439e 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -223,6 +223,16 @@ class Cache {
      */
     bool lockItemCheckExists (string cid);
 
+    /**
+     * @brief Creates an Item with some metadata, unless it already exists
+     *
+     * @param cid the content id
+     * @param meta the metadata of the new item
+     * @return true the item was created
+     * @return false the item exists and was not changed
+     */
+    bool insert_item (string cid, Metadata meta);
+
     /**
      * @brief Get the cache usage in pages
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 4d326f1..bb087ac 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -571,6 +571,18 @@ bool Cache::lockItemCheckExists (string cid) {
     } catch (...) { return false; }
 }
 
+bool Cache::insert_item (string cid, Metadata meta) {
+
+    std::lock_guard<shared_mutex> lock (lock_cache_mtx);
+
+    if (has_content_cached (cid))
+        return false;
+
+    _create_item (cid)->update_metadata (meta, {"size", "atime", "ctime", "mtime", "nlinks"});
+
+    return true;
+}
+
 void Cache::full_checkpoint () {
 
     for (auto const& it : this->file_inode_mapping)
-- 
2.43.0


From 6e84c5cea0ab21721277e92434ef848e2f229165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:39 +0000
Subject: [PATCH 26/39] fix: reads and syncs see a part of a concurrent write
 or truncation of the file, or older data

---
 lazyfs/src/lazyfs.cpp | 57 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 45c1b57..4a3d371 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -50,6 +50,51 @@ struct InternalStep {
     ~InternalStep () { internal_steps--; }
 };
 
+// Operations on the data of a file wait for each other (reads only for the others), also when they
+// come through different links of it, so that none sees or changes a part of what another one does.
+static std::shared_mutex file_data_mtx[64];
+static thread_local bool file_data_held = false;
+
+class FileDataLock {
+
+    std::shared_mutex* mtx = nullptr;
+    bool is_shared;
+
+  public:
+    FileDataLock (ino_t inode, bool shared) : is_shared (shared) {
+
+        // a step of an operation that holds it
+        if (file_data_held)
+            return;
+
+        mtx = &file_data_mtx[inode % 64];
+
+        if (is_shared)
+            mtx->lock_shared ();
+        else
+            mtx->lock ();
+
+        file_data_held = true;
+    }
+
+    ~FileDataLock () { unlock (); }
+
+    void unlock () {
+
+        if (mtx == nullptr)
+            return;
+
+        file_data_held = false;
+
+        if (is_shared)
+            mtx->unlock_shared ();
+        else
+            mtx->unlock ();
+
+        mtx = nullptr;
+    }
+};
+
 /* Write class */
 Write::Write() {
     this->path = this->buf = NULL;
@@ -1007,6 +1052,8 @@ int LazyFS::lfs_write (const char* path,
         return attr_res;
     }
 
+    FileDataLock data_lock (stats.st_ino, false);
+
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
     int IO_BLOCK_SIZE = this_ ()->FSConfig->IO_BLOCK_SIZE;
@@ -1349,6 +1396,7 @@ int LazyFS::lfs_write (const char* path,
 
     
 
+    data_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
@@ -1394,6 +1442,8 @@ int LazyFS::lfs_read (const char* path,
         return attr_res;
     }
 
+    FileDataLock data_lock (stats.st_ino, true);
+
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
     int IO_BLOCK_SIZE = this_ ()->FSConfig->IO_BLOCK_SIZE;
@@ -1611,6 +1661,7 @@ int LazyFS::lfs_read (const char* path,
     if (fi == NULL)
         close (fd);
 
+    data_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
@@ -1633,6 +1684,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     if (attr_res < 0)
         return attr_res;
 
+    FileDataLock data_lock (stats.st_ino, false);
+
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},isdatasync={})", __FUNCTION__, path, isdatasync);
     }
@@ -1660,6 +1713,7 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     if (res < 0)
         return res;
 
+    data_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
@@ -1813,6 +1867,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (attr_res < 0)
         return attr_res;
 
+    FileDataLock data_lock (stats.st_ino, false);
+
     if (this_ ()->FSConfig->log_all_operations && internal_steps == 0) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
@@ -1936,6 +1992,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res == -1)
         return -errno;
 
+    data_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
-- 
2.43.0


From 50fa17bbc061af5f20f321a29c4ae65e407f28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:16 +0000
Subject: [PATCH 27/39] fix: the tables of cached files are read while a
 concurrent operation changes them

---
 libs/libpcache/include/cache/cache.hpp        | 22 ++++++++
 libs/libpcache/src/cache.cpp                  | 53 +++++++++++--------
 .../engine/backends/custom/custom_cache.cpp   |  2 +
 3 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 8a0439e..1a5b41c 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -65,6 +65,13 @@ class Cache {
      *
      */
     unordered_map<string, std::shared_mutex*> item_locks;
+
+    /**
+     * @brief protects the structure of 'contents' and 'item_locks'; nothing else is locked while
+     * it is held. Both only change under 'lock_cache_mtx', and are also searched without that one.
+     *
+     */
+    std::mutex items_mtx;
     /**
      * @brief Cache engine abstraction object
      *
@@ -119,6 +126,21 @@ class Cache {
      */
     Item* _create_item (string cid);
 
+    /**
+     * @brief Gets the lock of an Item
+     *
+     * @param cid the content id
+     * @return std::shared_mutex*
+     */
+    std::shared_mutex* _get_item_lock (string cid);
+
+    /**
+     * @brief Forgets the lock of a removed Item
+     *
+     * @param cid the content id
+     */
+    void _delete_item_lock (string cid);
+
     /**
      * @brief Deletes an existing content
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index bb087ac..8472a44 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -110,17 +110,16 @@ void Cache::insert_inode_mapping (string path, string inode, bool increase) {
 
 bool Cache::has_content_cached (string cid) {
 
-    if (not this->contents.empty ())
-        return this->contents.find (cid) != this->contents.end ();
-    return false;
+    return _get_content_ptr (cid) != nullptr;
 }
 
 Item* Cache::_get_content_ptr (string cid) {
 
-    if (has_content_cached (cid))
-        return this->contents.at (cid);
+    lock_guard<mutex> lock (items_mtx);
+
+    auto it = this->contents.find (cid);
 
-    return nullptr;
+    return it != this->contents.end () ? it->second : nullptr;
 }
 
 bool Cache::is_block_cached (string cid, int blk_id) {
@@ -129,9 +128,11 @@ bool Cache::is_block_cached (string cid, int blk_id) {
 
     bool is_cached = false;
 
-    if (has_content_cached (cid)) {
+    Item* item = _get_content_ptr (cid);
+
+    if (item != nullptr) {
 
-        int page  = this->contents.at (cid)->get_data ()->get_page_id (blk_id);
+        int page  = item->get_data ()->get_page_id (blk_id);
         is_cached = this->engine->is_block_cached (cid, page, blk_id);
     }
 
@@ -167,15 +168,31 @@ Item* Cache::_create_item (string cid) {
 
     Item* cid_item = new Item ();
 
+    lock_guard<mutex> lock (items_mtx);
+
     this->item_locks.insert (make_pair (cid, new std::shared_mutex ()));
     this->contents.insert (make_pair (cid, cid_item));
 
     return cid_item;
 }
 
-void Cache::lockItem (string cid) { item_locks[cid]->lock (); }
+std::shared_mutex* Cache::_get_item_lock (string cid) {
+
+    lock_guard<mutex> lock (items_mtx);
+
+    return this->item_locks.at (cid);
+}
+
+void Cache::_delete_item_lock (string cid) {
+
+    lock_guard<mutex> lock (items_mtx);
+
+    this->item_locks.erase (cid);
+}
+
+void Cache::lockItem (string cid) { _get_item_lock (cid)->lock (); }
 
-void Cache::unlockItem (string cid) { item_locks[cid]->unlock (); }
+void Cache::unlockItem (string cid) { _get_item_lock (cid)->unlock (); }
 
 pair<int, int> Cache::_get_readable_offsets (string cid, Item* item, int blk_id) {
 
@@ -317,6 +334,8 @@ bool Cache::_delete_item (string cid) {
     if (item != nullptr) {
         delete item;
 
+        lock_guard<mutex> lock (items_mtx);
+
         this->contents.erase (cid);
     }
 
@@ -452,10 +471,7 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
                 unlockItem (to_remove_inode);
 
-                if (!this->item_locks.empty () &&
-                    (this->item_locks.find (to_remove_inode) != this->item_locks.end ())) {
-                    this->item_locks.erase (to_remove_inode);
-                }
+                _delete_item_lock (to_remove_inode);
             }
         }
     }
@@ -500,9 +516,7 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     unlockItem (owner);
 
-    if (!this->item_locks.empty () && (this->item_locks.find (owner) != this->item_locks.end ())) {
-        this->item_locks.erase (owner);
-    }
+    _delete_item_lock (owner);
 
     lock.unlock ();
 
@@ -544,10 +558,7 @@ void Cache::clear_all_cache () {
 
             unlockItem (it);
 
-            if (!this->item_locks.empty () &&
-                (this->item_locks.find (it) != this->item_locks.end ())) {
-                this->item_locks.erase (it);
-            }
+            _delete_item_lock (it);
         }
 
         lock.unlock ();
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 89d6cf6..2837d45 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -237,6 +237,8 @@ void CustomCacheEngine::_apply_lru_after_page_visitation_on_READ (int visited_pa
 
 bool CustomCacheEngine::is_block_cached (string content_owner_id, int page_id, int block_id) {
 
+    std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);
+
     Page* p = _get_page_ptr (page_id);
 
     if (p == nullptr)
-- 
2.43.0


From 9f70844cd30c07342d6d1b53855e6710a405bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:37 +0000
Subject: [PATCH 28/39] fix: looking a name up while it changes leaves stale
 cached attributes, or drops cached data

---
 lazyfs/src/lazyfs.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4a3d371..8ae91c9 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -50,6 +50,10 @@ struct InternalStep {
     ~InternalStep () { internal_steps--; }
 };
 
+// A name is not looked up while it changes: what was seen of the file that it named before would be
+// cached for good, and possibly for another file that has the same inode number by then.
+static std::shared_mutex names_mtx;
+
 // Operations on the data of a file wait for each other (reads only for the others), also when they
 // come through different links of it, so that none sees or changes a part of what another one does.
 static std::shared_mutex file_data_mtx[64];
@@ -767,6 +771,8 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
 
     string content_owner (path);
 
+    std::shared_lock<std::shared_mutex> names_lock (names_mtx);
+
     res = lstat (path, stbuf);
 
     if (res == -1)
@@ -1804,6 +1810,8 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (flags)
         return -EINVAL;
 
+    std::unique_lock<std::shared_mutex> names_lock (names_mtx);
+
     string last_owner (from);
     string inode = this_ ()->FSCache->get_original_inode (last_owner);
     string new_owner (to);
@@ -1844,6 +1852,7 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (res == -1)
         return -rename_errno;
 
+    names_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
@@ -2080,6 +2089,8 @@ int LazyFS::lfs_link (const char* from, const char* to) {
 
     int res;
 
+    std::unique_lock<std::shared_mutex> names_lock (names_mtx);
+
     res = link (from, to);
 
     if (res == -1)
@@ -2089,6 +2100,7 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
+    names_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
@@ -2320,6 +2332,8 @@ int LazyFS::lfs_unlink (const char* path) {
 
     int res;
 
+    std::unique_lock<std::shared_mutex> names_lock (names_mtx);
+
     // keeps the inode number in use until the cached data is gone
     int removed_fd = open (path, O_PATH | O_NOFOLLOW);
 
@@ -2338,6 +2352,7 @@ int LazyFS::lfs_unlink (const char* path) {
     if (res == -1)
         return -unlink_errno;
 
+    names_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-- 
2.43.0


From ee2d670e051bf128393cef5b424010dc91c732c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 29/39] fix: a block evicted while an operation uses it loses
 the operation's data or is skipped by it

---
 lazyfs/src/lazyfs.cpp        | 55 ++++++++++++++++++------------------
 libs/libpcache/src/cache.cpp |  8 ++----
 2 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8ae91c9..261ca2a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -54,6 +54,10 @@ struct InternalStep {
 // cached for good, and possibly for another file that has the same inode number by then.
 static std::shared_mutex names_mtx;
 
+// A write finds out whether a block is cached, and updates or adds it, without another one evicting
+// pages in between.
+static std::mutex eviction_mtx;
+
 // Operations on the data of a file wait for each other (reads only for the others), also when they
 // come through different links of it, so that none sees or changes a part of what another one does.
 static std::shared_mutex file_data_mtx[64];
@@ -1167,6 +1171,13 @@ int LazyFS::lfs_write (const char* path,
 
             // data_allocated += blk_readable_to - blk_readable_from + 1;
 
+            // no other write may evict the block (or its page, once allocated) before it is updated
+
+            std::unique_lock<std::mutex> eviction_lock (eviction_mtx, std::defer_lock);
+
+            if (this_ ()->FSConfig->APPLY_LRU_EVICTION)
+                eviction_lock.lock ();
+
             bool is_block_cached = this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX);
 
             if (is_block_cached == false) {
@@ -1534,7 +1545,13 @@ int LazyFS::lfs_read (const char* path,
         else if (CURR_BLK_IDX == blk_high)
             blk_readable_to = size - data_allocated - 1;
 
-        if (this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX)) {
+        // the block may be evicted at any moment, so what counts is whether its data was obtained
+
+        auto GET_BLOCKS_RES =
+            this_ ()->FSCache->get_data_blocks (inode, {{CURR_BLK_IDX, read_buffer}});
+
+        if ((GET_BLOCKS_RES.find (CURR_BLK_IDX) != GET_BLOCKS_RES.end ()) and
+            GET_BLOCKS_RES.at (CURR_BLK_IDX).first) {
 
             if (last_pread_chunk_size > 0) {
 
@@ -1570,41 +1587,23 @@ int LazyFS::lfs_read (const char* path,
                 > Block is cached, so buffer was filled with the requested data:
             */
 
-            auto GET_BLOCKS_RES =
-                this_ ()->FSCache->get_data_blocks (inode, {{CURR_BLK_IDX, read_buffer}});
-
-            if ((GET_BLOCKS_RES.find (CURR_BLK_IDX) != GET_BLOCKS_RES.end ()) and
-                GET_BLOCKS_RES.at (CURR_BLK_IDX).first) {
+            pair<int, int> readable_offsets = GET_BLOCKS_RES.at (CURR_BLK_IDX).second;
 
-                pair<int, int> readable_offsets = GET_BLOCKS_RES.at (CURR_BLK_IDX).second;
+            off_t max_readable_offset = readable_offsets.second;
 
-                off_t max_readable_offset = readable_offsets.second;
+            off_t read_to = std::min (max_readable_offset, blk_readable_to);
 
-                off_t read_to = std::min (max_readable_offset, blk_readable_to);
+            memcpy (buf + BUF_ITERATOR,
+                    read_buffer + blk_readable_from,
+                    (read_to - blk_readable_from) + 1);
 
-                memcpy (buf + BUF_ITERATOR,
-                        read_buffer + blk_readable_from,
-                        (read_to - blk_readable_from) + 1);
+            BUF_ITERATOR += (read_to - blk_readable_from) + 1;
+            BYTES_LEFT -= (read_to - blk_readable_from) + 1;
 
-                BUF_ITERATOR += (read_to - blk_readable_from) + 1;
-                BYTES_LEFT -= (read_to - blk_readable_from) + 1;
-
-                data_allocated += (read_to - blk_readable_from) + 1;
-
-            } else {
-
-                // todo: there could be a race condition between checking if the block is cached
-                // todo: and retrieving its data, so either lock the operation or go to the else
-                // todo: case
-
-                // goto try_pread;
-            }
+            data_allocated += (read_to - blk_readable_from) + 1;
 
         } else {
 
-            // todo:
-            // try_pread:
-
             /*
                 > Block is not cached, cache it first: If it fails, call pread if
                needed.
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 8472a44..77b2102 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -198,12 +198,10 @@ pair<int, int> Cache::_get_readable_offsets (string cid, Item* item, int blk_id)
 
     auto const& data = item->get_data ();
 
-    int page = data->get_page_id (blk_id);
+    // the block may have been evicted since its data was obtained
 
-    if (this->engine->is_block_cached (cid, page, blk_id)) {
-
-        return item->get_data ()->_get_readable_offsets (blk_id);
-    }
+    if (data->has_block (blk_id))
+        return data->_get_readable_offsets (blk_id);
 
     return pair<int, int> (0, 0);
 }
-- 
2.43.0


From b9fce9f4ab1cc7538cd6e7765a07bfa331ba32bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 30/39] fix: the report of unsynced data reads files that a
 concurrent sync is marking as synced

---
 libs/libpcache/src/cache.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 77b2102..fc7367b 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -606,10 +606,14 @@ Cache::report_unsynced_data () {
     std::vector<tuple<string, size_t, vector<tuple<int, pair<int, int>, int>>>> unsynced_data;
 
     for (auto const& it : this->contents) {
+        lockItem (it.first);
+
         if (not it.second->is_synced ()) {
             unsynced_data.push_back (
                 std::make_tuple (it.first, 0, this->engine->get_dirty_blocks_info (it.first)));
         }
+
+        unlockItem (it.first);
     }
 
     return unsynced_data;
-- 
2.43.0


From 2928ec122cee516e676a04705d6302f368b6c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:27 +0000
Subject: [PATCH 31/39] fix: faults are added to tables that concurrent
 operations are reading

---
 lazyfs/include/lazyfs/lazyfs.hpp | 13 +++++++++++
 lazyfs/src/lazyfs.cpp            | 40 ++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 968038b..da5d87a 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -104,6 +104,11 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     unordered_map<string,vector<faults::Fault*>>* faults;
 
+    /**
+     * @brief Lock for the programmed faults and the crash faults.
+     */
+    std::shared_mutex faults_lock;
+
 
     /**
      * @brief Faults of LazyFS crash injected during runtime.
@@ -195,6 +200,14 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     */
     vector<string> get_injecting_fault();
 
+    /**
+     * @brief Gets the faults programmed for a path.
+     *
+     * @param path file path
+     * @return vector<faults::Fault*> the faults
+     */
+    vector<faults::Fault*> get_faults (string path);
+
     /**
      * @brief Fifo: (fault) Clear the cached contents
      *
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 261ca2a..b6362e9 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -154,6 +154,16 @@ vector<string> LazyFS::get_injecting_fault() {
     return injecting_fault;
 }
 
+// (faults may be added while operations run)
+vector<faults::Fault*> LazyFS::get_faults (string path) {
+
+    std::shared_lock<std::shared_mutex> lock (faults_lock);
+
+    auto it = faults->find (path);
+
+    return it != faults->end () ? it->second : vector<faults::Fault*> ();
+}
+
 void LazyFS::trigger_crash_fault (string opname,
                                   string optiming,
                                   string from_op_path,
@@ -178,12 +188,16 @@ void LazyFS::trigger_crash_fault (string opname,
     status = lstat(char_array, &buffer);
 */
 
+    std::shared_lock<std::shared_mutex> lock (faults_lock);
+
     if (optiming == "before") {
         opfaults = this->crash_faults_before_map.at (opname);
     } else {
         opfaults = this->crash_faults_after_map.at (opname);
     }
 
+    lock.unlock ();
+
     if (opfaults.size () > 0) {
 
         bool is_multi_path = false;
@@ -237,10 +251,9 @@ void LazyFS::trigger_configured_clear_fault (string opname,
     if (internal_steps > 0)
         return;
 
-    auto it = faults->find(from_path);
+    vector<faults::Fault*> v_faults = get_faults (from_path);
 
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    if (not v_faults.empty ()) {
 
         for (auto fault : v_faults) {
             faults::ClearF* clear_fault = dynamic_cast<faults::ClearF*>(fault);
@@ -288,6 +301,8 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_from,
                               string crash_regex_to) {
 
+    std::unique_lock<std::shared_mutex> lock (faults_lock);
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
@@ -347,6 +362,8 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     bool valid_fault = true;
     if (errors.size() == 0) {
 
+        std::unique_lock<std::shared_mutex> lock (faults_lock);
+
         auto it = faults->find(path);
         if (it == faults->end()) {
             faults->insert({path, {fault}});
@@ -386,6 +403,8 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
 
     bool valid_fault = true;
     if (errors.size() == 0) {
+        std::unique_lock<std::shared_mutex> lock (faults_lock);
+
         auto it = faults->find(path);
         if (it == faults->end())
             faults->insert({path, {fault}});
@@ -523,9 +542,8 @@ void LazyFS::command_checkpoint () {
 }
 
 void LazyFS::restart_counter(string path, string op) {
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    vector<faults::Fault*> v_faults = get_faults (path);
+    if (not v_faults.empty ()) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op)  {
@@ -554,9 +572,8 @@ bool LazyFS::check_and_delete_pendingwrite(const char* path) {
 
 faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
     faults::ReorderF* fault_r = NULL;
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    vector<faults::Fault*> v_faults = get_faults (path);
+    if (not v_faults.empty ()) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op) {
@@ -654,9 +671,8 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
     int fd;
     bool res = false;
 
-    auto it = faults->find(path_s);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    vector<faults::Fault*> v_faults = get_faults (path_s);
+    if (not v_faults.empty ()) {
         for (auto fault : v_faults) { 
             faults::SplitWriteF* split_fault = dynamic_cast<faults::SplitWriteF*>(fault);
             if (split_fault) {
-- 
2.43.0


From 16e5e49adfd06314d16ebbf3f25e129846f52e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:14 +0000
Subject: [PATCH 32/39] fix: a clear fault after an operation counts the
 operations that started meanwhile

---
 lazyfs/src/lazyfs.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b6362e9..7d19a06 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -264,11 +264,15 @@ void LazyFS::trigger_configured_clear_fault (string opname,
 
                 if ((is_multi_path && to_path == clear_fault->to) || !is_multi_path) {
                     
-                    int current_count = clear_fault->counter.load();
+                    // the count of this operation, whatever others do until it ends
+                    static thread_local unordered_map<faults::ClearF*, int> counts;
+
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1) + 1;
+                        counts[clear_fault] = clear_fault->counter.fetch_add(1) + 1;
                     }
-            
+
+                    int current_count = counts[clear_fault];
+
                     if (clear_fault->timing == optiming) {
 
                         if (current_count == clear_fault->occurrence) {
-- 
2.43.0


From 8826c5f983ddfc5025dda9dbf4ab0023c9f2bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 33/39] fix: readdir reports an incomplete listing as complete
 when reading the directory fails

---
 lazyfs/src/lazyfs.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 7d19a06..f3c65b2 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -891,7 +891,15 @@ int LazyFS::lfs_readdir (const char* path,
     if (dp == NULL)
         return -errno;
 
-    while ((de = readdir (dp)) != NULL) {
+    int err = 0;
+
+    for (;;) {
+        errno = 0;
+        de    = readdir (dp);
+        if (de == NULL) {
+            err = errno;
+            break;
+        }
         struct stat st;
         memset (&st, 0, sizeof (st));
         st.st_ino  = de->d_ino;
@@ -902,7 +910,7 @@ int LazyFS::lfs_readdir (const char* path,
 
     closedir (dp);
 
-    return 0;
+    return -err;
 }
 
 int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
-- 
2.43.0


From 8b1c4763e878d36b1afbeb66db77ee85fefb96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:06 +0000
Subject: [PATCH 34/39] fix: mount and unmount scripts keep path names with
 spaces or wildcards in one piece

---
 lazyfs/scripts/mount-lazyfs.sh  | 8 ++++----
 lazyfs/scripts/umount-lazyfs.sh | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lazyfs/scripts/mount-lazyfs.sh b/lazyfs/scripts/mount-lazyfs.sh
index 8ec0d6a..8067807 100755
--- a/lazyfs/scripts/mount-lazyfs.sh
+++ b/lazyfs/scripts/mount-lazyfs.sh
@@ -65,15 +65,15 @@ if [ ! -d "$ROOT_DIR" ]; then
 fi
 
 echo "Creating ROOT_DIR=$ROOT_DIR and MOUNT_DIR=$MOUNT_DIR"    
-mkdir -p $MOUNT_DIR
-mkdir -p $ROOT_DIR
+mkdir -p "$MOUNT_DIR"
+mkdir -p "$ROOT_DIR"
 echo "Using config '${CMD_CONFIG}'"    
 echo -e "Running LazyFS (stop with ctrl+c or umount-lazyfs.sh)...\n"
 if [ -z "$CMD_FG" ]; then
    echo -e "(running in no foreground mode)\n"
    echo -e "Note: run in foreground to see the <stdio> logs.\n"
-   ./build/lazyfs $MOUNT_DIR --config-path $CMD_CONFIG -o allow_other -o modules=subdir -o subdir=$ROOT_DIR &
+   ./build/lazyfs "$MOUNT_DIR" --config-path "$CMD_CONFIG" -o allow_other -o modules=subdir -o subdir="$ROOT_DIR" &
 else
    echo -e "(running in foreground mode)\n"
-   ./build/lazyfs $MOUNT_DIR --config-path $CMD_CONFIG -o allow_other -o modules=subdir -o subdir=$ROOT_DIR -f
+   ./build/lazyfs "$MOUNT_DIR" --config-path "$CMD_CONFIG" -o allow_other -o modules=subdir -o subdir="$ROOT_DIR" -f
 fi
diff --git a/lazyfs/scripts/umount-lazyfs.sh b/lazyfs/scripts/umount-lazyfs.sh
index f9dbd97..e71d6b5 100755
--- a/lazyfs/scripts/umount-lazyfs.sh
+++ b/lazyfs/scripts/umount-lazyfs.sh
@@ -38,4 +38,4 @@ done
 set -- "${POSITIONAL_ARGS[@]}"
 
 echo "Umounting FUSE on $MOUNT_DIR..."
-fusermount3 -u ${MOUNT_DIR}
\ No newline at end of file
+fusermount3 -u "${MOUNT_DIR}"
\ No newline at end of file
-- 
2.43.0


From 011791645fc9deed3331e0ec29a3101bc4bb50ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:56 +0000
Subject: [PATCH 35/39] fix: mount and unmount scripts reject unknown arguments
 instead of looping forever

---
 lazyfs/scripts/mount-lazyfs.sh  | 4 ++++
 lazyfs/scripts/umount-lazyfs.sh | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazyfs/scripts/mount-lazyfs.sh b/lazyfs/scripts/mount-lazyfs.sh
index 8067807..2c1b7d7 100755
--- a/lazyfs/scripts/mount-lazyfs.sh
+++ b/lazyfs/scripts/mount-lazyfs.sh
@@ -44,6 +44,10 @@ while [[ $# -gt 0 ]]; do
       echo -e "$HELP_MSG"
       exit
       ;;
+    *)
+      echo "Unknown option $1"
+      exit 1
+      ;;
   esac
 done
 
diff --git a/lazyfs/scripts/umount-lazyfs.sh b/lazyfs/scripts/umount-lazyfs.sh
index e71d6b5..a1fcf50 100755
--- a/lazyfs/scripts/umount-lazyfs.sh
+++ b/lazyfs/scripts/umount-lazyfs.sh
@@ -27,11 +27,10 @@ while [[ $# -gt 0 ]]; do
       echo -e "$HELP_MSG"
       exit
       ;;
-    -*|--*)
+    *)
       echo "Unknown option $1"
       exit 1
       ;;
-    *)
   esac
 done
 
-- 
2.43.0


From 4b94b6abbf00622035495776193907a5e25fa55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:56 +0000
Subject: [PATCH 36/39] fix: write to the first block of a page when blocks are
 one byte long

The offsets of that block are (0, 0), which was taken for an unallocated block,
so the data written was silently dropped.
---
 libs/libpcache/src/engine/page/page.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index f14f0e5..a91aacd 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -134,7 +134,7 @@ bool Page::update_block_data (int block_id, char* new_data, size_t data_length,
     // block exists, update data
     int off_min = block_offsets.first;
 
-    if (block_offsets.first >= 0 && block_offsets.second > 0) {
+    if (block_offsets.first >= 0 && block_offsets.second >= 0) {
 
         assert (data_length <= this->config->IO_BLOCK_SIZE);
 
-- 
2.43.0


From 938bffc9e31b12232931143c8956128cb2848824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:56 +0000
Subject: [PATCH 37/39] fix: keep block buffers off the stack

With io_block_size of 4 MiB and more LazyFS was killed by a stack overflow at
the first read or write.
---
 lazyfs/src/lazyfs.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f3c65b2..f9972d7 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <lazyfs/lazyfs.hpp>
 #include <map>
+#include <memory>
 #include <regex>
 #include <signal.h>
 #include <spdlog/spdlog.h>
@@ -1166,7 +1167,8 @@ int LazyFS::lfs_write (const char* path,
         int fd_caching             = open (path, O_RDONLY);
         int write_errno            = errno;
 
-        char block_caching_buffer[IO_BLOCK_SIZE];
+        std::unique_ptr<char[]> block_caching_buffer_data (new char[IO_BLOCK_SIZE]); // (too large for the stack)
+        char* block_caching_buffer = block_caching_buffer_data.get ();
         map<int, tuple<const char*, size_t, int, int>> put_mapping;
 
         bool cache_full = (this_ ()->FSCache->get_cache_usage () == 100) &&
@@ -1547,7 +1549,8 @@ int LazyFS::lfs_read (const char* path,
     off_t BYTES_LEFT     = size;
     off_t data_allocated = 0;
 
-    char read_buffer[IO_BLOCK_SIZE];
+    std::unique_ptr<char[]> read_buffer_data (new char[IO_BLOCK_SIZE]); // (too large for the stack)
+    char* read_buffer = read_buffer_data.get ();
 
     // ---------------------------------------------------------------------------------
 
-- 
2.43.0


From 01e309f9ee8275c9fe1b97e8e32cf94491e31a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:07 +0000
Subject: [PATCH 38/39] fix: crash faults match paths that contain line
 terminators

The path expressions were wrapped in '.*', which does not match newlines
and carriage returns. Search for the expression instead.
---
 lazyfs/src/lazyfs.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f9972d7..b801d77 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -215,15 +215,15 @@ void LazyFS::trigger_crash_fault (string opname,
             if (is_multi_path) {
 
                 string to = it.second;
-                std::regex to_rgx (".*(?:" + to + ").*");
+                std::regex to_rgx (to);
 
-                regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_search (from_op_path, from_rgx);
                 if (to != "none")
-                    regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
+                    regex_match = regex_match && std::regex_search (to_op_path, to_rgx);
 
             } else {
 
-                regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_search (from_op_path, from_rgx);
             }
 
             if (regex_match) {
@@ -311,13 +311,13 @@ void LazyFS::add_crash_fault (string crash_timing,
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-        std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*(?:" + crash_regex_from + ").*");
+        std::regex from_rgx (crash_regex_from == "none" ? "" : crash_regex_from);
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
 
     } else {
 
         auto& crash_regex_list = crash_faults_after_map.at (crash_operation);
-        std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*(?:" + crash_regex_from + ").*");
+        std::regex from_rgx (crash_regex_from == "none" ? "" : crash_regex_from);
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
     }
 }
-- 
2.43.0


From 73e7f920435f1ef10c7b936c5c00873ecdfa4b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:19 +0000
Subject: [PATCH 39/39] fix: accept crash faults whose path expression is the
 word none

'none' stood for an omitted from_rgx or to_rgx, so a fault with that
expression was rejected or matched every path.
---
 lazyfs/src/lazyfs.cpp | 12 ++++++------
 lazyfs/src/main.cpp   |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b801d77..a9d3a96 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -218,7 +218,7 @@ void LazyFS::trigger_crash_fault (string opname,
                 std::regex to_rgx (to);
 
                 regex_match = std::regex_search (from_op_path, from_rgx);
-                if (to != "none")
+                if (!to.empty ())
                     regex_match = regex_match && std::regex_search (to_op_path, to_rgx);
 
             } else {
@@ -311,13 +311,13 @@ void LazyFS::add_crash_fault (string crash_timing,
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-        std::regex from_rgx (crash_regex_from == "none" ? "" : crash_regex_from);
+        std::regex from_rgx (crash_regex_from);
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
 
     } else {
 
         auto& crash_regex_list = crash_faults_after_map.at (crash_operation);
-        std::regex from_rgx (crash_regex_from == "none" ? "" : crash_regex_from);
+        std::regex from_rgx (crash_regex_from);
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
     }
 }
@@ -622,7 +622,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
 
                 if (pw==pending_write->size) {
                     if ((fault->persist).back()==1) {
-                        this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_str), "none");            
+                        this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_str), "");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
                         return res;
@@ -653,7 +653,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     if (pw == size) {
                         int max = fault->persist.back();
                         if (max == fault->counter) {
-                            this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_str), "none"); 
+                            this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_str), ""); 
                             spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                             res= true;
                         }
@@ -754,7 +754,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                     }
                     close(fd);
 
-                    this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_s), "none");            
+                    this_ ()->add_crash_fault ("after", "write", exact_path_regex (path_s), "");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
                 }
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 6c2ede1..031e477 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -103,8 +103,8 @@ void fht_worker (LazyFS* filesystem) {
 
                 string crash_operation = "none";
                 string crash_timing    = "none";
-                string crash_from_rgx  = "none";
-                string crash_to_rgx    = "none";
+                string crash_from_rgx;
+                string crash_to_rgx;
 
                 // VF = Valid fault
                 bool VF = true;
@@ -174,7 +174,7 @@ void fht_worker (LazyFS* filesystem) {
                 if (filesystem->fs_op_multi_path.find (crash_operation) !=
                     filesystem->fs_op_multi_path.end ()) {
 
-                    if (crash_from_rgx == "none" && crash_to_rgx == "none") {
+                    if (crash_from_rgx.empty () && crash_to_rgx.empty ()) {
                         errors.push_back ("should specify 'from_rgx' and/or 'to_rgx'");
                         VF = false;
                     }
@@ -183,7 +183,7 @@ void fht_worker (LazyFS* filesystem) {
 
                 } else {
 
-                    if (crash_from_rgx == "none" || crash_to_rgx != "none") {
+                    if (crash_from_rgx.empty () || !crash_to_rgx.empty ()) {
                         VF = false;
                         errors.push_back ("should specify 'from_rgx' regex (and not 'to_rgx')");
                     }
-- 
2.43.0

