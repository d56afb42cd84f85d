From e912440492d84757d01b158674debe27e56c5622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:22 +0000
Subject: [PATCH 01/39] fix: release the locks of leaf nodes if saving a node
 fails in ProcessMulti of TreeDBM

---
 tkrzw_dbm_tree.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 9faa4d3..5dfeabb 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -632,14 +632,15 @@ Status TreeDBMImpl::ProcessMulti(
       id_leaf_node.second->mutex.lock_shared();
     }
   }
+  Status status(Status::SUCCESS);
   for (size_t i = 0; i < key_proc_pairs.size(); i++) {
     auto& key_proc = key_proc_pairs[i];
     auto& leaf_node = leaf_nodes[i];
     ProcessImpl(leaf_node.get(), key_proc.first, key_proc.second, writable);
     if (leaf_node->dirty && page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
-      const Status status = SaveLeafNodeImpl(leaf_node.get());
+      status = SaveLeafNodeImpl(leaf_node.get());
       if (status != Status::SUCCESS) {
-        return status;
+        break;
       }
     }
   }
@@ -651,6 +652,9 @@ Status TreeDBMImpl::ProcessMulti(
       id_leaf_node->second->mutex.unlock_shared();
     }
   }
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   return AdjustCaches();
 }
 
-- 
2.43.0


From 69a5a96f5cd40140cd7374325c20733bb614389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 02/39] fix: update the tuning parameters of TreeDBM under its
 mutex in Rebuild

---
 tkrzw_dbm_tree.cc | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 5dfeabb..e2b7268 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -896,17 +896,20 @@ Status TreeDBMImpl::Rebuild(
   }
   std::lock_guard<SpinMutex> rebulid_lock(rebuild_mutex_);
   const HashDBM::TuningParameters hash_params = tuning_params;
-  if (tuning_params.max_page_size > 0) {
-    max_page_size_ = tuning_params.max_page_size;
-  }
-  if (tuning_params.max_branches > 1) {
-    max_branches_ = tuning_params.max_branches;
-  }
-  if (tuning_params.max_cached_pages > 0) {
-    max_cached_pages_ = tuning_params.max_cached_pages;
-  }
-  if (tuning_params.page_update_mode != TreeDBM::PAGE_UPDATE_DEFAULT) {
-    page_update_mode_ = tuning_params.page_update_mode;
+  {
+    std::lock_guard<SpinSharedMutex> lock(mutex_);
+    if (tuning_params.max_page_size > 0) {
+      max_page_size_ = tuning_params.max_page_size;
+    }
+    if (tuning_params.max_branches > 1) {
+      max_branches_ = tuning_params.max_branches;
+    }
+    if (tuning_params.max_cached_pages > 0) {
+      max_cached_pages_ = tuning_params.max_cached_pages;
+    }
+    if (tuning_params.page_update_mode != TreeDBM::PAGE_UPDATE_DEFAULT) {
+      page_update_mode_ = tuning_params.page_update_mode;
+    }
   }
   status = hash_dbm_->RebuildAdvanced(hash_params, skip_broken_records, sync_hard);
   return status;
-- 
2.43.0


From 3701ea0de3ea69e72d54fd9c790f8c3101de2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 03/39] fix: do not save leaf nodes under shared locks in
 read-only ProcessMulti of TreeDBM

---
 tkrzw_dbm_tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index e2b7268..b81723d 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -637,7 +637,7 @@ Status TreeDBMImpl::ProcessMulti(
     auto& key_proc = key_proc_pairs[i];
     auto& leaf_node = leaf_nodes[i];
     ProcessImpl(leaf_node.get(), key_proc.first, key_proc.second, writable);
-    if (leaf_node->dirty && page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
+    if (writable && leaf_node->dirty && page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
       status = SaveLeafNodeImpl(leaf_node.get());
       if (status != Status::SUCCESS) {
         break;
-- 
2.43.0


From 22e4783e29b6823ab1a88b89b5ab9b0d8b19bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 04/39] fix: read the number of records of a CacheDBM slot
 under its mutex

---
 tkrzw_dbm_cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 80caf5c..205e927 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -448,9 +448,9 @@ bool CacheSlot::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
 void CacheSlot::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
   if (writable) {
     std::vector<std::string> keys;
-    keys.reserve(num_records_);
     {
       std::lock_guard<SpinMutex> lock(mutex_);
+      keys.reserve(num_records_);
       char* ptr = first_;
       while (ptr != nullptr) {
         CacheRecord rec;
-- 
2.43.0


From 721f24784bccf079d865a5095fc7a5ffcf7facb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:47 +0000
Subject: [PATCH 05/39] fix: take the exclusive lock in MergeSkipDatabase of
 SkipDBM

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 05bec97..1a4216d 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1031,7 +1031,7 @@ bool SkipDBMImpl::IsUpdated() {
 }
 
 Status SkipDBMImpl::MergeSkipDatabase(const std::string& src_path) {
-  std::shared_lock<SpinSharedMutex> lock(mutex_);
+  std::lock_guard<SpinSharedMutex> lock(mutex_);
   if (!open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
-- 
2.43.0


From 85b53d0398da4d17a994d139dd4adbd5a2a83116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:47 +0000
Subject: [PATCH 06/39] fix: lock the mutex to access the update logger of
 StdHashDBM and StdTreeDBM

---
 tkrzw_dbm_std.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index 3a2ecae..a2c90b9 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -502,11 +502,13 @@ std::unique_ptr<DBM> StdDBMImpl<StringHashMap>::MakeDBM() {
 
 template <class STRMAP>
 DBM::UpdateLogger* StdDBMImpl<STRMAP>::GetUpdateLogger() {
+  std::shared_lock<SpinSharedMutex> lock(mutex_);
   return update_logger_;
 }
 
 template <class STRMAP>
 void StdDBMImpl<STRMAP>::SetUpdateLogger(DBM::UpdateLogger* update_logger) {
+  std::lock_guard<SpinSharedMutex> lock(mutex_);
   update_logger_ = update_logger;
 }
 
-- 
2.43.0


From 12c7fdab84dffb9cc2a53f8b9ecf8a60042e7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 07/39] fix: return the status of the operation applied by
 DBMUpdateLoggerMQ::ApplyUpdateLog

---
 tkrzw_dbm_ulog.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index f1101ab..e449acd 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -314,6 +314,9 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
       break;
     case OP_REMOVE:
       status = dbm->Remove(op.key);
+      if (status == Status::NOT_FOUND_ERROR) {
+        status.Set(Status::SUCCESS);
+      }
       break;
     case OP_CLEAR:
       status = dbm->Clear();
@@ -321,7 +324,7 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
     default:
       break;
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
-- 
2.43.0


From d77ef78a884bc3506ed55222d9484e592779d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:18 +0000
Subject: [PATCH 08/39] fix: check the statuses of the update logger in the std
 databases and in Clear of the on-memory databases

---
 tkrzw_dbm_baby.cc  |  5 +++-
 tkrzw_dbm_cache.cc |  5 +++-
 tkrzw_dbm_std.cc   | 67 ++++++++++++++++++++++++++++++++++++----------
 tkrzw_dbm_tiny.cc  |  5 +++-
 4 files changed, 65 insertions(+), 17 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 7dcff20..fe5cd82 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -569,7 +569,10 @@ Status BabyDBMImpl::GetTimestamp(double* timestamp) {
 Status BabyDBMImpl::Clear() {
   std::lock_guard<SpinSharedMutex> lock(mutex_);
   if (update_logger_ != nullptr) {
-    update_logger_->WriteClear();
+    const Status status = update_logger_->WriteClear();
+    if (status != Status::SUCCESS) {
+      return status;
+    }
   }
   for (auto* iterator : iterators_) {
     iterator->ClearPosition();
diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 205e927..fcc933c 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -768,7 +768,10 @@ Status CacheDBM::GetTimestamp(double* timestamp) {
 Status CacheDBMImpl::Clear() {
   std::lock_guard<SpinSharedMutex> lock(mutex_);
   if (update_logger_ != nullptr) {
-    update_logger_->WriteClear();
+    const Status status = update_logger_->WriteClear();
+    if (status != Status::SUCCESS) {
+      return status;
+    }
   }
   CleanUpAllSlots();
   CancelIterators();
diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index a2c90b9..e745fd5 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -180,7 +180,10 @@ Status StdDBMImpl<STRMAP>::Process(
       if (new_value.data() != DBM::RecordProcessor::NOOP.data() &&
           new_value.data() != DBM::RecordProcessor::REMOVE.data()) {
         if (update_logger_ != nullptr) {
-          update_logger_->WriteSet(key, new_value);
+          const Status status = update_logger_->WriteSet(key, new_value);
+          if (status != Status::SUCCESS) {
+            return status;
+          }
         }
         map_.emplace(std::move(key_str), new_value);
       }
@@ -189,7 +192,10 @@ Status StdDBMImpl<STRMAP>::Process(
       if (new_value.data() == DBM::RecordProcessor::NOOP.data()) {
       } else if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
         if (update_logger_ != nullptr) {
-          update_logger_->WriteRemove(key);
+          const Status status = update_logger_->WriteRemove(key);
+          if (status != Status::SUCCESS) {
+            return status;
+          }
         }
         for (auto* iterator : iterators_) {
           if (iterator->it_ == it) {
@@ -199,7 +205,10 @@ Status StdDBMImpl<STRMAP>::Process(
         map_.erase(it);
       } else {
         if (update_logger_ != nullptr) {
-          update_logger_->WriteSet(key, new_value);
+          const Status status = update_logger_->WriteSet(key, new_value);
+          if (status != Status::SUCCESS) {
+            return status;
+          }
         }
         it->second = new_value;
       }
@@ -233,7 +242,10 @@ Status StdDBMImpl<STRMAP>::ProcessMulti(
         if (new_value.data() != DBM::RecordProcessor::NOOP.data() &&
             new_value.data() != DBM::RecordProcessor::REMOVE.data()) {
           if (update_logger_ != nullptr) {
-            update_logger_->WriteSet(key, new_value);
+            const Status status = update_logger_->WriteSet(key, new_value);
+            if (status != Status::SUCCESS) {
+              return status;
+            }
           }
           map_.emplace(std::move(key_str), new_value);
         }
@@ -242,7 +254,10 @@ Status StdDBMImpl<STRMAP>::ProcessMulti(
         if (new_value.data() == DBM::RecordProcessor::NOOP.data()) {
         } else if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
           if (update_logger_ != nullptr) {
-            update_logger_->WriteRemove(key);
+            const Status status = update_logger_->WriteRemove(key);
+            if (status != Status::SUCCESS) {
+              return status;
+            }
           }
           for (auto* iterator : iterators_) {
             if (iterator->it_ == it) {
@@ -252,7 +267,10 @@ Status StdDBMImpl<STRMAP>::ProcessMulti(
           map_.erase(it);
         } else {
           if (update_logger_ != nullptr) {
-            update_logger_->WriteSet(key, new_value);
+            const Status status = update_logger_->WriteSet(key, new_value);
+            if (status != Status::SUCCESS) {
+              return status;
+            }
           }
           it->second = new_value;
         }
@@ -285,7 +303,10 @@ Status StdDBMImpl<STRMAP>::ProcessFirst(DBM::RecordProcessor* proc, bool writabl
       const std::string_view new_value = proc->ProcessFull(it->first, it->second);
       if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
         if (update_logger_ != nullptr) {
-          update_logger_->WriteRemove(it->first);
+          const Status status = update_logger_->WriteRemove(it->first);
+          if (status != Status::SUCCESS) {
+            return status;
+          }
         }
         for (auto* iterator : iterators_) {
           if (iterator->it_ == it) {
@@ -295,7 +316,10 @@ Status StdDBMImpl<STRMAP>::ProcessFirst(DBM::RecordProcessor* proc, bool writabl
         map_.erase(it);
       } else if (new_value.data() != DBM::RecordProcessor::NOOP.data()) {
         if (update_logger_ != nullptr) {
-          update_logger_->WriteSet(it->first, new_value);
+          const Status status = update_logger_->WriteSet(it->first, new_value);
+          if (status != Status::SUCCESS) {
+            return status;
+          }
         }
         it->second = new_value;
       }
@@ -325,7 +349,10 @@ Status StdDBMImpl<STRMAP>::ProcessEach(DBM::RecordProcessor* proc, bool writable
         ++it;
       } else if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
         if (update_logger_ != nullptr) {
-          update_logger_->WriteRemove(it->first);
+          const Status status = update_logger_->WriteRemove(it->first);
+          if (status != Status::SUCCESS) {
+            return status;
+          }
         }
         for (auto* iterator : iterators_) {
           if (iterator->it_ == it) {
@@ -335,7 +362,10 @@ Status StdDBMImpl<STRMAP>::ProcessEach(DBM::RecordProcessor* proc, bool writable
         it = map_.erase(it);
       } else {
         if (update_logger_ != nullptr) {
-          update_logger_->WriteSet(it->first, new_value);
+          const Status status = update_logger_->WriteSet(it->first, new_value);
+          if (status != Status::SUCCESS) {
+            return status;
+          }
         }
         it->second = new_value;
         ++it;
@@ -397,7 +427,10 @@ template <class STRMAP>
 Status StdDBMImpl<STRMAP>::Clear() {
   std::lock_guard<SpinSharedMutex> lock(mutex_);
   if (update_logger_ != nullptr) {
-    update_logger_->WriteClear();
+    const Status status = update_logger_->WriteClear();
+    if (status != Status::SUCCESS) {
+      return status;
+    }
   }
   map_.clear();
   CancelIterators();
@@ -447,7 +480,7 @@ Status StdDBMImpl<STRMAP>::Synchronize(bool hard, DBM::FileProcessor* proc) {
       proc->Process(path_);
     }
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 template <class STRMAP>
@@ -760,7 +793,10 @@ Status StdDBMIteratorImpl<STRMAP>::Process(DBM::RecordProcessor* proc, bool writ
     if (new_value.data() == DBM::RecordProcessor::NOOP.data()) {
     } else if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
       if (dbm_->update_logger_ != nullptr) {
-        dbm_->update_logger_->WriteRemove(it_->first);
+        const Status status = dbm_->update_logger_->WriteRemove(it_->first);
+        if (status != Status::SUCCESS) {
+          return status;
+        }
       }
       for (auto* iterator : dbm_->iterators_) {
         if (iterator != this && iterator->it_ == it_) {
@@ -770,7 +806,10 @@ Status StdDBMIteratorImpl<STRMAP>::Process(DBM::RecordProcessor* proc, bool writ
       dbm_->map_.erase(it_++);
     } else {
       if (dbm_->update_logger_ != nullptr) {
-        dbm_->update_logger_->WriteSet(it_->first, new_value);
+        const Status status = dbm_->update_logger_->WriteSet(it_->first, new_value);
+        if (status != Status::SUCCESS) {
+          return status;
+        }
       }
       dbm_->map_.find(it_->first)->second = new_value;
     }
diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index c05e1ca..9e9741b 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -411,7 +411,10 @@ Status TinyDBMImpl::GetTimestamp(double* timestamp) {
 Status TinyDBMImpl::Clear() {
   std::lock_guard<SpinSharedMutex> lock(mutex_);
   if (update_logger_ != nullptr) {
-    update_logger_->WriteClear();
+    const Status status = update_logger_->WriteClear();
+    if (status != Status::SUCCESS) {
+      return status;
+    }
   }
   ReleaseAllRecords();
   CancelIterators();
-- 
2.43.0


From 387bc615e4030fb82fb02c1f9ba207f1550705d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:40 +0000
Subject: [PATCH 09/39] fix: keep the existing file if exporting records of the
 on-memory databases fails

---
 tkrzw_dbm_baby.cc  | 4 +++-
 tkrzw_dbm_cache.cc | 8 +++++---
 tkrzw_dbm_std.cc   | 4 +++-
 tkrzw_dbm_tiny.cc  | 4 +++-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index fe5cd82..5183371 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1066,7 +1066,9 @@ Status BabyDBMImpl::ExportRecords() {
     leaf_node = leaf_node->next;
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status = RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index fcc933c..2020111 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -988,13 +988,15 @@ Status CacheDBMImpl::ExportRecords() {
   meta["cap_mem_size"] = ToString(cap_mem_size_);
   status |= flat_rec.Write(SerializeStrMap(meta), FlatRecord::RECORD_METADATA);
   for (auto& slot : slots_) {
-    status = slot.ExportRecords(&flat_rec);
     if (status != Status::SUCCESS) {
-      return status;
+      break;
     }
+    status = slot.ExportRecords(&flat_rec);
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status = RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index e745fd5..45bcc12 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -638,7 +638,9 @@ Status StdDBMImpl<STRMAP>::ExportRecords() {
     ++it;
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status = RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index 9e9741b..87f7a06 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -622,7 +622,9 @@ Status TinyDBMImpl::ExportRecords() {
     }
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status = RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
-- 
2.43.0


From 8d6990f1b7291f0a12f17f47a64e5086244b56c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 10/39] fix: check the statuses of the file operations in Open,
 Rebuild and FinishStorage of SkipDBM

---
 tkrzw_dbm_skip.cc | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 1a4216d..ddf43d8 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -246,15 +246,20 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
     return status;
   }
   if (writable && file_->GetSizeSimple() < 1) {
-    file_->Truncate(METADATA_SIZE);
+    status = file_->Truncate(METADATA_SIZE);
+    if (status != Status::SUCCESS) {
+      file_->Close();
+      return status;
+    }
     const auto version_nums = StrSplit(PACKAGE_VERSION, '.');
     pkg_major_version_ = version_nums.size() > 0 ? StrToInt(version_nums[0]) : 0;
     pkg_minor_version_ = version_nums.size() > 1 ? StrToInt(version_nums[1]) : 0;
     closure_flags_ |= CLOSURE_FLAG_CLOSE;
     file_size_ = file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
-    const Status status = SaveMetadata(file_.get(), true);
+    status = SaveMetadata(file_.get(), true);
     if (status != Status::SUCCESS) {
+      file_->Close();
       return status;
     }
   }
@@ -805,16 +810,28 @@ Status SkipDBMImpl::Rebuild(
   }
   CancelIterators();
   auto rebuild_file = file_->MakeFile();
-  file_->CopyProperties(rebuild_file.get());
+  status = file_->CopyProperties(rebuild_file.get());
+  if (status != Status::SUCCESS) {
+    CleanUp();
+    return status;
+  }
   status = rebuild_file->Open(rebuild_path, true);
   if (status != Status::SUCCESS) {
     CleanUp();
     return status;
   }
   if (sync_hard) {
-    status |= rebuild_file->Synchronize(true);
+    status = rebuild_file->Synchronize(true);
+    if (status != Status::SUCCESS) {
+      CleanUp();
+      return status;
+    }
+  }
+  status = file_->DisablePathOperations();
+  if (status != Status::SUCCESS) {
+    CleanUp();
+    return status;
   }
-  status |= file_->DisablePathOperations();
   if (IS_POSIX) {
     status |= rebuild_file->Rename(path_);
     status |= file_->Close();
@@ -835,7 +852,7 @@ Status SkipDBMImpl::Rebuild(
   file_ = std::move(rebuild_file);
   const uint32_t db_type = db_type_;
   const std::string opaque = opaque_;
-  LoadMetadata();
+  status |= LoadMetadata();
   db_type_ = db_type;
   opaque_ = opaque;
   file_size_ = file_->GetSizeSimple();
@@ -1286,12 +1303,18 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
       return status;
     }
     auto merged_file = file_->MakeFile();
-    merged_file->CopyProperties(file_.get());
+    status = file_->CopyProperties(merged_file.get());
+    if (status != Status::SUCCESS) {
+      return status;
+    }
     status = merged_file->Open(merged_path, true, File::OPEN_TRUNCATE);
     if (status != Status::SUCCESS) {
       return status;
     }
-    merged_file->Truncate(METADATA_SIZE);
+    status = merged_file->Truncate(METADATA_SIZE);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
     num_records_ = 0;
     eff_data_size_ = 0;
     record_index_ = 0;
@@ -1354,8 +1377,11 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     }
     file_size_ = merged_file->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
-    status |= SaveMetadata(merged_file.get(), true);
-    file_->DisablePathOperations();
+    status = SaveMetadata(merged_file.get(), true);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+    status = file_->DisablePathOperations();
     if (IS_POSIX) {
       status |= merged_file->Rename(path_);
       status |= file_->Close();
-- 
2.43.0


From ac5e8b6947812f72b72d515878817399ee07268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:35 +0000
Subject: [PATCH 11/39] fix: check the statuses in Rebuild, ImportFromFile, and
 RestoreDatabase of HashDBM, and respect RESTORE_WITH_HARDSYNC

---
 tkrzw_dbm_hash.cc | 49 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d1ce92d..1987b99 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -343,7 +343,7 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
         RemoveFile(tmp_path);
         return status;
       }
-      if (0 && restore_options & HashDBM::RESTORE_WITH_HARDSYNC) {
+      if (restore_options & HashDBM::RESTORE_WITH_HARDSYNC) {
         status = SynchronizeFile(tmp_path);
         if (status != Status::SUCCESS) {
           RemoveFile(tmp_path);
@@ -355,7 +355,7 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
         RemoveFile(tmp_path);
         return status;
       }
-      if (0 && restore_options & HashDBM::RESTORE_WITH_HARDSYNC) {
+      if (restore_options & HashDBM::RESTORE_WITH_HARDSYNC) {
         status = SynchronizeFile(path_);
         if (status != Status::SUCCESS) {
           return status;
@@ -1781,17 +1781,25 @@ Status HashDBMImpl::RebuildImpl(
     const std::string opaque = opaque_;
     CancelIterators();
     auto tmp_file = file_->MakeFile();
-    file_->CopyProperties(tmp_file.get());
+    status = file_->CopyProperties(tmp_file.get());
+    if (status != Status::SUCCESS) {
+      CleanUp();
+      return status;
+    }
     status = tmp_file->Open(tmp_path, true);
     if (status != Status::SUCCESS) {
       CleanUp();
       return status;
     }
-    fbp_.Clear();
     if (sync_hard) {
-      status |= tmp_file->Synchronize(true);
+      status = tmp_file->Synchronize(true);
+      if (status != Status::SUCCESS) {
+        CleanUp();
+        return status;
+      }
     }
-    status |= file_->DisablePathOperations();
+    fbp_.Clear();
+    status = file_->DisablePathOperations();
     if (IS_POSIX) {
       status |= tmp_file->Rename(path_);
       status |= file_->Close();
@@ -1917,24 +1925,28 @@ Status HashDBMImpl::ImportFromFileForwardImpl(
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       Status set_status(Status::SUCCESS);
       DBM::RecordProcessorSet setter(&set_status, value, true, nullptr);
-      *status_ = impl_->Process(key, &setter, false, true);
+      *status_ |= impl_->Process(key, &setter, false, true);
       *status_ |= set_status;
       return NOOP;
     }
     std::string_view ProcessEmpty(std::string_view key) override {
       Status remove_status(Status::SUCCESS);
       DBM::RecordProcessorRemove remover(&remove_status, nullptr);
-      *status_ = impl_->Process(key, &remover, false, true);
-      *status_ |= remove_status;
+      *status_ |= impl_->Process(key, &remover, false, true);
+      if (remove_status != Status::NOT_FOUND_ERROR) {
+        *status_ |= remove_status;
+      }
       return NOOP;
     }
    private:
     HashDBMImpl* impl_;
     Status* status_;
   } importer(this, &import_status);
-  return HashRecord::ReplayOperations(
+  status = HashRecord::ReplayOperations(
       file, &importer, record_base, crc_width, compressor.get(),
       offset_width, align_pow, min_read_size_, skip_broken_records, end_offset);
+  status |= import_status;
+  return status;
 }
 
 Status HashDBMImpl::ImportFromFileBackwardImpl(
@@ -1994,6 +2006,10 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
   dead_tuning_params.align_pow = 0;
   dead_tuning_params.num_buckets = dead_num_buckets;
   status = dead_dbm.OpenAdvanced(dead_path, true, File::OPEN_TRUNCATE, dead_tuning_params);
+  if (status != Status::SUCCESS) {
+    CleanUp();
+    return status;
+  }
   OffsetReader reader(offset_file.get(), offset_width, align_pow, true);
   HashRecord rec(file, crc_width, offset_width, align_pow);
   ScopedStringView comp_data_placeholder;
@@ -2050,6 +2066,7 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
               if (skip_broken_records) {
                 continue;
               } else {
+                CleanUp();
                 return Status(Status::BROKEN_DATA_ERROR, "decompression failed");
               }
             }
@@ -2064,6 +2081,7 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
             return status;
           }
           if (set_status != Status::SUCCESS && set_status != Status::DUPLICATION_ERROR) {
+            CleanUp();
             return set_status;
           }
         }
@@ -2094,6 +2112,7 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
         break;
       }
       default: {
+        CleanUp();
         return Status(Status::BROKEN_DATA_ERROR, "void data is read");
       }
     }
@@ -2260,6 +2279,9 @@ Status HashDBMImpl::CheckHashChain(int64_t offset, const HashRecord& rec, int64_
   const bool appending = static_flags_ & STATIC_FLAG_UPDATE_APPENDING;
   int64_t chain_offset = 0;
   Status status = GetBucketValue(bucket_index, &chain_offset);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   HashRecord chain_rec(file_.get(), crc_width_, offset_width_, align_pow_);
   while (chain_offset > 0) {
     if (chain_offset == offset) {
@@ -2974,8 +2996,11 @@ Status HashDBM::RestoreDatabase(
   if (new_dbm.CountSimple() > 0) {
     return Status(Status::PRECONDITION_ERROR, "the new database is not empty");
   }
-  new_dbm.SetDatabaseType(db_type);
-  new_dbm.SetOpaqueMetadata(opaque);
+  status = new_dbm.SetDatabaseType(db_type);
+  status |= new_dbm.SetOpaqueMetadata(opaque);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   if (update_mode == UPDATE_APPENDING) {
     status = new_dbm.ImportFromFileBackward(old_file_path, true, record_base, end_offset);
     if (status != Status::SUCCESS) {
-- 
2.43.0


From d2a84f57be18e22ad63cf418780c0bf6e790cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:35 +0000
Subject: [PATCH 12/39] fix: do not remove the old file if
 TreeDBM::RestoreDatabase fails without an intermediate file

---
 tkrzw_dbm_tree.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index b81723d..24fe15e 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2806,7 +2806,9 @@ Status TreeDBM::RestoreDatabase(
   HashDBM tmp_dbm;
   Status status = tmp_dbm.OpenAdvanced(tmp_file_path, false, File::OPEN_DEFAULT, hash_params);
   if (status != Status::SUCCESS) {
-    RemoveFile(tmp_file_path);
+    if (tmp_file_path != old_file_path) {
+      RemoveFile(tmp_file_path);
+    }
     return status;
   }
   const auto& meta = tmp_dbm.Inspect();
@@ -2877,7 +2879,9 @@ Status TreeDBM::RestoreDatabase(
   status = new_dbm.OpenAdvanced(new_file_path, true, File::OPEN_TRUNCATE, params);
   if (status != Status::SUCCESS) {
     tmp_dbm.Close();
-    RemoveFile(tmp_file_path);
+    if (tmp_file_path != old_file_path) {
+      RemoveFile(tmp_file_path);
+    }
     RemoveFile(new_file_path);
     return status;
   }
-- 
2.43.0


From de1a083e046a81a000d6fa93dee96a4b3fa3daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 13/39] fix: check the statuses of the updates of the new
 database in RestoreDatabase of TreeDBM and SkipDBM

---
 tkrzw_dbm_skip.cc |  9 ++++++---
 tkrzw_dbm_tree.cc | 16 ++++++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index ddf43d8..fa1724e 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -2187,8 +2187,11 @@ Status SkipDBM::RestoreDatabase(
   if (new_dbm.CountSimple() > 0) {
     return Status(Status::PRECONDITION_ERROR, "the new database is not empty");
   }
-  new_dbm.SetDatabaseType(old_db_type);
-  new_dbm.SetOpaqueMetadata(old_opaque);
+  status = new_dbm.SetDatabaseType(old_db_type);
+  status |= new_dbm.SetOpaqueMetadata(old_opaque);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   tkrzw::SkipRecord rec(&old_file, old_offset_width, old_step_unit, old_max_level);
   const int64_t end_offset = old_file.GetSizeSimple();
   int64_t offset = METADATA_SIZE;
@@ -2208,7 +2211,7 @@ Status SkipDBM::RestoreDatabase(
     }
     status = new_dbm.Set(rec.GetKey(), value.Get());
     if (status != Status::SUCCESS) {
-      break;
+      return status;
     }
     offset += rec.GetWholeSize();
     index++;
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 24fe15e..32da9f8 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2885,11 +2885,11 @@ Status TreeDBM::RestoreDatabase(
     RemoveFile(new_file_path);
     return status;
   }
-  new_dbm.SetDatabaseType(tmp_dbm.GetDatabaseType());
-  new_dbm.SetOpaqueMetadata(mini_opaque);
+  status = new_dbm.SetDatabaseType(tmp_dbm.GetDatabaseType());
+  status |= new_dbm.SetOpaqueMetadata(mini_opaque);
   class Loader final : public RecordProcessor {
    public:
-    explicit Loader(TreeDBM* dbm) : dbm_(dbm) {}
+    Loader(TreeDBM* dbm, Status* status) : dbm_(dbm), status_(status) {}
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       if (key.size() != PAGE_ID_WIDTH) {
         return NOOP;
@@ -2903,7 +2903,10 @@ Status TreeDBM::RestoreDatabase(
       std::vector<TreeRecord*> records;
       if (DeserializeLeafNode(value, &prev_id, &next_id, &records) == Status::SUCCESS) {
         for (const auto* rec : records) {
-          dbm_->Set(rec->GetKey(), rec->GetValue(), false);
+          const Status set_status = dbm_->Set(rec->GetKey(), rec->GetValue(), false);
+          if (set_status != Status::DUPLICATION_ERROR) {
+            *status_ |= set_status;
+          }
         }
       }
       FreeTreeRecords(&records);
@@ -2911,8 +2914,9 @@ Status TreeDBM::RestoreDatabase(
     }
    private:
     TreeDBM* dbm_;
-  } loader(&new_dbm);
-  status = tmp_dbm.ProcessEach(&loader, false);
+    Status* status_;
+  } loader(&new_dbm, &status);
+  status |= tmp_dbm.ProcessEach(&loader, false);
   status |= new_dbm.Close();
   tmp_dbm.Close();
   if (tmp_file_path != old_file_path) {
-- 
2.43.0


From 7627c9fabe4d9a173584c3bfc355b1e1c664016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:25 +0000
Subject: [PATCH 14/39] fix: report failures of iterators and file removal in
 ShardDBM, SearchDBMForwardMatch, and MessageQueue

---
 tkrzw_dbm_common_impl.cc | 5 ++++-
 tkrzw_dbm_shard.cc       | 6 ++++++
 tkrzw_message_queue.cc   | 5 ++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_common_impl.cc b/tkrzw_dbm_common_impl.cc
index 278628e..987e819 100644
--- a/tkrzw_dbm_common_impl.cc
+++ b/tkrzw_dbm_common_impl.cc
@@ -165,7 +165,10 @@ Status SearchDBMForwardMatch(
       break;
     }
     matched->emplace_back(std::move(key));
-    iter->Next();
+    status = iter->Next();
+    if (status != Status::SUCCESS) {
+      return status;
+    }
   }
   return Status(Status::SUCCESS);
 }
diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index a86bc1b..7947a80 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -861,6 +861,9 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     } else {
       heap_.pop_back();
+      if (get_status != Status::NOT_FOUND_ERROR) {
+        return get_status;
+      }
     }
   }
   return status;
@@ -907,6 +910,9 @@ Status ShardDBM::Iterator::Remove(std::string* old_key, std::string* old_value)
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     } else {
       heap_.pop_back();
+      if (get_status != Status::NOT_FOUND_ERROR) {
+        return get_status;
+      }
     }
   }
   return status;
diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 1edab0c..65a00a8 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -142,7 +142,10 @@ Status MessageQueueImpl::Open(
     std::vector<std::string> file_paths;
     if (MessageQueue::FindFiles(prefix, &file_paths) == Status::SUCCESS) {
       for (const auto& path : file_paths) {
-        RemoveFile(path);
+        const Status status = RemoveFile(path);
+        if (status != Status::SUCCESS) {
+          return status;
+        }
       }
     }
   }
-- 
2.43.0


From 9f13f050c50e14ae3ebaa680cb8b73edaaa68e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:05 +0000
Subject: [PATCH 15/39] fix: check the statuses before replacing the file by
 the sorted file in FinishStorage of SkipDBM

---
 tkrzw_dbm_skip.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index fa1724e..63f6e72 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1275,8 +1275,11 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
       !record_sorter_->IsUpdated()) {
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
-    status |= SaveMetadata(sorted_file_.get(), true);
-    file_->DisablePathOperations();
+    status = SaveMetadata(sorted_file_.get(), true);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+    status = file_->DisablePathOperations();
     if (IS_POSIX) {
       status |= sorted_file_->Rename(path_);
       status |= file_->Close();
-- 
2.43.0


From 18915c9cef7a43fbae8a55e0d1f2de4ac4886920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:34 +0000
Subject: [PATCH 16/39] fix: refuse writable iterator processing on read-only
 or unhealthy databases

The iterators of the hash, tree and skip databases processed records in the
writable mode without checking whether the database is writable.  The tree
iterator modified cached pages of a read-only database and the skip iterator
dereferenced the record sorter which does not exist.
---
 tkrzw_dbm_hash.cc | 8 ++++++++
 tkrzw_dbm_skip.cc | 6 ++++++
 tkrzw_dbm_tree.cc | 8 ++++++++
 3 files changed, 22 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 1987b99..08bca18 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -2364,6 +2364,14 @@ Status HashDBMIteratorImpl::Next() {
 
 Status HashDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+  if (writable) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   const Status status = ReadKeys();
   if (status != Status::SUCCESS) {
     return status;
diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 63f6e72..2180392 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1700,6 +1700,12 @@ Status SkipDBMIteratorImpl::Previous() {
 Status SkipDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   if (writable) {
     std::lock_guard<SpinSharedMutex> lock(dbm_->mutex_);
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
     if (record_offset_ < 0 || record_offset_ >= dbm_->file_->GetSizeSimple()) {
       return Status(Status::NOT_FOUND_ERROR);
     }
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 32da9f8..83cbdb4 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2278,6 +2278,14 @@ Status TreeDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
     }
   }
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+  if (writable) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   if (key_ptr_ == nullptr) {
     return Status(Status::NOT_FOUND_ERROR);
   }
-- 
2.43.0


From 8537594e25a4b676034c66a056b4f0485750527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:34 +0000
Subject: [PATCH 17/39] fix: BabyDBM::ProcessFirst does not modify the record
 in the read-only mode

The record was updated while only the shared page lock was held.
---
 tkrzw_dbm_baby.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 5183371..0248238 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -497,7 +497,7 @@ Status BabyDBMImpl::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
       std::shared_lock<SpinSharedMutex> page_lock(leaf_node->mutex);
       if (!leaf_node->records.empty()) {
         const std::string key(leaf_node->records.front()->GetKey());
-        ProcessImpl(leaf_node, key, proc, true);
+        ProcessImpl(leaf_node, key, proc, false);
         return Status(Status::SUCCESS);
       }
     }
-- 
2.43.0


From bb235e74a62ac33214ab1425e660fd2987d88e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 18/39] fix: close the file if MessageQueue::Open fails

The queue was taken as opened although last_file_ was not set, so that Open
could not be retried and Write dereferenced a null pointer.
---
 tkrzw_message_queue.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 65a00a8..14342fc 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -189,6 +189,7 @@ Status MessageQueueImpl::Open(
   status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
                         &check_file_size);
   if (status != Status::SUCCESS) {
+    files_.clear();
     return status;
   }
   if (cyclic_magic_ < 0) {
@@ -197,6 +198,7 @@ Status MessageQueueImpl::Open(
       status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
                             &check_file_size);
       if (status != Status::SUCCESS) {
+        files_.clear();
         return status;
       }
     }
@@ -211,6 +213,7 @@ Status MessageQueueImpl::Open(
     if (options & MessageQueue::OPEN_IGNORE_BROKEN) {
       check_file_size = -1;
     } else {
+      files_.clear();
       return status;
     }
   }
@@ -239,6 +242,7 @@ Status MessageQueueImpl::Open(
     }
   }
   if (status != Status::SUCCESS) {
+    files_.clear();
     return status;
   }
   last_file_ = last_file;
-- 
2.43.0


From 170f147be5aa592ef95a268a5555d1f3dc7b9fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 19/39] fix: discard the shards if ShardDBM::OpenAdvanced fails

The next call of OpenAdvanced added further shards to the remaining ones and
used wrong file names.
---
 tkrzw_dbm_shard.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 7947a80..f183886 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -104,6 +104,7 @@ Status ShardDBM::OpenAdvanced(
       for (int32_t j = i - 1; j >= 0; j--) {
         dbms_[j]->Close();
       }
+      dbms_.clear();
       return status;
     }
   }
@@ -118,6 +119,7 @@ Status ShardDBM::OpenAdvanced(
     for (int32_t i = dbms_.size() - 1; i >= 0; i--) {
       dbms_[i]->Close();
     }
+    dbms_.clear();
     return status;
   }
   open_ = true;
-- 
2.43.0


From 37e7478376e353895075940512635d4186c9ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 20/39] fix: refuse ProcessFirst and CompareExchangeMulti on a
 closed ShardDBM

They accessed the first element of the empty list of shards and calculated
the remainder of a division by zero.
---
 tkrzw_dbm_shard.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index f183886..8e4add8 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -199,6 +199,9 @@ Status ShardDBM::Append(std::string_view key, std::string_view value, std::strin
 
 Status ShardDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
   assert(proc != nullptr);
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   std::unique_ptr<ShardDBM::Iterator> iter(new Iterator(&dbms_));
   Status status = iter->First();
   if (status != Status::SUCCESS) {
@@ -254,6 +257,9 @@ Status ShardDBM::ProcessMulti(
 Status ShardDBM::CompareExchangeMulti(
     const std::vector<std::pair<std::string_view, std::string_view>>& expected,
     const std::vector<std::pair<std::string_view, std::string_view>>& desired) {
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   typedef std::pair<std::string_view, std::string_view> Condition;
   typedef std::pair<std::vector<Condition>, std::vector<Condition>> ConditionListPair;
   std::map<int32_t, ConditionListPair> shard_conditions;
-- 
2.43.0


From 6d5d7b9a0b0eae677b290cca0bfa09629f0cb6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 21/39] fix: refuse ProcessMulti on a closed PolyDBM

It dereferenced the null pointer of the internal database.
---
 tkrzw_dbm_poly.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index b147305..a47179d 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -633,6 +633,9 @@ Status PolyDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
 Status PolyDBM::ProcessMulti(
     const std::vector<std::pair<std::string_view, RecordProcessor*>>& key_proc_pairs,
     bool writable) {
+  if (dbm_ == nullptr) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   return dbm_->ProcessMulti(key_proc_pairs, writable);
 }
 
-- 
2.43.0


From c7f3a2605c022d4be2f8b807aef8e96b42449551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 22/39] fix: do not append or log the removal of an already
 removed record in HashDBM

---
 tkrzw_dbm_hash.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 08bca18..b04f2bd 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1471,7 +1471,8 @@ Status HashDBMImpl::ProcessImpl(
       if (new_value.data() == nullptr) {
         return Status(Status::BROKEN_DATA_ERROR, "record processing failed");
       }
-      if (new_value.data() != DBM::RecordProcessor::NOOP.data() && writable) {
+      if (new_value.data() != DBM::RecordProcessor::NOOP.data() &&
+          (old_is_set || new_value.data() != DBM::RecordProcessor::REMOVE.data()) && writable) {
         if (update_logger_ != nullptr) {
           if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
             status = update_logger_->WriteRemove(key);
-- 
2.43.0


From 081ceae0a9342796da78eb81b02e582c8c03a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 23/39] fix: SkipDBM::Set with old_value overwrites the record
 if overwriting is requested

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 2180392..0d2a961 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1826,7 +1826,7 @@ Status SkipDBM::Set(std::string_view key, std::string_view value, bool overwrite
   if (overwrite && old_value == nullptr) {
     return impl_->Insert(key, value);
   }
-  return DBM::Set(key, value, false, old_value);
+  return DBM::Set(key, value, overwrite, old_value);
 }
 
 Status SkipDBM::Remove(std::string_view key, std::string* old_value) {
-- 
2.43.0


From ebbc124d1be4a430443ddb47ee951132f390f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 24/39] fix: take the record locks in the read-only
 ProcessFirst and ProcessEach of TinyDBM

---
 tkrzw_dbm_tiny.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index 87f7a06..35d326e 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -328,6 +328,10 @@ Status TinyDBMImpl::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
+      ScopedHashLock record_lock(record_mutex_, bucket_index, false);
+      if (record_lock.GetBucketIndex() < 0) {
+        break;
+      }
       char* ptr = buckets_[bucket_index];
       if (ptr != nullptr) {
         rec.Deserialize(ptr);
@@ -358,6 +362,7 @@ Status TinyDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
   } else {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
+    ScopedHashLock record_lock(record_mutex_, false);
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
-- 
2.43.0


From f1613e2f893b69cbeb9aaf223dc7e3549b66ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:34 +0000
Subject: [PATCH 25/39] fix: read the last leaf node ID of TreeDBM from its own
 field

---
 tkrzw_dbm_tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 83cbdb4..791c378 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2782,7 +2782,7 @@ Status TreeDBM::ParseMetadata(
   *eff_data_size = ReadFixNum(rp + META_OFFSET_EFF_DATA_SIZE, 6);
   *root_id = ReadFixNum(rp + META_OFFSET_ROOT_ID, 6);
   *first_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
-  *last_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
+  *last_id = ReadFixNum(rp + META_OFFSET_LAST_ID, 6);
   *num_leaf_nodes = ReadFixNum(rp + META_OFFSET_NUM_LEAF_NODES, 6);
   *num_inner_nodes = ReadFixNum(rp + META_OFFSET_NUM_INNER_NODES, 6);
   *max_page_size = ReadFixNum(rp + META_OFFSET_MAX_PAGE_SIZE, 3);
-- 
2.43.0


From c0c6ab652335d9887088ae0dbc31099ad5ad8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:44 +0000
Subject: [PATCH 26/39] fix: do not lose wakeups of threads which wait for
 TaskQueue and WaitCounter

---
 tkrzw_thread_util.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index e769097..725f097 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -1520,7 +1520,10 @@ inline void TaskQueue::Stop(double timeout) {
     cond_.notify_all();
     SleepThread(0.01);
   }
-  running_.store(false);
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    running_.store(false);
+  }
   cond_.notify_all();
   for (auto& thread : threads_) {
     thread.join();
@@ -1557,6 +1560,7 @@ inline int32_t WaitCounter::Get() const {
 }
 
 inline void WaitCounter::Done(int32_t decrement) {
+  std::lock_guard<std::mutex> lock(mutex_);
   if (count_.fetch_sub(decrement) <= decrement) {
     cond_.notify_all();
   }
-- 
2.43.0


From 9c65b5f0618db02cfabe483c2cf7445c6d689fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 27/39] fix: wake the right threads by signals of SignalBroker
 and KeySignalBroker to one thread

---
 tkrzw_thread_util.h | 82 +++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 36 deletions(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index 725f097..7e4064b 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -18,6 +18,7 @@
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <map>
 #include <queue>
 #include <set>
 #include <shared_mutex>
@@ -904,9 +905,11 @@ class SignalBroker final {
   bool Send(bool all = true);
 
  private:
-  /** The number of waiting threads. */
-  int32_t wait_count_;
-  /** The mutex to guard the counter. */
+  /** The IDs of the waiting threads, in the order of waiting. */
+  std::set<int64_t> wait_ids_;
+  /** The ID of the last waiting thread. */
+  int64_t last_wait_id_;
+  /** The mutex to guard the IDs. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
@@ -972,9 +975,11 @@ class KeySignalBroker final {
   bool Send(const KEYTYPE& key, bool all = true);
 
  private:
-  /** The set of event keys and the wait count. */
-  std::map<KEYTYPE, int32_t> counts_;
-  /** The mutex to guard the counter. */
+  /** The event keys and the IDs of the waiting threads, in the order of waiting. */
+  std::map<KEYTYPE, std::set<int64_t>> wait_ids_;
+  /** The ID of the last waiting thread. */
+  int64_t last_wait_id_;
+  /** The mutex to guard the IDs. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
@@ -1584,22 +1589,23 @@ inline bool WaitCounter::Wait(double timeout) {
   return true;
 }
 
-inline SignalBroker::SignalBroker() : wait_count_(false), mutex_(), cond_(), notify_mutex_() {}
+inline SignalBroker::SignalBroker()
+    : wait_ids_(), last_wait_id_(0), mutex_(), cond_(), notify_mutex_() {}
 
 inline bool SignalBroker::Send(bool all) {
   {
     std::lock_guard<std::mutex> lock(mutex_);
-    if (wait_count_ == 0) {
+    if (wait_ids_.empty()) {
       return false;
     }
-    wait_count_ = 0;
+    if (all) {
+      wait_ids_.clear();
+    } else {
+      wait_ids_.erase(wait_ids_.begin());
+    }
   }
   std::lock_guard lock(notify_mutex_);
-  if (all) {
-    cond_.notify_all();
-  } else {
-    cond_.notify_one();
-  }
+  cond_.notify_all();
   return true;
 }
 
@@ -1618,17 +1624,14 @@ inline bool SignalBroker::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->wait_count_++;
-  while (broker_->wait_count_ != 0) {
+  const int64_t wait_id = ++broker_->last_wait_id_;
+  broker_->wait_ids_.emplace(wait_id);
+  while (broker_->wait_ids_.find(wait_id) != broker_->wait_ids_.end()) {
     broker_->notify_mutex_.unlock_shared();
     auto wait_rv = broker_->cond_.wait_until(lock, deadline);
     broker_->notify_mutex_.lock_shared();
     if (wait_rv == std::cv_status::timeout) {
-      if (broker_->wait_count_ == 0) {
-        return true;
-      }
-      broker_->wait_count_--;
-      return false;
+      return broker_->wait_ids_.erase(wait_id) == 0;
     }
   }
   return true;
@@ -1636,22 +1639,25 @@ inline bool SignalBroker::Waiter::Wait(double timeout) {
 
 template<typename KEYTYPE>
 inline KeySignalBroker<KEYTYPE>::KeySignalBroker()
-    : counts_(), mutex_(), cond_(), notify_mutex_() {}
+    : wait_ids_(), last_wait_id_(0), mutex_(), cond_(), notify_mutex_() {}
 
 template<typename KEYTYPE>
 inline bool KeySignalBroker<KEYTYPE>::Send(const KEYTYPE& key, bool all) {
   {
     std::lock_guard<std::mutex> lock(mutex_);
-    if (counts_.erase(key) == 0) {
+    auto it = wait_ids_.find(key);
+    if (it == wait_ids_.end()) {
       return false;
     }
+    if (!all) {
+      it->second.erase(it->second.begin());
+    }
+    if (all || it->second.empty()) {
+      wait_ids_.erase(it);
+    }
   }
   std::lock_guard lock(notify_mutex_);
-  if (all) {
-    cond_.notify_all();
-  } else {
-    cond_.notify_one();
-  }
+  cond_.notify_all();
   return true;
 }
 
@@ -1674,20 +1680,24 @@ inline bool KeySignalBroker<KEYTYPE>::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->counts_[key_]++;
-  while (broker_->counts_.find(key_) != broker_->counts_.end()) {
+  const int64_t wait_id = ++broker_->last_wait_id_;
+  broker_->wait_ids_[key_].emplace(wait_id);
+  const auto is_waiting = [&]() {
+    const auto it = broker_->wait_ids_.find(key_);
+    return it != broker_->wait_ids_.end() && it->second.find(wait_id) != it->second.end();
+  };
+  while (is_waiting()) {
     broker_->notify_mutex_.unlock_shared();
     auto wait_rv = broker_->cond_.wait_until(lock, deadline);
     broker_->notify_mutex_.lock_shared();
     if (wait_rv == std::cv_status::timeout) {
-      auto it = broker_->counts_.find(key_);
-      if (it == broker_->counts_.end()) {
+      if (!is_waiting()) {
         return true;
       }
-      if (it->second > 1) {
-        it->second--;
-      } else {
-        broker_->counts_.erase(it);
+      auto it = broker_->wait_ids_.find(key_);
+      it->second.erase(wait_id);
+      if (it->second.empty()) {
+        broker_->wait_ids_.erase(it);
       }
       return false;
     }
-- 
2.43.0


From 1556183b0f190cc807573b3bebcddac94406827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:15 +0000
Subject: [PATCH 28/39] fix: HashDBM::Open restores encrypted databases with
 the cipher key, not with the one cleared by CloseImpl

---
 tkrzw_dbm_hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index b04f2bd..354eeaa 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -338,7 +338,7 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
       const std::string tmp_path = path_ + ".tmp.restore";
       const int64_t end_offset = restore_mode == HashDBM::RESTORE_SYNC ? 0 : -1;
       RemoveFile(tmp_path);
-      status = HashDBM::RestoreDatabase(path_, tmp_path, end_offset, cipher_key_);
+      status = HashDBM::RestoreDatabase(path_, tmp_path, end_offset, tuning_params.cipher_key);
       if (status != Status::SUCCESS) {
         RemoveFile(tmp_path);
         return status;
-- 
2.43.0


From 6c1ad21217f434adc7cb22b7c08a2064fc58a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:15 +0000
Subject: [PATCH 29/39] fix: HashDBM::Open does not stay marked as open when
 truncation for restoration fails

---
 tkrzw_dbm_hash.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 354eeaa..548ea45 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -306,6 +306,7 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
       if (null_end_offset > 0) {
         status = file_->Truncate(null_end_offset);
         if (status != Status::SUCCESS) {
+          CloseImpl();
           file_->Close();
           return status;
         }
@@ -325,6 +326,7 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
       if (null_end_offset > 0) {
         status = file_->Truncate(null_end_offset);
         if (status != Status::SUCCESS) {
+          CloseImpl();
           file_->Close();
           return status;
         }
-- 
2.43.0


From dad89b739fb0cb7f32734874862b2547a690e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:15 +0000
Subject: [PATCH 30/39] fix: SkipDBM::Open closes the file when starting to
 write fails

---
 tkrzw_dbm_skip.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 0d2a961..2c4c30b 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -341,11 +341,13 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
     status = SaveMetadata(file_.get(), false);
     if (status != Status::SUCCESS) {
       path_ .clear();
+      file_->Close();
       return status;
     }
     status = PrepareStorage();
     if (status != Status::SUCCESS) {
       path_ .clear();
+      file_->Close();
       return status;
     }
   }
-- 
2.43.0


From 2d9b7853fddbe688c66d1d97791f302311b686bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:22 +0000
Subject: [PATCH 31/39] fix: PolyDBM::Open does not stay marked as open when
 the update logger cannot be opened

---
 tkrzw_dbm_poly.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index a47179d..1ec7d30 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -559,6 +559,7 @@ Status PolyDBM::OpenAdvanced(
     ulog_.reset(nullptr);
     ulog_mq_.reset(nullptr);
     dbm_.reset(nullptr);
+    open_ = false;
     return status;
   }
   if (ulog_ != nullptr) {
-- 
2.43.0


From 0947be094a651fe3009757a10a12fb29c0e8e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:16 +0000
Subject: [PATCH 32/39] fix: HashDBM::Rebuild keeps using the original file
 when the rebuilt one cannot be renamed

---
 tkrzw_dbm_hash.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 548ea45..1840eb2 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1801,10 +1801,17 @@ Status HashDBMImpl::RebuildImpl(
         return status;
       }
     }
+    if (IS_POSIX) {
+      status = tmp_file->Rename(path_);
+      if (status != Status::SUCCESS) {
+        tmp_file->Close();
+        CleanUp();
+        return status;
+      }
+    }
     fbp_.Clear();
     status = file_->DisablePathOperations();
     if (IS_POSIX) {
-      status |= tmp_file->Rename(path_);
       status |= file_->Close();
     } else {
       status |= file_->Close();
-- 
2.43.0


From f759d01e1291feba0df599777d15610e12736a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:16 +0000
Subject: [PATCH 33/39] fix: SkipDBM::Rebuild keeps using the original file
 when the rebuilt one cannot be renamed

---
 tkrzw_dbm_skip.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 2c4c30b..ff96153 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -835,7 +835,12 @@ Status SkipDBMImpl::Rebuild(
     return status;
   }
   if (IS_POSIX) {
-    status |= rebuild_file->Rename(path_);
+    status = rebuild_file->Rename(path_);
+    if (status != Status::SUCCESS) {
+      rebuild_file->Close();
+      CleanUp();
+      return status;
+    }
     status |= file_->Close();
   } else {
     status |= file_->Close();
-- 
2.43.0


From 5e7b7d7987fa776538e0ab23de413b9eaf07d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:16 +0000
Subject: [PATCH 34/39] fix: WriteFileAtomic removes the temporary file when
 writing it fails

---
 tkrzw_file_util.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index 464b7b1..db9d895 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -305,6 +305,7 @@ Status WriteFileAtomic(const std::string& path, std::string_view content,
   const std::string& mod_tmp_path = tmp_path.empty() ? path + ".tmp" : tmp_path;
   Status status = WriteFile(mod_tmp_path, content);
   if (status != Status::SUCCESS) {
+    RemoveFile(mod_tmp_path);
     return status;
   }
   status = RenameFile(mod_tmp_path, path);
-- 
2.43.0


From 3947c118ee8c9fe13f8e4b035680eaed68333517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 35/39] fix: SkipDBM removes the temporary merged file when
 finishing the storage fails

---
 tkrzw_dbm_skip.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index ff96153..02cec44 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1317,12 +1317,18 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     if (status != Status::SUCCESS) {
       return status;
     }
+    auto CleanUp = [&]() {
+      merged_file->Close();
+      RemoveFile(merged_path);
+    };
     status = merged_file->Open(merged_path, true, File::OPEN_TRUNCATE);
     if (status != Status::SUCCESS) {
+      CleanUp();
       return status;
     }
     status = merged_file->Truncate(METADATA_SIZE);
     if (status != Status::SUCCESS) {
+      CleanUp();
       return status;
     }
     num_records_ = 0;
@@ -1337,6 +1343,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
       tkrzw::Status status = record_sorter_->Get(&key, &value);
       if (status != tkrzw::Status::SUCCESS) {
         if (status != tkrzw::Status::NOT_FOUND_ERROR) {
+          CleanUp();
           return status;
         }
         break;
@@ -1344,6 +1351,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
       if (reducer == nullptr && !removed_) {
         status = WriteRecord(key, value, merged_file.get());
         if (status != Status::SUCCESS) {
+          CleanUp();
           return status;
         }
       } else {
@@ -1361,6 +1369,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
             for (const auto& new_value : new_values) {
               status = WriteRecord(last_key, new_value, merged_file.get());
               if (status != Status::SUCCESS) {
+                CleanUp();
                 return status;
               }
             }
@@ -1380,6 +1389,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
         for (const auto& new_value : new_values) {
           status = WriteRecord(last_key, new_value, merged_file.get());
           if (status != Status::SUCCESS) {
+            CleanUp();
             return status;
           }
         }
@@ -1389,6 +1399,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     timestamp_ = GetWallTime() * 1000000;
     status = SaveMetadata(merged_file.get(), true);
     if (status != Status::SUCCESS) {
+      CleanUp();
       return status;
     }
     status = file_->DisablePathOperations();
@@ -1400,6 +1411,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
       status |= merged_file->Rename(path_);
     }
     if (status != Status::SUCCESS) {
+      CleanUp();
       return status;
     }
     file_ = std::move(merged_file);
-- 
2.43.0


From cd836dd93a1eb2a3c38be218f7aaf2816d0c8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 36/39] fix: SkipDBM::Close discards the sorted file even if
 finishing the storage fails

---
 tkrzw_dbm_skip.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 02cec44..cb46753 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -377,6 +377,11 @@ Status SkipDBMImpl::Close() {
       status |= SaveMetadata(file_.get(), true);
     }
   }
+  if (sorted_file_ != nullptr) {
+    sorted_file_->Close();
+    RemoveFile(path_ + SORTED_FILE_SUFFIX);
+    sorted_file_.reset(nullptr);
+  }
   status |= file_->Close();
   open_ = false;
   writable_ = false;
-- 
2.43.0


From 2b541d9dd2948fe0c4368fb97e87206e6b1bd8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:34 +0000
Subject: [PATCH 37/39] fix: SkipDBM::Close reports failures of discarding the
 sorted file

---
 tkrzw_dbm_skip.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index cb46753..2bd5c23 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -378,9 +378,7 @@ Status SkipDBMImpl::Close() {
     }
   }
   if (sorted_file_ != nullptr) {
-    sorted_file_->Close();
-    RemoveFile(path_ + SORTED_FILE_SUFFIX);
-    sorted_file_.reset(nullptr);
+    status |= DiscardStorage();
   }
   status |= file_->Close();
   open_ = false;
-- 
2.43.0


From 85daec99ba4d06f772c8581ef9f72f981165ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:33 +0000
Subject: [PATCH 38/39] fix: Rebuild marks the database unhealthy if the new
 metadata cannot be loaded

---
 tkrzw_dbm_hash.cc | 6 +++++-
 tkrzw_dbm_skip.cc | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 1840eb2..d6bf649 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1844,7 +1844,11 @@ Status HashDBMImpl::RebuildImpl(
     if (!tuning_params.cipher_key.empty()) {
       cipher_key_ = tuning_params.cipher_key;
     }
-    status |= OpenImpl(true);
+    const Status open_status = OpenImpl(true);
+    if (open_status != Status::SUCCESS) {
+      healthy_ = false;
+    }
+    status |= open_status;
     db_type_ = db_type;
     opaque_ = opaque;
   }
diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 2bd5c23..e21c1aa 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -862,7 +862,12 @@ Status SkipDBMImpl::Rebuild(
   file_ = std::move(rebuild_file);
   const uint32_t db_type = db_type_;
   const std::string opaque = opaque_;
-  status |= LoadMetadata();
+  const Status load_status = LoadMetadata();
+  status |= load_status;
+  if (load_status != Status::SUCCESS) {
+    healthy_ = false;
+    return status;
+  }
   db_type_ = db_type;
   opaque_ = opaque;
   file_size_ = file_->GetSizeSimple();
-- 
2.43.0


From 275256d0f5ca7ebe84cd71f1aa669e04d67f1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:22 +0000
Subject: [PATCH 39/39] fix: truncate an opened file only after its lock is
 held

Open with OPEN_TRUNCATE gave O_TRUNC to open(2), so the contents of a file
locked by another process were destroyed before the lock was asked for, even
if the lock was then refused (OPEN_NO_WAIT).
---
 tkrzw_file_mmap.cc | 26 ++++++++++++++++++--------
 tkrzw_file_pos.cc  | 26 ++++++++++++++++++--------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index 1c1724b..06f96df 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -110,9 +110,6 @@ Status MemoryMapParallelFileImpl::Open(
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   const int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
@@ -147,7 +144,15 @@ Status MemoryMapParallelFileImpl::Open(
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "not a regular file");
   }
-  const int64_t file_size = sbuf.st_size;
+  int64_t file_size = sbuf.st_size;
+  if (writable && (options & File::OPEN_TRUNCATE)) {
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+    file_size = 0;
+  }
   if (file_size > MAX_MEMORY_SIZE) {
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "too large file");
@@ -677,9 +682,6 @@ Status MemoryMapAtomicFileImpl::Open(
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   const int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
@@ -714,7 +716,15 @@ Status MemoryMapAtomicFileImpl::Open(
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "not a regular file");
   }
-  const int64_t file_size = sbuf.st_size;
+  int64_t file_size = sbuf.st_size;
+  if (writable && (options & File::OPEN_TRUNCATE)) {
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+    file_size = 0;
+  }
   if (file_size > MAX_MEMORY_SIZE) {
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "too large file");
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index a4e472d..3d0aa96 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -132,9 +132,6 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   if (access_options_ & PositionalFile::ACCESS_DIRECT) {
     SetDirectAccessToOpenFlag(&oflags);
@@ -179,7 +176,15 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "not a regular file");
   }
-  const int64_t file_size = sbuf.st_size;
+  int64_t file_size = sbuf.st_size;
+  if (writable && (options & File::OPEN_TRUNCATE)) {
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+    file_size = 0;
+  }
   if (file_size > MAX_MEMORY_SIZE) {
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "too large file");
@@ -831,9 +836,6 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   if (access_options_ & PositionalFile::ACCESS_DIRECT) {
     SetDirectAccessToOpenFlag(&oflags);
@@ -875,7 +877,15 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "not a regular file");
   }
-  const int64_t file_size = sbuf.st_size;
+  int64_t file_size = sbuf.st_size;
+  if (writable && (options & File::OPEN_TRUNCATE)) {
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+    file_size = 0;
+  }
   if (file_size > MAX_MEMORY_SIZE) {
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "too large file");
-- 
2.43.0

