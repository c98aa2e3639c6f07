From 5f955c1b8c9ccb058753b2ca7f7577401aae7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 01/37] fix: MMQ must check the timestamp after waiting for a
 free slot, not before

---
 blocks/mmq/mmq.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 0b33429..b702d93 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -212,10 +212,6 @@ class MMQImpl {
     if (destructing_) {
       return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
     }
-    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
-    if (!(timestamp > last_idx_ts_.us)) {
-      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
-    }
     while (circular_buffer_[head_].status != Entry::FREE) {
       // Waiting for the next empty slot in the buffer.
       condition_variable_.wait(lock,
@@ -224,9 +220,16 @@ class MMQImpl {
         return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
       }
     }
+    // NOTE: The timestamp must be obtained and checked after the wait, as other messages may have been added meanwhile.
+    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
+    if (!(timestamp > last_idx_ts_.us)) {
+      // Pass the free slot on, as the notification about it may have been "consumed" by this very call.
+      condition_variable_.notify_all();
+      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
+    }
     const size_t index = head_;
     ++last_idx_ts_.index;
-    last_idx_ts_.us = timestamp.count() >= 0 ? timestamp : current::time::Now();
+    last_idx_ts_.us = timestamp;
     Increment(head_);
     circular_buffer_[index].status = Entry::BEING_IMPORTED;
     circular_buffer_[index].index_timestamp = last_idx_ts_;
-- 
2.43.0


From 5f585b05f43c7a800510fa1c014842a471cb811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 02/37] fix: MMQ publisher must not read the slot after
 committing it to the consumer

---
 blocks/mmq/mmq.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index b702d93..7df3cab 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -103,8 +103,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = message;
+      // Once committed, the slot belongs to the consumer, and may well be reused by the time this call returns.
+      const idxts_t result = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return result;
     } else {
       return idxts_t();
     }
@@ -115,8 +117,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = std::move(message);
+      // Once committed, the slot belongs to the consumer, and may well be reused by the time this call returns.
+      const idxts_t result = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return result;
     } else {
       return idxts_t();
     }
-- 
2.43.0


From cf10e9a0e77fa403d5a51c1fe650bcab80f0e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 03/37] fix: MMQ must deliver the already accepted messages
 before its destructor returns

---
 blocks/mmq/mmq.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 7df3cab..16df6f7 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -148,7 +148,8 @@ class MMQImpl {
         std::unique_lock<std::mutex> lock(mutex_);
         condition_variable_.wait(
             lock, [this, tail] { return (circular_buffer_[tail].status == Entry::READY) || destructing_; });
-        if (destructing_) {
+        if (circular_buffer_[tail].status != Entry::READY) {
+          // Destructing, and all the queued messages have been processed.
           return;  // LCOV_EXCL_LINE
         }
         circular_buffer_[tail].status = Entry::BEING_EXPORTED;
-- 
2.43.0


From 0cb824f4f6d0e73958022fcf86a271bf5cb2309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 04/37] fix: MMPQ must not drop a message published with the
 timestamp of another queued message

---
 blocks/mmq/mmpq.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index 879ff74..ba67968 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -135,7 +135,11 @@ class MMPQImpl {
     Entry(Entry&&) = default;
     Entry(message_t&& message_body, idxts_t index_timestamp)
         : index_timestamp(index_timestamp), message_body(std::move(message_body)) {}
-    bool operator<(const Entry& rhs) const { return index_timestamp.us < rhs.index_timestamp.us; }
+    bool operator<(const Entry& rhs) const {
+      // Several messages with the same timestamp are all kept, in the order in which they were published.
+      return index_timestamp.us != rhs.index_timestamp.us ? index_timestamp.us < rhs.index_timestamp.us
+                                                          : index_timestamp.index < rhs.index_timestamp.index;
+    }
   };
 
   std::set<Entry> queue_;
-- 
2.43.0


From ffed2a6c0c946e2bcf23814e038c5d5b9813080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 05/37] fix: MMPQ must deliver the messages up to the head
 before its destructor returns

---
 blocks/mmq/mmpq.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index ba67968..2bf6cea 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -112,7 +112,8 @@ class MMPQImpl {
         return (!queue_.empty() && queue_.begin()->index_timestamp.us <= last_idx_ts_.us) || destructing_;
       });
 
-      if (destructing_) {
+      if (queue_.empty() || !(queue_.begin()->index_timestamp.us <= last_idx_ts_.us)) {
+        // Destructing, and all the messages up to the head have been processed.
         return;  // LCOV_EXCL_LINE
       }
 
-- 
2.43.0


From 3ad77af81abefc705e1ca39cdcb07a3b628c0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 06/37] fix: file persister must serialize the entry before
 changing its state, as serialization may throw

---
 blocks/persistence/file.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index f74387d..b9b8cef 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -453,15 +453,17 @@ class FilePersister {
     const auto idxts = idxts_t(iterator.next_index, iterator.last_entry_us);
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == iterator.next_index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == iterator.next_index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
-    file_persister_impl_->record_timestamp_.push_back(timestamp);
 
     // Explicit `MakeSureTheRightTypeIsSerialized` is essential, otherwise the `Variant`'s case
     // would be serialized in an unwrapped way when passed directly.
-    file_persister_impl_->file_appender_ << JSON(idxts) << '\t'
-                                         << JSON(MakeSureTheRightTypeIsSerialized<ENTRY, decay_t<E>>::DoIt(
-                                                std::forward<E>(entry)))
-                                         << std::endl;
+    // Serialize before touching the state of the persister, as the serialization may throw.
+    const std::string line =
+        JSON(idxts) + '\t' +
+        JSON(MakeSureTheRightTypeIsSerialized<ENTRY, decay_t<E>>::DoIt(std::forward<E>(entry)));
+    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
+    file_persister_impl_->record_timestamp_.push_back(timestamp);
+
+    file_persister_impl_->file_appender_ << line << std::endl;
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
-- 
2.43.0


From 7f37e87aee274d1944cbe80e78bb3088310e12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 07/37] fix: file persister must not report an entry or a head
 it failed to write as published

---
 blocks/persistence/file.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index b9b8cef..3d887f6 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -460,10 +460,14 @@ class FilePersister {
     const std::string line =
         JSON(idxts) + '\t' +
         JSON(MakeSureTheRightTypeIsSerialized<ENTRY, decay_t<E>>::DoIt(std::forward<E>(entry)));
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
+    const std::streampos offset = file_persister_impl_->file_appender_.tellp();
+    file_persister_impl_->file_appender_ << line << std::endl;
+    if (!file_persister_impl_->file_appender_.good()) {
+      CURRENT_THROW(PersistenceFileNotWritable(file_persister_impl_->filename_));
+    }
+    file_persister_impl_->record_offset_.push_back(offset);
     file_persister_impl_->record_timestamp_.push_back(timestamp);
 
-    file_persister_impl_->file_appender_ << line << std::endl;
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -491,10 +495,14 @@ class FilePersister {
     iterator.last_entry_us = iterator.head = idxts.us;
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == idxts.index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == idxts.index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
+    const std::streampos offset = file_persister_impl_->file_appender_.tellp();
+    file_persister_impl_->file_appender_ << raw_log_line << std::endl;
+    if (!file_persister_impl_->file_appender_.good()) {
+      CURRENT_THROW(PersistenceFileNotWritable(file_persister_impl_->filename_));
+    }
+    file_persister_impl_->record_offset_.push_back(offset);
     file_persister_impl_->record_timestamp_.push_back(idxts.us);
 
-    file_persister_impl_->file_appender_ << raw_log_line << std::endl;
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -517,11 +525,18 @@ class FilePersister {
       auto& rewriter = file_persister_impl_->head_rewriter_;
       rewriter.seekp(file_persister_impl_->head_offset_, std::ios_base::beg);
       rewriter << head_str << std::endl;
+      if (!rewriter.good()) {
+        CURRENT_THROW(PersistenceFileNotWritable(file_persister_impl_->filename_));
+      }
     } else {
       auto& file_appender_ = file_persister_impl_->file_appender_;
       file_appender_ << constants::kHeadDirective << ' ';
-      file_persister_impl_->head_offset_ = file_appender_.tellp();
+      const std::streampos head_offset = file_appender_.tellp();
       file_appender_ << head_str << std::endl;
+      if (!file_appender_.good()) {
+        CURRENT_THROW(PersistenceFileNotWritable(file_persister_impl_->filename_));
+      }
+      file_persister_impl_->head_offset_ = head_offset;
     }
     file_persister_impl_->end_.store(iterator);
   }
-- 
2.43.0


From ffeb536f1c435308ae39f10dd352177e018781cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 08/37] fix: file persister must throw if its file can not be
 opened for writing

---
 blocks/persistence/file.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 3d887f6..fee8848 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -176,10 +176,11 @@ class FilePersister {
           head_rewriter_(filename, std::ofstream::in | std::ofstream::out),
           publish_mutex_ref_(publish_mutex_ref),
           head_offset_(0) {
-      ValidateFileAndInitializeHead(namespace_name);
-      if (file_appender_.bad() || head_rewriter_.bad()) {
+      // NOTE: A failure to open the file sets the `failbit`, not the `badbit`.
+      if (!file_appender_.good() || !head_rewriter_.good()) {
         CURRENT_THROW(PersistenceFileNotWritable(filename));
       }
+      ValidateFileAndInitializeHead(namespace_name);
     }
 
     // Replay the file but ignore its contents. Used to initialize `end_` at startup.
-- 
2.43.0


From 018a0f3381fbb02de64c344f167b186fac877f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 09/37] fix: unsafe file iterator must not read the offsets of
 the persister while they may be appended to

---
 blocks/persistence/file.h | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index fee8848..d543fe0 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -346,8 +346,8 @@ class FilePersister {
                    const std::string& filename,
                    uint64_t i,
                    std::streampos offset,
-                   uint64_t)
-        : file_persister_impl_(std::move(file_persister_impl)), i_(i), current_offset_(offset) {
+                   uint64_t index_at_offset)
+        : file_persister_impl_(std::move(file_persister_impl)), i_(i), next_index_in_file_(index_at_offset) {
       if (!filename.empty()) {
         fi_ = std::make_unique<std::ifstream>(filename);
         CURRENT_ASSERT(!fi_->bad());
@@ -361,17 +361,13 @@ class FilePersister {
     // The range-based for-loop works fine. -- D.K.
     std::string operator*() const {
       if (current_entry_.empty()) {
-        const auto offset = file_persister_impl_->record_offset_[static_cast<size_t>(i_)];
-        if (offset != current_offset_) {
-          fi_->seekg(offset, std::ios_base::beg);
-          current_offset_ = offset;
-        }
-        if (std::getline(*fi_, current_entry_)) {
-          CURRENT_ASSERT(current_entry_[0] != constants::kDirectiveMarker);
-        } else {
-          // End of file. Should never happen as long as the user only iterates over valid ranges.
-          CURRENT_THROW(current::Exception());  // LCOV_EXCL_LINE
-        }
+        // Skip the directives, as well as the entries which were advanced past without being dereferenced.
+        do {
+          if (!std::getline(*fi_, current_entry_)) {
+            // End of file. Should never happen as long as the user only iterates over valid ranges.
+            CURRENT_THROW(current::Exception());  // LCOV_EXCL_LINE
+          }
+        } while (current_entry_[0] == constants::kDirectiveMarker || next_index_in_file_++ != i_);
       }
       return current_entry_;
     }
@@ -391,7 +387,7 @@ class FilePersister {
     std::unique_ptr<std::ifstream> fi_;
     uint64_t i_;
     mutable std::string current_entry_;
-    mutable std::streampos current_offset_;
+    mutable uint64_t next_index_in_file_;  // The index of the next entry to be read from `fi_`.
   };
 
   template <typename ITERATOR>
-- 
2.43.0


From 7379dbae3652bb8d86f7bdad05caedb1d54ee67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 10/37] fix: iterating over a time range must not include the
 entries past its end published meanwhile

---
 blocks/persistence/file.h   | 8 ++++++--
 blocks/persistence/memory.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index d543fe0..a31ebf6 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -31,6 +31,7 @@ SOFTWARE.
 #ifndef BLOCKS_PERSISTENCE_FILE_H
 #define BLOCKS_PERSISTENCE_FILE_H
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <functional>
@@ -657,9 +658,12 @@ class FilePersister {
       CURRENT_THROW(InvalidIterableRangeException());
     }
 
+    // The entries published during this call may well be past `till`, hence the size is taken before looking for the range.
+    const uint64_t size = PersisterSizeImpl<MLS>();
     const auto index_range = PersisterIndexRangeByTimestampRangeImpl<MLS>(from, till);
-    if (index_range.first != static_cast<uint64_t>(-1)) {
-      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, index_range.second);
+    const uint64_t end_index = std::min(index_range.second, size);
+    if (index_range.first < end_index) {
+      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, end_index);
     } else {  // No entries found in the requested range.
       return ITERABLE(file_persister_impl_, 0, 0, 0);
     }
diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index a7c45fa..9efee79 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -37,6 +37,7 @@ SOFTWARE.
 #ifndef BLOCKS_PERSISTENCE_MEMORY_H
 #define BLOCKS_PERSISTENCE_MEMORY_H
 
+#include <algorithm>
 #include <deque>
 #include <functional>
 #include <mutex>
@@ -322,9 +323,12 @@ class MemoryPersister {
     if (till.count() > 0 && till < from) {
       CURRENT_THROW(InvalidIterableRangeException());
     }
+    // The entries published during this call may well be past `till`, hence the size is taken before looking for the range.
+    const uint64_t size = PersisterSizeImpl<MLS>();
     const auto index_range = PersisterIndexRangeByTimestampRangeImpl<MLS>(from, till);
-    if (index_range.first != static_cast<uint64_t>(-1)) {
-      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, index_range.second);
+    const uint64_t end_index = std::min(index_range.second, size);
+    if (index_range.first < end_index) {
+      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, end_index);
     } else {  // No entries found in the given range.
       return ITERABLE(container_, 0, 0);
     }
-- 
2.43.0


From e8e0435688265bc26abaacc2efb1258ea739996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 11/37] fix: a stream file whose last line is incomplete must
 be rejected, not appended to

---
 blocks/persistence/file.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index a31ebf6..5273746 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -199,7 +199,11 @@ class FilePersister {
         struct_schema.AddType<ENTRY>();
         const auto signature = JSON(ss::StreamSignature(namespace_name, struct_schema.GetSchemaInfo()));
         while (cit.ProcessNextEntry(
-            [&](const idxts_t& current, const char*) {
+            [&](const idxts_t& current, const char* json) {
+              if (fi.eof()) {
+                // The last line has no newline: it was not written completely, and must not be appended to.
+                CURRENT_THROW(MalformedEntryException(json));
+              }
               CURRENT_ASSERT(current.index == record_offset_.size());
               CURRENT_ASSERT(current.index == record_timestamp_.size());
               if (!(current.us > head)) {
@@ -214,6 +218,10 @@ class FilePersister {
             [&](const std::string& value) {
               static const auto head_key_length = strlen(constants::kHeadDirective);
               static const auto signature_key_length = strlen(constants::kSignatureDirective);
+              if (fi.eof()) {
+                // The last line has no newline: it was not written completely, and must not be appended to.
+                CURRENT_THROW(MalformedEntryException(value));
+              }
               head_offset_ = 0;
               if (!value.compare(0, head_key_length, constants::kHeadDirective)) {
                 auto offset = head_key_length;
-- 
2.43.0


From f70e92412f98f24d9e482eb8a59ea6221eb88fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 12/37] fix: memory persister must take its own mutex even if
 the mutex of the stream is already locked

---
 blocks/persistence/memory.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index 9efee79..aff4c9c 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -154,7 +154,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename E, typename TIMESTAMP>
   idxts_t PersisterPublishImpl(E&& entry, const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     if (!(timestamp > head)) {
@@ -169,7 +169,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterPublishUnsafeImpl(const std::string& raw_log_line) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto tab_pos = raw_log_line.find('\t');
     if (tab_pos == std::string::npos) {
@@ -191,7 +191,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename TIMESTAMP>
   void PersisterUpdateHeadImpl(const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
 
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     const auto head = container_->head_;
@@ -203,19 +203,19 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   bool PersisterEmptyImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->entries_.empty();
   }
 
   template <current::locks::MutexLockStatus MLS>
   uint64_t PersisterSizeImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return static_cast<uint64_t>(container_->entries_.size());
   }
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return idxts_t(container_->entries_.size() - 1, container_->entries_.back().first);
@@ -226,7 +226,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   head_optidxts_t PersisterHeadAndLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return head_optidxts_t(container_->head_, container_->entries_.size() - 1, container_->entries_.back().first);
@@ -237,14 +237,14 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   std::chrono::microseconds PersisterCurrentHeadImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->head_;
   }
 
   template <current::locks::MutexLockStatus MLS>
   std::pair<uint64_t, uint64_t> PersisterIndexRangeByTimestampRangeImpl(std::chrono::microseconds from,
                                                                         std::chrono::microseconds till) const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     std::pair<uint64_t, uint64_t> result{static_cast<uint64_t>(-1), static_cast<uint64_t>(-1)};
     const auto begin_it =
         std::lower_bound(container_->entries_.begin(),
@@ -294,7 +294,7 @@ class MemoryPersister {
   template <current::locks::MutexLockStatus MLS, typename ITERABLE>
   ITERABLE PersisterIterateImpl(uint64_t begin, uint64_t end) const {
     const uint64_t size = [this]() {
-      current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+      std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
       return static_cast<uint64_t>(container_->entries_.size());
     }();
 
-- 
2.43.0


From c223862a6b11e5266a19b7935aa3c528502f521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 13/37] fix: a subscriber must get the head updates even if no
 entry was published since it subscribed

---
 stream/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream/stream.h b/stream/stream.h
index 28d241f..9e55518 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -408,7 +408,7 @@ class Stream final {
           terminate_signal_.WaitUntil(lock, [this, &index, &begin_idx, &head]() {
             return terminate_signal_ ||
                    impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() > index ||
-                   (index > begin_idx &&
+                   (impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() >= begin_idx &&
                     impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head);
           });
         }
-- 
2.43.0


From 7b1e20db8f9a3bacca5514981b2ed6fb10935dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 14/37] fix: terminating an HTTP subscription must not use an
 iterator outside of its mutex

---
 stream/stream.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index 9e55518..477a88c 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -489,19 +489,20 @@ class Stream final {
     auto request_params = ParsePubSubHTTPRequest(r);  // Mutable as `tail` may change. -- D.K.
 
     if (request_params.terminate_requested) {
-      typename impl_t::http_subscriptions_t::iterator it;
+      current::stream::SubscriberScope* scope = nullptr;
       {
-        // NOTE: This is not thread-safe!!!
-        // The iterator may get invalidated in between the next few lines.
-        // However, during the call to `= nullptr` the mutex will be locked again from within the
-        // thread terminating callback. Need to clean this up. TODO(dkorolev).
+        // NOTE: The lookup needs the mutex, the scope does not: the elements are not erased while the stream exists,
+        // and during the call to `= nullptr` the mutex will be locked again from within the thread terminating callback.
         std::lock_guard<std::mutex> lock(borrowed_impl->http_subscriptions_mutex);
-        it = borrowed_impl->http_subscriptions.find(request_params.terminate_id);
+        const auto it = borrowed_impl->http_subscriptions.find(request_params.terminate_id);
+        if (it != borrowed_impl->http_subscriptions.end()) {
+          scope = &it->second.first;
+        }
       }
-      if (it != borrowed_impl->http_subscriptions.end()) {
+      if (scope) {
         // Subscription found. Delete the scope, triggering the thread to shut down.
         // TODO(dkorolev): This should certainly not happen synchronously.
-        it->second.first = nullptr;
+        *scope = nullptr;
         // Subscription terminated.
         r("", HTTPResponseCode.OK);
       } else {
-- 
2.43.0


From 7354fda0ec8a4f688a16ff80cec763c9f710aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 15/37] fix: the counter of malformed chunks must be
 initialized before the thread using it starts

---
 stream/replicator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 21a7537..0d42749 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -357,8 +357,8 @@ class SubscribableRemoteStream final {
     const SubscriptionMode subscription_mode_;
     current::WaitableAtomic<std::string> subscription_id_;
     std::atomic_bool terminate_subscription_requested_;
-    std::thread thread_;
-    uint32_t consecutive_malformed_chunks_count_;
+    uint32_t consecutive_malformed_chunks_count_ = 0u;
+    std::thread thread_;  // To be constructed last, as it uses the members above.
   };
 
   template <typename F, typename TYPE_SUBSCRIBED_TO, ReplicationMode RM>
-- 
2.43.0


From 2e71f6e5798f13169f09db0eb222d26bf46ac5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 16/37] fix: SubscribableRemoteStream::GetNumberOfEntries must
 compile

---
 stream/replicator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 0d42749..a8ae6f3 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -431,7 +431,7 @@ class SubscribableRemoteStream final {
   }
 
   uint64_t GetNumberOfEntries() const {
-    return stream_.ObjectAccessorDespitePossiblyDestructing().GetNumberOfEntries();
+    return stream_->GetNumberOfEntries();
   }
 
  private:
-- 
2.43.0


From fb8ccbcf87bd432ab4f9d6a4bcdbb5e8a7bb11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 17/37] fix: master flip controller must check and change its
 state under its mutex

---
 stream/replicator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index a8ae6f3..eef7156 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -575,11 +575,11 @@ class MasterFlipController final {
 
   // Makes the local, owned, ex-master stream follow the remote now-master one.
   void FollowRemoteStream(const std::string& url, SubscriptionMode subscription_mode = SubscriptionMode::Unchecked) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (remote_follower_) {
       CURRENT_THROW(StreamIsAlreadyFollowingException());
     }
 
-    std::lock_guard<std::mutex> lock(mutex_);
     const bool has_borrowed_publisher = Exists(borrowed_publisher_);
     try {
       remote_follower_ = std::make_unique<RemoteStreamFollower>(
@@ -602,6 +602,7 @@ class MasterFlipController final {
   }
 
   void FlipToMaster(uint64_t secret_flip_key) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (stream_->IsMasterStream()) {
       CURRENT_THROW(StreamIsAlreadyMasterException());
     }
-- 
2.43.0


From 3d0242e7fde4dca59fabcf9bc23e3cbfe6afdcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 18/37] fix: the timestamp of an entry before a subscription
 must not wake its subscriber as a head update

---
 stream/stream.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index 477a88c..cc8c28c 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -377,6 +377,18 @@ class Stream final {
       return ss::EntryResponse::More;
     }
 
+    // Whether the head which is past the one of the subscriber is an update to pass, not just that of an earlier entry.
+    bool HeadIsToBePassed(bool has_passed_entries, uint64_t begin_idx) const {
+      if (has_passed_entries) {
+        return true;
+      }
+      const auto head_idx = impl_->persister.template HeadAndLastPublishedIndexAndTimestamp<
+          current::locks::MutexLockStatus::AlreadyLocked>();
+      return Exists(head_idx.idxts)
+                 ? Value(head_idx.idxts).index + 1 >= begin_idx && head_idx.head > Value(head_idx.idxts).us
+                 : begin_idx == 0u;
+    }
+
     void ThreadImpl(uint64_t begin_idx) {
       auto head = from_us_ - std::chrono::microseconds(1);
       uint64_t index = begin_idx;
@@ -408,8 +420,8 @@ class Stream final {
           terminate_signal_.WaitUntil(lock, [this, &index, &begin_idx, &head]() {
             return terminate_signal_ ||
                    impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() > index ||
-                   (impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() >= begin_idx &&
-                    impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head);
+                   (impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head &&
+                    HeadIsToBePassed(index > begin_idx, begin_idx));
           });
         }
       }
-- 
2.43.0


From 169f0999040ff0f832f79ea0f699c9f928dc0d23 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 19/37] fix: the last borrower must not touch the owned
 instance after letting its destructor go

---
 bricks/sync/owned_borrowed.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 0c5efe0..8c2d984 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -127,15 +127,12 @@ struct UniqueInstance final {
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
   void UnRegisterBorrower(size_t borrower_index) {
-    bool notify = false;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      auto it = borrowers_.find(borrower_index);
-      CURRENT_ASSERT(it != borrowers_.end());
-      borrowers_.erase(it);
-      notify = borrowers_.empty();
-    }
-    if (notify) {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto it = borrowers_.find(borrower_index);
+    CURRENT_ASSERT(it != borrowers_.end());
+    borrowers_.erase(it);
+    if (borrowers_.empty()) {
+      // NOTE: From within the locked section, as once it is over the destructor is free to return.
       condition_variable_.notify_one();
     }
   }
-- 
2.43.0


From 42b817933bfd851d71d15783f17e1be2e105fd93 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 20/37] fix: assigning to a borrowed object must end its
 previous borrow

---
 bricks/sync/owned_borrowed.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 8c2d984..308b7f7 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -180,7 +180,8 @@ class WeakBorrowed {
 
   WeakBorrowed(impl::ConstructBorrowedObjectViaMoveConstructor,
                WeakBorrowed&& rhs,
-               std::function<void()> destruction_callback) {
+               std::function<void()> destruction_callback)
+      : p_actual_instance_(nullptr), key_(0u) {
     MoveFrom(std::move(rhs), destruction_callback);
   }
 
@@ -401,7 +402,10 @@ class Borrowed final : public WeakBorrowed<T> {
   Borrowed(Borrowed&& rhs) : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   Borrowed& operator=(Borrowed&& rhs) {
-    base_t::MoveFrom(std::move(rhs), []() {});
+    if (this != &rhs) {
+      base_t::InternalUnRegister();
+      base_t::MoveFrom(std::move(rhs), []() {});
+    }
     return *this;
   }
 
@@ -449,7 +453,10 @@ class BorrowedOfGuaranteedLifetime final : public WeakBorrowed<T> {
       : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   BorrowedOfGuaranteedLifetime& operator=(BorrowedOfGuaranteedLifetime&& rhs) {
-    base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    if (this != &rhs) {
+      base_t::InternalUnRegister();
+      base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    }
     return *this;
   }
 
-- 
2.43.0


From 1951f8dc2980cf16f25c500180704c1abea2a2af Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 21/37] fix: moving from an owner or from a moved-away object
 must not register a borrower which never ends

---
 bricks/sync/owned_borrowed.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 308b7f7..611589b 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -191,8 +191,17 @@ class WeakBorrowed {
   }
 
   void MoveFrom(WeakBorrowed&& rhs, std::function<void()> destruction_callback) {
+    if (!rhs.p_actual_instance_) {
+      // Nothing to take over from an object that has been moved away from.
+      return;
+    }
     std::lock_guard<std::mutex> lock(rhs.p_actual_instance_->mutex_);
     p_actual_instance_ = rhs.p_actual_instance_;
+    if (!rhs.key_) {
+      // The passed in xvalue is the owner, which can not be moved into a borrower, so just borrow from it.
+      key_ = p_actual_instance_->RegisterBorrowerFromLockedSection(destruction_callback);
+      return;
+    }
     key_ = rhs.key_;
     p_actual_instance_->UpdateBorrowersCallbackFromLockedSection(key_, destruction_callback);
     rhs.key_ = 0u;  // Must mark the passed in xvalue of `WeakBorrowed<>` as abandoned.
-- 
2.43.0


From 2b192a26dc8bb4ed41615b78860342e87c0e0593 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 22/37] fix: moving BorrowedOfGuaranteedLifetime must keep its
 callback

---
 bricks/sync/owned_borrowed.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 611589b..2c6b89d 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -459,7 +459,9 @@ class BorrowedOfGuaranteedLifetime final : public WeakBorrowed<T> {
   void operator=(std::nullptr_t) { base_t::InternalUnRegister(); }
 
   BorrowedOfGuaranteedLifetime(BorrowedOfGuaranteedLifetime&& rhs)
-      : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
+      : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(),
+               std::move(rhs),
+               BorrowedOfGuaranteedLifetimeInvariantErrorCallback) {}
 
   BorrowedOfGuaranteedLifetime& operator=(BorrowedOfGuaranteedLifetime&& rhs) {
     if (this != &rhs) {
-- 
2.43.0


From 17fe8a381ab337cf2cf27674327fa3ea3403abc9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 23/37] fix: the last client must not touch the waitable atomic
 after letting its destructor go

---
 bricks/sync/waitable_atomic.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 02bf49b..c2877d7 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -337,10 +337,9 @@ class WaitableAtomicImpl {
     }
 
     virtual void RefCounterDecrease() override {
-      {
-        std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
-        --ref_count_;
-      }
+      std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
+      --ref_count_;
+      // NOTE: From within the locked section, as once it is over the destructor is free to return.
       cv_.notify_one();
     }
 
-- 
2.43.0


From c7821431d306f6ba37470fdf628a6029a8747860 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 24/37] fix: WaitableAtomic::UseAsLock must compile

---
 bricks/sync/waitable_atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index c2877d7..d579fe1 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -187,7 +187,7 @@ class WaitableAtomicImpl {
     void Notify() { data_condition_variable_.notify_all(); }
 
     void UseAsLock(std::function<void()> f) const {
-      std::unique_lock<std::mutex> lock(data_t::data_mutex_);
+      std::unique_lock<std::mutex> lock(data_mutex_);
       f();
     }
 
-- 
2.43.0


From 9ecf23688ee7d85bec1c861d8350d100790d7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 25/37] fix: GenericDictionary::Patch with a patch object must
 not be removed from overload resolution

---
 storage/container/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/container/dictionary.h b/storage/container/dictionary.h
index 23fe632..b72aa06 100644
--- a/storage/container/dictionary.h
+++ b/storage/container/dictionary.h
@@ -131,8 +131,8 @@ class GenericDictionary {
   // NOTE(dkorolev): The `patch_object` parameter should be passed by value,
   // as otherwise it won't be valid during the possible rollback.
   template <typename E = entry_t>
-  std::enable_if_t<HasPatch<E>(), bool>::type Patch(sfinae::CF<key_t> key,
-                                                    const typename E::patch_object_t patch_object) {
+  std::enable_if_t<HasPatch<E>(), bool> Patch(sfinae::CF<key_t> key,
+                                              const typename E::patch_object_t patch_object) {
     static_assert(std::is_same_v<E, entry_t>, "");
     const auto now = current::time::Now();
     const auto map_iterator = map_.find(key);
-- 
2.43.0


From 714274436f811e63aef40201d27cefdf04f76538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 26/37] fix: a two-step transaction which is persisted must not
 be reported as rolled back

---
 storage/transaction_policy.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/storage/transaction_policy.h b/storage/transaction_policy.h
index ed0ee2c..3f15af5 100644
--- a/storage/transaction_policy.h
+++ b/storage/transaction_policy.h
@@ -217,14 +217,13 @@ class Synchronous final {
     if (destructing_) {
       promise.set_exception(std::make_exception_ptr(StorageInGracefulShutdownException()));  // LCOV_EXCL_LINE
     } else {
+      bool successful = false;
       result_t f1_result;
       try {
         journal_.BeforeTransaction();
         f1_result = f1();
         journal_.AfterTransaction();
-        PersistJournal();
-        f2(std::move(f1_result));
-        promise.set_value(TransactionResult<void>::Committed(OptionalResultExists()));
+        successful = true;
       } catch (const StorageRollbackExceptionWithValue<result_t>& e) {
         // The transaction was rolled back, but returned a value, which we try to pass again to `f2`.
         journal_.Rollback();
@@ -246,6 +245,20 @@ class Synchronous final {
         }
         // LCOV_EXCL_STOP
       }
+      if (successful) {
+        PersistJournal();
+        // From here on the transaction is committed, so nothing `f2` may throw is a rollback.
+        bool f2_successful = false;
+        try {
+          f2(std::move(f1_result));
+          f2_successful = true;
+        } catch (...) {
+          promise.set_exception(std::current_exception());
+        }
+        if (f2_successful) {
+          promise.set_value(TransactionResult<void>::Committed(OptionalResultExists()));
+        }
+      }
     }
     return Future<TransactionResult<void>, StrictFuture::Strict>(promise.get_future());
   }
-- 
2.43.0


From cd3a969b4275a1f00cd9ee6f72795e47a9cd0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:15 +0000
Subject: [PATCH 27/37] fix: the last applied timestamp of the storage is read
 without the mutex under which it is written

---
 storage/persister/stream.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/storage/persister/stream.h b/storage/persister/stream.h
index 595a50d..f130120 100644
--- a/storage/persister/stream.h
+++ b/storage/persister/stream.h
@@ -26,6 +26,8 @@ SOFTWARE.
 #ifndef CURRENT_STORAGE_PERSISTER_STREAM_H
 #define CURRENT_STORAGE_PERSISTER_STREAM_H
 
+#include <atomic>
+
 #include "common.h"
 #include "../base.h"
 #include "../exceptions.h"
@@ -209,7 +211,7 @@ class StreamStreamPersisterImpl final {
   void TerminateStreamSubscriptionFromLockedSection() { subscriber_scope_ = nullptr; }
 
   void SetLastAppliedTimestampFromLockedSection(std::chrono::microseconds timestamp) {
-    CURRENT_ASSERT(timestamp > last_applied_timestamp_);
+    CURRENT_ASSERT(timestamp > last_applied_timestamp_.load());
     last_applied_timestamp_ = timestamp;
   }
 
@@ -224,7 +226,8 @@ class StreamStreamPersisterImpl final {
   std::unique_ptr<StreamSubscriber> subscriber_instance_;
   current::stream::SubscriberScope subscriber_scope_;
 
-  std::chrono::microseconds last_applied_timestamp_ = std::chrono::microseconds(-1);  // Replayed or from the master.
+  // Replayed or from the master. Written with the stream publishing mutex locked, read without it.
+  std::atomic<std::chrono::microseconds> last_applied_timestamp_{std::chrono::microseconds(-1)};
 
   HTTPRoutesScope handlers_scope_;
 };
-- 
2.43.0


From de9613be4f5ab7fb590fb86a8eaf7e78f26f4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:33 +0000
Subject: [PATCH 28/37] fix: start the thread of the HTTP server after
 constructing what it uses

---
 blocks/http/impl/posix_server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index 9c087f6..b998a8f 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -542,13 +542,15 @@ class HTTPServerPOSIX final {
 
   std::atomic_bool terminating_;
   const uint16_t port_;
-  std::thread thread_;
 
   // TODO(dkorolev): Look into read-write mutexes here.
   mutable std::mutex mutex_;
 
   std::map<std::string, std::map<size_t, Owned<std::function<void(Request)>>>> handlers_;
   std::vector<std::unique_ptr<StaticFileServer>> static_file_servers_;
+
+  // The thread uses the fields above, so it should be the last one to construct.
+  std::thread thread_;
 };
 
 }  // namespace http
-- 
2.43.0


From 238d3e2248c2b957bf3d64c7fff72e9ed01b9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:33 +0000
Subject: [PATCH 29/37] fix: look at the routes under the mutex when serving
 static files

---
 blocks/http/impl/posix_server.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index b998a8f..04a96c7 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -324,7 +324,7 @@ class HTTPServerPOSIX final {
             // If it's an index file, serve it additionally at the route without the filename (i.e. the directory
             // route).
             if (is_index_file) {
-              if (handlers_.find(route_for_directory) != handlers_.end()) {
+              if (RouteIsRegistered(route_for_directory)) {
                 CURRENT_THROW(ServeStaticFilesFromCannotServeMoreThanOneIndexFile(route_for_directory + ' ' +
                                                                                   item_info.basename));
               }
@@ -361,6 +361,11 @@ class HTTPServerPOSIX final {
   }
 
  private:
+  bool RouteIsRegistered(const std::string& path) const {
+    std::lock_guard<std::mutex> lock(mutex_);
+    return handlers_.find(path) != handlers_.end();
+  }
+
   // Although this may look complicated, all it does is making sure the handler, if found,
   // is returned wrapped into a special object which prohibits its de-registration while in use.
   // Note: If the user code handles the request synchronously, the scoped HTTP registerers will do the job.
-- 
2.43.0


From 0fb1f56da6471452feb51d4b4797db3a5ebaa178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:33 +0000
Subject: [PATCH 30/37] fix: wait for the users of an HTTP handler without
 holding the mutex of the routes

---
 blocks/http/impl/posix_server.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index 04a96c7..5b2c2fd 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -225,7 +225,6 @@ class HTTPServerPOSIX final {
   HTTPRoutesScopeEntry Register(const std::string& path,
                                 const URLPathArgs::CountMask path_args_count_mask,
                                 F& handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(
         path, [&handler](Request r) { handler(std::move(r)); }, path_args_count_mask, POLICY);
   }
@@ -235,7 +234,6 @@ class HTTPServerPOSIX final {
   HTTPRoutesScopeEntry Register(const std::string& path,
                                 const URLPathArgs::CountMask path_args_count_mask,
                                 std::function<void(Request)> handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(path, handler, path_args_count_mask, POLICY);
   }
 
@@ -243,19 +241,19 @@ class HTTPServerPOSIX final {
   template <ReRegisterRoute POLICY = ReRegisterRoute::ThrowOnAttempt, typename F>
   [[nodiscard]]
   HTTPRoutesScopeEntry Register(const std::string& path, F& handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(
         path, [&handler](Request r) { handler(std::move(r)); }, URLPathArgs::CountMask::None, POLICY);
   }
   template <ReRegisterRoute POLICY = ReRegisterRoute::ThrowOnAttempt>
   [[nodiscard]]
   HTTPRoutesScopeEntry Register(const std::string& path, std::function<void(Request)> handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(path, handler, URLPathArgs::CountMask::None, POLICY);
   }
 
   void UnRegister(const std::string& path,
                   const URLPathArgs::CountMask path_args_count_mask = URLPathArgs::CountMask::None) {
+    // Destroying a handler waits until it is no longer in use, and it may itself need the mutex: do so after unlocking.
+    std::vector<Owned<std::function<void(Request)>>> retired_handlers;
     std::lock_guard<std::mutex> lock(mutex_);
     URLPathArgs::CountMask mask = URLPathArgs::CountMask::None;  // `None` == 1 == (1 << 0).
     for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask <<= 1) {
@@ -269,6 +267,7 @@ class HTTPServerPOSIX final {
         if (it2 == map.end()) {
           CURRENT_THROW(HandlerDoesNotExistException(path));
         }
+        retired_handlers.push_back(std::move(it2->second));
         map.erase(it2);
         if (map.empty()) {
           // Maintain the value of `PathHandlersCount()` invariant.
@@ -503,6 +502,10 @@ class HTTPServerPOSIX final {
 
     ValidateRoute(path);
 
+    // Destroying a handler waits until it is no longer in use, and it may itself need the mutex: do so after unlocking.
+    std::vector<Owned<std::function<void(Request)>>> retired_handlers;
+    std::lock_guard<std::mutex> lock(mutex_);
+
     {
       // Step 1: Confirm the request is valid.
       const auto handlers_per_path_iterator = handlers_.find(path);
@@ -531,6 +534,10 @@ class HTTPServerPOSIX final {
       URLPathArgs::CountMask mask = URLPathArgs::CountMask::None;  // `None` == 1 == (1 << 0).
       for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask = mask << 1) {
         if ((path_args_count_mask & mask) == mask) {
+          const auto it = handlers_per_path.find(i);
+          if (it != handlers_per_path.end()) {
+            retired_handlers.push_back(std::move(it->second));
+          }
           handlers_per_path[i] = MakeOwned<std::function<void(Request)>>(handler);
         }
       }
-- 
2.43.0


From 4bf0fbc0e6a0f0d2370ca09492e602ad728c2157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 31/37] fix: check the number of elements when parsing an
 std::array from JSON

---
 typesystem/serialization/json/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typesystem/serialization/json/array.h b/typesystem/serialization/json/array.h
index 57e54e3..b94854f 100644
--- a/typesystem/serialization/json/array.h
+++ b/typesystem/serialization/json/array.h
@@ -48,6 +48,9 @@ template <class JSON_FORMAT, typename T, size_t N>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::array<T, N>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, std::array<T, N>& destination) {
     if (json_parser && json_parser.Current().IsArray()) {
+      if (N != json_parser.Current().Size()) {
+        CURRENT_THROW(JSONSchemaException("bad array size for std::array", json_parser));  // LCOV_EXCL_LINE
+      }
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(N); ++i) {
         json_parser.Inner(&json_parser.Current()[i], destination[i], "[", static_cast<int>(i), "]");
       }
-- 
2.43.0


From 178ab4d792368e0f5aa5c096059e6fbbfd9c8ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 32/37] fix: do not clear a set which is absent from the
 patching JSON

---
 typesystem/serialization/json/set.h           | 2 +-
 typesystem/serialization/json/unordered_set.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/typesystem/serialization/json/set.h b/typesystem/serialization/json/set.h
index bf28d6e..a672306 100644
--- a/typesystem/serialization/json/set.h
+++ b/typesystem/serialization/json/set.h
@@ -50,8 +50,8 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, std::set<T, EQ, ALLOCAT
 template <class JSON_FORMAT, typename T, class EQ, class ALLOCATOR>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::set<T, EQ, ALLOCATOR>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, std::set<T, EQ, ALLOCATOR>& destination) {
-    destination.clear();
     if (json_parser && json_parser.Current().IsArray()) {
+      destination.clear();
       const size_t size = json_parser.Current().Size();
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(size); ++i) {
         T element;
diff --git a/typesystem/serialization/json/unordered_set.h b/typesystem/serialization/json/unordered_set.h
index 36d5798..4e469f4 100644
--- a/typesystem/serialization/json/unordered_set.h
+++ b/typesystem/serialization/json/unordered_set.h
@@ -51,8 +51,8 @@ template <class JSON_FORMAT, typename T, class HASH, class EQ, class ALLOCATOR>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_set<T, HASH, EQ, ALLOCATOR>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser,
                             std::unordered_set<T, HASH, EQ, ALLOCATOR>& destination) {
-    destination.clear();
     if (json_parser && json_parser.Current().IsArray()) {
+      destination.clear();
       const size_t size = json_parser.Current().Size();
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(size); ++i) {
         T element;
-- 
2.43.0


From 1e849a34cc4adc76f90b673e4a5f32015631b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 33/37] fix: accept a map which is absent from the patching
 JSON

---
 typesystem/serialization/json/map.h           | 4 ++--
 typesystem/serialization/json/unordered_map.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/typesystem/serialization/json/map.h b/typesystem/serialization/json/map.h
index 3713bc6..0099522 100644
--- a/typesystem/serialization/json/map.h
+++ b/typesystem/serialization/json/map.h
@@ -82,7 +82,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsObject())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsObject())) {
       CURRENT_THROW(JSONSchemaException("map as object", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -106,7 +106,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
         json_parser.Inner(&(*cit)[static_cast<rapidjson::SizeType>(1)], v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsArray())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsArray())) {
       CURRENT_THROW(JSONSchemaException("map as array", json_parser));  // LCOV_EXCL_LINE
     }
   }
diff --git a/typesystem/serialization/json/unordered_map.h b/typesystem/serialization/json/unordered_map.h
index 1017f32..d89461a 100644
--- a/typesystem/serialization/json/unordered_map.h
+++ b/typesystem/serialization/json/unordered_map.h
@@ -84,7 +84,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsObject())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsObject())) {
       CURRENT_THROW(JSONSchemaException("[unordered_]map as object", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -110,7 +110,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
         json_parser.Inner(&(*cit)[static_cast<rapidjson::SizeType>(1)], v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsArray())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsArray())) {
       CURRENT_THROW(JSONSchemaException("[unordered_]map as array", json_parser));  // LCOV_EXCL_LINE
     }
   }
-- 
2.43.0


From ae02ef328dd710b4350df97348c779a6b8fe322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 34/37] fix: parse each value of a map with string keys into a
 fresh object

---
 typesystem/serialization/json/map.h           | 4 ++--
 typesystem/serialization/json/unordered_map.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/typesystem/serialization/json/map.h b/typesystem/serialization/json/map.h
index 0099522..a7ad58a 100644
--- a/typesystem/serialization/json/map.h
+++ b/typesystem/serialization/json/map.h
@@ -73,11 +73,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
                                                                         std::map<TK, TV, TC, TA>& destination) {
     if (json_parser && json_parser.Current().IsObject()) {
       destination.clear();
-      TK k;
-      TV v;
       for (rapidjson::Value::MemberIterator cit = json_parser.Current().MemberBegin();
            cit != json_parser.Current().MemberEnd();
            ++cit) {
+        TK k;
+        TV v;
         json_parser.Inner(&cit->name, k);
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
diff --git a/typesystem/serialization/json/unordered_map.h b/typesystem/serialization/json/unordered_map.h
index d89461a..f1895b3 100644
--- a/typesystem/serialization/json/unordered_map.h
+++ b/typesystem/serialization/json/unordered_map.h
@@ -75,11 +75,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
       json::JSONParser<JSON_FORMAT>& json_parser, std::unordered_map<TK, TV, HASH, EQ, ALLOCATOR>& destination) {
     if (json_parser && json_parser.Current().IsObject()) {
       destination.clear();
-      TK k;
-      TV v;
       for (rapidjson::Value::MemberIterator cit = json_parser.Current().MemberBegin();
            cit != json_parser.Current().MemberEnd();
            ++cit) {
+        TK k;
+        TV v;
         json_parser.Inner(&cit->name, k);
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
-- 
2.43.0


From fdc023bc80a02446e53c3945a2c0762a3f741cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 35/37] fix: accept a variant which is absent from the patching
 JSON

---
 typesystem/serialization/json/variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typesystem/serialization/json/variant.h b/typesystem/serialization/json/variant.h
index 17eedcb..ac65b00 100644
--- a/typesystem/serialization/json/variant.h
+++ b/typesystem/serialization/json/variant.h
@@ -420,7 +420,8 @@ template <class JSON_FORMAT, typename T>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<IS_CURRENT_VARIANT(T)>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& value) {
     if (!json_parser || json_parser.Current().IsNull()) {
-      if (json::JSONVariantStyleUseNulls<JSON_FORMAT::variant_style>::value) {
+      if (json::JSONVariantStyleUseNulls<JSON_FORMAT::variant_style>::value &&
+          (json_parser || !json::JSONPatchMode<JSON_FORMAT>::value)) {
         CURRENT_THROW(JSONUninitializedVariantObjectException());
       }
     } else {
-- 
2.43.0


From 8aebe7b4e2ad3291f2f3a057a952f14d5f3beede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 36/37] fix: do not truncate the integers in JSON which do not
 fit the type they are parsed into

---
 typesystem/serialization/json/enum.h       | 10 ++++++++--
 typesystem/serialization/json/primitives.h | 11 +++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/typesystem/serialization/json/enum.h b/typesystem/serialization/json/enum.h
index c4cf16a..3246613 100644
--- a/typesystem/serialization/json/enum.h
+++ b/typesystem/serialization/json/enum.h
@@ -45,13 +45,19 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<std::i
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
     if (json_parser && json_parser.Current().IsNumber()) {
       if (std::numeric_limits<typename std::underlying_type<T>::type>::is_signed) {
-        if (json_parser.Current().IsInt64()) {
+        if (json_parser.Current().IsInt64() &&
+            json_parser.Current().GetInt64() >=
+                static_cast<int64_t>(std::numeric_limits<typename std::underlying_type<T>::type>::min()) &&
+            json_parser.Current().GetInt64() <=
+                static_cast<int64_t>(std::numeric_limits<typename std::underlying_type<T>::type>::max())) {
           destination = static_cast<T>(json_parser.Current().GetInt64());
         } else {
           CURRENT_THROW(JSONSchemaException("enum as unsigned integer", json_parser));  // LCOV_EXCL_LINE
         }
       } else {
-        if (json_parser.Current().IsUint64()) {
+        if (json_parser.Current().IsUint64() &&
+            json_parser.Current().GetUint64() <=
+                static_cast<uint64_t>(std::numeric_limits<typename std::underlying_type<T>::type>::max())) {
           destination = static_cast<T>(json_parser.Current().GetUint64());
         } else {
           CURRENT_THROW(JSONSchemaException("enum as signed integer", json_parser));  // LCOV_EXCL_LINE
diff --git a/typesystem/serialization/json/primitives.h b/typesystem/serialization/json/primitives.h
index c333303..6f68dd1 100644
--- a/typesystem/serialization/json/primitives.h
+++ b/typesystem/serialization/json/primitives.h
@@ -81,9 +81,10 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
                        std::enable_if_t<std::numeric_limits<T>::is_integer && !std::numeric_limits<T>::is_signed &&
                                         !std::is_same_v<T, bool>>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
-    if (json_parser && json_parser.Current().IsUint64()) {
+    if (json_parser && json_parser.Current().IsUint64() &&
+        json_parser.Current().GetUint64() <= std::numeric_limits<T>::max()) {
       destination = static_cast<T>(json_parser.Current().GetUint64());
-    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsUint64())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser) {
       CURRENT_THROW(JSONSchemaException("unsigned integer", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -95,9 +96,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
                        T,
                        std::enable_if_t<std::numeric_limits<T>::is_integer && std::numeric_limits<T>::is_signed>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
-    if (json_parser && json_parser.Current().IsInt64()) {
+    if (json_parser && json_parser.Current().IsInt64() &&
+        json_parser.Current().GetInt64() >= std::numeric_limits<T>::min() &&
+        json_parser.Current().GetInt64() <= std::numeric_limits<T>::max()) {
       destination = static_cast<T>(json_parser.Current().GetInt64());
-    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsInt64())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser) {
       CURRENT_THROW(JSONSchemaException("integer", json_parser));  // LCOV_EXCL_LINE
     }
   }
-- 
2.43.0


From 7eeab806645ec28a5f6c10f1530a0527b3a0d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 37/37] fix: parse an std::string or a Chunk in the JSON format
 requested

---
 typesystem/serialization/json/json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index 1744108..f1871df 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -353,12 +353,12 @@ inline void ParseJSON(const char* source, T& destination) {
 
 template <typename T, class J = JSONFormat::Current>
 inline void ParseJSON(const std::string& source, T& destination) {
-  ParseJSON(source.c_str(), destination);
+  ParseJSON<T, J>(source.c_str(), destination);
 }
 
 template <typename T, class J = JSONFormat::Current>
 inline void ParseJSON(const strings::Chunk& source, T& destination) {
-  ParseJSON(source.c_str(), destination);
+  ParseJSON<T, J>(source.c_str(), destination);
 }
 
 template <typename T, class J = JSONFormat::Current>
-- 
2.43.0

