From 0076cd438fc9885c86e6b41ce9cc5810d9c241c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 01/80] fix: attach direct write data to a record before the
 record can be written

createUncompressedRecord() attached the DirectWriteRecordData after the record was visible to the
background writer thread, which could write the record without its data, or recycle it first.
---
 vrs/RecordManager.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 9ff891c..75511a6 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -57,6 +57,15 @@ Record* RecordManager::createRecord(
     Record::Type recordType,
     uint32_t formatVersion,
     const DataSource& data) {
+  return createUncompressedRecord(timestamp, recordType, formatVersion, data, nullptr);
+}
+
+Record* RecordManager::createUncompressedRecord(
+    double timestamp,
+    Record::Type recordType,
+    uint32_t formatVersion,
+    const DataSource& data,
+    std::unique_ptr<DirectWriteRecordData>&& directWriteData) {
   // Step 1: find a record to reuse, if there is any
   Record* record = nullptr;
   unique_lock<mutex> guard{mutex_};
@@ -90,6 +99,10 @@ Record* RecordManager::createRecord(
     record = new Record(*this);
   }
   record->set(timestamp, recordType, formatVersion, data, creationOrder);
+  if (directWriteData) {
+    // Must be attached before the record is active, or a background thread might write it without.
+    record->addDirectWriteRecordData(std::move(directWriteData));
+  }
   if (largeData) {
     guard.lock();
   }
@@ -113,17 +126,6 @@ Record* RecordManager::createRecord(
   return record;
 }
 
-Record* RecordManager::createUncompressedRecord(
-    double timestamp,
-    Record::Type type,
-    uint32_t formatVersion,
-    const DataSource& data,
-    std::unique_ptr<DirectWriteRecordData>&& directWriteData) {
-  Record* record = createRecord(timestamp, type, formatVersion, data);
-  record->addDirectWriteRecordData(std::move(directWriteData));
-  return record;
-}
-
 uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuffers) {
   uint32_t count = 0;
   unique_lock<mutex> guard{mutex_};
-- 
2.43.0


From 329ebda2dfb286bbfc5d70defd2b7670cf5c6ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 02/80] fix: collect and queue record batches in one step in
 writeRecordsAsync()

A batch collected by the background thread could be queued, and written, ahead of an older batch
collected by the caller, which swapped records of a stream having the same timestamp. Both threads
could also update the index writer's stream set at the same time.
---
 vrs/RecordFileWriter.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index ae18dbd..8b442c4 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -565,16 +565,20 @@ int RecordFileWriter::writeRecordsAsync(double maxTimestamp) {
     return INVALID_REQUEST;
   }
 
-  unique_ptr<RecordBatch> recordBatch = make_unique<RecordBatch>();
-  if (collectOldRecords(*recordBatch, maxTimestamp) > 0) {
-    if (LOG_FILE_OPERATIONS) {
-      logBatch(*recordBatch, "writeRecordsAsync");
-    }
-    { // mutex guard
-      unique_lock<recursive_mutex> guard{writerThreadData_->mutex};
+  bool somethingToWrite = false;
+  { // mutex guard: collect & queue batches in the same order as the background thread's collection
+    unique_lock<recursive_mutex> guard{writerThreadData_->mutex};
+    unique_ptr<RecordBatch> recordBatch = make_unique<RecordBatch>();
+    if (collectOldRecords(*recordBatch, maxTimestamp) > 0) {
+      if (LOG_FILE_OPERATIONS) {
+        logBatch(*recordBatch, "writeRecordsAsync");
+      }
       writerThreadData_->recordsReadyToWrite.emplace_back(std::move(recordBatch));
       writerThreadData_->hasRecordsReadyToWrite.store(true, memory_order_relaxed);
-    } // mutex guard
+      somethingToWrite = true;
+    }
+  } // mutex guard
+  if (somethingToWrite) {
     writerThreadData_->writeEventChannel.dispatchEvent();
   }
   return writerThreadData_->fileError; // if there was some error already, say so
-- 
2.43.0


From 06953690b4011ab0f1c1120ead600b7f2092673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 03/80] fix: reset the file header when creating a new file

The offsets of the file header of a file with a preallocated or split index were left in the header
of the next file created with the same RecordFileWriter.
---
 vrs/RecordFileWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 8b442c4..8224a3e 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -892,6 +892,7 @@ int RecordFileWriter::createFile(const string& filePath, bool splitHead) {
     }
     return error;
   }
+  fileHeader_ = {}; // don't keep offsets from a file created earlier
   fileHeader_.init();
   fileHeader_.descriptionRecordOffset = sizeof(fileHeader_);
   IF_ERROR_LOG_CLOSE_AND_RETURN(head.write(fileHeader_))
-- 
2.43.0


From 4f5fbfc0006a3864f3e7f505eac21cb84d45f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 04/80] fix: writeToFile() with a compression thread pool
 crashes

There is no writer thread data when writing synchronously.
---
 vrs/RecordFileWriter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 8224a3e..954b002 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1164,10 +1164,12 @@ int RecordFileWriter::writeRecordsMultiThread(
       }
     }
     // Grab any new record ready to write, to feed our background threads ASAP
-    autoCollectRecords(true);
-    size_t previousSize = recordsToCompress.size();
-    if (addRecordsReadyToWrite(recordsToCompress)) {
-      recordsToWriteCount += recordsToCompress.size() - previousSize;
+    if (writerThreadData_ != nullptr) { // synchronous writes using writeToFile() have no thread data
+      autoCollectRecords(true);
+      size_t previousSize = recordsToCompress.size();
+      if (addRecordsReadyToWrite(recordsToCompress)) {
+        recordsToWriteCount += recordsToCompress.size() - previousSize;
+      }
     }
   }
 
-- 
2.43.0


From 5fe9d3ca72039f454ae8f8b3076a58af1b96a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 05/80] fix: a preallocated index too small for the stream list
 overwrites user records

The space left for the index entries was computed by an unsigned subtraction ignoring the record
header: it could wrap around, or be 0 which means no limit. This happens when streams are added
while recording to a file with a small preallocated index.
---
 vrs/IndexRecord.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 7d39b43..3233f5b 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -251,8 +251,9 @@ int writeClassicIndexRecord(
   FileFormat::RecordHeader indexRecordHeader;
   uint32_t preludeSize = static_cast<uint32_t>(
       sizeof(uint32_t) + streamIds.size() * sizeof(DiskStreamId) + sizeof(uint32_t));
-  if (preallocatedByteSize > 0 && preallocatedByteSize < preludeSize) {
-    return TOO_MUCH_DATA;
+  if (preallocatedByteSize > 0 &&
+      preallocatedByteSize <= sizeof(indexRecordHeader) + preludeSize) {
+    return TOO_MUCH_DATA; // no space left for the records' details
   }
   uint32_t uncompressedSize =
       preludeSize + static_cast<uint32_t>(records.size() * sizeof(DiskRecordInfo));
-- 
2.43.0


From 1c777ea662215e6da60e14fdbc26c309a5773a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 06/80] fix: writeToFile() makes the tracked queue size wrap
 around

---
 vrs/RecordFileWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 954b002..b31dbe5 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1045,7 +1045,7 @@ void RecordFileWriter::writeOneRecord(
     rwd.currentChunkSize = 0; // reset, even if addChunk() failed to reduce retrying.
     newChunkNotifier.notify(1); // offset chunk index by 1
   }
-  if (queueByteSize_) {
+  if (queueByteSize_ && writerThreadData_ != nullptr) { // writeToFile() doesn't queue records
     queueByteSize_->fetch_sub(record->getSize(), memory_order_relaxed);
   }
   int error = record->writeRecord(*file_, streamId, lastRecordSize_, compressor, compressedSize);
-- 
2.43.0


From d5a9cbce5bc2a7415f73c39c1a163a1305ba8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 07/80] fix: write errors while finalizing a preallocated index
 are ignored

---
 vrs/IndexRecord.cpp | 51 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 3233f5b..476c605 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -1057,30 +1057,33 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
     // It's OK to possibly iterate, because copies are not real-time/capture operations.
     size_t retryIndex = firstCompressionPresetIndex(writtenRecords_.size());
     do {
-      if (file.setPos(fileHeader_.indexRecordOffset) == 0) {
-        uint32_t lastRecordSize = static_cast<uint32_t>(descriptionRecordToIndexRecord);
-        if (writeClassicIndexRecord(
-                file,
-                streamIds_,
-                writtenRecords_,
-                lastRecordSize,
-                compressor_,
-                kCompressionLevels[retryIndex],
-                preallocatedIndexRecordSize_) == 0) {
-          indexRecordWritten = true;
-          outLastRecordSize = lastRecordSize;
-        } else {
-          if (kLogStats) {
-            MAYBE_UNUSED size_t totalSize = sizeof(uint32_t) +
-                streamIds_.size() * sizeof(DiskStreamId) + sizeof(uint32_t) +
-                writtenRecords_.size() * sizeof(DiskRecordInfo);
-            XR_LOGW(
-                "Failed to use preallocated index. Wasted {} bytes reserved to compress {} bytes, "
-                "{:.2f}% estimated.",
-                preallocatedIndexRecordSize_,
-                totalSize,
-                preallocatedIndexRecordSize_ * 100.f / totalSize);
-          }
+      // a failure to set the position might be a failure to write the last records: don't ignore it
+      IF_ERROR_LOG_AND_RETURN(file.setPos(fileHeader_.indexRecordOffset));
+      uint32_t lastRecordSize = static_cast<uint32_t>(descriptionRecordToIndexRecord);
+      int status = writeClassicIndexRecord(
+          file,
+          streamIds_,
+          writtenRecords_,
+          lastRecordSize,
+          compressor_,
+          kCompressionLevels[retryIndex],
+          preallocatedIndexRecordSize_);
+      if (status == 0) {
+        indexRecordWritten = true;
+        outLastRecordSize = lastRecordSize;
+      } else if (status != TOO_MUCH_DATA) {
+        return status;
+      } else {
+        if (kLogStats) {
+          MAYBE_UNUSED size_t totalSize = sizeof(uint32_t) +
+              streamIds_.size() * sizeof(DiskStreamId) + sizeof(uint32_t) +
+              writtenRecords_.size() * sizeof(DiskRecordInfo);
+          XR_LOGW(
+              "Failed to use preallocated index. Wasted {} bytes reserved to compress {} bytes, "
+              "{:.2f}% estimated.",
+              preallocatedIndexRecordSize_,
+              totalSize,
+              preallocatedIndexRecordSize_ * 100.f / totalSize);
         }
       }
     } while (!indexRecordWritten && ++retryIndex < kCompressionLevels.size());
-- 
2.43.0


From 1d62b95e0a11adcb961ee658d8e7ccedabdb16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 08/80] fix: a flush error while adding a chunk silently loses
 data

---
 vrs/DiskFile.cpp | 10 ++++++++--
 vrs/DiskFile.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 9cbc192..b167649 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -86,6 +86,10 @@ int DiskFileT<FileChunk>::close() {
   currentChunk_ = nullptr;
   filesOpenCount_ = 0;
   lastRWSize_ = 0;
+  if (lastError_ == 0) {
+    lastError_ = flushError_;
+  }
+  flushError_ = 0;
   return lastError_;
 }
 
@@ -268,8 +272,8 @@ int DiskFileT<FileChunk>::write(const void* buffer, size_t length) {
   if (readOnly_) {
     return DISKFILE_READ_ONLY;
   }
-  lastError_ = 0;
-  if (length == 0) {
+  lastError_ = flushError_;
+  if (length == 0 || lastError_ != 0) {
     return lastError_;
   }
   lastError_ = currentChunk_->write(buffer, length, lastRWSize_);
@@ -419,7 +423,9 @@ int DiskFileT<FileChunk>::addChunk(const string& chunkFilePath) {
     currentChunk_->setSize(pos);
     if ((lastError_ = currentChunk_->flush()) != 0) {
       // We're s***d: the last chunk is messed up, no point in trying to use the new one
+      flushError_ = lastError_;
       newChunk.close();
+      filesOpenCount_--;
       os::remove(chunkFilePath);
       return lastError_;
     }
diff --git a/vrs/DiskFile.h b/vrs/DiskFile.h
index 79859ac..7ab33af 100644
--- a/vrs/DiskFile.h
+++ b/vrs/DiskFile.h
@@ -172,6 +172,7 @@ class VRS_API DiskFileT : public WriteFileHandler {
 
   size_t lastRWSize_{};
   int lastError_{};
+  int flushError_{}; // data was lost while trying to switch to a new chunk
   bool readOnly_{true};
 };
 
-- 
2.43.0


From c147a6413582d40b02e9865786a85bc9a83c149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 09/80] fix: a failing aio_write() submission deadlocks the
 writing thread

The completion callback was called from start_write() while the caller holds
buffers_mutex_, which the callback locks again.
---
 vrs/AsyncDiskFileChunk.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 4618cba..edd9a94 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -457,7 +457,6 @@ int AsyncBuffer::start_write(
       io_errno = -1;
     }
   }
-  // The submission failed, call the cleanup function.
   // Note that the return value of aio_write is a subset of the aio_return (which is what a normal
   // completion calls). `aio_write` will either return -1 and set perror (same as aio_return), or
   // will return 0
@@ -478,11 +477,9 @@ int AsyncBuffer::start_write(
 #endif
 
 #if POSIX_AIO_SUPPORTED() || IS_WINDOWS_PLATFORM()
-  if (io_return != 0) {
-    // If aio_write failed call the completion callback immediately to free the buffer
-    on_complete_(io_return, io_errno);
-  }
-  return static_cast<int>(io_return);
+  // If the submission failed, the completion callback will never be called: it can't be called
+  // from here, because the caller already holds the lock that the completion routine needs.
+  return io_return != 0 ? io_errno : SUCCESS;
 #endif
 }
 
@@ -1024,6 +1021,7 @@ void AsyncDiskFileChunk::pump_buffers_locked() {
   // Move as many queued buffers as we can to the writing state
   while (buffers_writing_ < iodepth_ && !buffers_queued_.empty()) {
     int result = SUCCESS;
+    AsyncBuffer* buffer = buffers_queued_.front().buffer_;
     {
       // N.B. item's storage in in buffers_queued_, don't `pop_front()` until we're done using
       // it
@@ -1031,10 +1029,15 @@ void AsyncDiskFileChunk::pump_buffers_locked() {
       result = item.buffer_->start_write(item.file_, item.offset_, std::move(item.callback_));
     }
     buffers_queued_.pop_front();
-    // Note that `async_error_` is set by the completion routine on a start_write failure, no need
-    // to modify it here
     if (result == SUCCESS) {
       buffers_writing_ += 1;
+    } else {
+      // The write was never started, so the completion routine won't be called
+      int no_error = SUCCESS;
+      async_error_.compare_exchange_strong(no_error, result);
+      buffer->clear();
+      buffers_free_.push_back(buffer);
+      buffer_freed_cv_.notify_one();
     }
   }
 }
-- 
2.43.0


From d629c570d4341f1a771eae4c2d91a0c354ee1cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 10/80] fix: records skipped after a write error stay counted
 in the tracked queue size

---
 vrs/RecordFileWriter.cpp | 14 ++++++++++----
 vrs/RecordFileWriter.h   |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index b31dbe5..bfc95f8 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1063,6 +1063,14 @@ void RecordFileWriter::writeOneRecord(
   record->recycle();
 }
 
+void RecordFileWriter::skipOneRecord(RecordFileWriter_::RecordWriterData& rwd, Record* record) {
+  if (queueByteSize_ && writerThreadData_ != nullptr) { // writeToFile() doesn't queue records
+    queueByteSize_->fetch_sub(record->getSize(), memory_order_relaxed);
+  }
+  rwd.skippedRecords++;
+  record->recycle();
+}
+
 int RecordFileWriter::writeRecordsSingleThread(SortedRecords& records, int lastError) {
   if (LOG_FILE_OPERATIONS) {
     XR_LOGD("Starting to write {} records", records.size());
@@ -1073,8 +1081,7 @@ int RecordFileWriter::writeRecordsSingleThread(SortedRecords& records, int lastE
   for (auto& r : records) {
     Record* record = r.record;
     if (rwd.getError() != 0) {
-      rwd.skippedRecords++;
-      record->recycle();
+      skipOneRecord(rwd, record);
     } else {
       uint32_t compressedSize =
           record->shouldTryToCompress() ? record->compressRecord(compressor) : 0;
@@ -1143,8 +1150,7 @@ int RecordFileWriter::writeRecordsMultiThread(
       Record* record = resultsIter->first.record;
       CompressionJob* job = resultsIter->second;
       if (rwd.getError() != 0) {
-        rwd.skippedRecords++;
-        record->recycle();
+        skipOneRecord(rwd, record);
       } else {
         const StreamId streamId = resultsIter->first.streamId;
         writeOneRecord(rwd, record, streamId, job->getCompressor(), job->getCompressedSize());
diff --git a/vrs/RecordFileWriter.h b/vrs/RecordFileWriter.h
index aed18af..e35551b 100644
--- a/vrs/RecordFileWriter.h
+++ b/vrs/RecordFileWriter.h
@@ -308,6 +308,7 @@ class VRS_API RecordFileWriter {
       StreamId id,
       Compressor& compressor,
       uint32_t compressedSize);
+  void skipOneRecord(RecordFileWriter_::RecordWriterData& rwd, Record* record); ///< internal
   int completeAndCloseFile(); ///< internal
 
   void backgroundWriteCollectedRecord(); ///< internal
-- 
2.43.0


From 670a339d2082b84e4c3788b4b48507694e26d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 11/80] fix: purging keeps an older record of equal time, and
 leaves records out of order in memory

Keep the last of the newest state and configuration records, and leave the kept
records in place: putting them back in front broke the order by timestamp that
purging and collecting rely on.
---
 vrs/RecordManager.cpp | 59 ++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 75511a6..794be24 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -130,44 +130,35 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
   uint32_t count = 0;
   unique_lock<mutex> guard{mutex_};
   // we purge everything "old", but we keep the newest state & configuration records,
-  // and all TagsRecords
-  Record* lastState = nullptr;
-  Record* lastConfiguration = nullptr;
-  list<Record*> tagsRecords;
-  auto iter = activeRecords_.begin();
-  while (iter != activeRecords_.end() && (*iter)->timestamp_ < oldestTimestamp) {
+  // and all TagsRecords. What we keep stays where it is, so that activeRecords_ remains sorted.
+  const auto purge = [&](list<Record*>::iterator iter) XR_TSA_NO_THREAD_SAFETY_ANALYSIS {
     Record* record = *iter;
-    activeRecords_.erase(iter);
-    if (record->getRecordType() == Record::Type::STATE &&
-        (lastState == nullptr || lastState->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastState);
-    } else if (
-        record->getRecordType() == Record::Type::CONFIGURATION &&
-        (lastConfiguration == nullptr ||
-         lastConfiguration->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastConfiguration);
-    } else if (record->getRecordType() == Record::Type::TAGS) {
-      tagsRecords.push_back(record);
-      record = nullptr;
+    auto next = activeRecords_.erase(iter);
+    if (recycleBuffers && cache_.size() < maxCacheSize_) {
+      cache_.emplace_back(record);
+    } else {
+      delete record;
     }
-    if (record != nullptr) {
-      if (recycleBuffers && cache_.size() < maxCacheSize_) {
-        cache_.emplace_back(record);
-      } else {
-        delete record;
+    ++count;
+    return next;
+  };
+  auto lastState = activeRecords_.end();
+  auto lastConfiguration = activeRecords_.end();
+  auto iter = activeRecords_.begin();
+  while (iter != activeRecords_.end() && (*iter)->timestamp_ < oldestTimestamp) {
+    const Record::Type recordType = (*iter)->getRecordType();
+    if (recordType == Record::Type::STATE || recordType == Record::Type::CONFIGURATION) {
+      // activeRecords_ is sorted, so the newest record is the last one we find
+      auto& last = recordType == Record::Type::STATE ? lastState : lastConfiguration;
+      if (last != activeRecords_.end()) {
+        purge(last);
       }
-      ++count;
+      last = iter++;
+    } else if (recordType == Record::Type::TAGS) {
+      ++iter;
+    } else {
+      iter = purge(iter);
     }
-    iter = activeRecords_.begin();
-  }
-  if (lastState != nullptr) {
-    activeRecords_.emplace_front(lastState);
-  }
-  if (lastConfiguration != nullptr) {
-    activeRecords_.emplace_front(lastConfiguration);
-  }
-  if (!tagsRecords.empty()) {
-    activeRecords_.insert(activeRecords_.begin(), tagsRecords.begin(), tagsRecords.end());
   }
   return count;
 }
-- 
2.43.0


From 5cfd6f90756516d05d1596071d85eebd79897643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 12/80] fix: automatic purging can still remove records after a
 recording was started

---
 vrs/RecordFileWriter.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index bfc95f8..e8a984e 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -479,13 +479,12 @@ void RecordFileWriter::backgroundPurgeThreadActivity() {
       waitDelay = 1;
     } else {
       double maxTimestamp = numeric_limits<double>::lowest();
-      { // mutex guard
-        unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
-        if (purgeThreadData_->maxTimestampProvider != nullptr) {
-          maxTimestamp = purgeThreadData_->maxTimestampProvider();
-        }
-        waitDelay = purgeThreadData_->autoPurgeDelay;
-      } // mutex guard
+      // Purge while holding the mutex, so that purging can't be in progress once it was paused.
+      unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
+      if (!purgeThreadData_->purgingPaused_ && purgeThreadData_->maxTimestampProvider != nullptr) {
+        maxTimestamp = purgeThreadData_->maxTimestampProvider();
+      }
+      waitDelay = purgeThreadData_->autoPurgeDelay;
       if (waitDelay > 0 && maxTimestamp > numeric_limits<double>::lowest()) {
         purgeOldRecords(maxTimestamp);
       }
@@ -512,6 +511,7 @@ int RecordFileWriter::createFileAsync(const string& filePath, bool splitHead) {
     XR_LOGD("Created file {}", filePath);
   }
   if (purgeThreadData_ != nullptr) {
+    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex}; // wait for any ongoing purge
     purgeThreadData_->purgingPaused_ = true;
   }
   if (queueByteSize_) {
-- 
2.43.0


From 9996c1768f03cb66b37c1c67ec5cf84ef48b21b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:38 +0000
Subject: [PATCH 13/80] fix: a chunk is announced as complete when adding the
 next chunk failed

---
 vrs/RecordFileWriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index e8a984e..7bf02c2 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1037,13 +1037,15 @@ void RecordFileWriter::writeOneRecord(
   if (rwd.currentChunkSize > 0 && rwd.currentChunkSize + recordDiskSize >= maxChunkSize_) {
     NewChunkNotifier newChunkNotifier(*file_, newChunkHandler_);
     // AddChunk() preserves the current chunk on error.
-    XR_VERIFY(
+    bool chunkAdded = XR_VERIFY(
         file_->addChunk() == 0,
         "Add chunk failed: {}, {}",
         file_->getLastError(),
         errorCodeToMessage(file_->getLastError()));
     rwd.currentChunkSize = 0; // reset, even if addChunk() failed to reduce retrying.
-    newChunkNotifier.notify(1); // offset chunk index by 1
+    if (chunkAdded) {
+      newChunkNotifier.notify(1); // offset chunk index by 1
+    }
   }
   if (queueByteSize_ && writerThreadData_ != nullptr) { // writeToFile() doesn't queue records
     queueByteSize_->fetch_sub(record->getSize(), memory_order_relaxed);
-- 
2.43.0


From 6b1ed543658c6881e3b3cc60fa55be980ab2a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 14/80] fix: a chunk listener outlives a failed file creation,
 or replaces the one of the file being written

---
 vrs/RecordFileWriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 7bf02c2..4904020 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -536,9 +536,16 @@ int RecordFileWriter::createChunkedFile(
     const string& filePath,
     size_t maxChunkSizeMB,
     unique_ptr<NewChunkHandler>&& chunkHandler) {
+  if (writerThreadData_ != nullptr) {
+    return FILE_ALREADY_OPEN; // preserve the settings of the file being written
+  }
   setMaxChunkSizeMB(maxChunkSizeMB);
   newChunkHandler_ = std::move(chunkHandler);
-  return createFileAsync(filePath, true);
+  int error = createFileAsync(filePath, true);
+  if (error != 0) {
+    newChunkHandler_.reset(); // don't notify of the chunks of another file
+  }
+  return error;
 }
 
 void RecordFileWriter::setMaxChunkSizeMB(size_t maxChunkSizeMB) {
-- 
2.43.0


From d0b87d969103a51e92bd92120dc3b679dad42373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 15/80] fix: a file which can't be re-opened for updates is
 left without an open chunk

reopenForUpdates() closed all the chunks, and when the current one could not be opened for writing
(a read-only file, for instance), the file was used without any open chunk: repairing the index of
such a file crashed.
---
 vrs/DiskFile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index b167649..493385b 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -252,8 +252,14 @@ int DiskFileT<FileChunk>::reopenForUpdates() {
   }
   readOnly_ = false;
   if (openChunk(currentChunk_) != 0) {
+    // leave the file open in read-only mode, or not open at all
+    int error = lastError_;
     readOnly_ = true;
-    return lastError_;
+    if (openChunk(currentChunk_) != 0) {
+      close();
+    }
+    lastError_ = error;
+    return error;
   }
   return 0;
 }
-- 
2.43.0


From 5779951a993264aa5204f1626997a5cd1c882d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 16/80] fix: a repaired index can list a discarded record, and
 an interrupted repair loses a record

The record discarded because what follows is not valid stayed in the index written to the file. When
a repair was interrupted after the index record was written over an incomplete record, the next
rebuild discarded the last user record, because of what was left after the index record.
---
 vrs/IndexRecord.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 476c605..416e4e2 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -808,6 +808,8 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
   FileFormat::RecordHeader* recordHeader =
       reinterpret_cast<FileFormat::RecordHeader*>(headerBuffer.data());
   uint32_t previousRecordSize = 0;
+  uint32_t beforeLastRecordSize = 0; // size of the record before the last one in the index
+  bool lastIsUserRecord = false;
   bool distrustLastRecord = false;
   int error = 0;
   do {
@@ -871,6 +873,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
         // The first user record of a split header file has no data in the index at creation.
         previousRecordSize = static_cast<uint32_t>(recordHeaderSize);
       }
+      lastIsUserRecord = false;
       BREAK_ON_ERROR(file_.setPos(absolutePosition));
       continue;
     } else if (dataSize > 0) {
@@ -902,6 +905,8 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       if (isValid(recordType)) {
         streamIds_.insert(streamId);
         index_.emplace_back(timestamp, absolutePosition, streamId, recordType);
+        lastIsUserRecord = true;
+        beforeLastRecordSize = previousRecordSize;
         if (index_.size() > 1 && index_.back() < index_[index_.size() - 2]) {
           sortErrorCount_++;
         }
@@ -918,6 +923,8 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
         error = REINDEXING_ERROR;
         break;
       }
+    } else {
+      lastIsUserRecord = false;
     }
     absolutePosition += recordSize;
     previousRecordSize = recordSize;
@@ -947,11 +954,15 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
         static_cast<int>(recordHeader->recordType));
     XR_LOGI("Format Version: {}", recordHeader->formatVersion);
   }
-  if (distrustLastRecord && !index_.empty()) {
+  if (distrustLastRecord && lastIsUserRecord) {
     XR_LOGW(
         "Reindexing: record #{}. Discarding last record, because it's suspicious.", index_.size());
     index_.pop_back(); // don't trust that last record
+    if (diskIndex_) {
+      diskIndex_->pop_back();
+    }
     absolutePosition -= previousRecordSize;
+    previousRecordSize = beforeLastRecordSize;
   }
 
   sort(index_.begin(), index_.end());
@@ -995,11 +1006,13 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       // At this point, "absolutePosition" is the first byte after the last complete record.
       // Write the index record at that location, and ignore everything past that.
       BREAK_ON_ERROR(writeFile->setPos(absolutePosition));
+      // maybe the chunk was larger (partial record). We can cut off possible extra bytes.
+      // Do it first: if we're interrupted, they must not look like they follow an index record.
+      writeFile->forgetFurtherChunks(absolutePosition);
+      BREAK_ON_ERROR(writeFile->truncate());
       uint32_t indexSize = previousRecordSize;
       BREAK_ON_ERROR(writeClassicIndexRecord(
           *writeFile, streamIds_, *diskIndex_, indexSize, compressor, kDefaultCompression));
-      // maybe the chunk was larger (partial record). We can cut off possible extra bytes.
-      BREAK_ON_ERROR(writeFile->truncate());
       // Go update the file's header to point to the index record.
       BREAK_ON_ERROR(writeFile->setPos(0));
       size_t minUpdateSize = offsetof(FileFormat::FileHeader, indexRecordOffset) +
-- 
2.43.0


From f09955fdd42792f39a32ea043e98bbf6aace7f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 17/80] fix: a read error while rebuilding an index makes
 records disappear

The records found before the error were taken for the whole file, without any error reported, and
when repairing, the file was truncated after the last record read.
---
 vrs/IndexRecord.cpp      | 19 +++++++++++++++++--
 vrs/IndexRecord.h        |  8 ++++++++
 vrs/RecordFileReader.cpp |  8 +++++++-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 416e4e2..c143bf5 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -800,6 +800,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
   streamIds_.clear();
   index_.clear();
   sortErrorCount_ = 0;
+  rebuildReadError_ = 0;
   diskIndex_ = writeFixedIndex ? make_unique<deque<IndexRecord::DiskRecordInfo>>() : nullptr;
   const size_t kFirstAllocation = 10000; // arbitrary start
   index_.reserve(kFirstAllocation);
@@ -812,6 +813,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
   bool lastIsUserRecord = false;
   bool distrustLastRecord = false;
   int error = 0;
+  int readError = 0; // the file could not be read, which is not the same as being truncated or bad
   do {
     if (file_.read(recordHeader, recordHeaderSize) != 0) {
       if (file_.getLastRWSize() == 0 && file_.isEof()) {
@@ -822,8 +824,11 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
           "Reindexing: record #{}. Can't read record header. Read {} bytes, expected {} bytes.",
           index_.size(),
           file_.getLastRWSize(),
-          previousRecordSize);
+          recordHeaderSize);
       error = REINDEXING_ERROR;
+      if (absolutePosition + recordHeaderSize <= totalFileSize_) {
+        readError = file_.getLastError();
+      }
       break;
     }
     uint32_t headerPreviousRecordSize = recordHeader->previousRecordSize;
@@ -874,7 +879,11 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
         previousRecordSize = static_cast<uint32_t>(recordHeaderSize);
       }
       lastIsUserRecord = false;
-      BREAK_ON_ERROR(file_.setPos(absolutePosition));
+      if (absolutePosition <= totalFileSize_) {
+        BREAK_ON_ERROR(readError = file_.setPos(absolutePosition));
+      } else {
+        BREAK_ON_ERROR(file_.setPos(absolutePosition));
+      }
       continue;
     } else if (dataSize > 0) {
       if (absolutePosition + recordSize > totalFileSize_) {
@@ -888,6 +897,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       }
       if (file_.skipForward(dataSize) != 0) {
         error = file_.getLastError();
+        readError = error;
         XR_LOGW(
             "Reindexing: record #{}. Can't skip {} bytes of record data: {}",
             index_.size(),
@@ -971,6 +981,11 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       os::getTimestampSec() - beforeIndexing,
       index_.size(),
       streamIds_.size());
+  if (readError != 0) {
+    // There are probably more records: never patch the file based on what could be read
+    rebuildReadError_ = readError;
+    return readError;
+  }
   if (!writeFixedIndex) {
     file_.forgetFurtherChunks(absolutePosition);
     return error;
diff --git a/vrs/IndexRecord.h b/vrs/IndexRecord.h
index ea2fdf9..95529a0 100644
--- a/vrs/IndexRecord.h
+++ b/vrs/IndexRecord.h
@@ -218,6 +218,13 @@ class VRS_API Reader {
   /// @return 0 on success, or a non-zero error code.
   int rebuildIndex(bool writeFixedIndex);
 
+  /// Tell if the file could not be read entirely while rebuilding its index.
+  /// @return 0 if the whole file was read, maybe to find that its end is missing or is corrupt,
+  /// or the error code of the operation which failed.
+  int getRebuildReadError() const {
+    return rebuildReadError_;
+  }
+
  private:
   int readRecord(
       int64_t indexRecordOffset,
@@ -267,6 +274,7 @@ class VRS_API Reader {
   bool hasSplitHeadChunk_{};
   int32_t sortErrorCount_{};
   int32_t droppedRecordCount_{};
+  int rebuildReadError_{0};
 };
 
 /// This is used to count records to different kinds
diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 7bfa0dc..1a6231a 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -433,7 +433,13 @@ int RecordFileReader::readFileDetails(
       return INDEX_RECORD_ERROR;
     }
     XR_LOGW("Index incomplete. Rebuilding index of '{}'...", fileSpec.getEasyPath());
-    indexReader.rebuildIndex(autoWriteFixedIndex);
+    error = indexReader.rebuildIndex(autoWriteFixedIndex);
+    if (indexReader.getRebuildReadError() != 0) {
+      return indexReader.getRebuildReadError(); // we can't tell which records are in the file
+    }
+    if (!file_->isOpened()) {
+      return error; // the file could not be re-opened after trying to modify it
+    }
     if (!file_->isReadOnly()) {
       XR_LOGI("Re-opening file in read-only mode.");
       return doOpenFile(fileSpec, /* autoWriteFixedIndex */ false, /* checkSignatureOnly */ false);
-- 
2.43.0


From 73e52027998438b8139bb945583bc950ffe0ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 18/80] fix: a batch sent while the writer thread is busy may
 not be written until the file is closed

---
 vrs/RecordFileWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 4904020..1352cb6 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -407,9 +407,9 @@ void RecordFileWriter::backgroundWriterThreadActivity() {
         backgroundWriteCollectedRecord();
       }
     } else if (status == os::EventChannel::Status::TIMEOUT) {
-      if (autoCollectRecords(false)) {
-        backgroundWriteCollectedRecord();
-      }
+      autoCollectRecords(false);
+      // always check for batches: their event is missed if it came while we weren't waiting
+      backgroundWriteCollectedRecord();
     } else {
       XR_LOGE("Background thread quit on error");
       return;
-- 
2.43.0


From b266661f1bb1499e04e8a0fb46680a5c78468fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 19/80] fix: report write errors met while moving between the
 chunks of a disk file

Rewinding an open chunk, or closing one to limit the number of open files,
flushes pending data: the errors were ignored, and the data silently lost.
---
 vrs/DiskFile.cpp      | 10 +++++++---
 vrs/DiskFileChunk.hpp |  7 +++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 493385b..0919dd7 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -369,13 +369,17 @@ template <class FileChunk>
 int DiskFileT<FileChunk>::openChunk(FileChunk* chunk) {
   if (chunk->isOpened()) {
     currentChunk_ = chunk;
-    chunk->rewind();
-    lastError_ = 0;
+    lastError_ = chunk->rewind();
   } else {
     lastError_ = chunk->open(readOnly_, options_);
     if (lastError_ == 0) {
       if (filesOpenCount_++ > kMaxFilesOpenCount && currentChunk_ != nullptr) {
-        closeChunk(currentChunk_);
+        int error = closeChunk(currentChunk_);
+        if (error != 0 && !readOnly_) {
+          // data already accepted was lost
+          flushError_ = error;
+          lastError_ = error;
+        }
       }
       currentChunk_ = chunk;
     }
diff --git a/vrs/DiskFileChunk.hpp b/vrs/DiskFileChunk.hpp
index 1c79b3e..6b5cad2 100644
--- a/vrs/DiskFileChunk.hpp
+++ b/vrs/DiskFileChunk.hpp
@@ -80,8 +80,11 @@ class DiskFileChunk {
   bool isOpened() const {
     return file_ != nullptr;
   }
-  void rewind() const {
-    ::rewind(file_);
+  int rewind() {
+    // unlike ::rewind(), report pending data that can't be written
+    int error = seek(0, SEEK_SET);
+    ::clearerr(file_);
+    return error;
   }
   int flush() {
     return ::fflush(file_) != 0 ? errno : SUCCESS;
-- 
2.43.0


From cfd4c22a98ba42ee3a1407d497d9b70433005892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 20/80] fix: close all the chunks of a disk file before adding
 one

Adding a chunk may move the chunk objects in memory: asynchronous writes
still in flight for a previous chunk then complete on a dead object.
---
 vrs/DiskFile.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 0919dd7..5087a28 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -452,6 +452,15 @@ int DiskFileT<FileChunk>::addChunk(const string& chunkFilePath) {
     chunkOffset = currentChunk_->getOffset() + currentChunk_->getSize();
   }
   newChunk.setOffset(chunkOffset);
+  if (!readOnly_) {
+    // adding a chunk may move the other chunks, which can't happen with asynchronous writes pending
+    for (FileChunk& chunk : *chunks_) {
+      int error = closeChunk(&chunk);
+      if (error != 0) {
+        flushError_ = error; // data already accepted was lost
+      }
+    }
+  }
   chunks_->push_back(std::move(newChunk));
   currentChunk_ = &chunks_->back();
   lastError_ = 0;
-- 
2.43.0


From 6caa5c243bc9d908d560224df7d0096e1f7fc13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 21/80] fix: getLinkedTarget() throws when the path can't be
 accessed

---
 vrs/os/Utils.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vrs/os/Utils.cpp b/vrs/os/Utils.cpp
index bb926b2..502c133 100644
--- a/vrs/os/Utils.cpp
+++ b/vrs/os/Utils.cpp
@@ -231,11 +231,15 @@ const string& getTempFolder() {
 /// Returns true if the source was really a link, but you can *always* use outLinkedPath.
 bool getLinkedTarget(const string& sourcePath, string& outLinkedPath) {
   fs::path source(sourcePath);
-  if (fs::is_symlink(source)) {
+  fs_error_code ec; // don't throw when the path can't be accessed
+  if (fs::is_symlink(source, ec)) {
     // Note: apply canonical() instead of readlink()
     // so that relative paths in symlinks are resolved properly
-    outLinkedPath = fs::canonical(source).string();
-    return true;
+    fs::path target = fs::canonical(source, ec);
+    if (!ec) {
+      outLinkedPath = target.string();
+      return true;
+    }
   }
   outLinkedPath = sourcePath;
   return false;
-- 
2.43.0


From 6bee6e481fda61f721a0430b484f5c647a47f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 22/80] fix: a seek error when starting to rebuild the index
 makes the file look empty

---
 vrs/IndexRecord.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index c143bf5..d47ff03 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -779,6 +779,9 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
         "Reindexing: Can't jump to offset {}. Error: {}",
         fileHeaderSize,
         errorCodeToMessage(file_.getLastError()));
+    if (file_.getLastError() < kPlatformUserErrorsStart) {
+      rebuildReadError_ = file_.getLastError(); // system error: nothing to do with the file's content
+    }
     return file_.getLastError();
   }
   if (hasSplitHeadChunk_) {
@@ -794,6 +797,9 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
           "Reindexing: Can't jump to offset {}. Error: {}",
           chunkSize,
           errorCodeToMessage(file_.getLastError()));
+      if (file_.getLastError() < kPlatformUserErrorsStart) {
+        rebuildReadError_ = file_.getLastError();
+      }
       return file_.getLastError();
     }
   }
-- 
2.43.0


From 5b45523c623825684a1200fa799f2ba6c11cf409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 23/80] fix: opening a file succeeds without its tags when
 reading them fails

---
 vrs/RecordFileReader.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 1a6231a..8136f0f 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -369,6 +369,13 @@ int RecordFileReader::readFileHeader(
   return 0;
 }
 
+namespace {
+// System errors are about accessing the file, they don't tell anything about the file's content
+bool isSystemError(int error) {
+  return error > 0 && error < kPlatformUserErrorsStart;
+}
+} // namespace
+
 int RecordFileReader::readFileDetails(
     const FileSpec& fileSpec,
     bool autoWriteFixedIndex,
@@ -385,7 +392,8 @@ int RecordFileReader::readFileDetails(
   // Read the description record
   int64_t descriptionRecordOffset = fileHeader.descriptionRecordOffset;
   if (descriptionRecordOffset > 0) {
-    if (file_->setPos(descriptionRecordOffset) == 0) {
+    error = file_->setPos(descriptionRecordOffset);
+    if (error == 0) {
       uint32_t descriptionSize = 0;
       LOG_PROGRESS(
           DescriptionRecord::readDescriptionRecord(
@@ -402,6 +410,9 @@ int RecordFileReader::readFileDetails(
     } else {
       XR_LOGW("Error accessing the file description record.");
     }
+    if (isSystemError(error)) {
+      return error; // the description may be fine, but we can't read it
+    }
   } else {
     XR_LOGW("No description record.");
   }
@@ -456,7 +467,10 @@ int RecordFileReader::readFileDetails(
       }
       XR_LOGD("Reading TagsRecord for {}", iter->streamId.getName());
       tagsPlayer->prepareToReadTagsFor(iter->streamId);
-      readRecord(*iter, tagsPlayer.get());
+      error = readRecord(*iter, tagsPlayer.get());
+      if (isSystemError(error)) {
+        return error; // the tags may be fine, but we can't read them
+      }
     }
   }
   // If there was any, remove all the TagsRecords from the index.
-- 
2.43.0


From 067fceb13cc2534ae803655291d8a39d5ea152ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 24/80] fix: a reader which failed to open a file keeps it open

---
 vrs/RecordFileReader.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 8136f0f..57512be 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -298,6 +298,10 @@ int RecordFileReader::doOpenFile(
           recordIndex_,
           fileHasAnIndex_) != 0) {
     error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
+    if (error != 0) {
+      closeFile();
+      return error;
+    }
     // Maybe write the file's details to disk
     if (tryToUseCache && !detailsCacheFilePath.empty()) {
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
@@ -325,21 +329,20 @@ int RecordFileReader::doOpenFile(
   }
   openProgressLogger_->logDuration("File open", os::getTimestampSec() - beforeTime);
   endOfUserRecordsOffset_ = fileHeader.getEndOfUserRecordsOffset(file_->getTotalSize());
-  if (error == 0) {
-    // count the records of each stream & type
-    streamRecordCounts_.clear();
-    for (const auto& record : recordIndex_) {
-      if (streamRecordCounts_.size() > 5000) {
-        XR_LOGE("Too many different stream IDs found in this file. Let's stop the carnage.");
-        return INDEX_RECORD_ERROR;
-      }
-      streamRecordCounts_[record.streamId][record.recordType]++;
+  // count the records of each stream & type
+  streamRecordCounts_.clear();
+  for (const auto& record : recordIndex_) {
+    if (streamRecordCounts_.size() > 5000) {
+      XR_LOGE("Too many different stream IDs found in this file. Let's stop the carnage.");
+      closeFile();
+      return INDEX_RECORD_ERROR;
     }
+    streamRecordCounts_[record.streamId][record.recordType]++;
   }
-  if (error == 0 && fileSpec.getExtraAsBool("sort_records", false)) {
+  if (fileSpec.getExtraAsBool("sort_records", false)) {
     sort(recordIndex_.begin(), recordIndex_.end(), fullRecordCompare);
   }
-  return error;
+  return 0;
 }
 
 int RecordFileReader::readFileHeader(
-- 
2.43.0


From bc1ca77da5387836917f4a96e6d845f05ca2ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 25/80] fix: the last chunks of a file are ignored when
 checking that they exist fails

---
 vrs/RecordFileReader.cpp | 4 +++-
 vrs/os/Utils.cpp         | 7 +++++++
 vrs/os/Utils.h           | 3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 57512be..8892bdb 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -182,7 +182,9 @@ int RecordFileReader::vrsFilePathToFileSpec(
   }
   for (size_t index = 1; /* nothing to check */; index++) {
     string chunkName = fmt::format("{}{}", root, index);
-    if (!os::isFile(chunkName)) {
+    int error = 0;
+    if (!os::isFile(chunkName, error)) {
+      IF_ERROR_LOG_AND_RETURN(error); // we can't tell if there are more chunks
       break; // it is not an error to not find more chunks, but we stop searching
     }
     outFileSpec.chunks.push_back(chunkName);
diff --git a/vrs/os/Utils.cpp b/vrs/os/Utils.cpp
index 502c133..2e2e0a4 100644
--- a/vrs/os/Utils.cpp
+++ b/vrs/os/Utils.cpp
@@ -374,8 +374,15 @@ bool isDir(const string& path) {
 }
 
 bool isFile(const string& path) {
+  int error = 0;
+  return isFile(path, error);
+}
+
+bool isFile(const string& path, int& outError) {
   fs_error_code ec;
   auto type = fs::status(fs::path(path), ec).type(); // This will traverse symlinks
+  bool unknown = ec && type != kNotFoundFileType && ec.value() != ENAMETOOLONG;
+  outError = unknown ? ec.value() : 0;
   if (ec) { // Underlying OS API error - we cannot access it.
     return false;
   }
diff --git a/vrs/os/Utils.h b/vrs/os/Utils.h
index 3bb93a4..73cb662 100644
--- a/vrs/os/Utils.h
+++ b/vrs/os/Utils.h
@@ -92,6 +92,9 @@ int makeDirectories(const string& dir);
 /// File path helpers
 bool isDir(const string& path);
 bool isFile(const string& path);
+/// Same, telling apart a path that is not a file from a path that couldn't be checked.
+/// @param outError: set to 0, or to a system error, if there is no telling what the path is.
+bool isFile(const string& path, int& outError);
 std::vector<string> listDir(const string& dir);
 bool pathExists(const string& path);
 int64_t getFileSize(const string& path);
-- 
2.43.0


From 9e4fdf2f974c6947827f9181541924a1b264c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 26/80] fix: readRecord() succeeds when the player failed to
 read the record's data

---
 vrs/RecordFileReader.cpp | 4 +++-
 vrs/RecordReaders.cpp    | 7 +++++++
 vrs/RecordReaders.h      | 7 +++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 8892bdb..c944b3c 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1307,8 +1307,10 @@ int RecordFileReader::readRecord(
       }
     }
     streamPlayer->processRecord(header, readSize);
+    error = reader->getReadError(); // the player might have been reading data
     reader->finish();
-    return streamPlayer->recordReadComplete(*this, recordInfo);
+    int completeError = streamPlayer->recordReadComplete(*this, recordInfo);
+    return error != 0 ? error : completeError;
   }
   return 0;
 }
diff --git a/vrs/RecordReaders.cpp b/vrs/RecordReaders.cpp
index d3155ef..0ce675d 100644
--- a/vrs/RecordReaders.cpp
+++ b/vrs/RecordReaders.cpp
@@ -43,6 +43,7 @@ RecordReader* RecordReader::init(FileHandler& file, uint32_t diskSize, uint32_t
   file_ = &file;
   remainingDiskBytes_ = diskSize;
   remainingUncompressedSize_ = expandedSize;
+  readError_ = 0;
   return this;
 }
 
@@ -63,6 +64,9 @@ int UncompressedRecordReader::read(DataReference& destination, uint32_t& outRead
   int error = destination.readFrom(*file_, outReadSize);
   remainingDiskBytes_ -= outReadSize;
   remainingUncompressedSize_ -= outReadSize;
+  if (error != 0) {
+    readError_ = error;
+  }
   return error;
 }
 
@@ -119,6 +123,7 @@ int CompressedRecordReader::read(
       int error =
           file_->read(decompressor_.allocateCompressedDataBuffer(targetReadSize), targetReadSize);
       if (error != 0) {
+        readError_ = error;
         return error;
       }
       uint32_t readSize = static_cast<uint32_t>(file_->getLastRWSize());
@@ -134,9 +139,11 @@ int CompressedRecordReader::read(
     outReadSize += decompressedSize;
     remainingUncompressedSize_ -= decompressedSize;
     if (error != 0) {
+      readError_ = error;
       return error;
     }
     if (!readData && decompressedSize == 0) {
+      readError_ = NOT_ENOUGH_DATA;
       return NOT_ENOUGH_DATA;
     }
   } while (outReadSize < destSize);
diff --git a/vrs/RecordReaders.h b/vrs/RecordReaders.h
index 24d19d4..bae0540 100644
--- a/vrs/RecordReaders.h
+++ b/vrs/RecordReaders.h
@@ -92,6 +92,12 @@ class VRS_API RecordReader {
   /// @return The compression type.
   [[nodiscard]] virtual CompressionType getCompressionType() const = 0;
 
+  /// Tell if reading or decompressing the record's data failed since init() was called.
+  /// @return 0, or the last error.
+  int getReadError() const {
+    return readError_;
+  }
+
   // for warning/error throttling only
   const void* getRef() const {
     return file_;
@@ -101,6 +107,7 @@ class VRS_API RecordReader {
   FileHandler* file_;
   uint32_t remainingDiskBytes_;
   uint32_t remainingUncompressedSize_;
+  int readError_{0};
 };
 
 /// \brief RecordReader specialized to read uncompressed records. For VRS internal usage only.
-- 
2.43.0


From 6bc19b732f1ccf436a20655ed30bf57d77980111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 27/80] fix: a corrupt record can make reading a DataLayout
 allocate gigabytes

---
 vrs/ContentBlockReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index f54268d..8029334 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -455,6 +455,10 @@ bool DataLayoutBlockReader::readBlock(
     if (!XR_VERIFY(fixedDataSize + varDataSize <= kMaxRecordSize)) {
       return false;
     }
+    // the index comes from the file: don't allocate more than the record can possibly contain
+    if (!XR_VERIFY(varDataSize <= record.reader->getUnreadBytes())) {
+      return false;
+    }
     varData.resize(varDataSize);
     if (varDataSize > 0) {
       readBlockStatus = record.reader->read(varData);
-- 
2.43.0


From 58978d5d50108e402c6492d94348ac832be91b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 28/80] fix: a corrupt description record can make opening a
 file allocate gigabytes

---
 vrs/DescriptionRecord.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index 5424af1..20a6bc9 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -223,6 +223,9 @@ int readMap(FileHandler& file, map<StreamId, string>& outMap, uint32_t& sizeLeft
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
@@ -257,6 +260,9 @@ int readMap(FileHandler& file, map<StreamId, StreamTags>& outMap, uint32_t& size
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
@@ -314,6 +320,12 @@ int DescriptionRecord::readDescriptionRecord(
     return NOT_ENOUGH_DATA;
   }
   uint32_t dataSizeLeft = outDescriptionRecordSize - static_cast<uint32_t>(recordHeaderSize);
+  // don't trust the record size to be right: never expect more data than there is in the file
+  int64_t fileSizeLeft = max<int64_t>(file.getTotalSize() - file.getPos(), 0);
+  if (fileSizeLeft < dataSizeLeft) {
+    XR_LOGW("The description record goes past the end of the file. Corrupt?");
+    dataSizeLeft = static_cast<uint32_t>(fileSizeLeft);
+  }
   switch (recordHeader->formatVersion) {
     case kLegacyDescriptionFormatVersion: {
       map<StreamId, string> descriptions;
-- 
2.43.0


From cf361d72eb49861d6c749fb2b87aa6c38abca25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 29/80] fix: RecordFileReader: lookups for unknown streams or
 records do not alter the reader

getIndex(StreamId) created an entry for any stream asked for, and
getRecordStreamIndex() dereferenced null or foreign records.
---
 vrs/RecordFileReader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index c944b3c..e73ce1e 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -880,6 +880,10 @@ uint32_t RecordFileReader::getRecordIndex(const IndexRecord::RecordInfo* record)
 }
 
 uint32_t RecordFileReader::getRecordStreamIndex(const IndexRecord::RecordInfo* record) const {
+  // The pointer must be in our index before we can look at the record
+  if (recordIndex_.empty() || record < &recordIndex_.front() || record > &recordIndex_.back()) {
+    return static_cast<uint32_t>(recordIndex_.size());
+  }
   const vector<const IndexRecord::RecordInfo*>& index = getIndex(record->streamId);
   if (!index.empty() && record >= index.front() && record <= index.back()) {
     // Records are sorted in the global index, and a stream's index is a subset of the global index,
@@ -907,7 +911,10 @@ const vector<const IndexRecord::RecordInfo*>& RecordFileReader::getIndex(StreamI
       streamIndex_[recordIndex.streamId].emplace_back(&recordIndex);
     }
   }
-  return streamIndex_[streamId];
+  // never add entries for unknown streams: an empty streamIndex_ means it needs to be built
+  static const vector<const IndexRecord::RecordInfo*> sEmptyIndex;
+  auto iter = streamIndex_.find(streamId);
+  return iter != streamIndex_.end() ? iter->second : sEmptyIndex;
 }
 
 uint32_t RecordFileReader::getRecordCount(StreamId streamId) const {
-- 
2.43.0


From aa6bf5860884f15ddb01082c91af29af9fa1c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 30/80] fix: MultiRecordFileReader: close() closes the readers
 left by a failed open()

---
 vrs/MultiRecordFileReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/MultiRecordFileReader.cpp b/vrs/MultiRecordFileReader.cpp
index 5a18e67..7af3c47 100644
--- a/vrs/MultiRecordFileReader.cpp
+++ b/vrs/MultiRecordFileReader.cpp
@@ -100,7 +100,8 @@ void MultiRecordFileReader::setRelatedFileTags(std::vector<std::string>&& tags)
 }
 
 int MultiRecordFileReader::close() {
-  if (!isOpened_) {
+  // a failed open() may leave readers behind, without the files being considered opened
+  if (!isOpened_ && readers_.empty()) {
     return NO_FILE_OPEN;
   }
   int resultFinal = SUCCESS;
-- 
2.43.0


From 6d994dba92cd2ee5ad6891104cd19b1f3d0d6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 31/80] fix: FilteredFileReader: include the records at exactly
 the minimum time

---
 vrs/utils/FilteredFileReader.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/vrs/utils/FilteredFileReader.cpp b/vrs/utils/FilteredFileReader.cpp
index f448ac9..8db6507 100644
--- a/vrs/utils/FilteredFileReader.cpp
+++ b/vrs/utils/FilteredFileReader.cpp
@@ -497,6 +497,17 @@ inline bool configOrStateRecord(const IndexRecord::RecordInfo& record) {
       record.recordType == Record::Type::STATE;
 }
 
+// to compare: only the timestamps matters, so that no record at the start time is skipped
+inline vector<IndexRecord::RecordInfo>::const_iterator firstRecordAtOrAfter(
+    const vector<IndexRecord::RecordInfo>& records,
+    double timestamp) {
+  return lower_bound(
+      records.begin(),
+      records.end(),
+      timestamp,
+      [](const IndexRecord::RecordInfo& record, double time) { return record.timestamp < time; });
+}
+
 void FilteredFileReader::preRollConfigAndState() {
   preRollConfigAndState(
       [](RecordFileReader& recordFileReader, const IndexRecord::RecordInfo& record) {
@@ -514,9 +525,7 @@ void FilteredFileReader::preRollConfigAndState(const RecordReaderFunc& recordRea
   }
   vector<size_t> indexes;
   const auto& records = reader.getIndex();
-  // to compare: only the timestamps matters!
-  IndexRecord::RecordInfo firstTime(filter.minTime, 0, StreamId(), Record::Type::UNDEFINED);
-  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime);
+  auto lowerBound = firstRecordAtOrAfter(records, filter.minTime);
   if (lowerBound != records.end()) {
     size_t index = static_cast<size_t>(lowerBound - records.begin()); // guaranteed positive
     // For each stream & record type, track the records we need to write
@@ -602,8 +611,7 @@ void FilteredFileReader::iterateAdvanced(
   }
 
   const auto& records = reader.getIndex();
-  IndexRecord::RecordInfo firstTime(filter.minTime, 0, StreamId(), Record::Type::UNDEFINED);
-  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime);
+  auto lowerBound = firstRecordAtOrAfter(records, filter.minTime);
   if (lowerBound != records.end()) {
     size_t first = static_cast<size_t>(lowerBound - records.begin());
     for (size_t k = first; keepGoing && k < records.size(); ++k) {
-- 
2.43.0


From 0cfea03b30a252f9e4fa6e7339e8c18868736794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 32/80] fix: filterCopy and filterMerge report records which
 could not be read

---
 vrs/utils/FilterCopy.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/FilterCopy.cpp b/vrs/utils/FilterCopy.cpp
index 38b52b1..573e904 100644
--- a/vrs/utils/FilterCopy.cpp
+++ b/vrs/utils/FilterCopy.cpp
@@ -99,9 +99,26 @@ int filterCopy(
   int copyResult = throttledFileDelegate->createFile(pathToCopy);
   if (copyResult == 0) {
     // Init tracker progress early, to be sure we track the background thread queue size
-    filteredReader.preRollConfigAndState(); // make sure to copy most recent config & state records
+    int readResult = 0; // first read error, if any
+    RecordReaderFunc readRecord = [&readResult](
+                                      RecordFileReader& reader,
+                                      const IndexRecord::RecordInfo& record) {
+      int status = reader.readRecord(record);
+      if (status != 0) {
+        XR_LOGE("Failed to read record: {}", errorCodeToMessage(status));
+        if (readResult == 0) {
+          readResult = status;
+        }
+      }
+      return true; // copy everything we can
+    };
+    // make sure to copy most recent config & state records
+    filteredReader.preRollConfigAndState(readRecord);
     throttledWriter.initTimeRange(startTimestamp, endTimestamp, &filteredReader.reader);
-    filteredReader.iterateAdvanced(&throttledWriter);
+    if (!filteredReader.timeRangeValid()) {
+      cerr << "Time Range invalid: " << filteredReader.getTimeConstraintDescription() << "\n";
+    }
+    filteredReader.iterateAdvanced(readRecord, &throttledWriter);
     for (auto& filter : filters) {
       filter->flush();
     }
@@ -109,6 +126,9 @@ int filterCopy(
     if (writer.getBackgroundThreadQueueByteSize() != 0) {
       XR_LOGE("Unexpected count of bytes left in queue after copy!");
     }
+    if (copyResult == 0) {
+      copyResult = readResult; // don't report success if some records are missing
+    }
   }
   return copyResult;
 }
@@ -294,16 +314,26 @@ int filterMerge(
 
   int mergeResult = throttledFileDelegate->createFile(pathToCopy);
   if (mergeResult == 0) {
+    int readResult = 0; // first read error, if any
     // read all the records in order
     if (!records.empty()) {
       throttledWriter.initTimeRange(
           records.front().record->timestamp, records.back().record->timestamp);
       for (auto& recordSource : records) {
-        recordSource.reader->readRecord(*recordSource.record);
+        int status = recordSource.reader->readRecord(*recordSource.record);
+        if (status != 0) {
+          XR_LOGE("Failed to read record: {}", errorCodeToMessage(status));
+          if (readResult == 0) {
+            readResult = status;
+          }
+        }
         throttledWriter.onRecordDecoded(recordSource.record->timestamp);
       }
     }
     mergeResult = throttledFileDelegate->closeFile();
+    if (mergeResult == 0) {
+      mergeResult = readResult; // don't report success if some records are missing
+    }
   }
   return mergeResult;
 }
-- 
2.43.0


From d0ba8945781482a08e3d07b2b88d34c0faca1f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 33/80] fix: filterCopy and filterMerge do not leave dangling
 stream players in the readers

---
 vrs/utils/FilterCopy.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrs/utils/FilterCopy.cpp b/vrs/utils/FilterCopy.cpp
index 573e904..19db11c 100644
--- a/vrs/utils/FilterCopy.cpp
+++ b/vrs/utils/FilterCopy.cpp
@@ -130,6 +130,7 @@ int filterCopy(
       copyResult = readResult; // don't report success if some records are missing
     }
   }
+  filteredReader.reader.clearStreamPlayers(); // the players are going away
   return copyResult;
 }
 
@@ -335,6 +336,11 @@ int filterMerge(
       mergeResult = readResult; // don't report success if some records are missing
     }
   }
+  // the copiers are going away
+  firstRecordFilter.reader.clearStreamPlayers();
+  for (auto* recordFilter : moreRecordFilters) {
+    recordFilter->reader.clearStreamPlayers();
+  }
   return mergeResult;
 }
 
-- 
2.43.0


From 5a44a2987470ee92055a12731c90f4c7887bf9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 34/80] fix: file checks report the configuration & state
 records they could not read

---
 vrs/utils/Validation.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 7501f8c..8913a97 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -162,6 +162,16 @@ class RecordChecker : public StreamPlayer {
   CheckType checkType_;
 };
 
+bool preRollChecker(FilteredFileReader& filteredReader) {
+  bool noError = true;
+  filteredReader.preRollConfigAndState(
+      [&noError](RecordFileReader& recordFileReader, const IndexRecord::RecordInfo& record) {
+        noError &= (recordFileReader.readRecord(record) == 0);
+        return true;
+      });
+  return noError;
+}
+
 bool iterateChecker(
     FilteredFileReader& reader,
     size_t& outDecodedRecords,
@@ -315,7 +325,8 @@ string decodeValidation(FilteredFileReader& filteredReader, const CopyOptions& c
 
   double startTimestamp{}, endTimestamp{};
   filteredReader.getConstrainedTimeRange(startTimestamp, endTimestamp);
-  filteredReader.preRollConfigAndState(); // make sure to copy most recent config & state records
+  // make sure to read most recent config & state records
+  bool preRollNoError = preRollChecker(filteredReader);
 
   ThrottledWriter throttledWriter(copyOptions);
   throttledWriter.initTimeRange(startTimestamp, endTimestamp, &filteredReader.reader);
@@ -328,6 +339,7 @@ string decodeValidation(FilteredFileReader& filteredReader, const CopyOptions& c
           filteredReader, readRecordCount, noError, &throttledWriter, timeSpent, cpuTime)) {
     return "<invalid timerange>";
   }
+  noError = noError && preRollNoError;
   throttledWriter.closeFile();
 
   size_t decodedCount =
@@ -381,7 +393,8 @@ string checkRecords(
 
   double startTimestamp{}, endTimestamp{};
   filteredReader.getConstrainedTimeRange(startTimestamp, endTimestamp);
-  filteredReader.preRollConfigAndState(); // make sure to copy most recent config & state records
+  // make sure to read most recent config & state records
+  bool preRollNoError = preRollChecker(filteredReader);
 
   ThrottledWriter throttledWriter(copyOptions);
   throttledWriter.initTimeRange(startTimestamp, endTimestamp, &filteredReader.reader);
@@ -394,6 +407,7 @@ string checkRecords(
           filteredReader, decodedCount, noError, &throttledWriter, timeSpent, cpuTime)) {
     return "<invalid timerange>";
   }
+  noError = noError && preRollNoError;
   throttledWriter.closeFile();
 
   if (noError && checkType != CheckType::Check) {
-- 
2.43.0


From ba18eded9d4c6f3e98182b9486a9de6b8fafe3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 35/80] fix: compareVRSfiles: do not read past the end of the
 records compared

---
 vrs/utils/Validation.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 8913a97..81d78c7 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -570,23 +570,11 @@ buildIdMap(FilteredFileReader& first, FilteredFileReader& second, map<StreamId,
 
 static bool
 isSameLine(const vector<char>& first, const vector<char>& second, size_t offset, size_t lineSize) {
-  if (offset + lineSize < first.size()) {
-    size_t endOffset = offset + lineSize;
-    for (size_t idx = offset; idx < endOffset; idx++) {
-      if (first[idx] != second[idx]) {
-        return false;
-      }
-    }
-  } else {
-    const int64_t* firstPtr = reinterpret_cast<const int64_t*>(first.data() + offset);
-    const int64_t* secondPtr = reinterpret_cast<const int64_t*>(second.data() + offset);
-    const int64_t* endPtr = firstPtr + lineSize / sizeof(int64_t);
-    while (firstPtr < endPtr) {
-      if (*firstPtr != *secondPtr) {
-        return false;
-      }
-      ++firstPtr;
-      ++secondPtr;
+  // the last line may be shorter
+  size_t endOffset = min<size_t>(offset + lineSize, first.size());
+  for (size_t idx = offset; idx < endOffset; idx++) {
+    if (first[idx] != second[idx]) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From ebd3aa7825502dc493b71e0576e3b13c80c9fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 36/80] fix: compareVRSfiles: match records per type and in
 order

Records with the same timestamp were compared with the wrong record, records
missing from one of the files and format version changes went unnoticed, and
the filters of the second file were ignored.
---
 vrs/utils/Validation.cpp | 80 +++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 81d78c7..4bd0934 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -16,6 +16,7 @@
 
 #include <vrs/utils/Validation.h>
 
+#include <array>
 #include <iomanip>
 #include <iostream>
 #include <sstream>
@@ -660,18 +661,23 @@ class RecordHolder : public StreamPlayer {
     outDataReference.useVector(buffer_);
     return true;
   }
-  void processRecord(const CurrentRecord& /*record*/, uint32_t /*readSize*/) override {
+  void processRecord(const CurrentRecord& record, uint32_t /*readSize*/) override {
     readCounter_++;
+    formatVersion_ = record.formatVersion;
   }
   const vector<char>& getBuffer() const {
     return buffer_;
   }
+  uint32_t getFormatVersion() const {
+    return formatVersion_;
+  }
   size_t getReadCounter() const {
     return readCounter_;
   }
 
  private:
   size_t readCounter_ = 0;
+  uint32_t formatVersion_ = 0;
   vector<char> buffer_;
 };
 
@@ -687,32 +693,38 @@ class RecordMaster : public StreamPlayer {
         noError_{noError},
         id_{matchingId},
         reader_{matchingReader},
-        holder_{holder},
-        index_{reader_.getIndex(id_)} {}
+        holder_{holder} {}
+  /// Add a record of the matching stream which needs to be matched.
+  void addExpectedRecord(const IndexRecord::RecordInfo& record) {
+    expectedRecords_[static_cast<size_t>(record.recordType)].push_back(&record);
+  }
+  /// Count of records of the matching stream which weren't matched.
+  size_t getUnmatchedCount() const {
+    size_t count = 0;
+    for (size_t k = 0; k < expectedRecords_.size(); k++) {
+      count += expectedRecords_[k].size() - nextRecord_[k];
+    }
+    return count;
+  }
   bool processRecordHeader(const CurrentRecord& record, DataReference& outDataReference) override {
     buffer_.resize(record.recordSize);
     outDataReference.useVector(buffer_);
     return true;
   }
   void processRecord(const CurrentRecord& record, uint32_t /*readSize*/) override {
-    readCounter_++;
-    while (lastRecord_ < index_.size() && index_[lastRecord_]->timestamp < record.timestamp) {
-      lastRecord_++;
+    // records are matched in order, for each record type
+    const auto& records = expectedRecords_[static_cast<size_t>(record.recordType)];
+    size_t& nextRecord = nextRecord_[static_cast<size_t>(record.recordType)];
+    while (nextRecord < records.size() && records[nextRecord]->timestamp < record.timestamp) {
+      nextRecord++;
+      diffCounter_++; // that record isn't in the first file
     }
-    if (lastRecord_ >= index_.size() || index_[lastRecord_]->timestamp > record.timestamp) {
-      diffCounter_++;
-      return;
-    }
-    // we have the first record with the same timestamp, but is the type the right one?
-    size_t typeIndex = lastRecord_;
-    while (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-           index_[typeIndex]->recordType != record.recordType) {
-      typeIndex++;
-    }
-    if (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-        index_[typeIndex]->recordType == record.recordType) {
+    if (nextRecord >= records.size() || records[nextRecord]->timestamp > record.timestamp) {
+      diffCounter_++; // the current record isn't in the second file
+    } else {
       // found a match, read that record & compare the buffers
-      if (reader_.readRecord(*index_[typeIndex]) != 0) {
+      readCounter_++;
+      if (reader_.readRecord(*records[nextRecord++]) != 0) {
         noError_ = false;
         cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
              << record.timestamp << " " << toString(record.recordType)
@@ -721,6 +733,11 @@ class RecordMaster : public StreamPlayer {
         if (holder_->getReadCounter() != readCounter_) {
           cerr << "Record counter is different.\n";
           diffCounter_++;
+        } else if (holder_->getFormatVersion() != record.formatVersion) {
+          cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed
+               << setprecision(3) << record.timestamp << " " << toString(record.recordType)
+               << " format version mismatch.\n";
+          diffCounter_++;
         } else if (holder_->getBuffer() != buffer_) {
           diffCounter_++;
           cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed
@@ -746,8 +763,8 @@ class RecordMaster : public StreamPlayer {
   StreamId id_;
   RecordFileReader& reader_;
   RecordHolder* holder_;
-  const vector<const IndexRecord::RecordInfo*>& index_;
-  size_t lastRecord_{};
+  array<vector<const IndexRecord::RecordInfo*>, enumCount<Record::Type>()> expectedRecords_;
+  array<size_t, enumCount<Record::Type>()> nextRecord_{};
   size_t readCounter_{};
   vector<char> buffer_;
 };
@@ -798,6 +815,7 @@ bool compareVRSfiles(
   bool noError = true;
   vector<unique_ptr<RecordHolder>> holders;
   vector<unique_ptr<RecordMaster>> checkers;
+  map<StreamId, RecordMaster*> checkersMap;
   for (const auto& iter : idMap) {
     holders.emplace_back(make_unique<RecordHolder>());
     second.reader.setStreamPlayer(iter.second, holders.back().get());
@@ -805,16 +823,34 @@ bool compareVRSfiles(
         make_unique<RecordMaster>(
             diffCounter, noError, iter.second, second.reader, holders.back().get()));
     first.reader.setStreamPlayer(iter.first, checkers.back().get());
-  }
+    checkersMap[iter.second] = checkers.back().get();
+  }
+  // collect the records of the second file to match
+  double secondStartTimestamp{}, secondEndTimestamp{};
+  second.getConstrainedTimeRange(secondStartTimestamp, secondEndTimestamp);
+  second.iterateAdvanced(
+      [&checkersMap](RecordFileReader&, const IndexRecord::RecordInfo& record) {
+        checkersMap[record.streamId]->addExpectedRecord(record);
+        return true;
+      });
   size_t decodedCount = 0;
   double timeSpent = 0;
   double cpuTime = 0;
   if (!iterateChecker(first, decodedCount, noError, &throttledWriter, timeSpent, cpuTime)) {
+    second.reader.clearStreamPlayers();
     return false;
   }
+  second.reader.clearStreamPlayers();
   if (!noError) {
     cerr << "Errors happened while reading the files\n";
   }
+  for (const auto& checker : checkers) {
+    size_t unmatchedCount = checker->getUnmatchedCount();
+    if (unmatchedCount > 0) {
+      cerr << unmatchedCount << " records are only in one of the files.\n";
+      diffCounter++;
+    }
+  }
   throttledWriter.closeFile();
   return noError && diffCounter == 0;
 }
-- 
2.43.0


From 457a22999091e567d1df8284273f0239685525f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 37/80] fix: do not cache the details of a file whose index
 could not be read

A temporary read error made the file look like a file without index for ever.
---
 vrs/RecordFileReader.cpp | 11 ++++++++---
 vrs/RecordFileReader.h   |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index e73ce1e..8d0f0b4 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -299,13 +299,14 @@ int RecordFileReader::doOpenFile(
           streamTags_,
           recordIndex_,
           fileHasAnIndex_) != 0) {
-    error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
+    bool indexReadFailed = false;
+    error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader, indexReadFailed);
     if (error != 0) {
       closeFile();
       return error;
     }
     // Maybe write the file's details to disk
-    if (tryToUseCache && !detailsCacheFilePath.empty()) {
+    if (tryToUseCache && !detailsCacheFilePath.empty() && !indexReadFailed) {
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
         // It's safe to use those member variables, because we won't modify them until closeFile(),
         // which will join() the thread first.
@@ -384,7 +385,8 @@ bool isSystemError(int error) {
 int RecordFileReader::readFileDetails(
     const FileSpec& fileSpec,
     bool autoWriteFixedIndex,
-    FileFormat::FileHeader& fileHeader) {
+    FileFormat::FileHeader& fileHeader,
+    bool& outIndexReadFailed) {
   int error = 0;
   int64_t firstUserRecordOffset = fileHeader.firstUserRecordOffset;
   if (autoPrefetch_) {
@@ -433,6 +435,9 @@ int RecordFileReader::readFileDetails(
     XR_LOGW("Could not read index record: {}", errorCodeToMessageWithCode(error));
   }
   fileHasAnIndex_ = (error == 0 && indexReader.isIndexComplete());
+  // When the index couldn't be read, we don't know if the file has one
+  outIndexReadFailed =
+      !fileHasAnIndex_ && (isSystemError(error) || isSystemError(file_->getLastError()));
   if (fileHasAnIndex_) {
     if (usedFileSize > 0) {
       file_->forgetFurtherChunks(usedFileSize);
diff --git a/vrs/RecordFileReader.h b/vrs/RecordFileReader.h
index e8cba60..bdf1f5c 100644
--- a/vrs/RecordFileReader.h
+++ b/vrs/RecordFileReader.h
@@ -584,7 +584,8 @@ class VRS_API RecordFileReader {
   int readFileDetails(
       const FileSpec& fileSpec,
       bool autoWriteFixedIndex,
-      FileFormat::FileHeader& fileHeader);
+      FileFormat::FileHeader& fileHeader,
+      bool& outIndexReadFailed);
   bool readConfigRecords(
       const set<const IndexRecord::RecordInfo*>& configRecords,
       StreamPlayer* streamPlayer);
-- 
2.43.0


From 0c3723a3498ec1ba20fe741851363cc23218a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 38/80] fix: sort the records only after the details were saved

The thread saving the details in the cache was reading the index being sorted.
---
 vrs/RecordFileReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 8d0f0b4..fbda3b6 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -343,6 +343,10 @@ int RecordFileReader::doOpenFile(
     streamRecordCounts_[record.streamId][record.recordType]++;
   }
   if (fileSpec.getExtraAsBool("sort_records", false)) {
+    if (detailsSaveThread_) {
+      detailsSaveThread_->join(); // the index is still being saved: don't modify it yet
+      detailsSaveThread_.reset();
+    }
     sort(recordIndex_.begin(), recordIndex_.end(), fullRecordCompare);
   }
   return 0;
-- 
2.43.0


From 52274b7836f74257432daa912a17771e25dcc5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 39/80] fix: file details cache: never publish a partial file,
 never return partial details

An error while writing the cache file still published it, errors when closing
the file were ignored, a rejected cache left some of its content in the reader,
and a corrupt size could make reading the cache allocate gigabytes.
---
 vrs/FileDetailsCache.cpp | 59 ++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index a866cd5..82f9ae5 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -16,6 +16,8 @@
 
 #include <vrs/FileDetailsCache.h>
 
+#include <algorithm>
+
 #define DEFAULT_LOG_CHANNEL "FileDetailsCache"
 #include <logging/Log.h>
 #include <logging/Verify.h>
@@ -193,7 +195,7 @@ int readIndexData(
   }
   IF_ERROR_LOG_AND_RETURN(file.read(diskIndexSize));
   outIndex.resize(0);
-  outIndex.reserve(diskIndexSize);
+  outIndex.reserve(std::min<uint32_t>(diskIndexSize, kMaxBatchSize)); // the count might be corrupt
   Decompressor decompressor;
   vector<DiskRecordInfo> diskRecords;
   size_t indexByteSize = indexSize - sizeof(recordableCount) -
@@ -201,7 +203,8 @@ int readIndexData(
   while (outIndex.size() < diskIndexSize && indexByteSize > 0) {
     size_t frameSize = 0;
     IF_ERROR_LOG_AND_RETURN(decompressor.initFrame(file, frameSize, indexByteSize));
-    if (!XR_VERIFY(frameSize % sizeof(DiskRecordInfo) == 0)) {
+    if (!XR_VERIFY(frameSize % sizeof(DiskRecordInfo) == 0) ||
+        !XR_VERIFY(frameSize <= kMaxBatchSize * sizeof(DiskRecordInfo))) {
       return FAILURE;
     }
     diskRecords.resize(frameSize / sizeof(DiskRecordInfo));
@@ -220,17 +223,13 @@ int readIndexData(
   return 0;
 }
 
-} // namespace
-
-int write(
-    const string& cacheFile,
+int writeDetails(
+    WriteFileHandler& file,
     const set<StreamId>& streamIds,
     const map<string, string>& fileTags,
     const map<StreamId, StreamTags>& streamTags,
     const vector<IndexRecord::RecordInfo>& recordIndex,
     bool fileHasIndex) {
-  AtomicDiskFile file;
-  IF_ERROR_LOG_AND_RETURN(file.create(cacheFile));
   FileFormat::FileHeader fileHeader;
   fileHeader.init(kMagicHeader1, kMagicHeader2, kMagicHeader3, kOriginalFileFormatVersion);
   if (!fileHasIndex) {
@@ -263,7 +262,7 @@ int write(
   return 0;
 }
 
-int read(
+int readDetails(
     const string& cacheFile,
     set<StreamId>& outStreamIds,
     map<string, string>& outFileTags,
@@ -299,5 +298,47 @@ int read(
   return 0;
 }
 
+} // namespace
+
+int write(
+    const string& cacheFile,
+    const set<StreamId>& streamIds,
+    const map<string, string>& fileTags,
+    const map<StreamId, StreamTags>& streamTags,
+    const vector<IndexRecord::RecordInfo>& recordIndex,
+    bool fileHasIndex) {
+  AtomicDiskFile file;
+  IF_ERROR_LOG_AND_RETURN(file.create(cacheFile));
+  int status = writeDetails(file, streamIds, fileTags, streamTags, recordIndex, fileHasIndex);
+  if (status != 0) {
+    file.abort(); // a partial cache file must not be published
+    return status;
+  }
+  return file.close();
+}
+
+int read(
+    const string& cacheFile,
+    set<StreamId>& outStreamIds,
+    map<string, string>& outFileTags,
+    map<StreamId, StreamTags>& outStreamTags,
+    vector<IndexRecord::RecordInfo>& outRecordIndex,
+    bool& outFileHasIndex) {
+  // Don't touch the caller's data unless the cache file is good
+  set<StreamId> streamIds;
+  map<string, string> fileTags;
+  map<StreamId, StreamTags> streamTags;
+  vector<IndexRecord::RecordInfo> recordIndex;
+  bool fileHasIndex{};
+  IF_ERROR_RETURN(
+      readDetails(cacheFile, streamIds, fileTags, streamTags, recordIndex, fileHasIndex));
+  outStreamIds.swap(streamIds);
+  outFileTags.swap(fileTags);
+  outStreamTags.swap(streamTags);
+  outRecordIndex.swap(recordIndex);
+  outFileHasIndex = fileHasIndex;
+  return 0;
+}
+
 } // namespace FileDetailsCache
 } // namespace vrs
-- 
2.43.0


From e880030d20b4110d85cb866f93824d5471dcd45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 40/80] fix: AtomicDiskFile renames only the file it created

Creating a second file with one object published the first under the name of
the second, and a file opened later with the same object was renamed.
---
 vrs/DiskFile.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 5087a28..c092276 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -657,6 +657,7 @@ AtomicDiskFile::~AtomicDiskFile() {
 }
 
 int AtomicDiskFile::create(const string& newFilePath, const FileSpec::Extras& options) {
+  IF_ERROR_RETURN(AtomicDiskFile::close()); // publish the previous file under its own name
   finalName_ = newFilePath;
   return DiskFile::create(os::getUniquePath(finalName_, 10), options);
 }
@@ -666,12 +667,14 @@ int AtomicDiskFile::close() {
     return DiskFile::close();
   }
   string currentName = chunks_->front().getPath();
+  string finalName;
+  finalName.swap(finalName_); // never applies to the next file
   IF_ERROR_RETURN(DiskFile::close());
   int retry = 3;
   int status = 0;
-  while ((status = os::rename(currentName, finalName_)) != 0 && os::isFile(currentName) &&
+  while ((status = os::rename(currentName, finalName)) != 0 && os::isFile(currentName) &&
          retry-- > 0) {
-    os::remove(finalName_); // if there was a collision, make room
+    os::remove(finalName); // if there was a collision, make room
   }
   return status;
 }
@@ -683,6 +686,7 @@ void AtomicDiskFile::abort() {
     for (const auto& chunk : *chunks_) {
       chunkPaths.emplace_back(chunk.getPath());
     }
+    finalName_.clear();
     DiskFile::close();
     for (const string& path : chunkPaths) {
       os::remove(path);
-- 
2.43.0


From be2e9be437252e3a39afa3bfee599f6e592acf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 41/80] fix: writeZstdFile does not replace a file by a partial
 one when an error occurs

---
 vrs/DiskFile.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index c092276..65e03da 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -516,10 +516,8 @@ bool DiskFileT<FileChunk>::isRemoteFileSystem() const {
   return false;
 }
 
-template <class FileChunk>
-int DiskFileT<FileChunk>::writeZstdFile(const string& path, const void* data, size_t dataSize) {
-  AtomicDiskFile file;
-  IF_ERROR_LOG_AND_RETURN(file.create(path));
+namespace {
+int writeZstdFrame(WriteFileHandler& file, const void* data, size_t dataSize) {
   if (dataSize > 0) {
     Compressor compressor;
     uint32_t frameSize = 0;
@@ -530,6 +528,19 @@ int DiskFileT<FileChunk>::writeZstdFile(const string& path, const void* data, si
   }
   return SUCCESS;
 }
+} // namespace
+
+template <class FileChunk>
+int DiskFileT<FileChunk>::writeZstdFile(const string& path, const void* data, size_t dataSize) {
+  AtomicDiskFile file;
+  IF_ERROR_LOG_AND_RETURN(file.create(path));
+  int status = writeZstdFrame(file, data, dataSize);
+  if (status != 0) {
+    file.abort(); // don't replace a valid file by a partial one
+    return status;
+  }
+  return file.close();
+}
 
 template <class FileChunk>
 int DiskFileT<FileChunk>::writeZstdFile(const string& path, const string& string) {
-- 
2.43.0


From d3e202c6a3187c1f6cb3e439dd9a17076be65f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 42/80] fix: Semaphore::timedWait waits for the time requested
 (boost expects a UTC time)

---
 vrs/os/Semaphore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/os/Semaphore.cpp b/vrs/os/Semaphore.cpp
index 2118c42..373b939 100644
--- a/vrs/os/Semaphore.cpp
+++ b/vrs/os/Semaphore.cpp
@@ -22,8 +22,9 @@ namespace vrs {
 namespace os {
 
 bool Semaphore::timedWait(double timeSec) {
-  auto timeout = std::chrono::steady_clock::now() +
-      std::chrono::duration_cast<std::chrono::steady_clock::duration>(
+  // boost's timed_wait expects an absolute system (UTC) time, not a steady clock time
+  auto timeout = std::chrono::system_clock::now() +
+      std::chrono::duration_cast<std::chrono::system_clock::duration>(
                      std::chrono::duration<double>(timeSec));
   return interprocess_semaphore::timed_wait(timeout);
 }
-- 
2.43.0


From c5decd1e8d29fc532e69d697c458e965ad08e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 43/80] fix: JobQueue::cancelQueuedJobs gives the canceled jobs
 to the cleanup function

---
 vrs/helpers/JobQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/helpers/JobQueue.h b/vrs/helpers/JobQueue.h
index 0aefca1..fa4a242 100644
--- a/vrs/helpers/JobQueue.h
+++ b/vrs/helpers/JobQueue.h
@@ -141,7 +141,9 @@ class JobQueue {
       std::function<bool(const T&)> selector,
       std::function<void(const T&)> cleanup = nullptr) {
     std::unique_lock<std::mutex> locker(mutex_);
-    auto iter = std::remove_if(queue_.begin(), queue_.end(), selector);
+    // std::remove_if() leaves unspecified values after the jobs it keeps: partition instead
+    auto iter = std::stable_partition(
+        queue_.begin(), queue_.end(), [&selector](const T& job) { return !selector(job); });
     if (cleanup) {
       for (auto subIter = iter; subIter != queue_.end(); ++subIter) {
         cleanup(*subIter);
-- 
2.43.0


From c78938d3f5c3e601b1f4c92d8b32b1c739f2520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 44/80] fix: ~EventChannel lets the threads waiting for an
 event leave

---
 vrs/os/Event.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrs/os/Event.cpp b/vrs/os/Event.cpp
index 771d5e8..9e596f8 100644
--- a/vrs/os/Event.cpp
+++ b/vrs/os/Event.cpp
@@ -52,7 +52,10 @@ EventChannel::~EventChannel() {
     // pending waitForEvent-s it is better to wake them up than to crash.
     wakeupCondition_.notify_all();
     enterCondition_.notify_all();
+    // release the mutex, or the threads we just woke up can't leave
+    lock.unlock();
     this_thread::sleep_for(chrono::milliseconds(1));
+    lock.lock();
   }
 }
 
@@ -83,7 +86,7 @@ EventChannel::waitForEvent(Event& event, double timeoutSec, double lookBackSec)
   // New listener should not enter critical section before all pre-existing listeners have waked up.
   if (pendingWakeupsCount_ > 0) {
     numEntering_++;
-    enterCondition_.wait(lock, [this] { return pendingWakeupsCount_ == 0; });
+    enterCondition_.wait(lock, [this] { return inDestruction_ || pendingWakeupsCount_ == 0; });
     numEntering_--;
     if (inDestruction_) {
       // This EventChannel is already being destructed, exit ASAP.
-- 
2.43.0


From 6909b49d2b57b2e4bd2059f3bd36adefac6fba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 45/80] fix: DataPieceArray::getMax returns the maximum value,
 not the minimum

---
 vrs/DataPieceArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DataPieceArray.h b/vrs/DataPieceArray.h
index ed11759..5a98543 100644
--- a/vrs/DataPieceArray.h
+++ b/vrs/DataPieceArray.h
@@ -292,7 +292,7 @@ class DataPieceArray : public DataPiece {
   /// @param outMax: Reference to set to the maximum valid value.
   /// @return True if there is maximum value & outMax was set.
   bool getMax(T& outMax) const {
-    return getProperty(kMinValue, outMax);
+    return getProperty(kMaxValue, outMax);
   }
 
   /// Patch values in the mapped DataLayout.
-- 
2.43.0


From 02af426244e00f6fe36c23af3127cbb2f94d4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 46/80] fix: printing a DataLayout does not read past the end
 of strings

---
 vrs/DataLayout.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 4d8f4bd..7356c2b 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -857,6 +857,9 @@ void printStringFitted(
     frontSize = rest / 4 * 3;
     tailSize = rest - frontSize;
   }
+  // the string might be shorter, since making it printable can make it longer
+  frontSize = min(frontSize, str.size());
+  tailSize = min(tailSize, str.size());
   string front = printable(str.c_str(), frontSize, true);
   string tail = printable(str.c_str() + str.size() - tailSize, tailSize, false);
   os << prefix << '"' << front << kTruncated << tail << '"' << suffix << '\n';
@@ -884,6 +887,8 @@ void printTextFitted(
     frontSize = rest / 4 * 3;
     tailSize = rest - frontSize;
   }
+  frontSize = min(frontSize, text.size());
+  tailSize = min(tailSize, text.size());
   string front(text.c_str(), frontSize);
   string tail(text.c_str() + text.size() - tailSize, tailSize);
   os << prefix << front << kTruncated << tail << suffix << '\n';
-- 
2.43.0


From b074f352474547ed3c2fa239c6f1ac297e7230cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 47/80] fix: DataPieceString::get returns an empty string read,
 not the default value

---
 vrs/DataLayout.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 7356c2b..be95bc9 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1779,9 +1779,9 @@ size_t DataPieceString::collectVariableData(int8_t* data, size_t bufferSize) {
 }
 
 string DataPieceString::get() const {
-  size_t size = 0;
-  const char* ptr = layout_.getVarData<char>(offset_, size);
-  return ptr != nullptr ? string(ptr, size) : defaultString_;
+  string value;
+  get(value);
+  return value;
 }
 
 bool DataPieceString::get(string& outString) const {
-- 
2.43.0


From 24a33e05ed56d84409edd411bca1ddf97409cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 48/80] fix: copyClonedDataPieceValues copies values rather
 than raw data laid out differently

---
 vrs/DataLayout.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index be95bc9..5f62af7 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -335,16 +335,19 @@ bool DataLayout::copyClonedDataPieceValues(const DataLayout& originalLayout) {
           fixedDataSizeNeeded_ >= originalLayout.fixedDataSizeNeeded_)) {
     return false;
   }
-  const vector<int8_t>& originalFixedData = originalLayout.mappedDataLayout_ != nullptr
-      ? originalLayout.mappedDataLayout_->fixedData_
-      : originalLayout.fixedData_;
-  if (!XR_VERIFY(fixedData_.size() >= originalFixedData.size())) {
-    return false;
-  }
   // If the layout was cloned from clonedLayout, then the first fixed size pieces are the same,
-  // in the same order, and we can use a raw memory copy to copy all these values at once.
-  if (!originalFixedData.empty()) {
-    memcpy(fixedData_.data(), originalFixedData.data(), originalFixedData.size());
+  // in the same order. But the raw fixed size data may not be laid out the same: if pieces were
+  // added to the clone, the index of the variable size pieces moved, and if the original layout is
+  // mapped, then the values are where the mapped layout has them.
+  for (size_t k = 0; k < originalLayout.fixedSizePieces_.size(); k++) {
+    DataPiece* original = originalLayout.fixedSizePieces_[k];
+    DataPiece* copy = fixedSizePieces_[k];
+    if (!XR_VERIFY(
+            copy->getPieceType() == original->getPieceType() &&
+            copy->getFixedSize() == original->getFixedSize())) {
+      return false;
+    }
+    copy->copyFrom(original);
   }
   for (size_t k = 0; k < originalLayout.varSizePieces_.size(); k++) {
     DataPiece* original = originalLayout.varSizePieces_[k];
-- 
2.43.0


From 495b2ccd8519fd83198494070ebd1234d10c39ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 49/80] fix: don't use the reader of a configuration block
 which was never read

---
 vrs/ContentBlockReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 8029334..067c865 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -76,6 +76,10 @@ bool mayUsePastConfigurationReader(
 /// @param desiredLayout: Layout to map to the record's layout.
 /// @return True there was a record layout to map to, False otherwise.
 bool mapToBlockLayout(RecordFormatReader* reader, size_t blockIndex, DataLayout& desiredLayout) {
+  // block readers are created when the blocks are read: maybe that block was never read
+  if (blockIndex >= reader->contentReaders.size()) {
+    return false;
+  }
   DataLayoutBlockReader* layoutReader =
       dynamic_cast<DataLayoutBlockReader*>(reader->contentReaders[blockIndex].get());
   return layoutReader != nullptr && layoutReader->mapToBlockLayout(desiredLayout);
-- 
2.43.0


From b2a362602cb597f5aff5dfb8250326b59b68bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 50/80] fix: audio blocks without a sample count keep their
 size and stereo pair count

---
 vrs/ContentBlockReader.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 067c865..41db33d 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -176,16 +176,10 @@ bool AudioBlockReader::readAudioContentBlock(
       uint8_t sampleFrameStride = spec.getSampleFrameStride();
       if (sampleFrameStride > 0 && (contentBlockSize % sampleFrameStride) == 0) {
         // update contentBlock with the actual sample count
+        AudioContentBlockSpec actualSpec(spec);
+        actualSpec.setSampleCount(static_cast<uint32_t>(contentBlockSize / sampleFrameStride));
         return player.onAudioRead(
-            record,
-            blockIndex_,
-            ContentBlock(
-                AudioFormat::PCM,
-                spec.getSampleFormat(),
-                spec.getChannelCount(),
-                spec.getSampleFrameStride(),
-                spec.getSampleRate(),
-                static_cast<uint32_t>(contentBlockSize / sampleFrameStride)));
+            record, blockIndex_, ContentBlock(actualSpec, contentBlockSize));
       }
     }
   } else {
-- 
2.43.0


From bdfe2e6f04611c549466c42dd68aecccddaec0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 51/80] fix: search the audio spec in all the blocks of the
 configuration record

---
 vrs/ContentBlockReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 41db33d..2baa68e 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -240,8 +240,9 @@ bool AudioBlockReader::findAudioSpec(
   size_t index = indexUpperLimit;
   while (index-- > lastIndexToCheck) {
     if (reader->recordFormat.getContentBlock(index).getContentType() == ContentType::DATA_LAYOUT) {
-      if (mapToBlockLayout(reader, index, audioSpec_)) {
-        return tryCurrentAudioSpec(record, player, readNextBlock);
+      if (mapToBlockLayout(reader, index, audioSpec_) &&
+          tryCurrentAudioSpec(record, player, readNextBlock)) {
+        return true;
       }
     }
   }
-- 
2.43.0


From f5b2ed322f19855c0e495513ad466e736d6c1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 52/80] fix: search the image and audio specs again when the
 configuration's format changes

---
 vrs/ContentBlockReader.cpp | 17 +++++++++++++++--
 vrs/ContentBlockReader.h   |  5 +++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 2baa68e..ea1bb74 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -156,6 +156,14 @@ uint32_t ContentBlockReader::findAudioSampleCount(
       : 0;
 }
 
+bool ContentBlockReader::isConfigurationOutdated(
+    const CurrentRecord& record,
+    RecordFormatStreamPlayer& player) const {
+  return configurationReader_ != nullptr &&
+      configurationReader_ !=
+      player.getLastRecordFormatReader(record.streamId, Record::Type::CONFIGURATION);
+}
+
 #define CONTENT_SIZE_STR(CONTENT_SIZE) \
   ((CONTENT_SIZE) == ContentBlock::kSizeUnknown) ? string("???") : to_string(CONTENT_SIZE)
 
@@ -207,9 +215,11 @@ bool AudioBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
   // if that is not the case, find definition from config or data record's DataLayout
   bool readNextBlock = true;
   // have we already successfully mapped our audio spec DataLayout? If so, use what we found.
-  if (tryCurrentAudioSpec(record, player, readNextBlock)) {
+  if (!isConfigurationOutdated(record, player) &&
+      tryCurrentAudioSpec(record, player, readNextBlock)) {
     return readNextBlock;
   }
+  configurationReader_ = nullptr;
   // check if there is a valid definition in a datalayout just before this audio content block
   RecordFormatReader* reader = player.getCurrentRecordFormatReader();
   if (blockIndex_ > 0 &&
@@ -219,6 +229,7 @@ bool AudioBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
   // find a dalayout defintion in the last configuration record read before this record
   if (record.recordType != Record::Type::CONFIGURATION) {
     reader = player.getLastRecordFormatReader(record.streamId, Record::Type::CONFIGURATION);
+    configurationReader_ = reader;
     if (mayUsePastConfigurationReader(record, reader, contentBlock.getContentType()) &&
         findAudioSpec(
             record, player, reader, reader->recordFormat.getUsedBlocksCount(), 0, readNextBlock)) {
@@ -328,7 +339,7 @@ bool ImageBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
   // Find content-block's size for except for image/raw, for which it isn't needed
   size_t contentBlockSize = (imageFormat != ImageFormat::RAW) ? findContentBlockSize(record, player)
                                                               : ContentBlock::kSizeUnknown;
-  if (imageSpec_.isMapped()) {
+  if (imageSpec_.isMapped() && !isConfigurationOutdated(record, player)) {
     ContentBlock imageContentBlock =
         imageSpec_.getImageContentBlock(contentBlock.image(), contentBlockSize);
     if (imageContentBlock.getContentType() == ContentType::IMAGE) {
@@ -340,6 +351,7 @@ bool ImageBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
       imageFormat == ImageFormat::VIDEO) {
     RecordFormatReader* reader = player.getCurrentRecordFormatReader();
     bool readNextBlock = true;
+    configurationReader_ = nullptr;
     // Use a lambda to repeat the search using many local variables and few differences...
     auto findImageSpec = [&](size_t countOfBlocksToSearch) {
       // look for last datalayout before this block
@@ -364,6 +376,7 @@ bool ImageBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
     }
     if (record.recordType != Record::Type::CONFIGURATION) {
       reader = player.getLastRecordFormatReader(record.streamId, Record::Type::CONFIGURATION);
+      configurationReader_ = reader;
       if (mayUsePastConfigurationReader(record, reader, contentBlock.getContentType()) &&
           findImageSpec(reader->recordFormat.getUsedBlocksCount())) {
         return readNextBlock;
diff --git a/vrs/ContentBlockReader.h b/vrs/ContentBlockReader.h
index 5d738c7..9bb8fbd 100644
--- a/vrs/ContentBlockReader.h
+++ b/vrs/ContentBlockReader.h
@@ -62,10 +62,15 @@ class VRS_API ContentBlockReader {
   bool findNextContentBlockSpec(const CurrentRecord& record, RecordFormatStreamPlayer& player);
   size_t findContentBlockSize(const CurrentRecord& record, RecordFormatStreamPlayer& player);
   uint32_t findAudioSampleCount(const CurrentRecord& record, RecordFormatStreamPlayer& player);
+  /// Tell if the block's format was found in a configuration record which format is different from
+  /// that of the last configuration record read, in which case the format must be searched again.
+  bool isConfigurationOutdated(const CurrentRecord& record, RecordFormatStreamPlayer& player) const;
 
   const RecordFormat& recordFormat_;
   const size_t blockIndex_;
   unique_ptr<datalayout_conventions::NextContentBlockSpec> contentBlockSpec_;
+  // reader of the configuration record where the block's format was last searched (if any)
+  const RecordFormatReader* configurationReader_{};
 };
 
 /// \brief Specialized version of ContentBlockReader to handle content blocks containing an image.
-- 
2.43.0


From af97529e86ec00d118685de0c1b6d24791a01f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 53/80] fix: reading a damaged vector of strings can't allocate
 gigabytes

---
 vrs/DataLayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 5f62af7..70b6337 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1449,7 +1449,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
   uint32_t vectorSize = 0;
   size_t readSize = 0;
   if (loadElement<uint32_t>(vectorSize, source, readSize, byteCount)) {
-    if ((vectorSize + 1) * sizeof(uint32_t) <= byteCount) {
+    if ((static_cast<size_t>(vectorSize) + 1) * sizeof(uint32_t) <= byteCount) {
       outValues.resize(vectorSize);
       for (string& str : outValues) {
         if (!loadElement<string>(str, source, readSize, byteCount)) {
@@ -1464,7 +1464,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
         "which requires {} bytes at least, but we have only {} bytes...",
         getLabel(),
         vectorSize,
-        (vectorSize + 1) * sizeof(uint32_t),
+        (static_cast<size_t>(vectorSize) + 1) * sizeof(uint32_t),
         byteCount);
   }
   outValues = defaultValues_;
-- 
2.43.0


From 61fb891b891c57e4a5cfcc6630080c00f8669a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 54/80] fix: onUnsupportedBlock can't allocate more than the
 record's size

The size of a block comes from the stream's format and layouts: when those are
damaged, it can be anything, and skipping an unsupported block allocated that
much memory. A block larger than what is left of the record can't be read.
---
 vrs/RecordFormatStreamPlayer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFormatStreamPlayer.cpp b/vrs/RecordFormatStreamPlayer.cpp
index 0d1140f..b7099f1 100644
--- a/vrs/RecordFormatStreamPlayer.cpp
+++ b/vrs/RecordFormatStreamPlayer.cpp
@@ -31,7 +31,8 @@ bool RecordFormatStreamPlayer::onUnsupportedBlock(
     const ContentBlock& contentBlock) {
   // read past the block, if we know its size
   size_t blockSize = contentBlock.getBlockSize();
-  if (blockSize != ContentBlock::kSizeUnknown) {
+  // (don't allocate more than the record can possibly contain)
+  if (blockSize != ContentBlock::kSizeUnknown && blockSize <= record.reader->getUnreadBytes()) {
     vector<uint8_t> data(blockSize);
     record.reader->read(data);
     return true;
-- 
2.43.0


From ffac86bd38fb75176aa38309fb0651c23bee804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 55/80] fix: a stream's compression preset can be changed while
 recording

The preset is for the next records written, and is read by the writer and
compression threads: it needs to be atomic.
---
 vrs/RecordManager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordManager.h b/vrs/RecordManager.h
index eb39890..9395aa9 100644
--- a/vrs/RecordManager.h
+++ b/vrs/RecordManager.h
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <list>
 #include <memory>
 #include <mutex>
@@ -126,7 +127,7 @@ class VRS_API RecordManager {
   list<Record*> activeRecords_; // Records ready to be written
   list<Record*> cache_; // Written/recycled records available for reuse
 
-  CompressionPreset compression_;
+  std::atomic<CompressionPreset> compression_; // may be changed while records are being written
   size_t maxCacheSize_;
   uint64_t creationOrder_;
 };
-- 
2.43.0


From 985fb4a25efb14d98b1ae6151e6afcbb765e990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 56/80] fix: isWriting() doesn't race with the background
 thread

isWriting(), and all the methods which need to know if a file is being written,
such as addRecordable(), asked the file handler, while the background thread
might be adding chunks to the file or closing it.
---
 vrs/RecordFileWriter.cpp | 6 ++++++
 vrs/RecordFileWriter.h   | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 1352cb6..f3960ef 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -373,12 +373,15 @@ int RecordFileWriter::writeToFile(const string& filePath) {
   }
   int error = createFile(filePath, false);
   if (error != 0) {
+    indexRecordWriter_.reset();
+    file_->close();
     return error;
   }
   error = writeRecords(allRecords, error);
   // in case of error, don't bother writing an index or a description... :-(
   if (error != 0) {
     file_->close();
+    isWriting_ = false;
     return error;
   }
   return completeAndCloseFile();
@@ -422,6 +425,7 @@ void RecordFileWriter::backgroundWriterThreadActivity() {
     auto fileError = writerThreadData_->fileError.load(std::memory_order_relaxed);
     XR_LOGW("Closed file with error #{}, {}", fileError, errorCodeToMessage(fileError));
     file_->close();
+    isWriting_ = false;
   }
   if (queueByteSize_) {
     queueByteSize_->store(0, memory_order_relaxed);
@@ -924,6 +928,7 @@ int RecordFileWriter::createFile(const string& filePath, bool splitHead) {
     indexRecordWriter_.useClassicIndexRecord();
   }
   sortRecords_ = spec.getExtraAsBool("sort_records", true);
+  isWriting_ = true;
 
   return 0;
 }
@@ -1216,6 +1221,7 @@ int RecordFileWriter::completeAndCloseFile() {
   }
   NewChunkNotifier newChunkNotifier(*file_, newChunkHandler_);
   int closeError = file_->close();
+  isWriting_ = false;
   error = (error != 0) ? error : closeError;
   if (error != 0) {
     XR_LOGW("File closed with error #{}, {}", error, errorCodeToMessage(error));
diff --git a/vrs/RecordFileWriter.h b/vrs/RecordFileWriter.h
index e35551b..6610267 100644
--- a/vrs/RecordFileWriter.h
+++ b/vrs/RecordFileWriter.h
@@ -207,7 +207,7 @@ class VRS_API RecordFileWriter {
   /// Tell if a disk file is being written.
   /// @return True is a file is being written by this RecordFileWriter instance.
   bool isWriting() const {
-    return file_->isOpened();
+    return isWriting_;
   }
 
   /// It can be useful/necessary to track how much buffer memory is used by the background threads,
@@ -322,6 +322,7 @@ class VRS_API RecordFileWriter {
   /// data members valid while a file is being worked on
   unique_ptr<WriteFileHandler> file_;
   uint64_t maxChunkSize_{};
+  std::atomic<bool> isWriting_{false}; // file_ itself belongs to the background thread
   unique_ptr<NewChunkHandler> newChunkHandler_;
   FileFormat::FileHeader fileHeader_;
   uint32_t lastRecordSize_{};
-- 
2.43.0


From 0e44a2c2c74146a6c70143850a3132652334ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 57/80] fix: setMaxChunkSizeMB() doesn't race with the
 background thread

It is documented to be called after createFileAsync(), when the background
thread is using the value.
---
 vrs/RecordFileWriter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.h b/vrs/RecordFileWriter.h
index 6610267..92c7d73 100644
--- a/vrs/RecordFileWriter.h
+++ b/vrs/RecordFileWriter.h
@@ -321,7 +321,7 @@ class VRS_API RecordFileWriter {
  protected:
   /// data members valid while a file is being worked on
   unique_ptr<WriteFileHandler> file_;
-  uint64_t maxChunkSize_{};
+  std::atomic<uint64_t> maxChunkSize_{}; // can be changed while recording
   std::atomic<bool> isWriting_{false}; // file_ itself belongs to the background thread
   unique_ptr<NewChunkHandler> newChunkHandler_;
   FileFormat::FileHeader fileHeader_;
-- 
2.43.0


From d07644012dbcd0f4e2e7cedb54aa5499f61262b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 58/80] fix: the purge thread reads its delay while holding the
 mutex

autoPurgeRecords() might be changing it.
---
 vrs/RecordFileWriter.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index f3960ef..aadb06f 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -478,21 +478,20 @@ void RecordFileWriter::backgroundPurgeThreadActivity() {
   while (!purgeThreadData_->shouldEndThread &&
          (status == os::EventChannel::Status::SUCCESS ||
           status == os::EventChannel::Status::TIMEOUT)) {
-    double waitDelay = 0;
-    if (purgeThreadData_->purgingPaused_ || purgeThreadData_->autoPurgeDelay <= 0) {
-      waitDelay = 1;
-    } else {
-      double maxTimestamp = numeric_limits<double>::lowest();
+    double waitDelay = 1;
+    { // mutex guard
       // Purge while holding the mutex, so that purging can't be in progress once it was paused.
       unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
-      if (!purgeThreadData_->purgingPaused_ && purgeThreadData_->maxTimestampProvider != nullptr) {
-        maxTimestamp = purgeThreadData_->maxTimestampProvider();
-      }
-      waitDelay = purgeThreadData_->autoPurgeDelay;
-      if (waitDelay > 0 && maxTimestamp > numeric_limits<double>::lowest()) {
-        purgeOldRecords(maxTimestamp);
+      if (!purgeThreadData_->purgingPaused_ && purgeThreadData_->autoPurgeDelay > 0) {
+        waitDelay = purgeThreadData_->autoPurgeDelay;
+        if (purgeThreadData_->maxTimestampProvider != nullptr) {
+          double maxTimestamp = purgeThreadData_->maxTimestampProvider();
+          if (maxTimestamp > numeric_limits<double>::lowest()) {
+            purgeOldRecords(maxTimestamp);
+          }
+        }
       }
-    }
+    } // mutex guard
     os::EventChannel::Event event{};
     status = purgeThreadData_->purgeEventChannel.waitForEvent(event, waitDelay);
   }
-- 
2.43.0


From da8639c060faf74f775f005bcd6e984087225a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 59/80] fix: give the init callback threads which have been set
 already

The background threads could start and call the init callback with a reference
to a thread object which hadn't been assigned yet: the callback might find that
it isn't any thread.
---
 vrs/RecordFileWriter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index aadb06f..75bc215 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -398,6 +398,9 @@ void RecordFileWriter::purgeOldRecords(double maxTimestamp, bool recycleBuffers)
 }
 
 void RecordFileWriter::backgroundWriterThreadActivity() {
+  { // mutex guard: wait for saveThread to be set
+    unique_lock<recursive_mutex> guard{writerThreadData_->mutex};
+  } // mutex guard
   initCreatedThreadCallback_(writerThreadData_->saveThread, ThreadRole::Writer, 0);
 
   while (!writerThreadData_->shouldEndThread) {
@@ -472,6 +475,9 @@ bool RecordFileWriter::autoCollectRecords(bool checkTime) {
 }
 
 void RecordFileWriter::backgroundPurgeThreadActivity() {
+  { // mutex guard: wait for purgeThread to be set
+    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
+  } // mutex guard
   initCreatedThreadCallback_(purgeThreadData_->purgeThread, ThreadRole::Purge, 0);
 
   os::EventChannel::Status status = os::EventChannel::Status::SUCCESS;
@@ -526,7 +532,8 @@ int RecordFileWriter::createFileAsync(const string& filePath, bool splitHead) {
     recordable->createStateRecord();
   }
   writerThreadData_ = new WriterThreadData(); // Does not yet start the background thread.
-  // Now it is safe to start the background thread.
+  // Now it is safe to start the background thread, which might use saveThread right away.
+  unique_lock<recursive_mutex> guard{writerThreadData_->mutex};
   writerThreadData_->saveThread = thread{&RecordFileWriter::backgroundWriterThreadActivity, this};
   return 0;
 }
@@ -624,6 +631,7 @@ int RecordFileWriter::autoPurgeRecords(
         writerThreadData_ &&
             !writerThreadData_->shouldEndThread); // we are saving in the background
     // only start the thread once purgeThreadData_ has been set (race condition on start)
+    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex}; // the thread uses purgeThread
     purgeThreadData_->purgeThread = thread{&RecordFileWriter::backgroundPurgeThreadActivity, this};
   }
   return 0;
-- 
2.43.0


From e76eb50c9eeb4336e4cad51d5a5b517b64a68395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 60/80] fix: autoPurgeRecords() doesn't race with the end of
 the writer thread

The writer thread resumes purging when it ends, while autoPurgeRecords() might
be starting the purge thread, after closeFileAsync() was called.
---
 vrs/RecordFileWriter.cpp | 62 ++++++++++++++++++++++------------------
 vrs/RecordFileWriter.h   |  3 +-
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 75bc215..dccc892 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -434,9 +434,10 @@ void RecordFileWriter::backgroundWriterThreadActivity() {
     queueByteSize_->store(0, memory_order_relaxed);
   }
   // resume purging records, if we were doing that
-  if (purgeThreadData_ != nullptr) {
-    purgeThreadData_->purgingPaused_ = false;
-    purgeThreadData_->purgeEventChannel.dispatchEvent();
+  PurgeThreadData* purgeThreadData = purgeThreadData_;
+  if (purgeThreadData != nullptr) {
+    purgeThreadData->purgingPaused_ = false;
+    purgeThreadData->purgeEventChannel.dispatchEvent();
   }
   if (LOG_FILE_OPERATIONS) {
     XR_LOGD("Background thread ended.");
@@ -475,23 +476,24 @@ bool RecordFileWriter::autoCollectRecords(bool checkTime) {
 }
 
 void RecordFileWriter::backgroundPurgeThreadActivity() {
+  PurgeThreadData* purgeThreadData = purgeThreadData_;
   { // mutex guard: wait for purgeThread to be set
-    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
+    unique_lock<recursive_mutex> guard{purgeThreadData->mutex};
   } // mutex guard
-  initCreatedThreadCallback_(purgeThreadData_->purgeThread, ThreadRole::Purge, 0);
+  initCreatedThreadCallback_(purgeThreadData->purgeThread, ThreadRole::Purge, 0);
 
   os::EventChannel::Status status = os::EventChannel::Status::SUCCESS;
-  while (!purgeThreadData_->shouldEndThread &&
+  while (!purgeThreadData->shouldEndThread &&
          (status == os::EventChannel::Status::SUCCESS ||
           status == os::EventChannel::Status::TIMEOUT)) {
     double waitDelay = 1;
     { // mutex guard
       // Purge while holding the mutex, so that purging can't be in progress once it was paused.
-      unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
-      if (!purgeThreadData_->purgingPaused_ && purgeThreadData_->autoPurgeDelay > 0) {
-        waitDelay = purgeThreadData_->autoPurgeDelay;
-        if (purgeThreadData_->maxTimestampProvider != nullptr) {
-          double maxTimestamp = purgeThreadData_->maxTimestampProvider();
+      unique_lock<recursive_mutex> guard{purgeThreadData->mutex};
+      if (!purgeThreadData->purgingPaused_ && purgeThreadData->autoPurgeDelay > 0) {
+        waitDelay = purgeThreadData->autoPurgeDelay;
+        if (purgeThreadData->maxTimestampProvider != nullptr) {
+          double maxTimestamp = purgeThreadData->maxTimestampProvider();
           if (maxTimestamp > numeric_limits<double>::lowest()) {
             purgeOldRecords(maxTimestamp);
           }
@@ -499,7 +501,7 @@ void RecordFileWriter::backgroundPurgeThreadActivity() {
       }
     } // mutex guard
     os::EventChannel::Event event{};
-    status = purgeThreadData_->purgeEventChannel.waitForEvent(event, waitDelay);
+    status = purgeThreadData->purgeEventChannel.waitForEvent(event, waitDelay);
   }
   if (status != os::EventChannel::Status::SUCCESS && status != os::EventChannel::Status::TIMEOUT) {
     XR_LOGE("Background thread quit on error");
@@ -519,9 +521,10 @@ int RecordFileWriter::createFileAsync(const string& filePath, bool splitHead) {
   if (LOG_FILE_OPERATIONS) {
     XR_LOGD("Created file {}", filePath);
   }
-  if (purgeThreadData_ != nullptr) {
-    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex}; // wait for any ongoing purge
-    purgeThreadData_->purgingPaused_ = true;
+  PurgeThreadData* purgeThreadData = purgeThreadData_;
+  if (purgeThreadData != nullptr) {
+    unique_lock<recursive_mutex> guard{purgeThreadData->mutex}; // wait for any ongoing purge
+    purgeThreadData->purgingPaused_ = true;
   }
   if (queueByteSize_) {
     queueByteSize_->store(0, memory_order_relaxed);
@@ -619,20 +622,22 @@ int RecordFileWriter::autoWriteRecordsAsync(
 int RecordFileWriter::autoPurgeRecords(
     const function<double()>& maxTimestampProvider,
     double delay) {
-  if (purgeThreadData_ != nullptr) {
-    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
-    purgeThreadData_->maxTimestampProvider = maxTimestampProvider;
-    purgeThreadData_->autoPurgeDelay = delay;
-    purgeThreadData_->purgeEventChannel.dispatchEvent();
+  PurgeThreadData* purgeThreadData = purgeThreadData_;
+  if (purgeThreadData != nullptr) {
+    unique_lock<recursive_mutex> guard{purgeThreadData->mutex};
+    purgeThreadData->maxTimestampProvider = maxTimestampProvider;
+    purgeThreadData->autoPurgeDelay = delay;
+    purgeThreadData->purgeEventChannel.dispatchEvent();
   } else {
-    purgeThreadData_ = new PurgeThreadData(
+    purgeThreadData = new PurgeThreadData(
         maxTimestampProvider,
         delay,
         writerThreadData_ &&
             !writerThreadData_->shouldEndThread); // we are saving in the background
+    purgeThreadData_ = purgeThreadData;
     // only start the thread once purgeThreadData_ has been set (race condition on start)
-    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex}; // the thread uses purgeThread
-    purgeThreadData_->purgeThread = thread{&RecordFileWriter::backgroundPurgeThreadActivity, this};
+    unique_lock<recursive_mutex> guard{purgeThreadData->mutex}; // the thread uses purgeThread
+    purgeThreadData->purgeThread = thread{&RecordFileWriter::backgroundPurgeThreadActivity, this};
   }
   return 0;
 }
@@ -1253,11 +1258,12 @@ RecordFileWriter::~RecordFileWriter() noexcept {
   }
 
   try {
-    if (purgeThreadData_ != nullptr) {
-      purgeThreadData_->shouldEndThread = true;
-      purgeThreadData_->purgeEventChannel.dispatchEvent();
-      purgeThreadData_->purgeThread.join();
-      delete purgeThreadData_;
+    PurgeThreadData* purgeThreadData = purgeThreadData_;
+    if (purgeThreadData != nullptr) {
+      purgeThreadData->shouldEndThread = true;
+      purgeThreadData->purgeEventChannel.dispatchEvent();
+      purgeThreadData->purgeThread.join();
+      delete purgeThreadData;
     }
   } catch (const std::exception& e) {
     XR_LOGE("Caught exception in ~RecordFileWriter while cleaning up purge thread: {}", e.what());
diff --git a/vrs/RecordFileWriter.h b/vrs/RecordFileWriter.h
index 92c7d73..1bd810c 100644
--- a/vrs/RecordFileWriter.h
+++ b/vrs/RecordFileWriter.h
@@ -338,7 +338,8 @@ class VRS_API RecordFileWriter {
   std::unique_ptr<std::atomic<uint64_t>> queueByteSize_; // background thread's queue byte size
 
   /// when a purge thread is active
-  RecordFileWriter_::PurgeThreadData* purgeThreadData_;
+  // atomic, because the writer thread resumes purging when it's done
+  std::atomic<RecordFileWriter_::PurgeThreadData*> purgeThreadData_;
 
   InitCreatedThreadCallback initCreatedThreadCallback_;
 
-- 
2.43.0


From e367f84b077b994a124c73979338120316beea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 61/80] fix: bucket decimation kept the record farthest from
 the bucket's timestamp, rather than the closest

---
 vrs/utils/cli/DefaultDecimator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/cli/DefaultDecimator.cpp b/vrs/utils/cli/DefaultDecimator.cpp
index ecaed27..166bb4a 100644
--- a/vrs/utils/cli/DefaultDecimator.cpp
+++ b/vrs/utils/cli/DefaultDecimator.cpp
@@ -162,8 +162,8 @@ bool DefaultDecimator::decimate(
       // can we find a closer candidate for the bucket for this stream id?
       const auto it = bucketCandidates_.find(record.streamId);
       if (it == bucketCandidates_.end() ||
-          fabs(it->second->timestamp - bucketCurrentTimestamp_) <
-              fabs(record.timestamp - bucketCurrentTimestamp_)) {
+          fabs(record.timestamp - bucketCurrentTimestamp_) <
+              fabs(it->second->timestamp - bucketCurrentTimestamp_)) {
         bucketCandidates_[record.streamId] = &record;
       }
     }
-- 
2.43.0


From 83ebe36aadf861be4e895b34541244eb92546e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 62/80] fix: bucket decimation dropped records after a bucket
 or a gap, and wrote unsorted files

The record ending a bucket was dropped, one bucket was used per record after a gap, and
candidates were only written when a later data record came, after configuration and state
records which are more recent.
---
 vrs/utils/cli/DefaultDecimator.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/vrs/utils/cli/DefaultDecimator.cpp b/vrs/utils/cli/DefaultDecimator.cpp
index 166bb4a..0f86450 100644
--- a/vrs/utils/cli/DefaultDecimator.cpp
+++ b/vrs/utils/cli/DefaultDecimator.cpp
@@ -101,7 +101,7 @@ DefaultDecimator::DefaultDecimator(
     : filteredReader_{filteredReader},
       bucketInterval_{params.bucketInterval},
       bucketMaxTimestampDelta_{params.bucketMaxTimestampDelta},
-      graceWindow_{bucketInterval_ * 1.2} {
+      graceWindow_{max<double>(bucketInterval_ * 1.2, bucketMaxTimestampDelta_ * 2)} {
   if (XR_VERIFY(filteredReader_.reader.isOpened())) {
     for (const auto& interval : params.decimationIntervals) {
       set<StreamId> argIds;
@@ -128,6 +128,14 @@ bool DefaultDecimator::decimate(
     ThrottledWriter* throttledWriter,
     const IndexRecord::RecordInfo& record,
     bool& inOutKeepGoing) {
+  // are we past the limit for the current bucket? Don't wait for a data record to "submit" it, or
+  // the records of the bucket might end-up being written after more recent records
+  const bool bucketEnded = bucketInterval_ > 0 && !isnan(bucketCurrentTimestamp_) &&
+      record.timestamp - bucketCurrentTimestamp_ > bucketMaxTimestampDelta_;
+  if (bucketEnded && !bucketCandidates_.empty()) {
+    // no chance of finding better candidates, we need to "submit" this bucket
+    inOutKeepGoing = submitBucket(recordReaderFunc, throttledWriter);
+  }
   // only decimate data records
   if (record.recordType != Record::Type::DATA) {
     return false;
@@ -151,14 +159,13 @@ bool DefaultDecimator::decimate(
     if (isnan(bucketCurrentTimestamp_)) {
       bucketCurrentTimestamp_ = record.timestamp;
     }
-    // are we past the limit for the current bucket?
-    if (record.timestamp - bucketCurrentTimestamp_ > bucketMaxTimestampDelta_) {
-      // no chance of finding better candidates, we need to "submit" this bucket
-      inOutKeepGoing = submitBucket(recordReaderFunc, throttledWriter);
-      bucketCurrentTimestamp_ += bucketInterval_;
+    // move on to the first bucket this record isn't past the limit of
+    if (bucketEnded) {
+      const double delay = record.timestamp - bucketCurrentTimestamp_ - bucketMaxTimestampDelta_;
+      bucketCurrentTimestamp_ += ceil(delay / bucketInterval_) * bucketInterval_;
     }
     // does this frame qualify for the bucket?
-    else if (fabs(record.timestamp - bucketCurrentTimestamp_) <= bucketMaxTimestampDelta_) {
+    if (fabs(record.timestamp - bucketCurrentTimestamp_) <= bucketMaxTimestampDelta_) {
       // can we find a closer candidate for the bucket for this stream id?
       const auto it = bucketCandidates_.find(record.streamId);
       if (it == bucketCandidates_.end() ||
-- 
2.43.0


From 1aa6e8079108f88a7168c50bfe6aba0f3d5227af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 63/80] fix: removing image and audio blocks left the layouts
 after them under their old block index

The layouts of the copy couldn't be read any more.
---
 vrs/utils/cli/MakeZeroFilterCopier.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vrs/utils/cli/MakeZeroFilterCopier.cpp b/vrs/utils/cli/MakeZeroFilterCopier.cpp
index 5cb6fb3..f5d4028 100644
--- a/vrs/utils/cli/MakeZeroFilterCopier.cpp
+++ b/vrs/utils/cli/MakeZeroFilterCopier.cpp
@@ -46,7 +46,9 @@ class ZeroFilter : public RecordFilterCopier {
     for (const auto& iter : recordFormats) {
       RecordFormat updatedRecordFormat;
       bool removedBlock = false;
+      size_t keptBlockCount = 0;
       const auto& recordFormat = iter.second;
+      map<string, string> layoutTags; // layouts following a removed block have a new block index
       for (size_t contentBlockIndex = 0; contentBlockIndex < recordFormat.getUsedBlocksCount();
            contentBlockIndex++) {
         const ContentBlock& cb = recordFormat.getContentBlock(contentBlockIndex);
@@ -54,9 +56,22 @@ class ZeroFilter : public RecordFilterCopier {
             cb.getContentType() == ContentType::AUDIO) {
           removedBlock = true;
         } else {
+          const auto layoutTag = vrsTags.find(
+              RecordFormat::getDataLayoutTagName(
+                  iter.first.first, iter.first.second, contentBlockIndex));
+          if (layoutTag != vrsTags.end()) {
+            layoutTags[RecordFormat::getDataLayoutTagName(
+                iter.first.first, iter.first.second, keptBlockCount)] =
+                layoutTag->second;
+            vrsTags.erase(layoutTag);
+          }
           updatedRecordFormat + cb;
+          keptBlockCount++;
         }
       }
+      for (auto& layoutTag : layoutTags) {
+        vrsTags[layoutTag.first] = std::move(layoutTag.second);
+      }
       if (removedBlock) {
         vrsTags[RecordFormat::getRecordFormatTagName(iter.first.first, iter.first.second)] =
             updatedRecordFormat.asString();
-- 
2.43.0


From f8878fd0f7e64cf04d2908fa5949a47c58cefe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 64/80] fix: the JSON verdict of a decode check said good_file
 when records couldn't be decoded

---
 vrs/utils/Validation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 4bd0934..857863a 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -350,7 +350,13 @@ string decodeValidation(FilteredFileReader& filteredReader, const CopyOptions& c
     double duration = endTimestamp - startTimestamp;
     double mbPerSec =
         duration > 0 ? filteredReader.reader.getTotalSourceSize() / (duration * 1024 * 1024) : -1;
-    return asJson(noError, readRecordCount, duration, mbPerSec, decodedCount, successRate);
+    return asJson(
+        noError && decodeErrorCount == 0,
+        readRecordCount,
+        duration,
+        mbPerSec,
+        decodedCount,
+        successRate);
   }
   if (noError && decodeErrorCount == 0) {
     return fmt::format(
-- 
2.43.0


From 45bb2454d8c4b454fcdc921b1fa268f0b3aa054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 65/80] fix: reading a record past the end of a truncated file
 reported success

---
 vrs/RecordFileReader.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index fbda3b6..24c3770 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1215,9 +1215,6 @@ int RecordFileReader::readRecord(
   FileFormat::RecordHeader recordHeader;
   int error = file_->read(recordHeader);
   if (error != 0) {
-    if (file_->getLastRWSize() == 0 && file_->isEof()) {
-      return 0; // nothing read & end of file: we're good!
-    }
     XR_LOGE(
         "Record #{} Could not read record header: {}",
         static_cast<int>(&recordInfo - &getIndex()[0]),
-- 
2.43.0


From 34301d6d1af60d39d205754fdd760d710000c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 66/80] Simulation hook: size of the batches of index records
 (guarded by VRS_SIM_HOOKS, off by default)

---
 vrs/FileDetailsCache.cpp |  9 +++++++++
 vrs/IndexRecord.cpp      | 18 ++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index 82f9ae5..e9e2bba 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -32,6 +32,10 @@
 #include <vrs/Recordable.h>
 #include <vrs/helpers/FileMacros.h>
 
+#ifdef VRS_SIM_HOOKS
+extern "C" uint32_t vrs_sim_index_batch_size(uint32_t defaultSize);
+#endif
+
 namespace vrs {
 namespace FileDetailsCache {
 
@@ -111,7 +115,12 @@ struct DiskRecordInfo {
 ///   - bit 0, when set, means the original VRS file is known to NOT have an index.
 
 namespace {
+#ifdef VRS_SIM_HOOKS
+// Simulations use small batches, so that the indexes of short recordings have several
+#define kMaxBatchSize vrs_sim_index_batch_size(50000)
+#else
 const uint32_t kMaxBatchSize = 50000;
+#endif
 CompressionPreset kCompressionPreset = CompressionPreset::ZstdMedium;
 
 enum FileHeaderFlag : uint64_t { FILE_HAS_NO_INDEX = 1 << 0 };
diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index d47ff03..dc5601d 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -34,12 +34,21 @@
 #include <vrs/os/CompilerAttributes.h>
 #include <vrs/os/Time.h>
 
+#ifdef VRS_SIM_HOOKS
+extern "C" uint32_t vrs_sim_index_batch_size(uint32_t defaultSize);
+#endif
+
 namespace {
 using namespace std;
 using namespace vrs;
 using namespace vrs::IndexRecord;
 
+#ifdef VRS_SIM_HOOKS
+// Simulations use small batches, so that short recordings have several
+#define kMaxBatchSize vrs_sim_index_batch_size(100000)
+#else
 const uint32_t kMaxBatchSize = 100000;
+#endif
 
 // Maximum number of records in a single index record. To avoid a potentially corrupt file that
 // requests too much memory, we limit the maximum record count to this arbitrarily large number.
@@ -195,6 +204,12 @@ int writeDiskInfos(
     Compressor& compressor,
     CompressionPreset preset = CompressionPreset::None,
     size_t maxWriteSize = 0) {
+#ifdef VRS_SIM_HOOKS
+  // Indexes that aren't compressed have less than 100 records: they never have several batches
+#undef kMaxBatchSize
+  const uint32_t kMaxBatchSize =
+      preset == CompressionPreset::None ? 100000 : vrs_sim_index_batch_size(100000);
+#endif
   map<RecordSignature, uint32_t> recordCounter;
   // Write the count of records, and one RecordIndexStruct for each (in batch of fixed size)
   uint32_t recordsLeft = static_cast<uint32_t>(records.size());
@@ -238,6 +253,9 @@ int writeDiskInfos(
   }
   return 0;
 }
+#ifdef VRS_SIM_HOOKS
+#define kMaxBatchSize vrs_sim_index_batch_size(100000)
+#endif
 
 int writeClassicIndexRecord(
     WriteFileHandler& file,
-- 
2.43.0


From 5ddcb0dfb69f27197c6a0fb036fa45ea6c72af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 67/80] fix: the cache of an index of several batches couldn't
 be read when the last ones are small

---
 vrs/FileDetailsCache.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index e9e2bba..5e8e7a6 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -209,7 +209,8 @@ int readIndexData(
   vector<DiskRecordInfo> diskRecords;
   size_t indexByteSize = indexSize - sizeof(recordableCount) -
       sizeof(IndexRecord::DiskStreamId) * recordableCount - sizeof(diskIndexSize);
-  while (outIndex.size() < diskIndexSize && indexByteSize > 0) {
+  // the last frames may have been read already, while looking for the header of an earlier frame
+  while (outIndex.size() < diskIndexSize) {
     size_t frameSize = 0;
     IF_ERROR_LOG_AND_RETURN(decompressor.initFrame(file, frameSize, indexByteSize));
     if (!XR_VERIFY(frameSize % sizeof(DiskRecordInfo) == 0) ||
-- 
2.43.0


From eb9be6e88ab3766f820ceb04cd470cf900d01832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 68/80] fix: failures to write a batch of the index of a split
 head were ignored

---
 vrs/IndexRecord.cpp      | 27 ++++++++++++++-------------
 vrs/RecordFileWriter.cpp |  5 ++++-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index dc5601d..550913a 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -1183,9 +1183,11 @@ int Writer::addRecord(double timestamp, uint32_t size, StreamId id, Record::Type
 }
 
 int Writer::appendToSplitIndexRecord() {
+  DiskFile& file = *splitHeadFile_;
+  int64_t offset = file.getPos();
   uint32_t writtenBytes = 0;
-  int status = writeDiskInfos(
-      *splitHeadFile_, writtenRecords_, writtenBytes, compressor_, kDefaultCompression);
+  int status =
+      writeDiskInfos(file, writtenRecords_, writtenBytes, compressor_, kDefaultCompression);
   if (status == 0) {
     if (kLogStats) { // keeping around for now
       MAYBE_UNUSED float ratio =
@@ -1199,16 +1201,8 @@ int Writer::appendToSplitIndexRecord() {
     writtenBytesCount_ += writtenBytes;
     writtenIndexCount_ += writtenRecords_.size();
     writtenRecords_.clear();
-  }
-  return status;
-}
-
-int Writer::completeSplitIndexRecord() {
-  DiskFile& file = *splitHeadFile_;
-  int64_t offset = file.getPos();
-  int error = writtenRecords_.empty() ? 0 : appendToSplitIndexRecord();
-  if (error != 0) {
-    XR_LOGW("Failed to write index details, error #{}, {}", error, errorCodeToMessage(error));
+  } else {
+    XR_LOGW("Failed to write index details, error #{}, {}", status, errorCodeToMessage(status));
     if (offset > 0) {
       // let's try to remove what we wrote, as it's probably problematic!
       // If the failure happened because of a disk full error, we might be able to recover?
@@ -1221,7 +1215,14 @@ int Writer::completeSplitIndexRecord() {
             "It looks like we were unable to truncate the file head, so the file is likely lost");
       }
     }
-  } else {
+  }
+  return status;
+}
+
+int Writer::completeSplitIndexRecord() {
+  DiskFile& file = *splitHeadFile_;
+  int error = writtenRecords_.empty() ? 0 : appendToSplitIndexRecord();
+  if (error == 0) {
     // now that we know the size of the index record, we can update the index record's record header
     // and the file's header to point to the first user record
     int64_t endOfIndexOffset = file.getPos();
diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index dccc892..685bb8b 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1080,8 +1080,11 @@ void RecordFileWriter::writeOneRecord(
     rwd.error = error;
   } else {
     if (!skipFinalizeIndexRecords_) {
-      indexRecordWriter_.addRecord(
+      int indexError = indexRecordWriter_.addRecord(
           record->getTimestamp(), lastRecordSize_, streamId, record->getRecordType());
+      if (indexError != 0) {
+        rwd.error = indexError;
+      }
     }
     rwd.writtenRecords++;
     rwd.currentChunkSize += lastRecordSize_;
-- 
2.43.0


From a0915d4b2b1f37ab9f32edff949752a51b166dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 69/80] fix: looking up a variable size field read out of
 bounds after reading its DataLayout failed

---
 vrs/DataLayout.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/DataLayout.h b/vrs/DataLayout.h
index 5dfa871..c647a66 100644
--- a/vrs/DataLayout.h
+++ b/vrs/DataLayout.h
@@ -509,7 +509,8 @@ class VRS_API DataLayout {
     if (mappedDataLayout_ != nullptr) {
       return mappedDataLayout_->getVarData<T>(varPieceIndex, outCount);
     }
-    if (varPieceIndex < varSizePieces_.size()) {
+    // (the fixed size data might be missing, if reading it failed)
+    if (varPieceIndex < varSizePieces_.size() && fixedData_.size() >= fixedDataSizeNeeded_) {
       const IndexEntry& indexEntry = getVarSizeIndex()[varPieceIndex];
       if (indexEntry.getOffset() + indexEntry.getLength() <= varData_.size()) {
         outCount = indexEntry.getLength() / sizeof(T);
-- 
2.43.0


From 0b61783855d51dbf1a07ae0ae160ab5d89c327fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 70/80] fix: damaged record sizes could make reading a record
 allocate gigabytes

---
 vrs/ContentBlockReader.cpp       | 13 ++++++++++---
 vrs/RecordFormatStreamPlayer.cpp |  9 +++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index ea1bb74..6fddbf5 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -471,9 +471,16 @@ bool DataLayoutBlockReader::readBlock(
     if (!XR_VERIFY(varDataSize <= record.reader->getUnreadBytes())) {
       return false;
     }
-    varData.resize(varDataSize);
-    if (varDataSize > 0) {
-      readBlockStatus = record.reader->read(varData);
+    varData.resize(0);
+    // the size of the record comes from the file too: don't allocate far more than what's there
+    while (varData.size() < varDataSize && readBlockStatus == 0) {
+      const size_t kMaxReadSize = 64 * 1024 * 1024;
+      const size_t offset = varData.size();
+      varData.resize(min<size_t>(varDataSize, offset + kMaxReadSize));
+      readBlockStatus = record.reader->read(varData.data() + offset, varData.size() - offset);
+      if (readBlockStatus != 0) {
+        varData.resize(offset);
+      }
     }
   } else {
     varData.resize(0);
diff --git a/vrs/RecordFormatStreamPlayer.cpp b/vrs/RecordFormatStreamPlayer.cpp
index b7099f1..4aebfbc 100644
--- a/vrs/RecordFormatStreamPlayer.cpp
+++ b/vrs/RecordFormatStreamPlayer.cpp
@@ -33,8 +33,13 @@ bool RecordFormatStreamPlayer::onUnsupportedBlock(
   size_t blockSize = contentBlock.getBlockSize();
   // (don't allocate more than the record can possibly contain)
   if (blockSize != ContentBlock::kSizeUnknown && blockSize <= record.reader->getUnreadBytes()) {
-    vector<uint8_t> data(blockSize);
-    record.reader->read(data);
+    const size_t kMaxReadSize = 16 * 1024 * 1024;
+    vector<uint8_t> data(min(blockSize, kMaxReadSize));
+    for (size_t left = blockSize; left > 0; left -= min(left, data.size())) {
+      if (record.reader->read(data.data(), min(left, data.size())) != 0) {
+        break;
+      }
+    }
     return true;
   }
   return false;
-- 
2.43.0


From 2dfca52f8856e8f8d6eaaae8cff5fff3908882a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 71/80] fix: reading an empty compressed file as an object
 reported success without reading anything

---
 vrs/DiskFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 65e03da..f5da8ee 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -584,7 +584,7 @@ int DiskFileT<FileChunk>::readZstdFile(const string& path, void* data, size_t da
   IF_ERROR_LOG_AND_RETURN(file.open(path));
   int64_t fileSize = file.getTotalSize();
   if (fileSize <= 0) {
-    return (fileSize < 0) ? FAILURE : 0;
+    return (fileSize < 0 || dataSize > 0) ? FAILURE : 0; // an empty file has no data
   }
   Decompressor decompressor;
   size_t frameSize = 0;
-- 
2.43.0


From 6ead25d651ce1a37f77498eba35eaa66acdbe427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 72/80] fix: images extracted after a first ImageExtractor was
 deleted were never saved

---
 vrs/utils/ImageExtractor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index bdc2477..e9d4acd 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -142,6 +142,9 @@ class ImageProcessor {
 
   void startThreadPool() {
     unique_lock<mutex> locker(mutex_);
+    if (userCount_++ == 0) {
+      imageQueue_.reset(); // the queue was ended if the thread pool was used before
+    }
     while (threadPool_.size() < thread::hardware_concurrency()) {
       threadPool_.emplace_back(&ImageProcessor::saveImagesThreadActivity, this);
     }
@@ -149,7 +152,7 @@ class ImageProcessor {
 
   void endThreadPool() {
     unique_lock<mutex> locker(mutex_);
-    if (!threadPool_.empty()) {
+    if (--userCount_ == 0 && !threadPool_.empty()) {
       imageQueue_.sendJob(make_unique<ImageJob>());
       for (auto& thread : threadPool_) {
         if (thread.joinable()) {
@@ -177,6 +180,7 @@ class ImageProcessor {
 
  private:
   mutex mutex_;
+  size_t userCount_{0};
   deque<thread> threadPool_;
   JobQueue<unique_ptr<ImageJob>> imageQueue_;
 };
-- 
2.43.0


From 0b247a01b9f6e0b9526c5c5c7ba8cbf7b5a22400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 73/80] fix: writeAsPng reports failures to write the end of
 the file, and closes it after errors

---
 vrs/utils/PixelFramePng.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index 24352e7..ff73fef 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -422,12 +422,16 @@ int PixelFrame::writeAsPng(const string& filename, vector<uint8_t>* outBuffer) c
     return FAILURE;
   }
 
+  FILE* volatile file = nullptr;
   if (setjmp(png_jmpbuf(pngStruct))) {
     XR_LOGE("png's setjmp(png_jmpbuf(png)) failed");
+    png_destroy_write_struct(&pngStruct, &pngInfo);
+    if (file != nullptr) {
+      os::fileClose(file);
+    }
     return FAILURE;
   }
 
-  FILE* file = nullptr;
   helpers::MemBuffer memBuffer;
   if (outBuffer == nullptr) {
     file = os::fileOpen(filename, "wb");
@@ -500,8 +504,10 @@ int PixelFrame::writeAsPng(const string& filename, vector<uint8_t>* outBuffer) c
   png_destroy_write_struct(&pngStruct, &pngInfo);
 
   if (outBuffer == nullptr) {
-    if (file != nullptr) {
-      os::fileClose(file);
+    if (file != nullptr && os::fileClose(file) != 0) {
+      int error = errno;
+      XR_LOGE("Can't write file '{}'", filename);
+      return error != 0 ? error : FAILURE;
     }
   } else {
     memBuffer.getData(*outBuffer);
-- 
2.43.0


From 5165fdb580cd2053f44cb51d704cf18fcd334872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 74/80] fix: audio extraction reports the errors met writing
 audio files, and survives them

---
 vrs/utils/AudioExtractor.cpp      | 44 ++++++++++++++++++++++++-------
 vrs/utils/AudioExtractor.h        |  6 +++++
 vrs/utils/AudioTrackExtractor.cpp |  5 +++-
 vrs/utils/cli/DataExtraction.cpp  | 11 ++++++--
 4 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/vrs/utils/AudioExtractor.cpp b/vrs/utils/AudioExtractor.cpp
index 89fe980..0b3badd 100644
--- a/vrs/utils/AudioExtractor.cpp
+++ b/vrs/utils/AudioExtractor.cpp
@@ -133,13 +133,20 @@ int AudioExtractor::closeWavFile(DiskFile& inFile) {
   }
   uint32_t totalAudioDataSize = inFile.getPos() - kWavHeaderSize;
   // seek to beginning, update chunk & file sizes in header before closing
-  IF_ERROR_RETURN(inFile.setPos(4));
   uint32_t fileSize = htole32(36 + totalAudioDataSize);
-  IF_ERROR_RETURN(inFile.write((char*)&fileSize, sizeof(fileSize)));
-  IF_ERROR_RETURN(inFile.setPos(40));
   uint32_t dataSize = htole32(totalAudioDataSize);
-  IF_ERROR_RETURN(inFile.write((char*)&dataSize, sizeof(dataSize)));
-  return inFile.close();
+  int status = inFile.setPos(4);
+  if (status == 0) {
+    status = inFile.write((char*)&fileSize, sizeof(fileSize));
+  }
+  if (status == 0) {
+    status = inFile.setPos(40);
+  }
+  if (status == 0) {
+    status = inFile.write((char*)&dataSize, sizeof(dataSize));
+  }
+  int closeStatus = inFile.close();
+  return status != 0 ? status : closeStatus;
 }
 
 AudioExtractor::AudioExtractor(string folderPath, StreamId id, uint32_t& counter)
@@ -150,7 +157,16 @@ AudioExtractor::AudioExtractor(string folderPath, StreamId id, uint32_t& counter
 
 AudioExtractor::~AudioExtractor() {
   // Need to write header size before closing file
-  closeWavFile(currentWavFile_);
+  complete();
+}
+
+int AudioExtractor::complete() {
+  int status = closeWavFile(currentWavFile_);
+  currentAudioContentBlockSpec_ = AudioContentBlockSpec(AudioFormat::UNDEFINED);
+  if (!VERIFY_SUCCESS(status) && status_ == 0) {
+    status_ = status;
+  }
+  return status_;
 }
 
 bool AudioExtractor::onAudioRead(const CurrentRecord& record, size_t, const ContentBlock& cb) {
@@ -183,7 +199,7 @@ bool AudioExtractor::onAudioRead(const CurrentRecord& record, size_t, const Cont
   const int64_t kMaxWavFileSize = 1LL << 32; // WAV can't handle files larger than 4 GiB.
   if (!currentAudioContentBlockSpec_.isCompatibleWith(audioBlockSpec) ||
       currentWavFile_.getPos() + audioBytes.size() >= kMaxWavFileSize) {
-    closeWavFile(currentWavFile_);
+    complete();
 
     VERIFY_SUCCESS(os::makeDirectories(folderPath_));
     string path = fmt::format(
@@ -199,7 +215,14 @@ bool AudioExtractor::onAudioRead(const CurrentRecord& record, size_t, const Cont
          << static_cast<int>(audioBlockSpec.getBitsPerSample()) << " bits per sample, "
          << static_cast<int>(audioBlockSpec.getSampleFrameStride())
          << " bytes sample frame stride.\n";
-    VERIFY_SUCCESS(createWavFile(path, audioBlockSpec, currentWavFile_));
+    int status = createWavFile(path, audioBlockSpec, currentWavFile_);
+    if (!VERIFY_SUCCESS(status)) {
+      if (status_ == 0) {
+        status_ = status;
+      }
+      currentWavFile_.close();
+      return false;
+    }
 
     currentAudioContentBlockSpec_ = audioBlockSpec;
     cumulativeOutputAudioFileCount_++;
@@ -208,7 +231,10 @@ bool AudioExtractor::onAudioRead(const CurrentRecord& record, size_t, const Cont
     segmentSamplesCount_ = 0;
   }
 
-  VERIFY_SUCCESS(writeWavAudioData(currentWavFile_, audioBlockSpec, audioBytes));
+  int writeStatus = writeWavAudioData(currentWavFile_, audioBlockSpec, audioBytes);
+  if (!VERIFY_SUCCESS(writeStatus) && status_ == 0) {
+    status_ = writeStatus;
+  }
 
   // Time/sample counting validation
   if (segmentSamplesCount_ > 0) {
diff --git a/vrs/utils/AudioExtractor.h b/vrs/utils/AudioExtractor.h
index 9b87877..220021e 100644
--- a/vrs/utils/AudioExtractor.h
+++ b/vrs/utils/AudioExtractor.h
@@ -36,6 +36,10 @@ class AudioExtractor : public RecordFormatStreamPlayer {
   AudioExtractor(AudioExtractor&&) = delete;
   AudioExtractor& operator=(AudioExtractor&&) = delete;
 
+  /// Complete the audio file being written, if any.
+  /// @return The status of the extraction so far: 0, or the first error met writing audio files.
+  int complete();
+
   bool onAudioRead(const CurrentRecord& record, size_t, const ContentBlock& audioBlock) override;
   bool onUnsupportedBlock(const CurrentRecord& record, size_t, const ContentBlock& cb) override;
 
@@ -64,6 +68,8 @@ class AudioExtractor : public RecordFormatStreamPlayer {
   AudioContentBlockSpec currentAudioContentBlockSpec_;
   // output stream of wav file currently being written
   DiskFile currentWavFile_;
+  // first error met writing audio files, if any
+  int status_ = 0;
   // For validation: start timestamp of the audio segment
   double segmentStartTimestamp_ = 0;
   // For validation: count of audio samples previously processed since the start of the segment
diff --git a/vrs/utils/AudioTrackExtractor.cpp b/vrs/utils/AudioTrackExtractor.cpp
index 65b475d..9d5680c 100644
--- a/vrs/utils/AudioTrackExtractor.cpp
+++ b/vrs/utils/AudioTrackExtractor.cpp
@@ -161,7 +161,10 @@ string AudioTrackExtractor::getSummary(
     double lastImageTime) {
   JDocument doc;
   JsonWrapper json{doc};
-  AudioExtractor::closeWavFile(wavFile_);
+  int closeStatus = AudioExtractor::closeWavFile(wavFile_);
+  if (closeStatus != 0 && status_.empty()) {
+    status_ = fmt::format("Can't complete wav file: {}", errorCodeToMessage(closeStatus));
+  }
   json.addMember("input", vrsFilePath);
   json.addMember("output", wavFilePath_);
   json.addMember("stream_id", streamId.getNumericName());
diff --git a/vrs/utils/cli/DataExtraction.cpp b/vrs/utils/cli/DataExtraction.cpp
index ef8d82d..2debe23 100644
--- a/vrs/utils/cli/DataExtraction.cpp
+++ b/vrs/utils/cli/DataExtraction.cpp
@@ -79,7 +79,7 @@ int extractAudio(const string& path, FilteredFileReader& filteredReader) {
   filteredReader.reader.clearStreamPlayers();
   uint32_t audioFileCount = 0;
   uint32_t streamCount = 0;
-  deque<unique_ptr<StreamPlayer>> extractors;
+  deque<unique_ptr<AudioExtractor>> extractors;
   for (auto id : filteredReader.filter.streams) {
     if (filteredReader.reader.mightContainAudio(id)) {
       extractors.emplace_back(make_unique<AudioExtractor>(path, id, audioFileCount));
@@ -88,8 +88,15 @@ int extractAudio(const string& path, FilteredFileReader& filteredReader) {
     }
   }
   filteredReader.iterateSafe();
+  int status = 0;
+  for (auto& extractor : extractors) {
+    int extractorStatus = extractor->complete();
+    if (status == 0) {
+      status = extractorStatus;
+    }
+  }
   cout << "Wrote " << audioFileCount << " audio file(s) from " << streamCount << " stream(s).\n";
-  return 0;
+  return status;
 }
 
 int extractAll(const string& outputFolder, FilteredFileReader& filteredReader) {
-- 
2.43.0


From 27f03e12f69ebbd22c1e94981f7ad0f54f54f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 75/80] fix: DataExtractor reports the images, audio and ReadMe
 it could not write

---
 vrs/utils/DataExtractor.cpp | 42 +++++++++++++++++++++++++++++--------
 vrs/utils/DataExtractor.h   |  3 ++-
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/vrs/utils/DataExtractor.cpp b/vrs/utils/DataExtractor.cpp
index b93005c..6ed70c7 100644
--- a/vrs/utils/DataExtractor.cpp
+++ b/vrs/utils/DataExtractor.cpp
@@ -112,6 +112,10 @@ bool DataExtractor::DataExtractorStreamPlayer::writeImage(
     return false;
   }
   file.close();
+  if (file.fail()) {
+    XR_LOGE("Failed to write file {}", filename);
+    return false;
+  }
   wroteImage(filename);
   return true;
 }
@@ -139,14 +143,18 @@ bool DataExtractor::DataExtractorStreamPlayer::onImageRead(
     }
     if (readFrame(*inputFrame_, record, imageBlock)) {
       PixelFrame::normalizeFrame(inputFrame_, processedFrame_, true);
-      writePngImage(record);
+      if (!writePngImage(record) && status_ == 0) {
+        status_ = FAILURE;
+      }
       return true;
     }
   } else {
     vector<uint8_t> imageData;
     imageData.resize(imageBlock.getBlockSize());
-    if (VERIFY_SUCCESS(record.reader->read(imageData.data(), imageBlock.getBlockSize())) &&
-        writeImage(record, imageBlock.image(), imageData)) {
+    if (VERIFY_SUCCESS(record.reader->read(imageData.data(), imageBlock.getBlockSize()))) {
+      if (!writeImage(record, imageBlock.image(), imageData) && status_ == 0) {
+        status_ = FAILURE;
+      }
       return true;
     }
   }
@@ -239,7 +247,7 @@ int DataExtractor::DataExtractorStreamPlayer::recordReadComplete(
   return output_.fail() ? FAILURE : SUCCESS;
 }
 
-void DataExtractor::DataExtractorStreamPlayer::writePngImage(const CurrentRecord& record) {
+bool DataExtractor::DataExtractorStreamPlayer::writePngImage(const CurrentRecord& record) {
   if (imageCounter_ <= 1) {
     os::makeDirectories(outputFolder_);
   }
@@ -247,8 +255,11 @@ void DataExtractor::DataExtractorStreamPlayer::writePngImage(const CurrentRecord
       "{}-{:05}-{:.3f}.png", record.streamId.getNumericName(), imageCounter_, record.timestamp);
   string path = os::pathJoin(outputFolder_, filename);
   fmt::print("Writing {}\n", path);
-  processedFrame_->writeAsPng(path);
+  if (!VERIFY_SUCCESS(processedFrame_->writeAsPng(path))) {
+    return false;
+  }
   wroteImage(filename);
+  return true;
 }
 
 void DataExtractor::DataExtractorStreamPlayer::wroteImage(const string& filename) {
@@ -257,9 +268,13 @@ void DataExtractor::DataExtractorStreamPlayer::wroteImage(const string& filename
 
 int DataExtractor::DataExtractorStreamPlayer::completeOutput() {
   if (audioExtractor_) {
+    int audioStatus = audioExtractor_->complete();
+    if (status_ == 0) {
+      status_ = audioStatus;
+    }
     audioExtractor_.reset();
   }
-  return 0;
+  return status_;
 }
 
 int DataExtractor::extractAll(const string& vrsFilePath, const string& outputFolder) {
@@ -304,6 +319,11 @@ int DataExtractor::createOutput() {
   readme << kReadMeContent << "\n```\n";
   RecordFileInfo::printOverview(readme, reader_, ids, details);
   readme << "\n```\n";
+  readme.close();
+  if (readme.fail()) {
+    XR_LOGE("Couldn't write file {}", readmePath);
+    return FAILURE;
+  }
 
   string path = os::pathJoin(outputFolder_, "metadata.jsons");
   output_.open(path, ofstream::out | ofstream::trunc);
@@ -316,11 +336,15 @@ int DataExtractor::createOutput() {
 }
 
 int DataExtractor::completeOutput() {
+  int status = SUCCESS;
   for (const auto& iter : extractors_) {
-    iter.second->completeOutput();
+    int extractorStatus = iter.second->completeOutput();
+    if (status == SUCCESS) {
+      status = extractorStatus;
+    }
   }
   if (!output_.is_open()) {
-    return SUCCESS;
+    return status;
   }
   bool fail = output_.fail();
   output_.close();
@@ -328,7 +352,7 @@ int DataExtractor::completeOutput() {
     XR_LOGE("Failed to export data without errors...");
     return FAILURE;
   }
-  return SUCCESS;
+  return status;
 }
 
 set<StreamId> DataExtractor::getStreams() const {
diff --git a/vrs/utils/DataExtractor.h b/vrs/utils/DataExtractor.h
index a379947..fd398e9 100644
--- a/vrs/utils/DataExtractor.h
+++ b/vrs/utils/DataExtractor.h
@@ -74,7 +74,7 @@ class DataExtractor {
     int recordReadComplete(RecordFileReader&, const IndexRecord::RecordInfo&) override;
 
     bool writeImage(const CurrentRecord&, const ImageContentBlockSpec&, const vector<uint8_t>&);
-    void writePngImage(const CurrentRecord&);
+    bool writePngImage(const CurrentRecord&);
 
     void wroteImage(const string& filename);
 
@@ -89,6 +89,7 @@ class DataExtractor {
     std::shared_ptr<PixelFrame> processedFrame_;
     uint32_t imageCounter_ = 0;
     uint32_t audioFileCounter_ = 0;
+    int status_ = 0; // first error met writing images or audio, if any
   };
 
  private:
-- 
2.43.0


From b6495b8f1918f27e1dc6819bd229329b5004600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 76/80] fix: converting YUY2 images of odd width left their
 last column unset

---
 vrs/utils/PixelConversions.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrs/utils/PixelConversions.cpp b/vrs/utils/PixelConversions.cpp
index 97ea422..be29d90 100644
--- a/vrs/utils/PixelConversions.cpp
+++ b/vrs/utils/PixelConversions.cpp
@@ -295,6 +295,14 @@ void convertYuy2ToRgb8(
       lineOutPtr[4] = clipToUint8((298 * c - 100 * d - 208 * e + 128) >> 8);
       lineOutPtr[5] = clipToUint8((298 * c + 516 * d + 128) >> 8);
     }
+    if ((width & 1) != 0) { // last pixel of an odd line: only half of the macro pixel is used
+      int c = static_cast<int>(lineSrcPtr[0]) - 16;
+      int d = static_cast<int>(lineSrcPtr[1]) - 128;
+      int e = static_cast<int>(lineSrcPtr[3]) - 128;
+      lineOutPtr[0] = clipToUint8((298 * c + 409 * e + 128) >> 8);
+      lineOutPtr[1] = clipToUint8((298 * c - 100 * d - 208 * e + 128) >> 8);
+      lineOutPtr[2] = clipToUint8((298 * c + 516 * d + 128) >> 8);
+    }
   }
 }
 
-- 
2.43.0


From 89012e4c279b5fd008c156b6aab21e2443b7d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 77/80] fix: extracting audio or all the data of a file reports
 the records which could not be read

---
 vrs/utils/cli/DataExtraction.cpp | 42 +++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/vrs/utils/cli/DataExtraction.cpp b/vrs/utils/cli/DataExtraction.cpp
index 2debe23..d8b47b4 100644
--- a/vrs/utils/cli/DataExtraction.cpp
+++ b/vrs/utils/cli/DataExtraction.cpp
@@ -32,6 +32,40 @@
 
 using namespace std;
 
+namespace {
+
+using namespace vrs;
+using namespace vrs::utils;
+
+/// Same as iterateSafe(), but tell if some records could not be read.
+/// @return A status code: 0, or the first error met.
+int readRecords(FilteredFileReader& filteredReader) {
+  int status = 0;
+  RecordReaderFunc readRecord = [&status](
+                                    RecordFileReader& reader, const IndexRecord::RecordInfo& record) {
+    int readStatus = reader.readRecord(record);
+    if (readStatus != 0) {
+      XR_LOGE("Failed to read record: {}", errorCodeToMessage(readStatus));
+      if (status == 0) {
+        status = readStatus;
+      }
+    }
+    return true; // extract everything we can
+  };
+  double startTimestamp{}, endTimestamp{};
+  filteredReader.getConstrainedTimeRange(startTimestamp, endTimestamp);
+  filteredReader.preRollConfigAndState(readRecord);
+  if (!filteredReader.timeRangeValid()) {
+    cerr << "Time Range invalid: " << filteredReader.getTimeConstraintDescription() << "\n";
+    return status;
+  }
+  filteredReader.iterateAdvanced(readRecord);
+  filteredReader.reader.clearStreamPlayers();
+  return status;
+}
+
+} // namespace
+
 namespace vrs::utils {
 
 void extractImages(
@@ -87,8 +121,7 @@ int extractAudio(const string& path, FilteredFileReader& filteredReader) {
       ++streamCount;
     }
   }
-  filteredReader.iterateSafe();
-  int status = 0;
+  int status = readRecords(filteredReader);
   for (auto& extractor : extractors) {
     int extractorStatus = extractor->complete();
     if (status == 0) {
@@ -105,8 +138,9 @@ int extractAll(const string& outputFolder, FilteredFileReader& filteredReader) {
     extractor.extract(id);
   }
   IF_ERROR_LOG_AND_RETURN(extractor.createOutput());
-  filteredReader.iterateSafe();
-  return extractor.completeOutput();
+  int readStatus = readRecords(filteredReader);
+  int status = extractor.completeOutput();
+  return status != 0 ? status : readStatus;
 }
 
 } // namespace vrs::utils
-- 
2.43.0


From 574830d8a2a50efeb3a6528942e5d9952ca03e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 78/80] fix: extracting malformed audio blocks read past the
 end of the block

---
 vrs/utils/AudioExtractor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/utils/AudioExtractor.cpp b/vrs/utils/AudioExtractor.cpp
index 0b3badd..c79afcd 100644
--- a/vrs/utils/AudioExtractor.cpp
+++ b/vrs/utils/AudioExtractor.cpp
@@ -115,7 +115,7 @@ int AudioExtractor::writeWavAudioData(
   uint32_t srcStride = audioBlock.getSampleFrameStride();
   uint32_t totalSamples = audioBlock.getSampleCount();
   for (uint32_t i = 0; i < totalSamples; ++i) {
-    if (srcOffset >= (uint32_t)audio.size()) {
+    if (static_cast<size_t>(srcOffset) + bytesPerSampleBlock > audio.size()) {
       cout << "Malformed audio block encountered, read past end of audio block\n";
       break;
     }
-- 
2.43.0


From 65b8718b9e44f5353ab14a486873aeb20d032298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:31 +0000
Subject: [PATCH 79/80] fix: extraction does not allocate more than a record
 can contain

---
 vrs/utils/AudioBlock.cpp          |  4 ++++
 vrs/utils/AudioTrackExtractor.cpp |  8 ++++++--
 vrs/utils/DataExtractor.cpp       | 15 ++++++++++-----
 vrs/utils/ImageExtractor.cpp      |  8 ++++++--
 4 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/vrs/utils/AudioBlock.cpp b/vrs/utils/AudioBlock.cpp
index 6f2ac35..a01811e 100644
--- a/vrs/utils/AudioBlock.cpp
+++ b/vrs/utils/AudioBlock.cpp
@@ -87,6 +87,10 @@ bool AudioBlock::readBlock(RecordReader* reader, const ContentBlock& cb) {
   const auto& spec = cb.audio();
   size_t blockSize = cb.getBlockSize();
   audioSpec_ = spec;
+  // don't allocate more than what the record can possibly contain
+  if (!THROTTLED_VERIFY(reader->getRef(), blockSize <= reader->getUnreadBytes())) {
+    return false;
+  }
   audioBytes_.resize(blockSize);
   return THROTTLED_VERIFY(reader->getRef(), reader->read(audioBytes_.data(), blockSize) == 0);
 }
diff --git a/vrs/utils/AudioTrackExtractor.cpp b/vrs/utils/AudioTrackExtractor.cpp
index 9d5680c..cfe27d1 100644
--- a/vrs/utils/AudioTrackExtractor.cpp
+++ b/vrs/utils/AudioTrackExtractor.cpp
@@ -123,8 +123,12 @@ bool AudioTrackExtractor::onAudioRead(
   lastRecordSampleCount_ = static_cast<int32_t>(audioBlockSpec.getSampleCount());
   audioSampleCount_ += audioBlock.audio().getSampleCount();
 
-  audio_.resize(audioBlock.getBlockSize());
-  int status = record.reader->read(audio_);
+  int status = NOT_ENOUGH_DATA;
+  // don't allocate more than what the record can possibly contain
+  if (audioBlock.getBlockSize() <= record.reader->getUnreadBytes()) {
+    audio_.resize(audioBlock.getBlockSize());
+    status = record.reader->read(audio_);
+  }
   if (status != 0) {
     return stop(
         fmt::format(
diff --git a/vrs/utils/DataExtractor.cpp b/vrs/utils/DataExtractor.cpp
index 6ed70c7..bf35825 100644
--- a/vrs/utils/DataExtractor.cpp
+++ b/vrs/utils/DataExtractor.cpp
@@ -139,7 +139,7 @@ bool DataExtractor::DataExtractorStreamPlayer::onImageRead(
 
   if (format == vrs::ImageFormat::RAW || format == vrs::ImageFormat::VIDEO) {
     if (!inputFrame_) {
-      inputFrame_ = make_shared<PixelFrame>(imageBlock.image());
+      inputFrame_ = make_shared<PixelFrame>(); // allocated by readFrame(), once validated
     }
     if (readFrame(*inputFrame_, record, imageBlock)) {
       PixelFrame::normalizeFrame(inputFrame_, processedFrame_, true);
@@ -150,8 +150,12 @@ bool DataExtractor::DataExtractorStreamPlayer::onImageRead(
     }
   } else {
     vector<uint8_t> imageData;
-    imageData.resize(imageBlock.getBlockSize());
-    if (VERIFY_SUCCESS(record.reader->read(imageData.data(), imageBlock.getBlockSize()))) {
+    // don't allocate more than what the record can possibly contain
+    if (XR_VERIFY(imageBlock.getBlockSize() <= record.reader->getUnreadBytes())) {
+      imageData.resize(imageBlock.getBlockSize());
+      if (!VERIFY_SUCCESS(record.reader->read(imageData))) {
+        return false;
+      }
       if (!writeImage(record, imageBlock.image(), imageData) && status_ == 0) {
         status_ = FAILURE;
       }
@@ -182,8 +186,9 @@ bool DataExtractor::DataExtractorStreamPlayer::onCustomBlockRead(
     size_t /*blockIndex*/,
     const ContentBlock& contentBlock) {
   size_t size = contentBlock.getBlockSize();
-  vector<uint8_t> data(size);
-  if (size > 0 && size != ContentBlock::kSizeUnknown) {
+  // don't allocate more than what the record can possibly contain
+  if (size > 0 && size <= record.reader->getUnreadBytes()) {
+    vector<uint8_t> data(size);
     VERIFY_SUCCESS(record.reader->read(data));
   }
   using namespace vrs_rapidjson;
diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index e9d4acd..2c06e35 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -239,8 +239,12 @@ bool ImageExtractor::onImageRead(const CurrentRecord& record, size_t, const Cont
     }
   } else {
     vector<uint8_t> imageData;
-    imageData.resize(ib.getBlockSize());
-    int readStatus = record.reader->read(imageData.data(), ib.getBlockSize());
+    int readStatus = NOT_ENOUGH_DATA;
+    // don't allocate more than what the record can possibly contain
+    if (ib.getBlockSize() <= record.reader->getUnreadBytes()) {
+      imageData.resize(ib.getBlockSize());
+      readStatus = record.reader->read(imageData.data(), ib.getBlockSize());
+    }
     if (readStatus != 0) {
       THROTTLED_LOGW(
           record.fileReader,
-- 
2.43.0


From c029b13d8eec75624844c5acbaced5a6114131cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:31 +0000
Subject: [PATCH 80/80] fix: images with a stride smaller than their lines were
 converted past the end of the image

---
 vrs/utils/PixelFrame.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index 797518b..656427c 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -316,6 +316,12 @@ bool PixelFrame::readRawFrame(
   }
   // Read multiplane images as is
   if (inputImageSpec.getPlaneCount() != 1) {
+    if (inputImageSpec.getStride() < inputImageSpec.getDefaultStride() ||
+        inputImageSpec.getPlaneStride(1) < inputImageSpec.getDefaultStride2()) {
+      THROTTLED_LOGE(
+          reader->getRef(), "Image {} has an invalid stride.", inputImageSpec.asString());
+      return false;
+    }
     init(inputImageSpec);
     return VERIFY_SUCCESS(reader->read(wdata(), size()));
   }
-- 
2.43.0

