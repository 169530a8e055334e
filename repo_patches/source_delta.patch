From 03b43f0f41d664e0b0ae3e828fc4e0bf436f281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 01/60] fix: discard a damaged WAL tail before appending so
 later committed operations stay readable

---
 include/recovery/write_ahead_log.hpp | 44 ++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index e11752c..13be3ba 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -294,9 +294,53 @@ class WriteAheadLog {
            static_cast<uintmax_t>(payload_size) <= remaining_bytes - kTrailerSize;
   }
 
+  /**
+   * @brief Cuts off an incomplete or damaged tail before new frames are appended.
+   *
+   * Replay stops at the first frame that is not complete and valid, so a frame appended behind such
+   * a tail (left by a crash or a failed write) would never be read again.
+   */
+  auto discard_damaged_tail() const -> void {
+    std::error_code ec;
+    const auto wal_file_size = fs::file_size(path_, ec);
+    if (ec) {
+      return;
+    }
+    uintmax_t valid_end = 0;
+    {
+      std::ifstream input(path_, std::ios::binary);
+      if (!input.is_open()) {
+        throw std::runtime_error("Failed to open WAL file at " + path_.string());
+      }
+      while (valid_end < wal_file_size) {
+        auto header = read_frame_header(input);
+        if (!header.has_value() ||
+            !payload_size_is_plausible(input, wal_file_size, header->payload_size_)) {
+          break;
+        }
+        input.seekg(static_cast<std::streamoff>(header->payload_size_), std::ios::cur);
+        uint32_t trailer = 0;
+        input.read(reinterpret_cast<char *>(&trailer), sizeof(trailer));
+        if (!input || trailer != kWalTrailerMagic) {
+          break;
+        }
+        valid_end = static_cast<uintmax_t>(input.tellg());
+      }
+    }
+    if (valid_end < wal_file_size) {
+      LOG_WARN("WAL tail discarded: path={} valid_bytes={} file_bytes={}",
+               path_.string(),
+               valid_end,
+               wal_file_size);
+      fs::resize_file(path_, valid_end);
+      platform::sync_file_or_throw(path_);
+    }
+  }
+
   auto ensure_stream_open() const -> void {
     if (!wal_stream_.is_open()) {
       fs::create_directories(path_.parent_path());
+      discard_damaged_tail();
       wal_stream_.open(path_, std::ios::binary | std::ios::app);
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
-- 
2.43.0


From bd68af3b2b1147be9140b7b5171dc33c1148c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 02/60] fix: next_operation_id must stay above the snapshot's
 applied operations when the WAL is empty

---
 include/recovery/recovery_manager.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index e142eb9..4af0240 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -53,12 +53,13 @@ class RecoveryManager {
    * monotonically after restart.
    */
   [[nodiscard]] auto next_operation_id() const -> uint64_t {
-    uint64_t max_seen = 0;
+    uint64_t applied_through = 0;
     auto manifest = current_snapshot();
     if (manifest.has_value()) {
-      max_seen = manifest->applied_through_op_id_;
+      applied_through = manifest->applied_through_op_id_;
     }
-    (void)wal_.replayable_records(0, &max_seen);
+    uint64_t max_seen = applied_through;
+    (void)wal_.replayable_records(applied_through, &max_seen);
     return max_seen + 1;
   }
 
-- 
2.43.0


From f989d07657ce7ed5ce81951c69dbe160bbd0edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 03/60] fix: report WAL append and fsync failures instead of
 acknowledging the commit

---
 include/recovery/write_ahead_log.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index 13be3ba..5b2b2e4 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -326,6 +326,9 @@ class WriteAheadLog {
         }
         valid_end = static_cast<uintmax_t>(input.tellg());
       }
+      if (input.bad()) {
+        throw std::runtime_error("Failed to read WAL file at " + path_.string());
+      }
     }
     if (valid_end < wal_file_size) {
       LOG_WARN("WAL tail discarded: path={} valid_bytes={} file_bytes={}",
@@ -394,12 +397,18 @@ class WriteAheadLog {
 
     wal_stream_.write(buf.data(), static_cast<std::streamsize>(buf.size()));
     wal_stream_.flush();
+    if (!wal_stream_) {
+      // Reopening discards whatever part of the frame reached the file.
+      wal_stream_.close();
+      wal_stream_.clear();
+      throw std::runtime_error("Failed to append to WAL file at " + path_.string());
+    }
 
     // Only fsync on COMMIT frames. PREPARE frames are durable enough after
     // flush — a crash between PREPARE and COMMIT leaves an uncommitted record
     // that is correctly skipped during replay.
     if (frame_type == WalFrameType::kCommit) {
-      platform::sync_file(path_);
+      platform::sync_file_or_throw(path_);
     }
   }
 
-- 
2.43.0


From 1d737202f4b3588edf8fe19c779b5d7444da00b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 04/60] fix: never hand out an existing snapshot directory for
 a new snapshot

---
 include/recovery/recovery_manager.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 4af0240..63a95cc 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -65,12 +65,15 @@ class RecoveryManager {
 
   [[nodiscard]] auto create_snapshot_dir() const -> fs::path {
     ensure_layout();
-    auto now = SnapshotManifest::current_unix_ms();
-    std::ostringstream name;
-    name << "snapshot-" << now;
-    auto snapshot_dir = snapshots_dir_ / name.str();
-    fs::create_directories(snapshot_dir);
-    return snapshot_dir;
+    // Two snapshots within one clock tick must not share a directory: the earlier one may be CURRENT.
+    for (auto stamp = SnapshotManifest::current_unix_ms();; ++stamp) {
+      std::ostringstream name;
+      name << "snapshot-" << stamp;
+      auto snapshot_dir = snapshots_dir_ / name.str();
+      if (fs::create_directory(snapshot_dir)) {
+        return snapshot_dir;
+      }
+    }
   }
 
   // TODO(P2): The snapshot directory is only published after graph files and the RocksDB
-- 
2.43.0


From f8abf001f4ce79e2287fb2ec1405f0d803a42cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 05/60] fix: make snapshot components durable before CURRENT
 points at them and report publication failures

---
 include/recovery/recovery_manager.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 63a95cc..461e9fc 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -91,6 +91,7 @@ class RecoveryManager {
   auto publish_snapshot(const SnapshotManifest &manifest, const fs::path &snapshot_dir) const
       -> void {
     ensure_layout();
+    sync_tree(snapshot_dir);
     auto manifest_path = snapshot_dir / "manifest.txt";
     write_text_atomically(manifest_path, manifest.serialize());
     write_text_atomically(current_path_, manifest.snapshot_id_ + "\n");
@@ -184,6 +185,21 @@ class RecoveryManager {
   }
 
  private:
+  /**
+   * @brief Makes every component of a snapshot durable before CURRENT may point at it.
+   */
+  static auto sync_tree(const fs::path &dir) -> void {
+    fs::create_directories(dir);  // a snapshot without components is published as before
+    for (const auto &entry : fs::directory_iterator(dir)) {
+      if (entry.is_directory()) {
+        sync_tree(entry.path());
+      } else if (entry.is_regular_file()) {
+        platform::sync_file_or_throw(entry.path());
+      }
+    }
+    platform::sync_directory_or_throw(dir);
+  }
+
   /**
    * @brief Removes stale snapshot directories after a new snapshot is published.
    *
@@ -258,11 +274,14 @@ class RecoveryManager {
       output.write(content.data(), static_cast<std::streamsize>(content.size()));
       output.flush();
       output.close();
+      if (!output) {
+        throw std::runtime_error("Failed to write " + tmp_path.string());
+      }
     }
 
-    platform::sync_file(tmp_path);
+    platform::sync_file_or_throw(tmp_path);
     platform::atomic_replace(tmp_path, path);
-    platform::sync_directory(path.parent_path());
+    platform::sync_directory_or_throw(path.parent_path());
   }
 
   /**
-- 
2.43.0


From 1ca31b1721788252ad794e9cbb9cc8a7fdd79546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 06/60] fix: reject incomplete or foreign snapshot manifests

---
 include/recovery/recovery_manager.hpp  |  9 ++++++++-
 include/recovery/snapshot_manifest.hpp | 16 +++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 461e9fc..8e06eb7 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -132,7 +132,14 @@ class RecoveryManager {
     if (!manifest_raw.has_value()) {
       return std::nullopt;
     }
-    return SnapshotManifest::deserialize(manifest_raw.value());
+    auto manifest = SnapshotManifest::deserialize(manifest_raw.value());
+    if (manifest.has_value() && manifest->snapshot_id_ != snapshot_id) {
+      LOG_WARN("recovery: manifest of snapshot {} names another snapshot {}",
+               snapshot_id,
+               manifest->snapshot_id_);
+      return std::nullopt;
+    }
+    return manifest;
   }
 
   [[nodiscard]] auto current_snapshot_dir() const -> std::optional<fs::path> {
diff --git a/include/recovery/snapshot_manifest.hpp b/include/recovery/snapshot_manifest.hpp
index 1937ecf..72e0105 100644
--- a/include/recovery/snapshot_manifest.hpp
+++ b/include/recovery/snapshot_manifest.hpp
@@ -9,6 +9,7 @@
 #include <filesystem>  // NOLINT(build/c++17)
 #include <limits>
 #include <optional>
+#include <set>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -81,11 +82,17 @@ struct SnapshotManifest {
   /**
    * @brief Parses a text manifest into a SnapshotManifest object.
    *
-   * Unknown lines are ignored for forward compatibility, while required snapshot identity must be
-   * present. Numeric fields are converted from their persisted decimal representation.
+   * Unknown lines are ignored for forward compatibility, while every line written by serialize()
+   * must be present: a truncated manifest would otherwise load with default values as a different
+   * snapshot. Numeric fields are converted from their persisted decimal representation.
    */
   static auto deserialize(const std::string &raw) -> std::optional<SnapshotManifest> {
+    constexpr size_t kFieldCount = 9;
+    if (raw.empty() || raw.back() != '\n') {
+      return std::nullopt;
+    }
     SnapshotManifest manifest;
+    std::set<std::string> seen;
     std::istringstream input(raw);
     std::string line;
     while (std::getline(input, line)) {
@@ -122,9 +129,12 @@ struct SnapshotManifest {
         manifest.quant_file_ = value;
       } else if (key == "rocksdb_dir") {
         manifest.rocksdb_dir_ = value;
+      } else {
+        continue;
       }
+      seen.insert(key);
     }
-    if (manifest.snapshot_id_.empty()) {
+    if (manifest.snapshot_id_.empty() || seen.size() != kFieldCount) {
       return std::nullopt;
     }
     return manifest;
-- 
2.43.0


From 34e07dd23f60514654952935adfaf4fbfe21508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 07/60] fix: a flush whose segment was published but could not
 be opened no longer blocks every later flush

---
 include/index/disk/disk_collection.hpp | 36 +++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index ea44831..5f9a44a 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -924,12 +924,18 @@ class DiskCollection {
     // the dispatch decision in one place. The factory call also constructs
     // the searcher, so a builder-side or open-side failure is reported from
     // a single throw site.
-    auto searcher = create_segment_from_pending(seg_dir,
-                                                manifest_,
-                                                pending_vectors_.data(),
-                                                pending_labels_.data(),
-                                                pending_labels_.size(),
-                                                vamana_params_);
+    std::shared_ptr<SegmentSearcher> searcher;
+    try {
+      searcher = create_segment_from_pending(seg_dir,
+                                             manifest_,
+                                             pending_vectors_.data(),
+                                             pending_labels_.data(),
+                                             pending_labels_.size(),
+                                             vamana_params_);
+    } catch (...) {
+      skip_segment_id_if_published(seg_dir, seg_id);
+      throw;
+    }
     // Segment is now on disk. Any subsequent failure in this function leaves
     // an orphan segment that will be classified as kind=complete on next open.
     // Eagerly advance in-memory next_segment_id so a retried flush() uses a
@@ -1009,7 +1015,13 @@ class DiskCollection {
     const std::string seg_basename = detail::format_segment_id(seg_id);
     const auto seg_dir = path_ / "segments" / seg_basename;
 
-    auto searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
+    std::shared_ptr<SegmentSearcher> searcher;
+    try {
+      searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
+    } catch (...) {
+      skip_segment_id_if_published(seg_dir, seg_id);
+      throw;
+    }
 
     // Segment is now on disk. Match flush(): advance next_segment_id before
     // manifest publication so a retry after manifest-publish failure uses a
@@ -1249,6 +1261,16 @@ class DiskCollection {
  private:
   DiskCollection() = default;
 
+  // The builder may have published `seg_dir` before the failure (e.g. opening the
+  // new segment's searcher failed). That directory is an orphan now; a retry must
+  // use a fresh id instead of failing on it forever.
+  void skip_segment_id_if_published(const std::filesystem::path &seg_dir, uint64_t seg_id) {
+    std::error_code ec;
+    if (std::filesystem::exists(seg_dir, ec) && manifest_.next_segment_id <= seg_id) {
+      manifest_.next_segment_id = seg_id + 1;
+    }
+  }
+
   void open_listed_segments() {
     segments_.reserve(manifest_.segment_ids.size());
     segment_dirs_.reserve(manifest_.segment_ids.size());
-- 
2.43.0


From 76a5ff5acc9de06ca4480d0578d7806c78e9572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 08/60] fix: a failed collection creation or manifest
 publication leaves nothing behind that blocks a retry

---
 include/index/disk/disk_collection.hpp | 35 ++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 5f9a44a..5bb9b5d 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -86,10 +86,39 @@ inline auto publish_collection_manifest_atomic_only(const std::filesystem::path
   const std::string tmp_name =
       ".tmp_collection_manifest_" + std::to_string(pid) + "_" + std::to_string(ts);
   const auto tmp_path = collection_dir / tmp_name;
-  m.save(tmp_path);
-  rename_atomic_replace(tmp_path, collection_dir / "collection_manifest.txt");
+  try {
+    m.save(tmp_path);
+    rename_atomic_replace(tmp_path, collection_dir / "collection_manifest.txt");
+  } catch (...) {
+    std::error_code ec;
+    std::filesystem::remove(tmp_path, ec);
+    throw;
+  }
 }
 
+// Removes a half-created collection when its constructor fails after taking the
+// lock, so that creation can be repeated. `.lock` goes after `segments/`: no other
+// creator can place files of its own here before ours are gone.
+class CreateRollbackGuard {
+ public:
+  explicit CreateRollbackGuard(std::filesystem::path path) : path_(std::move(path)) {}
+  ~CreateRollbackGuard() {
+    if (armed_) {
+      std::error_code ec;
+      std::filesystem::remove(path_ / "segments", ec);
+      std::filesystem::remove(path_ / ".lock", ec);
+      std::filesystem::remove(path_, ec);
+    }
+  }
+  CreateRollbackGuard(const CreateRollbackGuard &) = delete;
+  auto operator=(const CreateRollbackGuard &) -> CreateRollbackGuard & = delete;
+  void disarm() { armed_ = false; }
+
+ private:
+  std::filesystem::path path_;
+  bool armed_ = true;
+};
+
 // Engine-agnostic ids-file handle for cross-segment label inventory. Resolves
 // `seg_dir / sm.ids_file`, mmap's it under O_NOFOLLOW (inherited from
 // MMapFile), and validates the file size is exactly `count * sizeof(uint64_t)`
@@ -736,6 +765,7 @@ class DiskCollection {
       throw;
     }
     path_ = path;
+    detail::CreateRollbackGuard rollback(path);
     {
       std::error_code ec;
       std::filesystem::create_directories(path / "segments", ec);
@@ -759,6 +789,7 @@ class DiskCollection {
 
     // Constructor publish: atomic write + best-effort durability fsync.
     detail::publish_collection_manifest_atomic_only(path_, manifest_);
+    rollback.disarm();
     try {
       detail::fsync_dir(path_);
     } catch (const std::exception &e) {
-- 
2.43.0


From 8d3115d9de3966db0753e0707ea94063466def7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 09/60] fix: scheduler workers no longer quit before tasks
 scheduled after begin()

---
 include/executor/worker.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/executor/worker.hpp b/include/executor/worker.hpp
index 0bf09f5..5764834 100644
--- a/include/executor/worker.hpp
+++ b/include/executor/worker.hpp
@@ -73,7 +73,7 @@ class Worker : public std::enable_shared_from_this<Worker> {
    * The quit logic is implemented in the `run` method.
    */
   void join() {
-    active_ = false;
+    active_.store(false);
     thread_.join();
   }
 
@@ -108,7 +108,8 @@ class Worker : public std::enable_shared_from_this<Worker> {
       if (handle == nullptr) {
         auto success = task_queue_->pop(handle);
         if (!success) {
-          if (total_finish_cnt_->load() == total_task_cnt_->load()) {
+          // Quit only once join() was called: tasks may still be scheduled until then.
+          if (!active_.load() && total_finish_cnt_->load() == total_task_cnt_->load()) {
             break;
           }
           continue;
@@ -170,7 +171,7 @@ class Worker : public std::enable_shared_from_this<Worker> {
   WorkerID id_{0};   ///< Worker identifier
   CpuID cpu_id_{0};  ///< CPU identifier, represents the CPU on which the worker operates.
 
-  bool active_{true};  ///< Flag indicating whether the worker is active.
+  std::atomic<bool> active_{true};  ///< Flag indicating whether the worker is active.
 
   std::thread thread_;  ///< The thread associated with the worker.
 
-- 
2.43.0


From 104fd46a9897cd5fc398b57dd7ccc6137b47609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 10/60] fix: co_await scheduler.schedule() queued the running
 task a second time

---
 include/executor/scheduler.hpp | 6 +++++-
 include/executor/worker.hpp    | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/executor/scheduler.hpp b/include/executor/scheduler.hpp
index 8cabc89..601d8b5 100644
--- a/include/executor/scheduler.hpp
+++ b/include/executor/scheduler.hpp
@@ -70,7 +70,11 @@ class Scheduler {
      */
     template <typename Promise>
     auto await_suspend(std::coroutine_handle<Promise> awaiting_coroutine) noexcept -> bool {
-      scheduler_.resume(awaiting_coroutine);
+      // A worker keeps the task it runs in its local batch and resumes it in turn; queueing the
+      // handle as well would hand the same coroutine out twice.
+      if (!Worker::in_worker()) {
+        scheduler_.schedule(awaiting_coroutine);
+      }
       return true;
     }
 
diff --git a/include/executor/worker.hpp b/include/executor/worker.hpp
index 5764834..67a139c 100644
--- a/include/executor/worker.hpp
+++ b/include/executor/worker.hpp
@@ -55,6 +55,14 @@ class Worker : public std::enable_shared_from_this<Worker> {
    */
   auto cpu_id() const -> CpuID { return cpu_id_; }
 
+  /**
+   * @brief Tells whether the calling thread is currently executing tasks as a Worker.
+   */
+  static auto in_worker() -> bool & {
+    static thread_local bool in_worker = false;
+    return in_worker;
+  }
+
   /**
    * @brief Starts the Worker thread.
    *
@@ -98,6 +106,7 @@ class Worker : public std::enable_shared_from_this<Worker> {
    */
   void run() {
     // set_affinity();
+    in_worker() = true;
 
     uint32_t navigator = 0;
 
-- 
2.43.0


From b7edf373a30933e001da49a4cb6e0255c4573c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 11/60] fix: ThreadPool woke only one of the threads waiting
 for completion

---
 include/utils/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/thread_pool.hpp b/include/utils/thread_pool.hpp
index a78a3c7..7c3276a 100644
--- a/include/utils/thread_pool.hpp
+++ b/include/utils/thread_pool.hpp
@@ -47,7 +47,7 @@ class ThreadPool {
           {
             std::lock_guard<std::mutex> lock(this->queue_mutex_);
             tasks_completed_.fetch_add(1);
-            condition_tasks_completed_.notify_one();
+            condition_tasks_completed_.notify_all();
           }
         }
       });
-- 
2.43.0


From 7cd87a6fa0f661cdcda0c8fcd93f965a9dab23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 12/60] fix: batch_search terminated the process when a worker
 thread could not be started

---
 include/index/disk/disk_collection.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 5bb9b5d..c616f05 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1238,6 +1238,21 @@ class DiskCollection {
 
     std::vector<std::thread> workers;
     workers.reserve(worker_count);
+    // If a thread cannot be started, the ones already running must be stopped
+    // and joined before the exception leaves (a joinable std::thread would
+    // otherwise terminate the process).
+    struct JoinGuard {
+      std::vector<std::thread> &workers;
+      std::atomic<bool> &aborted;
+      ~JoinGuard() {
+        aborted.store(true, std::memory_order_relaxed);
+        for (auto &w : workers) {
+          if (w.joinable()) {
+            w.join();
+          }
+        }
+      }
+    } join_guard{workers, aborted};
     for (uint32_t t = 0; t < worker_count; ++t) {
       workers.emplace_back([&, this]() {
         try {
-- 
2.43.0


From 39e3ac8927403c09adeb0d49d2349559ae480ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 13/60] fix: field-index lookup of a string also returned
 records whose value continues with '_'

---
 include/storage/rocksdb_storage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 76cff7d..9e6e61b 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -561,6 +561,10 @@ class RocksDBStorage {
       if (!key.starts_with(prefix)) {
         break;
       }
+      // A longer string value may continue after the same prefix ("a" and "a_b"): only a bare ID may.
+      if (key.find_first_not_of("0123456789", prefix.size()) != std::string::npos) {
+        continue;
+      }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
       ids.push_back(id);
     }
-- 
2.43.0


From c5afa135f145757f7ef10f495db7b885e0c6819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 14/60] fix: field index kept -0.0 and 0.0 apart, so lookups of
 either missed the other

---
 include/utils/index_encoding.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utils/index_encoding.hpp b/include/utils/index_encoding.hpp
index 250a75a..67f5233 100644
--- a/include/utils/index_encoding.hpp
+++ b/include/utils/index_encoding.hpp
@@ -51,6 +51,9 @@ inline auto decode_int64(const std::string &s) -> int64_t {
 inline auto encode_double(double value) -> std::string {
   uint64_t bits;
   std::memcpy(&bits, &value, sizeof(bits));
+  if (bits == (1ULL << 63)) {
+    bits = 0;  // -0.0 equals 0.0, so both need the same key
+  }
   if ((bits >> 63) != 0U) {
     bits = ~bits;  // Negative: flip all bits
   } else {
-- 
2.43.0


From b639feb9c837aae9256ddce050c8ad78dc606fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 15/60] fix: scalar store forgot its record count when the
 process died without closing it

---
 include/storage/rocksdb_storage.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 9e6e61b..2420c6f 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -241,6 +241,9 @@ class RocksDBStorage {
     // Add field indexes for indexed fields
     add_field_indexes(batch, id, data);
 
+    if (!replacing_existing) {
+      put_count(batch, cached_count_ + 1);
+    }
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
       LOG_ERROR("Failed to insert ScalarData for ID {}: {}", id, status.ToString());
@@ -346,6 +349,9 @@ class RocksDBStorage {
       add_field_indexes(batch, record.id, record.data);
     }
 
+    if (inserted_count > 0) {
+      put_count(batch, cached_count_ + inserted_count);
+    }
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
       LOG_ERROR("Batch insert failed: {}", status.ToString());
@@ -380,6 +386,9 @@ class RocksDBStorage {
     // Remove field indexes
     remove_field_indexes(batch, id, data);
 
+    if (cached_count_ > 0) {
+      put_count(batch, cached_count_ - 1);
+    }
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
       LOG_ERROR("Failed to remove ID {}: {}", id, status.ToString());
@@ -988,6 +997,14 @@ class RocksDBStorage {
     db_->Put(sync_options, count_key(), count_slice);
   }
 
+  /**
+   * @brief Store the record count together with the change that alters it, so that it survives a
+   * process that dies without closing the database.
+   */
+  static void put_count(rocksdb::WriteBatch &batch, size_t count) {
+    batch.Put(count_key(), rocksdb::Slice(reinterpret_cast<const char *>(&count), sizeof(count)));
+  }
+
   static auto item_id_index_key(const std::string &item_id) -> std::string {
     return "i_" + item_id;
   }
-- 
2.43.0


From b7710408cf01adb45b8235ee8b518cfca4c21d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 16/60] fix: field-index lookups mixed up indexed fields whose
 names share a prefix ('x' and 'x_s')

---
 include/storage/rocksdb_storage.hpp | 39 ++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 2420c6f..14f8d9a 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -575,7 +575,9 @@ class RocksDBStorage {
         continue;
       }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
-      ids.push_back(id);
+      if (owns_index_entry(id, field, encoded)) {
+        ids.push_back(id);
+      }
     }
 
     return ids;
@@ -622,7 +624,9 @@ class RocksDBStorage {
         break;  // Exceeded max value
       }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
-      ids.push_back(id);
+      if (owns_index_entry(id, field, "i_" + encoded_value)) {
+        ids.push_back(id);
+      }
     }
 
     return ids;
@@ -666,7 +670,9 @@ class RocksDBStorage {
         break;
       }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
-      ids.push_back(id);
+      if (owns_index_entry(id, field, "d_" + encoded_value)) {
+        ids.push_back(id);
+      }
     }
 
     return ids;
@@ -1023,6 +1029,33 @@ class RocksDBStorage {
     batch.Delete(item_id_index_key(item_id));
   }
 
+  /**
+   * @brief Whether an index entry found for @p field was written for that field of record @p id
+   *
+   * Keys join field, type and value with '_', so fields such as "x" and "x_s" can share a key; only
+   * then does the record itself have to be consulted.
+   */
+  [[nodiscard]] auto owns_index_entry(IDType id,
+                                      const std::string &field,
+                                      const std::string &encoded) const -> bool {
+    auto may_share_keys = [&field](const std::string &other) {
+      return other != field &&
+             (other.starts_with(field + "_") || field.starts_with(other + "_"));
+    };
+    if (std::none_of(config_.indexed_fields_.begin(),
+                     config_.indexed_fields_.end(),
+                     may_share_keys)) {
+      return true;
+    }
+    std::string raw;
+    if (!get_data_value(id, &raw)) {
+      return false;
+    }
+    auto stored =
+        ScalarData::deserialize_single_metadata_value(raw.data(), raw.size(), field);
+    return stored.has_value() && index_encoding::encode_value(*stored) == encoded;
+  }
+
   /**
    * @brief Add field indexes for indexed fields
    */
-- 
2.43.0


From a69be0af29f331933e17a0fa4820383c59f2d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 17/60] fix: single-field decoding never found the field with
 the empty name

---
 include/utils/scalar_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/scalar_data.hpp b/include/utils/scalar_data.hpp
index 12bc529..dbb65ec 100644
--- a/include/utils/scalar_data.hpp
+++ b/include/utils/scalar_data.hpp
@@ -136,7 +136,7 @@ struct ScalarData {
                                                 size_t size,
                                                 std::string_view field)
       -> std::optional<MetadataValue> {
-    if (field.empty() || data == nullptr || size == 0) {
+    if (data == nullptr || size == 0) {
       return std::nullopt;
     }
 
-- 
2.43.0


From a519836b9a70434831304f73bc5f6677cd8a80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 18/60] fix: range filters answered from a field index ignored
 infinite values

---
 include/utils/metadata_filter_matcher.hpp | 33 +++++++++++++++--------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/utils/metadata_filter_matcher.hpp b/include/utils/metadata_filter_matcher.hpp
index b374b53..dde31fc 100644
--- a/include/utils/metadata_filter_matcher.hpp
+++ b/include/utils/metadata_filter_matcher.hpp
@@ -163,6 +163,14 @@ class MetadataFilterExecutor {
   }
 
  private:
+  static constexpr double kDoubleMax = std::numeric_limits<double>::infinity();
+  static constexpr double kDoubleMin = -std::numeric_limits<double>::infinity();
+
+  // Compares by encoding, because -ffast-math builds may assume that no value is infinite.
+  static auto same_encoding(double lhs, double rhs) -> bool {
+    return index_encoding::encode_double(lhs) == index_encoding::encode_double(rhs);
+  }
+
   [[nodiscard]] auto is_indexed_field(const std::string &field) const -> bool {
     const auto &indexed_fields = storage_->config().indexed_fields_;
     return std::find(indexed_fields.begin(), indexed_fields.end(), field) != indexed_fields.end();
@@ -196,7 +204,7 @@ class MetadataFilterExecutor {
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
                                                    std::get<double>(cond.value),
-                                                   std::numeric_limits<double>::max());
+                                                   kDoubleMax);
         }
         return std::nullopt;
       case FilterOp::GT:
@@ -211,10 +219,12 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::nextafter(value, std::numeric_limits<double>::max()),
-                                        std::numeric_limits<double>::max());
+          if (same_encoding(value, kDoubleMax)) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(cond.field,
+                                                   std::nextafter(value, kDoubleMax),
+                                                   kDoubleMax);
         }
         return std::nullopt;
       case FilterOp::LE:
@@ -225,7 +235,7 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
-                                                   std::numeric_limits<double>::lowest(),
+                                                   kDoubleMin,
                                                    std::get<double>(cond.value));
         }
         return std::nullopt;
@@ -241,11 +251,12 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::numeric_limits<double>::lowest(),
-                                        std::nextafter(value,
-                                                       std::numeric_limits<double>::lowest()));
+          if (same_encoding(value, kDoubleMin)) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(cond.field,
+                                                   kDoubleMin,
+                                                   std::nextafter(value, kDoubleMin));
         }
         return std::nullopt;
       default:
-- 
2.43.0


From f88d10bf337eb3750ede5a143c680f3b95aee17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 19/60] fix: RawSpace counted, and stored metadata for, vectors
 refused because it was full

---
 include/space/raw_space.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 5ac04a0..bafbeed 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -163,6 +163,9 @@ class RawSpace {
    */
   auto insert(const DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
     auto id = data_storage_.insert(data);
+    if (id == static_cast<IDType>(-1)) {
+      return id;  // the store is full
+    }
     item_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
-- 
2.43.0


From b129eadf70243fddf41fbbd8e79a5bbbfeae2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 20/60] fix: removing a vector that is not stored was counted
 as a removal

---
 include/space/raw_space.hpp | 3 +++
 include/space/sq4_space.hpp | 3 +++
 include/space/sq8_space.hpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index bafbeed..adbe538 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -183,6 +183,9 @@ class RawSpace {
    * @param id the id of the data point to delete
    */
   auto remove(IDType id) -> IDType {
+    if (!data_storage_.is_valid(id)) {
+      return static_cast<IDType>(-1);
+    }
     delete_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_storage_ != nullptr) {
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index ec50c9f..9cfd5f1 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -308,6 +308,9 @@ class SQ4Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
+    if (!data_storage_.is_valid(id)) {
+      return static_cast<IDType>(-1);
+    }
     delete_cnt_++;
 
     // Remove ScalarData if present
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index b8808ba..0807612 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -307,6 +307,9 @@ class SQ8Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
+    if (!data_storage_.is_valid(id)) {
+      return static_cast<IDType>(-1);
+    }
     delete_cnt_++;
 
     // Remove ScalarData if present
-- 
2.43.0


From 20d5cbf5edd122bb27f13ab3a295f671f9562a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 21/60] fix: a vector whose metadata was refused stayed stored,
 or made the slot count too small

---
 include/space/raw_space.hpp | 2 ++
 include/space/sq4_space.hpp | 2 +-
 include/space/sq8_space.hpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index adbe538..4bf92cc 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -170,6 +170,8 @@ class RawSpace {
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
         if (!scalar_storage_->insert(id, *scalar_data)) {
+          data_storage_.remove(id);
+          delete_cnt_++;  // the slot itself is not handed out again
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 9cfd5f1..6d4eea2 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -291,7 +291,7 @@ class SQ4Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;  // the slot itself is not handed out again
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 0807612..a34b7be 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -290,7 +290,7 @@ class SQ8Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;  // the slot itself is not handed out again
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
-- 
2.43.0


From 4efcf9e0e38f05f396c338a007cac15911c2f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 22/60] fix: a loaded vector space had no distance function
 until set_metric_function() was called

---
 include/space/raw_space.hpp | 1 +
 include/space/sq4_space.hpp | 1 +
 include/space/sq8_space.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 4bf92cc..12c38d5 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -391,6 +391,7 @@ class RawSpace {
       scalar_storage_ = std::make_unique<RocksDBStorage<IDType>>(config_);
     }
     data_storage_.load(reader);
+    set_metric_function();
     LOG_INFO("RawSpace is loaded from {}", filename);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 6d4eea2..9c85847 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -365,6 +365,7 @@ class SQ4Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    set_metric_function();
     LOG_INFO("SQ4Space is loaded from {}", filename);
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index a34b7be..3aa9e12 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -364,6 +364,7 @@ class SQ8Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    set_metric_function();
     LOG_INFO("SQ8Space is loaded from {}", filename);
   }
 
-- 
2.43.0


From edf05abe8986a047a26af4bd258e9bb00cc95f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 23/60] fix: SQ4 distances used the ranges of neighbouring
 coordinates and ignored the last one of an odd dimension

---
 include/space/sq4_space.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 9c85847..02e2f56 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -134,6 +134,7 @@ class SQ4Space {
     item_cnt_ = item_cnt;
 
     quantizer_.fit(data, item_cnt);
+    update_kernel_ranges();
     for (IDType i = 0; i < item_cnt; i++) {
       auto id = data_storage_.reserve();
       quantizer_.encode(data + (i * dim_), data_storage_[id]);
@@ -175,9 +176,9 @@ class SQ4Space {
   auto get_distance(IDType i, IDType j) -> DistanceType {
     return distance_calu_func_(get_data_by_id(i),
                                get_data_by_id(j),
-                               dim_,
-                               quantizer_.get_min(),
-                               quantizer_.get_max());
+                               kernel_min_.size(),
+                               kernel_min_.data(),
+                               kernel_max_.data());
   }
 
   /**
@@ -365,6 +366,7 @@ class SQ4Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    update_kernel_ranges();
     set_metric_function();
     LOG_INFO("SQ4Space is loaded from {}", filename);
   }
@@ -435,9 +437,9 @@ class SQ4Space {
     auto operator()(IDType u) const -> DistanceType {
       return distance_space_.distance_calu_func_(query_,
                                                  distance_space_.get_data_by_id(u),
-                                                 distance_space_.get_dim(),
-                                                 distance_space_.get_quantizer().get_min(),
-                                                 distance_space_.get_quantizer().get_max());
+                                                 distance_space_.kernel_min_.size(),
+                                                 distance_space_.kernel_min_.data(),
+                                                 distance_space_.kernel_max_.data());
     }
   };
 
@@ -481,6 +483,21 @@ class SQ4Space {
   DataStorage data_storage_;          ///< Data storage for encoded data
   SQ4Quantizer<DataType> quantizer_;  ///< The quantizer used to quantize the data
 
+  // The quantizer packs an even coordinate into the high nibble, whereas the distance kernels take
+  // the low nibble first: they are given the ranges with each pair exchanged and, for an odd
+  // dimension, an empty range for the unused nibble.
+  std::vector<DataType> kernel_min_;
+  std::vector<DataType> kernel_max_;
+
+  void update_kernel_ranges() {
+    kernel_min_.assign((dim_ + 1) / 2 * 2, 0);
+    kernel_max_.assign(kernel_min_.size(), 0);
+    for (uint32_t i = 0; i < dim_; ++i) {
+      kernel_min_[i ^ 1U] = quantizer_.get_min()[i];
+      kernel_max_[i ^ 1U] = quantizer_.get_max()[i];
+    }
+  }
+
   RocksDBConfig config_;  ///< Configuration for Scalar Data Storage
   std::unique_ptr<RocksDBStorage<IDType>>
       scalar_storage_;  ///< Scalar Data Storage (stores ScalarData)
-- 
2.43.0


From 763b1f7c3a604de1e3c39fbb29361d62badd869e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 24/60] fix: RaBitQ estimates overflowed 16 bits above 1024
 dimensions

---
 include/utils/rabitq_utils/fastscan.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/utils/rabitq_utils/fastscan.hpp b/include/utils/rabitq_utils/fastscan.hpp
index 55f268c..54b386f 100644
--- a/include/utils/rabitq_utils/fastscan.hpp
+++ b/include/utils/rabitq_utils/fastscan.hpp
@@ -18,6 +18,7 @@
 
 #include "utils/platform.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cstdint>
@@ -32,6 +33,8 @@
 
 namespace alaya::fastscan {
 constexpr static size_t kBatchSize = 32;  // number of vectors in each batch
+// One scan sums 8-bit table entries (one per 4 dimensions) in 16 bits: 256 * 255 still fits.
+constexpr static size_t kMaxScanDim = 1024;
 
 inline auto log_scalar_fastscan_fallback() -> void {
   LOG_INFO_ONCE("rabitq fallback: AVX-512 fastscan is unavailable, using portable fallback path");
@@ -321,6 +324,25 @@ inline void accumulate_and_estimate_distances(const uint8_t *ALAYA_RESTRICT code
                                               size_t dim) {
   static_assert(std::is_same_v<T, float>,
                 "fastscan::accumulate_and_estimate_distances only supports float.");
+  if (dim > kMaxScanDim) {
+    // Scan in pieces whose sums fit in 16 bits, and add the pieces up in 32 bits.
+    std::array<uint32_t, kBatchSize> total{};
+    alignas(64) std::array<uint16_t, kBatchSize> part{};
+    for (size_t offset = 0; offset < dim; offset += kMaxScanDim) {
+      accumulate(codes + (offset << 2),
+                 lp_table + (offset << 2),
+                 part.data(),
+                 std::min(kMaxScanDim, dim - offset));
+      for (size_t i = 0; i < kBatchSize; ++i) {
+        total[i] += part[i];
+      }
+    }
+    for (size_t i = 0; i < kBatchSize; ++i) {
+      const auto inner = static_cast<T>(total[i]) * lut_delta + lut_bias;
+      result[i] = f_rescale[i] * inner + f_add[i] + g_add;
+    }
+    return;
+  }
   if ((dim & 0x0FU) != 0U) {
     log_scalar_fastscan_fallback();
     alignas(64) std::array<uint16_t, kBatchSize> nth_segments{};
-- 
2.43.0


From d813ab0c8b4622edd7eade1f6fc8867ab719ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 25/60] fix: a failing last write while saving disk graph files
 went unreported

---
 include/index/graph/diskann/diskann_index.hpp    | 2 ++
 include/index/graph/diskann/node_cache.hpp       | 2 ++
 include/index/graph/diskann/pq_table.hpp         | 2 ++
 include/index/graph/diskann/slot_allocator.hpp   | 1 +
 include/index/graph/diskann/tombstone_bitmap.hpp | 1 +
 include/index/graph/vamana/build_dispatch.hpp    | 1 +
 include/index/graph/vamana/shard_assigner.hpp    | 3 +++
 include/index/graph/vamana/shard_merger.hpp      | 3 ++-
 include/index/graph/vamana/vamana_writer.hpp     | 2 +-
 9 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index c4cde0f..12e834d 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2251,6 +2251,7 @@ class DiskANNIndex {
     w(&m.nodes_per_sector, sizeof(m.nodes_per_sector));
     w(&m.max_slot_id, sizeof(m.max_slot_id));  // v2
     w(&m.live_count, sizeof(m.live_count));    // v2
+    out.close();
     if (!out) {
       throw std::runtime_error("DiskANNIndex: meta write failed " + p);
     }
@@ -2310,6 +2311,7 @@ class DiskANNIndex {
     out.write(reinterpret_cast<const char *>(&n), sizeof(n));
     out.write(reinterpret_cast<const char *>(labels),
               static_cast<std::streamsize>(n * sizeof(uint64_t)));
+    out.close();
     if (!out) {
       throw std::runtime_error("DiskANNIndex: ids write failed " + p);
     }
diff --git a/include/index/graph/diskann/node_cache.hpp b/include/index/graph/diskann/node_cache.hpp
index 403dd83..081fb04 100644
--- a/include/index/graph/diskann/node_cache.hpp
+++ b/include/index/graph/diskann/node_cache.hpp
@@ -169,6 +169,7 @@ class NodeCache {
         out.write(reinterpret_cast<const char *>(ids.data()),
                   static_cast<std::streamsize>(count * sizeof(uint32_t)));
       }
+      out.close();
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + ids_path);
       }
@@ -189,6 +190,7 @@ class NodeCache {
         }
         out.write(record, static_cast<std::streamsize>(node_len_));
       }
+      out.close();
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + nodes_path);
       }
diff --git a/include/index/graph/diskann/pq_table.hpp b/include/index/graph/diskann/pq_table.hpp
index e31dff8..d908ec1 100644
--- a/include/index/graph/diskann/pq_table.hpp
+++ b/include/index/graph/diskann/pq_table.hpp
@@ -380,6 +380,7 @@ class PQTable {
                 static_cast<std::streamsize>(global_centroid_.size() * sizeof(float)));
       out.write(reinterpret_cast<const char *>(codebook_.data()),
                 static_cast<std::streamsize>(codebook_.size() * sizeof(float)));
+      out.close();
       if (!out) {
         throw std::runtime_error("PQTable::save: write failed for " + pivots_path);
       }
@@ -391,6 +392,7 @@ class PQTable {
       }
       out.write(reinterpret_cast<const char *>(codes_.data()),
                 static_cast<std::streamsize>(codes_.size()));
+      out.close();
       if (!out) {
         throw std::runtime_error("PQTable::save: write failed for " + compressed_path);
       }
diff --git a/include/index/graph/diskann/slot_allocator.hpp b/include/index/graph/diskann/slot_allocator.hpp
index 1926593..9b040b1 100644
--- a/include/index/graph/diskann/slot_allocator.hpp
+++ b/include/index/graph/diskann/slot_allocator.hpp
@@ -103,6 +103,7 @@ class SlotAllocator {
                 static_cast<std::streamsize>(n_free * sizeof(uint32_t)));
     }
     tombstone_.serialize(out);
+    out.close();
     if (!out) {
       throw std::runtime_error("SlotAllocator::save: write failed " + path);
     }
diff --git a/include/index/graph/diskann/tombstone_bitmap.hpp b/include/index/graph/diskann/tombstone_bitmap.hpp
index 9cf8904..1b468dd 100644
--- a/include/index/graph/diskann/tombstone_bitmap.hpp
+++ b/include/index/graph/diskann/tombstone_bitmap.hpp
@@ -221,6 +221,7 @@ class TombstoneBitmap {
       throw std::runtime_error("TombstoneBitmap::save: cannot open " + path);
     }
     serialize(out);
+    out.close();
     if (!out) {
       throw std::runtime_error("TombstoneBitmap::save: write failed " + path);
     }
diff --git a/include/index/graph/vamana/build_dispatch.hpp b/include/index/graph/vamana/build_dispatch.hpp
index 986b56e..930e621 100644
--- a/include/index/graph/vamana/build_dispatch.hpp
+++ b/include/index/graph/vamana/build_dispatch.hpp
@@ -332,6 +332,7 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
     cf.write(reinterpret_cast<const char *>(pivots.data()),
              static_cast<std::streamsize>(num_parts) * static_cast<std::streamsize>(dim) *
                  sizeof(float));
+    cf.close();
     if (!cf.good()) {
       throw std::runtime_error("write error on centroids file: " + centroids_path.string());
     }
diff --git a/include/index/graph/vamana/shard_assigner.hpp b/include/index/graph/vamana/shard_assigner.hpp
index 1c06160..ea6cd1f 100644
--- a/include/index/graph/vamana/shard_assigner.hpp
+++ b/include/index/graph/vamana/shard_assigner.hpp
@@ -87,6 +87,9 @@ struct ShardOutputStreams {
     idmap_os.seekp(0, std::ios::beg);
     idmap_os.write(reinterpret_cast<const char *>(&count), sizeof(uint32_t));
     idmap_os.close();
+    if (!data_os || !idmap_os) {
+      throw std::runtime_error("shard_assigner: write error on a shard file");
+    }
   }
 };
 
diff --git a/include/index/graph/vamana/shard_merger.hpp b/include/index/graph/vamana/shard_merger.hpp
index 9ba43e3..8951941 100644
--- a/include/index/graph/vamana/shard_merger.hpp
+++ b/include/index/graph/vamana/shard_merger.hpp
@@ -338,10 +338,10 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
   // Patch the expected_file_size header.
   out.seekp(0, std::ios::beg);
   out.write(reinterpret_cast<const char *>(&expected_file_size), sizeof(uint64_t));
+  out.close();
   if (!out.good()) {
     throw std::runtime_error("merge_shards: write error on output");
   }
-  out.close();
 
   // DiskANN-format medoids file: uint32 nshards, uint32 1 (stride),
   // nshards × uint32 global_medoid. Path = `<output>_medoids.bin`,
@@ -359,6 +359,7 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
     mf.write(reinterpret_cast<const char *>(&one_stride), sizeof(uint32_t));
     mf.write(reinterpret_cast<const char *>(shard_medoids_global.data()),
              static_cast<std::streamsize>(nshards) * sizeof(uint32_t));
+    mf.close();
     if (!mf.good()) {
       throw std::runtime_error("merge_shards: write error on " + medoids_path.string());
     }
diff --git a/include/index/graph/vamana/vamana_writer.hpp b/include/index/graph/vamana/vamana_writer.hpp
index 565f1a9..6cf6db5 100644
--- a/include/index/graph/vamana/vamana_writer.hpp
+++ b/include/index/graph/vamana/vamana_writer.hpp
@@ -65,10 +65,10 @@ inline void save_graph(const std::vector<std::vector<uint32_t>> &graph,
   // Rewrite the expected_file_size at offset 0 now that we know the total.
   out.seekp(0, std::ios::beg);
   out.write(reinterpret_cast<const char *>(&index_size), sizeof(uint64_t));
+  out.close();
   if (!out.good()) {
     throw std::runtime_error("save_graph: write error on " + path.string());
   }
-  out.close();
 }
 
 }  // namespace alaya::vamana
-- 
2.43.0


From 38dfcba255e1772a1a3668c92ac847515fcd3a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 26/60] fix: a failing write while saving an in-memory index
 file went unreported

---
 include/index/graph/graph.hpp  | 4 ++++
 include/space/rabitq_space.hpp | 4 ++++
 include/space/raw_space.hpp    | 4 ++++
 include/space/sq4_space.hpp    | 4 ++++
 include/space/sq8_space.hpp    | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/include/index/graph/graph.hpp b/include/index/graph/graph.hpp
index 3a9c0d2..e795100 100644
--- a/include/index/graph/graph.hpp
+++ b/include/index/graph/graph.hpp
@@ -185,6 +185,10 @@ struct Graph {
     if (overlay_graph_) {
       overlay_graph_->save(writer);
     }
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("Graph Saving done in {}\n", filename);
   }
 
diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 5b6d5e4..cf2beb1 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -596,6 +596,10 @@ class RaBitQSpace {
 
     quantizer_->save(writer);
 
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("RaBitQSpace is successfully saved to {}.", filename);
   }
 
diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 12c38d5..29f33ca 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -412,6 +412,10 @@ class RawSpace {
     }
 
     data_storage_.save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("RawSpace is saved to {}", filename);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 02e2f56..0bc280d 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -394,6 +394,10 @@ class SQ4Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("SQ4Space is saved to {}", filename);
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 3aa9e12..a1e1f0e 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -391,6 +391,10 @@ class SQ8Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("SQ8Space is saved to {}", filename);
   }
   /**
-- 
2.43.0


From 75b1aba523919c24b38734b5f17442a3b3455982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 27/60] fix: truncated in-memory index files were loaded as if
 they were complete

---
 include/index/graph/graph.hpp          |  5 ++++-
 include/index/graph/overlay_graph.hpp  |  6 +++++-
 include/space/rabitq_space.hpp         | 11 ++++++++++-
 include/space/raw_space.hpp            |  9 +++++++++
 include/space/sq4_space.hpp            | 11 ++++++++++-
 include/space/sq8_space.hpp            | 11 ++++++++++-
 include/storage/sequential_storage.hpp |  6 ++++++
 7 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/graph.hpp b/include/index/graph/graph.hpp
index e795100..b21cd45 100644
--- a/include/index/graph/graph.hpp
+++ b/include/index/graph/graph.hpp
@@ -205,7 +205,7 @@ struct Graph {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
 
-    int nep;
+    int nep = 0;
 
     reader.read(reinterpret_cast<char *>(&nep), 4);
     eps_.resize(nep);
@@ -227,6 +227,9 @@ struct Graph {
       overlay_graph_ = std::make_unique<OverlayGraph<NodeIDType>>(max_nodes_, max_nbrs_);
       overlay_graph_->load(reader);
     }
+    if (!reader) {
+      throw std::runtime_error("File is truncated: " + std::string(filename));
+    }
     LOG_INFO("Graph Loading done\n");
   }
 
diff --git a/include/index/graph/overlay_graph.hpp b/include/index/graph/overlay_graph.hpp
index fe5ef46..6b4570e 100644
--- a/include/index/graph/overlay_graph.hpp
+++ b/include/index/graph/overlay_graph.hpp
@@ -6,6 +6,7 @@
 
 #include <cstdint>
 #include <fstream>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -143,6 +144,9 @@ class OverlayGraph {
     reader.read(reinterpret_cast<char *>(&node_num_), 4);
     reader.read(reinterpret_cast<char *>(&max_nbrs_), 4);
     reader.read(reinterpret_cast<char *>(&ep_), 4);
+    if (!reader) {
+      throw std::runtime_error("OverlayGraph: file is truncated");
+    }
 
     levels_.clear();
     lists_.clear();
@@ -150,7 +154,7 @@ class OverlayGraph {
     lists_.resize(node_num_);
 
     for (NodeIDType i = 0; i < node_num_; ++i) {
-      int cur;
+      int cur = 0;
       reader.read(reinterpret_cast<char *>(&cur), 4);
       levels_[i] = cur / max_nbrs_;
 
diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index cf2beb1..867addc 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -131,7 +131,7 @@ class RaBitQSpace {
     config_.create_if_missing_ = false;  // db is missing means something's wrong
     config_.error_if_exists_ = false;    // Of course db exists
     // Load db_path_ string
-    size_t db_path_size;
+    size_t db_path_size = 0;
     reader.read(reinterpret_cast<char *>(&db_path_size), sizeof(db_path_size));
     config_.db_path_.resize(db_path_size);
     reader.read(config_.db_path_.data(), db_path_size);
@@ -168,6 +168,9 @@ class RaBitQSpace {
         config_.indexed_fields_.push_back(std::move(field));
       }
     }
+    if (!reader) {
+      throw std::runtime_error("Scalar config is truncated");
+    }
   }
 
  public:
@@ -616,6 +619,9 @@ class RaBitQSpace {
     reader.read(reinterpret_cast<char *>(&capacity_), sizeof(capacity_));
     reader.read(reinterpret_cast<char *>(&type_), sizeof(type_));
     reader.read(reinterpret_cast<char *>(&ep_), sizeof(ep_));
+    if (!reader) {
+      throw std::runtime_error("File is truncated: " + std::string(filename));
+    }
 
     if constexpr (has_scalar_data) {
       load_scalar_config(reader);
@@ -633,6 +639,9 @@ class RaBitQSpace {
     quantizer_ = std::make_unique<RaBitQQuantizer<DataType>>();
     quantizer_->load(reader);
 
+    if (!reader) {
+      throw std::runtime_error("File is truncated: " + std::string(filename));
+    }
     LOG_INFO("RaBitQSpace is successfully loaded from {}", filename);
   }
 
diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 29f33ca..bf81984 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -372,6 +372,9 @@ class RawSpace {
         config_.indexed_fields_.push_back(std::move(field));
       }
     }
+    if (!reader) {
+      throw std::runtime_error("Scalar config is truncated");
+    }
   }
 
   auto load(std::string_view filename) -> void {
@@ -386,12 +389,18 @@ class RawSpace {
     reader.read(reinterpret_cast<char *>(&item_cnt_), sizeof(item_cnt_));
     reader.read(reinterpret_cast<char *>(&delete_cnt_), sizeof(delete_cnt_));
     reader.read(reinterpret_cast<char *>(&capacity_), sizeof(capacity_));
+    if (!reader) {
+      throw std::runtime_error("File is truncated: " + std::string(filename));
+    }
     if constexpr (has_scalar_data) {
       load_scalar_config(reader);
       scalar_storage_ = std::make_unique<RocksDBStorage<IDType>>(config_);
     }
     data_storage_.load(reader);
     set_metric_function();
+    if (!reader) {
+      throw std::runtime_error("File is truncated: " + std::string(filename));
+    }
     LOG_INFO("RawSpace is loaded from {}", filename);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 0bc280d..0229651 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -358,6 +358,9 @@ class SQ4Space {
     reader.read(reinterpret_cast<char *>(&item_cnt_), sizeof(item_cnt_));
     reader.read(reinterpret_cast<char *>(&delete_cnt_), sizeof(delete_cnt_));
     reader.read(reinterpret_cast<char *>(&capacity_), sizeof(capacity_));
+    if (!reader) {
+      throw std::runtime_error("File is truncated: " + std::string(filename));
+    }
 
     if constexpr (has_scalar_data) {  // NOLINT
       load_scalar_config(reader);
@@ -366,6 +369,9 @@ class SQ4Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    if (!reader) {
+      throw std::runtime_error("File is truncated: " + std::string(filename));
+    }
     update_kernel_ranges();
     set_metric_function();
     LOG_INFO("SQ4Space is loaded from {}", filename);
@@ -548,7 +554,7 @@ class SQ4Space {
     config_.create_if_missing_ = false;  // db is missing means something went wrong
     config_.error_if_exists_ = false;    // Of course db exists
     // Load db_path_ string
-    size_t db_path_size;
+    size_t db_path_size = 0;
     reader.read(reinterpret_cast<char *>(&db_path_size), sizeof(db_path_size));
     config_.db_path_.resize(db_path_size);
     reader.read(config_.db_path_.data(), db_path_size);
@@ -585,6 +591,9 @@ class SQ4Space {
         config_.indexed_fields_.push_back(std::move(field));
       }
     }
+    if (!reader) {
+      throw std::runtime_error("Scalar config is truncated");
+    }
   }
 };
 }  // namespace alaya
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index a1e1f0e..e459372 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -356,6 +356,9 @@ class SQ8Space {
     reader.read(reinterpret_cast<char *>(&item_cnt_), sizeof(item_cnt_));
     reader.read(reinterpret_cast<char *>(&delete_cnt_), sizeof(delete_cnt_));
     reader.read(reinterpret_cast<char *>(&capacity_), sizeof(capacity_));
+    if (!reader) {
+      throw std::runtime_error("File is truncated: " + std::string(filename));
+    }
 
     if constexpr (has_scalar_data) {  // NOLINT
       load_scalar_config(reader);
@@ -365,6 +368,9 @@ class SQ8Space {
     data_storage_.load(reader);
     quantizer_.load(reader);
     set_metric_function();
+    if (!reader) {
+      throw std::runtime_error("File is truncated: " + std::string(filename));
+    }
     LOG_INFO("SQ8Space is loaded from {}", filename);
   }
 
@@ -531,7 +537,7 @@ class SQ8Space {
     config_.create_if_missing_ = false;  // db is missing means something went wrong
     config_.error_if_exists_ = false;    // Of course db exists
     // Load db_path_ string
-    size_t db_path_size;
+    size_t db_path_size = 0;
     reader.read(reinterpret_cast<char *>(&db_path_size), sizeof(db_path_size));
     config_.db_path_.resize(db_path_size);
     reader.read(config_.db_path_.data(), db_path_size);
@@ -568,6 +574,9 @@ class SQ8Space {
         config_.indexed_fields_.push_back(std::move(field));
       }
     }
+    if (!reader) {
+      throw std::runtime_error("Scalar config is truncated");
+    }
   }
 };
 }  // namespace alaya
diff --git a/include/storage/sequential_storage.hpp b/include/storage/sequential_storage.hpp
index dd63300..44f2173 100644
--- a/include/storage/sequential_storage.hpp
+++ b/include/storage/sequential_storage.hpp
@@ -9,6 +9,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <stdexcept>
 #include "utils/math.hpp"
 #include "utils/platform.hpp"
 
@@ -108,15 +109,20 @@ struct SequentialStorage {
   auto load(std::ifstream &reader) -> void {
     if (data_ != nullptr) {
       alaya_aligned_free_impl(data_);
+      data_ = nullptr;
     }
     if (bitmap_ != nullptr) {
       alaya_aligned_free_impl(bitmap_);
+      bitmap_ = nullptr;
     }
     reader.read(reinterpret_cast<char *>(&item_size_), sizeof(item_size_));
     reader.read(reinterpret_cast<char *>(&aligned_item_size_), sizeof(aligned_item_size_));
     reader.read(reinterpret_cast<char *>(&capacity_), sizeof(capacity_));
     reader.read(reinterpret_cast<char *>(&pos_), sizeof(pos_));
     reader.read(reinterpret_cast<char *>(&alignment_), sizeof(alignment_));
+    if (!reader) {
+      throw std::runtime_error("SequentialStorage: file is truncated");
+    }
 
     data_ = static_cast<DataType *>(
         alaya_aligned_alloc_impl(aligned_item_size_ * capacity_, alignment_));
-- 
2.43.0


From 5a75d4d05e93cbc1eb0d3942c119db76ab610fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 28/60] fix: pinned-node cache files with wrong sizes or counts
 were loaded

---
 include/index/graph/diskann/node_cache.hpp | 32 ++++++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/index/graph/diskann/node_cache.hpp b/include/index/graph/diskann/node_cache.hpp
index 081fb04..5879a33 100644
--- a/include/index/graph/diskann/node_cache.hpp
+++ b/include/index/graph/diskann/node_cache.hpp
@@ -199,7 +199,10 @@ class NodeCache {
 
   /// Read cache_ids.bin and cache_nodes.bin and rebuild the lookup index.
   void load(const std::string &ids_path, const std::string &nodes_path) {
+    // Counts are validated against the file sizes before anything is allocated
+    // from them, and members only change once both files have been read.
     uint64_t id_count = 0;
+    std::vector<uint32_t> ids;
     {
       std::ifstream in(ids_path, std::ios::binary);
       if (!in) {
@@ -209,9 +212,13 @@ class NodeCache {
       if (!in) {
         throw std::runtime_error("NodeCache::load: short read (ids count) " + ids_path);
       }
-      ids_.assign(id_count, 0);
+      const uint64_t payload = std::filesystem::file_size(ids_path) - sizeof(id_count);
+      if (payload % sizeof(uint32_t) != 0 || payload / sizeof(uint32_t) != id_count) {
+        throw std::runtime_error("NodeCache::load: file size does not match count " + ids_path);
+      }
+      ids.assign(id_count, 0);
       if (id_count > 0) {
-        in.read(reinterpret_cast<char *>(ids_.data()),
+        in.read(reinterpret_cast<char *>(ids.data()),
                 static_cast<std::streamsize>(id_count * sizeof(uint32_t)));
         if (!in) {
           throw std::runtime_error("NodeCache::load: short read (ids) " + ids_path);
@@ -220,13 +227,15 @@ class NodeCache {
     }
 
     uint64_t node_count = 0;
+    uint64_t node_len = 0;
+    std::vector<char> node_data;
     {
       std::ifstream in(nodes_path, std::ios::binary);
       if (!in) {
         throw std::runtime_error("NodeCache::load: cannot open " + nodes_path);
       }
       in.read(reinterpret_cast<char *>(&node_count), sizeof(node_count));
-      in.read(reinterpret_cast<char *>(&node_len_), sizeof(node_len_));
+      in.read(reinterpret_cast<char *>(&node_len), sizeof(node_len));
       if (!in) {
         throw std::runtime_error("NodeCache::load: short read (nodes header) " + nodes_path);
       }
@@ -235,15 +244,26 @@ class NodeCache {
                                  std::to_string(id_count) + " vs " + std::to_string(node_count) +
                                  ")");
       }
-      node_data_.assign(node_count * node_len_, 0);
-      if (!node_data_.empty()) {
-        in.read(node_data_.data(), static_cast<std::streamsize>(node_data_.size()));
+      const uint64_t payload =
+          std::filesystem::file_size(nodes_path) - sizeof(node_count) - sizeof(node_len);
+      const bool sized = node_count == 0
+                             ? payload == 0
+                             : payload % node_count == 0 && payload / node_count == node_len;
+      if (!sized) {
+        throw std::runtime_error("NodeCache::load: file size does not match header " + nodes_path);
+      }
+      node_data.assign(payload, 0);
+      if (!node_data.empty()) {
+        in.read(node_data.data(), static_cast<std::streamsize>(node_data.size()));
         if (!in) {
           throw std::runtime_error("NodeCache::load: short read (node data) " + nodes_path);
         }
       }
     }
 
+    ids_ = std::move(ids);
+    node_data_ = std::move(node_data);
+    node_len_ = node_len;
     map_.clear();
     map_.reserve(ids_.size() * 2);
     for (size_t i = 0; i < ids_.size(); ++i) {
-- 
2.43.0


From f54dd7a954e58058a3a9ac688ce80554a74b3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 29/60] fix: disk layout headers with sizes that wrap around 64
 bits were accepted

---
 include/index/graph/diskann/disk_layout.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/diskann/disk_layout.hpp b/include/index/graph/diskann/disk_layout.hpp
index bf43d0b..2086234 100644
--- a/include/index/graph/diskann/disk_layout.hpp
+++ b/include/index/graph/diskann/disk_layout.hpp
@@ -35,6 +35,7 @@
 #include <cstring>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -295,9 +296,12 @@ inline void write_disk_layout(const std::string &path,
  * geometry derived from (dim, max_degree), the medoid is in range, and
  * total_file_size matches the actual size of the file on disk.
  *
+ * @param allow_growth In-place updates append pages without rewriting the
+ *        header; when set, the file may be longer than the header says.
  * @throws std::runtime_error on any inconsistency or read failure.
  */
-inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
+inline DiskLayoutHeader read_disk_layout_header(const std::string &path,
+                                                bool allow_growth = false) {
   std::ifstream in(path, std::ios::binary);
   if (!in) {
     throw std::runtime_error("read_disk_layout_header: cannot open " + path);
@@ -321,6 +325,11 @@ inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
   if (h.num_points == 0 || h.dim == 0) {
     throw std::runtime_error("read_disk_layout_header: zero num_points/dim in " + path);
   }
+  // Reject values whose derived sizes would wrap around 64 bits.
+  if (h.dim > h.node_len / sizeof(float) ||
+      h.num_points > std::numeric_limits<uint32_t>::max()) {
+    throw std::runtime_error("read_disk_layout_header: num_points/dim out of range in " + path);
+  }
   const DiskLayoutGeometry geom = DiskLayoutGeometry::compute(h.dim, h.max_degree);
   if (h.node_len != geom.node_len) {
     throw std::runtime_error("read_disk_layout_header: node_len mismatch (header " +
@@ -344,7 +353,8 @@ inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
   if (ec) {
     throw std::runtime_error("read_disk_layout_header: cannot stat " + path);
   }
-  if (static_cast<uint64_t>(actual) != h.total_file_size) {
+  if (allow_growth ? static_cast<uint64_t>(actual) < h.total_file_size
+                   : static_cast<uint64_t>(actual) != h.total_file_size) {
     throw std::runtime_error("read_disk_layout_header: on-disk size " + std::to_string(actual) +
                              " != header total_file_size " + std::to_string(h.total_file_size));
   }
-- 
2.43.0


From bcd7d0663b7c5d7f78326f36ddcc17763bc6905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 30/60] fix: inconsistent or truncated slot files were loaded

---
 include/index/graph/diskann/slot_allocator.hpp   | 14 ++++++++++++++
 include/index/graph/diskann/tombstone_bitmap.hpp |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/include/index/graph/diskann/slot_allocator.hpp b/include/index/graph/diskann/slot_allocator.hpp
index 9b040b1..d2ab208 100644
--- a/include/index/graph/diskann/slot_allocator.hpp
+++ b/include/index/graph/diskann/slot_allocator.hpp
@@ -25,10 +25,12 @@
 #pragma once
 
 #include <cstdint>
+#include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
 #include <limits>
 #include <stdexcept>
 #include <string>
+#include <unordered_set>
 #include <vector>
 
 #include "index/graph/diskann/tombstone_bitmap.hpp"
@@ -124,6 +126,9 @@ class SlotAllocator {
     if (!in || magic != kMagic) {
       throw std::runtime_error("SlotAllocator::load: bad magic/truncated " + path);
     }
+    if (n_free > std::filesystem::file_size(path) / sizeof(uint32_t)) {
+      throw std::runtime_error("SlotAllocator::load: free list truncated " + path);
+    }
     free_list_.assign(n_free, 0);
     if (n_free > 0) {
       in.read(reinterpret_cast<char *>(free_list_.data()),
@@ -137,6 +142,15 @@ class SlotAllocator {
     }
     next_fresh_id_ = static_cast<uint32_t>(next);
     tombstone_.deserialize(in);
+    if (in.peek() != std::ifstream::traits_type::eof()) {
+      throw std::runtime_error("SlotAllocator::load: trailing bytes " + path);
+    }
+    std::unordered_set<uint32_t> seen;
+    for (const uint32_t id : free_list_) {
+      if (id >= next_fresh_id_ || !tombstone_.is_deleted(id) || !seen.insert(id).second) {
+        throw std::runtime_error("SlotAllocator::load: inconsistent free list " + path);
+      }
+    }
   }
 
  private:
diff --git a/include/index/graph/diskann/tombstone_bitmap.hpp b/include/index/graph/diskann/tombstone_bitmap.hpp
index 1b468dd..59efcbc 100644
--- a/include/index/graph/diskann/tombstone_bitmap.hpp
+++ b/include/index/graph/diskann/tombstone_bitmap.hpp
@@ -194,6 +194,13 @@ class TombstoneBitmap {
     if (!in || magic != kMagic) {
       throw std::runtime_error("TombstoneBitmap::deserialize: bad magic/truncated");
     }
+    const auto pos = in.tellg();
+    in.seekg(0, std::ios::end);
+    const auto end = in.tellg();
+    in.seekg(pos);
+    if (!in || n_words > static_cast<uint64_t>(end - pos) / sizeof(uint64_t)) {
+      throw std::runtime_error("TombstoneBitmap::deserialize: words truncated");
+    }
     reset(0);
     ensure_capacity(n_words * 64);
     uint64_t recount = 0;
-- 
2.43.0


From e30833ddc41ffe8df136efff0352a6810ae25523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 31/60] fix: a disk index with a truncated index file or
 contradicting side files was loaded

---
 include/index/graph/diskann/diskann_index.hpp | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 12e834d..ae17b27 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -323,16 +323,25 @@ class DiskANNIndex {
     if (geom_.node_len != meta.node_len || geom_.nodes_per_sector != meta.nodes_per_sector) {
       throw std::runtime_error("DiskANNIndex::load: meta geometry inconsistent");
     }
-
+    if (num_points != max_slot_id_ || medoid_ >= max_slot_id_ || meta.has_pq > 1 ||
+        has_pq_ != (pq_n_chunks_ > 0)) {
+      throw std::runtime_error("DiskANNIndex::load: meta fields inconsistent");
+    }
     read_ids(path(index_dir, "ids.bin"), max_slot_id_);
     const std::string slots_path = path(index_dir, "slots.bin");
     if (std::filesystem::exists(slots_path)) {
       slot_alloc_.load(slots_path);
-      max_slot_id_ = std::max<uint64_t>(max_slot_id_, slot_alloc_.next_fresh_id());
+      if (slot_alloc_.next_fresh_id() != max_slot_id_) {
+        throw std::runtime_error("DiskANNIndex::load: slots.bin does not match meta");
+      }
     } else {
       slot_alloc_.reset(static_cast<uint32_t>(max_slot_id_));
     }
     rebuild_label_lookup_unlocked();
+    if (label_to_slot_.size() != live_count_) {
+      throw std::runtime_error("DiskANNIndex::load: live count does not match the slots");
+    }
+    check_index_file(path(index_dir, "diskann.index"));
     cache_.load(path(index_dir, "cache_ids.bin"), path(index_dir, "cache_nodes.bin"));
     cache_.configure_geometry(dim_, max_degree_);
     if (has_pq_) {
@@ -2300,9 +2309,33 @@ class DiskANNIndex {
     if (m.num_points == 0 || m.dim == 0) {
       throw std::runtime_error("DiskANNIndex::load: zero num_points/dim in meta " + p);
     }
+    if (in.peek() != std::ifstream::traits_type::eof()) {
+      throw std::runtime_error("DiskANNIndex::load: trailing bytes in meta " + p);
+    }
+    // Bounds that keep the derived sizes within 64 bits (slot ids are u32).
+    if (m.dim > m.node_len / sizeof(float) ||
+        m.max_slot_id > std::numeric_limits<uint32_t>::max()) {
+      throw std::runtime_error("DiskANNIndex::load: meta fields out of range " + p);
+    }
     return m;
   }
 
+  /// The index file's header must describe the same layout as meta.bin, and the
+  /// file must hold every live slot (updates grow it without rewriting the header).
+  void check_index_file(const std::string &p) const {
+    const DiskLayoutHeader h = read_disk_layout_header(p, /*allow_growth=*/true);
+    if (h.dim != dim_ || h.max_degree != max_degree_ || h.num_points > max_slot_id_) {
+      throw std::runtime_error("DiskANNIndex::load: index header does not match meta " + p);
+    }
+    uint64_t used = max_slot_id_;
+    while (used > 0 && slot_alloc_.is_deleted(static_cast<uint32_t>(used - 1))) {
+      --used;
+    }
+    if (std::filesystem::file_size(p) < geom_.total_file_size(used)) {
+      throw std::runtime_error("DiskANNIndex::load: index file truncated " + p);
+    }
+  }
+
   static void write_ids(const std::string &p, const uint64_t *labels, uint64_t n) {
     std::ofstream out(p, std::ios::binary | std::ios::trunc);
     if (!out) {
@@ -2333,6 +2366,9 @@ class DiskANNIndex {
     if (!in) {
       throw std::runtime_error("DiskANNIndex::load: ids.bin truncated " + p);
     }
+    if (in.peek() != std::ifstream::traits_type::eof()) {
+      throw std::runtime_error("DiskANNIndex::load: trailing bytes in ids.bin " + p);
+    }
   }
 
   // metadata
-- 
2.43.0


From 818a6ef1b406df36b3d70fad30e191afff615408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 32/60] fix: rows inserted into an emptied disk index could not
 be found

---
 include/index/graph/diskann/diskann_index.hpp | 62 ++++++++++++++-----
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index ae17b27..c67c19c 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -472,7 +472,7 @@ class DiskANNIndex {
       ctx.geom = &geom_;
       ctx.cache = &cache_;
       ctx.pq = use_pq ? &pq_ : nullptr;
-      ctx.medoid = medoid_;
+      ctx.medoid = snapshot.medoid;
       ctx.num_points = snapshot.max_slot_id;
       if (snapshot.has_tombstone) {
         ctx.tombstone = &snapshot.tombstone;
@@ -688,7 +688,7 @@ class DiskANNIndex {
           ctx.geom = &geom_;
           ctx.cache = &cache_;
           ctx.pq = use_pq ? &pq_ : nullptr;
-          ctx.medoid = medoid_;
+          ctx.medoid = snapshot.medoid;
           ctx.num_points = snapshot.max_slot_id;
           if (snapshot.has_tombstone) {
             ctx.tombstone = &snapshot.tombstone;
@@ -786,7 +786,10 @@ class DiskANNIndex {
   [[nodiscard]] uint64_t size() const { return live_count(); }  // live (non-tombstoned) vectors
   [[nodiscard]] uint64_t dim() const { return dim_; }
   [[nodiscard]] bool has_pq() const { return has_pq_; }
-  [[nodiscard]] uint32_t medoid() const { return medoid_; }
+  [[nodiscard]] uint32_t medoid() const {
+    std::shared_lock<std::shared_mutex> lock(update_mutex_);
+    return medoid_;
+  }
   [[nodiscard]] bool updatable() const { return updatable_; }
   [[nodiscard]] uint64_t live_count() const {
     std::shared_lock<std::shared_mutex> lock(update_mutex_);
@@ -839,7 +842,11 @@ class DiskANNIndex {
     }
     page_io_->clear_cache();
 
-    const std::vector<uint32_t> pruned = select_insert_neighbors(query);
+    std::vector<uint32_t> pruned = select_insert_neighbors(query);
+    const bool detached = pruned.empty();
+    if (detached) {
+      pruned = any_live_slots();
+    }
     uint32_t slot = 0;
     {
       std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
@@ -848,7 +855,7 @@ class DiskANNIndex {
     }
     encode_pq_slot(query, slot);
     write_inserted_node(slot, query, pruned);
-    publish_slots(&slot, &slot + 1);
+    publish_slot(slot, detached);
     reconnect_inserted_neighbors(pruned, slot);
     return slot;
   }
@@ -1087,6 +1094,7 @@ class DiskANNIndex {
 
   struct SearchSnapshot {
     uint64_t max_slot_id = 0;
+    uint32_t medoid = 0;
     TombstoneSnapshot tombstone;
     bool has_tombstone = false;
   };
@@ -1099,6 +1107,7 @@ class DiskANNIndex {
     SearchSnapshot snapshot;
     std::shared_lock<std::shared_mutex> lock(update_mutex_);
     snapshot.max_slot_id = max_slot_id_;
+    snapshot.medoid = medoid_;
     // All tombstone mutators run under the exclusive side of update_mutex_
     // (verified in the A3 audit), so count() is stable under our shared lock:
     // zero set bits means the snapshot would be all-live — skip the copy. The
@@ -1210,7 +1219,7 @@ class DiskANNIndex {
       ctx.geom = &geom_;
       ctx.cache = &cache_;
       ctx.pq = has_pq_ ? &pq_ : nullptr;
-      ctx.medoid = medoid_;
+      ctx.medoid = snapshot.medoid;
       ctx.num_points = snapshot.max_slot_id;
       ctx.tombstone = &snapshot.tombstone;
       ctx.page_io = search_page_io();
@@ -1249,7 +1258,7 @@ class DiskANNIndex {
         ctx.geom = &geom_;
         ctx.cache = &cache_;
         ctx.pq = has_pq_ ? &pq_ : nullptr;
-        ctx.medoid = medoid_;
+        ctx.medoid = snapshot.medoid;
         ctx.num_points = snapshot.max_slot_id;
         ctx.tombstone = &snapshot.tombstone;
         ctx.page_io = search_page_io();
@@ -1769,7 +1778,11 @@ class DiskANNIndex {
       co_await pool.schedule();
       auto mark = std::chrono::steady_clock::now();
       const float *vec = vectors + static_cast<uint64_t>(i) * dim_;
-      const std::vector<uint32_t> selected = co_await select_insert_neighbors_async(vec, pool);
+      std::vector<uint32_t> selected = co_await select_insert_neighbors_async(vec, pool);
+      const bool detached = selected.empty();
+      if (detached) {
+        selected = any_live_slots();
+      }
       st_search_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       {
         std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
@@ -1791,7 +1804,7 @@ class DiskANNIndex {
       }
       st_prefetch_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       write_inserted_node(ids[i], vec, selected);
-      publish_slots(&ids[i], &ids[i] + 1);
+      publish_slot(ids[i], detached);
       for (const uint32_t n : selected) {
         staged.add(n, ids[i]);
       }
@@ -1806,8 +1819,11 @@ class DiskANNIndex {
       st_inserts_.fetch_add(1, std::memory_order_relaxed);
     };
 
-    for (uint32_t off = 0; off < count; off += batch_size) {
-      const uint32_t end = std::min<uint32_t>(count, off + batch_size);
+    uint32_t end = 0;
+    for (uint32_t off = 0; off < count; off = end) {
+      // Concurrent inserts do not see each other as neighbors: the first row of
+      // an empty index is inserted alone so that the others can link to it.
+      end = live_count() == 0 ? off + 1 : std::min<uint32_t>(count, off + batch_size);
       auto run = [&]() -> coro::task<> {
         std::vector<coro::task<>> tasks;
         tasks.reserve(end - off);
@@ -1824,12 +1840,28 @@ class DiskANNIndex {
   /// Make written slots search-visible. Slots stay tombstoned ("dark") from
   /// allocation until their node record and PQ code exist, so a concurrent
   /// search can never surface a reused slot's stale bytes under a new label.
-  void publish_slots(const uint32_t *begin, const uint32_t *end) {
+  /// A @p detached slot (no live node was reachable from the entry point when
+  /// it was inserted) becomes the entry point itself.
+  void publish_slot(uint32_t slot, bool detached) {
     std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
-    for (const uint32_t *it = begin; it != end; ++it) {
-      slot_alloc_.publish(*it);
-      label_to_slot_[labels_[*it]] = *it;
+    slot_alloc_.publish(slot);
+    label_to_slot_[labels_[slot]] = slot;
+    if (detached) {
+      medoid_ = slot;
+    }
+  }
+
+  /// Up to max_degree live slots: the neighbors of an insert whose search found
+  /// no live node, so that whatever is still live stays reachable through it.
+  std::vector<uint32_t> any_live_slots() const {
+    std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
+    std::vector<uint32_t> out;
+    for (uint32_t slot = 0; slot < labels_.size() && out.size() < max_degree_; ++slot) {
+      if (!slot_alloc_.is_deleted(slot)) {
+        out.push_back(slot);
+      }
     }
+    return out;
   }
 
   std::vector<alaya::vamana::Neighbor> score_candidates(uint32_t node_id,
-- 
2.43.0


From 386b1efbd349dea15e3a184e4a6f26d23100be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 33/60] fix: search contexts of a previously loaded disk index
 were reused for another one

---
 include/index/graph/diskann/diskann_index.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index c67c19c..d42c4a5 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2260,6 +2260,9 @@ class DiskANNIndex {
     thread_data_storage_.clear();
     while (thread_data_pool_.pop() != nullptr) {
     }
+#if defined(__linux__)
+    pipeline_tds_.clear();  // sized for the index that goes away
+#endif
     reader_.reset();
     page_io_.reset();
     update_reactor_.reset();  // after page_io_: it holds a raw pointer to the reactor
-- 
2.43.0


From 7611f0a5a9451aa863f86b2bb9d424d73afa1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 34/60] fix: a search could report the label of a row that took
 over a slot during the search

---
 include/index/graph/diskann/diskann_index.hpp | 53 ++++++++++++-------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index d42c4a5..6b8f586 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -488,21 +488,13 @@ class DiskANNIndex {
       sp.deterministic = params.deterministic;
 
       results = cached_beam_search(ctx, query, top_k, sp, *td, stats);
-      count = static_cast<uint32_t>(results.size());
     } catch (...) {
       release(td);
       throw;
     }
     release(td);
 
-    {
-      std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
-      for (uint32_t i = 0; i < count; ++i) {
-        const uint32_t id = results[i].first;
-        out_labels[i] = id < labels_.size() ? labels_[id] : kNoLabel;
-        out_distances[i] = results[i].second;
-      }
-    }
+    count = map_results(results, snapshot, top_k, out_labels, out_distances);
 
     // Pad unused slots with sentinels so callers can detect short result rows.
     for (uint32_t i = count; i < top_k; ++i) {
@@ -732,15 +724,7 @@ class DiskANNIndex {
 
           uint64_t *labels_row = out_labels + static_cast<uint64_t>(qi) * top_k;
           float *dist_row = out_distances + static_cast<uint64_t>(qi) * top_k;
-          const uint32_t count = std::min<uint32_t>(static_cast<uint32_t>(results.size()), top_k);
-          {
-            std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
-            for (uint32_t i = 0; i < count; ++i) {
-              const uint32_t id = results[i].first;
-              labels_row[i] = id < labels_.size() ? labels_[id] : kNoLabel;
-              dist_row[i] = results[i].second;
-            }
-          }
+          const uint32_t count = map_results(results, snapshot, top_k, labels_row, dist_row);
           for (uint32_t i = count; i < top_k; ++i) {
             labels_row[i] = kNoLabel;
             dist_row[i] = std::numeric_limits<float>::max();
@@ -1095,6 +1079,7 @@ class DiskANNIndex {
   struct SearchSnapshot {
     uint64_t max_slot_id = 0;
     uint32_t medoid = 0;
+    uint64_t epoch = 0;
     TombstoneSnapshot tombstone;
     bool has_tombstone = false;
   };
@@ -1108,6 +1093,7 @@ class DiskANNIndex {
     std::shared_lock<std::shared_mutex> lock(update_mutex_);
     snapshot.max_slot_id = max_slot_id_;
     snapshot.medoid = medoid_;
+    snapshot.epoch = alloc_epoch_;
     // All tombstone mutators run under the exclusive side of update_mutex_
     // (verified in the A3 audit), so count() is stable under our shared lock:
     // zero set bits means the snapshot would be all-live — skip the copy. The
@@ -1120,6 +1106,30 @@ class DiskANNIndex {
     return snapshot;
   }
 
+  /// Translate up to @p limit result slots to external labels. A slot that was
+  /// reassigned after @p snapshot is dropped: its distance may belong to the
+  /// previous vector and its label to the new one.
+  uint32_t map_results(const std::vector<std::pair<uint32_t, float>> &results,
+                       const SearchSnapshot &snapshot,
+                       uint32_t limit,
+                       uint64_t *out_labels,
+                       float *out_distances) const {
+    uint32_t count = 0;
+    std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
+    for (const auto &[id, distance] : results) {
+      if (count == limit) {
+        break;
+      }
+      if (id >= labels_.size() || (id < slot_epochs_.size() && slot_epochs_[id] > snapshot.epoch)) {
+        continue;
+      }
+      out_labels[count] = labels_[id];
+      out_distances[count] = distance;
+      ++count;
+    }
+    return count;
+  }
+
   // ---- in-place update internals (update APIs are serialized; metadata writes
   //      take update_mutex_ only for the narrow mutation/snapshot windows) ----
 
@@ -2208,6 +2218,10 @@ class DiskANNIndex {
       labels_.resize(static_cast<size_t>(slot) + 1, kNoLabel);
     }
     labels_[slot] = label;
+    if (slot >= slot_epochs_.size()) {
+      slot_epochs_.resize(labels_.size(), 0);
+    }
+    slot_epochs_[slot] = ++alloc_epoch_;
   }
 
   void resize_thread_data_slot_capacity() {
@@ -2268,6 +2282,7 @@ class DiskANNIndex {
     update_reactor_.reset();  // after page_io_: it holds a raw pointer to the reactor
     update_ctx_.clear();
     label_to_slot_.clear();
+    slot_epochs_.clear();
     updatable_ = false;
     loaded_ = false;
   }
@@ -2419,6 +2434,8 @@ class DiskANNIndex {
 
   // in-memory artifacts
   std::vector<uint64_t> labels_;
+  std::vector<uint64_t> slot_epochs_;  ///< alloc_epoch_ at each slot's last assignment
+  uint64_t alloc_epoch_ = 0;           ///< slot assignments so far
   std::unordered_map<uint64_t, uint32_t> label_to_slot_;  ///< Live external label to slot.
   NodeCache cache_;
   PQTable pq_;
-- 
2.43.0


From a0bc905cdc8383c7890648230980dd6b24190e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 35/60] fix: batch inserts on several threads read
 removed-neighbour lists while another one erased them

---
 include/index/graph/diskann/diskann_index.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 6b8f586..09d29fb 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2018,6 +2018,8 @@ class DiskANNIndex {
     for (const uint32_t e : extra_edges) {
       push(e);
     }
+    // Concurrent inserts of a batch forget the slots they reuse.
+    std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
     const auto &removed_node_nbrs = update_ctx_.removed_node_nbrs_;
     for (const uint32_t nbr : nd.nbrs) {
       if (nbr == node_id) {
@@ -2042,6 +2044,7 @@ class DiskANNIndex {
         }
       }
     }
+    state_lock.unlock();
     prune_and_write(node_id, nd.nbrs, cand);
   }
 
@@ -2076,6 +2079,8 @@ class DiskANNIndex {
     for (const uint32_t e : extra_edges) {
       push(e);
     }
+    // Concurrent inserts of a batch forget the slots they reuse.
+    std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
     const auto &removed_node_nbrs = update_ctx_.removed_node_nbrs_;
     for (const uint32_t nbr : nd.nbrs) {
       if (nbr == node_id) {
@@ -2100,6 +2105,7 @@ class DiskANNIndex {
         }
       }
     }
+    state_lock.unlock();  // not across a suspension
     if (cand.size() <= max_degree_) {
       co_return;  // fast path keeps the pool verbatim — no distance reads at all
     }
-- 
2.43.0


From b424cef0026bf46a4084220f80b65f5170e87d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 36/60] fix: growing the code table moved it under pipelined
 searches and asynchronous inserts

---
 include/index/graph/diskann/diskann_index.hpp | 21 +++++++++++++++
 include/index/graph/diskann/pq_table.hpp      | 27 ++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 09d29fb..d5d4e61 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -654,6 +654,7 @@ class DiskANNIndex {
     // tds never issue libaio reads (pure reactor path), so they cost no
     // fs.aio-max-nr quota.
     std::lock_guard<std::mutex> pipeline_guard(pipeline_tds_mutex_);
+    std::shared_lock<std::shared_mutex> growth_guard(pq_growth_mutex_);
 
     std::atomic<uint32_t> next{0};
     std::mutex error_mutex;
@@ -825,6 +826,7 @@ class DiskANNIndex {
       validate_insert_label_unlocked(label);
     }
     page_io_->clear_cache();
+    reserve_pq_slots(1);
 
     std::vector<uint32_t> pruned = select_insert_neighbors(query);
     const bool detached = pruned.empty();
@@ -861,6 +863,7 @@ class DiskANNIndex {
       validate_insert_labels_unlocked(labels, count);
     }
     page_io_->clear_cache();
+    reserve_pq_slots(count);
 
     const uint32_t workers = std::min({batch_size, count, update_insert_threads_});
     coro::thread_pool pool{{.thread_count = workers,
@@ -896,6 +899,7 @@ class DiskANNIndex {
       validate_insert_labels_unlocked(labels, count);
     }
     page_io_->clear_cache();
+    reserve_pq_slots(count);
     return batch_insert_locked_with_pool(vectors, labels, count, batch_size, pool);
   }
 
@@ -1510,6 +1514,22 @@ class DiskANNIndex {
     return select_insert_neighbors_from(query, run_update_search(query, update_search_l_));
   }
 
+  /// Make room for the codes of @p count inserts, so that encode_pq_slot() does
+  /// not move the codes under searches that read them without pq_mutex_
+  /// (search_pipelined, asynchronous update searches, reconnects).
+  void reserve_pq_slots(uint32_t count) {
+    if (!has_pq_) {
+      return;
+    }
+    const uint64_t points = max_slot_id() + count;
+    if (pq_.has_room_for(points)) {
+      return;
+    }
+    std::unique_lock<std::shared_mutex> growth_lock(pq_growth_mutex_);
+    std::unique_lock<std::shared_mutex> pq_lock(pq_mutex_);
+    pq_.reserve(points);
+  }
+
   uint32_t allocate_update_slot_unlocked(uint64_t label) {
     const uint32_t slot = slot_alloc_.alloc();
     update_ctx_.forget_slot(slot);
@@ -2501,6 +2521,7 @@ class DiskANNIndex {
   std::mutex update_serial_mutex_;
   std::mutex slot_mutex_;
   mutable std::shared_mutex pq_mutex_;
+  mutable std::shared_mutex pq_growth_mutex_;  ///< shared: codes stay where they are
   std::array<std::mutex, kUpdateNodeLockStripes> update_node_locks_;
   uint64_t ops_since_last_insert_ = 0;
   uint64_t safety_net_fires_ = 0;
diff --git a/include/index/graph/diskann/pq_table.hpp b/include/index/graph/diskann/pq_table.hpp
index d908ec1..8f2c940 100644
--- a/include/index/graph/diskann/pq_table.hpp
+++ b/include/index/graph/diskann/pq_table.hpp
@@ -229,6 +229,19 @@ class PQTable {
     encode_residual_to_row(residual.data(), codes_.data() + point_id * n_chunks_);
   }
 
+  /// True when codes for @p n points fit without moving the existing ones.
+  [[nodiscard]] bool has_room_for(uint64_t n) const {
+    return static_cast<size_t>(n) * n_chunks_ <= codes_.capacity();
+  }
+
+  /// Make room for the codes of @p n points (growing geometrically), so that
+  /// encode_one() of any of them leaves the existing codes in place.
+  void reserve(uint64_t n) {
+    if (!has_room_for(n)) {
+      codes_.reserve(std::max(static_cast<size_t>(n) * n_chunks_, 2 * codes_.capacity()));
+    }
+  }
+
   /// Encode one vector into a caller-owned code row without mutating the table.
   void encode_to_code(const float *vector, uint8_t *code_out) const {
     if (codebook_.empty()) {
@@ -675,7 +688,19 @@ class PQTable {
   uint64_t dim_ = 0;
   uint32_t n_chunks_ = 0;
   uint32_t chunk_dim_ = 0;
-  uint64_t num_points_ = 0;
+  /// A count that searches read while encode_one() appends; copies like a plain one.
+  struct PointCount {
+    std::atomic<uint64_t> value{0};
+    PointCount() = default;
+    PointCount(const PointCount &other) noexcept : value(other.value.load()) {}
+    PointCount &operator=(const PointCount &other) noexcept { return *this = other.value.load(); }
+    PointCount &operator=(uint64_t count) noexcept {
+      value.store(count);
+      return *this;
+    }
+    operator uint64_t() const noexcept { return value.load(); }  // NOLINT(google-explicit-constructor)
+  };
+  PointCount num_points_;
   std::vector<float> global_centroid_;  // dim
   std::vector<float> codebook_;         // n_chunks * 256 * chunk_dim
   std::vector<uint8_t> codes_;          // num_points * n_chunks
-- 
2.43.0


From b11b1e7f5022629583b47ecc10859e5a796c8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 37/60] fix: an exception in a batch search worker terminated
 the process

---
 include/index/graph/diskann/diskann_index.hpp | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index d5d4e61..830e23d 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -39,6 +39,7 @@
 #include <shared_mutex>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <thread>
 #include <unordered_map>
 #include <unordered_set>
@@ -544,10 +545,10 @@ class DiskANNIndex {
     }
 
     std::atomic<uint32_t> next{0};
-    std::vector<std::thread> pool;
-    pool.reserve(workers);
-    for (uint32_t w = 0; w < workers; ++w) {
-      pool.emplace_back([&]() {
+    std::mutex error_mutex;
+    std::exception_ptr first_error;
+    auto worker = [&]() {
+      try {
         for (;;) {
           const uint32_t qi = next.fetch_add(1);
           if (qi >= n_queries) {
@@ -555,11 +556,31 @@ class DiskANNIndex {
           }
           run_one(qi);
         }
-      });
+      } catch (...) {
+        std::lock_guard<std::mutex> guard(error_mutex);
+        if (!first_error) {
+          first_error = std::current_exception();
+        }
+        next.store(n_queries);  // drain remaining work
+      }
+    };
+    std::vector<std::thread> pool;
+    pool.reserve(workers);
+    try {
+      for (uint32_t w = 0; w < workers; ++w) {
+        pool.emplace_back(worker);
+      }
+    } catch (const std::system_error &) {
+      if (pool.empty()) {
+        worker();
+      }  // otherwise the threads that could be started do all the work
     }
     for (auto &th : pool) {
       th.join();
     }
+    if (first_error) {
+      std::rethrow_exception(first_error);
+    }
   }
 
 #if defined(__linux__)
-- 
2.43.0


From 808c903307ffee28f7931a5efc429614fac7d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 38/60] fix: failures inside batch inserts and parallel reads
 went unreported; a failed insert kept its slot

---
 include/index/graph/diskann/disk_page_io.hpp  | 11 ++-
 include/index/graph/diskann/diskann_index.hpp | 92 +++++++++++++++++--
 include/utils/first_error.hpp                 | 43 +++++++++
 3 files changed, 137 insertions(+), 9 deletions(-)
 create mode 100644 include/utils/first_error.hpp

diff --git a/include/index/graph/diskann/disk_page_io.hpp b/include/index/graph/diskann/disk_page_io.hpp
index 7d3589d..ad87390 100644
--- a/include/index/graph/diskann/disk_page_io.hpp
+++ b/include/index/graph/diskann/disk_page_io.hpp
@@ -61,6 +61,7 @@
 #include "index/graph/diskann/disk_page_cache.hpp"
 #include "index/graph/laser/utils/memory.hpp"
 #include "storage/io/uring_reactor.hpp"
+#include "utils/first_error.hpp"
 
 namespace alaya::diskann {
 
@@ -284,8 +285,13 @@ class DiskPageIO {
       throw std::invalid_argument("DiskPageIO::read_nodes_async: null ids");
     }
     std::vector<NodeData> out(count);
-    auto read_one = [this, &pool, ids, &out](uint32_t i) -> coro::task<> {
-      out[i] = co_await read_node_async(ids[i], pool);
+    FirstError error;
+    auto read_one = [this, &pool, ids, &out, &error](uint32_t i) -> coro::task<> {
+      try {
+        out[i] = co_await read_node_async(ids[i], pool);
+      } catch (...) {
+        error.capture();
+      }
     };
     auto run = [&]() -> coro::task<> {
       std::vector<coro::task<>> tasks;
@@ -296,6 +302,7 @@ class DiskPageIO {
       co_await coro::when_all(std::move(tasks));
     };
     coro::sync_wait(run());
+    error.rethrow();
     return out;
   }
 
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 830e23d..23513da 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -65,6 +65,7 @@
 #include "index/graph/vamana/vamana_builder.hpp"
 #include "simd/distance_l2.hpp"
 #include "storage/io/uring_reactor.hpp"
+#include "utils/first_error.hpp"
 #include "utils/coro_gate.hpp"
 
 namespace alaya::diskann {
@@ -860,10 +861,12 @@ class DiskANNIndex {
       std::lock_guard<std::mutex> slot_lock(slot_mutex_);
       slot = allocate_update_slot_unlocked(label);
     }
+    AbandonGuard guard{this, slot};
     encode_pq_slot(query, slot);
     write_inserted_node(slot, query, pruned);
     publish_slot(slot, detached);
     reconnect_inserted_neighbors(pruned, slot);
+    guard.dismiss();
     return slot;
   }
 
@@ -1561,6 +1564,13 @@ class DiskANNIndex {
     return slot;
   }
 
+  /// Take back the slot of an insert that failed before or after publication.
+  void abandon_slot(uint32_t slot) {
+    std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
+    std::lock_guard<std::mutex> slot_lock(slot_mutex_);
+    remove_unlocked_with_neighbors(slot, {});
+  }
+
   static void validate_unique_external_labels(const uint64_t *labels,
                                               uint64_t count,
                                               const char *method) {
@@ -1744,6 +1754,24 @@ class DiskANNIndex {
     return page_io_->read_neighbors_batch_parallel(internal_ids, count, update_insert_threads_);
   }
 
+  /// Abandons the slot of an insert coroutine that does not finish.
+  class AbandonGuard {
+   public:
+    AbandonGuard(DiskANNIndex *index, uint32_t slot) : index_(index), slot_(slot) {}
+    ~AbandonGuard() {
+      if (index_ != nullptr) {
+        index_->abandon_slot(slot_);
+      }
+    }
+    AbandonGuard(const AbandonGuard &) = delete;
+    AbandonGuard &operator=(const AbandonGuard &) = delete;
+    void dismiss() { index_ = nullptr; }
+
+   private:
+    DiskANNIndex *index_;
+    uint32_t slot_;
+  };
+
   void remove_unlocked_with_neighbors(uint32_t internal_id, std::vector<uint32_t> old_neighbors) {
     update_ctx_.removed_node_nbrs_[internal_id] = std::move(old_neighbors);
     const uint64_t label = labels_[internal_id];
@@ -1789,6 +1817,20 @@ class DiskANNIndex {
       maps[s].erase(it);
       return out;
     }
+
+    [[nodiscard]] std::vector<uint32_t> peek(uint32_t node_id) {
+      const size_t s = node_id % kStripes;
+      std::lock_guard<std::mutex> lock(mutexes[s]);
+      const auto it = maps[s].find(node_id);
+      return it == maps[s].end() ? std::vector<uint32_t>{} : it->second;
+    }
+
+    void restore(uint32_t node_id, const std::vector<uint32_t> &edges) {
+      const size_t s = node_id % kStripes;
+      std::lock_guard<std::mutex> lock(mutexes[s]);
+      auto &staged_edges = maps[s][node_id];
+      staged_edges.insert(staged_edges.end(), edges.begin(), edges.end());
+    }
   };
 
   /// Yi-style batch: end-to-end insert coroutines (search -> alloc -> write ->
@@ -1803,28 +1845,43 @@ class DiskANNIndex {
                                                       coro::thread_pool &pool) {
     std::vector<uint32_t> ids(count, 0);
     StagedEdges staged;
+    FirstError error;
 
-    auto reconnect_one = [this, &pool, &staged](uint32_t node_id) -> coro::task<> {
+    auto reconnect = [this, &pool, &staged](uint32_t node_id) -> coro::task<> {
       co_await pool.schedule();
       auto mark = std::chrono::steady_clock::now();
-      const std::vector<uint32_t> extra = staged.drain(node_id);
       // The insert already warmed every selected node's page in ONE wave (see
       // insert_one); per-reconnect work here is No-PQ only — deriving the
       // candidate set (from the now-cached page) and waving candidate COORDS
       // in before the prune. PQ scores in memory: nothing left to warm, and
       // skipping the call avoids 1 page copy + a dead derivation per edge.
       if (!has_pq_) {
-        co_await prefetch_reconnect_inputs(node_id, extra, pool);
+        co_await prefetch_reconnect_inputs(node_id, staged.peek(node_id), pool);
       }
       st_rc_prefetch_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       std::lock_guard<std::mutex> node_lock(update_node_mutex(node_id));
       st_rc_lock_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
-      update_node_impl(node_id, extra);
+      // Drained under the node lock: when this fails, every other insert that
+      // staged an edge here has its own reconnect still to come.
+      const std::vector<uint32_t> extra = staged.drain(node_id);
+      try {
+        update_node_impl(node_id, extra);
+      } catch (...) {
+        staged.restore(node_id, extra);
+        throw;
+      }
       st_rc_impl_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       st_reconnects_.fetch_add(1, std::memory_order_relaxed);
     };
+    auto reconnect_one = [&reconnect](uint32_t node_id, FirstError *failed) -> coro::task<> {
+      try {
+        co_await reconnect(node_id);
+      } catch (...) {
+        failed->capture();
+      }
+    };
 
-    auto insert_one =
+    auto insert_steps =
         [this, &pool, &staged, &reconnect_one, vectors, labels, &ids](uint32_t i) -> coro::task<> {
       co_await pool.schedule();
       auto mark = std::chrono::steady_clock::now();
@@ -1840,6 +1897,7 @@ class DiskANNIndex {
         std::lock_guard<std::mutex> slot_lock(slot_mutex_);
         ids[i] = allocate_update_slot_unlocked(labels[i]);
       }
+      AbandonGuard guard{this, ids[i]};
       encode_pq_slot(vec, ids[i]);
       st_alloc_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       if (page_io_->reactor_enabled()) {
@@ -1862,13 +1920,23 @@ class DiskANNIndex {
       st_write_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       std::vector<coro::task<>> reconnects;
       reconnects.reserve(selected.size());
+      FirstError failed;
       for (const uint32_t n : selected) {
-        reconnects.emplace_back(reconnect_one(n));
+        reconnects.emplace_back(reconnect_one(n, &failed));
       }
       co_await coro::when_all(std::move(reconnects));
+      failed.rethrow();
+      guard.dismiss();
       st_reconnect_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       st_inserts_.fetch_add(1, std::memory_order_relaxed);
     };
+    auto insert_one = [&insert_steps, &error](uint32_t i) -> coro::task<> {
+      try {
+        co_await insert_steps(i);
+      } catch (...) {
+        error.capture();
+      }
+    };
 
     uint32_t end = 0;
     for (uint32_t off = 0; off < count; off = end) {
@@ -1884,6 +1952,7 @@ class DiskANNIndex {
         co_await coro::when_all(std::move(tasks));
       };
       coro::sync_wait(run());
+      error.rethrow();
     }
     return ids;
   }
@@ -2178,7 +2247,8 @@ class DiskANNIndex {
     coro::thread_pool pool{{.thread_count = workers,
                             .on_thread_start_functor = nullptr,
                             .on_thread_stop_functor = nullptr}};
-    auto reconnect_one = [this, &pool, slot](uint32_t node_id) -> coro::task<> {
+    FirstError error;
+    auto reconnect = [this, &pool, slot](uint32_t node_id) -> coro::task<> {
       co_await pool.schedule();
       const std::vector<uint32_t> extra_edges{slot};
       // Node pages were warmed by the batch wave in run() below; No-PQ still
@@ -2189,6 +2259,13 @@ class DiskANNIndex {
       std::lock_guard<std::mutex> node_lock(update_node_mutex(node_id));
       update_node_impl(node_id, extra_edges);
     };
+    auto reconnect_one = [&reconnect, &error](uint32_t node_id) -> coro::task<> {
+      try {
+        co_await reconnect(node_id);
+      } catch (...) {
+        error.capture();
+      }
+    };
     auto run = [&]() -> coro::task<> {
       if (page_io_->reactor_enabled() && !neighbors.empty()) {
         co_await page_io_->prefetch_pages(neighbors.data(), neighbors.size(), pool);
@@ -2207,6 +2284,7 @@ class DiskANNIndex {
       throw;
     }
     pool.shutdown();
+    error.rethrow();
   }
 
   void reconnect_inserted_neighbors(const std::vector<uint32_t> &neighbors, uint32_t slot) {
diff --git a/include/utils/first_error.hpp b/include/utils/first_error.hpp
new file mode 100644
index 0000000..4834e18
--- /dev/null
+++ b/include/utils/first_error.hpp
@@ -0,0 +1,43 @@
+// SPDX-FileCopyrightText: 2025 AlayaDB.AI
+//
+// SPDX-License-Identifier: AGPL-3.0-only
+
+/**
+ * @file first_error.hpp
+ * @brief First exception of a group of concurrent tasks.
+ *
+ * coro::when_all() keeps a failed task's exception in that task's result; a
+ * caller that ignores the results would never see it.
+ */
+
+#pragma once
+
+#include <exception>
+#include <mutex>
+
+namespace alaya {
+
+class FirstError {
+ public:
+  /// Remember the exception being handled (call from a catch block).
+  void capture() noexcept {
+    std::lock_guard<std::mutex> guard(mutex_);
+    if (!error_) {
+      error_ = std::current_exception();
+    }
+  }
+
+  /// Rethrow the first captured exception, if any.
+  void rethrow() {
+    std::lock_guard<std::mutex> guard(mutex_);
+    if (error_) {
+      std::rethrow_exception(error_);
+    }
+  }
+
+ private:
+  std::mutex mutex_;
+  std::exception_ptr error_;
+};
+
+}  // namespace alaya
-- 
2.43.0


From 89e449aca8d08ddb184845181855ef7527b796be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 39/60] fix: failed asynchronous reads went unnoticed or
 outlived their search

---
 include/index/graph/diskann/diskann_index.hpp | 14 ++-
 include/index/graph/laser/qg/qg.hpp           | 35 ++++++-
 include/index/graph/laser/qg/qg_builder.hpp   | 15 ++-
 .../graph/laser/utils/aligned_file_reader.hpp | 92 +++++++++++++------
 .../laser/utils/threadpool_file_reader.hpp    | 55 +++++++++--
 5 files changed, 170 insertions(+), 41 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 23513da..ede632d 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -491,7 +491,7 @@ class DiskANNIndex {
 
       results = cached_beam_search(ctx, query, top_k, sp, *td, stats);
     } catch (...) {
-      release(td);
+      release_after_error(td);
       throw;
     }
     release(td);
@@ -1269,7 +1269,7 @@ class DiskANNIndex {
       sp.deterministic = false;
       results = cached_beam_search(ctx, query, l, sp, *td, nullptr);
     } catch (...) {
-      release(td);
+      release_after_error(td);
       throw;
     }
     release(td);
@@ -2382,6 +2382,16 @@ class DiskANNIndex {
     thread_data_pool_.push_notify_all();
   }
 
+  /// release() for a search that threw: reads it left in flight must neither
+  /// write into the scratch pages nor be counted by the next search using it.
+  void release_after_error(ThreadData *td) const {
+    try {
+      reader_->abandon_reads(td->ctx_);
+    } catch (...) {  // the search's own error is the one to report
+    }
+    release(td);
+  }
+
   void teardown() {
     if (reader_) {
       reader_->close();
diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 7aec188..40c1a2d 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -45,6 +45,7 @@
 #include "index/graph/laser/utils/pca_transform.hpp"
 #include "index/graph/laser/utils/rotator.hpp"
 #include "third_party/ngt/hashset.hpp"
+#include "utils/first_error.hpp"
 #include "utils/platform.hpp"
 
 namespace alaya::laser {
@@ -357,11 +358,17 @@ inline void QuantizedGraph::batch_search(const float *ALAYA_RESTRICT query,
                                          size_t num_queries) {
   const int64_t num_queries_signed = static_cast<int64_t>(num_queries);
   const int nthreads_signed = static_cast<int>(nthreads_);
+  ::alaya::FirstError error;  // an exception must not leave the parallel region
 #pragma omp parallel for schedule(dynamic) num_threads(nthreads_signed)
   for (int64_t ii = 0; ii < num_queries_signed; ++ii) {
     const size_t i = static_cast<size_t>(ii);
-    disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    try {
+      disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    } catch (...) {
+      error.capture();
+    }
   }
+  error.rethrow();
 }
 
 /**
@@ -409,6 +416,23 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
     this->thread_data_.wait_for_push_notify();
     data = thread_data_.pop();
   }
+  // Returns the workspace when the search ends, also by an exception; reads that
+  // are still in flight then must not reach the next search using it.
+  struct WorkspaceReturn {
+    QuantizedGraph &graph;
+    ThreadData &data;
+    bool finished = false;
+    ~WorkspaceReturn() {
+      if (!finished) {
+        try {
+          graph.aligned_file_reader_->abandon_reads(data.ctx_);
+        } catch (...) {  // the search's own error is the one to report
+        }
+      }
+      graph.thread_data_.push(data);
+      graph.thread_data_.push_notify_all();
+    }
+  } workspace_return{*this, data};
   data.visited_.clear();
   data.search_pool_.clear();
 
@@ -542,6 +566,10 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
             "disk_search_qg: I/O completion id not in ongoing_nodes "
             "(AlignedFileReader::poll_events returned an unexpected id)");
       }
+      if (evts[i].result != static_cast<int64_t>(page_size_)) {
+        throw std::runtime_error("disk_search_qg: short/failed read, result=" +
+                                 std::to_string(evts[i].result));
+      }
       // Move from ongoing to prepared queue
       prepared_nodes.emplace_back(id, ongoing_nodes[id]);
       ongoing_nodes.erase(id);
@@ -676,9 +704,8 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // Copy the k nearest neighbor IDs from result pool to output array
   res_pool.copy_results(results);
 
-  // Return thread-local data to the concurrent queue for reuse by other threads
-  thread_data_.push(data);
-  thread_data_.push_notify_all();
+  // workspace_return hands the thread-local data back for reuse by other threads
+  workspace_return.finished = true;
 }
 
 // scan a data row (including data vec and quantization codes for its neighbors)
diff --git a/include/index/graph/laser/qg/qg_builder.hpp b/include/index/graph/laser/qg/qg_builder.hpp
index 332cd34..c7bf455 100644
--- a/include/index/graph/laser/qg/qg_builder.hpp
+++ b/include/index/graph/laser/qg/qg_builder.hpp
@@ -27,6 +27,7 @@
 #include "index/graph/laser/utils/aligned_file_reader_factory.hpp"
 #include "index/graph/laser/utils/tools.hpp"
 #include "third_party/ngt/hashset.hpp"
+#include "utils/first_error.hpp"
 
 namespace alaya::laser {
 constexpr size_t kMaxBsIter = 5;
@@ -268,6 +269,7 @@ class QGBuilder {
     // Each iteration processes ONE node: reads its neighbors, computes quantization, writes to
     // disk.
     const int64_t qg_num_points_signed = static_cast<int64_t>(qg_.num_points_);
+    ::alaya::FirstError error;
 #pragma omp parallel for schedule(dynamic)
     for (int64_t ii = 0; ii < qg_num_points_signed; ++ii) {
       const size_t i = static_cast<size_t>(ii);
@@ -299,11 +301,17 @@ class QGBuilder {
       // Core processing: read vectors from disk, compute RaBitQ codes, prepare node data
       // This function reads the node's vector and all neighbor vectors via async I/O,
       // then computes quantization codes without holding vectors in memory permanently
-      qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+      bool node_ready = false;
+      try {
+        qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+        node_ready = true;
+      } catch (...) {  // must not leave the parallel region; rethrown below
+        error.capture();
+      }
 
       // Pack completed node bytes into the read-path page layout.
 #pragma omp critical
-      {
+      if (node_ready) {
         const size_t page_index = i / qg_.node_per_page_;
         const size_t slot = i % qg_.node_per_page_;
         auto assembler =
@@ -340,9 +348,10 @@ class QGBuilder {
       memory::align_free(data.cur_page_scratch_);
       memory::align_free(data.neighbor_vector_scratch_);
     }
-    vector_reader->deregister_all_threads();
     vector_reader->close();
+    vector_reader->deregister_all_threads();
     output.close();
+    error.rethrow();
 
     // ==================== Save Rotation Matrix ====================
     // The Fast Hadamard Transform rotation matrix is small and saved separately
diff --git a/include/index/graph/laser/utils/aligned_file_reader.hpp b/include/index/graph/laser/utils/aligned_file_reader.hpp
index 75bf21c..7156bfe 100644
--- a/include/index/graph/laser/utils/aligned_file_reader.hpp
+++ b/include/index/graph/laser/utils/aligned_file_reader.hpp
@@ -141,6 +141,11 @@ class AlignedFileReader {
   // collected for ctx and appends backend-independent events to out.
   virtual int get_events(IOContext &ctx, int n_ops, std::vector<AlignedReadEvent> &out) = 0;
 
+  // Forget every read of ctx that is still outstanding. To be called when an
+  // error ends a search early: returns once no buffer is written to any more,
+  // and later waits on ctx do not see completions of the abandoned reads.
+  virtual void abandon_reads(IOContext &ctx) { (void)ctx; }
+
   void get_events(IOContext &ctx, int n_ops) {
     std::vector<AlignedReadEvent> ignored;
     (void)get_events(ctx, n_ops, ignored);
@@ -191,6 +196,7 @@ class LinuxAlignedFileReader : public AlignedFileReader {
   int submit_reqs(std::vector<AlignedRead> &read_reqs, IOContext &ctx) override;
   int get_events(IOContext &ctx, int n_ops, std::vector<AlignedReadEvent> &out) override;
   int poll_events(IOContext &ctx, int max_events, std::vector<AlignedReadEvent> &out) override;
+  void abandon_reads(IOContext &ctx) override;
 
   int get_fd() const override { return file_desc_; }
 };
@@ -220,10 +226,25 @@ inline void io_getevents_exact(io_context_t ctx, io_event_t *evts, int64_t want,
   }
 }
 
-inline void execute_io(io_context_t ctx,
-                       int fd,
-                       std::vector<AlignedRead> &read_reqs,
-                       uint64_t n_retries = 0) {
+/// io_submit that continues after a PARTIAL submission until all @p n requests
+/// are accepted. On failure some of them may be in flight (abandon_reads()).
+inline void io_submit_all(io_context_t ctx, int64_t n, iocb_t **cbs, const char *who) {
+  int64_t done = 0;
+  while (done < n) {
+    const int64_t ret = io_submit(ctx, n - done, cbs + done);
+    if (ret == -EINTR) {
+      continue;
+    }
+    if (ret <= 0) {
+      throw std::runtime_error(std::string(who) + ": io_submit() failed; returned " +
+                               std::to_string(ret) + ", expected=" + std::to_string(n - done) +
+                               " (" + ::strerror(static_cast<int>(-ret)) + ")");
+    }
+    done += ret;
+  }
+}
+
+inline void execute_io(io_context_t ctx, int fd, std::vector<AlignedRead> &read_reqs) {
   #ifdef DEBUG
   for (auto &req : read_reqs) {
     assert(IS_ALIGNED(req.len, 512));
@@ -253,20 +274,15 @@ inline void execute_io(io_context_t ctx,
       cbs[i] = cb.data() + i;
     }
 
-    uint64_t n_tries = 0;
-    while (n_tries <= n_retries) {
-      // issue reads
-      int64_t ret = io_submit(ctx, static_cast<int64_t>(n_ops), cbs.data());
-      // if requests didn't get accepted
-      if (ret != static_cast<int64_t>(n_ops)) {
-        throw std::runtime_error("LinuxAlignedFileReader: io_submit() failed; returned " +
-                                 std::to_string(ret) + ", expected=" + std::to_string(n_ops) +
-                                 ", errno=" + std::to_string(errno) + "=" +
-                                 ::strerror(static_cast<int>(-ret)));
-      } else {
-        // wait for the whole batch (drains partial deliveries after interrupts)
-        io_getevents_exact(ctx, evts.data(), static_cast<int64_t>(n_ops), "LinuxAlignedFileReader");
-        break;
+    // issue reads and wait for the whole batch (drains partial deliveries after interrupts)
+    io_submit_all(ctx, static_cast<int64_t>(n_ops), cbs.data(), "LinuxAlignedFileReader");
+    io_getevents_exact(ctx, evts.data(), static_cast<int64_t>(n_ops), "LinuxAlignedFileReader");
+    for (const auto &evt : evts) {
+      const auto &req = read_reqs[static_cast<uint64_t>(evt.obj - cb.data()) + iter * MAX_EVENTS];
+      if (static_cast<int64_t>(evt.res) != static_cast<int64_t>(req.len)) {
+        throw std::runtime_error("LinuxAlignedFileReader: short/failed read at offset " +
+                                 std::to_string(req.offset) + ", result=" +
+                                 std::to_string(static_cast<int64_t>(evt.res)));
       }
     }
   }
@@ -358,7 +374,10 @@ inline void LinuxAlignedFileReader::open(const std::string &fname) {
   // O_RDONLY: Open file for reading only (index files are read-only during search).
   int flags = O_DIRECT | O_RDONLY;
   this->file_desc_ = ::open(fname.c_str(), flags);
-  assert(this->file_desc_ != -1);
+  if (this->file_desc_ == -1) {
+    throw std::runtime_error("LinuxAlignedFileReader::open: open() failed for " + fname +
+                             ", errno=" + std::to_string(errno) + "=" + ::strerror(errno));
+  }
 }
 
 inline void LinuxAlignedFileReader::close() {
@@ -377,7 +396,30 @@ inline void LinuxAlignedFileReader::read(std::vector<AlignedRead> &read_reqs,
     std::cout << "Async currently not supported in linux." << std::endl;
   }
   assert(this->file_desc_ != -1);
-  execute_io(ctx, this->file_desc_, read_reqs);
+  try {
+    execute_io(ctx, this->file_desc_, read_reqs);
+  } catch (...) {
+    abandon_reads(ctx);
+    throw;
+  }
+}
+
+inline void LinuxAlignedFileReader::abandon_reads(IOContext &ctx) {
+  const io_context_t old = ctx;
+  io_context_t fresh = nullptr;
+  io_destroy(old);  // waits for the reads that are still in flight
+  const int ret = io_setup(MAX_EVENTS, &fresh);
+  if (ret != 0) {
+    std::cerr << "io_setup() failed; returned " << ret << std::endl;
+    fresh = nullptr;  // later reads on this context fail
+  }
+  std::lock_guard<std::mutex> lk(ctx_mut_);
+  for (auto &entry : ctx_map_) {
+    if (entry.second == old) {
+      entry.second = fresh;
+    }
+  }
+  ctx = fresh;
 }
 
 /**
@@ -418,12 +460,10 @@ inline int LinuxAlignedFileReader::submit_reqs(std::vector<AlignedRead> &read_re
     }
   }
 
-  int ret = io_submit(ctx, static_cast<int64_t>(n_ops), cbs.data());
-  if (ret != static_cast<int>(n_ops)) {
-    throw std::runtime_error("LinuxAlignedFileReader::submit_reqs: io_submit() failed; returned " +
-                             std::to_string(ret) + ", expected=" + std::to_string(n_ops) +
-                             ", errno=" + std::to_string(errno) + "=" + ::strerror(-ret));
-  }
+  io_submit_all(ctx,
+                static_cast<int64_t>(n_ops),
+                cbs.data(),
+                "LinuxAlignedFileReader::submit_reqs");
   return static_cast<int>(n_ops);
 }
 
diff --git a/include/index/graph/laser/utils/threadpool_file_reader.hpp b/include/index/graph/laser/utils/threadpool_file_reader.hpp
index d49e446..cc29ac1 100644
--- a/include/index/graph/laser/utils/threadpool_file_reader.hpp
+++ b/include/index/graph/laser/utils/threadpool_file_reader.hpp
@@ -39,6 +39,7 @@ struct ThreadPoolContext {
   std::mutex completion_mutex;
   std::condition_variable completion_cv;
   std::atomic<bool> active{true};
+  std::atomic<size_t> outstanding{0};  ///< submitted and not completed
 };
 
 class ThreadPoolFileReader : public AlignedFileReader {
@@ -59,6 +60,7 @@ class ThreadPoolFileReader : public AlignedFileReader {
   static size_t worker_count_from_env();
   void worker_loop();
   void notify_completion(ThreadPoolContext *ctx, const AlignedReadEvent &event);
+  static void wait_for_workers(ThreadPoolContext &ctx);
 
  public:
   ThreadPoolFileReader() = default;
@@ -76,6 +78,7 @@ class ThreadPoolFileReader : public AlignedFileReader {
   int submit_reqs(std::vector<AlignedRead> &read_reqs, IOContext &ctx) override;
   int get_events(IOContext &ctx, int n_ops, std::vector<AlignedReadEvent> &out) override;
   int poll_events(IOContext &ctx, int max_events, std::vector<AlignedReadEvent> &out) override;
+  void abandon_reads(IOContext &ctx) override;
 };
 
 inline size_t ThreadPoolFileReader::worker_count_from_env() {
@@ -133,6 +136,7 @@ inline void ThreadPoolFileReader::deregister_thread() {
   if (ctx_it->second != nullptr) {
     ctx_it->second->active.store(false, std::memory_order_release);
     ctx_it->second->completion_cv.notify_all();
+    wait_for_workers(*ctx_it->second);  // they still use the context and its buffers
   }
   ctx_map_.erase(ctx_it);
   owned_contexts_.erase(my_id);
@@ -144,6 +148,7 @@ inline void ThreadPoolFileReader::deregister_all_threads() {
     if (entry.second != nullptr) {
       entry.second->active.store(false, std::memory_order_release);
       entry.second->completion_cv.notify_all();
+      wait_for_workers(*entry.second);
     }
   }
   ctx_map_.clear();
@@ -181,6 +186,7 @@ inline void ThreadPoolFileReader::close() {
 
   SubmittedRead ignored;
   while (submitted_reads_.try_dequeue(ignored)) {
+    ignored.ctx->outstanding.fetch_sub(1, std::memory_order_release);
   }
 
   if (file_desc_ != -1) {
@@ -197,17 +203,49 @@ inline void ThreadPoolFileReader::close() {
 inline void ThreadPoolFileReader::read(std::vector<AlignedRead> &read_reqs,
                                        IOContext &ctx,
                                        bool async) {
-  const int submitted = submit_reqs(read_reqs, ctx);
   if (async) {
+    (void)submit_reqs(read_reqs, ctx);
     return;
   }
 
-  std::vector<AlignedReadEvent> ignored;
-  const int completed = get_events(ctx, submitted, ignored);
+  // The ids belong to the caller and need not be distinct, so number the reads
+  // here to know which request each result belongs to.
+  std::vector<AlignedRead> numbered(read_reqs);
+  for (size_t i = 0; i < numbered.size(); ++i) {
+    numbered[i].id = i;
+  }
+  const int submitted = submit_reqs(numbered, ctx);
+  std::vector<AlignedReadEvent> events;
+  const int completed = get_events(ctx, submitted, events);
   if (completed != submitted) {
     throw std::runtime_error("ThreadPoolFileReader::read: completed " + std::to_string(completed) +
                              " reads, expected " + std::to_string(submitted));
   }
+  for (const auto &event : events) {
+    const auto &req = numbered.at(static_cast<size_t>(event.id));
+    if (event.result != static_cast<int64_t>(req.len)) {
+      throw std::runtime_error("ThreadPoolFileReader::read: short/failed read at offset " +
+                               std::to_string(req.offset) +
+                               ", result=" + std::to_string(event.result));
+    }
+  }
+}
+
+inline void ThreadPoolFileReader::wait_for_workers(ThreadPoolContext &ctx) {
+  std::unique_lock<std::mutex> lk(ctx.completion_mutex);
+  while (ctx.outstanding.load(std::memory_order_acquire) != 0) {
+    ctx.completion_cv.wait_for(lk, std::chrono::microseconds{50});
+  }
+}
+
+inline void ThreadPoolFileReader::abandon_reads(IOContext &ctx) {
+  if (ctx == nullptr) {
+    return;
+  }
+  wait_for_workers(*ctx);
+  AlignedReadEvent ignored;
+  while (ctx->completions.try_dequeue(ignored)) {
+  }
 }
 
 inline int ThreadPoolFileReader::submit_reqs(std::vector<AlignedRead> &read_reqs, IOContext &ctx) {
@@ -224,6 +262,7 @@ inline int ThreadPoolFileReader::submit_reqs(std::vector<AlignedRead> &read_reqs
   }
 
   for (const auto &read : read_reqs) {
+    ctx->outstanding.fetch_add(1, std::memory_order_relaxed);
     submitted_reads_.enqueue(SubmittedRead{read, ctx});
   }
   submit_cv_.notify_all();
@@ -305,9 +344,13 @@ inline void ThreadPoolFileReader::worker_loop() {
 
 inline void ThreadPoolFileReader::notify_completion(ThreadPoolContext *ctx,
                                                     const AlignedReadEvent &event) {
-  if (ctx == nullptr || !ctx->active.load(std::memory_order_acquire)) {
+  if (ctx == nullptr) {
     return;
   }
-  ctx->completions.enqueue(event);
-  ctx->completion_cv.notify_one();
+  if (ctx->active.load(std::memory_order_acquire)) {
+    ctx->completions.enqueue(event);
+    ctx->completion_cv.notify_one();
+  }
+  // Last: the context may be gone as soon as nothing is outstanding.
+  ctx->outstanding.fetch_sub(1, std::memory_order_release);
 }
-- 
2.43.0


From 2f91e504ad61f650360d7a49d10685e6911f5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 40/60] fix: the io_uring engine submitted requests it had
 reported as refused and gave up on signals

---
 include/storage/io/io_uring_engine.hpp | 66 +++++++++++++++++++-------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/include/storage/io/io_uring_engine.hpp b/include/storage/io/io_uring_engine.hpp
index 8b3f968..e40bc1a 100644
--- a/include/storage/io/io_uring_engine.hpp
+++ b/include/storage/io/io_uring_engine.hpp
@@ -83,6 +83,9 @@ class IOUringEngine final : public IOEngine {
       while (completed < min_complete) {
         struct io_uring_cqe *cqe = nullptr;
         int ret = io_uring_wait_cqe(ring, &cqe);
+        if (ret == -EINTR) {
+          continue;
+        }
         if (ret < 0) {
           LOG_ERROR("io_uring_wait_cqe failed: {}", strerror(-ret));
           break;
@@ -103,6 +106,9 @@ class IOUringEngine final : public IOEngine {
         if (ret == -ETIME) {
           break;  // Timeout
         }
+        if (ret == -EINTR) {
+          continue;
+        }
         if (ret < 0) {
           LOG_ERROR("io_uring_wait_cqe_timeout failed: {}", strerror(-ret));
           break;
@@ -145,8 +151,9 @@ class IOUringEngine final : public IOEngine {
     auto *ctx = new AsyncCallbackData{callback, callback_arg};
     io_uring_sqe_set_data(sqe, ctx);
 
-    int ret = io_uring_submit(ring);
-    if (ret < 0) {
+    int ret = submit_once(ring);
+    if (ret <= 0) {
+      withdraw_unsubmitted(ring);
       delete ctx;
       LOG_ERROR("io_uring async submit failed: {}", strerror(-ret));
       return false;
@@ -166,16 +173,10 @@ class IOUringEngine final : public IOEngine {
     struct io_uring_cqe *cqe = nullptr;
 
     while (io_uring_peek_cqe(ring, &cqe) == 0) {
-      auto *ctx = static_cast<AsyncCallbackData *>(io_uring_cqe_get_data(cqe));
-      if (ctx != nullptr) {
-        ctx->callback_(ctx->arg_, cqe->res);
-        delete ctx;
-      }
-      io_uring_cqe_seen(ring, cqe);
       ++completed;
+      tl_ring_.dispatch_async(cqe);
     }
 
-    tl_ring_.async_in_flight_ -= completed;
     return completed;
   }
 
@@ -244,17 +245,27 @@ class IOUringEngine final : public IOEngine {
       while (async_in_flight_ > 0) {
         struct io_uring_cqe *cqe = nullptr;
         int ret = io_uring_wait_cqe(&ring_, &cqe);
+        if (ret == -EINTR) {
+          continue;
+        }
         if (ret < 0) {
           LOG_ERROR("drain_async: io_uring_wait_cqe failed: {}", strerror(-ret));
           break;
         }
-        auto *ctx = static_cast<AsyncCallbackData *>(io_uring_cqe_get_data(cqe));
-        if (ctx != nullptr) {
-          ctx->callback_(ctx->arg_, cqe->res);
-          delete ctx;
-        }
-        io_uring_cqe_seen(&ring_, cqe);
-        --async_in_flight_;
+        dispatch_async(cqe);
+      }
+    }
+
+    /// Consume one completion and invoke its callback. The callback comes last:
+    /// it may submit further reads or poll again.
+    void dispatch_async(struct io_uring_cqe *cqe) {
+      const std::unique_ptr<AsyncCallbackData> ctx(
+          static_cast<AsyncCallbackData *>(io_uring_cqe_get_data(cqe)));
+      const int32_t result = cqe->res;
+      io_uring_cqe_seen(&ring_, cqe);
+      --async_in_flight_;
+      if (ctx != nullptr) {
+        ctx->callback_(ctx->arg_, result);
       }
     }
   };
@@ -302,6 +313,25 @@ class IOUringEngine final : public IOEngine {
     return total_submitted;
   }
 
+  /// io_uring_submit that is not cut short by signals.
+  static auto submit_once(struct io_uring *ring) -> int {
+    int ret = io_uring_submit(ring);
+    while (ret == -EINTR) {
+      ret = io_uring_submit(ring);
+    }
+    return ret;
+  }
+
+  /// Take back the prepared entries the kernel did not accept. They would
+  /// otherwise be handed over by the next submission, after their requests were
+  /// reported as not submitted (the kernel reads the tail only while submitting).
+  static void withdraw_unsubmitted(struct io_uring *ring) {
+    const unsigned head = io_uring_smp_load_acquire(ring->sq.khead);
+    ring->sq.sqe_head = head;
+    ring->sq.sqe_tail = head;
+    io_uring_smp_store_release(ring->sq.ktail, head);
+  }
+
   static void mark_pending(std::span<IORequest> requests) {
     for (auto &req : requests) {
       req.result_ = kRequestNotSubmitted;
@@ -349,8 +379,9 @@ class IOUringEngine final : public IOEngine {
     size_t chunk_submitted = 0;
 
     while (chunk_submitted < chunk_requests.size()) {
-      int submitted = io_uring_submit(ring);
+      int submitted = submit_once(ring);
       if (submitted < 0) {
+        withdraw_unsubmitted(ring);
         mark_not_submitted(chunk_requests, chunk_submitted);
         LOG_ERROR(
             "io_uring_submit failed after submitting {}/{} requests for chunk starting "
@@ -362,6 +393,7 @@ class IOUringEngine final : public IOEngine {
         return false;
       }
       if (submitted == 0) {
+        withdraw_unsubmitted(ring);
         mark_not_submitted(chunk_requests, chunk_submitted);
         LOG_ERROR(
             "io_uring_submit made no progress after submitting {}/{} requests for chunk "
-- 
2.43.0


From be3db2e6f9e874c834d9bca4d61c87e05c10524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:58 +0000
Subject: [PATCH 41/60] fix: disk collections accepted manifests that
 contradict themselves or their segments

A collection manifest could list a segment twice (duplicate hits) and a
segment of another dimension or metric was opened (queries read past their
buffer). A signed x_max_pending_bytes wrapped around, and a collection created
with a Vamana seed above 32 bits could never be opened again.
---
 include/index/disk/disk_collection.hpp  | 13 +++++++++++--
 include/index/disk/segment_manifest.hpp |  5 +++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index c616f05..b0604dc 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -585,7 +585,8 @@ inline auto parse_u64_extra(const CollectionManifest &manifest,
   try {
     size_t pos = 0;
     const auto value = std::stoull(it->second, &pos);
-    if (pos != it->second.size()) {
+    // stoull also takes signs, and "-1" would wrap to a huge value.
+    if (pos != it->second.size() || it->second.front() < '0' || it->second.front() > '9') {
       throw std::out_of_range("not uint64");
     }
     return value;
@@ -628,7 +629,7 @@ inline auto load_vamana_params_from_manifest(const CollectionManifest &manifest)
   params.R = parse_u32_extra(manifest, "x_vamana_R", params.R);
   params.L = parse_u32_extra(manifest, "x_vamana_L", params.L);
   params.alpha = parse_float_extra(manifest, "x_vamana_alpha", params.alpha);
-  params.seed = parse_u32_extra(manifest, "x_vamana_seed", static_cast<uint32_t>(params.seed));
+  params.seed = parse_u64_extra(manifest, "x_vamana_seed", params.seed);
   params.num_threads = parse_u32_extra(manifest, "x_vamana_num_threads", params.num_threads);
   return params;
 }
@@ -1331,6 +1332,14 @@ class DiskCollection {
                                  seg_dir.string());
       }
       auto searcher = load_segment_from_manifest(seg_dir);
+      // A query buffer holds manifest_.dim floats and hits are merged across
+      // segments by distance, so every segment must agree on both.
+      const auto seg_manifest = SegmentManifest::load(seg_dir / "manifest.txt");
+      if (seg_manifest.dim != manifest_.dim || seg_manifest.metric != manifest_.metric) {
+        throw std::runtime_error(
+            "DiskCollection: segment dim or metric disagrees with the collection manifest: " +
+            seg_dir.string());
+      }
       segments_.push_back(std::move(searcher));
       segment_dirs_.push_back(seg_dir);
     }
diff --git a/include/index/disk/segment_manifest.hpp b/include/index/disk/segment_manifest.hpp
index 9210990..51c6e6f 100644
--- a/include/index/disk/segment_manifest.hpp
+++ b/include/index/disk/segment_manifest.hpp
@@ -458,11 +458,16 @@ struct CollectionManifest {
     } else {
       m.segment_ids = std::move(segments_from_repeated);
     }
+    std::set<std::string_view> seen_segments;
     for (const auto &id : m.segment_ids) {
       if (!detail::is_valid_segment_id(id)) {
         throw std::invalid_argument(
             "collection manifest segment id malformed (must match ^seg_[0-9]{8}$): '" + id + "'");
       }
+      if (!seen_segments.insert(id).second) {
+        throw std::invalid_argument("collection manifest lists segment '" + id +
+                                    "' more than once");
+      }
     }
 
     static const std::set<std::string_view> kKnown{kRequiredScalar.begin(), kRequiredScalar.end()};
-- 
2.43.0


From 32d9933cbc4474c463b8629829b76caf0ba378f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:54 +0000
Subject: [PATCH 42/60] fix: a racing open could make creating a disk
 collection fail and block its path for good

The opener could lock the creator's fresh lock file first; the creator then
gave up and left the lock file behind, after which neither create nor open
worked on that path. The creator now waits for such an opener, which finds no
manifest and lets go.
---
 include/index/disk/disk_collection.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index b0604dc..d637142 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -414,7 +414,16 @@ inline auto acquire_collection_lock_impl(const std::filesystem::path &collection
                              absolute_lock_path_string(lock_path));
   }
 
-  if (::flock(lock.fd, LOCK_EX | LOCK_NB) != 0) {
+  // Our O_EXCL create succeeded, so the only possible holder of this fresh inode
+  // is an opener that raced in before us; it finds no manifest and lets go. Wait
+  // for it: giving up here would leave a `.lock` behind that blocks the path for
+  // every later create and open.
+  const int lock_op = (mode == AcquireMode::ForCreate) ? LOCK_EX : (LOCK_EX | LOCK_NB);
+  int locked = 0;
+  do {
+    locked = ::flock(lock.fd, lock_op);
+  } while (locked != 0 && errno == EINTR);
+  if (locked != 0) {
     const int saved = errno;
     if (is_lock_contention_errno(saved)) {
       // Stable dual-substring contract: messages for contention must contain
-- 
2.43.0


From a4ddab09f02d1a30caf601f6ba32870fb94cfde6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 43/60] fix: building a disk graph failed on repetitive data
 and ignored short reads

Partitioned builds failed when a shard stayed empty (fewer distinct rows
than shards), a beam of one at the entry point produced a graph without
links there that cannot be loaded, and short reads of the rows or of a
shard's graph were merged as if complete.
---
 include/index/graph/vamana/build_dispatch.hpp | 18 +++++++++++-------
 include/index/graph/vamana/shard_merger.hpp   | 10 ++++++++++
 include/index/graph/vamana/vamana_builder.hpp |  3 ++-
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/index/graph/vamana/build_dispatch.hpp b/include/index/graph/vamana/build_dispatch.hpp
index 930e621..e586108 100644
--- a/include/index/graph/vamana/build_dispatch.hpp
+++ b/include/index/graph/vamana/build_dispatch.hpp
@@ -196,6 +196,9 @@ inline void gen_random_slice(const std::string &path,
   for (uint32_t i = 0; i < num; ++i) {
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(dim) * sizeof(float));
+    if (!in.good()) {
+      throw std::runtime_error("gen_random_slice: short read on " + path);
+    }
     if (u01(rng) < rate) {
       out.insert(out.end(), buf.begin(), buf.end());
       ++out_num;
@@ -352,8 +355,13 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
                                                        shard_prefix);
   LOG_INFO("shard assignment done in {}s", assign_timer.elapsed_s());
 
-  std::vector<std::filesystem::path> shard_graphs(num_parts);
+  std::vector<std::filesystem::path> shard_graphs;
+  std::vector<std::filesystem::path> idmaps;
   for (size_t s = 0; s < num_parts; ++s) {
+    if (assign.counts[s] == 0) {
+      LOG_INFO("shard {}/{} is empty, skipped", s + 1, num_parts);
+      continue;
+    }
     alaya::Timer shard_timer;
     LOG_INFO("building shard {}/{}: {} points", s + 1, num_parts, assign.counts[s]);
     std::vector<float> shard_data;
@@ -381,7 +389,8 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
     const std::filesystem::path graph_path =
         work_dir / (std::string("s_subshard-") + std::to_string(s) + "_mem.index");
     alaya::vamana::save_graph(b.graph(), graph_path, shard_R, b.medoid());
-    shard_graphs[s] = graph_path;
+    shard_graphs.push_back(graph_path);
+    idmaps.emplace_back(assign.idmap_paths[s]);
     LOG_INFO("shard {}/{} built + saved in {}s -> {}",
              s + 1,
              num_parts,
@@ -393,11 +402,6 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
   const uint32_t global_medoid = alaya::vamana::compute_medoid_streaming(data_path);
   LOG_INFO("global medoid = {} (streaming pass {}s)", global_medoid, medoid_timer.elapsed_s());
 
-  std::vector<std::filesystem::path> idmaps;
-  idmaps.reserve(num_parts);
-  for (const auto &p : assign.idmap_paths) {
-    idmaps.emplace_back(p);
-  }
   alaya::Timer merge_timer;
   alaya::vamana::merge_shards(shard_graphs, idmaps, out_path_str, args.R, global_medoid, args.seed);
   LOG_INFO("merge done in {}s", merge_timer.elapsed_s());
diff --git a/include/index/graph/vamana/shard_merger.hpp b/include/index/graph/vamana/shard_merger.hpp
index 8951941..9f7073d 100644
--- a/include/index/graph/vamana/shard_merger.hpp
+++ b/include/index/graph/vamana/shard_merger.hpp
@@ -87,6 +87,9 @@ inline uint32_t compute_medoid_streaming(const std::filesystem::path &fbin_path,
     const size_t cur = std::min(block_size, N - read_so_far);
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(cur) * dim * sizeof(float));
+    if (static_cast<size_t>(in.gcount()) != cur * dim * sizeof(float)) {
+      throw std::runtime_error("compute_medoid_streaming: short read: " + fbin_path.string());
+    }
     for (size_t p = 0; p < cur; ++p) {
       const float *v = buf.data() + p * dim;
       for (uint32_t d = 0; d < dim; ++d) {
@@ -111,6 +114,9 @@ inline uint32_t compute_medoid_streaming(const std::filesystem::path &fbin_path,
     const size_t cur = std::min(block_size, N - read_so_far);
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(cur) * dim * sizeof(float));
+    if (static_cast<size_t>(in.gcount()) != cur * dim * sizeof(float)) {
+      throw std::runtime_error("compute_medoid_streaming: short read: " + fbin_path.string());
+    }
 
     double local_best = std::numeric_limits<double>::max();
     uint32_t local_id = 0;
@@ -303,6 +309,10 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
         std::vector<uint32_t> local_nbrs(k);
         readers[s].read(reinterpret_cast<char *>(local_nbrs.data()),
                         static_cast<std::streamsize>(k) * sizeof(uint32_t));
+        if (!readers[s].good()) {
+          throw std::runtime_error("merge_shards: short read on shard " + std::to_string(s) +
+                                   " at shard-local id " + std::to_string(shard_cursor[s]));
+        }
         for (uint32_t lnb : local_nbrs) {
           if (lnb >= idmaps[s].size()) {
             throw std::runtime_error("merge_shards: out-of-range shard-local neighbor " +
diff --git a/include/index/graph/vamana/vamana_builder.hpp b/include/index/graph/vamana/vamana_builder.hpp
index 3490a50..f770ed2 100644
--- a/include/index/graph/vamana/vamana_builder.hpp
+++ b/include/index/graph/vamana/vamana_builder.hpp
@@ -457,7 +457,8 @@ class VamanaBuilder {
       std::vector<uint32_t> pruned_list;
       search_for_point_and_prune(node, params_.L, pruned_list, s, alpha);
 
-      {
+      // A beam of one that starts at its own node finds nothing; keep the reverse edges it already has.
+      if (!pruned_list.empty()) {
         std::lock_guard<std::mutex> guard(locks_[node]);
         graph_[node] = pruned_list;
       }
-- 
2.43.0


From 3f8899e9234ea86e914cdc5aa819ca9b7397792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 44/60] fix: removing the routing entry hid later inserts, or
 made them throw

An insert links the new vertex from the neighbours its search found, but
the storage ignored that for removed vertices, and the link search did not
look at what was added to them. After removing everything (or upserting
the only record) new records could not be found. Updating next to a
removed vertex without neighbours threw after the insert had happened.
---
 include/executor/jobs/graph_search_job.hpp |  1 -
 include/executor/jobs/graph_update_job.hpp | 11 ++++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index 8b85bf4..fd99674 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -772,7 +772,6 @@ struct GraphSearchJob {
           auto dist = query_computer(second_hop_nbr);
           pool.insert(second_hop_nbr, dist);
         }
-        continue;
       }
       for (uint32_t i = 0; i < gr->max_nbrs_; ++i) {
         auto v = gr->at(u, i);
diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 4cc9033..32df25e 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <limits>
@@ -166,8 +167,10 @@ class GraphUpdateJob {
       if (nbr == static_cast<IDType>(-1)) {
         break;
       }
-      if (job_context_->removed_vertices_.count(nbr)) {
-        for (auto &second_hop_nbr : job_context_->removed_node_nbrs_.at(nbr)) {
+      // A removed vertex without neighbours has no entry.
+      auto removed = job_context_->removed_node_nbrs_.find(nbr);
+      if (removed != job_context_->removed_node_nbrs_.end()) {
+        for (auto &second_hop_nbr : removed->second) {
           candidate_nbrs.insert(second_hop_nbr);
         }
       }
@@ -189,7 +192,9 @@ class GraphUpdateJob {
     for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
       updated_edges[i] = pool.id(i);
     }
-    graph_->update(node_id, updated_edges.data());
+    // Removed vertices still route searches (the entry point may be one of them), so they need the
+    // link to a new vertex too; the storage refuses updates of removed slots.
+    std::copy(updated_edges.begin(), updated_edges.end(), graph_->edges(node_id));
   }
 
  private:
-- 
2.43.0


From 560ca7d7f5015a32fdf1f6ecbbdf40d5eee00b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 45/60] fix: filters on boolean metadata never matched

A filter value True became the integer 1, which does not equal a stored
boolean.
---
 python/include/parse.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/include/parse.hpp b/python/include/parse.hpp
index d0743c0..63155b4 100644
--- a/python/include/parse.hpp
+++ b/python/include/parse.hpp
@@ -8,6 +8,7 @@
 #include <pybind11/numpy.h>
 #include <pybind11/pybind11.h>
 #include <pybind11/pytypes.h>
+#include <pybind11/stl.h>
 
 #include <cstring>
 #include <stdexcept>
@@ -20,6 +21,21 @@
 #include "executor/search_info.hpp"
 #include "utils/scalar_data.hpp"
 
+// Python's bool is a subclass of int, so the stock variant caster would turn a filter value True into
+// the integer 1, which never equals a stored boolean.
+namespace pybind11::detail {
+template <>
+struct type_caster<alaya::MetadataValue> : variant_caster<alaya::MetadataValue> {
+  auto load(handle src, bool convert) -> bool {
+    if (isinstance<bool_>(src)) {
+      value = src.cast<bool>();
+      return true;
+    }
+    return variant_caster<alaya::MetadataValue>::load(src, convert);
+  }
+};
+}  // namespace pybind11::detail
+
 namespace alaya {
 
 namespace py = pybind11;
-- 
2.43.0


From 0388e05b858aad6aa2ccf03b9bb0b2c6e9d51576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 46/60] fix: upserting into a full collection lost the document

Inserts into a full index were dropped silently, and an upsert had removed
the old record by then. Vectors of another dimension were read out of
bounds. Both are now refused before anything changes.
---
 python/include/index.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 587ac72..05687d8 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -329,6 +329,21 @@ class PyIndex : public BasePyIndex {
     return inserted_id;
   }
 
+  // Refuses a vector that cannot be stored before anything is logged or removed on its behalf.
+  void validate_vector_insertable(const py::array_t<DataType> &vector) const {
+    if (update_job_ == nullptr) {
+      return;  // reported by the update itself
+    }
+    if (vector.ndim() != 1 || static_cast<uint32_t>(vector.shape(0)) != data_dim_) {
+      throw std::runtime_error("vector must be a 1D array of dimension " +
+                               std::to_string(data_dim_));
+    }
+    // Slots of removed vectors are not handed out again.
+    if (search_space_->get_data_num() >= search_space_->get_capacity()) {
+      throw std::runtime_error("The index is full, cannot insert more vectors");
+    }
+  }
+
   void validate_insert_item_id_available(const ScalarData &scalar_data) const {
     if constexpr (SearchSpaceType::has_scalar_data) {
       if (scalar_data.item_id.empty() || search_space_ == nullptr) {
@@ -693,6 +708,7 @@ class PyIndex : public BasePyIndex {
               const std::string &item_id = "",
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> IDType {
+    validate_vector_insertable(insert_data);
     auto insert_data_ptr = static_cast<DataType *>(insert_data.request().ptr);
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
@@ -724,6 +740,7 @@ class PyIndex : public BasePyIndex {
               const std::string &item_id = "",
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> IDType {
+    validate_vector_insertable(insert_data);
     auto insert_data_ptr = static_cast<DataType *>(insert_data.request().ptr);
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
-- 
2.43.0


From c64f52cecbfc171bd357f72725aef4688b5d2896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 47/60] fix: keys beside $or widened a filter instead of
 restricting it

---
 python/src/alayalite/collection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index 8f87de4..5120165 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -473,10 +473,14 @@ class Collection:
                     sub_filter = self._build_filter(sub_dict)
                     mf.add_sub_filter(sub_filter)
             elif key == "$or":
-                mf.logic_op = _LogicOp.OR
+                # Keys beside "$or" restrict the alternatives further, so these need a node of their own.
+                or_filter = mf if len(filter_dict) == 1 else _MetadataFilter()
+                or_filter.logic_op = _LogicOp.OR
                 for sub_dict in value:
                     sub_filter = self._build_filter(sub_dict)
-                    mf.add_sub_filter(sub_filter)
+                    or_filter.add_sub_filter(sub_filter)
+                if or_filter is not mf:
+                    mf.add_sub_filter(or_filter)
             elif isinstance(value, dict):
                 for op, op_value in value.items():
                     # TODO(review - filter DSL parity): expose `$ne`, `$not_in`, and `$contains`
-- 
2.43.0


From 52eac2f442fcaa3a69dccbb01bf3102f2d272a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 48/60] fix: a foreign schema.json kept a client directory from
 opening

---
 python/src/alayalite/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/alayalite/schema.py b/python/src/alayalite/schema.py
index 619f51c..ebd7e33 100644
--- a/python/src/alayalite/schema.py
+++ b/python/src/alayalite/schema.py
@@ -221,7 +221,7 @@ def is_index_url(url):
         return False
     else:
         schema_map = load_schema(schema_url)
-        return schema_map["type"] == "index"
+        return isinstance(schema_map, dict) and schema_map.get("type") == "index"
 
 
 def is_collection_url(url):
@@ -230,4 +230,4 @@ def is_collection_url(url):
         return False
     else:
         schema_map = load_schema(schema_url)
-        return schema_map["type"] == "collection"
+        return isinstance(schema_map, dict) and schema_map.get("type") == "collection"
-- 
2.43.0


From cec3e7bb7921cc7010b5f3b3e5e4dd0c6778d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 49/60] fix: names such as '', '..' or absolute paths let a
 client delete foreign directories

delete_collection and reset remove the directory url/name.
---
 python/src/alayalite/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/src/alayalite/client.py b/python/src/alayalite/client.py
index eaa155c..5853eb9 100644
--- a/python/src/alayalite/client.py
+++ b/python/src/alayalite/client.py
@@ -102,6 +102,12 @@ class Client:
             logger.info("Index %s does not exist", name)
             return None
 
+    @staticmethod
+    def _check_name(name: str) -> None:
+        """A name becomes a directory below the client's url, so it must not lead anywhere else."""
+        if not isinstance(name, str) or name in ("", ".", "..") or any(c in name for c in "/\\\0"):
+            raise ValueError(f"Invalid collection or index name: {name!r}")
+
     @staticmethod
     def _close_collection(collection: Collection) -> None:
         try:
@@ -130,6 +136,7 @@ class Client:
         Raises:
             RuntimeError: If a collection or index with the same name already exists.
         """
+        self._check_name(name)
         if name in self.__collection_map or name in self.__index_map:
             raise RuntimeError(f"A collection or index with name '{name}' already exists")
 
@@ -154,6 +161,7 @@ class Client:
         Raises:
             RuntimeError: If a collection or index with the same name already exists.
         """
+        self._check_name(name)
         if name in self.__collection_map or name in self.__index_map:
             raise RuntimeError(f"A collection or index with name '{name}' already exists")
 
-- 
2.43.0


From 18f46399962b2a80a31cbc38bc3ef1dd315791ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 50/60] fix: a crash during the first insert blocked the
 collection's name for good

---
 python/src/alayalite/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/alayalite/client.py b/python/src/alayalite/client.py
index 5853eb9..b14cc39 100644
--- a/python/src/alayalite/client.py
+++ b/python/src/alayalite/client.py
@@ -142,7 +142,13 @@ class Client:
 
         index_params = IndexParams.from_kwargs(**kwargs)
         if not index_params.rocksdb_path and self.__url is not None:
-            index_params.rocksdb_path = os.path.join(self.__url, name, "rocksdb")
+            collection_url = os.path.join(self.__url, name)
+            index_params.rocksdb_path = os.path.join(collection_url, "rocksdb")
+            if not os.path.exists(os.path.join(collection_url, "schema.json")):
+                # A process died during the first insert, before there was anything to load. What it left
+                # would make the first insert into the new collection fail.
+                for leftover in ("rocksdb", "recovery"):
+                    shutil.rmtree(os.path.join(collection_url, leftover), ignore_errors=True)
         collection = Collection(name, index_params)
         self.__collection_map[name] = collection
         return collection
-- 
2.43.0


From e4f92507ccaf767506e34ea5647e3dcef0736eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 51/60] fix: searches returned removed ids when fewer live
 vectors than asked for remained

---
 include/executor/jobs/graph_search_job.hpp | 27 ++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index fd99674..c828adf 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -138,6 +138,19 @@ struct GraphSearchJob {
     std::fill(distances + begin, distances + end, kInvalidDistance);
   }
 
+  /**
+   * @brief Number of leading pool entries that are results: removed vertices only route the search
+   * and sort last, at the invalid distance.
+   */
+  static auto count_live(const LinearPool<DistanceType, IDType> &pool, uint32_t topk) -> uint32_t {
+    auto limit = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+    uint32_t count = 0;
+    while (count < limit && pool.dist(count) != kInvalidDistance) {
+      ++count;
+    }
+    return count;
+  }
+
   struct RerankCandidate {
     DistanceType distance_;
     IDType id_;
@@ -275,6 +288,9 @@ struct GraphSearchJob {
     auto candidate_count = static_cast<uint32_t>(src.size());
     for (uint32_t i = 0; i < candidate_count; ++i) {
       RerankCandidate candidate{dist_compute(src.id(i)), src.id(i)};
+      if (candidate.distance_ == kInvalidDistance) {
+        continue;  // removed
+      }
       if (heap.size() < topk) {
         heap.push_back(candidate);
         std::push_heap(heap.begin(), heap.end(), rerank_candidate_less);
@@ -323,6 +339,9 @@ struct GraphSearchJob {
     auto candidate_count = static_cast<uint32_t>(src.size());
     for (uint32_t i = 0; i < candidate_count; ++i) {
       RerankCandidate candidate{dist_compute(src.id(i)), src.id(i)};
+      if (candidate.distance_ == kInvalidDistance) {
+        continue;  // removed
+      }
       if (heap.size() < topk) {
         heap.push_back(candidate);
         std::push_heap(heap.begin(), heap.end(), rerank_candidate_less);
@@ -543,7 +562,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = count_live(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
       }
@@ -610,7 +629,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, distances, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = count_live(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
         distances[i] = pool.dist(i);
@@ -675,7 +694,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = count_live(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
       }
@@ -741,7 +760,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, distances, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = count_live(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
         distances[i] = pool.dist(i);
-- 
2.43.0


From 397fcce371859c7865ab0a5c54d298820636e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 52/60] fix: removing an id that was never inserted accessed
 memory out of bounds

---
 include/executor/jobs/graph_update_job.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 32df25e..9536f86 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -10,6 +10,7 @@
 #include <limits>
 #include <memory>
 #include <stdexcept>
+#include <string>
 #include <type_traits>
 #include <unordered_set>
 #include <vector>
@@ -117,6 +118,10 @@ class GraphUpdateJob {
   }
 
   auto remove(IDType node_id) -> void {
+    if (node_id >= space_->get_data_num()) {
+      throw std::out_of_range("Cannot remove an id that was never inserted: " +
+                              std::to_string(node_id));
+    }
     auto nbrs = graph_->edges(node_id);
     for (IDType i = 0; i < graph_->max_nbrs_; i++) {
       auto nbr = nbrs[i];
-- 
2.43.0


From e2ce5e11c47f65f4ae7b7a6f414f775de0ce5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 53/60] fix: iterative filtering returned the first matches
 visited instead of the nearest

---
 .../executor/jobs/graph_hybrid_search_job.hpp    | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/executor/jobs/graph_hybrid_search_job.hpp b/include/executor/jobs/graph_hybrid_search_job.hpp
index b50f3bc..228b9d3 100644
--- a/include/executor/jobs/graph_hybrid_search_job.hpp
+++ b/include/executor/jobs/graph_hybrid_search_job.hpp
@@ -302,21 +302,19 @@ struct GraphHybridSearchJob {
     std::vector<DistanceType> candidate_distances;
     std::vector<uint8_t> matches;
 
-    while (result_pool.size() < search_info.topk_ && iterator->has_next()) {
-      auto batch_size = static_cast<size_t>(search_info.topk_ - result_pool.size());
-      iterator->next_batch(batch_size, candidate_ids, candidate_distances);
+    // The traversal does not yield candidates in distance order (it starts at the entry point,
+    // however far that is), so every candidate within the search width has to be considered: the
+    // first topk matches need not be the nearest ones.
+    while (iterator->has_next()) {
+      iterator->next_batch(search_info.topk_, candidate_ids, candidate_distances);
       if (candidate_ids.empty()) {
         break;
       }
 
       filter_executor.eval_offsets(candidate_ids, matches);
       for (size_t i = 0; i < candidate_ids.size(); ++i) {
-        if (matches[i] == 0) {
-          continue;
-        }
-        result_pool.insert(candidate_ids[i], candidate_distances[i]);
-        if (result_pool.size() == search_info.topk_) {
-          break;
+        if (matches[i] != 0) {
+          result_pool.insert(candidate_ids[i], candidate_distances[i]);
         }
       }
     }
-- 
2.43.0


From c18a9f23a647bbdb113fbdb8d4e84e8c302e391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:20 +0000
Subject: [PATCH 54/60] fix: building a RaBitQ graph over 32 or fewer vectors
 never returned

random_init and angle_based_supplement drew random vertices until a
vertex had 32 distinct neighbours other than itself, which never happens
when there are fewer than 33 vectors. Stop at the number of other
vertices; the slots left over point back at the vertex itself, which a
search skips as already visited.
---
 include/index/graph/qg/qg_builder.hpp | 14 +++++++++-----
 include/space/rabitq_space.hpp        |  4 +++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/index/graph/qg/qg_builder.hpp b/include/index/graph/qg/qg_builder.hpp
index d69de3f..601e72f 100644
--- a/include/index/graph/qg/qg_builder.hpp
+++ b/include/index/graph/qg/qg_builder.hpp
@@ -52,10 +52,13 @@ class QGBuilder {
     num_nodes_ = space_->get_data_num();
     dim_ = space_->get_dim();
     degree_bound_ = RaBitQSpace<>::kDegreeBound;
+    // a vertex cannot have more distinct neighbors than there are other vertices
+    target_degree_ =
+        num_nodes_ == 0 ? 0 : std::min(static_cast<size_t>(degree_bound_), num_nodes_ - 1);
 
     new_neighbors_.resize(num_nodes_);
     pruned_neighbors_.resize(num_nodes_);
-    degrees_.resize(num_nodes_, static_cast<uint32_t>(degree_bound_));
+    degrees_.resize(num_nodes_, static_cast<uint32_t>(target_degree_));
 
     num_threads_ = std::min(num_threads, static_cast<size_t>(configured_thread_limit()));
     platform::set_openmp_thread_count(num_threads_);
@@ -99,6 +102,7 @@ class QGBuilder {
   size_t num_nodes_;                               ///< num of data points
   size_t dim_;                                     ///< dimension of data
   size_t degree_bound_;                            ///< multiple of 32
+  size_t target_degree_;                           ///< number of neighbors each vertex ends up with
   std::vector<CandidateList> new_neighbors_;       ///< new neighbors for current iteration
   std::vector<CandidateList> pruned_neighbors_;    ///< recorded pruned neighbors
   std::vector<HashBasedBooleanSet> visited_list_;  // list of visited hash set
@@ -127,7 +131,7 @@ class QGBuilder {
     // update result with space and graph in the end of every iteration
     ALAYA_OMP_PARALLEL_FOR_DYNAMIC
     for (int64_t i = 0; i < static_cast<int64_t>(num_nodes_); ++i) {
-      if (sup && new_neighbors_[i].size() < degree_bound_) {
+      if (sup && new_neighbors_[i].size() < target_degree_) {
         LOG_ERROR("After supplement, node_{} only has {} neighbors.", i, new_neighbors_[i].size());
       }
       space_->update_nei(i, new_neighbors_[i]);
@@ -254,13 +258,13 @@ class QGBuilder {
       add_pruned_edges(cur_neighbors, pruned_list, new_result, right);
 
       // if the vertex still doesn't have enough neighbors, use random vertices
-      if (new_result.size() < degree_bound_) {
+      if (new_result.size() < target_degree_) {
         std::unordered_set<IDType> ids;
         ids.reserve(degree_bound_);
         for (auto &neighbor : new_result) {
           ids.emplace(neighbor.id_);
         }
-        while (new_result.size() < degree_bound_) {
+        while (new_result.size() < target_degree_) {
           IDType rand_id = rand_integer<IDType>(0, static_cast<IDType>(num_nodes_) - 1);
           if (rand_id != static_cast<IDType>(i) && ids.find(rand_id) == ids.end()) {
             new_result.emplace_back(rand_id, space_->get_distance(rand_id, i));
@@ -505,7 +509,7 @@ class QGBuilder {
       // generate random neighbors
       std::unordered_set<IDType> neighbor_set;
       neighbor_set.reserve(degree_bound_);
-      while (neighbor_set.size() < degree_bound_) {
+      while (neighbor_set.size() < target_degree_) {
         IDType rand_id = rand_integer<IDType>(0, num_nodes_ - 1);
         if (rand_id != static_cast<IDType>(i)) {
           neighbor_set.emplace(rand_id);
diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 867addc..7f4d33d 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -240,11 +240,13 @@ class RaBitQSpace {
 
   void update_nei(IDType c, const std::vector<Neighbor<IDType, DistanceType>> &new_neighbors) {
     size_t cur_degree = new_neighbors.size();
+    auto nei_ptr = get_edges(c);
+    // unused slots point back at the vertex itself, which a search has always visited already
+    std::fill(nei_ptr + std::min(cur_degree, kDegreeBound), nei_ptr + kDegreeBound, c);
     if (cur_degree == 0) {
       return;
     }
 
-    auto nei_ptr = get_edges(c);
     // update neighbors' IDs
     for (size_t i = 0; i < cur_degree; ++i) {
       *(nei_ptr + i) = new_neighbors[i].id_;
-- 
2.43.0


From 7672c9692e57a8f7e8168df65c18846126542f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 55/60] fix: RaBitQ searches that find fewer than k left the
 rest of the ids as they were

Index.search and Index.batch_search pass zeroed arrays, so asking for more
results than there are rows returned row 0 again and again. Fill the rest
with the invalid id, as the searches over the other spaces do.
---
 include/executor/jobs/graph_search_job.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index c828adf..9fd4040 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -430,6 +430,7 @@ struct GraphSearchJob {
 
     // return result
     res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
+    fill_invalid_ids(ids, static_cast<uint32_t>(res_pool.size()), k);
   }
 
 #if defined(__linux__)
@@ -502,6 +503,7 @@ struct GraphSearchJob {
 
     // return result
     res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
+    fill_invalid_ids(ids, static_cast<uint32_t>(res_pool.size()), k);
 
     co_return;
   }
-- 
2.43.0


From 5ec50a2f8a9abfca3564445960410d2eb076f7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:08 +0000
Subject: [PATCH 56/60] fix: a LASER fit killed while rebuilding left the seed
 file that vouches for what it was rewriting

---
 python/src/alayalite/laser/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/src/alayalite/laser/__init__.py b/python/src/alayalite/laser/__init__.py
index 5dce3cd..663f415 100644
--- a/python/src/alayalite/laser/__init__.py
+++ b/python/src/alayalite/laser/__init__.py
@@ -292,14 +292,14 @@ class Index:
 
         # Sidecar gate: a missing-or-mismatched seed sidecar disables
         # skip_existing for this call so all sub-steps rebuild against the
-        # requested master_seed. The sidecar is republished at the end of
+        # requested master_seed. The sidecar is withdrawn for as long as
+        # artifacts may be rewritten in place and republished at the end of
         # fit() once every build step has succeeded, so a crash mid-build
-        # leaves the previous (or absent) sidecar in place — the next
-        # invocation will then see "mismatch" and rebuild any partially
-        # written artifacts rather than trusting them.
+        # leaves no sidecar — the next invocation will then see "mismatch"
+        # and rebuild any partially written artifacts rather than trusting
+        # them.
         seed_matches = validate_seed_sidecar(prefix, master_seed)
-        if not seed_matches:
-            invalidate_seed_sidecar(prefix)
+        invalidate_seed_sidecar(prefix)
         effective_skip = bool(skip_existing) and seed_matches
 
         if vectors_arr is not None:
-- 
2.43.0


From 12534354ae66ad587b32ad89cceb296ee1c1c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:08 +0000
Subject: [PATCH 57/60] fix: a LASER fit in a used directory took over
 artifacts of other rows, another rotation or other entry points

---
 python/src/alayalite/laser/__init__.py | 52 ++++++++++++++++++--------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/python/src/alayalite/laser/__init__.py b/python/src/alayalite/laser/__init__.py
index 663f415..4006561 100644
--- a/python/src/alayalite/laser/__init__.py
+++ b/python/src/alayalite/laser/__init__.py
@@ -188,6 +188,11 @@ def _read_index_header_24(path: str) -> tuple[int, int]:
     return int(n), int(dim)
 
 
+def _remove_if_exists(path: str) -> None:
+    if os.path.exists(path):
+        os.remove(path)
+
+
 def _validate_main_dim(main_dim: int, raw_dim: int) -> None:
     # Order matters: 0 & -1 == 0 in Python's bigint, so the power-of-two
     # check would falsely pass for main_dim == 0 without this guard.
@@ -290,6 +295,9 @@ class Index:
         master_seed = int(seed)
         resolved_threads = _effective_threads(int(num_threads))
 
+        pca_base_path = f"{prefix}_pca_base.fbin"
+        pca_params_path = f"{prefix}_pca.bin"
+
         # Sidecar gate: a missing-or-mismatched seed sidecar disables
         # skip_existing for this call so all sub-steps rebuild against the
         # requested master_seed. The sidecar is withdrawn for as long as
@@ -297,23 +305,21 @@ class Index:
         # fit() once every build step has succeeded, so a crash mid-build
         # leaves no sidecar — the next invocation will then see "mismatch"
         # and rebuild any partially written artifacts rather than trusting
-        # them.
+        # them. Artifacts of a different number of vectors are not reused
+        # either: neither the graph nor the medoids say what they are of.
         seed_matches = validate_seed_sidecar(prefix, master_seed)
         invalidate_seed_sidecar(prefix)
-        effective_skip = bool(skip_existing) and seed_matches
+        same_shape = validate_pca_base(pca_base_path, n, raw_dim)
+        effective_skip = bool(skip_existing) and seed_matches and same_shape
 
         if vectors_arr is not None:
             if not (effective_skip and validate_pca_base(raw_fbin_path, n, raw_dim)):
                 write_fbin(raw_fbin_path, vectors_arr)
 
-        pca_base_path = f"{prefix}_pca_base.fbin"
-        pca_params_path = f"{prefix}_pca.bin"
+        # The base file is rotated exactly when there are PCA parameters beside it.
         if resolved_main_dim < raw_dim:
-            if not (
-                effective_skip
-                and validate_pca_base(pca_base_path, n, raw_dim)
-                and validate_pca_params(pca_params_path, raw_dim)
-            ):
+            base_kept = effective_skip and validate_pca_params(pca_params_path, raw_dim)
+            if not base_kept:
                 from alayalite.laser._pca import (  # pylint: disable=import-outside-toplevel
                     fit_incremental_pca,
                     pca_transform_and_save,
@@ -323,17 +329,29 @@ class Index:
 
                 vectors, sample_vectors = sample_vectors_from_fbin(raw_fbin_path, seed=master_seed)
                 pca = fit_incremental_pca(sample_vectors, n_components=raw_dim)
+                # Transforming resumes from what is there, which is of another PCA.
+                _remove_if_exists(pca_base_path)
                 save_pca_params(pca, pca_params_path)
                 pca_transform_and_save(vectors, pca, pca_base_path)
         else:
-            if not (effective_skip and validate_pca_base(pca_base_path, n, raw_dim)):
+            base_kept = effective_skip and not os.path.exists(pca_params_path)
+            if not base_kept:
                 shutil.copyfile(raw_fbin_path, pca_base_path)
             # Keep the no-PCA branch explicit: stale files would rotate queries unexpectedly.
-            if os.path.exists(pca_params_path):
-                os.remove(pca_params_path)
-
-        if not bp.disable_medoid:
-            if not (effective_skip and validate_medoids(prefix)):
+            _remove_if_exists(pca_params_path)
+
+        if not (seed_matches and base_kept):
+            # Indexes of other degrees or dimensions are of the base or seed that is gone.
+            for stale in glob.glob(f"{glob.escape(prefix)}_R*_MD*.index"):
+                if _INDEX_RE.search(Path(stale).name):
+                    os.remove(stale)
+
+        if bp.disable_medoid:
+            # Loading uses whatever medoids it finds.
+            _remove_if_exists(f"{prefix}_medoids")
+            _remove_if_exists(f"{prefix}_medoids_indices")
+        else:
+            if not (effective_skip and base_kept and validate_medoids(prefix)):
                 from alayalite.laser._medoid import generate_and_save_medoids  # pylint: disable=import-outside-toplevel
 
                 generate_and_save_medoids(
@@ -370,7 +388,9 @@ class Index:
             rotator_seed=master_seed,
             rotator_dump_path="",
         )
-        if not (effective_skip and validate_laser_index(prefix, int(bp.R), int(resolved_main_dim), int(n))):
+        if not (
+            effective_skip and base_kept and validate_laser_index(prefix, int(bp.R), int(resolved_main_dim), int(n))
+        ):
             raw.build_index(
                 vamana_file=vamana_path,
                 data_file=prefix,
-- 
2.43.0


From 65d9964835ba5544c3c1ac35a1462cc99b497d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 58/60] fix: a first insert of embeddings given as plain lists,
 as all of those over REST are, was refused

---
 python/src/alayalite/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index 5120165..ffdbb71 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -248,7 +248,8 @@ class Collection:
         if self.__index_py is None:
             # First insert - initialize index with batch fit
             _, _, first_embedding, _ = items[0]
-            dt = valid_dtype(np.asarray(first_embedding).dtype)
+            # Plain Python numbers have no dtype of their own.
+            dt = valid_dtype(getattr(first_embedding, "dtype", np.float32))
             self.__index_params.data_type = dt
 
             self.__index_params.fill_none_values()
-- 
2.43.0


From f49b9efb8aac61f275f5730179c1a553751f0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 59/60] fix: setting the metric of a filled collection over
 REST ended in an internal error

---
 app/routers/client.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/app/routers/client.py b/app/routers/client.py
index b5581e9..6178643 100644
--- a/app/routers/client.py
+++ b/app/routers/client.py
@@ -54,14 +54,18 @@ async def create_collection(request: CreateCollectionRequest):
 
 @router.post(path="/collection/set_metric", tags=["collection"])
 async def set_metric(request: SetMetricRequest):
-    collection = client.get_collection(request.collection_name)
-    if collection is None:
-        return JSONResponse(
-            status_code=status.HTTP_404_NOT_FOUND,
-            content={"error": f"Collection {request.collection_name} does not exist"},
-        )
-    collection.set_metric(request.metric)
-    return f"Metric for collection {request.collection_name} set to {request.metric}"
+    try:
+        collection = client.get_collection(request.collection_name)
+        if collection is None:
+            return JSONResponse(
+                status_code=status.HTTP_404_NOT_FOUND,
+                content={"error": f"Collection {request.collection_name} does not exist"},
+            )
+        collection.set_metric(request.metric)
+        return f"Metric for collection {request.collection_name} set to {request.metric}"
+    except Exception as e:
+        print(e, file=sys.stderr)
+        return JSONResponse(status_code=status.HTTP_400_BAD_REQUEST, content={"error": str(e)})
 
 
 @router.post(path="/collection/list", tags=["collection"])
-- 
2.43.0


From d870f5407e328108f7a3fd7b5db403dbc9af4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:54 +0000
Subject: [PATCH 60/60] fix: a delete by filter over REST reported the number
 of filter keys as that of deleted items

---
 app/routers/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/routers/client.py b/app/routers/client.py
index 6178643..2fd1fc0 100644
--- a/app/routers/client.py
+++ b/app/routers/client.py
@@ -169,8 +169,8 @@ async def delete_by_filter(request: DeleteByFilterRequest):
                 status_code=status.HTTP_404_NOT_FOUND,
                 content={"error": f"Collection {request.collection_name} does not exist"},
             )
-        collection.delete_by_filter(request.filter)
-        return f"Successfully deleted {len(request.filter)} items from collection {request.collection_name}"
+        deleted = collection.delete_by_filter(request.filter)
+        return f"Successfully deleted {deleted} items from collection {request.collection_name}"
     except Exception as e:
         print(e, file=sys.stderr)
         return JSONResponse(status_code=status.HTTP_400_BAD_REQUEST, content={"error": str(e)})
-- 
2.43.0

