From afaf0129a46644e141f28bf16d94db5e68b83890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 01/32] fix: never release the table lock in the middle of an
 operation, drain extension ops before shutdown

ExtensionOperation waited for buffer space (releasing mu_) while callers held
iterators and references into data_ and the table was half modified. Wait
before the operation instead. The destructor now joins the table worker while
the extension worker is still draining requests, and the extension worker's
stop flag is guarded by the mutex it sleeps on, so neither thread can be left
blocked forever.
---
 reverb/cc/table.cc | 39 ++++++++++++++++++++++++++-------------
 reverb/cc/table.h  | 12 +++++++++++-
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 89ccc23..4a03635 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -162,13 +162,15 @@ Table::~Table() {
     stop_worker_ = true;
     wakeup_worker_.Signal();
   }
+  // Join the worker thread. The extension worker is still running at this point
+  // as the table worker may be waiting for it to free up space in the buffer of
+  // extension requests.
+  table_worker_ = nullptr;
   {
     absl::MutexLock lock(&mu_);
-    extension_buffer_available_cv_.SignalAll();
+    stop_extension_worker_ = true;
     extension_work_available_cv_.SignalAll();
   }
-  // Join the worker thread
-  table_worker_ = nullptr;
   // Join the extension worker thread.
   extension_worker_ = nullptr;
   rate_limiter_->UnregisterTable(&mu_, this);
@@ -233,6 +235,7 @@ absl::Status Table::TableWorkerLoop() {
       int64_t prev_progress = progress - 1;
       while (prev_progress < progress) {
         prev_progress = progress;
+        AwaitExtensionBufferSpace();
         // Try processing an insert request.
         if (insert_idx < current_inserts.size() &&
             rate_limiter_->CanInsert(&mu_, 1)) {
@@ -262,6 +265,7 @@ absl::Status Table::TableWorkerLoop() {
               sample_idx++;
               break;
             }
+            AwaitExtensionBufferSpace();
           }
         }
       }
@@ -356,9 +360,6 @@ absl::Status Table::ExtensionsWorkerLoop() {
   while (true) {
     {
       absl::MutexLock lock(&worker_mu_);
-      if (stop_worker_) {
-        return absl::OkStatus();
-      }
       if (deleted_items_.empty() && !deleted_items.empty()) {
         // Deleted items are freed by the clients to spread the load.
         // Previous deletion batch has been processed, give clients a new batch.
@@ -369,6 +370,9 @@ absl::Status Table::ExtensionsWorkerLoop() {
       absl::MutexLock lock(&mu_);
       REVERB_CHECK(extension_requests.empty());
       if (extension_requests_.empty()) {
+        if (stop_extension_worker_) {
+          return absl::OkStatus();
+        }
         // No more work to do, go to sleep.
         extension_worker_sleeps_ = true;
         extension_work_available_cv_.Wait(&mu_);
@@ -376,9 +380,9 @@ absl::Status Table::ExtensionsWorkerLoop() {
       }
       std::swap(extension_requests_, extension_requests);
       if (extension_requests.size() >= max_enqueued_extension_ops_) {
-        // Table worker may be blocked, let know there is place to add more
-        // extension requests now.
-        extension_buffer_available_cv_.Signal();
+        // Table worker and clients mutating the table may be blocked, let them
+        // know there is place to add more extension requests now.
+        extension_buffer_available_cv_.SignalAll();
       }
     }
     {
@@ -615,9 +619,11 @@ absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
   {
     absl::MutexLock lock(&mu_);
     for (int i = 0; i < deletes.size(); i++) {
+      AwaitExtensionBufferSpace();
       REVERB_RETURN_IF_ERROR(DeleteItem(deletes[i], &deleted_items[i]));
     }
     for (const auto& item : updates) {
+      AwaitExtensionBufferSpace();
       REVERB_RETURN_IF_ERROR(UpdateItem(item.key(), item.priority()));
     }
   }
@@ -893,10 +899,6 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
     // otherwise no need to enqueue the operation.
     return;
   }
-  while (extension_requests_.size() >= max_enqueued_extension_ops_) {
-    // TODO(stanczyk): Track time spent waiting here.
-    extension_buffer_available_cv_.Wait(&mu_);
-  }
   ExtensionItem e_item(item);
   ExtensionRequest request{type, e_item};
   extension_requests_.push_back(request);
@@ -905,6 +907,16 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
   }
 }
 
+void Table::AwaitExtensionBufferSpace() {
+  if (!extension_worker_) {
+    return;
+  }
+  while (extension_requests_.size() >= max_enqueued_extension_ops_) {
+    // TODO(stanczyk): Track time spent waiting here.
+    extension_buffer_available_cv_.Wait(&mu_);
+  }
+}
+
 absl::Status Table::UpdateItem(Key key, double priority) {
   auto it = data_.find(key);
   if (it == data_.end()) {
@@ -998,6 +1010,7 @@ Table::CheckpointAndChunks Table::Checkpoint() {
 
 absl::Status Table::InsertCheckpointItem(Table::Item item) {
   absl::MutexLock lock(&mu_);
+  AwaitExtensionBufferSpace();
   REVERB_CHECK_LE(data_.size() + 1, max_size_)
       << "InsertCheckpointItem called on already full Table";
   REVERB_CHECK(!data_.contains(item.item.key()))
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 4c27e75..2cf063d 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -414,11 +414,17 @@ class Table {
   // Executes a given extension operation for all extensions registered with the
   // table. If extension worker is enabled, operation is executed asynchronously
   // for all extensions that support asynchronous execution. For synchronous
-  // extensions operation is executed synchronously.
+  // extensions operation is executed synchronously. Never releases `mu_`, as
+  // callers are in the middle of modifying the table.
   void ExtensionOperation(ExtensionRequest::CallType type,
                           const std::shared_ptr<Item>& item)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
 
+  // Blocks until there is space in the buffer of asynchronous extension
+  // requests. Releases `mu_` while waiting, so it must be called before the
+  // table is inspected or modified.
+  void AwaitExtensionBufferSpace() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Extensions worker execution loop. It is executed by a dedicated thread
   // and it performs enqueued extension operations. Operations are executed in
   // the order enqueued, but they run without holding table's lock.
@@ -526,6 +532,10 @@ class Table {
   // Used for waking up extension worker when asleep.
   absl::CondVar extension_work_available_cv_ ABSL_GUARDED_BY(mu_);
 
+  // Should extension worker terminate. Set to true upon table termination once
+  // the table worker has been joined.
+  bool stop_extension_worker_ ABSL_GUARDED_BY(mu_) = false;
+
   // Used for waking up table worker when space to add more extension requests
   // is available.
   absl::CondVar extension_buffer_available_cv_ ABSL_GUARDED_BY(mu_);
-- 
2.43.0


From 23cfa7569bde46064084e743546d5f558072b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 02/32] fix: keep data_, sampler_ and remover_ in agreement
 when a selector rejects a priority

A rejected insert left the item in data_ (and possibly one selector), a rejected
update left the new priority on the item only, the table worker thread died on
the first rejected insert and MutateItems skipped waking the worker.
---
 reverb/cc/table.cc | 55 +++++++++++++++++++++++++++++++---------------
 reverb/cc/table.h  |  5 +++++
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 4a03635..5c9ecaf 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -240,8 +240,11 @@ absl::Status Table::TableWorkerLoop() {
         if (insert_idx < current_inserts.size() &&
             rate_limiter_->CanInsert(&mu_, 1)) {
           rate_limiter_->CreateInstantInsertEvent(&mu_);
-          REVERB_RETURN_IF_ERROR(
-              InsertOrAssignInternal(current_inserts[insert_idx++]));
+          auto status = InsertOrAssignInternal(current_inserts[insert_idx++]);
+          // An invalid item must not stop the worker from serving the others.
+          REVERB_LOG_IF(REVERB_ERROR, !status.ok())
+              << "Item could not be inserted into table " << name_ << ": "
+              << status;
           progress++;
         }
         // Skip sampling requests which timed out already.
@@ -514,14 +517,18 @@ absl::Status Table::InsertOrAssign(Item item, absl::Duration timeout) {
       return UpdateItem(key, priority);
     }
 
+    auto status = InsertIntoSelectors(key, priority);
+    if (!status.ok()) {
+      // The insert was admitted but did not happen, let another one proceed.
+      rate_limiter_->MaybeSignalCondVars(&mu_);
+      return status;
+    }
+
     // Set the insertion timestamp after the lock has been acquired as this
     // represents the order it was inserted into the sampler and remover.
     EncodeAsTimestampProto(absl::Now(), item.item.mutable_inserted_at());
     data_[key] = std::make_shared<Item>(std::move(item));
 
-    REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
-    REVERB_RETURN_IF_ERROR(remover_->Insert(key, priority));
-
     auto it = data_.find(key);
     ExtensionOperation(ExtensionRequest::CallType::kInsert, it->second);
 
@@ -584,14 +591,13 @@ absl::Status Table::InsertOrAssignInternal(std::shared_ptr<Item> item) {
     return absl::OkStatus();
   }
 
+  REVERB_RETURN_IF_ERROR(InsertIntoSelectors(key, priority));
+
   // Set the insertion timestamp after the lock has been acquired as this
   // represents the order it was inserted into the sampler and remover.
   EncodeAsTimestampProto(absl::Now(), item->item.mutable_inserted_at());
   data_[key] = std::move(item);
 
-  REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
-  REVERB_RETURN_IF_ERROR(remover_->Insert(key, priority));
-
   auto it = data_.find(key);
   ExtensionOperation(ExtensionRequest::CallType::kInsert, it->second);
 
@@ -616,15 +622,16 @@ absl::Status Table::InsertOrAssignInternal(std::shared_ptr<Item> item) {
 absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
                                 absl::Span<const Key> deletes) {
   std::vector<std::shared_ptr<Item>> deleted_items(deletes.size());
+  absl::Status status;
   {
     absl::MutexLock lock(&mu_);
-    for (int i = 0; i < deletes.size(); i++) {
+    for (int i = 0; status.ok() && i < deletes.size(); i++) {
       AwaitExtensionBufferSpace();
-      REVERB_RETURN_IF_ERROR(DeleteItem(deletes[i], &deleted_items[i]));
+      status = DeleteItem(deletes[i], &deleted_items[i]);
     }
-    for (const auto& item : updates) {
+    for (int i = 0; status.ok() && i < updates.size(); i++) {
       AwaitExtensionBufferSpace();
-      REVERB_RETURN_IF_ERROR(UpdateItem(item.key(), item.priority()));
+      status = UpdateItem(updates[i].key(), updates[i].priority());
     }
   }
   // Table worker doesn't listen on rate_limiter, so need to wake it up
@@ -635,7 +642,7 @@ absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
       wakeup_worker_.Signal();
     }
   }
-  return absl::OkStatus();
+  return status;
 }
 
 absl::Status Table::Sample(SampledItem* sampled_item, absl::Duration timeout) {
@@ -907,6 +914,15 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
   }
 }
 
+absl::Status Table::InsertIntoSelectors(Key key, double priority) {
+  REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
+  auto status = remover_->Insert(key, priority);
+  if (!status.ok()) {
+    REVERB_CHECK_OK(sampler_->Delete(key));
+  }
+  return status;
+}
+
 void Table::AwaitExtensionBufferSpace() {
   if (!extension_worker_) {
     return;
@@ -922,9 +938,14 @@ absl::Status Table::UpdateItem(Key key, double priority) {
   if (it == data_.end()) {
     return absl::OkStatus();
   }
-  it->second->item.set_priority(priority);
   REVERB_RETURN_IF_ERROR(sampler_->Update(key, priority));
-  REVERB_RETURN_IF_ERROR(remover_->Update(key, priority));
+  auto status = remover_->Update(key, priority);
+  if (!status.ok()) {
+    // Restore the sampler so that both selectors agree with the item.
+    REVERB_CHECK_OK(sampler_->Update(key, it->second->item.priority()));
+    return status;
+  }
+  it->second->item.set_priority(priority);
   ExtensionOperation(ExtensionRequest::CallType::kUpdate, it->second);
 
   return absl::OkStatus();
@@ -1018,9 +1039,7 @@ absl::Status Table::InsertCheckpointItem(Table::Item item) {
       << item.item.key();
 
   REVERB_RETURN_IF_ERROR(
-      sampler_->Insert(item.item.key(), item.item.priority()));
-  REVERB_RETURN_IF_ERROR(
-      remover_->Insert(item.item.key(), item.item.priority()));
+      InsertIntoSelectors(item.item.key(), item.item.priority()));
 
   const auto key = item.item.key();
   auto it = data_.emplace(key, std::make_shared<Item>(std::move(item))).first;
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 2cf063d..4c6d755 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -400,6 +400,11 @@ class Table {
   absl::Status InsertOrAssignInternal(std::shared_ptr<Item> item)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
 
+  // Inserts the key into both `sampler_` and `remover_`, or into neither of them
+  // if an error is returned.
+  absl::Status InsertIntoSelectors(Key key, double priority)
+      ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Deletes the item associated with the key from `data_`, `sampler_` and
   // `remover_`. Ignores the key if it cannot be found.
   //
-- 
2.43.0


From ce204501eb5a5c39a390f18603634b18222edd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 03/32] fix: finish the InitializeConnection stream only once
 when the client misbehaves

Finish was called a second time after an unexpected request, which is undefined
behaviour in the gRPC callback API.
---
 reverb/cc/reverb_service_async_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 2915243..8b16060 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -361,6 +361,7 @@ ReverbServiceAsyncImpl::InitializeConnection(
 
       if (!request_.ownership_transferred()) {
         Finish(Internal("Received unexpected request"));
+        return;
       }
 
       Finish(grpc::Status::OK);
-- 
2.43.0


From b928540057cc650b85abff451f4e2ee9b46475e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 04/32] fix: drain the insert callback before destroying the
 insert reactor

The table's callback executor may be running continue_inserts_, which captures
the reactor, while gRPC deletes the reactor from OnDone.
---
 reverb/cc/reverb_service_async_impl.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 8b16060..37e2e2c 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -60,6 +60,10 @@ namespace {
 // remaining chunks are sent with other messages.
 static constexpr int64_t kMaxSampleResponseSizeBytes = 1 * 1024 * 1024;  // 1MB.
 
+// How often to check whether callback execution finished before deleting
+// reactor.
+static constexpr absl::Duration kCallbackWaitTime = absl::Milliseconds(1);
+
 inline grpc::Status TableNotFound(absl::string_view name) {
   return grpc::Status(grpc::StatusCode::NOT_FOUND,
                       absl::StrCat("Priority table ", name, " was not found"));
@@ -190,6 +194,17 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
       MaybeStartRead();
     }
 
+    ~WorkerlessInsertReactor() {
+      // As callback references Reactor's memory make sure it can't be executed
+      // anymore.
+      std::weak_ptr<std::function<void(const absl::Status&)>> weak_ptr =
+          continue_inserts_;
+      continue_inserts_.reset();
+      while (weak_ptr.lock()) {
+        absl::SleepFor(kCallbackWaitTime);
+      }
+    }
+
     grpc::Status ProcessIncomingRequest(InsertStreamRequest* request) override
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
       REVERB_CHECK(!request->chunks().empty() || request->has_item());
@@ -469,9 +484,6 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
     std::vector<std::shared_ptr<TableItem>> table_items;
   };
 
-  // How often to check whether callback execution finished before deleting
-  // reactor.
-  static constexpr absl::Duration kCallbackWaitTime = absl::Milliseconds(1);
   // Maximal number of queued SampleStreamResponse-messages waiting to be send
   // to the client. When this limit is reached enqueuing of sampling requests on
   // the target table is paused. The limit is in place to cap reactor's memory
-- 
2.43.0


From 036da083f446f818a987a9a3391087ed68286c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 05/32] fix: honour a rate limiter timeout of zero in the async
 server

Only a missing or negative timeout means never time out, both according to the
protocol definition and in the synchronous server.
---
 reverb/cc/reverb_service_async_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 37e2e2c..0bf17bc 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -562,7 +562,7 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
                          request->flexible_batch_size(), "."));
       }
       if (request->has_rate_limiter_timeout() &&
-          request->rate_limiter_timeout().milliseconds() > 0) {
+          request->rate_limiter_timeout().milliseconds() >= 0) {
         task_info_.timeout =
             absl::Milliseconds(request->rate_limiter_timeout().milliseconds());
       } else {
-- 
2.43.0


From 773406696085cb50c811886e6edd558fe1e7c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 06/32] fix: keep delta encoding enabled when chunker options
 are cloned

---
 reverb/cc/chunker.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/chunker.cc b/reverb/cc/chunker.cc
index e1b15ed..07ad803 100644
--- a/reverb/cc/chunker.cc
+++ b/reverb/cc/chunker.cc
@@ -382,8 +382,8 @@ void ConstantChunkerOptions::OnItemFinalized(
     absl::Span<const std::shared_ptr<CellRef>> refs) {}
 
 std::shared_ptr<ChunkerOptions> ConstantChunkerOptions::Clone() const {
-  return std::make_shared<ConstantChunkerOptions>(max_chunk_length_,
-                                                  num_keep_alive_refs_);
+  return std::make_shared<ConstantChunkerOptions>(
+      max_chunk_length_, num_keep_alive_refs_, delta_encode_);
 }
 
 AutoTunedChunkerOptions::AutoTunedChunkerOptions(int num_keep_alive_refs,
@@ -536,8 +536,8 @@ void AutoTunedChunkerOptions::PushChunks(
 }
 
 std::shared_ptr<ChunkerOptions> AutoTunedChunkerOptions::Clone() const {
-  return std::make_shared<AutoTunedChunkerOptions>(num_keep_alive_refs_,
-                                                   throughput_weight_);
+  return std::make_shared<AutoTunedChunkerOptions>(
+      num_keep_alive_refs_, throughput_weight_, delta_encode_);
 }
 
 }  // namespace reverb
-- 
2.43.0


From 46ab465cb0a7d25ab5692de183bd970ec1f1401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 07/32] fix: include the most recent completed event in the
 rate limiter history

---
 reverb/cc/rate_limiter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/rate_limiter.cc b/reverb/cc/rate_limiter.cc
index 0563005..3d5b7e1 100644
--- a/reverb/cc/rate_limiter.cc
+++ b/reverb/cc/rate_limiter.cc
@@ -302,11 +302,11 @@ std::vector<RateLimiterEvent> RateLimiter::StatsManager::GetEventHistory(
   const size_t max_event_id =
       active_.empty() ? next_event_id_
                       : *std::min_element(active_.begin(), active_.end());
-  if (max_event_id < min_event_id + 1) {
+  if (max_event_id <= min_event_id) {
     return {};
   }
 
-  std::vector<RateLimiterEvent> copy(max_event_id - min_event_id - 1);
+  std::vector<RateLimiterEvent> copy(max_event_id - min_event_id);
   for (size_t i = 0; i < copy.size(); i++) {
     copy[i] = events_[(min_event_id + i) % events_.size()];
   }
-- 
2.43.0


From d2c8f1858aeeb54be702277c9b2f94ad7f49b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 08/32] fix: Queue::PopBatch returns the remaining items once
 the last item has been pushed

---
 reverb/cc/support/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/support/queue.h b/reverb/cc/support/queue.h
index 2858ed6..8d960a1 100644
--- a/reverb/cc/support/queue.h
+++ b/reverb/cc/support/queue.h
@@ -116,7 +116,7 @@ class Queue {
       return absl::CancelledError("Queue is closed.");
     }
 
-    if (last_item_pushed_) {
+    if (pushes_ - pops_ < batch_size) {
       return absl::ResourceExhaustedError(absl::StrCat(
           "The last item have been pushed to the queue and the current size (",
           pushes_ - pops_, ") is less than the batch size (", batch_size, ").")
-- 
2.43.0


From 0bddcb99b577cc9531582e2a2a453ba34c03c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 09/32] fix: hold the GIL whenever the bindings raise
 exceptions or create Python objects

---
 reverb/pybind.cc | 69 ++++++++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/reverb/pybind.cc b/reverb/pybind.cc
index a66001b..aecb81e 100644
--- a/reverb/pybind.cc
+++ b/reverb/pybind.cc
@@ -570,10 +570,15 @@ PYBIND11_MODULE(libpybind, m) {
       .def(
           "info",
           [](Table *table) -> py::bytes {
-            // Return a serialized TableInfo proto bytes string.
-            return py::bytes(table->info().SerializeAsString());
-          },
-          py::call_guard<py::gil_scoped_release>())
+            std::string serialized_info;
+            {
+              py::gil_scoped_release g;
+              serialized_info = table->info().SerializeAsString();
+            }
+            // Return a serialized TableInfo proto bytes string. The GIL must
+            // be held when the Python object is created.
+            return py::bytes(serialized_info);
+          })
       .def("__repr__", &Table::DebugString,
            py::call_guard<py::gil_scoped_release>());
 
@@ -585,8 +590,14 @@ PYBIND11_MODULE(libpybind, m) {
            py::call_guard<py::gil_scoped_release>())
       .def(
           "Flush",
-          [](Writer *writer) { MaybeRaiseFromStatus(writer->Flush()); },
-          py::call_guard<py::gil_scoped_release>())
+          [](Writer *writer) {
+            absl::Status status;
+            {
+              py::gil_scoped_release g;
+              status = writer->Flush();
+            }
+            MaybeRaiseFromStatus(status);
+          })
       .def("Close", &Writer::Close, py::call_guard<py::gil_scoped_release>())
       .def("__repr__", &Writer::DebugString,
            py::call_guard<py::gil_scoped_release>());
@@ -636,14 +647,18 @@ PYBIND11_MODULE(libpybind, m) {
           [](Client *client, int chunk_length, int max_timesteps,
              bool delta_encoded, absl::optional<int> max_in_flight_items) {
             std::unique_ptr<Writer> writer;
-            MaybeRaiseFromStatus(
-                client->NewWriter(chunk_length, max_timesteps, delta_encoded,
-                                  std::move(max_in_flight_items), &writer));
+            absl::Status status;
+            {
+              py::gil_scoped_release g;
+              status =
+                  client->NewWriter(chunk_length, max_timesteps, delta_encoded,
+                                    std::move(max_in_flight_items), &writer);
+            }
+            MaybeRaiseFromStatus(status);
             return writer;
           },
-          py::call_guard<py::gil_scoped_release>(), py::arg("chunk_length"),
-          py::arg("max_timesteps"), py::arg("delta_encoded") = false,
-          py::arg("max_in_flight_items"))
+          py::arg("chunk_length"), py::arg("max_timesteps"),
+          py::arg("delta_encoded") = false, py::arg("max_in_flight_items"))
       .def(
           "NewSampler",
           [](Client *client, const std::string &table, int64_t max_samples,
@@ -652,11 +667,15 @@ PYBIND11_MODULE(libpybind, m) {
             Sampler::Options options;
             options.max_samples = max_samples;
             options.max_in_flight_samples_per_worker = buffer_size;
-            MaybeRaiseFromStatus(client->NewSamplerWithoutSignatureCheck(
-                table, options, &sampler));
+            absl::Status status;
+            {
+              py::gil_scoped_release g;
+              status = client->NewSamplerWithoutSignatureCheck(table, options,
+                                                               &sampler);
+            }
+            MaybeRaiseFromStatus(status);
             return sampler;
-          },
-          py::call_guard<py::gil_scoped_release>())
+          })
       .def("NewTrajectoryWriter",
            [](Client *client, std::shared_ptr<ChunkerOptions> chunker_options,
               absl::optional<int> get_signature_timeout_ms) {
@@ -834,19 +853,19 @@ PYBIND11_MODULE(libpybind, m) {
 
             absl::Status status;
             py::dtype dtype;
+            internal::TensorSpec spec;
             {
               py::gil_scoped_release g;
-              internal::TensorSpec spec;
               status = sp->GetSpec(&spec);
-
+            }
+            // Python objects may only be accessed while holding the GIL.
+            if (status.ok()) {
+              PyArray_Descr *descr = nullptr;
+              status = FromTensorflowStatus(
+                  GetPyDescrFromDataType(spec.dtype, &descr));
               if (status.ok()) {
-                PyArray_Descr *descr = nullptr;
-                status = FromTensorflowStatus(
-                    GetPyDescrFromDataType(spec.dtype, &descr));
-                if (status.ok()) {
-                  dtype = py::reinterpret_steal<py::dtype>(
-                      reinterpret_cast<PyObject *>(descr));
-                }
+                dtype = py::reinterpret_steal<py::dtype>(
+                    reinterpret_cast<PyObject *>(descr));
               }
             }
             MaybeRaiseFromStatus(status);
-- 
2.43.0


From 353307e5ef203985c0b3db11127096fd58f209fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 10/32] fix: track asynchronous extensions added to or cleared
 from a running table

has_async_extensions_ was only set by EnableTableWorker, so the hooks of an
asynchronous extension added later were never called.
---
 reverb/cc/table.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 5c9ecaf..d8e6ee1 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -1075,6 +1075,7 @@ void Table::UnsafeAddExtension(std::shared_ptr<TableExtension> extension) {
   if (extension->CanRunAsync() && extension_worker_) {
     absl::MutexLock lock(&async_extensions_mu_);
     async_extensions_.push_back(std::move(extension));
+    has_async_extensions_ = true;
   } else {
     sync_extensions_.push_back(std::move(extension));
   }
@@ -1122,6 +1123,7 @@ std::vector<std::shared_ptr<TableExtension>> Table::UnsafeClearExtensions() {
       extensions.push_back(extension);
     }
     async_extensions_.clear();
+    has_async_extensions_ = false;
   }
 
   for (auto& extension : extensions) {
-- 
2.43.0


From fb39e44b5bc8abc80a36d1afd8f23eaaa35c1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 11/32] fix: report rate limiter timeouts and deregister the
 cancellation callback when emitting timesteps

A failed GetNextTimestep was counted as a step, so with sequence_length == 1 a
rate limiter timeout was reported as an invalid sequence, and both validation
errors returned without deregistering the callback capturing the iterator.
---
 reverb/cc/ops/dataset.cc | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/reverb/cc/ops/dataset.cc b/reverb/cc/ops/dataset.cc
index 8114af7..5e15aa1 100644
--- a/reverb/cc/ops/dataset.cc
+++ b/reverb/cc/ops/dataset.cc
@@ -353,22 +353,23 @@ class ReverbDatasetOp : public tensorflow::data::DatasetOpKernel {
           status = ToTensorflowStatus(sampler_->GetNextTimestep(
               out_tensors, &last_timestep, &rate_limited_));
 
-          step_within_sample_++;
-
-          if (last_timestep && sequence_length_ > 0 &&
-              step_within_sample_ != sequence_length_) {
-            return InvalidArgument(
-                "Received sequence of invalid length. Expected ",
-                sequence_length_, " steps, got ", step_within_sample_);
-          }
-          if (step_within_sample_ == sequence_length_ && !last_timestep) {
-            return InvalidArgument(
-                "Received sequence did not terminate after expected number of "
-                "steps (",
-                sequence_length_, ").");
-          }
-          if (last_timestep) {
-            step_within_sample_ = 0;
+          if (status.ok()) {
+            step_within_sample_++;
+
+            if (last_timestep && sequence_length_ > 0 &&
+                step_within_sample_ != sequence_length_) {
+              status = InvalidArgument(
+                  "Received sequence of invalid length. Expected ",
+                  sequence_length_, " steps, got ", step_within_sample_);
+            } else if (step_within_sample_ == sequence_length_ &&
+                       !last_timestep) {
+              status = InvalidArgument(
+                  "Received sequence did not terminate after expected number "
+                  "of steps (",
+                  sequence_length_, ").");
+            } else if (last_timestep) {
+              step_within_sample_ = 0;
+            }
           }
         } else {
           status = ToTensorflowStatus(
-- 
2.43.0


From 4a8e96fb719e3bb2c70d06e17e2d901fe5abb52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 12/32] fix: make the flag shared with the signal handler and
 the stop worker atomic

---
 reverb/cc/platform/default/server.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/platform/default/server.cc b/reverb/cc/platform/default/server.cc
index d14321d..dd9b2eb 100644
--- a/reverb/cc/platform/default/server.cc
+++ b/reverb/cc/platform/default/server.cc
@@ -15,6 +15,7 @@
 #include "reverb/cc/platform/server.h"
 
 #include <chrono>  // NOLINT(build/c++11) - grpc API requires it.
+#include <atomic>
 #include <csignal>
 #include <memory>
 
@@ -143,7 +144,7 @@ class ServerImpl : public Server {
   // bool flag to true from the signal handler and deligate the actuall call
   // to Stop to a worker thread which periodically wakes up to check if Stop
   // should be called.
-  bool stop_signalled_ = false;
+  std::atomic<bool> stop_signalled_{false};
   internal::PeriodicClosure signal_worker_;
 };
 
-- 
2.43.0


From 81f720e3ff69cbe2e22d1eef88d5a8b4fdd7a646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 13/32] fix: do not miss Close in the trajectory writer's
 stream worker

If Close was called between GetNextPendingItem and the wait for an incomplete
chunk then its signal was lost and Close blocked forever joining the worker.
---
 reverb/cc/trajectory_writer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index d60bf52..17c67e1 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -513,8 +513,10 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
         // Do a final check that the chunks didn't change since the lock was
         // last held. If the item still references incomplete chunks then we
         // sleep until the chunks changed. If all the chunks are now completed
-        // then we move straight to the top of the loop.
-        if (!AllReady(item_and_refs.refs)) {
+        // then we move straight to the top of the loop. The same applies if the
+        // writer was closed while the lock was not held since there might be
+        // no further signals.
+        if (!closed_ && !AllReady(item_and_refs.refs)) {
           data_cv_.Wait(&mu_);
         }
         continue;
-- 
2.43.0


From 46d4f802968e9d0cf1decc418269c136959b60af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 14/32] fix: access the chunkers from the stream worker only
 while holding the lock

Appending a column for the first time modified the map while the stream worker
iterated over it.
---
 reverb/cc/trajectory_writer.cc | 13 ++++++++++---
 reverb/cc/trajectory_writer.h  |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index 17c67e1..e8c3b1c 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -219,10 +219,14 @@ absl::Status TrajectoryWriter::AppendInternal(
       const std::shared_ptr<ChunkerOptions>& chunker_options =
           options_override_.contains(i) ? options_override_[i]
                                         : options_.chunker_options;
-      chunkers_[i] = std::make_shared<Chunker>(
+      auto chunker = std::make_shared<Chunker>(
           internal::TensorSpec{std::to_string(i), tensor.dtype(),
                                tensor.shape()},
           chunker_options->Clone());
+
+      // The stream worker iterates over the chunkers.
+      absl::MutexLock lock(&mu_);
+      chunkers_[i] = std::move(chunker);
     }
   }
 
@@ -529,8 +533,11 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
       streamed_chunk_keys = GetKeepKeys(streamed_chunk_keys);
     }
 
-    for (auto& [_, chunker] : chunkers_) {
-      chunker->OnItemFinalized(item_and_refs.item, item_and_refs.refs);
+    {
+      absl::MutexLock lock(&mu_);
+      for (auto& [_, chunker] : chunkers_) {
+        chunker->OnItemFinalized(item_and_refs.item, item_and_refs.refs);
+      }
     }
 
     // All chunks have been written to the stream so the item can now be
diff --git a/reverb/cc/trajectory_writer.h b/reverb/cc/trajectory_writer.h
index f165286..4eb52b1 100644
--- a/reverb/cc/trajectory_writer.h
+++ b/reverb/cc/trajectory_writer.h
@@ -272,7 +272,8 @@ class TrajectoryWriter {
 
   // Mapping from column index to Chunker. Shared pointers are used as the
   // `CellRef`s created by the chunker will own a weak_ptr created using
-  // `weak_from_this()` on the Chunker.
+  // `weak_from_this()` on the Chunker. Only modified by the thread that appends
+  // data, while holding `mu_`. All other threads must hold `mu_` to access it.
   internal::flat_hash_map<int, std::shared_ptr<Chunker>> chunkers_;
 
   mutable absl::Mutex mu_;
-- 
2.43.0


From 0a003c270ca4653c7665203da0718e5ffb8366cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 15/32] fix: read the chunker options under the lock when an
 item is finalized

---
 reverb/cc/chunker.cc | 7 ++++++-
 reverb/cc/chunker.h  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/chunker.cc b/reverb/cc/chunker.cc
index 07ad803..077cb45 100644
--- a/reverb/cc/chunker.cc
+++ b/reverb/cc/chunker.cc
@@ -337,7 +337,12 @@ void Chunker::OnItemFinalized(const PrioritizedItem& item,
     }
   }
   if (!child_refs.empty()) {
-    options_->OnItemFinalized(item, child_refs);
+    std::shared_ptr<ChunkerOptions> options;
+    {
+      absl::MutexLock lock(&mu_);
+      options = options_;
+    }
+    options->OnItemFinalized(item, child_refs);
   }
 }
 
diff --git a/reverb/cc/chunker.h b/reverb/cc/chunker.h
index 0555ca5..2df9fbd 100644
--- a/reverb/cc/chunker.h
+++ b/reverb/cc/chunker.h
@@ -208,7 +208,7 @@ class Chunker : public std::enable_shared_from_this<Chunker> {
 
   // Provides max chunk length and the number of references to keep alive.
   // Values may change over time depending on the implementation.
-  std::shared_ptr<ChunkerOptions> options_;
+  std::shared_ptr<ChunkerOptions> options_ ABSL_GUARDED_BY(mu_);
 
   mutable absl::Mutex mu_;
 
-- 
2.43.0


From 920993c50c410fdd854d60c44a35300eeb60d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 16/32] fix: do not lose the table worker wake-up when the
 table is modified just before the worker sleeps

MutateItems and Reset change the state of the rate limiter while holding mu_ and
signal wakeup_worker_ afterwards. When this happened after the worker had found
that no pending operation may proceed (mu_ released) but before it waited
(worker_mu_), the signal was lost (or not sent, the worker still being marked as
running) and operations which had become admissible stayed blocked.
---
 reverb/cc/table.cc | 8 ++++++++
 reverb/cc/table.h  | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index d8e6ee1..43828c6 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -330,6 +330,12 @@ absl::Status Table::TableWorkerLoop() {
         if (stop_worker_) {
           return absl::OkStatus();
         }
+        if (table_mutated_) {
+          // The table was modified after (or while) the pending operations were
+          // processed above so some of them may be able to proceed now.
+          table_mutated_ = false;
+          continue;
+        }
         if (sample_idx < current_sampling.size() ||
             insert_idx < current_inserts.size()) {
           worker_state_ = TableWorkerState::kBlocked;
@@ -638,6 +644,7 @@ absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
   // explicitly.
   if (table_worker_) {
     absl::MutexLock lock(&worker_mu_);
+    table_mutated_ = true;
     if (worker_state_ != TableWorkerState::kRunning) {
       wakeup_worker_.Signal();
     }
@@ -987,6 +994,7 @@ absl::Status Table::Reset() {
     deleted_items_.clear();
     // Wakeup worker in case it has pending inserts which couldn't make progress
     // before.
+    table_mutated_ = true;
     wakeup_worker_.Signal();
   }
   return absl::OkStatus();
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 4c6d755..711e0d1 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -519,6 +519,11 @@ class Table {
   // worker.
   bool stop_worker_ ABSL_GUARDED_BY(worker_mu_) = false;
 
+  // Has the table been modified by a client since the worker last went to
+  // sleep. Prevents the worker from going to sleep when the modification happens
+  // after it checked which operations can proceed but before it fell asleep.
+  bool table_mutated_ ABSL_GUARDED_BY(worker_mu_) = false;
+
   // Used for waking up a table worker when asleep.
   absl::CondVar wakeup_worker_ ABSL_GUARDED_BY(worker_mu_);
 
-- 
2.43.0


From 910558c6136ad607624ee1f8847bf0ace28e05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 17/32] fix: annotate extension_requests_ as guarded by mu_

---
 reverb/cc/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 711e0d1..fa1d3af 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -537,7 +537,7 @@ class Table {
   std::unique_ptr<internal::Thread> extension_worker_;
 
   // Pending extension requests to be processed by the extension worker.
-  std::vector<ExtensionRequest> extension_requests_ ABSL_ACQUIRED_BEFORE(mu_);
+  std::vector<ExtensionRequest> extension_requests_ ABSL_GUARDED_BY(mu_);
 
   // Used for waking up extension worker when asleep.
   absl::CondVar extension_work_available_cv_ ABSL_GUARDED_BY(mu_);
-- 
2.43.0


From ba1aaaa2ccd8d905e99e906a19f68dae64248ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 18/32] fix: count only completed checkpoints towards
 keep_latest

Save kept the newest keep_latest entries of the root directory, complete or
not. The directory of a concurrent or interrupted save with a later name took
the place of the last loadable checkpoint, which was then deleted: Save could
return OK with the path of a checkpoint it had just removed.
---
 reverb/cc/platform/tfrecord_checkpointer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index 81848d5..c60a485 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -208,9 +208,14 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
       FromTensorflowStatus(tensorflow::Env::Default()->GetMatchingPaths(
           tensorflow::io::JoinPath(root_dir_, "*"), &filenames)));
   std::sort(filenames.begin(), filenames.end());
+  // Only completed checkpoints count towards `keep_latest`. Otherwise the
+  // directory of a save which is still in progress, or which was interrupted,
+  // could take the place of the last checkpoint that can be loaded.
   int history_counter = 0;
   for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
-    if (++history_counter > keep_latest) {
+    if (history_counter < keep_latest) {
+      if (HasDone(*it)) ++history_counter;
+    } else {
       tensorflow::int64 undeleted_files;
       tensorflow::int64 undeleted_dirs;
       REVERB_RETURN_IF_ERROR(
-- 
2.43.0


From 097dccf13f0d22548b8597f94ba1a051d4299be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 19/32] fix: Writer::Close reports that sent items were never
 confirmed

---
 reverb/cc/writer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index a61580c..c715330 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -369,11 +369,12 @@ absl::Status Writer::Close(bool retry_on_unavailable) {
           << "The Writer will be closed although the server was Unavailable";
     }
   }
+  absl::Status confirmation_status;
   if (stream_) {
     stream_->WritesDone();
     REVERB_LOG_IF(REVERB_ERROR, !ConfirmItems(0))
         << "Unable to confirm that items were written.";
-    auto confirmation_status = StopItemConfirmationWorker();
+    confirmation_status = StopItemConfirmationWorker();
     REVERB_LOG_IF(REVERB_ERROR, !confirmation_status.ok())
         << "Error when stopping the confirmation worker: "
         << confirmation_status;
@@ -386,7 +387,9 @@ absl::Status Writer::Close(bool retry_on_unavailable) {
   }
   chunks_.clear();
   closed_ = true;
-  return absl::OkStatus();
+  // The writer is closed but items which were sent might never have been
+  // inserted.
+  return confirmation_status;
 }
 
 absl::Status Writer::Finish(bool retry_on_unavailable) {
-- 
2.43.0


From 8d645bd15b719169fe723da9f95c432490095b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 20/32] fix: NewSampler returns errors of the signature lookup

---
 reverb/cc/client.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reverb/cc/client.cc b/reverb/cc/client.cc
index 486d5e6..1976f03 100644
--- a/reverb/cc/client.cc
+++ b/reverb/cc/client.cc
@@ -187,6 +187,8 @@ absl::Status Client::NewSampler(const std::string& table,
         << "). We were thus unable to fetch signature from server. The "
            "sampler will be constructed without validating the dtypes "
            "and shapes.";
+  } else if (!status.ok()) {
+    return status;
   }
 
   return NewSampler(table, options, std::move(dtypes_and_shapes), sampler);
-- 
2.43.0


From 6e2ae1fdca7b0a629208962e6b0c88f2da7e0b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 21/32] fix: check that decompression of a tensor succeeded

---
 reverb/cc/tensor_compression.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reverb/cc/tensor_compression.cc b/reverb/cc/tensor_compression.cc
index 169a5eb..9995a1e 100644
--- a/reverb/cc/tensor_compression.cc
+++ b/reverb/cc/tensor_compression.cc
@@ -100,9 +100,9 @@ tensorflow::Tensor DecompressTensorFromProto(
     tensorflow::Tensor tensor(proto.dtype(),
                               tensorflow::TensorShape(proto.tensor_shape()));
     const auto& tensor_content = proto.tensor_content();
-    SnappyUncompressToString(tensor_content,
-                             tensor.tensor_data().size(),
-                             const_cast<char*>(tensor.tensor_data().data()));
+    REVERB_CHECK(SnappyUncompressToString(
+        tensor_content, tensor.tensor_data().size(),
+        const_cast<char*>(tensor.tensor_data().data())));
     return tensor;
   }
 }
-- 
2.43.0


From 44265422fd20c48d6e8eab81813887606375075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 22/32] fix: finish a stream that was cancelled while its
 reactor waited for the table

---
 reverb/cc/reverb_server_table_reactor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reverb/cc/reverb_server_table_reactor.h b/reverb/cc/reverb_server_table_reactor.h
index 84cc327..5987bae 100644
--- a/reverb/cc/reverb_server_table_reactor.h
+++ b/reverb/cc/reverb_server_table_reactor.h
@@ -209,6 +209,10 @@ void ReverbServerTableReactor<Request, Response,
   absl::MutexLock lock(&mu_);
   if (still_reading_ && !is_cancelled_ && !is_finished_) {
     grpc::ServerBidiReactor<Request, Response>::StartRead(&request_);
+  } else if (ShouldFinish()) {
+    // The stream was cancelled while there was no read or write in progress so
+    // there won't be any other callback which could finish the reactor.
+    SetReactorAsFinished(grpc::Status::OK);
   }
 }
 
-- 
2.43.0


From 6d9b2d9c2580b1f343378887bdb3c3729361cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 23/32] fix: do not request samples for a finished stream

---
 reverb/cc/reverb_service_async_impl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 0bf17bc..79d7a7e 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -585,6 +585,11 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
 
    private:
     void MaybeStartSampling() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
+      if (is_finished_) {
+        // Nobody will receive the samples and the reactor may be destroyed as
+        // soon as the callback returns.
+        return;
+      }
       const int next_batch_size = task_info_.NextSampleSize();
       if (next_batch_size == 0) {
         // Current request has been fully processed.
-- 
2.43.0


From f5e7b9b336e859375c6ea5e587f56688b77a9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 24/32] fix: do not read the response after the call was
 finished

---
 reverb/cc/reverb_service_async_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 79d7a7e..f2bb5e6 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -160,9 +160,10 @@ grpc::ServerUnaryReactor* ReverbServiceAsyncImpl::Checkpoint(
 
   auto status = checkpointer_->Save(std::move(tables), 1,
                                     response->mutable_checkpoint_path());
-  reactor->Finish(ToGrpcStatus(status));
+  // `response` must not be accessed once the call has been finished.
   REVERB_LOG_IF(REVERB_INFO, status.ok())
       << "Stored checkpoint to " << response->checkpoint_path();
+  reactor->Finish(ToGrpcStatus(status));
   return reactor;
 }
 
-- 
2.43.0


From 5d31b92e15faae4e5fe98130a6f7d005570a2151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 25/32] fix: only merge consecutive rows of a chunk into one
 slice

---
 reverb/cc/trajectory_writer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index e8c3b1c..72aeae6 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -52,7 +52,9 @@ std::vector<FlatTrajectory::ChunkSlice> MergeAdjacent(
     std::shared_ptr<CellRef> ref_sp = ref.lock();
     REVERB_CHECK(ref_sp);
 
-    if (slices.empty() || slices.back().chunk_key() != ref_sp->chunk_key()) {
+    // Cells can only share a slice if they are consecutive rows of the chunk.
+    if (slices.empty() || slices.back().chunk_key() != ref_sp->chunk_key() ||
+        slices.back().offset() + slices.back().length() != ref_sp->offset()) {
       FlatTrajectory::ChunkSlice slice;
       slice.set_chunk_key(ref_sp->chunk_key());
       slice.set_offset(ref_sp->offset());
-- 
2.43.0


From ac4073733866e6bdfb35b7800b30a0d44ea8ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 26/32] fix: reject trajectory columns without any reference

---
 reverb/cc/trajectory_writer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index 72aeae6..97a96bf 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -676,6 +676,10 @@ TrajectoryColumn::TrajectoryColumn(std::vector<std::weak_ptr<CellRef>> refs,
     : refs_(std::move(refs)), squeeze_(squeeze) {}
 
 absl::Status TrajectoryColumn::Validate() const {
+  if (refs_.empty()) {
+    return absl::InvalidArgumentError("Column must not be empty.");
+  }
+
   std::vector<std::shared_ptr<CellRef>> locked_refs;
   if (!LockReferences(&locked_refs)) {
     return absl::InvalidArgumentError("Column contains expired CellRef.");
-- 
2.43.0


From 3291c2b9de8d102f7fd5583e5ab5f702d8e3a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 27/32] fix: reject slices of a chunk with a negative or
 overflowing length

---
 reverb/cc/support/trajectory_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/support/trajectory_util.cc b/reverb/cc/support/trajectory_util.cc
index 704c697..bf02fbf 100644
--- a/reverb/cc/support/trajectory_util.cc
+++ b/reverb/cc/support/trajectory_util.cc
@@ -163,7 +163,8 @@ absl::Status UnpackChunkColumnAndSlice(const ChunkData& chunk_data, int column,
                                        tensorflow::Tensor* out) {
   REVERB_RETURN_IF_ERROR(UnpackChunkColumn(chunk_data, column, out));
 
-  if (offset < 0 || offset + length > out->shape().dim_size(0)) {
+  if (offset < 0 || length < 0 ||
+      offset > out->shape().dim_size(0) - length) {
     return absl::InvalidArgumentError(absl::StrCat(
         "Cannot slice (", offset, ", ", offset + length,
         ") out of tensor with shape ", out->shape().DebugString(), "."));
-- 
2.43.0


From 020c63543c6855206daf8bf7df8778b4fa9cc644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 28/32] fix: reject items of the legacy writer with more steps
 than are buffered

---
 reverb/cc/writer.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index c715330..4a7b16c 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -156,6 +156,9 @@ absl::Status Writer::CreateItem(const std::string& table, int num_timesteps,
     return absl::FailedPreconditionError(
         "Calling method CreateItem after Close has been called");
   }
+  if (num_timesteps < 1) {
+    return absl::InvalidArgumentError("`num_timesteps` must be positive.");
+  }
   if (num_timesteps > chunks_.size() * chunk_length_ + buffer_.size()) {
     return absl::InvalidArgumentError(
         "Argument `num_timesteps` is larger than number of buffered "
@@ -251,6 +254,13 @@ absl::Status Writer::CreateItem(const std::string& table, int num_timesteps,
     remaining -= chunk_lengths.back();
   }
 
+  // Chunks can be shorter than `chunk_length_` if they were created by a flush.
+  if (remaining > 0) {
+    return absl::InvalidArgumentError(
+        "Argument `num_timesteps` is larger than number of buffered "
+        "timesteps.");
+  }
+
   // Reverse the chunk order.
   std::reverse(chunk_lengths.begin(), chunk_lengths.end());
   std::reverse(chunk_keys.begin(), chunk_keys.end());
-- 
2.43.0


From 0fcf49d49fd9dac5ea8b1d0cbef1cc52149fd23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 29/32] fix: count only the remaining timesteps when checking
 that a sample can be decomposed

---
 reverb/cc/sampler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/sampler.cc b/reverb/cc/sampler.cc
index 0109576..9a4b5db 100644
--- a/reverb/cc/sampler.cc
+++ b/reverb/cc/sampler.cc
@@ -779,7 +779,8 @@ bool Sample::is_composed_of_timesteps() const {
       // Note that we can safely assume that the tensor is not a scalar since a
       // batch dimension is always added when building a chunk. A scalar would
       // thus be represented as a tensor of shape [1].
-      column_length += column_slice.tensor.dim_size(0);
+      // Timesteps that were already returned are not counted.
+      column_length += column_slice.tensor.dim_size(0) - column_slice.offset;
     }
 
     if (prev_column_length != -1 && prev_column_length != column_length) {
-- 
2.43.0


From 727fc1b295172a08a38d7dfec0f19007e285dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 30/32] fix: honour the timeout of every request of a sample
 stream

The synchronous service used the timeout of the first request of a stream for
all requests that follow, so a request with a timeout blocked forever if the
first one had none.
---
 reverb/cc/reverb_service_impl.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index 148946f..d4185d2 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -281,13 +281,15 @@ grpc::Status ReverbServiceImpl::SampleStreamInternal(
   if (!stream->Read(&request)) {
     return Internal("Could not read initial request");
   }
-  absl::Duration timeout =
-      absl::Milliseconds(request.has_rate_limiter_timeout()
-                             ? request.rate_limiter_timeout().milliseconds()
-                             : -1);
-  if (timeout < absl::ZeroDuration()) timeout = absl::InfiniteDuration();
 
   do {
+    // Every request of the stream comes with its own timeout.
+    absl::Duration timeout =
+        absl::Milliseconds(request.has_rate_limiter_timeout()
+                               ? request.rate_limiter_timeout().milliseconds()
+                               : -1);
+    if (timeout < absl::ZeroDuration()) timeout = absl::InfiniteDuration();
+
     if (request.num_samples() <= 0) {
       return grpc::Status(grpc::StatusCode::INVALID_ARGUMENT,
                           "`num_samples` must be > 0.");
-- 
2.43.0


From fbe3cbdef007c5657bfd28122cf700e36957c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 31/32] fix: release the GIL while a server starts and loads
 its checkpoint

---
 reverb/pybind.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/reverb/pybind.cc b/reverb/pybind.cc
index aecb81e..b2148d1 100644
--- a/reverb/pybind.cc
+++ b/reverb/pybind.cc
@@ -778,8 +778,14 @@ PYBIND11_MODULE(libpybind, m) {
                       int port,
                       std::shared_ptr<Checkpointer> checkpointer = nullptr) {
             std::unique_ptr<Server> server;
-            MaybeRaiseFromStatus(StartServer(std::move(priority_tables), port,
-                                             std::move(checkpointer), &server));
+            absl::Status status;
+            {
+              // Loading a checkpoint can take a long time.
+              py::gil_scoped_release g;
+              status = StartServer(std::move(priority_tables), port,
+                                   std::move(checkpointer), &server);
+            }
+            MaybeRaiseFromStatus(status);
             return server.release();
           }),
           py::arg("priority_tables"), py::arg("port"),
-- 
2.43.0


From c3419d851b54191dd2e230e20210a97c4841a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 32/32] fix: convert byte-swapped arrays to the native byte
 order

---
 reverb/pybind.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reverb/pybind.cc b/reverb/pybind.cc
index b2148d1..fb3b608 100644
--- a/reverb/pybind.cc
+++ b/reverb/pybind.cc
@@ -306,12 +306,14 @@ inline tensorflow::Status VerifyDtypeIsSupported(
 tensorflow::Status NdArrayToTensor(PyObject *ndarray,
                                    tensorflow::Tensor *out_tensor) {
   DCHECK(out_tensor != nullptr);
-  auto array_safe = make_safe(PyArray_FromAny(
+  // The buffer is copied as it is so it must be contiguous and have the native
+  // byte order. `PyArray_FromAny` ignores `NPY_ARRAY_NOTSWAPPED`.
+  auto array_safe = make_safe(PyArray_CheckFromAny(
       /*op=*/ndarray,
       /*dtype=*/nullptr,
       /*min_depth=*/0,
       /*max_depth=*/0,
-      /*requirements=*/NPY_ARRAY_CARRAY_RO,
+      /*requirements=*/NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED,
       /*context=*/nullptr));
   if (!array_safe) {
     return tensorflow::errors::InvalidArgument(
-- 
2.43.0

