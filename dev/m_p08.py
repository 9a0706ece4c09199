P = ["P08"]
M = [
 ("wait_if", P, "bad", [("rate_limiter.cc", "    while (!cancelled_ && !CanInsert(mu, 1)) {", "    if (!cancelled_ && !CanInsert(mu, 1)) {")]),
 ("no_cancel_cond", P, "bad", [("rate_limiter.cc", "    while (!cancelled_ && !CanSample(mu, 1)) {", "    while (!CanSample(mu, 1)) {")]),
 ("ext_space_if", P, "bad", [("table.cc", "  while (extension_requests_.size() >= max_enqueued_extension_ops_) {", "  if (extension_requests_.size() >= max_enqueued_extension_ops_) {")]),
 ("buffer_signal1", P, "bad", [("table.cc", "extension_buffer_available_cv_.SignalAll();", "extension_buffer_available_cv_.Signal();")]),
 ("buffer_gt", P, "ok", [("table.cc", "      if (extension_requests.size() >= max_enqueued_extension_ops_) {\n", "      bool full = extension_requests.size() >= max_enqueued_extension_ops_;\n      if (full) {\n")]),
 ("buffer_cond", P, "bad", [("table.cc", "      if (extension_requests.size() >= max_enqueued_extension_ops_) {\n", "      if (has_async_extensions_) {\n")]),
 ("ext_stop_order", P, "bad", [("table.cc", "  table_worker_ = nullptr;\n  {\n    absl::MutexLock lock(&mu_);\n    stop_extension_worker_ = true;\n    extension_work_available_cv_.SignalAll();\n  }\n", "  {\n    absl::MutexLock lock(&mu_);\n    stop_extension_worker_ = true;\n    extension_work_available_cv_.SignalAll();\n  }\n  table_worker_ = nullptr;\n")]),
 ("stop_nosig", P, "bad", [("table.cc", "    stop_extension_worker_ = true;\n    extension_work_available_cv_.SignalAll();\n", "    stop_extension_worker_ = true;\n")]),
 ("stop_sig_first", P, "bad", [("table.cc", "    absl::MutexLock lock(&mu_);\n    stop_extension_worker_ = true;\n    extension_work_available_cv_.SignalAll();\n", "    extension_work_available_cv_.SignalAll();\n    absl::MutexLock lock(&mu_);\n    stop_extension_worker_ = true;\n")]),
 ("stop_sig_order_ok", P, "ok", [("table.cc", "    stop_extension_worker_ = true;\n    extension_work_available_cv_.SignalAll();\n", "    extension_work_available_cv_.SignalAll();\n    stop_extension_worker_ = true;\n")]),
 ("worker_nostop", P, "bad", [("table.cc", "        if (stop_worker_) {\n          return absl::OkStatus();\n        }\n", "        if (stop_worker_ && insert_idx == current_inserts.size()) {\n          return absl::OkStatus();\n        }\n")]),
 ("ext_nostop", P, "bad", [("table.cc", "        if (stop_extension_worker_) {\n          return absl::OkStatus();\n        }\n", "        if (stop_extension_worker_ && !has_async_extensions_) {\n          return absl::OkStatus();\n        }\n")]),
 ("tw_closed_cond", P, "bad", [("trajectory_writer.cc", "        return !w->write_queue_.empty() || w->closed_;\n", "        return !w->write_queue_.empty();\n")]),
 ("tw_closed_wait", P, "bad", [("trajectory_writer.cc", "        if (!closed_ && !AllReady(item_and_refs.refs)) {", "        if (!AllReady(item_and_refs.refs)) {")]),
 ("tw_close_nosig", P, "bad", [("trajectory_writer.cc", "    // incomplete chunks and the worker is waiting for that to change.\n    data_cv_.Signal();\n", "")]),
 ("tw_close_nocancel", P, "bad", [("trajectory_writer.cc", "    if (context_ != nullptr) {\n      context_->TryCancel();\n    }\n", "")]),
 ("tw_append_nosig", P, "bad", [("trajectory_writer.cc", "  // incomplete chunks\n  data_cv_.Signal();\n", "")]),
 ("tw_append_condsig", P, "bad", [("trajectory_writer.cc", "  if (increment_episode_step) {\n    episode_step_++;\n  }\n\n  // Wake up stream worker in case it was blocked on items referencing\n  // incomplete chunks\n  data_cv_.Signal();\n", "  if (increment_episode_step) {\n    episode_step_++;\n    data_cv_.Signal();\n  }\n")]),
 ("tw_flush_nosig", P, "bad", [("trajectory_writer.cc", "  // can be woken up.\n  data_cv_.Signal();\n", "")]),
 ("tw_flush_status", P, "bad", [("trajectory_writer.cc", "    if (!unrecoverable_status_.ok()) {\n      return true;\n    }\n", "")]),
 ("sampler_nocancel", P, "bad", [("sampler.cc", "  for (auto& worker : workers_) {\n    worker->Cancel();\n  }\n\n", "")]),
 ("sampler_noqueue", P, "bad", [("sampler.cc", "  samples_.Close();\n  worker_threads_.clear();", "  worker_threads_.clear();")]),
 ("sampler_noclosed", P, "bad", [("sampler.cc", "  return closed_ || returned_ == max_samples_ || !worker_status_.ok();", "  return returned_ == max_samples_ || !worker_status_.ok();")]),
 ("sampler_andclosed", P, "bad", [("sampler.cc", "  return closed_ || returned_ == max_samples_ || !worker_status_.ok();", "  return (closed_ && requested_ == returned_) || returned_ == max_samples_ || !worker_status_.ok();")]),
 ("queue_pop_closed", P, "bad", [("support/queue.h", "        return q->closed_ || q->pushes_ > q->pops_; }, this));", "        return q->pushes_ > q->pops_ || (q->closed_ && q->last_item_pushed_); }, this));")]),
 ("queue_push_closed", P, "bad", [("support/queue.h", "          return q->closed_ || q->last_item_pushed_ ||\n", "          return q->last_item_pushed_ ||\n")]),
 ("queue_batch_closed", P, "bad", [("support/queue.h", "      return closed_ || pushes_ - pops_ >= batch_size || last_item_pushed_;", "      return pushes_ - pops_ >= batch_size || last_item_pushed_;")]),
 ("uq_closed", P, "bad", [("support/unbounded_queue.h", "return q->closed_ || q->size_ > 0;", "return q->size_ > 0;")]),
 ("writer_stop", P, "bad", [("writer.cc", "            return w->num_items_in_flight_ > 0 ||\n                   w->item_confirmation_worker_stop_requested_;\n", "            return w->num_items_in_flight_ > 0;\n")]),
 ("writer_confirm", P, "bad", [("writer.cc", "    return num_items_in_flight_ <= limit || !item_confirmation_worker_running_;\n", "    return num_items_in_flight_ <= limit;\n")]),
 ("pc_stop", P, "bad", [("support/periodic_closure.cc", "    stopped_ = true;\n  }\n  worker_ = nullptr;  // Join thread.\n", "  }\n  worker_ = nullptr;  // Join thread.\n  absl::MutexLock l(&mu_);\n  stopped_ = true;\n")]),
 ("te_close", P, "bad", [("support/task_executor.cc", "  queue_.SetLastItemPushed();\n", "")]),
 ("tkw_close", P, "bad", [("task_worker.h", "  queue_.SetLastItemPushed();\n", "")]),
 ("cs_close", P, "bad", [("chunk_store.cc", "  delete_keys_->Close();\n", "")]),
 ("ok_loop", P, "ok", [("rate_limiter.cc", "    while (!cancelled_ && !CanSample(mu, 1)) {\n      event.set_was_blocked();\n      if (can_sample_cv_.WaitWithDeadline(mu, deadline)) {\n        return errors::RateLimiterTimeout();\n      }\n    }\n", "    for (;;) {\n      const bool stopped = cancelled_;\n      if (stopped || CanSample(mu, 1)) break;\n      event.set_was_blocked();\n      const bool expired = can_sample_cv_.WaitWithDeadline(mu, deadline);\n      if (expired) return errors::RateLimiterTimeout();\n    }\n")]),
 ("ok_closed_helper", P, "ok", [("sampler.cc", "  {\n    absl::WriterMutexLock lock(&mu_);\n    if (closed_) return;\n    closed_ = true;\n  }\n\n  for (auto& worker : workers_) {\n    worker->Cancel();\n  }\n", "  {\n    absl::WriterMutexLock lock(&mu_);\n    if (closed_) {\n      return;\n    } else {\n      closed_ = true;\n    }\n  }\n\n  for (size_t i = 0; i < workers_.size(); ++i) {\n    auto* w = workers_[i].get();\n    w->Cancel();\n  }\n")]),
 ("ok_await", P, "ok", [("trajectory_writer.cc", "  mu_.Await(absl::Condition(\n      +[](const TrajectoryWriter* w) ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {\n        return !w->write_queue_.empty() || w->closed_;\n      },\n      this));\n", "  auto ready = [this]() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {\n    if (closed_) return true;\n    return !write_queue_.empty();\n  };\n  mu_.Await(absl::Condition(&ready));\n")]),
]
