P = ["P10"]
M = [
 ("order_swap", P, "bad", [("table.cc", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n  absl::MutexLock wlock(&worker_mu_);\n")]),
 ("self", P, "bad", [("table.cc", "bool Table::CanSample(int num_samples) const {\n  absl::MutexLock lock(&mu_);\n", "bool Table::CanSample(int num_samples) const {\n  absl::MutexLock lock(&mu_);\n  if (size() == 0) return false;\n")]),
 ("join_locked", P, "bad", [("platform/default/server.cc", "    reverb_service_->Close();\n", "    signal_worker_.Stop().IgnoreError();\n    reverb_service_->Close();\n")]),
 ("writer_noawait", P, "bad", [("writer.cc", "  mu_.Await(absl::Condition(\n      +[](bool* running) { return !(*running); },\n      &item_confirmation_worker_running_));\n\n", "")]),
 ("sampler_join", P, "bad", [("sampler.cc", "  {\n    absl::WriterMutexLock lock(&mu_);\n    if (closed_) return;\n    closed_ = true;\n  }\n\n  for (auto& worker : workers_)", "  absl::WriterMutexLock lock(&mu_);\n  if (closed_) return;\n  closed_ = true;\n\n  for (auto& worker : workers_)")]),
 ("tw_senditem_locked", P, "bad", [("trajectory_writer.cc", "    // All chunks have been written to the stream so the item can now be\n    // written.\n", "    absl::ReleasableMutexLock send_lock(&mu_);\n")]),
 ("tw_join_locked", P, "bad", [("trajectory_writer.cc", "    data_cv_.Signal();\n  }\n\n  // Join the worker thread.\n  stream_worker_ = nullptr;\n", "    data_cv_.Signal();\n  // Join the worker thread.\n  stream_worker_ = nullptr;\n  }\n")]),
 ("callback_locked", P, "bad", [("table.cc", "  absl::MutexLock lock(&mu_);\n  return rate_limiter_->CanSample(&mu_, num_samples);", "  absl::MutexLock lock(&mu_);\n  std::function<void()> f = [] {};\n  std::vector<std::function<void()>> fs = {f};\n  fs[0]();\n  return rate_limiter_->CanSample(&mu_, num_samples);")]),
 ("pop_locked", P, "bad", [("sampler.cc", "  if (samples_.Pop(sample)) return absl::OkStatus();\n\n  absl::ReaderMutexLock lock(&mu_);\n", "  absl::ReaderMutexLock lock(&mu_);\n  if (samples_.Pop(sample)) return absl::OkStatus();\n")]),
 ("ok_unlock", P, "ok", [("table.cc", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n", "int64_t Table::size() const {\n  { absl::MutexLock wlock(&worker_mu_); }\n  absl::MutexLock lock(&mu_);\n")]),
 ("ok_order", P, "ok", [("table.cc", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n", "int64_t Table::size() const {\n  absl::MutexLock wlock(&worker_mu_);\n  absl::MutexLock lock(&mu_);\n")]),
]
