P = ["P09"]
M = [
 ("size", P, "bad", [("table.cc", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n", "int64_t Table::size() const {\n")]),
 ("wrongmu", P, "bad", [("table.cc", "bool Table::worker_is_sleeping() const {\n  absl::MutexLock lock(&worker_mu_);", "bool Table::worker_is_sleeping() const {\n  absl::MutexLock lock(&mu_);")]),
 ("sampler_close", P, "bad", [("sampler.cc", "    absl::WriterMutexLock lock(&mu_);\n    if (closed_) return;\n    closed_ = true;\n", "    if (closed_) return;\n    absl::WriterMutexLock lock(&mu_);\n    closed_ = true;\n")]),
 ("reader_erase", P, "bad", [("chunk_store.cc", "  absl::WriterMutexLock data_lock(&mu_);", "  absl::ReaderMutexLock data_lock(&mu_);")]),
 ("reader_returned", P, "bad", [("sampler.cc", "  absl::WriterMutexLock lock(&mu_);\n  if (++returned_ == max_samples_) samples_.Close();\n  return", "  absl::ReaderMutexLock lock(&mu_);\n  if (++returned_ == max_samples_) samples_.Close();\n  return")]),
 ("reader_insert", P, "bad", [("chunk_store.cc", "  absl::WriterMutexLock lock(&mu_);", "  absl::ReaderMutexLock lock(&mu_);")]),
 ("readthread", P, "bad", [("trajectory_writer.cc", "          absl::MutexLock lock(&mu_);\n          for (uint64_t key : response.keys())", "          for (uint64_t key : response.keys())")]),
 ("noannot", P, "bad", [("table.h", "int64_t num_unique_samples_ ABSL_GUARDED_BY(mu_);", "int64_t num_unique_samples_;"), ("table.cc", "  absl::MutexLock lock(&mu_);\n  REVERB_CHECK(data_.empty() && num_unique_samples_ == 0);", "  absl::MutexLock lock(&worker_mu_);\n  REVERB_CHECK(num_unique_samples_ == 0);")]),
 ("refescape", P, "bad", [("table.cc", "  absl::MutexLock lock(&mu_);\n  auto it = data_.find(key);\n  if (it != data_.end()) {\n    *item = *it->second;\n    return true;\n  }\n  return false;",
    "  auto it = data_.end();\n  {\n    absl::MutexLock lock(&mu_);\n    it = data_.find(key);\n    if (it == data_.end()) return false;\n  }\n  *item = *it->second;\n  return true;")]),
 ("refescape2", P, "bad", [("table.cc", "  absl::MutexLock lock(&mu_);\n  auto it = data_.find(key);\n  if (it != data_.end()) {\n    *item = *it->second;\n    return true;\n  }\n  return false;",
    "  mu_.Lock();\n  auto it = data_.find(key);\n  const bool found = it != data_.end();\n  mu_.Unlock();\n  if (found) {\n    *item = *it->second;\n    return true;\n  }\n  return false;")]),
 ("chunkers_unlocked", P, "bad", [("trajectory_writer.cc", "      absl::MutexLock lock(&mu_);\n      for (auto& [_, chunker] : chunkers_) {", "      for (auto& [_, chunker] : chunkers_) {")]),
 ("chunkers_insert_unlocked", P, "bad", [("trajectory_writer.cc", "      // The stream worker iterates over the chunkers.\n      absl::MutexLock lock(&mu_);\n", "")]),
 ("newfield", P, "bad", [("trajectory_writer.h", "  bool closed_ ABSL_GUARDED_BY(mu_);", "  bool closed_ ABSL_GUARDED_BY(mu_);\n  int64_t num_sent_ = 0;"),
    ("trajectory_writer.cc", "    request.Clear();\n\n    // Item has", "    request.Clear();\n    num_sent_++;\n\n    // Item has"), ("trajectory_writer.cc", "  absl::MutexLock lock(&mu_);\n  return FlushLocked(ignore_last_num_items, timeout);", "  num_sent_ = 0;\n  absl::MutexLock lock(&mu_);\n  return FlushLocked(ignore_last_num_items, timeout);")]),
 ("atomic", P, "bad", [("platform/default/server.cc", "std::atomic<bool> stop_signalled_", "bool stop_signalled_")]),
 ("helper_unlocked", P, "bad", [("table.h", "  int64_t size() const ABSL_LOCKS_EXCLUDED(mu_);", "  int64_t size() const ABSL_LOCKS_EXCLUDED(mu_);\n private:\n  int64_t SizeLocked() const;\n public:"),
    ("table.cc", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n  return data_.size();", "int64_t Table::SizeLocked() const { return data_.size(); }\nint64_t Table::size() const {\n  { absl::MutexLock lock(&mu_); }\n  return SizeLocked();")]),
 ("ok_helper", P, "ok", [("table.h", "  int64_t size() const ABSL_LOCKS_EXCLUDED(mu_);", "  int64_t size() const ABSL_LOCKS_EXCLUDED(mu_);\n private:\n  int64_t SizeLocked() const;\n public:"),
    ("table.cc", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n  return data_.size();", "int64_t Table::SizeLocked() const { return data_.size(); }\nint64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n  return SizeLocked();")]),
 ("ok_manual", P, "ok", [("table.cc", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n  return data_.size();", "int64_t Table::size() const {\n  mu_.Lock();\n  const int64_t n = data_.size();\n  mu_.Unlock();\n  return n;")]),
 ("ok_rename", P, "ok", [("sampler.h", "returned_", "num_returned_", i) for i in ()] or [("chunk_store.cc", "  absl::WriterMutexLock data_lock(&mu_);", "  absl::MutexLock data_lock(&mu_);")]),
 ("ok_lambda", P, "ok", [("table.cc", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n  return data_.size();", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n  auto get = [this]() { return data_.size(); };\n  return get();")]),
 ("ok_freefn", P, "ok", [("table.cc", "int64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n  return data_.size();", "namespace { template <typename M> int64_t CountOf(const M& m) { return m.size(); } }\nint64_t Table::size() const {\n  absl::MutexLock lock(&mu_);\n  return CountOf(data_);")]),
 ("ok_refscope", P, "ok", [("table.cc", "  absl::MutexLock lock(&mu_);\n  auto it = data_.find(key);\n  if (it != data_.end()) {\n    *item = *it->second;\n    return true;\n  }\n  return false;",
    "  std::shared_ptr<Item> found;\n  {\n    absl::MutexLock lock(&mu_);\n    auto it = data_.find(key);\n    if (it == data_.end()) return false;\n    found = it->second;\n  }\n  *item = *found;\n  return true;")]),
]
