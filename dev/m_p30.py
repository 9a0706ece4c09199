S = "reverb/cc/platform/default/server.cc"
T = "reverb/cc/table.cc"
C = "reverb/cc/chunk_store.cc"
P = "reverb/cc/support/periodic_closure.cc"
X = "reverb/cc/support/task_executor.cc"
R = "reverb/cc/reverb_service_impl.cc"
A = "reverb/cc/reverb_service_async_impl.cc"
SHUT = """    // Set a deadline as the sampler streams never closes by themselves.
    server_->Shutdown(std::chrono::system_clock::now() +
                      std::chrono::seconds(5));
"""
CLOSE = "    reverb_service_->Close();\n"
M = []


def bad(n, *e):
    M.append((n, ["P30"], "bad", list(e)))


def ok(n, *e):
    M.append((n, ["P30"], "ok", list(e)))


bad("noclose", (S, CLOSE, ""))
bad("closeafter", (S, CLOSE, ""), (S, SHUT, SHUT + CLOSE))
bad("noshut", (S, SHUT, ""))
bad("nodeadline", (S, SHUT, "    server_->Shutdown();\n"))
bad("stilrunning", (S, "    running_ = false;\n", ""))
bad("inverted", (S, "    if (!running_) return;\n", "    if (running_) return;\n"))
bad("unlocked", (S, "    absl::WriterMutexLock lock(&mu_);\n    if (!running_) return;\n", "    {\n      absl::WriterMutexLock lock(&mu_);\n      if (!running_) return;\n      running_ = false;\n    }\n"), (S, "    running_ = false;\n  }\n\n  bool Wait", "  }\n\n  bool Wait"))
bad("nosignalstop", (S, "    signal_worker_.Stop().IgnoreError();\n", ""))
bad("signalstoplate", (S, "    signal_worker_.Stop().IgnoreError();\n    Stop();\n", "    Stop();\n    signal_worker_.Stop().IgnoreError();\n"))
bad("nodtorstop", (S, "    Stop();\n  }\n\n  void Stop", "  }\n\n  void Stop"))
bad("members", (S, "  std::unique_ptr<ReverbServiceImpl> reverb_service_;\n", ""), (S, "  std::unique_ptr<grpc::Server> server_ = nullptr;\n", "  std::unique_ptr<grpc::Server> server_ = nullptr;\n  std::unique_ptr<ReverbServiceImpl> reverb_service_;\n"))
bad("waitlocked", (S, "    {\n      absl::MutexLock lock(&mu_);\n      if (!running_) return false;\n    }\n", "    absl::MutexLock lock(&mu_);\n    if (!running_) return false;\n"))
bad("noreset", (S, "    stop_server_fn = []() {};\n\n    return", "    return"))
bad("resetearly", (S, "    server_->Wait();\n\n    // Disable the signal handler by removing the callback.\n    stop_server_fn = []() {};\n", "    stop_server_fn = []() {};\n    server_->Wait();\n"))
bad("sigearly", (S, "    std::signal(SIGINT, signal_handler);\n", ""), (S, "    // Register a signal handler", "    std::signal(SIGINT, signal_handler);\n    // Register a signal handler"))
bad("nosig", (S, "    std::signal(SIGINT, signal_handler);\n", ""))
bad("sigstop", (S, "void SignalStop() { stop_signalled_ = true; }", "void SignalStop() { stop_signalled_ = true; Stop(); }"))
bad("siglock", (S, "void SignalStop() { stop_signalled_ = true; }", "void SignalStop() { absl::MutexLock lock(&mu_); stop_signalled_ = true; }"))
bad("tickalways", (S, "              if (stop_signalled_) {\n                Stop();\n              }", "              Stop();"))
bad("ticknever", (S, "              if (stop_signalled_) {", "              if (!stop_signalled_) {"))
bad("runningearly", (S, "    running_ = true;\n", ""), (S, "    if (!server_) {", "    running_ = true;\n    if (!server_) {"))
bad("nullok", (S, """      return absl::InvalidArgumentError("Failed to BuildAndStart gRPC server");""", "      return absl::OkStatus();"))
bad("norunning", (S, "    running_ = true;\n", ""))
bad("nosigstart", (S, "    REVERB_RETURN_IF_ERROR(signal_worker_.Start());\n", ""))
bad("noregister", (S, "                  .RegisterService(reverb_service_.get())\n", ""))
bad("waitresult", (S, "    return stop_signalled_;", "    return false;"))
for n, f in (("sync", R), ("async", A)):
    bad("closefirst_" + n, (f, "    table.second->Close();\n", "    table.second->Close();\n    break;\n"))
    bad("closenone_" + n, (f, "    table.second->Close();\n", ""))
    bad("closecond_" + n, (f, "    table.second->Close();\n", "    if (table.second->size() > 0) table.second->Close();\n"))
bad("nocancel", (T, "    rate_limiter_->Cancel(&mu_);\n", ""))
bad("nowake", (T, "    // Wakeup worker, so that it can process cancellations.\n    absl::MutexLock lock(&worker_mu_);\n    wakeup_worker_.Signal();\n", ""))
bad("wakefirst", (T, "  {\n    absl::MutexLock lock(&mu_);\n    rate_limiter_->Cancel(&mu_);\n  }\n", ""), (T, "    // Wakeup worker, so that it can process cancellations.\n    absl::MutexLock lock(&worker_mu_);\n    wakeup_worker_.Signal();\n  }\n", "    absl::MutexLock lock(&worker_mu_);\n    wakeup_worker_.Signal();\n  }\n  absl::MutexLock lock(&mu_);\n  rate_limiter_->Cancel(&mu_);\n"))
bad("noclosetable", (T, "Table::~Table() {\n  Close();\n", "Table::~Table() {\n"))
bad("nostopworker", (T, "    stop_worker_ = true;\n", ""))
bad("nosignal", (T, "    stop_worker_ = true;\n    wakeup_worker_.Signal();\n", "    stop_worker_ = true;\n"))
bad("signalbefore", (T, "    stop_worker_ = true;\n    wakeup_worker_.Signal();\n  }\n", "    wakeup_worker_.Signal();\n  }\n  {\n    absl::MutexLock lock(&worker_mu_);\n    stop_worker_ = true;\n  }\n"))
bad("joinlocked", (T, "  table_worker_ = nullptr;\n", "  {\n    absl::MutexLock lock(&mu_);\n    table_worker_ = nullptr;\n  }\n"))
bad("nojoin", (T, "  table_worker_ = nullptr;\n", ""))
bad("noextjoin", (T, "  extension_worker_ = nullptr;\n", ""))
bad("extfirst", (T, "  table_worker_ = nullptr;\n  {\n", "  {\n"), (T, "  // Join the extension worker thread.\n  extension_worker_ = nullptr;\n", "  // Join the extension worker thread.\n  extension_worker_ = nullptr;\n  table_worker_ = nullptr;\n"))
bad("joinlate", (T, "  table_worker_ = nullptr;\n  {\n", "  {\n"), (T, "  extension_worker_ = nullptr;\n  rate_limiter_", "  table_worker_ = nullptr;\n  extension_worker_ = nullptr;\n  rate_limiter_"))
bad("noextsignal", (T, "    stop_extension_worker_ = true;\n    extension_work_available_cv_.SignalAll();\n", "    stop_extension_worker_ = true;\n"))
bad("unregearly", (T, "  rate_limiter_->UnregisterTable(&mu_, this);\n  for", "  for"), (T, "Table::~Table() {\n  Close();\n", "Table::~Table() {\n  Close();\n  rate_limiter_->UnregisterTable(&mu_, this);\n"))
bad("nounreg", (T, "  for (auto& extension : async_extensions_) {\n    extension->UnregisterTable(&async_extensions_mu_, this);\n  }\n", ""))
bad("unregsome", (T, "  for (auto& extension : sync_extensions_) {\n    extension->UnregisterTable(&mu_, this);\n", "  for (auto& extension : sync_extensions_) {\n    if (extension != nullptr && extension->CanRunAsync()) extension->UnregisterTable(&mu_, this);\n"))
bad("cleaner_noclose", (C, "  delete_keys_->Close();\n  cleaner_", "  cleaner_"))
bad("cleaner_nojoin", (C, "  cleaner_ = nullptr;  // Joins thread.\n", ""))
bad("cleaner_order", (C, "  delete_keys_->Close();\n  cleaner_ = nullptr;  // Joins thread.\n", "  cleaner_ = nullptr;  // Joins thread.\n  delete_keys_->Close();\n"))
bad("exec_drop", (X, "  while (queue_.Pop(&callback)) {\n    callback();\n  }\n  threads_", "  while (queue_.Pop(&callback)) {\n  }\n  threads_"))
bad("exec_close", (X, "  queue_.SetLastItemPushed();\n", "  queue_.Close();\n"))
bad("exec_nojoin", (X, "  threads_.clear();  // Joins worker threads.\n", ""))
bad("exec_dtor", (X, "TaskExecutor::~TaskExecutor() {\n  Close();\n", "TaskExecutor::~TaskExecutor() {\n"))
bad("exec_once", (X, "  while (queue_.Pop(&callback)) {\n    callback();\n  }\n}", "  if (queue_.Pop(&callback)) {\n    callback();\n  }\n}"))
bad("pc_restart", (P, """  if (stopped_) {
    return absl::InvalidArgumentError(
        "PeriodicClosure: Start called after Close");
  }
""", ""))
bad("pc_twice", (P, """  if (worker_ != nullptr) {
    return absl::InvalidArgumentError(
        "PeriodicClosure: Start called when closure already running");
  }
""", ""))
bad("pc_joinlocked", (P, "    stopped_ = true;\n  }\n  worker_ = nullptr;  // Join thread.\n", "    stopped_ = true;\n    worker_ = nullptr;\n  }\n"))
bad("pc_nojoin", (P, "  worker_ = nullptr;  // Join thread.\n", ""))
bad("pc_notstopped", (P, "    stopped_ = true;\n", ""))
bad("pc_after", (P, "        mu_.Unlock();\n        return;\n", "        mu_.Unlock();\n        fn_();\n        return;\n"))
bad("pc_locked", (P, "      mu_.Unlock();\n      next_run = absl::Now() + period_;\n\n      fn_();\n", "      next_run = absl::Now() + period_;\n\n      fn_();\n      mu_.Unlock();\n"))
bad("pc_ends", (P, "      fn_();\n", "      fn_();\n      if (period_ > absl::Hours(1)) return;\n"))
bad("pc_norun", (P, "      if (mu_.LockWhenWithDeadline(", "      if (!mu_.LockWhenWithDeadline("))
bad("thread_nojoin", ("reverb/cc/platform/default/thread.cc", "{ thread_.join(); }", "{ thread_.detach(); }"))

ok("runningfirst", (S, CLOSE, "    running_ = false;\n" + CLOSE), (S, "    running_ = false;\n  }\n\n  bool Wait", "  }\n\n  bool Wait"))
ok("nested", (S, "    if (!running_) return;\n    REVERB_LOG(REVERB_INFO) << \"Shutting down replay server\";\n", "    if (running_) {\n    REVERB_LOG(REVERB_INFO) << \"Shutting down replay server\";\n"), (S, "    running_ = false;\n", "    running_ = false;\n    }\n"))
ok("helper", (S, CLOSE, "    CloseTables();\n"), (S, "  void SignalStop()", "  void CloseTables() { reverb_service_->Close(); }\n  void SignalStop()"))
ok("helper2", (S, CLOSE, "    StopServing();\n"), (S, SHUT, ""), (S, "  void SignalStop()", "  void StopServing() {\n" + CLOSE + SHUT + "  }\n  void SignalStop()"))
ok("deadlinevar", (S, SHUT, "    auto deadline = std::chrono::system_clock::now() + std::chrono::seconds(3);\n    server_->Shutdown(deadline);\n"))
ok("store", (S, "stop_signalled_ = true; }", "stop_signalled_.store(true); }"))
ok("load", (S, "              if (stop_signalled_) {", "              if (stop_signalled_.load()) {"))
ok("resetnull", (S, "    stop_server_fn = []() {};\n\n    return stop_signalled_;", "    stop_server_fn = [] { /* nothing */ };\n    const bool signalled = stop_signalled_;\n    return signalled;"))
ok("dtorauto", (S, "    signal_worker_.Stop().IgnoreError();\n", "    auto status = signal_worker_.Stop();\n    status.IgnoreError();\n"))
ok("nullcmp", (S, "    if (!server_) {", "    if (server_ == nullptr) {"))
ok("tickearly", (S, "              if (stop_signalled_) {\n                Stop();\n              }", "              if (!stop_signalled_) return;\n              Stop();"))
ok("foriter", (R, "  for (auto& table : tables_) {\n    table.second->Close();\n  }\n}", "  for (auto it = tables_.begin(); it != tables_.end(); ++it) {\n    it->second->Close();\n  }\n}"))
ok("binding", (R, "  for (auto& table : tables_) {\n    table.second->Close();\n  }\n}", "  for (auto& [name, table] : tables_) {\n    table->Close();\n  }\n}"))
ok("alias", (A, "    table.second->Close();\n  }\n}", "    Table* t = table.second.get();\n    t->Close();\n  }\n}"))
ok("reset", (T, "  table_worker_ = nullptr;\n", "  table_worker_.reset();\n"), (T, "  extension_worker_ = nullptr;\n", "  extension_worker_.reset();\n"))
ok("signalall", (T, "    stop_worker_ = true;\n    wakeup_worker_.Signal();\n", "    stop_worker_ = true;\n    wakeup_worker_.SignalAll();\n"))
ok("signalbeforeset", (T, "    stop_extension_worker_ = true;\n    extension_work_available_cv_.SignalAll();\n", "    stop_extension_worker_ = true;\n    extension_work_available_cv_.Signal();\n"))
ok("helper3", (T, "  table_worker_ = nullptr;\n  {\n", "  StopTableWorker();\n  {\n"), (T, "  {\n    absl::MutexLock lock(&worker_mu_);\n    stop_worker_ = true;\n    wakeup_worker_.Signal();\n  }\n", ""), (T, "Table::~Table() {\n", "void Table::StopTableWorker() {\n  {\n    absl::MutexLock lock(&worker_mu_);\n    stop_worker_ = true;\n    wakeup_worker_.Signal();\n  }\n  table_worker_ = nullptr;\n}\n\nTable::~Table() {\n"), ("reverb/cc/table.h", " private:\n", " private:\n  void StopTableWorker();\n"))
ok("unregorder", (T, "  rate_limiter_->UnregisterTable(&mu_, this);\n  for (auto& extension : sync_extensions_) {\n    extension->UnregisterTable(&mu_, this);\n  }\n", "  for (auto& extension : sync_extensions_) {\n    extension->UnregisterTable(&mu_, this);\n  }\n  rate_limiter_->UnregisterTable(&mu_, this);\n"))
ok("index", (T, "  for (auto& extension : sync_extensions_) {\n    extension->UnregisterTable(&mu_, this);\n  }\n", "  for (size_t i = 0; i < sync_extensions_.size(); i++) {\n    sync_extensions_[i]->UnregisterTable(&mu_, this);\n  }\n"))
ok("cleanerreset", (C, "  cleaner_ = nullptr;  // Joins thread.\n", "  cleaner_.reset();\n"))
ok("execwhile", (X, "  while (queue_.Pop(&callback)) {\n    callback();\n  }\n  threads_", "  for (;;) {\n    if (!queue_.Pop(&callback)) break;\n    callback();\n  }\n  threads_"))
ok("pc_bool", (P, "      if (mu_.LockWhenWithDeadline(absl::Condition(&stopped_), next_run)) {\n        mu_.Unlock();\n        return;\n      }\n      mu_.Unlock();\n", "      const bool stopped =\n          mu_.LockWhenWithDeadline(absl::Condition(&stopped_), next_run);\n      mu_.Unlock();\n      if (stopped) return;\n"))
ok("pc_while", (P, "    for (auto next_run = absl::Now() + period_; true;) {\n", "    auto next_run = absl::Now() + period_;\n    while (true) {\n"))
ok("pc_reset", (P, "  worker_ = nullptr;  // Join thread.\n", "  worker_.reset();\n"))
ok("pc_startif", (P, "  if (worker_ != nullptr) {", "  if (worker_) {"))
ok("pc_move", (P, "  worker_ = nullptr;  // Join thread.\n", "  auto worker = std::move(worker_);\n  worker.reset();\n"))
ok("joinable", ("reverb/cc/platform/default/thread.cc", "{ thread_.join(); }", "{ if (thread_.joinable()) thread_.join(); }"))
