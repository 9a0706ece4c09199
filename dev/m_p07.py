T="reverb/cc/table.cc"
P=["P07"]
def b(n,*e): return (n,P,"bad",[(T,)+x for x in e])
def o(n,*e): return (n,P,"ok",[(T,)+x for x in e])
SIG="    if (worker_state_ != TableWorkerState::kRunning) {\n      wakeup_worker_.Signal();\n    }\n"
M=[
b("ins-nosig",("    pending_inserts_.push_back(std::move(item_ptr));\n"+SIG,"    pending_inserts_.push_back(std::move(item_ptr));\n")),
b("ins-sleeping-only",("    pending_inserts_.push_back(std::move(item_ptr));\n    if (worker_state_ != TableWorkerState::kRunning) {","    pending_inserts_.push_back(std::move(item_ptr));\n    if (worker_state_ == TableWorkerState::kSleeping) {")),
b("ins-blocked-only",("    pending_inserts_.push_back(std::move(item_ptr));\n    if (worker_state_ != TableWorkerState::kRunning) {","    pending_inserts_.push_back(std::move(item_ptr));\n    if (worker_state_ == TableWorkerState::kBlocked) {")),
b("smp-nosig",("      deleted_items_.pop_back();\n    }\n"+SIG+"  }\n}","      deleted_items_.pop_back();\n    }\n  }\n}")),
b("smp-sig-else",("      deleted_items_.pop_back();\n    }\n    if (worker_state_ != TableWorkerState::kRunning) {","      deleted_items_.pop_back();\n    } else if (worker_state_ != TableWorkerState::kRunning) {")),
b("mut-nosig",("    table_mutated_ = true;\n"+SIG,"    table_mutated_ = true;\n")),
b("mut-noflag",("    table_mutated_ = true;\n"+SIG,SIG)),
b("mut-only-ok",("  if (table_worker_) {\n    absl::MutexLock lock(&worker_mu_);\n    table_mutated_","  if (table_worker_ && status.ok()) {\n    absl::MutexLock lock(&worker_mu_);\n    table_mutated_")),
b("mut-only-deletes",("  if (table_worker_) {\n    absl::MutexLock lock(&worker_mu_);\n    table_mutated_","  if (table_worker_ && deletes.empty()) {\n    absl::MutexLock lock(&worker_mu_);\n    table_mutated_")),
b("reset-noflag",("    table_mutated_ = true;\n    wakeup_worker_.Signal();\n","    wakeup_worker_.Signal();\n")),
b("reset-nosig",("    table_mutated_ = true;\n    wakeup_worker_.Signal();\n","    table_mutated_ = true;\n")),
b("close-nosig",("    // Wakeup worker, so that it can process cancellations.\n    absl::MutexLock lock(&worker_mu_);\n    wakeup_worker_.Signal();","    // Wakeup worker, so that it can process cancellations.\n    absl::MutexLock lock(&worker_mu_);")),
b("close-sig-first",("  {\n    absl::MutexLock lock(&mu_);\n    rate_limiter_->Cancel(&mu_);\n  }\n  {\n    // Wakeup worker, so that it can process cancellations.\n    absl::MutexLock lock(&worker_mu_);\n    wakeup_worker_.Signal();\n  }","  {\n    // Wakeup worker, so that it can process cancellations.\n    absl::MutexLock lock(&worker_mu_);\n    wakeup_worker_.Signal();\n  }\n  {\n    absl::MutexLock lock(&mu_);\n    rate_limiter_->Cancel(&mu_);\n  }")),
b("close-unlocked",("    // Wakeup worker, so that it can process cancellations.\n    absl::MutexLock lock(&worker_mu_);\n","    // Wakeup worker, so that it can process cancellations.\n")),
b("stop-nosig",("    stop_worker_ = true;\n    wakeup_worker_.Signal();","    stop_worker_ = true;")),
b("stop-noflag",("    stop_worker_ = true;\n    wakeup_worker_.Signal();","    wakeup_worker_.Signal();")),
b("loop-mutated-ignored",("        if (table_mutated_) {\n","        if (table_mutated_ && progress > 0) {\n")),
b("loop-mutated-nocont",("          table_mutated_ = false;\n          continue;\n","          table_mutated_ = false;\n")),
b("loop-mutated-early",("      if (progress != last_progress) {","      table_mutated_ = false;\n      if (progress != last_progress) {")),
b("loop-stop-late",("        if (stop_worker_) {\n          return absl::OkStatus();\n        }\n        if (table_mutated_) {","        if (stop_worker_ && current_sampling.empty()) {\n          return absl::OkStatus();\n        }\n        if (table_mutated_) {")),
b("loop-stop-early",("      if (progress != last_progress) {\n        // There","      if (stop_worker_) return absl::OkStatus();\n      if (progress != last_progress) {\n        // There")),
b("loop-take-noprogress",("        // Get a new batch of insert requests as previous batch is done.\n        progress++;\n","        // Get a new batch of insert requests as previous batch is done.\n")),
b("loop-take-noprogress-s",("        // Get a new batch of sample requests as previous batch is done.\n        progress++;\n","        // Get a new batch of sample requests as previous batch is done.\n")),
b("loop-insert-noprogress",("              << status;\n          progress++;\n","              << status;\n")),
b("loop-insert-progress-ok",("              << status;\n          progress++;\n","              << status;\n          if (status.ok()) progress++;\n")),
b("loop-sample-noprogress",("MaybeCommitSample(&mu_)) {\n            progress++;\n","MaybeCommitSample(&mu_)) {\n")),
b("loop-last-late",("        last_progress = progress;\n        continue;\n","        last_progress = progress;\n        if (to_terminate.empty()) continue;\n")),
b("loop-prev-eq",("int64_t prev_progress = progress - 1;","int64_t prev_progress = progress;")),
b("loop-state-running",("          worker_state_ = TableWorkerState::kBlocked;\n","")),
b("loop-state-after",("        wakeup_worker_.WaitWithDeadline(&worker_mu_, wakeup);\n        worker_state_ = TableWorkerState::kRunning;","        wakeup_worker_.WaitWithDeadline(&worker_mu_, wakeup);\n        if (!pending_sampling_.empty()) worker_state_ = TableWorkerState::kRunning;")),
b("loop-no-cancel-check",("        if (!rate_limiter_->CheckIfCancelled(&mu_).ok()) {","        if (stop_worker_ && !rate_limiter_->CheckIfCancelled(&mu_).ok()) {")),
b("loop-cancel-now",("          deadline = absl::InfiniteFuture();\n","")),
b("loop-inf-always",("      auto deadline = absl::Now();","      auto deadline = absl::InfiniteFuture();")),
b("loop-nosig-pending",("      GetExpiredRequests(deadline, &pending_sampling_, &to_terminate, &wakeup);\n","")),
b("loop-no-current",("      GetExpiredRequests(deadline, &current_sampling, &to_terminate, &wakeup);\n","")),
b("loop-wait-forever",("        wakeup_worker_.WaitWithDeadline(&worker_mu_, wakeup);","        wakeup_worker_.Wait(&worker_mu_);")),
b("loop-wait-deadline",("        wakeup_worker_.WaitWithDeadline(&worker_mu_, wakeup);","        wakeup_worker_.WaitWithDeadline(&worker_mu_, deadline);")),
b("exp-max",("      *next_deadline = std::min(*next_deadline, sample->deadline);","      *next_deadline = std::max(*next_deadline, sample->deadline);")),
b("exp-last",("      *next_deadline = std::min(*next_deadline, sample->deadline);","      *next_deadline = sample->deadline;")),
b("exp-none",("      *next_deadline = std::min(*next_deadline, sample->deadline);","")),
b("exp-break",("      to_terminate->push_back(std::move(sample));\n","      to_terminate->push_back(std::move(sample));\n      break;\n")),
b("exp-null-break",("      // Request has already been removed during the previous iteration.\n      continue;","      break;")),
b("exp-flip",("    if (sample->deadline <= deadline) {","    if (sample->deadline >= deadline) {")),
b("exp-strict",("    if (sample->deadline <= deadline) {","    if (sample->deadline < deadline) {")),
b("exp-one",("      to_terminate->push_back(std::move(sample));\n","      if (to_terminate->empty()) to_terminate->push_back(std::move(sample));\n")),
b("term-ok",("      FinalizeSampleRequest(std::move(sample), sampling_status);","      FinalizeSampleRequest(std::move(sample), insert_status);")),
b("term-clear-first",("    // Notify sample requests which exceeded deadline.\n","    if (stop_worker_ready) to_terminate.clear();\n") if False else ("    for (auto& sample : to_terminate) {\n      FinalizeSampleRequest(std::move(sample), sampling_status);\n    }\n","    if (sampling_status.ok()) for (auto& sample : to_terminate) {\n      FinalizeSampleRequest(std::move(sample), sampling_status);\n    }\n")),
b("term-sleep",("      if (to_terminate.empty() && notify_inserts_ok.empty()) {","      if (notify_inserts_ok.empty()) {")),
b("notify-sleep",("      if (to_terminate.empty() && notify_inserts_ok.empty()) {","      if (to_terminate.empty()) {")),
b("notify-swap-missing",("        std::swap(notify_inserts_ok, notify_inserts_ok_);\n      }\n      if (sample_idx","      }\n      if (sample_idx")),
b("notify-cancel-nocheck",("          if (notify_inserts_ok.empty() && !notify_inserts_ok_.empty()) {","          if (!notify_inserts_ok_.empty()) {")) if False else o("notify-cancel-noneed-ok",("          if (notify_inserts_ok.empty() && !notify_inserts_ok_.empty()) {","          if (notify_inserts_ok.empty()) {")),
b("notify-cb-first",("              if (to_notify != nullptr) {\n                (*to_notify)(insert_status);\n              }\n","              if (to_notify != nullptr) {\n                (*to_notify)(insert_status);\n                break;\n              }\n")),
b("notify-cb-onlyok",("              if (to_notify != nullptr) {\n                (*to_notify)","              if (to_notify != nullptr && insert_status.ok()) {\n                (*to_notify)")),
b("take-early",("      if (insert_idx == current_inserts.size() &&\n          !pending_inserts_.empty()) {","      if (!pending_inserts_.empty()) {")),
b("take-early-s",("      if (sample_idx == current_sampling.size() &&\n          !pending_sampling_.empty()) {","      if (!pending_sampling_.empty()) {")),
b("take-s-or",("      if (sample_idx == current_sampling.size() &&\n          !pending_sampling_.empty()) {","      if (sample_idx == current_sampling.size() ||\n          !pending_sampling_.empty()) {")),
b("fin-partial",("            if (request->samples.capacity() == request->samples.size()) {","            if (!request->samples.empty()) {")),
b("fin-nobreak",("              sample_idx++;\n              break;\n","              sample_idx++;\n")),
b("fin-noidx",("              FinalizeSampleRequest(std::move(request), absl::OkStatus());\n              sample_idx++;\n","              FinalizeSampleRequest(std::move(request), absl::OkStatus());\n")) if False else b("fin-twice",("              FinalizeSampleRequest(std::move(request), absl::OkStatus());\n","              FinalizeSampleRequest(std::move(request), absl::OkStatus());\n              FinalizeSampleRequest(std::move(request), absl::OkStatus());\n")),
b("fin-nodelete",("    delete r;\n","")),
b("fin-status",("  r->status = status;\n","")),
b("fin-get",("  Table::SampleRequest* r = request.release();","  Table::SampleRequest* r = request.get();")),
b("fin-cond",("  callback_executor_->Schedule([r] {\n    auto to_notify","  if (status.ok()) callback_executor_->Schedule([r] {\n    auto to_notify")),
b("fin-del-first",("      (*to_notify)(r);\n    }\n    delete r;","      delete r;\n      (*to_notify)(r);\n    }")),
b("told-noreg",("      notify_inserts_ok_.push_back(insert_more_callback);\n","")),
b("told-reg-always",("    if (!*can_insert_more) {\n","    {\n")),
b("told-reg-flip",("    if (!*can_insert_more) {\n","    if (*can_insert_more) {\n")),
b("told-flip",("    *can_insert_more = pending_inserts_.size() < max_enqueued_inserts_;","    *can_insert_more = pending_inserts_.size() >= max_enqueued_inserts_;")),
b("told-noset",("    *can_insert_more = pending_inserts_.size() < max_enqueued_inserts_;\n    if (!*can_insert_more) {","    if (pending_inserts_.size() >= max_enqueued_inserts_) {\n      *can_insert_more = false;")),
b("told-othercond",("    if (!*can_insert_more) {\n","    if (!*can_insert_more && to_delete == nullptr) {\n")),
# behaviour preserved
o("ok-sig-always",("    pending_inserts_.push_back(std::move(item_ptr));\n"+SIG,"    pending_inserts_.push_back(std::move(item_ptr));\n    wakeup_worker_.Signal();\n")),
o("ok-sig-first",("    pending_inserts_.push_back(std::move(item_ptr));\n"+SIG,SIG+"    pending_inserts_.push_back(std::move(item_ptr));\n")),
o("ok-state-eq",("    pending_inserts_.push_back(std::move(item_ptr));\n    if (worker_state_ != TableWorkerState::kRunning) {","    pending_inserts_.push_back(std::move(item_ptr));\n    const bool running = worker_state_ == TableWorkerState::kRunning;\n    if (!running) {")),
o("ok-two-states",("    pending_inserts_.push_back(std::move(item_ptr));\n    if (worker_state_ != TableWorkerState::kRunning) {","    pending_inserts_.push_back(std::move(item_ptr));\n    if (worker_state_ == TableWorkerState::kBlocked ||\n        worker_state_ == TableWorkerState::kSleeping) {")),
o("ok-told-local",("    *can_insert_more = pending_inserts_.size() < max_enqueued_inserts_;\n    if (!*can_insert_more) {","    const bool more = pending_inserts_.size() < max_enqueued_inserts_;\n    *can_insert_more = more;\n    if (!more) {")),
o("ok-told-branch",("    *can_insert_more = pending_inserts_.size() < max_enqueued_inserts_;\n    if (!*can_insert_more) {","    *can_insert_more = true;\n    if (pending_inserts_.size() >= max_enqueued_inserts_) {\n      *can_insert_more = false;")),
o("ok-fin-if",("    if (to_notify != nullptr) {\n      (*to_notify)(r);\n    }\n    delete r;","    if (to_notify == nullptr) {\n      delete r;\n      return;\n    }\n    (*to_notify)(r);\n    delete r;")),
o("ok-fin-unique",("    auto to_notify = r->on_batch_done.lock();","    std::unique_ptr<SampleRequest> owned(r);\n    auto to_notify = r->on_batch_done.lock();"),("    delete r;\n","")),
o("ok-exp-if",("      *next_deadline = std::min(*next_deadline, sample->deadline);","      if (sample->deadline < *next_deadline) {\n        *next_deadline = sample->deadline;\n      }")),
o("ok-exp-else",("    if (sample->deadline <= deadline) {\n      to_terminate->push_back(std::move(sample));\n    } else {\n      *next_deadline = std::min(*next_deadline, sample->deadline);\n    }","    if (sample->deadline > deadline) {\n      *next_deadline = std::min(*next_deadline, sample->deadline);\n      continue;\n    }\n    to_terminate->push_back(std::move(sample));")),
o("ok-exp-idx",("  for (auto& sample : *requests) {\n","  for (size_t i = 0; i < requests->size(); ++i) {\n    auto& sample = (*requests)[i];\n")),
o("ok-exp-emplace",("      to_terminate->push_back(std::move(sample));\n","      to_terminate->emplace_back(std::move(sample));\n")),
o("ok-exp-order",("      GetExpiredRequests(deadline, &current_sampling, &to_terminate, &wakeup);\n      GetExpiredRequests(deadline, &pending_sampling_, &to_terminate, &wakeup);\n","      GetExpiredRequests(deadline, &pending_sampling_, &to_terminate, &wakeup);\n      GetExpiredRequests(deadline, &current_sampling, &to_terminate, &wakeup);\n")),
o("ok-loop-if",("        if (sample_idx < current_sampling.size() ||\n            insert_idx < current_inserts.size()) {\n          worker_state_ = TableWorkerState::kBlocked;\n        } else {\n          worker_state_ = TableWorkerState::kSleeping;\n        }\n","        const bool blocked = sample_idx < current_sampling.size() ||\n                             insert_idx < current_inserts.size();\n        worker_state_ = blocked ? TableWorkerState::kBlocked\n                                : TableWorkerState::kSleeping;\n")),
o("ok-loop-helper",("      if (to_terminate.empty() && notify_inserts_ok.empty()) {","      const bool nothing_to_do =\n          to_terminate.empty() && notify_inserts_ok.empty();\n      if (nothing_to_do) {")),
o("ok-mutated-before-stop",("        if (stop_worker_) {\n          return absl::OkStatus();\n        }\n        if (table_mutated_) {","        if (stop_worker_) {\n          return absl::OkStatus();\n        }\n        const bool mutated = table_mutated_;\n        if (mutated) {")),
o("ok-progress-gt",("      if (progress != last_progress) {","      if (progress > last_progress) {")),
o("ok-progress-plus",("              << status;\n          progress++;\n","              << status;\n          progress += 1;\n")),
o("ok-progress-plus2",("              << status;\n          progress++;\n","              << status;\n          progress = progress + 1;\n")),
o("ok-dowhile",("      int64_t prev_progress = progress - 1;\n      while (prev_progress < progress) {\n        prev_progress = progress;","      int64_t prev_progress;\n      do {\n        prev_progress = progress;"),("            AwaitExtensionBufferSpace();\n          }\n        }\n      }\n    }","            AwaitExtensionBufferSpace();\n          }\n        }\n      } while (prev_progress < progress);\n    }")),
o("ok-flag",("      int64_t prev_progress = progress - 1;\n      while (prev_progress < progress) {\n        prev_progress = progress;","      while (true) {\n        const int64_t prev_progress = progress;"),("            AwaitExtensionBufferSpace();\n          }\n        }\n      }\n    }","            AwaitExtensionBufferSpace();\n          }\n        }\n        if (progress == prev_progress) break;\n      }\n    }")),
o("ok-swap-member",("        std::swap(current_inserts, pending_inserts_);","        current_inserts.swap(pending_inserts_);")),
o("ok-swap-order",("        std::swap(current_inserts, pending_inserts_);\n        // As `pending_inserts_` is empty now, we should let waiting users\n        // know it is fine to continue with the inserts.\n        std::swap(notify_inserts_ok, notify_inserts_ok_);","        std::swap(notify_inserts_ok, notify_inserts_ok_);\n        std::swap(pending_inserts_, current_inserts);")),
o("ok-take-helper",("      if (insert_idx == current_inserts.size() &&\n          !pending_inserts_.empty()) {","      const bool inserts_done = insert_idx == current_inserts.size();\n      if (inserts_done && pending_inserts_.size() > 0) {")),
o("ok-terminate-index",("    for (auto& sample : to_terminate) {\n      FinalizeSampleRequest(std::move(sample), sampling_status);\n    }\n","    for (size_t i = 0; i < to_terminate.size(); i++) {\n      FinalizeSampleRequest(std::move(to_terminate[i]), sampling_status);\n    }\n")),
o("ok-rate-limited",("        rate_limited = !current_sampling.empty() &&\n                       sample_idx != current_sampling.size();","        rate_limited = sample_idx < current_sampling.size();")),
o("ok-size-cap",("            if (request->samples.capacity() == request->samples.size()) {","            if (request->samples.size() >= request->samples.capacity()) {")),
o("ok-close-helper",("  {\n    // Wakeup worker, so that it can process cancellations.\n    absl::MutexLock lock(&worker_mu_);\n    wakeup_worker_.Signal();\n  }\n}","  // Wakeup worker, so that it can process cancellations.\n  auto wake = [this] {\n    absl::MutexLock lock(&worker_mu_);\n    wakeup_worker_.SignalAll();\n  };\n  wake();\n}")),
o("ok-insert-status",("          auto status = InsertOrAssignInternal(current_inserts[insert_idx++]);","          auto status = InsertOrAssignInternal(current_inserts[insert_idx]);\n          insert_idx++;")),
]
