S = "reverb/cc/reverb_service_impl.cc"
A = "reverb/cc/reverb_service_async_impl.cc"
K = "reverb/cc/task_worker.h"
M = []


def bad(n, *e):
    M.append((n, ["P20"], "bad", list(e)))


def ok(n, *e):
    M.append((n, ["P20"], "ok", list(e)))


NS_S = "    if (request.num_samples() <= 0) {"
NS_A = "      if (request->num_samples() <= 0) {"
FB_S = "    if (request.flexible_batch_size() <= 0 &&\n"
FB_A = "      if (request->flexible_batch_size() <= 0 &&\n"
bad("num0_s", (S, NS_S, "    if (request.num_samples() < 0) {"))
bad("num0_a", (A, NS_A, "      if (request->num_samples() < 0) {"))
bad("num1_s", (S, NS_S, "    if (request.num_samples() <= 1) {"))
bad("flex0_s", (S, FB_S, "    if (request.flexible_batch_size() < 0 &&\n"))
bad("flex0_a", (A, FB_A, "      if (request->flexible_batch_size() < 0 &&\n"))
bad("auto_s", (S, "    if (request.flexible_batch_size() <= 0 &&\n        request.flexible_batch_size() != Sampler::kAutoSelectValue) {", "    if (request.flexible_batch_size() <= 0) {"))
bad("auto_a", (A, "      if (request->flexible_batch_size() <= 0 &&\n          request->flexible_batch_size() != Sampler::kAutoSelectValue) {", "      if (request->flexible_batch_size() < -1) {"))
bad("okstatus", (A, "        return grpc::Status(grpc::StatusCode::INVALID_ARGUMENT,\n                            absl::StrCat(\"`num_samples` must", "        return grpc::Status(grpc::StatusCode::OK,\n                            absl::StrCat(\"`num_samples` must"))
bad("late_check", (A, "      MaybeStartSampling();\n      return grpc::Status::OK;\n", "      MaybeStartSampling();\n      task_info_.fetched_samples = 0;\n      return grpc::Status::OK;\n"))
bad("timeout0_a", (A, "          request->rate_limiter_timeout().milliseconds() >= 0) {", "          request->rate_limiter_timeout().milliseconds() > 0) {"))
bad("timeoutsec_a", (A, "absl::Milliseconds(request->rate_limiter_timeout().milliseconds());", "absl::Seconds(request->rate_limiter_timeout().milliseconds());"), )
bad("timeoutneg_a", (A, "      if (request->has_rate_limiter_timeout() &&\n          request->rate_limiter_timeout().milliseconds() >= 0) {", "      if (request->has_rate_limiter_timeout()) {"))
bad("timeoutstale_a", (A, "      } else {\n        task_info_.timeout = absl::InfiniteDuration();\n      }\n", "      }\n"))
bad("timeout0_s", (S, "if (timeout < absl::ZeroDuration()) timeout", "if (timeout <= absl::ZeroDuration()) timeout"))
bad("timeoutdef_s", (S, ": -1);", ": 0);"))
bad("timeoutneg_s", (S, "if (timeout < absl::ZeroDuration()) timeout = absl::InfiniteDuration();", ""))
bad("notfound_s", (S, "    if (table == nullptr) return TableNotFound(request.table());", "    if (table == nullptr) continue;"))
bad("nocheck_s", (S, "    if (table == nullptr) return TableNotFound(request.table());", ""))
bad("nocheck_mut", (S, "  if (table == nullptr) return TableNotFound(request->table());\n\n  auto status = table->MutateItems", "\n  auto status = table->MutateItems"))
bad("mutok", (S, "  if (table == nullptr) return TableNotFound(request->table());\n\n  auto status = table->MutateItems", "  if (table == nullptr) return grpc::Status::OK;\n  auto status = table->MutateItems"))
bad("mutok_a", (A, "    reactor->Finish(TableNotFound(request->table()));\n    return reactor;\n  }\n\n  auto status = table->MutateItems", "    reactor->Finish(grpc::Status::OK);\n    return reactor;\n  }\n\n  auto status = table->MutateItems"))
bad("resetnoreturn_a", (A, "    reactor->Finish(TableNotFound(request->table()));\n    return reactor;\n  }\n  auto status = table->Reset", "    reactor->Finish(TableNotFound(request->table()));\n  }\n  auto status = table->Reset"))
bad("nocheck_a", (A, "      if (task_info_.table == nullptr) {\n        return TableNotFound(request->table());\n      }\n", ""))
bad("internal_a", (A, "        return TableNotFound(table_name);", "        return Internal(\"no such table\");"))
bad("insert_s", (S, "      if (table == nullptr) return TableNotFound(table_name);", "      if (table == nullptr) continue;"))
bad("init_s", (S, "  if (it == tables_.end()) {\n    return TableNotFound(request.table_name());", "  if (it == tables_.end()) {\n    return grpc::Status::OK;"))
bad("init_a", (A, "          Finish(TableNotFound(request_.table_name()));\n          return;\n", "          Finish(grpc::Status::OK);\n          return;\n"))
bad("code_s", (S, "grpc::Status(grpc::StatusCode::NOT_FOUND,", "grpc::Status(grpc::StatusCode::INTERNAL,"))
bad("code_a", (A, "grpc::Status(grpc::StatusCode::NOT_FOUND,", "grpc::Status(grpc::StatusCode::UNKNOWN,"))
bad("byname_s", (S, "  auto it = tables_.find(name);\n  if (it == tables_.end()) return nullptr;\n  return it->second.get();", "  auto it = tables_.find(name);\n  if (it != tables_.end()) return nullptr;\n  return it->second.get();"))
bad("batch_s", (S, "          request.num_samples() - count);", "          request.num_samples());"))
bad("batchmax_s", (S, "      int32_t max_batch_size = std::min<int32_t>(", "      int32_t max_batch_size = std::max<int32_t>("))
bad("batchdef_s", (S, "              ? default_flexible_batch_size\n              : request.flexible_batch_size(),", "              ? request.num_samples()\n              : request.flexible_batch_size(),"))
bad("batchone_s", (S, "              ? default_flexible_batch_size\n              : request.flexible_batch_size(),", "              ? default_flexible_batch_size\n              : std::max<int64_t>(request.flexible_batch_size(), default_flexible_batch_size),"))
bad("countone_s", (S, "      count += samples.size();", "      count += max_batch_size;"))
bad("countend_s", (S, "count != request.num_samples()) {", "count < request.num_samples() - 1) {"))
bad("batch_a", (A, "              ? task_info_.table->DefaultFlexibleBatchSize()\n              : request->flexible_batch_size();", "              ? 1\n              : request->flexible_batch_size();"))
bad("batchinv_a", (A, "          request->flexible_batch_size() == Sampler::kAutoSelectValue\n", "          request->flexible_batch_size() != Sampler::kAutoSelectValue\n"))
bad("fetched_a", (A, "      task_info_.fetched_samples = 0;\n", ""))
bad("requested_a", (A, "      task_info_.requested_samples = request->num_samples();\n", "      task_info_.requested_samples += request->num_samples();\n"))
bad("next", (K, "                         requested_samples - fetched_samples);", "                         requested_samples);"))
bad("nextmax", (K, "return std::min<int>(flexible_batch_size,", "return std::max<int>(flexible_batch_size,"))
bad("add_a", (A, "                  task_info_.fetched_samples += sample->samples.size();\n", "                  task_info_.fetched_samples += task_info_.NextSampleSize();\n"))
bad("noadd_a", (A, "                  task_info_.fetched_samples += sample->samples.size();\n", ""))
bad("goon_a", (A, "                  if (next_batch_size != 0) {\n                    MaybeStartSampling();", "                  if (next_batch_size > 1) {\n                    MaybeStartSampling();"))
bad("enq_a", (A, "EnqueSampleRequest(next_batch_size, sampling_done_,\n                                           task_info_.timeout);", "EnqueSampleRequest(next_batch_size, sampling_done_,\n                                           absl::InfiniteDuration());"))
bad("enqall_a", (A, "EnqueSampleRequest(next_batch_size, sampling_done_,", "EnqueSampleRequest(task_info_.requested_samples, sampling_done_,"))
bad("nodelete", (S, "                                   request->updates().end()),\n      request->delete_keys());", "                                   request->updates().end()),\n      {});"))
bad("nodelete_a", (A, "                                   request->updates().end()),\n      request->delete_keys());", "                                   request->updates().end()),\n      {});"))
bad("mutstatus_a", (A, "      request->delete_keys());\n  reactor->Finish(ToGrpcStatus(status));", "      request->delete_keys());\n  status.IgnoreError();\n  reactor->Finish(grpc::Status::OK);"))
bad("resetstatus_s", (S, "  auto status = table->Reset();\n  if (!status.ok()) {\n    return ToGrpcStatus(status);\n  }\n", "  auto status = table->Reset();\n  status.IgnoreError();\n"))
bad("pid_s", (S, "  if (request.pid() != getpid()) {", "  if (request.pid() == 0) {"))
bad("pid_a", (A, "      if (request_.pid() != getpid()) {", "      if (request_.pid() < 0) {"))
bad("pidinv", (A, "      if (request_.pid() != getpid()) {", "      if (request_.pid() == getpid()) {"))

ok("lt1", (S, NS_S, "    if (request.num_samples() < 1) {"))
ok("not", (A, NS_A, "      if (!(request->num_samples() > 0)) {"))
ok("autofirst", (S, "    if (request.flexible_batch_size() <= 0 &&\n        request.flexible_batch_size() != Sampler::kAutoSelectValue) {", "    const bool automatic =\n        request.flexible_batch_size() == Sampler::kAutoSelectValue;\n    if (!automatic && request.flexible_batch_size() < 1) {"))
ok("order_a", (A, "      task_info_.fetched_samples = 0;\n      task_info_.requested_samples = request->num_samples();\n", "      task_info_.requested_samples = request->num_samples();\n      task_info_.fetched_samples = 0;\n"))
ok("nested_a", (A, "      if (request->has_rate_limiter_timeout() &&\n          request->rate_limiter_timeout().milliseconds() >= 0) {\n        task_info_.timeout =\n            absl::Milliseconds(request->rate_limiter_timeout().milliseconds());\n      } else {\n        task_info_.timeout = absl::InfiniteDuration();\n      }\n", "      task_info_.timeout = absl::InfiniteDuration();\n      if (request->has_rate_limiter_timeout()) {\n        const int64_t ms = request->rate_limiter_timeout().milliseconds();\n        if (ms >= 0) task_info_.timeout = absl::Milliseconds(ms);\n      }\n"))
ok("helper_a", (A, "      if (request->has_rate_limiter_timeout() &&\n          request->rate_limiter_timeout().milliseconds() >= 0) {\n        task_info_.timeout =\n            absl::Milliseconds(request->rate_limiter_timeout().milliseconds());\n      } else {\n        task_info_.timeout = absl::InfiniteDuration();\n      }\n", "      task_info_.timeout = TimeoutOf(*request);\n"), (A, "inline grpc::Status TableNotFound(", "inline absl::Duration TimeoutOf(const SampleStreamRequest& request) {\n  if (!request.has_rate_limiter_timeout() ||\n      request.rate_limiter_timeout().milliseconds() < 0) {\n    return absl::InfiniteDuration();\n  }\n  return absl::Milliseconds(request.rate_limiter_timeout().milliseconds());\n}\n\ninline grpc::Status TableNotFound("))
ok("cmp_s", (S, "count != request.num_samples()) {", "count < request.num_samples()) {"))
ok("countint_s", (S, "      count += samples.size();", "      const int taken = samples.size();\n      count = count + taken;"))
ok("batchvar_s", (S, "      int32_t max_batch_size = std::min<int32_t>(\n          request.flexible_batch_size() == Sampler::kAutoSelectValue\n              ? default_flexible_batch_size\n              : request.flexible_batch_size(),\n          request.num_samples() - count);", "      int32_t max_batch_size = default_flexible_batch_size;\n      if (request.flexible_batch_size() != Sampler::kAutoSelectValue) {\n        max_batch_size = request.flexible_batch_size();\n      }\n      const int64_t left = request.num_samples() - count;\n      if (left < max_batch_size) max_batch_size = left;"))
ok("notfound_else", (S, "  if (table == nullptr) return TableNotFound(request->table());\n\n  auto status = table->Reset();\n" if False else "  if (table == nullptr) return TableNotFound(request->table());\n\n  auto status = table->Reset();", "  if (!table) {\n    return TableNotFound(request->table());\n  }\n\n  auto status = table->Reset();"))
ok("direct_a", (A, "  std::shared_ptr<Table> table = TableByName(request->table());\n  if (table == nullptr) {\n    reactor->Finish(TableNotFound(request->table()));\n    return reactor;\n  }\n\n  auto status = table->MutateItems(\n      std::vector<KeyWithPriority>(request->updates().begin(),\n                                   request->updates().end()),\n      request->delete_keys());\n  reactor->Finish(ToGrpcStatus(status));\n  return reactor;", "  const auto& name = request->table();\n  std::shared_ptr<Table> table = TableByName(name);\n  if (table != nullptr) {\n    std::vector<KeyWithPriority> updates(request->updates().begin(),\n                                         request->updates().end());\n    auto status = table->MutateItems(updates, request->delete_keys());\n    reactor->Finish(ToGrpcStatus(status));\n  } else {\n    reactor->Finish(TableNotFound(name));\n  }\n  return reactor;"))
ok("tableinit", (S, "  auto it = tables_.find(request.table_name());\n  if (it == tables_.end()) {\n    return TableNotFound(request.table_name());\n  }\n", "  const auto it = tables_.find(request.table_name());\n  const bool missing = it == tables_.end();\n  if (missing) return TableNotFound(request.table_name());\n"))
ok("byname", (S, "  auto it = tables_.find(name);\n  if (it == tables_.end()) return nullptr;\n  return it->second.get();", "  if (auto it = tables_.find(name); it != tables_.end()) {\n    return it->second.get();\n  }\n  return nullptr;"))
ok("bynamecond", (A, "  auto it = tables_.find(name);\n  if (it == tables_.end()) return nullptr;\n  return it->second;", "  auto it = tables_.find(name);\n  return it == tables_.end() ? std::shared_ptr<Table>() : it->second;"))
ok("next2", (K, "    return std::min<int>(flexible_batch_size,\n                         requested_samples - fetched_samples);", "    const int left = requested_samples - fetched_samples;\n    return left < flexible_batch_size ? left : flexible_batch_size;"))
ok("nextif_a", (A, "                  const int next_batch_size = task_info_.NextSampleSize();\n                  if (next_batch_size != 0) {\n                    MaybeStartSampling();", "                  if (task_info_.NextSampleSize() > 0) {\n                    MaybeStartSampling();"))
ok("pidsame", (S, "  if (request.pid() != getpid()) {", "  const bool same_process = request.pid() == getpid();\n  if (!same_process) {"))
ok("lookupearly_a", (A, "      task_info_.table = server_->TableByName(request->table());\n      if (task_info_.table == nullptr) {\n        return TableNotFound(request->table());\n      }\n", "      auto table = server_->TableByName(request->table());\n      if (table == nullptr) {\n        return TableNotFound(request->table());\n      }\n      task_info_.table = std::move(table);\n"))
