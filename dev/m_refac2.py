ALL=["P%02d"%i for i in range(1,36)]
M=[]
def ok(n,*eds): M.append((n,ALL,"ok",list(eds)))
F="sampler.cc"
S=open('/repo/reverb/cc/sampler.cc').read()
def between(a,b,s=S):
    i=s.index(a); j=s.index(b,i); return s[i:j]
HP="  bool should_stop_workers() const"
import re
HS=open('/repo/reverb/cc/sampler.h').read()
i=HS.index("bool should_stop_workers"); line=HS[HS.rindex("\n",0,i)+1:i]
ret='''  if (rate_limited != nullptr) {
    *rate_limited = sample->rate_limited();
  }

  absl::WriterMutexLock lock(&mu_);
  if (++returned_ == max_samples_) samples_.Close();
  return absl::OkStatus();
'''
ok("s-returned-helper",("sampler.h",line+"bool should_stop_workers", "  void SampleReturned() ABSL_LOCKS_EXCLUDED(mu_);\n\n"+line+"bool should_stop_workers"),
 (F,ret,ret.replace("  absl::WriterMutexLock lock(&mu_);\n  if (++returned_ == max_samples_) samples_.Close();\n","  SampleReturned();\n")),
 (F,ret,ret.replace("  absl::WriterMutexLock lock(&mu_);\n  if (++returned_ == max_samples_) samples_.Close();\n","  SampleReturned();\n")),
 (F,"    absl::WriterMutexLock lock(&mu_);\n    if (++returned_ == max_samples_) samples_.Close();\n","    SampleReturned();\n"),
 (F,"bool Sampler::should_stop_workers() const {","void Sampler::SampleReturned() {\n  absl::WriterMutexLock lock(&mu_);\n  returned_ += 1;\n  if (returned_ == max_samples_) {\n    samples_.Close();\n  }\n}\n\nbool Sampler::should_stop_workers() const {"))
ok("s-trajectory-sample-merge",("sampler.h",line+"bool should_stop_workers", "  absl::Status FinishSample(const Sample& sample, const std::vector<tensorflow::Tensor>& data, ValidationMode mode, bool* rate_limited);\n\n"+line+"bool should_stop_workers"),
 (F,"  REVERB_RETURN_IF_ERROR(\n      ValidateAgainstOutputSpec(*data, ValidationMode::kBatchedTimestep));\n\n"+ret,"  return FinishSample(*sample, *data, ValidationMode::kBatchedTimestep, rate_limited);\n"),
 (F,"  REVERB_RETURN_IF_ERROR(\n      ValidateAgainstOutputSpec(*data, ValidationMode::kTrajectory));\n\n"+ret,"  return FinishSample(*sample, *data, ValidationMode::kTrajectory, rate_limited);\n"),
 (F,"bool Sampler::should_stop_workers() const {","absl::Status Sampler::FinishSample(const Sample& sample,\n                                   const std::vector<tensorflow::Tensor>& data,\n                                   ValidationMode mode, bool* rate_limited) {\n  REVERB_RETURN_IF_ERROR(ValidateAgainstOutputSpec(data, mode));\n"+ret.replace("sample->","sample.")+"}\n\nbool Sampler::should_stop_workers() const {"))
ok("s-request-helper",(F,between("      SampleStreamRequest request;\n","      if (!stream->Write(request)) {"),'''      SampleStreamRequest request =
          MakeRequest(num_samples - num_samples_returned, rate_limiter_timeout);

'''),(F," private:\n  // Stub used to open",""" private:
  SampleStreamRequest MakeRequest(int64_t remaining,
                                  absl::Duration rate_limiter_timeout) const {
    SampleStreamRequest request;
    request.set_table(table_name_);
    request.set_flexible_batch_size(flexible_batch_size_);
    request.set_num_samples(std::min(samples_per_request_, remaining));
    request.mutable_rate_limiter_timeout()->set_milliseconds(
        NonnegativeDurationToInt64Millis(rate_limiter_timeout));
    return request;
  }

  // Stub used to open"""))
ok("s-fetch-while",(F,"      for (int64_t sampled = 0; sampled < request.num_samples();) {","      int64_t sampled = 0;\n      while (sampled != request.num_samples() && sampled < request.num_samples()) {"),
  )
ok("s-timeout-else",(F,'''            return {num_samples_returned, absl::OkStatus()};
          } else {
            return {num_samples_returned, status};
          }
''','''            status = absl::OkStatus();
          }
          return {num_samples_returned, status};
'''))
ok("s-entries-if",(F,between("          if (!parts_of_next_sample.back().end_of_sequence()) {","        }\n      }\n      if (!parts_of_next_sample.empty())"),'''          if (parts_of_next_sample.back().end_of_sequence()) {
            auto status =
                PushSample(std::move(parts_of_next_sample), queue);
            parts_of_next_sample.clear();
            if (!status.ok()) {
              return {num_samples_returned, status};
            }
            ++num_samples_returned;
            ++sampled;
          }
'''),(F," private:\n  // Stub used to open",''' private:
  static absl::Status PushSample(
      std::vector<SampleStreamResponse::SampleEntry> parts,
      internal::Queue<std::unique_ptr<Sample>>* queue) {
    std::unique_ptr<Sample> sample;
    REVERB_RETURN_IF_ERROR(AsSample(std::move(parts), &sample));
    if (!queue->Push(std::move(sample))) {
      return absl::CancelledError("`Close` called on Sampler");
    }
    return absl::OkStatus();
  }

  // Stub used to open'''))
ok("s-runworker-scope",(F,between("    mu_.LockWhen(absl::Condition(&trigger));","    auto result = worker->FetchSamples("),'''    int64_t samples_to_stream;
    {
      absl::MutexLock lock(&mu_);
      mu_.Await(absl::Condition(&trigger));
      if (should_stop_workers()) {
        return;
      }
      samples_to_stream =
          std::min<int64_t>(max_samples_per_stream_, max_samples_ - requested_);
      requested_ += samples_to_stream;
    }

'''))
ok("s-runworker-binding",(F,"    auto result = worker->FetchSamples(&samples_, samples_to_stream,\n                                       rate_limiter_timeout_);","    auto [num_fetched, status] = worker->FetchSamples(\n        &samples_, samples_to_stream, rate_limiter_timeout_);"),
 (F,"      requested_ -= samples_to_stream - result.first;","      requested_ = requested_ - (samples_to_stream - num_fetched);"),
 (F,'''      if (worker_status_.ok() && !result.second.ok() &&
          !absl::IsUnavailable(result.second)) {
        worker_status_ = result.second;
''','''      const bool fatal = !status.ok() && !absl::IsUnavailable(status);
      if (fatal && worker_status_.ok()) {
        worker_status_ = status;
'''))
ok("s-pop-order",(F,between("  if (samples_.Pop(sample)) return absl::OkStatus();","void Sampler::RunWorker"),'''  if (!samples_.Pop(sample)) {
    absl::ReaderMutexLock lock(&mu_);
    const bool all_returned = returned_ == max_samples_;
    if (all_returned) {
      return absl::OutOfRangeError("`max_samples` already returned.");
    }
    return closed_ ? absl::CancelledError("Sampler has been cancelled.")
                   : worker_status_;
  }
  return absl::OkStatus();
}

'''))
ok("s-unpack-for",(F,between("  int64_t i = 4;\n","  return absl::OkStatus();\n}\n\nabsl::Status Sampler::Options"),'''  for (int64_t i = 0; i < columns_.size(); ++i) {
    auto& column = columns_[i];
    auto& out = (*data)[i + 4];
    if (column.size() == 1) {
      out = std::move(column.front().tensor);
      continue;
    }
    std::vector<tensorflow::Tensor> column_tensors;
    for (auto& slice : column) {
      column_tensors.emplace_back(std::move(slice.tensor));
    }
    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
        tensorflow::tensor::Concat(column_tensors, &out)));
  }
'''),("sampler.h","XXX","XXX") if False else (F,"  REVERB_CHECK_EQ(data->size(), columns_.size() + 4);\n","  REVERB_CHECK_EQ(data->size(), 4 + columns_.size());\n"))
ok("s-assample-order",(F,between("  // Count the number of times each chunk is referenced","  // Extract all chunks belonging to this sample.\n"),''),
 (F,"  const auto& columns = info.item().flat_trajectory().columns();\n","""  const auto& columns = info.item().flat_trajectory().columns();
  internal::flat_hash_map<uint64_t, int> chunk_ref_count;
  for (int i = 0; i < columns.size(); i++) {
    for (const auto& slice : columns[i].chunk_slices()) {
      ++chunk_ref_count[slice.chunk_key()];
    }
  }
"""),
 (F,'''      if (--chunk_ref_count[slice.chunk_key()] == 0) {
        chunks.erase(it);
      }
''','''      int& refs_left = chunk_ref_count[slice.chunk_key()];
      refs_left--;
      if (refs_left == 0) {
        chunks.erase(slice.chunk_key());
      }
'''))
ok("s-local-oneloop",(F,between("  std::vector<std::vector<tensorflow::Tensor>> column_chunks;\n  column_chunks.reserve(","  *sample = absl::make_unique<deepmind::reverb::Sample>("),'''  std::vector<std::vector<tensorflow::Tensor>> column_chunks;
  std::vector<bool> squeeze_columns;
  const auto& trajectory = sampled_item.ref->item.flat_trajectory();
  for (int i = 0; i < trajectory.columns_size(); ++i) {
    const auto& column = trajectory.columns(i);
    squeeze_columns.push_back(column.squeeze());
    column_chunks.emplace_back();
    auto& unpacked_chunks = column_chunks.back();
    for (const auto& slice : column.chunk_slices()) {
      unpacked_chunks.emplace_back();
      REVERB_RETURN_IF_ERROR(internal::UnpackChunkColumnAndSlice(
          chunks.at(slice.chunk_key())->data(), slice,
          &unpacked_chunks.back()));
    }
  }

'''))
ok("s-local-closed",(F,'''      {
        absl::MutexLock lock(&mu_);
        if (closed_) {
          return {0, absl::CancelledError("`Close` called on Sampler.")};
        }
      }

      // If the rate''','''      if (IsClosed()) {
        return {0, absl::CancelledError("`Close` called on Sampler.")};
      }

      // If the rate'''),(F," private:\n  std::shared_ptr<Table> table_;",''' private:
  bool IsClosed() ABSL_LOCKS_EXCLUDED(mu_) {
    absl::MutexLock lock(&mu_);
    return closed_;
  }

  std::shared_ptr<Table> table_;'''))
ok("s-compose-sizes",(F,between("  int prev_column_length = -1;","bool Sample::rate_limited() const"),'''  absl::optional<int> expected;
  for (const auto& col : columns_) {
    int length = 0;
    for (const auto& slice : col) {
      length += slice.tensor.dim_size(0);
      length -= slice.offset;
    }
    if (!expected.has_value()) {
      expected = length;
    } else if (*expected != length) {
      return false;
    }
  }
  return true;
}

'''))
ok("s-timestep-ref",(F,between("    auto slice = col.front().tensor.SubSlice(","  return result;\n}\n\nbool Sample::is_end"),'''    auto& chunk = col.front();
    tensorflow::Tensor slice = chunk.tensor.SubSlice(chunk.offset);
    chunk.offset++;
    result.push_back(slice.IsAligned() ? slice
                                       : tensorflow::tensor::DeepCopy(slice));

    if (chunk.offset == chunk.tensor.dim_size(0)) {
      col.pop_front();
    }
  }

'''))
ok("s-validate-helper",(F,"  if (max_samples < 1 && max_samples != kUnlimitedMaxSamples) {","  const bool unlimited = max_samples == kUnlimitedMaxSamples;\n  if (!unlimited && max_samples < 1) {"))
ok("s-close-lambda",(F,'''  {
    absl::WriterMutexLock lock(&mu_);
    if (closed_) return;
    closed_ = true;
  }

  for (auto& worker : workers_) {
    worker->Cancel();
  }
''','''  bool already_closed;
  {
    absl::WriterMutexLock lock(&mu_);
    already_closed = std::exchange(closed_, true);
  }
  if (already_closed) return;

  std::for_each(workers_.begin(), workers_.end(),
                [](const auto& worker) { worker->Cancel(); });
'''),(F,"#include <","#include <utility>\n#include <"))
M=[m for m in M]
